#!/bin/bash
# Nothing to install: checks that the tools are there and the specifications parse.
set -e
cd "$(dirname "$0")/.."
. /opt/vp/env.sh 2>/dev/null || true
command -v java go python3 >/dev/null
mkdir -p evidence
tmp=$(mktemp -d)
for m in spec/*.tla; do
  java -Djava.io.tmpdir="$tmp" -DTLA-Library=spec -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >"$tmp/out" 2>&1 && ! grep -q "^Semantic errors" "$tmp/out" || { cat "$tmp/out"; exit 1; }
done
rm -rf "$tmp"
