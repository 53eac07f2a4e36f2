"""Shared machinery of the checks: building drivers from /repo's working tree, running TLC,
judging traces."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("COMFO_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MODULE = "github.com/ti-mo/comfo"


class CheckError(Exception):
    """The check itself could not be carried out (no verdict)."""
    at = 0        # the event that TLC stopped at, if that is what happened


def run(cmd, timeout=600, env=None, cwd=None, check=True, stdin=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=e, cwd=cwd, text=True, errors="replace", input=stdin)
    except subprocess.TimeoutExpired as ex:
        raise CheckError("timed out: %s\n%s" % (" ".join(cmd), (ex.stdout or b"")[-2000:]))
    if check and p.returncode != 0:
        raise CheckError("failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-6000:]))
    return p


def goenv():
    """The environment of /opt/vp/env.sh, and a way out when it is not there."""
    env = {"GOFLAGS": "-mod=mod -buildvcs=false", "GOPROXY": "off", "GOTOOLCHAIN": "local"}
    if os.path.exists("/opt/vp/env.sh"):
        out = subprocess.run(["bash", "-c", "set -a; . /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                             stdout=subprocess.PIPE).stdout.decode(errors="replace")
        for kv in out.split("\0"):
            k, _, v = kv.partition("=")
            if k.startswith("GO") or k in ("PATH", "CGO_ENABLED"):
                env[k] = v
    return env


def go_sources(pkgdir):
    return [f for f in sorted(os.listdir(pkgdir)) if f.endswith(".go") and not f.endswith("_test.go")]


def overlay(tmp, shim_sync=True, extra=None):
    """Overlay that adds the harness packages to the module and, with shim_sync, puts vsync in
    the place of sync in the packages under test."""
    rep = {}
    for pkg in ("vsync", "vlog", "linkdrv", "srvdrv", "racedrv", "appdrv"):
        d = os.path.join(VERIF, "harness", pkg)
        if not os.path.isdir(d):
            continue
        for f in os.listdir(d):
            if f.endswith(".go"):
                rep[os.path.join(REPO, "zzverif", pkg, f)] = os.path.join(d, f)
    if shim_sync:
        for pkg in ("libcomfo", "comfoserver"):
            src = os.path.join(REPO, pkg)
            dst = os.path.join(tmp, "src", pkg)
            os.makedirs(dst, exist_ok=True)
            for f in go_sources(src):
                text = open(os.path.join(src, f)).read()
                new = re.sub(r'^(\s*(?:import\s+)?)"sync"\s*$', r'\1sync "%s/zzverif/vsync"' % MODULE, text, flags=re.M)
                if new != text:
                    open(os.path.join(dst, f), "w").write(new)
                    rep[os.path.join(src, f)] = os.path.join(dst, f)
    if extra:
        rep.update(extra)
    path = os.path.join(tmp, "overlay-%s.json" % ("s" if shim_sync else "p"))
    json.dump({"Replace": rep}, open(path, "w"))
    return path


def build_driver(name, tmp, tags="faketime", race=False, shims=(True, False)):
    """Builds harness program name against /repo's working tree."""
    out = os.path.join(tmp, name + ("-race" if race else ""))
    err = None
    for shim in shims:
        cmd = ["go", "build", "-overlay", overlay(tmp, shim), "-o", out]
        if tags:
            cmd += ["-tags", tags]
        if race:
            cmd += ["-race"]
        cmd += ["./zzverif/" + name]
        env = goenv()
        # with cgo in it a program's virtual time stands still
        env["CGO_ENABLED"] = "1" if race else "0"
        p = run(cmd, timeout=600, env=env, cwd=REPO, check=False)
        if p.returncode == 0:
            return out
        err = p.stdout
    raise CheckError("driver %s does not build:\n%s" % (name, err[-4000:]))


def write_nd(path, items):
    with open(path, "w") as f:
        for i in items:
            f.write(json.dumps(i, separators=(",", ":")) + "\n")


def read_nd(path):
    out = []
    with open(path) as f:
        for line in f:
            try:
                out.append(json.loads(line))
            except ValueError:
                pass          # torn last line of a program that died
    return out


def run_driver(binary, scenarios, tmp, name, timeout=300, env=None):
    """Runs the driver over scenarios, again and again past those that stop it. Returns the events."""
    events = []
    todo = list(scenarios)
    part = 0
    deaths = []
    while todo:
        part += 1
        scn = os.path.join(tmp, "%s.%d.scn" % (name, part))
        trc = os.path.join(tmp, "%s.%d.trc" % (name, part))
        write_nd(scn, todo)
        e = {"GOMAXPROCS": "1", "GOTRACEBACK": "single"}
        e.update(env or {})
        try:
            p = run([binary, scn, trc], timeout=timeout, env=e, check=False)
        except CheckError:
            p = None
        evs = read_nd(trc) if os.path.exists(trc) else []
        begun = sum(1 for v in evs if v["e"] == "begin")
        tail = clean(p.stdout[-3000:]) if p else "no end within %d s" % timeout
        if p is None or p.returncode != 0:
            if begun == 0:
                raise CheckError("driver died before its first scenario: " + tail)
            if p is not None and p.returncode == 2 and not re.search("panic|fatal error|SIG", clean(p.stdout)):
                raise CheckError("driver failed: " + tail)
            deaths.append({"scenario": todo[begun - 1]["id"], "tail": tail[-1500:]})
            if evs[-1]["e"] not in ("end", "hang"):
                evs.append({"e": "crash", "t": evs[-1]["t"], "text": tail[-800:]})
        events += evs
        if begun == 0:
            break
        todo = todo[begun:]
        if part > 40:
            break             # each of these was a hang or a crash: enough seen
    return events, deaths


def clean(s):
    return re.sub(r"\x00\x00PB.{12}", "", s, flags=re.S)


def tlc(module, cfg, tmp, env=None, workers=1, timeout=900, extra=(), heap="3g", deque=False, nice=False):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=tmp)
    cfgp = os.path.join(meta, module + ".cfg")
    open(cfgp, "w").write(cfg)
    cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-Xss64m", "-Djava.io.tmpdir=" + meta, "-DTLA-Library=" + SPEC]
    if nice:
        cmd = ["nice", "-n", "15"] + cmd
    if deque:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", JARS, "tlc2.TLC", "-config", cfgp, "-metadir", meta, "-workers", str(workers),
            "-noGenerateSpecTE"] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    p = run(cmd, timeout=timeout, env=env, cwd=meta, check=False)
    p.secs = time.time() - t0
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
    p.generated, p.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    shutil.rmtree(meta, ignore_errors=True)
    return p


def cfg_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (set, frozenset, list, tuple)):
        return "{" + ", ".join(cfg_value(i) for i in sorted(v)) + "}"
    if isinstance(v, str):
        return '"%s"' % v
    return str(v)


def cfg_text(spec, consts, more=""):
    lines = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
    if consts:
        lines.append("CONSTANTS")
        lines += ["  %s = %s" % (k, cfg_value(v)) for k, v in consts.items()]
    return "\n".join(lines) + "\n" + more + "\n"


def judge(module, consts, events, tmp, enforce, timeout=900, deque=False):
    """Runs the trace specification over the events. Returns (accepted, position, output)."""
    fd, trc = tempfile.mkstemp(prefix=module, suffix=".ndjson", dir=tmp)
    os.close(fd)
    write_nd(trc, events)
    c = dict(consts)
    c["Enforce"] = set(enforce)
    c["Report"] = False
    p = tlc(module, cfg_text("TraceSpec", c, "POSTCONDITION Accepted"), tmp, env={"TRACE": trc},
            timeout=timeout, deque=deque)
    m = re.search(r'"ACCEPTED", (\d+)', p.stdout)
    if m and int(m.group(1)) == len(events) and "No error has been found" in p.stdout:
        os.unlink(trc)
        return True, len(events), p
    m = re.search(r'"REJECTED", (\d+)', p.stdout)
    # an error while evaluating is no verdict
    errors = [l for l in p.stdout.splitlines() if l.startswith("Error:") and "ostcondition" not in l]
    if not m or errors:
        ex = CheckError("TLC gave no verdict on the trace:\n" + p.stdout[-4000:])
        at = re.findall(r"^/\\ l = (\d+)", p.stdout, re.M)
        ex.at = int(at[-1]) if at and errors else 0
        raise ex
    return False, int(m.group(1)), p
