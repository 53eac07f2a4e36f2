#!/usr/bin/env python3
"""replay.py FILE: runs the scenario of a replay file again on /repo's working tree.

Shows the events up to the step that the specification does not allow.
Exit 0: it is allowed now.  Exit 1: it is not."""
import importlib, json, os, shutil, sys, tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    d = json.load(open(sys.argv[1]))
    eng = importlib.import_module(d["engine"])
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        if d.get("scenario"):
            binary = eng.build(tmp) if hasattr(eng, "build") else vlib.build_driver(eng.DRIVER, tmp)
            evs, deaths = getattr(eng, "run_driver", vlib.run_driver)(binary, [d["scenario"]], tmp, "replay")
            for x in deaths:
                print("the program ended early: " + x["tail"][-800:])
        else:
            print("no scenario to run: judging the recorded events")
            evs = d["events"]
        ok, pos, _ = vlib.judge(eng.MODULE, eng.CONSTS, evs, tmp, {d["property"]})
        for i, e in enumerate(evs[:pos + 1 if not ok else len(evs)], 1):
            print("%s %s" % (">>" if not ok and i == pos else "  ", json.dumps(e, separators=(",", ":"))[:300]))
        print("%s: %s" % (d["property"], "allowed by the specification" if ok else "broken at step %d" % pos))
        return 0 if ok else 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
