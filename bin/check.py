#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's working tree.

Exit 0: it held on everything explored.  Exit 1 with a VIOLATION line: it is broken.
Anything else: the check could not be carried out."""
import concurrent.futures, json, os, re, shutil, sys, tempfile, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import CheckError

CORES = max(2, os.cpu_count() or 2)


def engine(prop):
    import eng_link
    if prop in eng_link.PROPS:
        return eng_link
    import eng_server
    if prop in eng_server.PROPS:
        return eng_server
    import eng_http
    if prop in eng_http.PROPS:
        return eng_http
    import eng_boot
    if prop in eng_boot.PROPS:
        return eng_boot
    import eng_py
    if prop in eng_py.PROPS:
        return eng_py
    raise CheckError("no such property: " + prop)


def known():
    """Entries of known-findings.json."""
    path = os.path.join(vlib.VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("findings", [])


def chunks(scns, weight, limit):
    cur, w = [], 0
    for s in scns:
        cur.append(s)
        w += weight(s)
        if w >= limit:
            yield cur
            cur, w = [], 0
    if cur:
        yield cur


def split_events(events):
    """Events by scenario."""
    out = []
    for e in events:
        if e["e"] == "begin":
            out.append([])
        out[-1].append(e)
    return out


def labels(eng, events, tmp):
    """Which properties a scenario's events break, and where."""
    c = dict(eng.CONSTS)
    c.update({"Enforce": set(), "Report": True})
    trc = tempfile.mktemp(dir=tmp, suffix=".nd")
    vlib.write_nd(trc, events)
    p = vlib.tlc(eng.MODULE, vlib.cfg_text("TraceSpec", c, "POSTCONDITION Accepted"), tmp, env={"TRACE": trc})
    out = []
    for m in re.finditer(r'"BROKEN", \{(.*?)\}, (\d+)>>', p.stdout):
        out.append({"labels": re.findall(r'"(\w+)"', m.group(1)), "event": int(m.group(2))})
    return out, p


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-")
        self.models, self.samples, self.tags = [], [], {}
        self.scenarios = self.events = self.deaths = 0
        self.kinds = {}
        self.violations = []
        self.errors = []
        self.notes = []
        self.unconfirmed = 0
        self.cover = {}

    def elapsed(self):
        return time.time() - self.t0

    # ------------------------------------------------------------------
    def batch(self, eng, binary, scns, name):
        """Runs scenarios on the real code and judges what it did."""
        evs, deaths = getattr(eng, "run_driver", vlib.run_driver)(binary, scns, self.tmp, name)
        if len(deaths) > max(3, len(scns) // 2):
            self.notes.append("many runs ended early: %s" % deaths[0]["tail"][-300:])
        found = []
        todo = evs
        while todo:
            try:
                ok, pos, p = vlib.judge(eng.MODULE, eng.CONSTS, todo, self.tmp, {self.prop})
            except CheckError as ex:
                # leave out the scenario that it stumbles over
                if not ex.at or len(self.errors) > 20:
                    raise
                self.errors.append(ex)
                ok, pos = None, ex.at
            if ok:
                break
            per, at = split_events(todo), 0
            for i, s in enumerate(per):
                if at + len(s) >= pos:
                    break
                at += len(s)
            if ok is not None:
                found.append((per[i], pos - at))
            todo = [e for s in per[i + 1:] for e in s]
            if len(found) >= 3:
                break
        return evs, deaths, found

    def absorb(self, eng, scns, res):
        evs, deaths, found = res
        self.deaths += len(deaths)
        self.events += len(evs)
        for e in evs:
            self.kinds[e["e"]] = self.kinds.get(e["e"], 0) + 1
            if e["e"] == "begin":
                self.scenarios += 1
                t = e.get("tag", "")
                self.tags[t] = self.tags.get(t, 0) + 1
        if not self.samples and evs:
            per = split_events(evs)
            for s in (per[0], per[len(per) // 2]):
                self.samples.append({"trace": [json.dumps(e, separators=(",", ":"))[:400] for e in s[:40]]})
        byid = {s["id"]: s for s in scns}
        for s, pos in found:
            scn = byid.get(s[0].get("id"))
            if getattr(eng, "CONFIRM", 0) and scn and len(self.violations) < 3:
                s, pos = self.again(eng, scn, eng.CONFIRM)
                if not s:
                    continue
            self.violation(eng, scn, s, pos)

    def again(self, eng, scn, times):
        """In real time the machine can spoil a run: the violation has to show a second time."""
        for k in range(times):
            if self.elapsed() > (600 if self.tier == "quick" else 800):
                break
            _, _, found = self.batch(eng, self.binary, [scn], "again%d.%d" % (self.scenarios, k))
            if found:
                return found[0]
        self.unconfirmed += 1
        line = "NOT CONFIRMED: scenario %s (%s), %d times more" % (scn["id"], scn.get("tag"), times)
        self.notes.append(line)
        return None, 0

    def violation(self, eng, scn, events, pos):
        lab, _ = labels(eng, events, self.tmp)
        text = "step %d of scenario %s (%s)" % (pos, events[0].get("id"), events[0].get("tag"))
        fp = eng.fingerprint(self.prop, scn, events, pos) if hasattr(eng, "fingerprint") else ""
        for k in known():
            if k.get("property") == self.prop and fp and k.get("fingerprint") == fp:
                line = "KNOWN-FINDING: property=%s %s" % (self.prop, k.get("what", ""))
                if line not in self.notes:
                    self.notes.append(line)
                return
        d = os.path.join(vlib.VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-%d.json" % (self.prop, self.seed, len(self.violations) + 1))
        json.dump({"property": self.prop, "engine": eng.__name__, "step": pos, "what": text, "broken": lab,
                   "scenario": scn, "events": events[:pos + 3],
                   "rerun": "python3 bin/replay.py " + path}, open(path, "w"), indent=1)
        self.violations.append((path, text, lab))

    # ------------------------------------------------------------------
    def models_done(self, name, p, must_hold):
        if must_hold:
            if "No error has been found" not in p.stdout:
                raise CheckError("the specification fails its own check: %s\n%s" % (name, p.stdout[-2500:]))
        elif not re.search(r"Invariant \S+ is violated|Temporal properties were violated|is violated", p.stdout):
            raise CheckError("a deliberate flaw goes unnoticed: %s\n%s" % (name, p.stdout[-3000:]))
        self.models.append({"run": name, "holds": must_hold, "states": p.distinct, "transitions": p.generated,
                            "secs": round(p.secs, 1)})

    def go(self):
        eng = engine(self.prop)
        if hasattr(eng, "main"):
            eng.main(self)
        else:
            self.standard(eng)
        return self.finish(eng)

    def standard(self, eng):
        quick = self.tier == "quick"
        budget = 0 if quick else 420
        jobs = eng.model_jobs(self.prop, self.tier)
        with concurrent.futures.ThreadPoolExecutor(max_workers=max(2, CORES - 2)) as ex, \
                concurrent.futures.ThreadPoolExecutor(max_workers=1 if quick else 2) as mx:
            side = [ex.submit(f, self) for f in getattr(eng, "BACKGROUND", {}).get(self.prop, [])]
            sims = ex.submit(eng.model_scenarios, self.prop, self.seed, self.tier, self.tmp)
            binary = eng.build(self.tmp) if hasattr(eng, "build") else vlib.build_driver(eng.DRIVER, self.tmp)
            self.binary = binary
            mfs = [(n, mx.submit(f, self.tmp), hold) for n, f, hold in jobs]
            rnd = 0
            while True:
                scns = eng.rounds(self.prop, self.seed, self.tier, rnd)
                if rnd == 0:
                    scns = sims.result() + scns
                total = sum(eng.weight(s) for s in scns)
                limit = max(3000, min(25000, total // CORES + 1))
                parts = list(chunks(scns, eng.weight, limit))
                fs = [(c, ex.submit(self.batch, eng, binary, c, "r%d.%d" % (rnd, i))) for i, c in enumerate(parts)]
                for c, f in fs:
                    try:
                        self.absorb(eng, c, f.result())
                    except CheckError as ex:
                        self.errors.append(ex)
                rnd += 1
                if self.violations or self.errors or self.elapsed() >= budget:
                    break
            self.rounds = rnd
            for f in side:
                self.absorb(eng, *f.result())
            if self.errors and not self.violations:
                raise self.errors[0]
            if self.violations:
                for _, f, _ in mfs:
                    f.cancel()
            else:
                for n, f, hold in mfs:
                    self.models_done(n, f.result(), hold)

    def finish(self, eng):
        cov = {"states": sum(m["states"] for m in self.models), "transitions": sum(m["transitions"] for m in self.models),
               "traces_validated_against_impl": self.scenarios, "samples": self.samples,
               "model_runs": self.models, "scenarios_by_family": self.tags, "events": self.events,
               "events_by_kind": self.kinds, "runs_of_the_code_that_ended_early": self.deaths}
        if self.unconfirmed:
            cov["violations_that_did_not_show_again"] = self.unconfirmed
        cov.update(self.cover)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": getattr(eng, "ASSUMPTIONS", []), "wall_s": round(self.elapsed(), 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(vlib.VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for n in self.notes:
            print(n)
        for path, text, lab in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  %s %s" % (text, lab))
        if self.violations:
            return 1
        if self.scenarios == 0:
            raise CheckError("nothing was explored")
        print("%s held: %d scenarios (%d events) of the real code judged, %d model runs with %d states, %.0f s" % (
            self.prop, self.scenarios, self.events, len(self.models), cov["states"], self.elapsed()))
        return 0


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    r = Run(prop, tier, seed)
    try:
        code = r.go()
    except CheckError as ex:
        print("CHECK ERROR: %s" % ex)
        code = 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        code = 3
    finally:
        shutil.rmtree(r.tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
