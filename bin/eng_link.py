"""The library's properties (C01-C11): Wire, Scan, Link, LinkImpl, LinkTrace."""
import json, random
import vlib
from gen_link import G, GET

MODULE = "LinkTrace"
DRIVER = "linkdrv"
# microseconds
CONSTS = {"Timeout": 1000000, "Early": 950000, "Late": 1100000, "Prompt": 100000, "Glance": 1000}
TICK = 500000
PROPS = ["C%02d" % i for i in range(1, 12)]


# Scenarios ------------------------------------------------------------------
def rounds(prop, seed, tier, rnd):
    """The scenarios of one round. The families that bear on the property most come in numbers,
    the others at a tenth."""
    g = G("%s/%s/%d/%d" % (prop, tier, seed, rnd), "%s.%d" % (prop.lower(), rnd))
    r = g.r
    w = {"C01": {"requests", "lengths"}, "C02": {"replies", "lengths"},
         "C03": {"malformed", "truncations", "substitutions"}, "C04": {"acks", "outcomes"},
         "C05": {"outcomes", "replies"}, "C06": {"concurrent"}, "C07": {"stalls"},
         "C08": {"histories"}, "C09": {"decode", "bytewise", "keeps"}, "C10": {"setters"},
         "C11": {"rmw", "profiles"}}[prop]

    def k(fam, n):
        return n if fam in w else max(1, n // 10)

    out = []
    out += g.requests(k("requests", 150))
    out += g.lengths(1 if "lengths" in w else 17, 0 if "lengths" in w else r.randrange(17))
    out += g.replies(k("replies", 200))
    out += g.malformed(k("malformed", 600))
    ops = sorted(GET)
    out += sum((g.truncations(o) for o in (ops if "truncations" in w else [r.choice(ops)])), [])
    out += sum((g.substitutions(o, [0, 1, 7, 15, 240, 243, 255, r.randrange(256)], r.randrange(2), 2)
                for o in (r.sample(ops, 4) if "substitutions" in w else [])), [])
    out += g.acks(k("acks", 250))
    out += g.outcomes(k("outcomes", 400))
    out += g.stalls(k("stalls", 300))
    out += g.histories(k("histories", 250))
    out += g.concurrent(k("concurrent", 250), faults=True)
    out += g.concurrent(k("concurrent", 100), faults=False)
    out += g.concurrent(k("profiles", 250), True, True)
    out += g.rmw(k("rmw", 400))
    out += g.decode(k("decode", 300))
    out += g.keeps(k("keeps", 200))
    if "bytewise" in w:
        for o in ops:
            for i in range(GET[o][1]):
                out += g.bytewise(o, i, 1 if tier == "thorough" or GET[o][1] < 10 else 3)
    else:
        o = r.choice(ops)
        out += g.bytewise(o, r.randrange(GET[o][1]), 8)
    if "setters" in w or rnd == 0:
        out += g.setters()
    return out


# Behaviours of the model, replayed ---------------------------------------------
SIMS = {"C02": [("solo3", "split,slow,bytes,quick")], "C03": [("get", "half,wrong,junk,eof,err")],
        "C04": [("sets4", "lost,half,junk,eof")], "C05": [("solo4", "lost,half,wrong,split")],
        "C06": [("trio", "lost,half,late"), ("duo2", "split,half")], "C07": [("duo2", "lost,half,slow,edge")],
        "C08": [("solo4", "lost,late,half,double,tail,junk"), ("same4", "late,verylate,double,slow,half"),
                ("sets4", "late,lost,half,double")],
        "C10": [("sets4", "half")], "C11": [("rmw3", "lost,half"), ("rmwq", "split,half")]}


def mc_cfg(load, quirks, faulty, wfaults, flaw="none", sim=False, times=(2, 1, 2)):
    q = ", ".join('"%s"' % i for i in quirks.split(","))
    return """SPECIFICATION %s
%s
CONSTANTS
 Timeout = %d
 Early = %d
 Late = %d
 Prompt = 0
 Glance <- MCGlance
 Load = "%s"
 Quirks = {%s}
 MaxFaulty = %d
 WriteFaults = %d
 Callers <- MCCallers
 Prog <- MCProg
 Answers <- MCAnswers
 Unit0 <- MCUnit0
 Flaw = "%s"
%s
INVARIANTS %s
""" % (("SimSpec" if sim else "Spec"), "CHECK_DEADLOCK FALSE" if sim else "", times[0], times[1], times[2], load, q,
       faulty, wfaults, flaw, "" if sim else "VIEW View", "Emit" if sim else "NoViolation OneQuery Sequential")


def simulate(load, quirks, num, seed, tmp, wfaults=0):
    p = vlib.tlc("MCLink", mc_cfg(load, quirks, 3, wfaults, sim=True), tmp, timeout=300,
                 extra=["-simulate", "num=%d" % num, "-depth", "600", "-seed", str(seed)])
    hs = [json.loads(json.loads(l)[4:]) for l in p.stdout.splitlines() if l.startswith('"SCN ')]
    if not hs:
        raise vlib.CheckError("no behaviours from the model:\n" + p.stdout[-3000:])
    return hs


def replayable(hists, prefix, seed):
    """Behaviours of LinkImpl as scenarios for the driver."""
    r = random.Random(seed)
    out, seen, cid = [], set(), 0
    for h in hists:
        key = json.dumps(h)
        if key in seen:
            continue
        seen.add(key)
        lanes, replies, wf, writes = {}, [], {}, 0
        for e in h:
            if e["h"] == "call":
                cid += 1
                lanes.setdefault(e["c"], []).append({"id": cid, "gap": 0, "at": e["t"] * TICK, "op": e["op"], "a": e["a"]})
            elif e["h"] == "ans":
                replies.append([{"d": g["d"] * TICK + 1000, "b": g["b"], "err": g["err"]} for g in e["segs"]])
                writes += 1
            elif e["h"] == "ack":
                writes += 1
            elif e["h"] == "wfail":
                wf[str(writes)] = r.choice(["err", "short"])
                writes += 1
        out.append({"id": "%s-m%d" % (prefix, len(out) + 1), "tag": "model", "seed": r.choice([0, 0, r.randrange(1, 1 << 30)]),
                    "stream": r.random() < .5, "lanes": [lanes[c] for c in sorted(lanes)], "replies": replies,
                    "auto": True, "delay": 20000, "state": {}, "wfault": wf})
    return out


def model_scenarios(prop, seed, tier, tmp):
    out = []
    for i, (load, quirks) in enumerate(SIMS.get(prop, [])):
        hs = simulate(load, quirks, 120 if tier == "quick" else 1500, seed * 100 + i + 1, tmp,
                      1 if prop in ("C04", "C05", "C01") else 0)
        out += replayable(hs, "%s.%s" % (prop.lower(), load), seed * 100 + i)
    return out


# Exhaustive runs ----------------------------------------------------------------
QUICK = {"C02": [("solo3", "lost,edge,late,split,slow,bytes", 2, 0)],
         "C03": [("get", "quick,bytes,eof,err,wrong,junk,half,double", 2, 1)],
         "C04": [("sets4", "lost,late,half,junk,eof", 2, 1)],
         "C05": [("solo3", "lost,half,wrong,split,double,eof", 2, 1)],
         "C06": [("trio", "lost,late,half", 2, 0), ("duo", "lost,late,half,double,split", 2, 1)],
         "C07": [("duo2", "lost,half,slow", 2, 0)],
         "C08": [("solo4", "lost,late,half,junk,double", 2, 0), ("same4", "late,verylate,double,slow", 2, 0)],
         "C10": [("sets4", "lost,half", 1, 0)],
         "C11": [("rmw2", "lost,late,half,split", 2, 0), ("rmw3", "lost", 1, 0)]}
THOROUGH = {"C02": [("solo4", "lost,edge,late,split,slow,bytes,eof", 3, 1)],
            "C03": [("get", "quick,lost,bytes,eof,err,wrong,junk,half,double,tail", 2, 1)],
            "C04": [("sets4", "lost,late,verylate,half,junk,eof,err,double", 4, 1)],
            "C05": [("solo4", "lost,half,wrong,split,double,eof", 3, 1)],
            "C06": [("trio", "lost,late,half,double,split", 3, 1), ("duo2", "lost,late,half,double", 3, 1)],
            "C07": [("duo2", "lost,half,slow,edge,junk", 3, 0)],
            "C08": [("solo4", "lost,late,half,junk,tail,double,wrong", 4, 0),
                    ("same4", "lost,late,verylate,half,slow,double,tail", 4, 0)],
            "C10": [("sets4", "lost,half,eof,late", 3, 1)],
            "C11": [("rmw2", "lost,late,half,split,wrong,double", 4, 1), ("rmw3", "lost,half", 2, 0), ("rmwq", "lost", 2, 0)]}
FLAWS = {"C02": [("solo3", "lost,edge,half,slow", "hasty")], "C03": [("solo3", "eof,late,half", "eofok")],
         "C05": [("solo3", "lost,late,half,double", "noack")], "C07": [("duo", "lost,late,half", "patient")],
         "C08": [("solo4", "lost,late,half,double", "keep"), ("solo4", "lost,late,half,double", "swallow"),
                 ("solo4", "lost,late,junk,double", "nodrain")],
         "C11": [("rmw2", "lost", "noAPI")], "C04": [("sets4", "eof", "eofok")]}
SCAN = {"C02": (89, 97), "C03": (10, 69), "C04": (10,)}


def model_jobs(prop, tier):
    """Exhaustive TLC runs: (name, function of tmp that returns a TLC result, expected to pass)."""
    jobs = []
    runs = QUICK.get(prop, []) if tier == "quick" else QUICK.get(prop, []) + THOROUGH.get(prop, [])
    for load, quirks, faulty, wf in runs:
        jobs.append(("MCLink load=%s quirks={%s} faulty<=%d writefaults<=%d" % (load, quirks, faulty, wf),
                     lambda tmp, a=(load, quirks, faulty, wf): vlib.tlc(
                         "MCLink", mc_cfg(*a), tmp, workers=2 if tier == "quick" else 3, heap="6g", timeout=850), True))
    if tier == "thorough":
        for load, quirks, faulty, wf in QUICK.get(prop, []):
            jobs.append(("MCLink times=3/2/3 load=%s quirks={%s}" % (load, quirks),
                         lambda tmp, a=(load, quirks, faulty, wf): vlib.tlc(
                             "MCLink", mc_cfg(*a, times=(3, 2, 3)), tmp, workers=3, heap="6g", timeout=850), True))
    for cmd in SCAN.get(prop, ())[:1 if tier == "quick" else 9]:
        n = 5 if tier == "quick" else 7
        jobs.append(("MCScan tail=%d cmd=%d" % (n, cmd), lambda tmp, c=cmd, n=n: vlib.tlc(
            "MCScan", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Tail_=%d\n Cmd=%d\n"
            " Alphabet={7,15,240,243,1}\nINVARIANT Agree\n" % (n, c), tmp, workers=3, heap="6g", timeout=850), True))
    if prop in ("C01", "C02", "C09", "C10", "C11"):
        n = 3 if tier == "quick" else 5
        jobs.append(("MCWire payloads<=%d" % n, lambda tmp, n=n: vlib.tlc(
            "MCWire", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxLen=%d\n Alphabet={7,15,240,243,0,%d}\n"
            " Cmds={10,89,97,66,69}\nINVARIANTS RoundTrip Beginnings Substitutions Ranges\n" % (n, 131), tmp,
            workers=3, heap="4g", timeout=850), True))
    for load, quirks, flaw in FLAWS.get(prop, []):
        jobs.append(("MCLink load=%s quirks={%s} Flaw=%s" % (load, quirks, flaw),
                     lambda tmp, a=(load, quirks, flaw): vlib.tlc(
                         "MCLink", mc_cfg(a[0], a[1], 2, 0, a[2]), tmp, workers=2, heap="3g", timeout=300), False))
    return jobs


def weight(s):
    """Roughly the number of events a scenario makes."""
    return 6 + 6 * sum(len(l) for l in s["lanes"]) + 2 * sum(len(x) for x in s["replies"])
