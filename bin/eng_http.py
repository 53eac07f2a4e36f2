"""The program behind HTTP (C23): Proto, Http, HttpImpl, HttpTrace."""
import json
import rt, vlib
from gen_http import H

PROPS = ["C23"]
MODULE = "HttpTrace"
CONSTS = {"Settle": 1500, "Bound": 90000}
CONFIRM = 6
build, run_driver = rt.build, rt.run_driver
ASSUMPTIONS = [
    "The unit is simulated on a TCP connection of the loopback interface, in real time; runs in which the machine stalls are repeated.",
    "JSON texts are taken apart by Python's json module; numbers from 2^31 - 1 on are one value to the specification.",
]


def rounds(prop, seed, tier, rnd):
    g = H("C23/%s/%d/%d" % (tier, seed, rnd), "c23.%d" % rnd)
    k = 1 if tier == "quick" else 2
    return (g.slow(5 * k) + g.gone(6 * k) + g.faults(20 * k) + g.reads(16 * k) + g.args(30 * k) + g.odd(24 * k) + g.names(12 * k)
            + g.lanes(16 * k) + g.again(10 * k))


def weight(s):
    return 20 + 4 * sum(len(l) for l in s["lanes"]) + (200 if s["tag"] == "slow" else 0)


def cfg(part, per, clients, kinds, faulty, flaw="none", limit=0, sim=False):
    return """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Settle=0
 Bound=1000
 Clients={%s}
 PerClient=%d
 Requests <- MCRequests
 Unit0 <- U0
 Kinds={%s}
 MaxFaulty=%d
 Limit=%d
 Flaw="%s"
 Part="%s"
%s
INVARIANTS %s
""" % (",".join(str(i + 1) for i in range(clients)), per, ",".join('"%s"' % k for k in kinds.split(",") if k), faulty, limit, flaw, part,
       "" if sim else "VIEW View", "Emit" if sim else "NoViolation")


HOLD = {"quick": [("reads", 2, 1, "none", 1), ("comfort", 3, 1, "none,mute", 2), ("profile", 2, 1, "none,mute", 1), ("speed", 2, 1, "none,mute", 1),
                  ("flush", 2, 1, "none", 1), ("mixed", 1, 2, "none", 1)],
        "thorough": [("all", 2, 1, "none,mute", 2), ("speed", 3, 1, "none", 1), ("profile", 3, 1, "none", 1), ("mixed", 2, 2, "none", 1),
                     ("mixed", 1, 3, "none", 0)]}
FLAWS = [("reads", 1, "get", 0), ("comfort", 1, "wrap", 0), ("speed", 1, "wrap", 0), ("reads", 1, "number", 0), ("reads", 1, "camel", 0),
         ("reads", 1, "skip", 0), ("comfort", 1, "plain", 0), ("reads", 1, "lost", 0), ("comfort", 1, "hush", 0), ("reads", 1, "type", 0),
         ("comfort", 1, "mixup", 0), ("speed", 1, "none", 4)]


def model_jobs(prop, tier):
    jobs = []

    def add(name, text, hold):
        jobs.append((name, lambda tmp: vlib.tlc("MCHttp", text, tmp, workers=2, nice=True), hold))
    for part, per, cl, kinds, n in HOLD["quick"] + (HOLD["thorough"] if tier == "thorough" else []):
        add("MCHttp %s clients=%d x %d kinds={%s} faulty<=%d" % (part, cl, per, kinds, n), cfg(part, per, cl, kinds, n), True)
    for part, per, flaw, limit in FLAWS:
        add("MCHttp %s Flaw=%s Limit=%d" % (part, flaw, limit), cfg(part, per, 1, "mute", 1, flaw, limit), False)
    return jobs


def model_scenarios(prop, seed, tier, tmp):
    g = H("C23m/%d" % seed, "c23.m")
    p = vlib.tlc("MCHttp", cfg("all", 16, 1, "none", 2, sim=True), tmp,
                 extra=["-simulate", "num=%d" % (14 if tier == "quick" else 120), "-depth", "400", "-seed", str(seed)])
    trails = []
    for l in p.stdout.splitlines():
        if l.startswith('"SCN '):
            t = json.loads(json.loads(l)[4:])
            if t not in trails:
                trails.append(t)
    if not trails:
        raise vlib.CheckError("no behaviours from the model:\n" + p.stdout[-3000:])
    return [g.of_trail(t) for t in trails]
