"""The server's properties (C12-C22): Server, ServerImpl, ServerTrace."""
import json, os, random, re, subprocess, time
import vlib
from gen_server import S

MODULE = "ServerTrace"
DRIVER = "srvdrv"
# milliseconds
CONSTS = {"Settle": 5, "Margin": 5, "Idle": 60, "Over": 1100, "Fast": 5000, "Slow": 300000, "Glacial": 3600000,
          "Fresh": 4500, "Readings": 10, "PollGap": 450, "PollMax": 700, "Bound": 60000}
TICK = 250
PROPS = ["C%02d" % i for i in range(12, 23)]
ASSUMPTIONS = [
    "The unit is simulated; what it stores and reports follows the protocol description and the existing tests.",
    "Time is virtual (Go's faketime), goroutines run one at a time and give way at locks (seeded) and when they wait.",
    "C22 is decided in real time with the race detector, which sees the accesses that a run makes.",
]

FAMILIES = {"C12": ["reads", "startup", "flushes"], "C13": ["schedule", "arguments", "reads", "speeds"],
            "C14": ["startup"], "C15": ["schedule", "hours", "storms"], "C16": ["flushes", "storms"],
            "C17": ["arguments", "everyarg", "bad_speed"], "C18": ["speeds", "bad_speed", "storms"],
            "C19": ["contention", "changes"], "C20": ["changes", "contention", "speeds"],
            "C21": ["storms", "bad_speed", "startup", "contention"], "C22": ["contention"]}
ALL = ["startup", "schedule", "reads", "flushes", "arguments", "speeds", "contention", "changes", "storms", "bad_speed"]


def rounds(prop, seed, tier, rnd):
    """The scenarios of one round: mostly of the families that bear on the property."""
    name = "%s.%d" % (prop.lower(), rnd)
    g = S("%s/%s/%d/%d" % (prop, tier, seed, rnd), name)
    mine = FAMILIES[prop]
    big = {1: 600, 2: 320, 3: 220, 4: 170}[len(mine)]
    if prop == "C22":
        big = 100
    out = []
    for f in ALL:
        n = big if f in mine else 20
        if f == "startup" and f in mine:
            n = max(n, 128)
        if f == "schedule":
            out += g.schedule(n, max(2, n // 25))
        elif f == "contention":
            out += g.contention(n - n // 3, True) + g.contention(n // 3, False)
        else:
            out += getattr(g, f)(n)
    out += g.torn({"C12": 60, "C22": 30}.get(prop, 6))
    out += g.outages((3 if tier == "quick" else 10) if prop in ("C15", "C21") else 0)
    if "hours" in mine:
        out += g.hours(4 if tier == "quick" else 12)
    if "everyarg" in mine:
        r = g.r
        out += g.everyarg(0, 300)
        for base in ([r.randrange(1, 1 << 16) * 256, (1 << 32) - 300] if tier == "quick" else
                     [256 * i for i in range(1, 9)] + [r.randrange(1, 1 << 24) * 256 for _ in range(8)] + [(1 << 31) - 150, (1 << 32) - 300]):
            out += g.everyarg(base, base + 300)
    return out


# Running -------------------------------------------------------------------------
def run_driver(binary, scns, tmp, name):
    """A program for each scenario. Returns the events and how programs died."""
    events, deaths = [], []
    for k, s in enumerate(scns):
        f = os.path.join(tmp, "%s.%d" % (name, k))
        json.dump(s, open(f + ".scn", "w"))
        try:
            p = subprocess.run([binary, f + ".scn", f + ".nd"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(os.environ, GOMAXPROCS="1", GOTRACEBACK="single"), timeout=60)
        except subprocess.TimeoutExpired:
            p = None
        evs = vlib.read_nd(f + ".nd") if os.path.exists(f + ".nd") else []
        if not evs or evs[0]["e"] != "begin":
            raise vlib.CheckError("the driver did not begin: " + (vlib.clean(p.stdout.decode(errors="replace"))[-2000:] if p else "no end"))
        if p is None or p.returncode != 0:
            tail = vlib.clean(p.stdout.decode(errors="replace"))[-1500:] if p else "no end within 60 s"
            deaths.append({"scenario": s["id"], "tail": tail})
            if evs[-1]["e"] not in ("end", "hang"):
                evs.append({"e": "crash", "t": evs[-1].get("t", 0), "text": tail[-800:]})
        events += evs
        for e in (".scn", ".nd"):
            if os.path.exists(f + e):
                os.unlink(f + e)
        if len(deaths) > 30:
            break
    return events, deaths


def weight(s):
    n = sum(len(l) for l in s["lanes"])
    return 26 + 6 * n + s["until"] // 1200


# The model ------------------------------------------------------------------------
def mc_cfg(load, kinds="", faulty=0, flaw="none", sim=False, unit="MCUnit0", others=False, ramps="{0,1}", frm=0, horizon=1,
           readings=2, final=None, leave=False):
    final = final or frm + (70 if sim else 48)
    if sim:
        k = dict(Over=5, Timeout=4, Slow=1200, Glacial=14400, Readings=10)
        horizon = frm + 30
    else:
        k = dict(Over=3, Timeout=3, Slow=40, Glacial=40, Readings=readings)
    return """SPECIFICATION %s
CHECK_DEADLOCK FALSE
CONSTANTS
 Settle=0
 Margin=0
 Idle=0
 Gap=2
 PollGap=2
 PollMax=2
 Fast=20
 Fresh=18
 Bound=60
%s
 Load="%s"
 Callers <- MCCallers
 Prog <- MCProg
 Unit0 <- %s
 Others %s
 Leaving={%s}
 Kinds={%s}
 MaxFaulty=%d
 Ramps=%s
 Delay=1
 From=%d
 Horizon=%d
 Final=%d
 Flaw="%s"
 Record=%s
%s
INVARIANTS %s
""" % ("SimSpec" if sim else "Spec", "\n".join(" %s=%d" % i for i in k.items()), load, unit, "<- Theirs" if others else "= {}", "1" if leave else "",
       ",".join('"%s"' % i for i in kinds.split(",") if i), faulty, ramps, frm, horizon, final, flaw,
       "TRUE" if sim else "FALSE", "" if sim else "VIEW View", "Emit" if sim else "NoViolation Locks")


# load, kinds of failures, how many of them, more
QUICK = {"C12": [("read", "none,zero", 2, {}), ("comfortflush", "none", 1, dict(frm=19, horizon=20))],
         "C13": [("flush2", "zero", 1, dict(frm=19, horizon=20)), ("step", "none,mute", 1, {})],
         "C14": [("read", "none,zero,werr", 3, dict(final=30))],
         "C15": [("flush", "none,werr", 2, dict(frm=3, horizon=4)), ("comfort", "none", 1, dict(frm=18, horizon=21))],
         "C16": [("flush2", "none,zero", 1, {}), ("flush3", "", 0, {})],
         "C17": [("step", "none", 1, {}), ("profile", "none", 1, {}), ("comfort", "none", 1, {})],
         "C18": [("step", "none,mute,zero", 2, dict(ramps="{0,1,99}")), ("speedflush", "zero", 1, dict(unit="Even"))],
         "C19": [("steps2", "none,mute", 1, {}), ("comfort2", "none,mute", 1, {}), ("profile2", "none", 1, {}), ("steps3", "", 0, {})],
         "C20": [("steps2", "", 0, dict(ramps="{0,2,99}")), ("profile", "", 0, dict(unit="Lopsided")), ("speedprofile", "", 0, {})],
         "C21": [("comfort2", "none,mute,werr", 2, {}), ("steps2", "none,mute", 1, {}),
                 ("flush2", "", 0, dict(leave=True)), ("comfort2", "none", 1, dict(leave=True))],
         "C22": [("comfortflush", "none", 1, dict(frm=19, horizon=20)), ("mix3", "", 0, {})]}
THOROUGH = {"C12": [("speedread", "none,zero", 1, dict(frm=18, horizon=20)), ("read", "none,zero,werr", 3, dict(others=True))],
            "C13": [("speedflush", "none", 1, dict(frm=18, horizon=20)), ("mix3", "none", 1, {})],
            "C14": [("flush", "none,zero,werr", 4, dict(final=30))],
            "C15": [("flush", "none,werr,zero", 4, dict(frm=3, horizon=6)), ("speedflush", "", 0, dict(frm=39, horizon=40))],
            "C16": [("flush3", "none,zero", 1, dict(frm=19, horizon=20)), ("flush2", "none", 1, dict(leave=True)), ("speedflush", "none,zero", 1, {})],
            "C17": [("step", "none,mute,zero", 3, dict(ramps="{0,1,99}")), ("profile", "none,mute,zero", 3, dict(unit="Lopsided"))],
            "C18": [("steps2", "none,mute,zero", 2, dict(ramps="{0,1,99}", readings=3)), ("speedprofile", "none,mute,zero", 2, {})],
            "C19": [("steps3", "none,mute", 1, dict(readings=3)), ("profile2", "none,mute", 2, dict(unit="Lopsided")),
                    ("comfort2", "none,mute", 2, dict(frm=19, horizon=21))],
            "C20": [("steps3", "", 0, dict(ramps="{0,2,99}", readings=3)), ("speedflush", "", 0, dict(frm=19, horizon=21)), ("mix3", "", 0, {})],
            "C21": [("steps2", "none,mute,zero,werr", 3, dict(ramps="{0,99}")), ("flush3", "none,werr", 2, {}), ("mix3", "none", 1, {})],
            "C22": [("speedflush", "none", 1, dict(frm=18, horizon=20)), ("speedprofile", "none", 2, {})]}
FLAWS = {"C12": [("read", "none", 1, "clear", dict(frm=20, horizon=22))], "C13": [("read", "", 0, "through", {}), ("step", "", 0, "more", dict(ramps="{99}"))],
         "C14": [("read", "none", 1, "giveup", {})], "C15": [("read", "none", 1, "stop", {}), ("flush", "none", 1, "stamp", dict(frm=14, horizon=15))],
         "C16": [("flush", "none,zero", 1, "praise", {}), ("flush", "none", 1, "lazy", {}), ("flush", "zero", 1, "blind", {})],
         "C17": [("step", "none", 0, "wrap", {})],
         "C18": [("step", "none", 1, "norefresh", {}), ("speedflush", "zero,none", 1, "stale", dict(unit="Even")),
                 ("step", "", 0, "supply", dict(unit="Uneven", ramps="{0,99}")), ("step", "", 0, "hope", dict(ramps="{99}"))],
         "C19": [("comfort2", "", 0, "early", {}), ("steps2", "", 0, "nofan", {})],
         "C20": [("profile", "", 0, "inonly", dict(unit="Lopsided"))],
         "C21": [("comfort2", "none", 1, "leak", {}), ("read", "none", 1, "stop", {}), ("flush2", "", 0, "abandon", dict(leave=True))],
         "C22": [("comfortflush", "none", 0, "nolock", {})]}


def name(load, kinds, faulty, kw, flaw=""):
    return "MCServer load=%s kinds={%s} faulty<=%d %s%s" % (
        load, kinds, faulty, " ".join("%s=%s" % i for i in sorted(kw.items())), " Flaw=" + flaw if flaw else "")


def model_jobs(prop, tier):
    jobs = []
    runs = QUICK[prop] if tier == "quick" else QUICK[prop] + THOROUGH[prop]
    for load, kinds, faulty, kw in runs:
        jobs.append((name(load, kinds, faulty, kw), lambda tmp, a=(load, kinds, faulty), kw=kw: vlib.tlc(
            "MCServer", mc_cfg(*a, **kw), tmp, workers=2 if tier == "quick" else 3, heap="6g", timeout=850), True))
    for load, kinds, faulty, flaw, kw in FLAWS[prop]:
        jobs.append((name(load, kinds, faulty, kw, flaw), lambda tmp, a=(load, kinds, faulty, flaw), kw=kw: vlib.tlc(
            "MCServer", mc_cfg(*a, **kw), tmp, workers=2, heap="3g", timeout=300), False))
    return jobs


# load, kinds, unit, others
SIMS = {"C12": [("read", "none,zero", "MCUnit0", True), ("comfortflush", "none", "MCUnit0", False)],
        "C13": [("flush2", "none,zero", "MCUnit0", False)], "C14": [("read", "none,zero,werr", "MCUnit0", False)],
        "C15": [("flush", "none,werr", "MCUnit0", False)], "C16": [("flush3", "none,zero", "MCUnit0", False)],
        "C17": [("step", "none", "MCUnit0", False), ("profile", "none", "Lopsided", False)],
        "C18": [("speedflush", "none,mute,zero", "Even", False), ("step", "none,mute", "Uneven", False)],
        "C19": [("steps3", "none,mute", "MCUnit0", False), ("comfort2", "none,mute", "MCUnit0", False), ("profile2", "none", "Lopsided", False)],
        "C20": [("steps3", "", "MCUnit0", False), ("profile2", "", "Lopsided", False), ("speedprofile", "", "MCUnit0", False)],
        "C21": [("mix3", "none,mute,werr", "MCUnit0", False), ("steps2", "none,mute,zero,werr", "MCUnit0", True)],
        "C22": [("mix3", "none", "MCUnit0", False)]}
UNITS = {"MCUnit0": [2, 80, 30, 50, 70, 30, 50, 70, 90, 90], "Lopsided": [2, 80, 30, 50, 70, 40, 50, 70, 90, 90],
         "Even": [2, 80] + [50] * 8, "Uneven": [2, 80, 30, 50, 70, 30, 70, 70, 90, 90]}


def model_scenarios(prop, seed, tier, tmp):
    """Behaviours of ServerImpl as scenarios for the driver."""
    out, seen = [], set()
    for i, (load, kinds, unit, others) in enumerate(SIMS[prop]):
        r = random.Random("%s %d %d" % (prop, seed, i))
        p = vlib.tlc("MCServer", mc_cfg(load, kinds, 3 if kinds else 0, sim=True, unit=unit, others=others, leave=i % 2 == 0, ramps="{0,1,3,9,99}",
                                        frm=r.choice([0, 0, 10, 15])), tmp, timeout=400,
                     extra=["-simulate", "num=%d" % (60 if tier == "quick" else 700), "-depth", "1500", "-seed", str(seed * 100 + i + 1)])
        hs = [json.loads(json.loads(l)[4:]) for l in p.stdout.splitlines() if l.startswith('"SCN ')]
        if not hs:
            raise vlib.CheckError("no behaviours from the model:\n" + p.stdout[-3000:])
        for h in hs:
            key = load + json.dumps(h)
            if key in seen:
                continue
            seen.add(key)
            lanes, faults, ramps, ext, n, cid, until = {}, [], [], [], 0, 0, 0
            for e in h:
                if e["h"] == "call":
                    cid += 1
                    lanes.setdefault(e["c"], []).append({"id": cid, "gap": 0, "at": e["t"] * TICK, "op": e["op"], "a": e["a"]})
                    until = max(until, e["t"] * TICK + 6000)
                elif e["h"] == "q":
                    n += 1
                    if e["k"] != "ok":
                        faults.append({"i": n, "from": 0, "to": 0, "cmd": 0, "kind": e["k"]})
                    if e["r"] != -9:
                        d = -1 if e["r"] == 99 else e["r"] * TICK
                        ramps.append({"in": d, "out": d})
                elif e["h"] == "leave":
                    o = lanes[e["c"]][-1]
                    o["leave"] = max(1, e["t"] * TICK - o["at"])
                elif e["h"] == "ext":
                    ext.append({"at": e["t"] * TICK, "u": e["u"]})
            out.append({"id": "%s.%s-m%d" % (prop.lower(), load, len(out) + 1), "tag": "model", "seed": r.randrange(1, 1 << 40),
                        "yield": r.random() < .6, "stream": r.random() < .5, "healthy": not faults and not ext and not others,
                        "u": UNITS[unit], "delay": r.choice([250, 250, 20]), "jitter": r.choice([0, 0, 40]), "faults": faults,
                        "ramps": ramps, "ext": ext, "lanes": [lanes[c] for c in sorted(lanes)], "until": until, "calm": 0})
    return out


# Unsynchronised accesses ------------------------------------------------------------
def races(run):
    """Runs the server in real time under the race detector; a report is a Race step."""
    binary = vlib.build_driver("racedrv", run.tmp, tags=None, race=True, shims=(False,))
    quick = run.tier == "quick"
    plan = [(run.seed * 10, 11500), (run.seed * 10 + 1, 7000)] if quick else \
           [(run.seed * 100 + i, 21000 if i % 3 else 11500) for i in range(24)]
    import concurrent.futures

    def one(job):
        seed, ms = job
        p = vlib.run([binary, str(seed), str(ms)], timeout=ms / 1000 + 120, check=False,
                     env={"GORACE": "halt_on_error=0 exitcode=66 history_size=3", "GOMAXPROCS": "4"})
        evs = [{"e": "begin", "id": "race-%d" % seed, "tag": "race", "healthy": False, "u": UNITS["MCUnit0"]}]
        for rep in re.findall(r"WARNING: DATA RACE\n(.*?)={18}", p.stdout, re.S):
            if re.search(r"comfo/(comfoserver|libcomfo)[./]", rep):
                evs.append({"e": "race", "t": 0, "text": rep[:3000]})
        m = re.search(r"CALLS (\d+) REQUESTS (\d+)", p.stdout)
        if m is None and "HANG" not in p.stdout and len(evs) == 1:
            if re.search(r"concurrent map|fatal error|panic:", p.stdout):
                evs.append({"e": "crash", "t": 0, "text": p.stdout[-1500:]})
            else:
                raise vlib.CheckError("the race driver ended early:\n" + p.stdout[-2000:])
        return evs, (int(m.group(1)), int(m.group(2))) if m else (0, 0)

    with concurrent.futures.ThreadPoolExecutor(2 if quick else 3) as ex:
        res = list(ex.map(one, plan))
    evs = sum((e for e, _ in res), [])
    run.cover["race_detector"] = {"runs": len(plan), "calls": sum(c[0] for _, c in res), "requests": sum(c[1] for _, c in res),
                                  "reports": sum(1 for e in evs if e["e"] == "race")}
    found = []
    for s in [e for e, _ in res]:
        ok, pos, _ = vlib.judge(MODULE, CONSTS, s, run.tmp, {run.prop})
        if not ok:
            found.append((s, pos))
    return [], (evs, [], found)


BACKGROUND = {"C22": [races]}
