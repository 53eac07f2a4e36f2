"""The Python client (C25): Proto, PyClient, PyImpl, PyTrace."""
import json, os, random, subprocess, sys
import rt, vlib
from gen_http import varint

PROPS = ["C25"]
MODULE = "PyTrace"
CONSTS = {}
DRIVER = os.path.join(vlib.VERIF, "harness", "py", "pydrv.py")
CONFIRM = 6
build = rt.build
ASSUMPTIONS = [
    "google.protobuf and twirp are not installed here: the client runs on imitations of what it uses of them (harness/py), "
    "whose requests go to a scripted server or to the real program.",
]
OPS = {"ping": "GetBootInfo", "get_bootinfo": "GetBootInfo", "get_bypass": "GetBypass", "get_temps": "GetTemps", "get_fans": "GetFans",
       "get_fan_profiles": "GetFanProfiles", "get_errors": "GetErrors", "set_fan_speed": "SetFanSpeed", "increase_fan_speed": "SetFanSpeed",
       "decrease_fan_speed": "SetFanSpeed", "set_comfort_temperature": "SetComfortTemp", "configure_fan_profile": "SetFanProfile"}
U, T, F, S = "u", "b", "f", "s"
OUT = {"GetBootInfo": [U, U, U, S], "GetBypass": [U, U, U, T], "GetTemps": [F] * 8, "GetFans": [U] * 4,
       "GetFanProfiles": [U] * 4 + [T] + [U] * 7, "GetErrors": [T], "SetFanSpeed": [T, U, U, S], "SetComfortTemp": [T, U, U, S],
       "SetFanProfile": [T, U, U, S]}
CODES = ["canceled", "unknown", "invalid_argument", "malformed", "deadline_exceeded", "not_found", "bad_route", "already_exists", "permission_denied",
         "unauthenticated", "resource_exhausted", "failed_precondition", "aborted", "out_of_range", "unimplemented", "internal", "unavailable", "data_loss"]
STATUS = {"invalid_argument": 400, "malformed": 400, "out_of_range": 400, "not_found": 404, "bad_route": 404, "internal": 500, "unknown": 500,
          "unavailable": 503, "unauthenticated": 401, "permission_denied": 403, "canceled": 408, "deadline_exceeded": 408, "already_exists": 409,
          "aborted": 409, "failed_precondition": 412, "resource_exhausted": 429, "unimplemented": 501, "data_loss": 500}
HOSTS = ["unit", "192.0.2.7", "comfo.example.org", "localhost", "[::1]", "h-4", "10.0.0.1", "x"]


def encode(op, r):
    """A response of op, as bytes."""
    out = []
    for n, t in enumerate(OUT[op], 1):
        if r.random() < .08:
            continue
        if t == U:
            v = r.choice([0, 1, 2, 3, r.randrange(256), r.randrange(256), r.randrange(1 << 16), 127, 128, 300, (1 << 32) - 1])
            f = [n * 8] + varint(v) if v or r.random() < .1 else []
        elif t == T:
            f = [n * 8, 1] if r.random() < .5 else []
        elif t == F:
            import struct
            v = r.randint(-20, 107)
            f = [n * 8 + 5] + list(struct.pack("<f", v)) if v else []
        else:
            b = list(r.choice(["CA350 luxe", "ComfoAir", "Café", "", "12.5ms", "\u00b5s 4", "ÿ漢字"]).encode())
            f = [n * 8 + 2] + varint(len(b)) + b if b else []
        out += f
    if r.random() < .1:
        out += r.choice([[15 * 8, 9], [14 * 8 + 2, 2, 65, 66], [13 * 8 + 5, 0, 0, 0, 1]])
    return out


class G:
    def __init__(self, seed, name):
        self.r, self.name, self.n = random.Random(seed), name, 0

    def scn(self, tag, objects, calls, **kw):
        self.n += 1
        for i, c in enumerate(calls, 1):
            c["id"] = i
        s = {"id": "%s.%s%d" % (self.name, tag, self.n), "tag": tag, "objects": objects, "calls": calls}
        s.update(kw)
        return s

    def args(self, m, sane=False):
        r = self.r
        near = lambda *v: r.choice(list(v) * 4 + [-1, 0, 1, 255, 256, 257, 65536, -(1 << 31), 1 << 31, 1 << 32, (1 << 32) + 2, 1 << 64])
        if m == "set_fan_speed":
            return [r.randint(1, 4) if sane else near(0, 1, 2, 3, 4, 5)]
        if m == "configure_fan_profile":
            return [r.randint(1, 4), r.randint(15, 100)] if sane else [near(1, 2, 3, 4, 4, 1, 0, 5), near(14, 15, 16, 50, 99, 100, 101)]
        if m == "set_comfort_temperature":
            return [r.randint(12, 28)] if sane else r.choice([["None"], [near(0, 20, 254, 255, 256, -1)], [near(0, 12, 28, 255)]])
        return []

    def reply(self, m):
        r = self.r
        op = OPS[m]
        x = r.random()
        if x < .55:
            return {"status": 200, "body": encode(op, r)}
        if x < .7:
            return {"status": 400, "code": "invalid_argument"}
        if x < .78:
            return {"status": 500, "code": "internal"}
        if x < .9:
            c = r.choice(CODES)
            return {"status": STATUS[c], "code": c}
        return r.choice([{"status": 0}, {"status": 502}, {"status": 404}, {"status": 400}])

    def objects(self, k):
        r = self.r
        hs = r.sample(HOSTS, k)
        return [{"host": h, "given": g, "running": c} for h in hs for g, c in [r.choice(
            [("none", "none"), ("none", "A"), ("none", "B"), ("A", "none"), ("B", "none"), ("A", "B"), ("B", "A"), ("A", "A"), ("C", "none"), ("C", "B")])]]

    def loop(self, o):
        return o["given"] if o["given"] != "none" else o["running"]

    def calls(self, objs, k, sane=.4):
        r = self.r
        out = []
        for _ in range(k):
            o = r.randrange(len(objs))
            m = r.choice(list(OPS))
            a = self.args(m, r.random() < sane)
            l = r.choice(["none", self.loop(objs[o])])
            if l != "none" and a == ["None"]:
                a = [-1]
            out.append({"o": o + 1, "m": m, "a": a, "loop": l, "reply": self.reply(m), "kw": r.random() < .4 and m not in ("ping",)})
        return out

    def every(self):
        """Every method, synchronous and not, with every kind of outcome."""
        out = []
        for m in OPS:
            g = self.r.choice("AC")
            objs = [{"host": "unit", "given": g, "running": "B"}]
            cs = []
            for l in ("none", g):
                for rep in [{"status": 200, "body": encode(OPS[m], self.r)} for _ in range(4)] + [{"status": STATUS[c], "code": c} for c in CODES] + \
                        [{"status": 0}, {"status": 200, "body": []}, {"status": 200, "body": [8, 1]}]:
                    cs.append({"o": 1, "m": m, "a": self.args(m, True), "loop": l, "reply": rep, "kw": self.r.random() < .5})
            out.append(self.scn("every", objs, cs))
        return out

    def bounds(self):
        """Every argument near the limits."""
        out = []
        for l in ("none", "A"):
            objs = [{"host": "unit", "given": "A", "running": "none"}]
            cs = []
            rep = {"status": 200, "body": [8, 1]}
            for v in range(-3, 9):
                cs.append({"o": 1, "m": "set_fan_speed", "a": [v], "loop": l, "reply": rep})
            for v in list(range(-3, 3)) + list(range(250, 262)) + list(range(8, 112)):
                cs.append({"o": 1, "m": "set_comfort_temperature", "a": [v], "loop": l, "reply": rep})
            out.append(self.scn("bounds", objs, cs))
            cs = []
            for p in range(-1, 7):
                for v in list(range(-2, 3)) + list(range(12, 19)) + [50] + list(range(97, 104)) + [255, 256, 271]:
                    cs.append({"o": 1, "m": "configure_fan_profile", "a": [p, v], "loop": l, "reply": rep})
            out.append(self.scn("bounds", objs, cs))
        return out

    def mixed(self, n):
        out = []
        for _ in range(n):
            objs = self.objects(self.r.randint(1, 4))
            out.append(self.scn("mixed", objs, self.calls(objs, 60)))
        return out

    def many(self, n):
        """Several asynchronous calls at once, some of them slow."""
        out = []
        for _ in range(n):
            r = self.r
            objs = [o for o in self.objects(6) if self.loop(o) != "none"]
            if not objs:
                continue
            cs = []
            for g in range(1, 5):
                for o in range(len(objs)):
                    m = r.choice(list(OPS))
                    c = {"o": o + 1, "m": m, "a": self.args(m, True), "loop": self.loop(objs[o]), "reply": dict(self.reply(m)), "group": g}
                    c["reply"]["delay"] = r.choice([0, 5, 20, 60, 200, 250])
                    cs.append(c)
            out.append(self.scn("many", objs, cs))
        return out

    def slow(self):
        """Every asynchronous method over a slow server."""
        objs = [{"host": "unit", "given": "A", "running": "none"}, {"host": "x", "given": "none", "running": "B"}]
        out = []
        for m in OPS:
            cs = []
            for rep in ({"status": 200, "body": encode(OPS[m], self.r), "delay": 160}, {"status": 400, "code": "invalid_argument", "delay": 160},
                        {"status": 500, "code": "internal", "delay": 160}):
                for o, l in ((1, "A"), (2, "B")):
                    cs.append({"o": o, "m": m, "a": self.args(m, True), "loop": l, "reply": dict(rep)})
            out.append(self.scn("slow", objs, cs))
        return out

    def real(self, n):
        """The client and the program together."""
        out = []
        for _ in range(n):
            r = self.r
            objs = self.objects(2)
            cs = [dict(c, reply=None) for c in self.calls(objs, 40, .7)]
            fs = [{"kind": r.choice(["none", "mute"]), "from": a, "to": a, "cmd": r.choice([153, 207, 211])} for a in r.sample(range(7, 40), 3)]
            out.append(self.scn("real", objs, cs, real=True, seed=r.randrange(1 << 30), delay=0, ramps=[0], faults=fs,
                                u=[r.randint(1, 4), r.randint(70, 100)] + [r.randint(15, 100) for _ in range(8)]))
        return out


def rounds(prop, seed, tier, rnd):
    g = G("C25/%s/%d/%d" % (tier, seed, rnd), "c25.%d" % rnd)
    k = 1 if tier == "quick" else 3
    return g.real(10 * k) + g.slow() + g.every() + g.bounds() + g.mixed(40 * k) + g.many(12 * k)


def weight(s):
    return 5 + 4 * len(s["calls"])


def one(binary, s, f):
    json.dump(s, open(f + ".scn", "w"))
    why, blocked = "", 0
    for _ in range(8):
        with rt.AT_ONCE:
            try:
                p = subprocess.run([sys.executable, "-B", DRIVER, vlib.REPO, f + ".scn", f + ".nd"] + ([binary] if s.get("real") else []),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, cwd="/")
                code, why = p.returncode, p.stdout.decode(errors="replace")[-1500:]
            except subprocess.TimeoutExpired:
                code, why = 3, "no end"
        if code == 0:
            evs = vlib.read_nd(f + ".nd")
            # a loop that stood still every time was not held up by the machine
            if not any(e.get("blocked") for e in evs):
                return evs
            blocked += 1
            if blocked == 4:
                return evs
            continue
        if code != 3:
            raise vlib.CheckError("the driver failed (%d): %s" % (code, why))
    rt.DROPPED.append(s["id"])
    return None


def run_driver(binary, scns, tmp, name):
    return rt.run_all(one, binary, scns, tmp, name), []


def cfg(part, n, flaw="none", sim=False):
    return """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Objects <- MCObjects
 Calls <- MCCalls
 Replies <- MCReplies
 MaxCalls=%d
 Flaw="%s"
 Part="%s"
%s
INVARIANTS %s
""" % (n, flaw, part, "" if sim else "VIEW View", "Emit" if sim else "NoViolation")


def model_jobs(prop, tier):
    jobs = []

    def add(name, text, hold):
        jobs.append((name, lambda tmp: vlib.tlc("MCPy", text, tmp, workers=2, nice=True), hold))
    more = [("three", 4), ("given", 5), ("one", 5)] if tier == "thorough" else []
    for part, n in [("one", 2), ("given", 3), ("three", 3)] + more:
        add("MCPy %s calls<=%d" % (part, n), cfg(part, n), True)
    for flaw in ("range", "zero", "late", "rel", "swap", "port", "block", "field", "true", "swallow", "set", "raise"):
        add("MCPy one Flaw=" + flaw, cfg("one", 1, flaw), False)
    add("MCPy given Flaw=running", cfg("given", 1, "running"), False)
    return jobs


def model_scenarios(prop, seed, tier, tmp):
    g = G("C25m/%d" % seed, "c25.m")
    out, seen = [], set()
    for part in ("one", "given", "three"):
        p = vlib.tlc("MCPy", cfg(part, 12, sim=True), tmp,
                     extra=["-simulate", "num=%d" % (15 if tier == "quick" else 150), "-depth", "200", "-seed", str(seed)])
        got = [json.loads(json.loads(l)[4:]) for l in p.stdout.splitlines() if l.startswith('"SCN ')]
        if not got:
            raise vlib.CheckError("no behaviours from the model:\n" + p.stdout[-3000:])
        for t in got:
            k = json.dumps(t)
            if k in seen:
                continue
            seen.add(k)
            cs = [{"o": o, "m": m, "a": (list(a) or (["None"] if m == "set_comfort_temperature" else [])), "loop": l, "reply": g.reply(m)}
                  for o, m, a, l in t["calls"]]
            out.append(g.scn("model", t["objects"], cs))
    return out
