"""How the program comes up (C24): Boot, BootImpl, BootTrace."""
import json, random
import rt, vlib

PROPS = ["C24"]
MODULE = "BootTrace"
CONSTS = {}
CONFIRM = 6
build, run_driver = rt.build, rt.run_driver
ASSUMPTIONS = [
    "Units listen on loopback TCP and on pseudo terminals; /dev/ttyUSB0 and the default address are had in namespaces of one's own, "
    "and left out where these are not available.",
]
KEYS = ["mode", "target", "listen", "debug"]
ENV = {k: "COMFO_" + k.upper() for k in KEYS}
BAD = {"mode": ["udp", "TCP", "serial ", "tcp4", "unix"], "target": ["@R", "@N", "@F"], "listen": ["@X", "@U", "@Z", "@Y"], "debug": []}
TCP, SER, LST = ["@A", "@B", "@6", "@H"], ["@P", "/dev/ttyUSB0"], ["@L1", "@L2", "@L3", "@L4", "@L5", "[::]:3094"]


class B:
    def __init__(self, seed, name):
        self.r, self.name, self.n = random.Random(seed), name, 0

    def scn(self, tag, flags, env, usb, **kw):
        self.n += 1
        r = self.r
        s = {"id": "%s.%s%d" % (self.name, tag, self.n), "tag": tag, "kind": "boot", "flags": flags, "env": env, "usb": usb,
             "seed": r.randrange(1 << 30), "u": [r.randint(1, 4), r.randint(70, 100)] + [r.randint(15, 100) for _ in range(8)],
             "delay": 0, "faults": []}
        s.update(kw)
        given = [v for k, v, _ in flags if k == "listen"] or [env.get("COMFO_LISTEN") or "[::]:3094"]
        s["alone"] = bool(usb) or given[-1] == "[::]:3094"
        return s

    def put(self, want, tag, **kw):
        """want: key -> effective value, or nothing for the default. Decoys where they do not count."""
        r = self.r
        flags, env = [], {}
        pool = {"mode": ["tcp", "serial", "udp"], "target": TCP + SER + BAD["target"], "listen": LST + BAD["listen"], "debug": ["true", "false", "1", "0"]}

        def flag(k, v):
            if k == "debug":
                return [k, "", "bare"] if v == "true" and r.random() < .6 else [k, v, "eq"]
            return [k, v, r.choice(["eq", "sp"])]
        for k in r.sample(KEYS, 4):
            v = want.get(k)
            how = "default" if v is None else r.choice(["flag", "flag", "env"])
            if how == "flag":
                mine = [flag(k, v)]
                if r.random() < .25:
                    mine.insert(0, flag(k, r.choice(pool[k])))
                flags += mine
                if r.random() < .5:
                    env[ENV[k]] = r.choice(pool[k] + [""])
            elif how == "env":
                env[ENV[k]] = v
            elif r.random() < .2:
                env[ENV[k]] = ""
        if r.random() < .2:
            env[r.choice(["MODE", "TARGET", "LISTEN", "DEBUG", "COMFO_UNIT", "COMFO_PORT"])] = r.choice(["udp", "@R", "@X", "true"])
        return self.scn(tag, flags, env, want.get("usb", False), **kw)

    def good(self, n):
        out = []
        for i in range(n):
            r = self.r
            w = {"mode": "tcp", "target": r.choice(TCP)} if r.random() < .6 else {"mode": r.choice(["serial", None]), "target": "@P"}
            w["listen"] = r.choice(LST + [None])
            w["debug"] = r.choice([None, "true", "false", "1", "T", "0"])
            out.append(self.put(w, "good"))
        for tgt in (None, "/dev/ttyUSB0"):
            for mode in (None, "serial"):
                out.append(self.put({"mode": mode, "target": tgt, "usb": True, "listen": self.r.choice([None, "@L1"])}, "usb"))
        return out

    def bad(self, n):
        out = []
        for _ in range(n):
            r = self.r
            w = {"mode": "tcp", "target": r.choice(TCP), "listen": r.choice(LST), "debug": r.choice([None, "true"])}
            k = r.choice(["mode", "target", "listen", "cross"])
            if k == "cross":
                w.update(r.choice([{"mode": "serial"}, {"mode": None}, {"target": "@P"}, {"target": None}, {"mode": "serial", "target": "@N"},
                                   {"mode": "serial", "target": "@F"}, {"mode": None, "target": None}]))
            else:
                w[k] = r.choice(BAD[k])
            out.append(self.put(w, "bad"))
        return out

    def args(self):
        ok = [["mode", "tcp", "eq"], ["target", "@A", "eq"], ["listen", "@L1", "eq"]]
        out = []
        for o in (["--nosuch", "", "raw"], ["-x", "", "raw"], ["--listening=@L1", "", "raw"], ["debug", "maybe", "eq"], ["--Mode=tcp", "", "raw"]):
            out.append(self.scn("args", ok + [o], {}, False))
        return out

    def unit(self, n):
        """The unit does not answer all of the first requests."""
        out = []
        for i in range(n):
            r = self.r
            fs = [{"kind": "none", "cmd": c, "from": 1} for c in r.sample([11, 103, 205, 209, 217, 223], r.choice([1, 2, 6]))]
            w = {"mode": "tcp", "target": r.choice(TCP), "listen": r.choice(LST)} if r.random() < .6 else {"target": "@P", "listen": "@L2"}
            out.append(self.put(w, "unit", faults=fs))
        return out


def rounds(prop, seed, tier, rnd):
    b = B("C24/%s/%d/%d" % (tier, seed, rnd), "c24.%d" % rnd)
    k = 1 if tier == "quick" else 2
    return b.unit(8 * k) + b.good(45 * k) + b.bad(40 * k) + b.args()


def weight(s):
    return 25


def cfg(part, flaw="none", sim=False):
    return """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 FlagsOf <- MCFlags
 EnvsOf <- MCEnvs
 Repeats <- MCRepeats
 Odd <- MCOdd
 Usb <- MCUsb
 Flaw="%s"
 Part="%s"
%s
INVARIANTS %s
""" % (flaw, part, "" if sim else "VIEW View", "Emit" if sim else "NoViolation")


FLAWS = [("sources", "envfirst"), ("sources", "noenv"), ("sources", "first"), ("values", "default"), ("values", "guess"), ("values", "lenient"),
         ("values", "wait"), ("values", "hide"), ("values", "zero"), ("values", "early"), ("values", "speed"), ("values", "fewer"),
         ("values", "giveup"), ("values", "mute"),
         ("values", "narrow"), ("values", "four"), ("values", "old")]


def model_jobs(prop, tier):
    jobs = []

    def add(name, text, hold):
        jobs.append((name, lambda tmp: vlib.tlc("MCBoot", text, tmp, workers=3, nice=True), hold))
    for part in ("values", "sources"):
        add("MCBoot " + part, cfg(part), True)
    for part, flaw in FLAWS:
        add("MCBoot %s Flaw=%s" % (part, flaw), cfg(part, flaw), False)
    return jobs


def model_scenarios(prop, seed, tier, tmp):
    b = B("C24m/%d" % seed, "c24.m")
    out, seen = [], set()
    for part, num in (("values", 25), ("sources", 40), ("all", 25)):
        p = vlib.tlc("MCBoot", cfg(part, sim=True), tmp,
                     extra=["-simulate", "num=%d" % (num if tier == "quick" else num * 8), "-depth", "40", "-seed", str(seed)])
        got = [json.loads(json.loads(l)[4:]) for l in p.stdout.splitlines() if l.startswith('"SCN ')]
        if not got:
            raise vlib.CheckError("no behaviours from the model:\n" + p.stdout[-3000:])
        for g in got:
            k = json.dumps(g, sort_keys=True)
            if k not in seen:
                seen.add(k)
                out.append(b.scn("model", g["flags"] or [], g["env"] or {}, g["usb"]))
    return out
