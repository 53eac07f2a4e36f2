"""Scenarios for the server: what is asked of it, how the unit behaves."""
import random

CMD = {"boot": 103, "bypass": 223, "temps": 209, "fans": 11, "profiles": 205, "errors": 217}
READS = ["GetBootInfo", "GetBypass", "GetTemps", "GetFans", "GetFanProfiles", "GetErrors"]
KINDS = [0, 1, 2, 3, 4, 10]
GETK = ["none", "nack", "short", "zero", "wrong", "half", "werr", "ackerr", "slow"]
SETK = ["none", "mute", "nack", "werr", "ackerr", "slow"]
BIG = [5, 6, 7, 10, 100, 255, 256, 257, 258, 259, 260, 261, 271, 511, 512, 513, 515, 65535, 65536, 65537, 65539,
       1 << 24, (1 << 24) + 2, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, (1 << 32) - 253]


class S:
    def __init__(self, seed, prefix):
        self.r = random.Random(seed)
        self.prefix, self.n = prefix, 0

    # ------------------------------------------------------------------
    def scn(self, tag, lanes, **kw):
        r = self.r
        self.n += 1
        cid, out = 0, []
        impatient = r.choice([0, 0, 0, .15, .5]) if tag in ("reads", "flushes", "speeds", "contention", "storms") else 0
        for lane in lanes:
            o = []
            for x in lane:
                if r.random() < impatient:
                    x["leave"] = r.choice([-1, 1, 20, 100, 300, 700, 1000, 1500, 4000])
            for x in lane:
                cid += 1
                o.append({"id": cid, "gap": x.get("gap", 0), "at": x.get("at", 0), "op": x["op"], "a": x.get("a", []),
                          "leave": x.get("leave", 0)})
            out.append(o)
        d = {"id": "%s-%d" % (self.prefix, self.n), "tag": tag, "seed": r.randrange(1, 1 << 40), "yield": r.random() < .6,
             "stream": r.random() < .5, "healthy": False, "u": self.settings(), "delay": r.choice([1, 20, 60, 150, 400]),
             "jitter": r.choice([0, 0, 30, 300]), "faults": [], "ramps": [], "ext": [], "lanes": out, "until": 0, "calm": 0}
        d.update(kw)
        if not d["faults"] and not d["ext"]:
            d["healthy"] = True
        return d

    def settings(self, speed=None):
        r = self.r
        pct = lambda: r.choice([15, 20, 35, 50, 55, 70, 90, 100, r.randrange(15, 101)])
        d = [pct() for _ in range(8)]
        if r.random() < .5:      # supply and exhaust alike
            d[3:6] = d[0:3]
            d[7] = d[6]
        c = r.choice([80, 82, 84, 90, 41 + 40, r.randrange(30, 100), r.randrange(256)])
        return [speed if speed is not None else r.choice([1, 2, 2, 3, 3, 4]), c] + d

    def read(self, **kw):
        return dict(op=self.r.choice(READS), **kw)

    def flush(self, k=None, **kw):
        return dict(op="FlushCache", a=[self.r.choice(KINDS) if k is None else k], **kw)

    def speed(self, **kw):
        r = self.r
        a = r.choice([[1, 0], [2, 0], [3, 0], [4, 0], [0, 0], [0, 1], [0, 0], [0, 1]])
        return dict(op="SetFanSpeed", a=a, **kw)

    def profile(self, **kw):
        r = self.r
        return dict(op="SetFanProfile", a=[r.randrange(1, 5), r.choice([15, 35, 50, 70, 100, r.randrange(15, 101)])], **kw)

    def comfort(self, **kw):
        r = self.r
        return dict(op="SetComfortTemp", a=[r.choice([12, 18, 20, 21, 22, 28, 0, 107, r.randrange(108)])], **kw)

    def change(self, **kw):
        return self.r.choice([self.speed, self.speed, self.profile, self.comfort])(**kw)

    def refused(self, **kw):
        r = self.r
        k = r.randrange(3)
        big = lambda: r.choice(BIG + [r.randrange(1 << 32)])
        if k == 0:
            return dict(op="SetFanSpeed", a=r.choice([[r.randrange(1, 5), 1], [big(), r.randrange(2)], [5, 0]]), **kw)
        if k == 1:
            m, p = r.choice([(0, 50), (5, 50), (1, 14), (2, 101), (3, 0), (big(), 50), (r.randrange(1, 5), big()), (big(), big())])
            return dict(op="SetFanProfile", a=[m, p], **kw)
        return dict(op="SetComfortTemp", a=[r.choice([108, 127, 128, 200, 236, 255, big()])], **kw)

    def any(self, **kw):
        r = self.r
        k = r.random()
        if k < .35:
            return self.read(**kw)
        if k < .5:
            return self.flush(**kw)
        if k < .55:
            return self.refused(**kw)
        return self.change(**kw)

    def ramp(self):
        r = self.r
        f = lambda: r.choice([0, 0, 200, 700, 1500, 3000, 4500, 5200, 6500, -1])
        a = f()
        return {"in": a, "out": a if r.random() < .5 else f()}

    def fault(self, lo=0, hi=60000):
        r = self.r
        if r.random() < .4:
            return {"i": r.randrange(1, 40), "cmd": 0, "from": 0, "to": 0, "kind": r.choice(GETK + SETK)}
        a = r.randrange(lo, hi)
        return {"i": 0, "from": a, "to": a + r.choice([200, 1500, 4000, 9000]), "cmd": r.choice([0, 0] + list(CMD.values()) + [153, 207, 211]),
                "kind": r.choice(GETK + SETK)}

    def ext(self, at):
        return {"at": at, "u": self.settings()}

    # families ---------------------------------------------------------
    def startup(self, n):
        """Every subset of the first fetches failing, in every way."""
        out = []
        for k in range(n):
            r = self.r
            mask = k % 64 if n >= 64 else r.randrange(64)
            kinds = [r.choice(GETK) for _ in range(6)]
            if r.random() < .3:
                kinds = [kinds[0]] * 6
            f = [{"i": 0, "from": -1, "to": 0, "cmd": c, "kind": kinds[i]} for i, c in enumerate(CMD.values()) if mask >> i & 1]
            if mask and r.random() < .3:
                f.append({"i": 0, "from": 0, "to": 7000, "cmd": 0, "kind": r.choice(GETK)})
            lane = [dict(op=o, at=r.choice([0, 3, 50, 1000])) for o in READS]
            if r.random() < .5:
                lane.append(self.flush(r.choice([10, 10, 0, 3, 4]), at=r.randrange(0, 9000)))
                lane += [dict(op=o) for o in READS]
            lane += [dict(op=o, at=11500) for o in READS]
            out.append(self.scn("startup", [lane], faults=f, until=12000))
        return out

    def schedule(self, n, long=0):
        """The passage of time, with all that may get in the way of the refreshes."""
        out = []
        r = self.r
        for k in range(n + long):
            horizon = r.choice([12000, 21000, 42000]) if k < n else r.choice([330000, 640000])
            lanes = []
            for _ in range(r.randrange(0, 3)):
                lane, t = [], 0
                while t < horizon - 2000 and len(lane) < 25:
                    # around the marks, and the staleness limit before them
                    m = r.randrange(1, horizon // 5000 + 1) * 5000 if k < n else t + r.choice([3000, 20000, 60000])
                    t = max(t, r.choice([m - 4500 + r.randrange(-300, 300), m + r.randrange(-900, 900), r.randrange(t, t + 6000)]))
                    lane.append(r.choice([self.any, self.flush, self.read])(at=t))
                lanes.append(lane)
            fs = []
            if r.random() < .6:
                fs = [self.fault(0, horizon) for _ in range(r.randrange(1, 6))]
            out.append(self.scn("schedule", lanes, faults=fs, until=horizon, ramps=[self.ramp() for _ in range(3)],
                                delay=r.choice([1, 50, 300, 650]), jitter=r.choice([0, 250])))
        return out

    def hours(self, n):
        out = []
        for _ in range(n):
            r = self.r
            h = r.choice([3610000, 7300000])
            fs = [self.fault(0, h) for _ in range(3)]
            hour = r.choice([3600000, 3600000])
            fs.append({"i": 0, "from": hour - 100, "to": hour + 3000, "cmd": r.choice([103, 217, 0]), "kind": r.choice(GETK)})
            lane = [self.read(at=r.randrange(h)) for _ in range(20)]
            lane += [dict(op=o, at=t) for t in (300500, 600500, 3602000, 3606000) for o in READS]
            lane.sort(key=lambda o: o["at"])
            out.append(self.scn("hours", [lane], faults=fs, until=h, delay=r.choice([1, 100])))
        return out

    def reads(self, n):
        """Reads, in the thick of refreshes, flushes and changes, with failures."""
        out = []
        for _ in range(n):
            r = self.r
            h = 16000
            lanes = []
            for _ in range(r.randrange(1, 4)):
                lane = []
                for _ in range(r.randrange(3, 14)):
                    lane.append(self.read(at=r.choice([0, r.randrange(h), r.randrange(4900, 6500), r.randrange(9900, 11500)]),
                                          gap=r.choice([0, 0, 1, 30, 400])))
                lane.sort(key=lambda o: o["at"])
                lanes.append(lane)
            lanes.append(sorted([r.choice([self.flush, self.flush, self.change])(at=r.randrange(h)) for _ in range(r.randrange(1, 5))],
                                key=lambda o: o["at"]))
            lanes.append(sorted([r.choice([self.flush, self.comfort, self.profile])(at=r.randrange(h)) for _ in range(r.randrange(0, 3))],
                                key=lambda o: o["at"]))
            fs = [self.fault(0, h) for _ in range(r.choice([0, 0, 1, 3, 6]))]
            ex = [self.ext(r.randrange(h)) for _ in range(r.choice([0, 0, 1, 2]))]
            out.append(self.scn("reads", lanes, faults=fs, ext=ex, until=h, ramps=[self.ramp() for _ in range(2)]))
        return out

    def flushes(self, n):
        out = []
        for _ in range(n):
            r = self.r
            lanes = []
            for _ in range(r.randrange(1, 5)):
                lane = []
                for _ in range(r.randrange(1, 5)):
                    k = r.choice(KINDS) if r.random() < .75 else r.choice([5, 6, 7, 8, 9, 11, 12, 100, 255, 256, 260, 266, 2147483647, -1, -2147483648])
                    lane.append(self.flush(k, at=r.choice([0, 0, 0, r.randrange(4000, 6000)]), gap=r.choice([0, 0, 100, 900])))
                lane.sort(key=lambda o: o["at"])
                lanes.append(lane)
            if r.random() < .4:
                lanes.append([r.choice([self.read, self.change])(at=r.randrange(3000)) for _ in range(3)])
            fs = []
            if r.random() < .6:
                fs = [{"i": 0, "from": a, "to": a + r.choice([300, 2000, 6000]), "cmd": r.choice([0] + list(CMD.values())), "kind": r.choice(GETK)}
                      for a in [r.randrange(0, 7000) for _ in range(r.randrange(1, 4))]]
            out.append(self.scn("flushes", lanes, faults=fs, until=r.choice([0, 6000]), ramps=[self.ramp()]))
        return out

    def arguments(self, n):
        """Field values over their whole range, from every state."""
        out = []
        for k in range(n):
            r = self.r
            u = self.settings(speed=r.choice([0, 1, 2, 3, 4, 1, 4, 5, 254, 255]))
            lane = []
            for _ in range(r.randrange(3, 8)):
                c = r.randrange(4)
                if c == 0:
                    lane.append(dict(op="SetFanSpeed", a=[r.choice(BIG + list(range(0, 7))), r.randrange(2)]))
                elif c == 1:
                    lane.append(dict(op="SetFanProfile", a=[r.choice([0, 1, 2, 3, 4, 5] + BIG), r.choice([0, 14, 15, 16, 50, 99, 100, 101, 127, 128] + BIG)]))
                elif c == 2:
                    lane.append(dict(op="SetComfortTemp", a=[r.choice([0, 1, 20, 106, 107, 108, 109, 128, 235, 236, 237, 255] + BIG)]))
                else:
                    lane.append(self.refused())
                if r.random() < .2:
                    lane.append(self.read())
            if r.random() < .25:
                u[1] = r.randrange(0, 44)      # freezing comfort
            out.append(self.scn("arguments", [lane], u=u, ramps=[{"in": 0, "out": 0}], delay=r.choice([1, 20]), jitter=0))
        return out

    def everyarg(self, lo, hi):
        """Every argument in a range, in few programs."""
        out = []
        for op in ("SetComfortTemp", "SetFanSpeed", "SetFanProfile"):
            lane = []
            for v in range(lo, hi):
                a = {"SetComfortTemp": [v], "SetFanSpeed": [v, self.r.randrange(2)], "SetFanProfile": [self.r.randrange(1, 5), v]}[op]
                lane.append(dict(op=op, a=a))
                if op == "SetFanProfile":
                    lane.append(dict(op=op, a=[v, self.r.randrange(15, 101)]))
            for i in range(0, len(lane), 60):
                out.append(self.scn("everyarg", [lane[i:i + 60]], ramps=[{"in": 0, "out": 0}], delay=1, jitter=0))
        return out

    def speeds(self, n):
        """Speed changes with every ramp behaviour of the unit."""
        out = []
        for _ in range(n):
            r = self.r
            lane = []
            t = r.choice([0, 100, 2500, 4700, 4950])
            for _ in range(r.randrange(1, 5)):
                lane.append(self.speed(at=t, gap=r.choice([0, 0, 200, 3000])))
                if r.random() < .5:
                    lane.append(dict(op="GetFanProfiles"))
            lanes = [lane]
            if r.random() < .5:
                lanes.append(sorted([r.choice([self.flush, self.read, self.comfort, self.profile])(at=r.randrange(12000))
                                     for _ in range(r.randrange(1, 6))], key=lambda o: o["at"]))
            fs = []
            if r.random() < .4:
                fs = [{"i": r.randrange(7, 25), "cmd": 0, "from": 0, "to": 0, "kind": r.choice(GETK + SETK)} for _ in range(r.randrange(1, 5))]
                if r.random() < .4:
                    fs.append({"i": 0, "from": 0, "to": r.choice([2000, 5000, 30000]), "cmd": r.choice([11, 205, 153]), "kind": r.choice(GETK)})
            ex = [self.ext(r.randrange(8000))] if r.random() < .12 else []
            out.append(self.scn("speeds", lanes, faults=fs, ext=ex, ramps=[self.ramp() for _ in range(4)],
                                delay=r.choice([1, 20, 100, 200, 700]), until=r.choice([0, 0, 11000])))
        return out

    def contention(self, n, healthy=True):
        """Changes at the same time."""
        out = []
        for _ in range(n):
            r = self.r
            kind = r.choice(["speed", "speed", "profile", "comfort", "mix", "mix"])
            lanes = []
            t = r.choice([0, 0, 2000, 4800])
            for _ in range(r.randrange(2, 5)):
                lane = []
                for _ in range(r.randrange(1, 4)):
                    kw = dict(at=t, gap=r.choice([0, 0, 0, 1, 40, 300]))
                    if kind == "speed":
                        o = dict(op="SetFanSpeed", a=r.choice([[0, 1], [0, 1], [0, 0], [r.randrange(1, 5), 0]]), **kw)
                    elif kind == "profile":
                        o = self.profile(**kw)
                    elif kind == "comfort":
                        o = self.comfort(**kw)
                    else:
                        o = r.choice([self.speed, self.profile, self.comfort, self.flush])(**kw)
                    lane.append(o)
                    if r.random() < .3:
                        lane.append(dict(op="GetTemps" if kind == "comfort" else "GetFanProfiles"))
                lanes.append(lane)
            if r.random() < .4:
                lanes.append([self.flush(r.choice([2, 3, 3, 10]), at=t + r.randrange(1500)) for _ in range(2)])
            fs = [] if healthy else [self.fault(0, 15000) for _ in range(r.randrange(1, 4))]
            fast = r.random() < .7
            out.append(self.scn("contention", lanes, faults=fs, ramps=[{"in": 0, "out": 0}] if fast else [self.ramp() for _ in range(4)],
                                u=self.settings(speed=r.choice([1, 2, 2, 3])), delay=r.choice([1, 20, 100, 500])))
        return out

    def torn(self, n):
        """One data set read again and again while it is fetched again and again."""
        out = []
        of = {0: "GetBootInfo", 1: "GetFans", 2: "GetTemps", 3: "GetFanProfiles", 4: "GetBypass", 10: "GetErrors"}
        for k in range(n):
            r = self.r
            ds = KINDS[k % 6]
            t = r.choice([0, 0, 4990])
            lanes = [[self.flush(ds, at=t) for _ in range(r.randrange(3, 8))] for _ in range(r.randrange(2, 5))]
            lanes += [[dict(op=of[ds], at=t, gap=r.choice([0, 0, 1])) for _ in range(r.randrange(5, 15))]
                      for _ in range(r.randrange(2, 6))]
            if ds in (1, 3):
                lanes.append([self.speed(at=t), self.profile()])
            if ds == 2:
                lanes.append([self.comfort(at=t), self.comfort()])
            ex = [self.ext(r.randrange(1, 100)) for _ in range(r.choice([0, 3, 8]))]
            out.append(self.scn("torn", lanes, ext=ex, ramps=[{"in": 0, "out": 0}], delay=r.choice([1, 1, 3, 8]), jitter=0, **{"yield": True}))
        return out

    def outages(self, n):
        """The unit is away for long, then it is back."""
        out = []
        for _ in range(n):
            r = self.r
            h = r.choice([330000, 620000, 1220000])
            kind = r.choice(["none", "none", "nack", "werr", "short", "ackerr", "half"])
            fs = [{"i": 0, "from": r.choice([-1, 2000]), "to": h, "cmd": r.choice([0, 0, 209, 11]), "kind": kind}]
            lane = [self.any(at=r.randrange(h)) for _ in range(6)]
            lane.sort(key=lambda o: o["at"])
            after = h + 4000
            lane += [self.flush(10, at=after), self.change(), self.read(), self.read()]
            out.append(self.scn("outages", [lane], faults=fs, calm=h + 1000, until=h + 30000, ramps=[{"in": 0, "out": 0}],
                                delay=r.choice([1, 20, 100])))
        return out

    def changes(self, n):
        """Sequences of changes and reads with a unit that answers everything."""
        out = []
        for _ in range(n):
            r = self.r
            lane = []
            for _ in range(r.randrange(3, 9)):
                lane.append(r.choice([self.change, self.change, self.speed])(gap=r.choice([0, 0, 100, 2000])))
                if r.random() < .6:
                    lane.append(dict(op=r.choice(["GetFanProfiles", "GetTemps", "GetFanProfiles"]), gap=r.choice([0, 0, 50])))
                if r.random() < .15:
                    lane.append(self.flush(r.choice([2, 3, 10])))
            ramps = [r.choice([{"in": 0, "out": 0}, {"in": -1, "out": -1}, {"in": 300, "out": -1}, self.ramp()]) for _ in range(5)]
            lanes = [lane]
            if r.random() < .3:
                lanes.append([r.choice([self.flush, self.read])(at=r.randrange(15000)) for _ in range(4)])
            out.append(self.scn("changes", lanes, ramps=ramps, until=r.choice([0, 0, 6000])))
        return out

    def storms(self, n):
        """Faults of all kinds, with everything going on, then a healthy period."""
        out = []
        for _ in range(n):
            r = self.r
            h = r.choice([8000, 15000, 30000])
            lanes = []
            for _ in range(r.randrange(1, 5)):
                lanes.append([self.any(at=r.randrange(h), gap=r.choice([0, 0, 500])) for _ in range(r.randrange(1, 7))])
                lanes[-1].sort(key=lambda o: o["at"])
            fs = [self.fault(-1, h) for _ in range(r.randrange(2, 8))]
            if r.random() < .3:
                fs.append({"i": 0, "from": r.choice([-1, 2000]), "to": h, "cmd": 0, "kind": r.choice(["none", "nack", "werr", "short", "ackerr"])})
            calm = h + 1000
            after = calm + 3000
            lanes.append([self.change(at=after), self.flush(at=after), self.change(at=after), self.read(), self.flush(10), self.read()])
            out.append(self.scn("storms", lanes, faults=fs, calm=calm, until=after + 16000, ramps=[self.ramp() for _ in range(3)]))
        return out

    def bad_speed(self, n):
        """Speed requests while the current speed is none of the API's."""
        out = []
        for _ in range(n):
            r = self.r
            f = []
            if r.random() < .5:
                f = [{"i": 0, "from": -1, "to": 0, "cmd": 205, "kind": r.choice(GETK)}]
            lane = [self.speed(at=100), self.speed(), self.read(), self.profile(), self.flush(3), self.speed(), self.read()]
            out.append(self.scn("badspeed", [lane, [self.speed(at=r.randrange(2000)), self.flush(3)]], faults=f,
                                u=self.settings(speed=r.choice([0, 5, 255])), ramps=[self.ramp()], until=7000))
        return out
