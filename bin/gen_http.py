"""Scenarios for the whole program behind HTTP (C23)."""
import json, random

P = "/twirp/comfo.api.Comfo/"
J, B = "application/json", "application/protobuf"
READS = ["GetBootInfo", "GetTemps", "GetBypass", "GetFans", "GetFanProfiles", "GetErrors"]
FIELDS = {"SetFanSpeed": [("Abs", 1), ("Rel", 2)], "SetFanProfile": [("Mode", 1), ("TargetSpeed", 2)],
          "SetComfortTemp": [("ComfortTemp", 1)], "FlushCache": [("Cache", 1)]}
CACHES = {0: "BootInfo", 1: "Fans", 2: "Temps", 3: "Profiles", 4: "Bypass", 10: "All"}


def varint(v):
    out = []
    while v >= 128:
        out.append(v % 128 + 128)
        v //= 128
    return out + [v]


class H:
    def __init__(self, seed, name):
        self.r = random.Random(seed)
        self.name, self.n = name, 0

    def scn(self, tag, lanes, **kw):
        self.n += 1
        r = self.r
        k = 0
        for l in lanes:
            for o in l:
                k += 1
                o["id"] = k
                o.setdefault("method", "POST")
        s = {"id": "%s.%s%d" % (self.name, tag, self.n), "tag": tag, "kind": "http", "lanes": lanes, "seed": r.randrange(1 << 30),
             "u": [r.randint(1, 4), r.randint(70, 100)] + [r.randint(15, 100) for _ in range(8)],
             "delay": r.choice([0, 0, 3, 20]), "ramps": [r.choice([0, 0, 300, 900])], "keep": r.random() < .7, "debug": r.random() < .3,
             "faults": []}
        s.update(kw)
        return s

    # requests ------------------------------------------------------------------
    def enc(self, op, vals, js=None, odd=False):
        """A request for op with the values of its fields, in either encoding."""
        r = self.r
        js = r.random() < .5 if js is None else js
        o = {"path": P + op}
        fields = FIELDS.get(op, [])
        if js:
            o["ct"] = J if not odd else r.choice([J, J, "application/json; charset=utf-8", "application/json;charset=UTF-8"])
            mem = []
            for (f, _), v in zip(fields, vals):
                if f == "Rel":
                    t = "true" if v else "false"
                elif f == "Cache" and v in CACHES and r.random() < .6:
                    t = json.dumps(CACHES[v])
                elif odd and f != "Cache" and v < 1 << 31:
                    t = r.choice([str(v), '"%d"' % v, "%d.0" % v, ("%de1" % (v // 10)) if v % 10 == 0 else str(v)])
                else:
                    t = str(v)
                if not v and f != "Cache" and r.random() < .5:
                    if odd and r.random() < .3:
                        t = "null"
                    elif r.random() < .7:
                        continue
                mem.append('"%s":%s%s' % (f, " " if odd else "", t))
            if odd:
                mem += r.sample(['"Other":5', '"abs":3', '"mode":{"a":[1,2]}', '"X":null', '"z":"\\u00e9"'], r.randint(0, 2))
                r.shuffle(mem)
            o["body"] = "{" + (" , " if odd else ",").join(mem) + "}"
        else:
            o["ct"] = B
            parts = []
            for (f, n), v in zip(fields, vals):
                if not v and r.random() < .8:
                    continue
                b = varint(int(v))
                if odd and r.random() < .3 and len(b) < 4:      # more bytes than needed
                    b[-1] += 128
                    b.append(0)
                if odd and r.random() < .3:                      # an earlier value that does not count
                    parts.append([n * 8] + varint(r.randrange(300)))
                parts.append([n * 8] + b)
            if odd:
                for u in r.sample([[9 * 8, 5], [10 * 8 + 2, 2, 8, 9], [11 * 8 + 5, 1, 2, 3, 4], [12 * 8 + 1] + [8] * 8, [1 * 8 + 2, 1, 3],
                                   [2 * 8 + 5, 1, 0, 0, 0], [128 + 24, 2, 1]], r.randint(0, 2)):
                    parts.insert(r.randrange(len(parts) + 1), u)
            o["body"] = [x for p in parts for x in p]
        return o

    def number(self, *near):
        r = self.r
        v = r.choice(list(near) * 3 + [0, 1, 127, 128, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, r.randrange(1 << 16)])
        return v + (256 * r.choice([1, 2, 256]) if r.random() < .12 and v < 1000 else 0)

    def change(self, js=None, odd=False, sane=False):
        r = self.r
        op = r.choice(["SetFanSpeed", "SetFanSpeed", "SetFanProfile", "SetComfortTemp"])
        if op == "SetFanSpeed":
            v = r.choice([(0, 0), (0, 1), (r.randint(1, 4), 0)]) if sane or r.random() < .6 else (self.number(0, 1, 4, 5), r.randint(0, 1))
        elif op == "SetFanProfile":
            v = (r.randint(1, 4), r.randint(15, 100)) if sane or r.random() < .6 else (self.number(0, 1, 4, 5), self.number(14, 15, 50, 100, 101))
        else:
            v = (r.randint(12, 28),) if sane or r.random() < .6 else (self.number(0, 11, 12, 20, 28, 29, 107, 108),)
        return self.enc(op, v, js, odd)

    def read(self, js=None, odd=False):
        return self.enc(self.r.choice(READS), (), js, odd)

    def flush(self, js=None, odd=False):
        r = self.r
        v = r.choice([0, 1, 2, 3, 4, 10, 10, 10, 5, 9, 11, 266, self.number(10)])
        return self.enc("FlushCache", (v if v < (1 << 31) - 1 else 255,), js, odd)   # enumerations have 31 bits

    def spoil(self):
        """A request that is not one of the interface's."""
        r = self.r
        o = self.change()
        op = o["path"].rsplit("/", 1)[1]
        k = r.randrange(10)
        if k == 0:
            o["method"] = r.choice(["GET", "PUT", "DELETE", "PATCH"])
        elif k == 1:
            o["path"] = r.choice(["/", P, P + "Nope", P + op.lower(), "/twirp/comfo.Comfo/" + op, "/comfo.api.Comfo/" + op, P + op + "/x", "/metrics"])
        elif k == 2:
            o["ct"] = r.choice(["text/plain", "application/x-www-form-urlencoded", "", "application/octet-stream"])
            o["body"] = []
        elif k == 3:
            o.update(ct=J, body=r.choice(["", "{", "[]", "5", "null x", '"x"', '{"Abs":}', "{'Abs':2}", '{"Abs" 2}', '{"Abs":2,}']))
        elif k == 4:
            f, bad = r.choice([("SetFanSpeed", '{"Abs":"x"}'), ("SetFanSpeed", '{"Abs":-1}'), ("SetFanSpeed", '{"Abs":2.5}'), ("SetFanSpeed", '{"Abs":4294967296}'),
                               ("SetFanSpeed", '{"Rel":1}'), ("SetFanSpeed", '{"Rel":"true"}'), ("SetFanProfile", '{"Mode":[2],"TargetSpeed":50}'),
                               ("SetFanProfile", '{"Mode":2,"Mode":3,"TargetSpeed":50}'), ("SetComfortTemp", '{"ComfortTemp":true}'), ("SetComfortTemp", '{"ComfortTemp":{}}'),
                               ("FlushCache", '{"Cache":true}'),
                               ("SetComfortTemp", '{"ComfortTemp":20.5}'), ("SetComfortTemp", '{"ComfortTemp":-20}')])
            o.update(path=P + f, ct=J, body=bad)
        elif k == 5:
            o.update(ct=B, body=r.choice([[8], [8, 128], [10, 5, 1], [13, 1, 2], [9, 1], [0, 1], [8, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 1], [128], [15, 1]]))
        elif k == 6:
            o.update(path=P + r.choice(READS), ct=J, body=r.choice(["", "[]", "{", "x"]))
        elif k == 7:
            o.update(path=P + r.choice(READS), ct=B, body=r.choice([[255], [8], [10, 9]]))
        elif k == 8:
            o.update(ct=r.choice([J, B]), method="GET", body="" if o["ct"] == J else [])
            o["body"] = "" if o["ct"] == J else []
        else:
            o.update(path=P + r.choice(READS), method=r.choice(["GET", "OPTIONS"]), ct=J, body="")
        return o

    # families ------------------------------------------------------------------
    def reads(self, n):
        """Every read in both encodings, with fresh values in between."""
        out = []
        for _ in range(n):
            l = []
            for _ in range(5):
                for op in self.r.sample(READS, len(READS)):
                    l.append(self.enc(op, (), None, self.r.random() < .2))
                l.append(self.flush() if self.r.random() < .4 else self.enc("FlushCache", (10,)))
            out.append(self.scn("reads", [l]))
        return out

    def args(self, n):
        """Values of arguments, most of them refused; now and then a change that is carried out."""
        out = []
        for _ in range(n):
            l = []
            for _ in range(14):
                o = self.change(None, self.r.random() < .4)
                l.append(o)
                if self.r.random() < .4:
                    l.append(self.read())
                if self.r.random() < .2:
                    l.append(self.flush(None, True))
            out.append(self.scn("args", [l]))
        return out

    def odd(self, n):
        out = []
        for _ in range(n):
            l = []
            for _ in range(20):
                x = self.r.random()
                l.append(self.spoil() if x < .6 else self.read(None, True) if x < .8 else self.flush(None, True) if x < .9 else self.change(None, True))
            out.append(self.scn("odd", [l]))
        return out

    def names(self, n):
        out = []
        for i in range(n):
            r = self.r
            name = [list(b"CA350 luxe"), list(b"  ComfoAir"), [67, 97, 233, 32, 32, 65, 105, 114, 32, 32], [0xC3, 0xA9] + [65] * 8, [0xC3] * 10,
                    [0] * 10, [65, 0] * 5, [255] * 10, [34, 92, 10, 9, 60, 62, 38, 127, 1, 31],
                    [0xE2, 0x80, 0xA8, 65, 66, 67, 68, 69, 0xE2, 0x80], [r.randrange(256) for _ in range(10)], [r.randrange(32, 127) for _ in range(10)]][(i + self.n) % 12]
            l = [self.enc("GetBootInfo", (), j) for j in (True, False)] + [self.read() for _ in range(3)]
            l += [self.enc("FlushCache", (r.choice([0, 10]),)), self.enc("GetBootInfo", (), True), self.enc("GetBootInfo", (), False)]
            out.append(self.scn("names", [l], name=name))
        return out

    def faults(self, n):
        """The unit fails now and then."""
        out = []
        for _ in range(n):
            r = self.r
            l = []
            for _ in range(7):
                l += [self.change(None, False, True) if r.random() < .7 else self.flush()] + [self.read() for _ in range(r.randint(0, 2))]
            fs = [{"kind": r.choice(["none", "none", "mute", "short", "zero"]), "from": a, "to": a + r.choice([0, 0, 1, 3]),
                   "cmd": r.choice([0, 0, 153, 207, 211, 11, 205, 209])} for a in r.sample(range(7, 40), 5)]
            out.append(self.scn("faults", [l], faults=fs, ramps=[r.choice([0, 0, 1500])]))
        return out

    def gone(self, n):
        """The connection with the unit ends."""
        out = []
        for _ in range(n):
            l = []
            for _ in range(6):
                l += [self.change(None, False, True) if self.r.random() < .6 else self.flush(), self.read()]
            out.append(self.scn("gone", [l], faults=[{"kind": "close", "from": self.r.randint(7, 14)}], ramps=[0]))
        return out

    def lanes(self, n):
        """One client changes things while others read and flush."""
        out = []
        for _ in range(n):
            r = self.r
            ls = [[dict(self.change(None, False, True), gap=r.choice([0, 10, 100])) for _ in range(6)]]
            for _ in range(r.randint(2, 4)):
                ls.append([dict(self.read() if r.random() < .8 else self.flush(), gap=r.choice([0, 0, 5, 60])) for _ in range(15)])
            out.append(self.scn("lanes", ls))
        return out

    def slow(self, n):
        """Changes of speed that take long or are not reached at all, over a slow line."""
        out = []
        for i in range(n):
            r = self.r
            js = r.random() < .5
            ramp, delay = [(-1, 700), (9000, 400), (-1, 20), (6000, 700), (-1, 600)][(self.n + i) % 5]
            tgt = r.choice([(0, 1), (0, 0)])
            u = [2] + [r.randint(75, 95)] + [30, 50, 70, 35, 55, 75, 90, 95]
            ls = [[self.enc("SetFanSpeed", tgt, js), self.read(), self.enc("FlushCache", (3,))],
                  [dict(self.read(), gap=1500) for _ in range(8)]]
            out.append(self.scn("slow", ls, ramps=[ramp], delay=delay, u=u, keep=r.random() < .5))
        return out

    def again(self, n):
        """Asking again for what already is."""
        out = []
        for _ in range(n):
            r = self.r
            l = []
            for _ in range(4):
                o = self.change(r.random() < .5, False, True)
                l += [dict(o), dict(o)]
                l += [self.read()]
            out.append(self.scn("again", [l], ramps=[0]))
        return out

    # from the model -------------------------------------------------------------
    def of_trail(self, trail):
        """A path of MCHttp: [[client, [method, path, ct, body]], ...]"""
        lane = []
        for _, (method, path, ct, body) in trail:
            if ct == B:
                b = list(body)
            else:
                mem = []
                for f, k, v in body:
                    if k == "bad":
                        mem = None
                        break
                    t = {"num": lambda: str(v), "bool": lambda: "true" if v else "false", "numstr": lambda: '"%d"' % v,
                         "str": lambda: json.dumps(bytes(v).decode("latin-1")), "name": lambda: json.dumps(v), "null": lambda: "null"}[k]()
                    mem.append("%s:%s" % (json.dumps(f), t))
                b = "[" if mem is None else "{" + ",".join(mem) + "}"
            lane.append({"method": method, "path": path, "ct": ct, "body": b})
        return self.scn("model", [lane], u=[2, 80, 30, 50, 70, 40, 50, 70, 90, 90], ramps=[0])
