"""Scenarios for the library: what is called, and what the unit answers when."""
import random

GET = {"GetFans": (11, 6), "GetBootloader": (103, 13), "GetFirmware": (105, 13), "GetFanProfiles": (205, 14),
       "GetTemperatures": (209, 9), "GetErrors": (217, 17), "GetHours": (221, 20), "GetBypass": (223, 7)}
ACK = [7, 0xF3]
START = [7, 0xF0]
END = [7, 0x0F]
HOT = [7, 7, 0x0F, 0xF0, 0xF3, 0, 1, 255]


def cksum(cmd, data):
    return (cmd + len(data) + sum(data) + 173) & 255


def esc(data):
    out = []
    for b in data:
        out += [7, 7] if b == 7 else [b]
    return out


def frame(cmd, data):
    return START + [0, cmd & 255, len(data)] + esc(data) + [cksum(cmd & 255, data)] + END


def reply(cmd, data):
    return ACK + frame(cmd + 1, data)


def seg(b, d=0):
    return {"d": d, "b": b}


class G:
    def __init__(self, seed, prefix):
        self.r = random.Random(seed)
        self.prefix = prefix
        self.n = 0
        self.call = 0

    def scn(self, tag, lanes, replies=(), **kw):
        self.n += 1
        s = {"id": "%s-%d" % (self.prefix, self.n), "tag": tag, "seed": 0, "stream": self.r.random() < .5,
             "lanes": lanes, "replies": list(replies), "auto": False, "delay": 20000}
        s.update(kw)
        return s

    def op(self, name, *a, gap=0):
        self.call += 1
        return {"id": self.call, "gap": gap, "op": name, "a": list(a)}

    # values -----------------------------------------------------------------
    def byte(self):
        return self.r.choice(HOT) if self.r.random() < .35 else self.r.randrange(256)

    def data(self, n=None):
        if n is None:
            n = self.r.choice([0, 1, 2, 3, 4, 5, 7, 13, 15, 20, 40, 240, 243, 254, 255, self.r.randrange(256)])
        m = self.r.random()
        if m < .15:
            return [7] * n
        if m < .3:
            return [self.r.choice([7, 0x0F, 0xF0, 0xF3]) for _ in range(n)]
        return [self.byte() for _ in range(n)]

    def with_cksum(self, cmd, n, want):
        """A payload of length n whose frame has the given checksum."""
        d = self.data(n)
        if n:
            k = self.r.randrange(n)
            d[k] = (d[k] + want - cksum(cmd, d)) & 255
        return d

    def payload(self, op):
        d = self.data(GET[op][1])
        if op == "GetFans":
            for i in (2, 4):
                if d[i] == 0 and d[i + 1] == 0:
                    d[i + 1] = self.r.randrange(1, 256)
        if op in ("GetBootloader", "GetFirmware"):
            # the device name is text
            d = d[:3] + [self.r.choice([32, 32, 65, 0x7A, 48, 45, 9, 0, 7, 15]) for _ in range(10)]
        return d

    def split(self, b, total=800000):
        """Segments that deliver b within about total microseconds."""
        m = self.r.random()
        if m < .25 or len(b) < 2:
            return [seg(b, self.r.choice([0, 1000, 20000, 900000 if total > 700000 else 20000]))]
        if m < .5:
            cuts = list(range(1, len(b)))
        else:
            cuts = sorted(self.r.sample(range(1, len(b)), min(len(b) - 1, self.r.randrange(1, 6))))
        out, last = [], 0
        per = total // (len(cuts) + 2)
        for c in cuts + [len(b)]:
            out.append(seg(b[last:c], self.r.choice([0, 0, 100, per])))
            last = c
        return out

    # families ---------------------------------------------------------------
    def requests(self, n):
        """Every command, payload length and byte on the wire."""
        out = []
        for i in range(n):
            ops, reps = [], []
            for _ in range(6):
                cmd = self.r.randrange(256)
                d = self.data(self.r.choice([None, self.r.randrange(256)]))
                if self.r.random() < .15:
                    d = self.data(self.r.choice([256, 257, 300, 511, 512, 600]))
                if self.r.random() < .2:
                    ops.append(self.op("Write", cmd, *d))
                    if len(d) < 256:
                        reps.append([])
                    continue
                ex = self.r.randrange(2)
                ops.append(self.op("Query", cmd, ex, *d))
                if len(d) < 256:
                    reps.append([seg(reply(cmd, []) if ex else ACK, 1000)])
            out.append(self.scn("requests", [ops], reps))
        return out

    def lengths(self, step=1, off=0):
        """All payload lengths, each with a chosen checksum, out and back."""
        out = []
        for n in range(off, 256, step):
            cmd = self.r.randrange(256)
            d = self.data(n)
            back = self.with_cksum((cmd + 1) & 255, n, self.r.choice(HOT))
            out.append(self.scn("lengths", [[self.op("Query", cmd, 1, *d)]], [self.split(reply(cmd, back), 500000)]))
        return out

    def replies(self, n):
        """Good answers, all payloads, split every way."""
        out = []
        for _ in range(n):
            ops, reps = [], []
            for _ in range(3):
                if self.r.random() < .5:
                    o = self.r.choice(sorted(GET))
                    cmd, d = GET[o][0], self.payload(o)
                    ops.append(self.op(o))
                else:
                    cmd = self.r.randrange(256)
                    d = self.data()
                    if self.r.random() < .4:
                        d = self.with_cksum((cmd + 1) & 255, len(d), self.r.choice([7, 0x0F, 0xF0, 0xF3]))
                    if d and self.r.random() < .3:
                        d[-1] = 7
                    if len(d) > 1 and self.r.random() < .3:
                        k = self.r.randrange(len(d) - 1)
                        d[k], d[k + 1] = 7, self.r.choice([7, 0x0F, 0xF0, 0xF3])
                    ops.append(self.op("Query", cmd, 1))
                reps.append(self.split(reply(cmd, d)))
            if self.r.random() < .15:     # the stream ends with the last byte
                reps[-1][-1]["err"] = "eof"
            out.append(self.scn("replies", [ops], reps))
        return out

    def corrupt(self, b, cmd):
        """A damaged answer."""
        b = list(b)
        m = self.r.randrange(12)
        k = self.r.randrange(len(b))
        if m == 0:
            b[k] ^= 1 << self.r.randrange(8)
        elif m == 1:
            b[k] = self.byte()
        elif m == 2:
            del b[k]
        elif m == 3:
            b.insert(k, self.byte())
        elif m == 4:
            b = b[:k]
        elif m == 5:
            b = b[k:]
        elif m == 6:
            b = b[:k] + b[max(0, k - self.r.randrange(1, 5)):]
        elif m == 7:
            d = self.data(self.r.randrange(12))
            b = self.r.choice([frame(cmd + 1, d), ACK + ACK, START + frame(cmd + 1, d), END + frame(cmd + 1, d),
                               ACK + END + frame(cmd + 1, d)[2:], ACK + ACK + frame(cmd + 1, d)[2:],
                               ACK + frame(cmd + 1, d)[:-2] + ACK, ACK + frame(cmd + 1, d)[:-2] + START,
                               START + ACK + frame(cmd + 1, d)[2:], ACK + [0] + frame(cmd + 1, d)])
        elif m == 8:
            d = self.data(self.r.randrange(12))
            b = ACK + frame(self.r.choice([cmd, cmd + 2, 0, cmd ^ 1, self.r.randrange(256)]), d)
        elif m == 9:
            d = self.data(self.r.randrange(12))
            f = frame(cmd + 1, d)
            f[4] = (f[4] + self.r.choice([1, 255, 2, 128, 255 - f[4]])) & 255
            if self.r.random() < .6:   # a checksum that agrees with the wrong length
                f[-3] = (cmd + 1 + f[4] + sum(d) + 173) & 255
            b = ACK + f
        elif m == 10:
            d = self.data(self.r.randrange(12))
            f = frame(cmd + 1, d)
            f[-3] = (f[-3] + self.r.choice([1, 255, 173, len(d) or 1])) & 255
            b = ACK + f
        else:
            b = [self.byte() for _ in range(self.r.randrange(1, 40))]
        return b

    def malformed(self, n):
        out = []
        for _ in range(n):
            if self.r.random() < .5:
                o = self.r.choice(sorted(GET))
                cmd, d = GET[o][0], self.payload(o)
                op = self.op(o)
            else:
                cmd, d = self.r.randrange(256), self.data(self.r.randrange(20))
                op = self.op("Query", cmd, 1)
            b = self.corrupt(reply(cmd, d), cmd)
            segs = self.split(b, 500000) if b else []
            end = self.r.random()
            if end < .3:
                segs.append({"d": 1000, "err": "eof"})
            elif end < .45:
                segs.append({"d": 1000, "err": "err"})
            out.append(self.scn("malformed", [[op]], [segs]))
        return out

    def substitutions(self, op, values, off=0, step=1):
        """Each byte of a good answer replaced by each of some values."""
        out = []
        cmd = GET[op][0]
        good = reply(cmd, self.payload(op))
        jobs = [(k, v) for k in range(len(good)) for v in values if good[k] != v]
        for k, v in jobs[off::step]:
            b = list(good)
            b[k] = v
            out.append(self.scn("substitution", [[self.op(op)]], [[seg(b, 1000), {"d": 5000, "err": "eof"}]]))
        return out

    def truncations(self, op):
        """A good answer cut at every place, then silence, end of stream or a read error."""
        out = []
        cmd = GET[op][0]
        good = reply(cmd, self.payload(op))
        for k in range(len(good)):
            for kind in ("", "eof", "err"):
                segs = [seg(good[:k], 1000)] if k else []
                if kind:
                    segs.append({"d": 1000, "err": kind})
                out.append(self.scn("truncation", [[self.op(op)]], [segs]))
        return out

    def setop(self, gap=0):
        m = self.r.randrange(4)
        if m == 0:
            return self.op("SetComfort", self.r.randrange(108), gap=gap)
        if m == 1:
            return self.op("SetSpeed", self.r.randrange(5), gap=gap)
        if m == 2:
            return self.op("SetFanProfiles", *[self.r.randrange(101) for _ in range(12)], gap=gap)
        return self.op("Query", self.r.randrange(256), 0, *self.data(self.r.randrange(9)), gap=gap)

    def acks(self, n):
        """Every kind of answer to a setting request."""
        out = []
        kinds = [[], [seg(ACK, 1000)], [seg([7], 1000), seg([0xF3], 300000)], [seg([7], 1000)], [seg([0xF3], 1000)],
                 [seg(START, 1000)], [seg(END, 1000)], [seg([0] + ACK, 1000)], [seg([7] + ACK, 1000)],
                 [{"d": 1000, "err": "eof"}], [{"d": 1000, "err": "err"}], [seg([7], 1000), {"d": 1000, "err": "eof"}],
                 [seg(ACK, 1000), {"d": 0, "err": "eof"}], [{"d": 1000, "b": ACK, "err": "eof"}],
                 [{"d": 1000, "b": [7], "err": "eof"}], [{"d": 1000, "b": [0xF3], "err": "err"}],
                 [seg(ACK, 930000)], [seg(ACK, 1200000)], [seg(ACK + [1, 2, 3], 1000)], [seg(START + ACK, 1000)],
                 [seg(frame(0, []), 1000)], [seg(END + ACK, 500)], [seg([0x0F, 0xF3], 500)], [seg([7, 7, 0xF3], 500)],
                 [seg([7, 0xF2], 500)], [seg([7, 0], 500), seg(ACK, 500)], [seg([0x06], 10)], [seg([0xF3, 7], 10)],
                 [seg([0x07, 0x0F], 10), seg(ACK, 10)], [seg([0] * 100, 10)], [seg([255] * 5000, 10)],
                 [seg([1] * 70000, 10)]]
        for i in range(n):
            k = kinds[i % len(kinds)] if i < 4 * len(kinds) else [seg([self.byte() for _ in range(self.r.randrange(1, 6))], 1000)]
            out.append(self.scn("acks", [[self.setop()]], [k]))
        return out

    def outcomes(self, n):
        """Exchanges of every outcome in a row, with faulty writes."""
        out = []
        for _ in range(n):
            ops, reps, wf = [], [], {}
            w = 0
            for _ in range(self.r.randrange(1, 5)):
                fault = self.r.random()
                if self.r.random() < .5:
                    o = self.setop(gap=self.r.choice([0, 1000, 1500000]))
                    good = ACK
                else:
                    name = self.r.choice(sorted(GET))
                    o = self.op(name, gap=self.r.choice([0, 1000, 1500000]))
                    good = reply(GET[name][0], self.payload(name))
                ops.append(o)
                if fault < .12:
                    wf[str(w)] = self.r.choice(["err", "short"])
                    break
                if fault < .3:
                    wf[str(w + 1)] = self.r.choice(["err", "short", "quietshort"])
                    reps.append([seg(good, 2000)])
                    break
                if fault < .5:
                    reps.append([seg(self.corrupt(good, 10), 1000)])
                    break
                if fault < .6:
                    reps.append([])
                    break
                reps.append(self.split(good))
                w += 2
            out.append(self.scn("outcomes", [ops], reps, wfault=wf, auto=True, state=self.state()))
        return out

    def stalls(self, n):
        """The unit stops at some point or trickles; the line must be free about a second later."""
        out = []
        for _ in range(n):
            if self.r.random() < .3:
                o, good = self.setop(), ACK
            else:
                name = self.r.choice(sorted(GET))
                o, good = self.op(name), reply(GET[name][0], self.payload(name))
            k = self.r.randrange(len(good))
            m = self.r.random()
            if m < .4:
                segs = self.split(good[:k], 700000) if k else []
            elif m < .7:    # a byte now and then, for much longer than a second
                segs = [seg([b], self.r.choice([150000, 400000, 90000])) for b in good]
            elif m < .85:   # an endless trickle that is no answer
                segs = [seg([self.r.randrange(256)], 300000) for _ in range(14)]
            else:           # complete, but just too late
                segs = [seg(good[:-1], 1000), seg(good[-1:], self.r.choice([1003000, 1100000, 3000000]))]
            nxt = self.r.choice(sorted(GET))
            lanes = [[o], [self.op(nxt, gap=1000)]] if self.r.random() < .5 else [[o, self.op(nxt, gap=self.r.choice([0, 4000000]))]]
            out.append(self.scn("stalls", lanes, [segs], auto=True, state=self.state()))
        return out

    def state(self):
        return {str(GET[o][0]): self.payload(o) for o in GET}

    def histories(self, n, length=9):
        """Faults at some exchanges, the others answered properly."""
        out = []
        for _ in range(n):
            ops, reps = [], []
            same = self.r.random() < .3
            name = self.r.choice(sorted(GET))
            hit = {self.r.randrange(length // 2) for _ in range(self.r.choice([1, 1, 2, 3]))}
            for i in range(length):
                gap = self.r.choice([0, 1000, 500000, 2000000])
                if self.r.random() < .3:
                    o, good, cmd = self.setop(gap), ACK, 10
                else:
                    if not same:
                        name = self.r.choice(sorted(GET))
                    o, good, cmd = self.op(name, gap=gap), reply(GET[name][0], self.payload(name)), GET[name][0]
                ops.append(o)
                if i in hit:
                    m = self.r.random()
                    if m < .3:
                        reps.append([])
                    elif m < .5:
                        reps.append([seg(good, self.r.choice([1010000, 1200000, 1600000, 2500000]))])
                    elif m < .6:
                        k = self.r.randrange(1, len(good))
                        reps.append([seg(good[:k], 5000), seg(good[k:], self.r.choice([1010000, 1300000, 2500000]))])
                    elif m < .75:
                        reps.append(self.split(self.corrupt(good, cmd) or [0], 300000))
                    elif m < .85:
                        reps.append([seg([self.byte() for _ in range(self.r.randrange(1, 30))] + good, 5000)])
                    elif m < .93:
                        reps.append([seg(good, 5000), seg([self.byte() for _ in range(self.r.randrange(1, 30))], self.r.choice([0, 3000, 1500000]))])
                    else:
                        reps.append([seg(good + good, 5000)])
                else:
                    reps.append(self.split(good, 300000) if self.r.random() < .5 else [seg(good, 20000)])
            out.append(self.scn("histories", [ops], reps))
        return out

    def concurrent(self, n, faults=True, profiles=False):
        """Several callers at once, perturbed schedules."""
        out = []
        for _ in range(n):
            lanes = []
            for _ in range(self.r.randrange(2, 6)):
                lane = []
                for _ in range(self.r.randrange(1, 4)):
                    gap = self.r.choice([0, 0, 10, 50, 1000, 20000])
                    m = self.r.random()
                    if profiles and m < .8:
                        if self.r.random() < .7:
                            lane.append(self.op("SetFanProfile", self.r.randrange(4), self.r.randrange(101), gap=gap))
                        else:
                            lane.append(self.op("SetFanProfiles", *[self.r.randrange(101) for _ in range(12)], gap=gap))
                    elif m < .5:
                        lane.append(self.op(self.r.choice(sorted(GET)), gap=gap))
                    else:
                        lane.append(self.setop(gap))
                lanes.append(lane)
            reps = []
            if faults and self.r.random() < .5:
                # the first few requests go unanswered or get nonsense
                for _ in range(self.r.randrange(1, 3)):
                    reps.append(self.r.choice([[], [seg([1, 2, 3], 500)], [seg(END, 500)]]))
            out.append(self.scn("concurrent", lanes, reps, auto=True, state=self.state(),
                                seed=self.r.randrange(1, 1 << 30), delay=self.r.choice([0, 10, 100, 20000, 600000])))
        return out

    def rmw(self, n):
        """One profile change at a time, from every unit state, with faults in either half."""
        out = []
        for _ in range(n):
            st = self.payload("GetFanProfiles")
            op = self.op("SetFanProfile", self.r.choice([0, 1, 2, 3, 3, 4, 5, 255, self.r.randrange(256)]),
                         self.r.choice([0, 7, 15, 100, 101, 255, self.r.randrange(101), self.r.randrange(101)]))
            good = reply(205, st)
            m = self.r.random()
            if m < .6:
                reps = [self.split(good, 300000), [seg(ACK, 1000)]]
            elif m < .75:
                reps = [[seg(good, 1000)], self.r.choice([[], [seg(END, 10)], [{"d": 10, "err": "eof"}], [seg([1], 10)]])]
            else:
                reps = [self.r.choice([[], [seg(self.corrupt(good, 205), 1000)], [{"d": 10, "err": "eof"}],
                                       [seg(reply(205, st[:-1]), 10)], [seg(reply(205, st + [1]), 10)]])]
            out.append(self.scn("rmw", [[op]], reps))
        return out

    def decode(self, n):
        """Every reply type, random payloads, several in one go."""
        out = []
        for _ in range(n):
            ops, reps = [], []
            for o in self.r.sample(sorted(GET), 4):
                d = self.payload(o)
                if self.r.random() < .12:
                    d = self.data(self.r.choice([0, 1, len(d) - 1, len(d) + 1, 2 * len(d), self.r.randrange(40)]))
                    if o in ("GetBootloader", "GetFirmware") and len(d) == 13:
                        d = d[:12]
                if o == "GetFans" and self.r.random() < .15 and len(d) == 6:
                    k = self.r.choice([2, 4])
                    d[k] = d[k + 1] = 0
                ops.append(self.op(o))
                reps.append([seg(reply(GET[o][0], d), 1000)])
            out.append(self.scn("decode", [ops], reps))
        return out

    def keeps(self, n):
        """Replies decoded one after another and at once, looked at again in the end."""
        out = []
        for _ in range(n):
            o = self.r.sample(sorted(GET), self.r.randrange(1, 4))
            lanes, reps = [], []
            for k in range(self.r.choice([1, 1, 2, 3])):
                lane = []
                for _ in range(self.r.randrange(2, 7)):
                    name = self.r.choice(o)
                    cmd, d = GET[name][0], self.payload(name)
                    m = self.r.random()
                    if m < .2:
                        d = self.data()
                    if m > .7:
                        if k == 0:
                            lane.append(self.op("Query", cmd, 1))
                        else:
                            lane.append(self.op(name))
                    else:
                        code = cmd + 1 if m < .65 else self.r.randrange(256)
                        lane.append(self.op("Decode", code, *d, gap=self.r.choice([0, 0, 20, 1000])))
                lanes.append(lane)
            out.append(self.scn("keeps", lanes, auto=True, state=self.state(),
                                seed=self.r.choice([0, self.r.randrange(1, 1 << 30)])))
        return out

    def bytewise(self, op, k, step=1):
        """Byte k of a payload takes all values."""
        out = []
        base = self.payload(op)
        vals = list(range(0, 256, step))
        for lo in range(0, len(vals), 32):
            ops, reps = [], []
            for v in vals[lo:lo + 32]:
                d = list(base)
                d[k] = v
                if op in ("GetBootloader", "GetFirmware") and k > 2:
                    d[k] = v & 127
                ops.append(self.op(op))
                reps.append([seg(reply(GET[op][0], d), 1000)])
            out.append(self.scn("bytewise", [ops], reps))
        return out

    def setters(self):
        """All arguments of the setters."""
        out = []
        jobs = [("SetComfort", t) for t in range(256)] + [("SetSpeed", s) for s in range(256)] + \
               [("SetFanProfile", m, p) for m in (0, 1, 2, 3, 4, 5, 7, 128, 254, 255) for p in (0, 1, 7, 14, 15, 50, 99, 100, 101, 102, 128, 200, 255)]
        for _ in range(40):
            jobs.append(("SetFanProfiles",) + tuple(self.r.choice([self.r.randrange(101), self.byte()]) for _ in range(12)))
        for lo in range(0, len(jobs), 16):
            ops = [self.op(*j) for j in jobs[lo:lo + 16]]
            out.append(self.scn("setters", [ops], [], auto=True, delay=100, state=self.state()))
        return out
