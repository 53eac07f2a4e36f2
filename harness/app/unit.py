"""A simulated ventilation unit on a stream (socket or pseudo terminal), in real time."""
import random, threading, time

ACK = b"\x07\xf3"
CMDS = {11: 6, 103: 13, 205: 14, 209: 9, 217: 17, 223: 7}
SETS = (153, 207, 211)


def frame(cmd, data):
    out = bytearray([7, 0xF0, 0, cmd, len(data)])
    for b in data:
        out.append(b)
        if b == 7:
            out.append(7)
    out.append((cmd + len(data) + sum(data) + 173) & 255)
    return bytes(out) + b"\x07\x0f"


class Scanner:
    """Takes requests and acknowledgements apart."""
    def __init__(self):
        self.buf = bytearray()

    def feed(self, data):
        self.buf += data
        out = []
        while True:
            i = self.take()
            if i is None:
                return out
            out.append(i)

    def take(self):
        b = self.buf
        if len(b) < 2:
            return None
        if b[:2] == ACK:
            del b[:2]
            return ("ack",)
        if b[0] != 7 or b[1] != 0xF0:
            del b[:1]
            return ("junk",)
        if len(b) < 5:
            return None
        i, data = 5, bytearray()
        while len(data) < b[4]:
            if i >= len(b) or b[i] == 7 and i + 1 >= len(b):
                return None
            data.append(b[i])
            i += 2 if b[i] == 7 else 1
        if len(b) < i + 3:
            return None
        cmd = b[3]
        ok = b[2] == 0 and bytes(b[:i + 3]) == frame(cmd, data)
        del b[:i + 3]
        return ("q", cmd, bytes(data)) if ok else ("junk",)


class Unit:
    """s: scenario (u, delay, faults, ramps, name, seed). log(event)."""
    def __init__(self, s, log):
        self.s, self.log = s, log
        self.r = random.Random(s.get("seed", 0))
        self.u = list(s["u"])
        self.n = self.changes = 0
        self.was = self.duty = self.profile()
        self.at = 0.0
        self.lock = threading.Lock()
        self.t0 = None

    def profile(self):
        d = self.u[2:]
        return {1: (d[3], d[0]), 2: (d[4], d[1]), 3: (d[5], d[2]), 4: (d[7], d[6])}.get(self.u[0], (35, 33))

    def readings(self):
        return self.duty if self.at is not None and time.monotonic() >= self.at else self.was

    def retarget(self, ms):
        self.was = self.readings()
        self.duty = self.profile()
        self.at = None if ms < 0 else time.monotonic() + ms / 1000

    def payload(self, cmd):
        b = bytearray(self.r.randrange(256) for _ in range(CMDS.get(cmd, 4)))
        if cmd == 11:
            b[0], b[1] = self.readings()
            b[2] |= 1
            b[4] |= 1
        elif cmd == 103:
            name = bytes(self.s.get("name") or b"  ComfoAir")
            b[3:13] = (name + b"          ")[:10]
            if not self.s.get("name"):
                b[3 + self.r.randrange(10)] = 97 + self.r.randrange(26)
        elif cmd == 205:
            d = self.u[2:]
            b[0:6] = bytes(d[:6])
            b[10], b[11], b[8], b[9] = d[6], d[7], self.u[0], self.r.randrange(3)
        elif cmd == 209:
            b[0] = self.u[1]
        elif cmd == 217:
            b[8] = self.r.randrange(3)
        elif cmd == 223:
            b[6] = self.r.randrange(3)
        return bytes(b)

    def fate(self, cmd):
        self.n += 1
        for f in self.s.get("faults", []):
            if f.get("cmd") and f["cmd"] != cmd:
                continue
            lo, hi = f.get("from", 1), f.get("to", 1 << 30)
            if lo <= self.n <= hi:
                return f["kind"]
        return "ok"

    def apply(self, cmd, data):
        if cmd == 153 and len(data) == 1 and data[0] <= 4:
            self.u[0] = data[0]
            rp = self.s.get("ramps") or [0]
            self.retarget(rp[min(self.changes, len(rp) - 1)])
            self.changes += 1
        elif cmd == 211 and len(data) == 1:
            self.u[1] = data[0]
        elif cmd == 207 and len(data) == 8:
            self.u[2:] = list(data)
            self.retarget(0)
        else:
            return False
        return True

    def request(self, cmd, data, extra):
        """Decides and logs; returns the bytes of the answer, or None."""
        with self.lock:
            k = self.fate(cmd)
            isset = cmd in SETS
            if k in ("short", "zero") and (isset or (k == "zero" and cmd != 11)):
                k = "none"
            if k == "mute" and not isset:
                k = "none"
            p, out = b"", None
            if isset:
                if k in ("ok", "mute") and not self.apply(cmd, data):
                    k = "none"
                out = ACK if k == "ok" else None
            elif k in ("ok", "zero", "short") and cmd in CMDS:
                p = self.payload(cmd)
                if k == "zero":
                    p = p[:4] + b"\0\0"
                if k == "short":
                    p = p[:-1]
                out = ACK + frame(cmd + 1, p)
            self.log(dict(extra, e="q", cmd=cmd, d=list(data), k="ok" if k in ("zero", "short") else k, p=list(p)))
            return k, out

    def serve(self, recv, send, extra, stalled, closer=None):
        """Runs the unit on a stream until it ends."""
        sc = Scanner()
        delay = self.s.get("delay", 0) / 1000
        while True:
            try:
                data = recv()
            except OSError:
                data = b""
            if not data:
                return
            for i in sc.feed(data):
                if i[0] == "ack":
                    pass
                elif i[0] == "junk":
                    self.log(dict(extra, e="junk"))
                else:
                    t = time.monotonic()
                    k, out = self.request(i[1], i[2], extra)
                    if k == "close":
                        self.log(dict(extra, e="gone"))
                        if closer:
                            closer()
                        return
                    if delay:
                        time.sleep(delay)
                    if out is None:
                        continue
                    self.log(dict(extra, e="a"))
                    try:
                        send(out)
                    except OSError:
                        pass
                    if time.monotonic() - t > delay + 0.08 and time.monotonic() - t > 0.9:
                        stalled()
