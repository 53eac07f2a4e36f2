"""Runs the real program against a simulated unit and writes the trace of what happened.

    appdrv.py PROGRAM SCENARIO.json TRACE.ndjson [inside]

Exit 0: done. Exit 3: the machine was too slow for the result to mean anything."""
import ctypes, fcntl, http.client, json, os, pty, re, select, shutil, signal, socket, struct, subprocess, sys, tempfile
import termios, threading, time, tty

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from unit import Unit

CACHES = ("BootInfo", "Fans", "Temps", "Profiles", "Bypass", "All")
HUGE = (1 << 31) - 1
T0 = time.monotonic()


class Log:
    """Kept in memory until the end: a slow disk must not hold anything up."""
    def __init__(self, path):
        self.path, self.lines, self.lock = path, [], threading.Lock()

    def __call__(self, e):
        with self.lock:
            if self.lines is not None:
                e["t"] = int((time.monotonic() - T0) * 1000)
                self.lines.append(json.dumps(e, separators=(",", ":")) + "\n")

    def close(self):
        with self.lock:
            lines, self.lines = self.lines, None
        with open(self.path, "w") as f:
            f.writelines(lines or [])


class Watch(threading.Thread):
    """Notices when the machine stalls."""
    def __init__(self, limit):
        super().__init__(daemon=True)
        self.stalled, self.limit = False, limit

    def run(self):
        while True:
            t = time.monotonic()
            time.sleep(0.03)
            if time.monotonic() - t > self.limit:
                self.stalled = True

    def mark(self):
        self.stalled = True


# JSON as Proto.tla has it ---------------------------------------------------------------
class Num(str):
    pass


def members(text, request):
    """The members of a JSON object as [name, kind, value]; [["", "bad", 0]] if it is none."""
    try:
        obj = json.loads(text, object_pairs_hook=lambda p: ("obj", p), parse_int=Num, parse_float=Num)
    except ValueError:
        return [["", "bad", 0]]
    if not (isinstance(obj, tuple) and obj[0] == "obj"):
        return [["", "bad", 0]]
    return [[k] + kind(v, request) for k, v in obj[1]]


def number(s):
    f = float(s)
    if not re.fullmatch(r"-?\d+", s):
        if f != int(f) or abs(f) > 1 << 33:
            return ["frac", 0]
    n = int(s) if re.fullmatch(r"-?\d+", s) else int(f)
    if n < 0:
        return ["neg", max(n, -HUGE)]
    if n >= 1 << 32:
        return ["over", 0]
    return ["num", min(n, HUGE)]


def kind(v, request):
    if v is None:
        return ["null", 0]
    if isinstance(v, bool):
        return ["bool", v]
    if isinstance(v, Num):
        return number(str(v))
    if isinstance(v, str):
        if request and v in CACHES:
            return ["name", v]
        if request and re.fullmatch(r"-?\d+(\.\d+)?", v):
            k, n = number(v)
            return ["numstr", n] if k == "num" else [k, n]
        return ["str", list(v.encode())]
    return ["other", 0]


# The world --------------------------------------------------------------------------
def isolate():
    """Inside namespaces of its own: loopback up, a /dev of its own."""
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    fcntl.ioctl(s, 0x8914, struct.pack("16sh14x", b"lo", 0x1 | 0x40))
    s.close()


def own_dev(scratch, slave):
    """A /dev with a ttyUSB0 that leads to the unit's terminal. False if that cannot be had."""
    libc = ctypes.CDLL(None, use_errno=True)
    MS_BIND, MS_REC, MS_PRIVATE = 4096, 16384, 1 << 18

    def mount(src, dst, typ, flags):
        if libc.mount(src and src.encode(), dst.encode(), typ and typ.encode(), ctypes.c_ulong(flags), None) != 0:
            raise OSError(ctypes.get_errno(), dst)
    try:
        d = os.path.join(scratch, "dev")
        os.mkdir(d)
        mount(None, "/", None, MS_REC | MS_PRIVATE)
        mount("none", d, "tmpfs", 0)
        os.mkdir(d + "/pts")
        mount("/dev/pts", d + "/pts", None, MS_BIND | MS_REC)
        for n in ("null", "zero", "random", "urandom"):
            open(os.path.join(d, n), "w").close()
            mount("/dev/" + n, os.path.join(d, n), None, MS_BIND)
        os.symlink("pts/ptmx", d + "/ptmx")
        os.symlink(slave, d + "/ttyUSB0")
        mount(d, "/dev", None, MS_BIND | MS_REC)
        return os.path.exists("/dev/ttyUSB0")
    except OSError:
        return False


def free_port(host="127.0.0.1"):
    s = socket.socket(socket.AF_INET6 if ":" in host else socket.AF_INET)
    s.bind((host, 0))
    p = s.getsockname()[1]
    s.close()
    return p


class World:
    def __init__(self, s, log, watch, inside):
        self.s, self.log, self.watch, self.inside = s, log, watch, inside
        self.scratch = tempfile.mkdtemp(prefix="app-")
        self.names = {}            # symbolic name -> what the program is given
        self.out = b""
        self.proc = None
        self.socks = []
        self.keep = []

    def tcp_unit(self, name, host="127.0.0.1", given="127.0.0.1"):
        ls = socket.socket(socket.AF_INET6 if ":" in host else socket.AF_INET)
        ls.bind((host, 0))
        ls.listen(8)
        self.socks.append(ls)
        self.names[name] = "%s:%d" % (given, ls.getsockname()[1])
        unit = Unit(self.s, self.log)

        def accept():
            while True:
                try:
                    c, _ = ls.accept()
                except OSError:
                    return
                c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                self.log({"e": "conn", "at": name})
                threading.Thread(target=unit.serve, args=(lambda: c.recv(4096), c.sendall, {"at": name}, self.watch.mark,
                                                          lambda: (c.shutdown(socket.SHUT_RDWR), c.close())), daemon=True).start()
        threading.Thread(target=accept, daemon=True).start()

    def serial_unit(self, name):
        """Returns the path of the terminal."""
        m, sl = pty.openpty()
        tty.setraw(sl)
        at = termios.tcgetattr(sl)
        at[4] = at[5] = termios.B38400
        termios.tcsetattr(sl, termios.TCSANOW, at)
        path = os.ttyname(sl)
        self.keep += [m, sl]
        self.names[name] = path
        unit = Unit(self.s, self.log)
        first = []

        def recv():
            d = os.read(m, 4096)
            if not first and d:
                first.append(1)
                a = termios.tcgetattr(sl)
                self.log({"e": "conn", "at": name})
                self.log({"e": "line", "at": name, "speed": 9600 if a[4] == a[5] == termios.B9600 else 0})
            return d
        threading.Thread(target=unit.serve, args=(recv, lambda b: os.write(m, b), {"at": name}, self.watch.mark), daemon=True).start()
        return path

    def subst(self, v):
        return self.names.get(v, v)

    def start(self, program, flags, env):
        e = {k: v for k, v in os.environ.items() if not k.startswith("COMFO_")}
        e.update({k: self.subst(v) for k, v in env.items()})
        args = [program]
        for f in flags:                       # [name, value, form]
            v = self.subst(f[1])
            args += {"eq": ["--%s=%s" % (f[0], v)], "sp": ["--" + f[0], v], "bare": ["--" + f[0]], "raw": [f[0]]}[f[2]]
        self.proc = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                     env=e, cwd=self.scratch)
        self.done = threading.Event()

        def drain():
            while True:
                b = self.proc.stdout.read1(65536)
                if not b:
                    break
                self.out += b
            code = self.proc.wait()
            if not self.ending:
                self.log({"e": "exit", "code": code if code >= 0 else 256 - code})
            self.done.set()
        self.ending = False
        threading.Thread(target=drain, daemon=True).start()

    def stop(self):
        self.ending = True
        if self.proc and self.proc.poll() is None:
            self.proc.kill()
        if self.proc:
            self.done.wait(5)

    def clean(self):
        self.stop()
        if not self.inside:
            shutil.rmtree(self.scratch, ignore_errors=True)
        else:
            # with mounts in it, it goes with the namespace; what is left is an empty folder
            try:
                os.chdir("/")
                libc = ctypes.CDLL(None)
                libc.umount2(os.path.join(self.scratch, "dev").encode(), 2)
            except OSError:
                pass
            shutil.rmtree(self.scratch, ignore_errors=True)


def connectable(addr):
    host, port = addr.rsplit(":", 1)
    host = host.strip("[]") or "127.0.0.1"
    host = {"::": "127.0.0.1", "0.0.0.0": "127.0.0.1"}.get(host, host)
    try:
        c = socket.create_connection((host, int(port)), timeout=1)
        c.close()
        return True
    except OSError:
        return False


def dial(host, port):
    try:
        socket.create_connection((host, int(port)), timeout=2).close()
        return True
    except OSError:
        return False


def has6():
    try:
        c = socket.socket(socket.AF_INET6)
        c.bind(("::1", 0))
        c.close()
        return True
    except OSError:
        return False


def local():
    try:
        return {a[4][0] for a in socket.getaddrinfo("localhost", 1, type=socket.SOCK_STREAM)} & {"127.0.0.1"} != set()
    except OSError:
        return False


# HTTP scenarios ----------------------------------------------------------------------
def http(s, w, log, program):
    w.tcp_unit("@A")
    listen = "127.0.0.1:%d" % free_port()
    flags = [["mode", "tcp", "eq"], ["target", "@A", "eq"], ["listen", listen, "eq"]]
    if s.get("debug"):
        flags.append(["debug", "", "bare"])
    w.start(program, flags, {})
    end = time.monotonic() + 30
    while not connectable(listen):
        if time.monotonic() > end or w.done.is_set():
            log({"e": "lost", "id": 0})
            return
        time.sleep(0.01)
    base = time.monotonic()
    host, port = listen.split(":")

    def lane(ops):
        conn = None
        for o in ops:
            time.sleep(o.get("gap", 0) / 1000)
            wait = o.get("at", 0) / 1000 - (time.monotonic() - base)
            if wait > 0:
                time.sleep(wait)
            body = o["body"].encode() if isinstance(o["body"], str) else bytes(o["body"])
            isj = o["ct"].split(";")[0] == "application/json"
            log({"e": "call", "id": o["id"], "method": o["method"], "path": o["path"], "ct": o["ct"],
                 "body": members(o["body"], True) if isj else list(body)})
            try:
                if conn is None:
                    conn = http_client(host, int(port))
                conn.request(o["method"], o["path"], body=body, headers={"Content-Type": o["ct"]} if o["ct"] else {})
                r = conn.getresponse()
                data = r.read()
            except (OSError, ValueError) as ex:
                log({"e": "lost", "id": o["id"], "why": str(ex)})
                conn = None
                continue
            except http_client_exc as ex:
                log({"e": "lost", "id": o["id"], "why": repr(ex)})
                conn = None
                continue
            code = ""
            if r.status == 200:
                try:
                    b = members(data.decode(), False) if isj else list(data)
                except UnicodeDecodeError:
                    b = [["", "bad", 0]]
            else:
                b = []
                try:
                    code = json.loads(data)["code"]
                except (ValueError, KeyError, TypeError):
                    pass
            log({"e": "ret", "id": o["id"], "status": r.status, "ct": r.getheader("Content-Type", ""), "code": code, "body": b})
            if not s.get("keep", True):
                conn.close()
                conn = None

    ts = [threading.Thread(target=lane, args=(l,), daemon=True) for l in s["lanes"]]
    for t in ts:
        t.start()
    for t in ts:
        t.join(240)
    time.sleep(0.02)


http_client = lambda h, p: http_mod.HTTPConnection(h, p, timeout=120)
http_mod = __import__("http.client").client
http_client_exc = http_mod.HTTPException


# Boot scenarios ----------------------------------------------------------------------
def boot(s, w, log, program):
    w.tcp_unit("@A")
    w.tcp_unit("@B")
    usb = w.serial_unit("@P")
    if s.get("usb"):
        usb = w.serial_unit("/dev/ttyUSB0")
        del w.names["/dev/ttyUSB0"]
        if not (w.inside and own_dev(w.scratch, usb)):
            return False
    named = {f[1] for f in s["flags"]} | set(s["env"].values())
    if "@6" in named:
        if not has6():
            return False
        w.tcp_unit("@6", "::1", "[::1]")
    if "@H" in named:
        if not local():
            return False
        w.tcp_unit("@H", given="localhost")
    if "@L3" in named:
        if not has6():
            return False
        w.names["@L3"] = "[::1]:%d" % free_port("::1")
    w.names["@L4"] = ":%d" % free_port()
    w.names["@L5"] = "0.0.0.0:%d" % free_port()
    w.names["@U"] = "192.0.2.1:%d" % free_port()
    w.names["@Z"] = "127.0.0.1"
    w.names["@Y"] = "127.0.0.1:70000"
    w.names["@R"] = "127.0.0.1:%d" % free_port()
    w.names["@N"] = os.path.join(w.scratch, "nosuch")
    w.names["@F"] = os.path.join(w.scratch, "plain")
    open(w.names["@F"], "w").close()
    w.names["@L1"] = "127.0.0.1:%d" % free_port()
    w.names["@L2"] = "[::]:%d" % free_port()
    busy = socket.socket()
    busy.bind(("127.0.0.1", 0))
    busy.listen(1)
    w.names["@X"] = "127.0.0.1:%d" % busy.getsockname()[1]
    places = [("[::]:3094", "[::]:3094")] + [(n, w.names[n]) for n in ("@L1", "@L2", "@L3", "@L4", "@L5") if n in w.names]
    if any(connectable(a) for _, a in places):
        return False
    w.start(program, s["flags"], s["env"])
    end = time.monotonic() + 25
    up = None
    while time.monotonic() < end and not w.done.is_set() and up is None:
        for n, a in places:
            if connectable(a):
                up = (n, a)
                log({"e": "up", "at": n})
        time.sleep(0.01)
    if up:
        port = up[1].rsplit(":", 1)[1]
        at = "::1" if up[0] == "@L3" else "127.0.0.1"
        could = ["127.0.0.2"] + (["127.0.0.1"] if up[0] == "@L3" else ["::1"] if has6() else [])
        log({"e": "reach", "at": up[0], "could": could, "from": [h for h in could if dial(h, port)]})
        ok = False
        try:
            c = http_mod.HTTPConnection(at, int(port), timeout=10)
            c.request("POST", "/twirp/comfo.api.Comfo/GetErrors", body="{}", headers={"Content-Type": "application/json"})
            r = c.getresponse()
            ok = r.status == 200 and "Filter" in json.loads(r.read())
        except (OSError, ValueError, http_client_exc):
            pass
        log({"e": "serves", "at": up[0], "ok": ok})
        # it keeps running
        w.done.wait(0.25)
    elif not w.done.is_set():
        log({"e": "stuck"})
    w.stop()
    log({"e": "log", "debug": b"DEBUG" in w.out})
    return True


def main():
    program, scn, out = sys.argv[1:4]
    inside = len(sys.argv) > 4
    if inside:
        isolate()
    s = json.load(open(scn))
    log, watch = Log(out), Watch(0.2 if s.get("delay", 0) >= 400 else 0.45)
    watch.start()
    log({k: v for k, v in s.items() if k in ("id", "tag", "flags", "env", "usb")} | {"e": "begin"})
    w = World(s, log, watch, inside)
    fit = True
    try:
        fit = (http if s["kind"] == "http" else boot)(s, w, log, program) is not False
    finally:
        w.ending = True
        log({"e": "end"})
        log.close()
        w.clean()
    sys.stdout.flush()
    os._exit(4 if not fit else 3 if watch.stalled else 0)


if __name__ == "__main__":
    main()
