"""Runs the Python client of /repo and writes the trace of what it did.

    pydrv.py REPO SCENARIO.json TRACE.ndjson [PROGRAM]

With PROGRAM the server is the real one, else the scenario says what it replies.
Exit 0: done. Exit 3: the machine was too slow for the result to mean anything.
Exit 5: the client needs modules that are neither installed nor imitated here."""
import asyncio, collections, json, os, sys, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
HUGE = (1 << 31) - 1
FIELDS = {
    "get_bootinfo": "MajorVersion MinorVersion BetaVersion DeviceName", "get_bypass": "Factor Level Correction SummerMode",
    "get_temps": "Comfort OutsideAir SupplyAir InsideAir ExhaustAir GeoHeat Reheating KitchenHood",
    "get_fans": "InPercent OutPercent InSpeed OutSpeed",
    "get_fan_profiles": "OutAway OutLow OutMid OutHigh InFanActive InAway InLow InMid InHigh CurrentOut CurrentIn CurrentMode",
    "get_errors": "Filter"}
ARGS = {"set_fan_speed": ["speed"], "configure_fan_profile": ["profile", "percent"], "set_comfort_temperature": ["temperature"]}


class Log:
    """Kept in memory until the end: a slow disk must not hold anything up."""
    def __init__(self, path):
        self.path, self.lines, self.lock = path, [], threading.Lock()

    def __call__(self, **e):
        with self.lock:
            if self.lines is not None:
                self.lines.append(json.dumps(e, separators=(",", ":")) + "\n")

    def close(self):
        with self.lock:
            lines, self.lines = self.lines, None
        with open(self.path, "w") as f:
            f.writelines(lines or [])


def kind(v):
    if isinstance(v, bool):
        return ["bool", v]
    if isinstance(v, (int, float)):
        if v != int(v):
            return ["frac", 0]
        v = int(v)
        return ["num", min(v, HUGE)] if 0 <= v < 1 << 32 else ["neg", max(v, -HUGE)] if v < 0 else ["over", 0]
    if isinstance(v, str):
        return ["str", list(v.encode())]
    return ["null", 0] if v is None else ["other", 0]


def clamp(v):
    return max(-HUGE, min(HUGE, v))


class Loop:
    """A loop in a thread of its own, with a pulse."""
    def __init__(self, name, start=True):
        self.loop = asyncio.new_event_loop()
        self.beats = collections.deque(maxlen=4000)
        self.thread = threading.Thread(target=self.run, name="loop-" + name, daemon=True)
        if start:
            self.thread.start()

    def run(self):
        asyncio.set_event_loop(self.loop)

        def beat():
            self.beats.append(time.monotonic())
            self.loop.call_later(0.004, beat)
        self.loop.call_soon(beat)
        self.loop.run_forever()

    def gap(self, a, b):
        ts = [a] + [t for t in list(self.beats) if a <= t <= b] + [b]
        return max(y - x for x, y in zip(ts, ts[1:]))

    def do(self, coro):
        return asyncio.run_coroutine_threadsafe(coro, self.loop)


class Watch(Loop):
    """A pulse that nothing but the machine holds up."""
    def run(self):
        while True:
            self.beats.append(time.monotonic())
            time.sleep(0.004)

    def __init__(self):
        self.beats = collections.deque(maxlen=4000)
        threading.Thread(target=self.run, daemon=True).start()


def main():
    repo, scn, out = sys.argv[1:4]
    s = json.load(open(scn))
    log, watch = Log(out), Watch()
    log(e="begin", id=s["id"], tag=s["tag"])
    sys.path[:0] = [HERE, os.path.join(repo, "python")]
    sys.dont_write_bytecode = True
    from twirp import client as tc, exceptions as te
    try:
        import comfo
        from comfo import exceptions as own  # noqa: F401
    except ImportError as ex:
        name = ex.name or "comfo"
        if not name.startswith("comfo"):
            print("missing module: %s" % ex)
            os._exit(5)
        log(e="broken", text=repr(ex)[:300])
        log(e="end")
        log.close()
        os._exit(0)
    except Exception as ex:
        log(e="broken", text=repr(ex)[:300])
        log(e="end")
        log.close()
        os._exit(0)
    loops = {n: Loop(n, n != "C") for n in ("A", "B", "C")}      # C does not run before the clients are made
    pending = {}                     # host -> call
    stalled = []

    # the server ------------------------------------------------------------------
    world = None
    if len(sys.argv) > 4:
        sys.path.insert(0, os.path.join(os.path.dirname(HERE), "app"))
        import appdrv
        world = appdrv.World(s, lambda e: None, Watch2(), False)
        world.tcp_unit("@A")
        port = appdrv.free_port()
        world.start(sys.argv[4], [["mode", "tcp", "eq"], ["target", "@A", "eq"], ["listen", "127.0.0.1:%d" % port, "eq"]], {})
        end = time.monotonic() + 30
        while not appdrv.connectable("127.0.0.1:%d" % port):
            if time.monotonic() > end or world.done.is_set():
                print("the program does not come up")
                os._exit(3)
            time.sleep(0.01)

    def transport(url, headers, body):
        rest = url.split("://", 1)[-1]
        host = rest.split("/", 1)[0].rsplit(":", 1)[0] if not rest.startswith("[") else rest.split("]")[0] + "]"
        c = pending.get(host)
        i = c["id"] if c else 0
        log(e="req", id=i, url=url, ct=headers.get("Content-Type", ""), body=list(body))
        r = (c or {}).get("reply") or {"status": 200, "body": []}
        if world:
            import http.client
            h = http.client.HTTPConnection("127.0.0.1", port, timeout=100)
            h.request("POST", "/" + rest.split("/", 1)[1], body=body, headers=headers)
            x = h.getresponse()
            status, data = x.status, x.read()
            code = json.loads(data)["code"] if status != 200 else ""
            h.close()
        else:
            if r.get("delay"):
                time.sleep(r["delay"] / 1000)
            status, code, data = r["status"], r.get("code", ""), bytes(r.get("body") or [])
            if status != 200:
                data = json.dumps({"code": code, "msg": r.get("msg", "x"), "meta": {}}).encode() if code else b"<html>"
        log(e="resp", id=i, status=status, code=code, body=list(data) if status == 200 else [])
        if status == 0:
            raise ConnectionRefusedError("refused")
        return status, data
    tc.transport = transport

    # the clients -----------------------------------------------------------------
    objs = {}
    for n, o in enumerate(s["objects"]):
        given = {"none": {}}.get(o["given"], {"loop": loops[o["given"]].loop} if o["given"] in loops else {})

        def make():
            return comfo.Comfo(o["host"], **given)

        async def amake():
            return make()
        ok = True
        try:
            objs[n + 1] = make() if o["running"] == "none" else loops[o["running"]].do(amake()).result(10)
        except Exception as ex:
            ok = False
            traceback.print_exc(file=sys.stdout)
        log(e="new", o=n + 1, host=o["host"], given=o["given"], running=o["running"], ok=ok)
        if not ok:
            log(e="end")
            log.close()
            os._exit(0)

    loops["C"].thread.start()

    def finished(c, t0, res, ex):
        pending.pop(s["objects"][c["o"] - 1]["host"], None)
        t1 = time.monotonic()
        blocked = False
        if c["loop"] != "none" and (c.get("reply") or {}).get("delay", 0) >= 150:
            if loops[c["loop"]].gap(t0, t1) > 0.12:
                blocked = True
                if watch.gap(t0, t1) > 0.04:
                    stalled.append(1)
        if ex is None:
            if isinstance(res, bool):
                log(e="ret", id=c["id"], kind="bool", b=res, js=[], blocked=blocked)
            elif c["m"] in FIELDS:
                js = [[f] + kind(getattr(res, f)) for f in FIELDS[c["m"]].split() if hasattr(res, f)]
                log(e="ret", id=c["id"], kind="obj", b=False, js=js, blocked=blocked)
            else:
                log(e="ret", id=c["id"], kind="other", b=False, js=[], blocked=blocked)
        else:
            code = ex.code.value if isinstance(ex, te.TwirpServerException) else ""
            log(e="exc", id=c["id"], name=type(ex).__name__, code=code, blocked=blocked, text=str(ex)[:200])

    def args(c):
        a = [None if v == "None" else v for v in c["a"]]
        if c.get("kw"):
            return (), dict(zip(ARGS.get(c["m"], []), a))
        return a, {}

    def begin(c):
        pending[s["objects"][c["o"] - 1]["host"]] = c
        a = [] if c["a"] == ["None"] else [clamp(v) for v in c["a"]]
        log(e="call", id=c["id"], o=c["o"], m=c["m"], a=a, loop=c["loop"])

    async def acall(c):
        t0 = time.monotonic()
        res = ex = None
        try:
            p, k = args(c)
            res = await getattr(objs[c["o"]], "async_" + c["m"])(*p, **k)
        except BaseException as e:
            ex = e
        finished(c, t0, res, ex)

    groups = []
    for c in s["calls"]:
        if groups and c.get("group") and groups[-1][0].get("group") == c["group"]:
            groups[-1].append(c)
        else:
            groups.append([c])
    for g in groups:
        fs = []
        for c in g:
            begin(c)
        for c in g:
            if c["loop"] == "none":
                t0, res, ex = time.monotonic(), None, None
                try:
                    p, k = args(c)
                    res = getattr(objs[c["o"]], c["m"])(*p, **k)
                except Exception as e:
                    ex = e
                finished(c, t0, res, ex)
            else:
                fs.append(loops[c["loop"]].do(acall(c)))
        for f in fs:
            try:
                f.result(60)
            except Exception as ex:
                print("no end: %r" % ex)
                break
        else:
            continue
        break
    log(e="end")
    log.close()
    if world:
        world.clean()
    sys.stdout.flush()
    os._exit(3 if stalled or Watch2.hit else 0)


class Watch2:
    hit = False

    @staticmethod
    def mark():
        Watch2.hit = True


if __name__ == "__main__":
    main()
