"""Runs of the real program in real time, several at once."""
import json, os, subprocess, sys, threading
import vlib

AT_ONCE = threading.BoundedSemaphore(14)
DRIVER = os.path.join(vlib.VERIF, "harness", "app", "appdrv.py")
DROPPED = []


def build(tmp):
    """The program, from /repo's working tree."""
    out = os.path.join(tmp, "comfo")
    vlib.run(["go", "build", "-o", out, "."], env=vlib.goenv(), cwd=vlib.REPO, timeout=600)
    return out


def namespaces():
    """Whether namespaces of one's own are to be had."""
    p = subprocess.run(["unshare", "-Urmn", "true"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode == 0


class Inside:
    known = None
    lock = threading.Lock()

    @classmethod
    def get(cls):
        with cls.lock:
            if cls.known is None:
                cls.known = namespaces()
            return cls.known


def one(binary, s, f, driver=DRIVER):
    """One scenario; None if it cannot be had."""
    inside = Inside.get()
    if not inside and s.get("alone"):
        return None
    json.dump(s, open(f + ".scn", "w"))
    why = ""
    for attempt in range(4):
        cmd = (["unshare", "-Urmn"] if inside else []) + [sys.executable, "-B", driver, binary, f + ".scn", f + ".nd"] + (["inside"] if inside else [])
        with AT_ONCE:
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
                code, why = p.returncode, p.stdout.decode(errors="replace")[-1500:]
            except subprocess.TimeoutExpired:
                code, why = 3, "no end"
        if code == 0:
            return vlib.read_nd(f + ".nd")
        if code == 4:
            return None
        if code != 3:
            raise vlib.CheckError("the driver failed (%d): %s" % (code, why))
    DROPPED.append(s["id"])
    return None


def run_all(one, binary, scns, tmp, name):
    res = [None] * len(scns)
    bad = []

    def work(k):
        try:
            res[k] = one(binary, scns[k], os.path.join(tmp, "%s.%d" % (name, k)))
        except Exception as ex:
            bad.append(ex)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(len(scns))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if bad:
        raise bad[0]
    return [e for r in res if r for e in r]


def run_driver(binary, scns, tmp, name):
    return run_all(one, binary, scns, tmp, name), []
