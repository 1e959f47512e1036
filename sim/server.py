"""A preloaded process that runs each requested part in a fresh forked child."""
import gc
import hashlib
import importlib
import json
import os
import resource
import signal
import struct
import sys
import traceback

CPU_LIMIT = 120


class Sim:
    """What a property's run() sees: scheduler, log, violations."""

    def __init__(self, sched, part, send):
        self.sched = sched
        self.part = part
        self.violations = []
        self.h = hashlib.blake2b(digest_size=12)
        self.nlog = 0
        self.tail = []
        self._send = send
        self.data = None
        self.cov = set()
        self.counters = {}

    def log(self, *a):
        s = repr(a)
        self.nlog += 1
        self.h.update(s.encode())
        self.h.update(b"\n")
        self.tail.append(s)
        if len(self.tail) > 60:
            del self.tail[:30]

    def fail(self, kind, msg):
        if len(self.violations) < 5:
            self.violations.append({"kind": kind, "msg": str(msg)[:1500]})
            self.log("VIOLATION", kind, str(msg)[:300])

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def point(self):
        self.sched.point()

    def finish(self, error=None):
        from .seams import ENV
        s = self.sched
        out = {
            "violations": self.violations,
            "data": self.data,
            "error": error,
            "digest": self.h.hexdigest(),
            "stats": {
                "steps": s.steps, "switches": s.switches, "meets": s.meets,
                "sim_s": s.now, "sig": s.sig & 0xFFFFFFFFFFFF,
                "tasks": len(s.tasks), "faults": ENV.fault_counts,
                "preempts": len(s.pre_log), "forced": len(s.forced_log),
                "extreme": len(ENV.draws.log) if ENV.draws else 0,
                "counters": self.counters,
            },
        }
        if self.violations or self.part.get("want_sched"):
            out["tail"] = self.tail[-40:]
            out["sched"] = {"pre": s.pre_log, "forced": s.forced_log}
            if ENV.draws is not None and ENV.draws.replay is None:
                out["draws"] = ENV.draws.log
        self._send(out)


def run_child(req, wfd):
    import _thread
    part = req["part"]
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 10))
    gc.disable()
    from . import seams
    from .sched import Sched
    ENV = seams.ENV
    lock = _thread.allocate_lock()

    def send(obj):
        lock.acquire()      # first sender wins, the process ends
        sys.settrace(None)
        buf = json.dumps(obj, default=str).encode()
        off = 0
        while off < len(buf):
            off += os.write(wfd, buf[off:])
        os._exit(0)

    spec = dict(part.get("sched") or {})
    sched = Sched(spec)
    sched.files = seams.SRC
    sim = Sim(sched, part, send)
    ENV.sched = sched
    ENV.faults = seams.Faults(part.get("faults"))
    ENV.pools = []
    ENV.logs = []
    ENV.fault_counts = {}
    ENV.clock = part.get("clock", 1_700_000_000.125)
    ENV.default_workers = part.get("default_workers", 4)
    ENV.hash_salt = part.get("hash_salt", 0)
    d = part.get("draws")
    ENV.draws = seams.Draws(d.get("q", 0.0), d.get("seed", 0),
                            d.get("replay")) if d else None
    ENV.sim = sim

    def stuck(kind, msg):
        sys.settrace(None)
        sim.fail(kind, msg)
        sim.finish()
    sched.on_stuck = stuck
    sched.start_main()
    mod = importlib.import_module("sim.props." + req["prop"].lower())
    import random
    import numpy as np
    pre = part.get("pre_random", 12345)
    random.seed(pre)
    np.random.seed(pre % (2 ** 32))
    try:
        sched.trace_on()
        sim.data = mod.run(part, sim)
        sys.settrace(None)
    except BaseException as e:
        sys.settrace(None)
        text = traceback.format_exc()[-6000:]
        if blames(e, seams.SRC):
            # nothing the scenario did explains it
            sim.fail("crash", "eckity raised %r, nothing was injected that "
                     "explains it: %s" % (e, text[-900:]))
            sim.finish()
        sim.finish(error=text)
    sim.finish()


def blames(e, src):
    """Was e raised by the code under test (or below it), not by the
    harness or something a harness callback called?"""
    here = os.path.dirname(os.path.abspath(__file__))
    if not isinstance(e, Exception):
        return False
    last = None
    for f in traceback.extract_tb(e.__traceback__):
        n = os.path.abspath(f.filename)
        if n.startswith(here + os.sep):
            last = "harness"
        elif n.startswith(src):
            last = "eckity"
    return last == "eckity"


def handle(req):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            run_child(req, w)
        except BaseException:
            try:
                os.write(w, json.dumps(
                    {"error": traceback.format_exc()[-4000:]}).encode())
            finally:
                os._exit(3)
        os._exit(4)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    raw = b"".join(chunks)
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig in (signal.SIGXCPU, signal.SIGKILL):
            return {"violations": [{
                "kind": "no-progress",
                "msg": "the run was still busy after %d s of CPU time"
                       % CPU_LIMIT}],
                "digest": "cpu", "data": None, "error": None, "stats": {}}
        return {"error": "child died of signal %d" % sig}
    if not raw:
        return {"error": "child ended with status %d and no result" % st}
    return json.loads(raw)


def main():
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    out = os.dup(1)
    os.dup2(2, 1)       # nothing but results on the result channel
    from sim import seams
    seams.install()
    seams.import_eckity()
    import sim.world  # noqa
    for p in sys.argv[1:]:
        importlib.import_module("sim.props." + p.lower())
    gc.collect()
    gc.freeze()
    inp = sys.stdin.buffer
    while True:
        hd = inp.read(4)
        if len(hd) < 4:
            return
        req = json.loads(inp.read(struct.unpack("<I", hd)[0]))
        res = json.dumps(handle(req)).encode()
        buf = struct.pack("<I", len(res)) + res
        off = 0
        while off < len(buf):
            off += os.write(out, buf[off:])


if __name__ == "__main__":
    main()
