"""Deterministic cooperative scheduler over real threads.

Exactly one task (thread) holds the baton at any time.  Control passes from one
task to another only at *points*: traced lines (or opcodes) of eckity source
files, explicit points of the simulated pools and of the harness, and blocking
operations.  Every choice is drawn from one seeded generator and recorded as a
deviation from the default choice, so a run is a function of
(scenario, deviations) and can be replayed and minimised.

Simulated time advances by one microsecond per point and jumps to the earliest
timer when nothing is runnable.
"""
import _thread
import os
import random as _random
import sys
import zlib

INF = float("inf")


class Stuck(Exception):
    """Raised nowhere: name of the violation kinds the scheduler itself finds."""


class Task:
    __slots__ = ("tid", "name", "lock", "done", "pred", "until", "why", "prio",
                 "pool", "result", "exc", "blocks", "nsteps", "traced",
                 "hold")

    def __init__(self, tid, name):
        self.tid = tid
        self.name = name
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.done = False
        self.pred = None
        self.until = None
        self.why = ""
        self.prio = 0
        self.pool = None
        self.result = None
        self.exc = None
        self.blocks = 0
        self.nsteps = 0
        self.hold = None    # (function, until step): waits for company


class Sched:
    def __init__(self, spec):
        """spec: {"seed", "policy", "p", "d", "est", "opcodes", "limit",
        "replay": {"pre": [[step, tid]...], "forced": [[idx, tid]...]}}"""
        self.spec = spec
        self.seed = spec.get("seed", 0)
        self.rng = _random.Random(("sched", self.seed).__repr__())
        self.policy = spec.get("policy", "rr")
        self.p = spec.get("p", 0.0)
        self.opcodes = bool(spec.get("opcodes"))
        # {"salt", "mod", "p", "op"}: one in mod functions of the code under
        # test, drawn by the salt, switches with probability p at its points
        self.focus = spec.get("focus")
        self.limit = spec.get("limit") or (
            20_000_000 if spec.get("opcodes") or spec.get("focus")
            else 10_000_000)
        self.tasks = []
        self.cur = None
        self.steps = 0
        self.time_base = 0.0
        self.atomic = 0
        self.atomic_time = 0.0
        self.forced_n = 0
        self.switches = 0
        self.meets = 0          # points of a function two tasks are in
        self.pre_log = []
        self.forced_log = []
        self.sig = 0            # rolling hash of the interleaving
        self.alarms = []        # [(step, fn)] sorted
        self.on_stuck = None    # callback(kind, message) -> never returns
        self.max_live = 0
        self.block_hooks = []   # fn(task) -> exception or None
        self.files = ()
        replay = spec.get("replay")
        self.replaying = replay is not None
        if self.replaying:
            self.r_pre = {int(a): b for a, b in replay.get("pre", [])}
            self.r_forced = {int(a): b for a, b in replay.get("forced", [])}
            self.pre_steps = sorted(self.r_pre)
            self.pre_i = 0
        elif self.policy == "pct":
            est = spec.get("est", 3000)
            self.pct_steps = sorted(
                self.rng.randrange(1, est) for _ in range(spec.get("d", 3)))
            self.pre_i = 0
        self.next_pre = self._next_pre(0)
        self._recompute()

    # -- setting up ---------------------------------------------------------
    def start_main(self):
        t = Task(0, "main")
        t.lock.release()
        t.lock.acquire()
        t.prio = self.rng.random()
        self.tasks.append(t)
        self.cur = t
        return t

    def spawn(self, fn, name, pool=None):
        t = Task(len(self.tasks), name)
        t.pool = pool
        if not self.replaying:
            t.prio = self.rng.random()
        self.tasks.append(t)
        live = sum(1 for x in self.tasks if not x.done)
        if live > self.max_live:
            self.max_live = live

        def body():
            t.lock.acquire()
            self.trace_on()
            try:
                t.result = fn()
            except BaseException as e:  # noqa
                t.exc = e
            sys.settrace(None)
            self._exit(t)

        _thread.start_new_thread(body, ())
        return t

    def join(self, t):
        self.block(lambda: t.done, why="join %s" % t.name)

    # -- time ---------------------------------------------------------------
    @property
    def now(self):
        return self.time_base + self.steps * 1e-6 + self.atomic_time

    def sleep(self, dt):
        if self.atomic:
            self.atomic_time += dt
            return
        self.block(until=self.now + dt, why="sleep")

    # -- points -------------------------------------------------------------
    def point(self):
        self.steps += 1
        if self.steps >= self.next_ev:
            self._event()

    def focus_point(self, code):
        """A point of a function in focus: more switches than elsewhere, and
        a task interrupted here preferably stays so until another one is in
        the same function."""
        self.steps += 1
        if self.steps >= self.next_ev:
            self._event()
        elif not self.replaying and not self.atomic:
            f = self.focus
            me = self.cur
            mates = [t for t in self.tasks if t.hold is not None and
                     t.hold[0] is code and t is not me and not t.done]
            if mates:
                self.meets += 1
            if self.rng.random() < f["p"]:
                for t in mates:
                    if self.rng.random() < 0.5:
                        t.hold = None
                if f.get("meet") and not mates:
                    me.hold = (code, self.steps + f["meet"])
                self._preempt(self.steps)
                me.hold = None

    def _free(self, run):
        """The tasks not held back, if any."""
        if not self.focus or self.replaying:
            return run
        s = self.steps
        return [t for t in run if t.hold is None or t.hold[1] <= s] or run

    def _next_pre(self, step):
        if self.replaying:
            while self.pre_i < len(self.pre_steps) and \
                    self.pre_steps[self.pre_i] <= step:
                self.pre_i += 1
            return self.pre_steps[self.pre_i] if self.pre_i < len(
                self.pre_steps) else INF
        if self.policy == "rand" and self.p > 0:
            u = self.rng.random()
            import math
            gap = int(math.log(1.0 - u) / math.log(1.0 - self.p)) + 1 \
                if self.p < 1 else 1
            return step + gap
        if self.policy == "pct":
            while self.pre_i < len(self.pct_steps) and \
                    self.pct_steps[self.pre_i] <= step:
                self.pre_i += 1
            return self.pct_steps[self.pre_i] if self.pre_i < len(
                self.pct_steps) else INF
        return INF

    def _recompute(self):
        a = self.alarms[0][0] if self.alarms else INF
        self.next_ev = min(self.next_pre, a, self.limit)

    def add_alarm(self, step, fn):
        self.alarms.append((step, fn))
        self.alarms.sort(key=lambda x: x[0])
        self._recompute()

    def _event(self):
        s = self.steps
        if s >= self.limit:
            self._stuck("no-progress",
                        "the run did not finish within %d steps" % self.limit)
        fire = None
        if self.alarms and self.alarms[0][0] <= s:
            fire = self.alarms.pop(0)[1]
        do_pre = s >= self.next_pre
        if do_pre:
            self.next_pre = self._next_pre(s)
        self._recompute()
        if do_pre and not self.atomic:
            self._preempt(s)
        if fire is not None:
            fire()

    def _preempt(self, s):
        me = self.cur
        run = self._runnable(skip=me)
        if self.replaying:
            tid = self.r_pre.get(s)
            if tid is None:
                return
            t = next((x for x in run if x.tid == tid), None)
            if t is None:
                t = self._wake(me, tid) if not run else None
            if t is None:
                return
        elif not run:
            # everybody else sleeps: this task stalls until one wakes up
            t = self._wake(me) if me.hold is not None else None
            if t is None:
                return
        elif self.policy == "pct":
            me.prio = -self.rng.random() - s
            t = max(self._free(run), key=lambda x: x.prio)
        else:
            run = self._free(run)
            t = run[self.rng.randrange(len(run))]
        self.pre_log.append([s, t.tid])
        self._switch(t)

    def _wake(self, me, tid=None):
        ts = [x for x in self.tasks if not x.done and x is not me and
              x.until is not None and (tid is None or x.tid == tid)]
        if not ts:
            return None
        t = min(ts, key=lambda x: (x.until, x.tid))
        self.time_base += max(0.0, t.until - self.now) + 1e-9
        return t

    # -- blocking -----------------------------------------------------------
    def _ready(self, t):
        if t.done:
            return False
        if t.pred is None and t.until is None:
            return True
        if t.pred is not None and t.pred():
            return True
        return t.until is not None and self.now >= t.until

    def _runnable(self, skip=None):
        return [t for t in self.tasks if t is not skip and self._ready(t)]

    def block(self, pred=None, until=None, why=""):
        """Give up the baton until pred() holds or simulated time `until`."""
        if self.atomic:
            if pred is not None and not pred():
                self._stuck("deadlock", "a worker process waits for " + why)
            return
        me = self.cur
        me.blocks += 1
        for h in self.block_hooks:
            e = h(me)
            if e is not None:
                raise e
        if pred is not None and pred():
            self.point()
            return
        me.pred, me.until, me.why = pred, until, why
        t = self._choose(me)
        if t is not me:
            self._switch(t)
        me.pred = me.until = None

    def _choose(self, me):
        while True:
            run = self._runnable()
            if run:
                break
            wake = [t.until for t in self.tasks
                    if not t.done and t.until is not None]
            if not wake:
                self._stuck("deadlock", "no task can make progress: " +
                            "; ".join("%s waits for %s" % (t.name, t.why)
                                      for t in self.tasks if not t.done))
            self.time_base += max(0.0, min(wake) - self.now) + 1e-9
        # default: next ready task after me, round robin
        default = next((t for t in run if t.tid > me.tid), run[0])
        t = default
        if len(run) > 1:
            i = self.forced_n
            self.forced_n += 1
            if self.replaying:
                tid = self.r_forced.get(i)
                if tid is not None:
                    t = next((x for x in run if x.tid == tid), default)
            elif self.policy == "rr":
                pass
            elif self.policy == "pct":
                t = max(self._free(run), key=lambda x: x.prio)
            else:
                free = self._free(run)
                t = free[self.rng.randrange(len(free))]
            if t is not default:
                self.forced_log.append([i, t.tid])
        return t

    def _switch(self, t):
        me = self.cur
        if t is me:
            return
        self.switches += 1
        self.sig = hash((self.sig, self.steps, t.tid))
        self.cur = t
        t.lock.release()
        me.lock.acquire()

    def _exit(self, t):
        t.done = True
        nxt = self._choose(t)
        self.sig = hash((self.sig, self.steps, nxt.tid, 1))
        self.cur = nxt
        nxt.lock.release()

    def _stuck(self, kind, msg):
        self.on_stuck(kind, msg)
        raise SystemError("on_stuck returned")

    # -- tracing ------------------------------------------------------------
    def trace_on(self):
        if not self.spec.get("trace", True):
            return
        files = self.files
        point = self.point
        cache = {}

        if self.opcodes:
            def local(frame, event, arg):
                if event == "opcode":
                    point()
                return local
        else:
            def local(frame, event, arg):
                if event == "line":
                    point()
                return local
        opc = self.opcodes
        focus, fpoint = self.focus, self.focus_point

        def flocal(frame, event, arg):
            if event == "line":
                fpoint(frame.f_code)
            return flocal

        def flocal_op(frame, event, arg):
            if event == "opcode":
                fpoint(frame.f_code)
            return flocal_op

        def glob(frame, event, arg):
            code = frame.f_code
            hit = cache.get(code)
            if hit is None:
                hit = cache[code] = code.co_filename.startswith(files)
                if hit and focus and zlib.crc32(("%s %s %s" % (
                        focus["salt"], os.path.basename(code.co_filename),
                        code.co_qualname)).encode()) % focus["mod"] == 0:
                    hit = cache[code] = 2
            if hit == 2:
                if opc or focus["op"]:
                    frame.f_trace_opcodes = True
                    return flocal_op
                return flocal
            if hit:
                if opc:
                    frame.f_trace_opcodes = True
                return local
            return None

        sys.settrace(glob)
        self._glob = glob


class SimLock:
    """A lock for code under test; blocking is visible to the scheduler."""

    def __init__(self, get_sched, reentrant=False):
        self._get = get_sched
        self._re = reentrant
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        s = self._get()
        if s is None:
            self._owner, self._n = "nosim", self._n + 1
            return True
        me = s.cur
        s.point()
        if self._re and self._owner is me:
            self._n += 1
            return True
        if self._owner is not None:
            if not blocking:
                return False
            until = None if timeout is None or timeout < 0 else s.now + timeout
            s.block(lambda: self._owner is None, until, "a lock")
            if self._owner is not None:
                return False
        self._owner, self._n = me, 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if self._n == 0 or not self._re:
            self._owner, self._n = None, 0
        s = self._get()
        if s is not None:
            s.point()

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        s = self._get()
        return self._owner is not None and (s is None or self._owner is s.cur)

    def _release_save(self):
        n, self._n, self._owner = self._n, 0, None
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self._n = n

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")
