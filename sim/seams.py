"""Seams between eckity and its environment.

`install()` must run before eckity is imported.  It replaces, in the standard
library, what eckity reaches nondeterminism through: worker pools and futures,
clocks, locks, the `random` module's functions (delegating to the real
generator) and log output.  eckity itself is not modified; everything under
/repo/eckity runs as shipped.
"""
import concurrent.futures as cf
import concurrent.futures._base as cf_base
import concurrent.futures.process as cf_process
import concurrent.futures.thread as cf_thread
import logging
import os
import random
import sys
import threading
import time
from multiprocessing.reduction import ForkingPickler
import pickle

from .sched import SimLock

REPO = os.path.realpath(os.environ.get("ECKITY_REPO", "/repo"))
SRC = os.path.join(REPO, "eckity") + os.sep

real_time = time.time
real_monotonic = time.monotonic
real_sleep = time.sleep
REAL_RANDOM = {n: getattr(random, n) for n in (
    "random", "uniform", "randint", "randrange", "choice", "choices",
    "sample", "gauss", "shuffle", "getrandbits", "normalvariate", "triangular",
    "betavariate", "expovariate")}


class Env:
    """The simulation a process currently runs (one per forked child)."""
    sched = None
    faults = None       # Faults
    pools = []
    logs = []
    clock = 1_700_000_000.125
    default_workers = 4
    draws = None        # Draws
    hash_salt = 0
    fault_counts = {}


ENV = Env


def get_sched():
    return ENV.sched


def count(kind, n=1):
    ENV.fault_counts[kind] = ENV.fault_counts.get(kind, 0) + n


# ---------------------------------------------------------------- futures
class SimFuture(cf_base.Future):
    def _wait_done(self, timeout, why):
        s = ENV.sched
        if s is None or self.done():
            return
        until = None if timeout is None else s.now + timeout
        s.block(self.done, until, why)

    def result(self, timeout=None):
        self._wait_done(timeout, "a result")
        return super().result(0 if ENV.sched else timeout)

    def exception(self, timeout=None):
        self._wait_done(timeout, "a result")
        return super().exception(0 if ENV.sched else timeout)


def sim_wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = set(fs)
    s = ENV.sched

    def ok():
        done = [f for f in fs if f.done()]
        if return_when == cf.FIRST_COMPLETED and done:
            return True
        if return_when == cf.FIRST_EXCEPTION and any(
                not f.cancelled() and cf_base.Future.exception(f, 0)
                for f in done):
            return True
        return len(done) == len(fs)
    s.block(ok, None if timeout is None else s.now + timeout, "futures")
    done = {f for f in fs if f.done()}
    return cf_base.DoneAndNotDoneFutures(done, fs - done)


def sim_as_completed(fs, timeout=None):
    s = ENV.sched
    pending = list(dict.fromkeys(fs))
    end = None if timeout is None else s.now + timeout
    while pending:
        s.block(lambda: any(f.done() for f in pending), end, "futures")
        done = [f for f in pending if f.done()]
        if not done:
            raise cf.TimeoutError("%d futures unfinished" % len(pending))
        done.sort(key=lambda f: getattr(f, "_done_seq", 0))
        for f in done:
            pending.remove(f)
            yield f


# ---------------------------------------------------------------- pools
class _Pool(cf_base.Executor):
    kind = "?"

    def __init__(self, max_workers=None):
        if max_workers is None:
            max_workers = ENV.default_workers
            self.requested = None
        else:
            self.requested = max_workers
        if max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._max_workers = max_workers
        self.pid = len(ENV.pools)
        ENV.pools.append(self)
        self.queue = []
        self.workers = []
        self.idle = 0
        self.running = 0
        self.peak = 0
        self.closed = False
        self.broken = None
        self.submitted = 0
        self.started = 0
        self.finished = 0
        self.seq = 0

    def submit(self, fn, /, *args, **kwargs):
        s = ENV.sched
        s.point()
        if self.broken:
            raise cf_process.BrokenProcessPool(self.broken)
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = SimFuture()
        f._done_seq = 0
        self.submitted += 1
        self.queue.append((f, fn, args, kwargs))
        if self.idle <= 0 and len(self.workers) < self._max_workers:
            fl = ENV.faults
            if fl is not None and fl.hit("spawn"):
                if self.kind == "process":
                    self.queue.pop()
                    raise OSError(11, "Resource temporarily unavailable")
                raise RuntimeError("can't start new thread")
            self._spawn()
        s.point()
        return f

    def _spawn(self):
        n = len(self.workers)
        self.workers.append(None)
        self.workers[n] = ENV.sched.spawn(
            lambda: self._worker(n), "%s%d.%d" % (self.kind, self.pid, n), self)

    def _worker(self, n):
        s = ENV.sched
        st = self._worker_init()
        while True:
            if not self.queue:
                self.idle += 1
                s.block(lambda: self.queue or self.closed or self.broken,
                        None, "work")
                self.idle -= 1
            if self.broken or (self.closed and not self.queue):
                return
            if not self.queue:
                continue
            item = self.queue.pop(0)
            f = item[0]
            if not f.set_running_or_notify_cancel():
                continue
            self.started += 1
            self.running += 1
            if self.running > self.peak:
                self.peak = self.running
            s.point()
            try:
                self._run(item, st)
            finally:
                self.running -= 1
                self.finished += 1
            item = f = None
            s.trace_on()
            s.point()

    def _worker_init(self):
        return None

    def _done(self, f, result=None, exc=None):
        self.seq += 1
        f._done_seq = self.seq
        if exc is not None:
            f.set_exception(exc)
        else:
            f.set_result(result)

    def shutdown(self, wait=True, *, cancel_futures=False):
        s = ENV.sched
        self.closed = True
        if cancel_futures:
            for it in self.queue:
                it[0].cancel()
            self.queue.clear()
        if wait and s is not None:
            s.block(lambda: all(w.done for w in self.workers), None,
                    "workers to exit")

    def alive(self):
        return [w for w in self.workers if not w.done]

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimThreadPool(_Pool):
    kind = "thread"

    def __init__(self, max_workers=None, thread_name_prefix="",
                 initializer=None, initargs=()):
        super().__init__(max_workers)
        self._initializer, self._initargs = initializer, initargs

    def _worker_init(self):
        if self._initializer:
            self._initializer(*self._initargs)

    def _run(self, item, st):
        f, fn, args, kwargs = item
        s = ENV.sched
        fl = ENV.faults
        if fl is not None:
            d = fl.hit("stall")
            if d:
                count("stall")
                s.sleep(d)
        try:
            r = fn(*args, **kwargs)
        except BaseException as e:  # as the real pool does
            sys.settrace(None)
            self._done(f, exc=e)
        else:
            self._done(f, r)


class SimProcessPool(_Pool):
    kind = "process"

    def __init__(self, max_workers=None, mp_context=None, initializer=None,
                 initargs=(), *, max_tasks_per_child=None):
        super().__init__(max_workers)
        self._initializer, self._initargs = initializer, initargs

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1:
            raise ValueError("chunksize must be >= 1.")
        if chunksize == 1:
            return super().map(fn, *iterables, timeout=timeout)
        from functools import partial
        import itertools
        it = zip(*iterables)
        chunks = []
        while True:
            c = tuple(itertools.islice(it, chunksize))
            if not c:
                break
            chunks.append(c)
        res = super().map(partial(cf_process._process_chunk, fn), chunks,
                          timeout=timeout)
        return cf_process._chain_from_iterable_of_lists(res)

    def _worker_init(self):
        # a forked worker starts with a copy of the parent's generators
        import numpy as np
        return {"py": random.getstate(), "np": np.random.get_state()}

    def _break(self, why):
        self.broken = why
        ex = cf_process.BrokenProcessPool(why)
        for it in self.queue:
            if not it[0].done():
                self._done(it[0], exc=ex)
        self.queue.clear()
        for f in list(self.inflight):
            if not f.done():
                self._done(f, exc=ex)
        self.inflight.clear()

    inflight = None

    def _run(self, item, st):
        import numpy as np
        if self.inflight is None:
            self.inflight = []
        f, fn, args, kwargs = item
        s = ENV.sched
        fl = ENV.faults
        kill = None
        try:
            if fl is not None and fl.hit("pickle"):
                count("pickle")
                raise pickle.PicklingError("simulated: cannot pickle task")
            wire = bytes(ForkingPickler.dumps((fn, args, kwargs)))
        except Exception as e:
            self._done(f, exc=e)
            return
        self.inflight.append(f)
        s.point()
        if fl is not None:
            d = fl.hit("stall")
            if d:
                count("stall")
                s.sleep(d)
            kill = fl.hit("kill")
            if kill == "before":
                count("kill_before")
                self._break("A child process terminated abruptly, the process "
                            "pool is not usable anymore")
                return
        if f.done():
            return
        sp, snp = random.getstate(), np.random.get_state()
        random.setstate(st["py"])
        np.random.set_state(st["np"])
        s.atomic += 1
        t0 = s.atomic_time
        pid0, CURRENT.in_process = CURRENT.in_process, True
        try:
            try:
                fn2, a2, k2 = pickle.loads(wire)
                r = fn2(*a2, **k2)
                out = (True, r)
            except BaseException as e:
                sys.settrace(None)
                s.trace_on()
                out = (False, e)
            try:
                back = ForkingPickler.dumps(out)
                out = pickle.loads(bytes(back))
            except Exception as e:
                out = (False, e)
        finally:
            CURRENT.in_process = pid0
            s.atomic -= 1
            dur = s.atomic_time - t0
            s.atomic_time = t0
            st["py"], st["np"] = random.getstate(), np.random.get_state()
            random.setstate(sp)
            np.random.set_state(snp)
        if dur > 0:
            s.block(until=s.now + dur, why="a worker process")
        else:
            s.point()
        if f.done():
            return
        if kill == "after":
            count("kill_after")
            self._break("A child process terminated abruptly, the process "
                        "pool is not usable anymore")
            return
        if f in self.inflight:
            self.inflight.remove(f)
        if out[0]:
            self._done(f, out[1])
        else:
            self._done(f, exc=out[1])


class CURRENT:
    in_process = False


def current_pool():
    s = ENV.sched
    return s.cur.pool if s is not None and s.cur is not None else None


# ---------------------------------------------------------------- faults
class Faults:
    """Environment faults of a scenario: kind -> {occurrence index: value}."""

    def __init__(self, plan):
        self.plan = {}
        for f in plan or []:
            self.plan.setdefault(f["kind"], {})[f["at"]] = f.get("v", True)
        self.n = {}
        self.fired = []

    def fired_hard(self):
        """The first injected fault that must fail the run."""
        return next((f for f in self.fired if f[0] != "stall"), None)

    def hit(self, kind):
        i = self.n.get(kind, 0)
        self.n[kind] = i + 1
        p = self.plan.get(kind)
        if p is None:
            return None
        v = p.get(i)
        if v:
            self.fired.append((kind, i))
            if kind == "spawn":
                count("spawn")
        return v


# ---------------------------------------------------------------- random
class Draws:
    """Adversarial but legal outcomes of random draws: with probability q a
    draw is replaced by an extreme value of its range."""

    def __init__(self, q=0.0, seed=0, replay=None):
        self.q = q
        self.rng = random.Random(("draws", seed).__repr__())
        self.n = 0
        self.replay = None if replay is None else {int(a): b for a, b in replay}
        self.log = []
        self.off = 0

    def pick(self):
        """None: leave the draw alone, else a variant number >= 0."""
        if self.off:
            return None
        i = self.n
        self.n += 1
        if self.replay is not None:
            v = self.replay.get(i)
        elif self.q and self.rng.random() < self.q:
            v = self.rng.randrange(6)
            self.log.append([i, v])
        else:
            v = None
        if v is not None:
            count("extreme_draw")
        return v


def _pick():
    d = ENV.draws
    if d is None or CURRENT.in_process:
        return None
    return d.pick()


R = REAL_RANDOM


def w_random():
    x = R["random"]()
    v = _pick()
    if v is None:
        return x
    return (0.0, 1.0 - 2.0 ** -53, 2.0 ** -53, 0.5, x * 1e-9, 1 - 1e-9)[v]


def w_uniform(a, b):
    x = R["uniform"](a, b)
    v = _pick()
    if v is None:
        return x
    return (a + 0.0, b + 0.0, a + (b - a) * 1e-12, a + (b - a) * 0.5,
            x, a + 0.0)[v]


def w_randint(a, b):
    x = R["randint"](a, b)
    v = _pick()
    if v is None:
        return x
    return (a, b, a, b, min(a + 1, b), max(b - 1, a))[v]


def w_randrange(start, stop=None, step=1):
    x = R["randrange"](start, stop, step) if stop is not None else \
        R["randrange"](start)
    v = _pick()
    if v is None:
        return x
    r = range(start) if stop is None else range(start, stop, step)
    return (r[0], r[-1], r[0], r[-1], x, r[len(r) // 2])[v]


def w_choice(seq):
    x = R["choice"](seq)
    v = _pick()
    if v is None:
        return x
    n = len(seq)
    return seq[(0, n - 1, 0, n - 1, n // 2, min(1, n - 1))[v]]


def w_choices(population, weights=None, *, cum_weights=None, k=1):
    x = R["choices"](population, weights, cum_weights=cum_weights, k=k)
    v = _pick()
    if v is None or weights is not None or cum_weights is not None:
        return x
    n = len(population)
    if v == 0:
        return [population[0]] * k
    if v == 1:
        return [population[n - 1]] * k
    if v == 2:
        return [population[i % n] for i in range(k)]
    if v == 3:
        return [population[(n - 1 - i) % n] for i in range(k)]
    return x


def w_sample(population, k, *, counts=None):
    x = R["sample"](population, k, counts=counts)
    v = _pick()
    if v is None or counts is not None:
        return x
    n = len(population)
    if v in (0, 2):
        return [population[i] for i in range(k)]
    if v in (1, 3):
        return [population[n - 1 - i] for i in range(k)]
    return x


def w_gauss(mu=0.0, sigma=1.0):
    x = R["gauss"](mu, sigma)
    v = _pick()
    if v is None:
        return x
    return (mu + 0.0, mu + 8.0 * sigma, mu - 8.0 * sigma, mu + 1e-12 * sigma,
            x, mu - 3.0 * sigma)[v]


def w_getrandbits(k):
    x = R["getrandbits"](k)
    v = _pick()
    if v is None:
        return x
    return (0, (1 << k) - 1, 0, (1 << k) - 1, x, 1)[v]


WRAPPED = {"random": w_random, "uniform": w_uniform, "randint": w_randint,
           "randrange": w_randrange, "choice": w_choice, "choices": w_choices,
           "sample": w_sample, "gauss": w_gauss, "getrandbits": w_getrandbits}


# ---------------------------------------------------------------- logging
class Capture(logging.Handler):
    def createLock(self):
        self.lock = None

    def handle(self, record):
        if record.name.startswith("eckity"):
            s = ENV.sched
            ENV.logs.append((s.cur.tid if s and s.cur else -1, record.name,
                             record.getMessage()))


# ---------------------------------------------------------------- locks
def _from_eckity(depth):
    """Is the nearest caller outside the threading module eckity code?"""
    f = sys._getframe(depth)
    while f is not None and f.f_code.co_filename == threading.__file__:
        f = f.f_back
    return f is not None and f.f_code.co_filename.startswith(SRC)


def _lock_factory(real, reentrant):
    def make(*a, **k):
        if _from_eckity(2):
            return SimLock(get_sched, reentrant)
        return real(*a, **k)
    return make


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import numpy  # noqa: bind their own names before the seams go in
    import scipy.special  # noqa
    import sklearn.metrics  # noqa
    import sklearn.base  # noqa
    import sklearn.utils.validation  # noqa
    import sklearn.ensemble  # noqa
    import joblib  # noqa
    import overrides  # noqa
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa

    cf.ThreadPoolExecutor = cf_thread.ThreadPoolExecutor = SimThreadPool
    cf.ProcessPoolExecutor = cf_process.ProcessPoolExecutor = SimProcessPool
    cf.wait = cf_base.wait = sim_wait
    cf.as_completed = cf_base.as_completed = sim_as_completed

    def sim_time():
        s = ENV.sched
        return ENV.clock + (s.now if s is not None else 0.0)

    def sim_sleep(dt):
        s = ENV.sched
        if s is None:
            return real_sleep(dt)
        s.sleep(dt)

    def eck(sim, real):
        def f(*a):
            if ENV.sched is not None and _from_eckity(2):
                return sim(*a)
            return real(*a)
        return f
    time.time = eck(sim_time, time.time)
    time.monotonic = eck(sim_time, time.monotonic)
    time.perf_counter = eck(sim_time, time.perf_counter)
    time.time_ns = eck(lambda: int(sim_time() * 1e9), time.time_ns)
    time.sleep = eck(sim_sleep, time.sleep)

    for n, w in WRAPPED.items():
        setattr(random, n, w)

    threading.Lock = _lock_factory(threading.Lock, False)
    threading.RLock = _lock_factory(threading.RLock, True)
    threading._allocate_lock = _lock_factory(threading._allocate_lock, False)

    root = logging.getLogger()
    root.handlers[:] = [Capture()]
    root.setLevel(logging.INFO)

    sys.path.insert(0, REPO)


def import_eckity():
    """Import every module of eckity and patch identity hashing."""
    import importlib
    import pkgutil
    import eckity
    assert os.path.realpath(eckity.__file__).startswith(SRC), eckity.__file__
    for m in pkgutil.walk_packages(eckity.__path__, "eckity."):
        if ".tests" in m.name:
            continue
        importlib.import_module(m.name)
    from eckity.individual import Individual
    if Individual.__hash__ is object.__hash__:
        def __hash__(self):
            return (self.__dict__.get("id", 0) * 0x9E3779B1 +
                    ENV.hash_salt) * 0x85EBCA6B & 0x7FFFFFFFFFFF
        Individual.__hash__ = __hash__
