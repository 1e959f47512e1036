"""Building eckity experiments from scenario configurations, independent
oracles, and the monitor that observes a run through its public events."""
import math
import pickle
import random
import zlib
from collections import Counter

import numpy as np

from .seams import ENV, CURRENT, count, current_pool

from eckity.algorithms.simple_evolution import SimpleEvolution
from eckity.base import untyped_functions as UF
from eckity.base import typed_functions as TF
from eckity.breeders import SimpleBreeder
from eckity.creators.ga_creators.simple_vector_creator import GAVectorCreator
from eckity.creators.ga_creators.bit_string_vector_creator import \
    GABitStringVectorCreator
from eckity.creators.ga_creators.float_vector_creator import \
    GAFloatVectorCreator
from eckity.creators.ga_creators.int_vector_creator import GAIntVectorCreator
from eckity.creators.gp_creators.full import FullCreator
from eckity.creators.gp_creators.grow import GrowCreator
from eckity.creators.gp_creators.half import HalfCreator
from eckity.evaluators import (SimpleIndividualEvaluator,
                               SimplePopulationEvaluator)
from eckity.fitness import GPFitness, SimpleFitness
from eckity.genetic_encodings.ga import (BitStringVector, FloatVector,
                                         IntVector)
from eckity.genetic_encodings.gp import FunctionNode, TerminalNode, Tree
import eckity.genetic_operators as GO
from eckity.individual import Individual
from eckity.multi_objective_evolution import (CrowdingTerminationChecker,
                                              NSGA2Breeder, NSGA2Evolution,
                                              NSGA2FrontSorting)
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.population import Population
from eckity.random import RNG
from eckity.sklearn_compatible import (ClassificationEvaluator,
                                       RegressionEvaluator, SKClassifier,
                                       SKRegressor)
from eckity.statistics.best_average_worst_statistics import \
    BestAverageWorstStatistics
from eckity.statistics.best_avg_worst_size_tree_statistics import \
    BestAverageWorstSizeTreeStatistics
from eckity.statistics.minimal_print_statistics import MinimalPrintStatistics
from eckity.statistics.statistics import Statistics
from eckity.subpopulation import Subpopulation
from eckity.termination_checkers import (
    ThresholdFromTargetTerminationChecker, TerminationChecker)
from eckity.termination_checkers\
    .best_fitness_stagnation_termination_checker import \
    BestFitnessStagnationTerminationChecker

VEC = {"bits": BitStringVector, "ints": IntVector, "floats": FloatVector}
INPUTS = {"x0": 0.75, "x1": -2.5, "x2": 3.0}
INPUTS.update({"x%d" % _i: _i / 4.0 - 2.0 for _i in range(3, 12)})
TINPUTS = {"x0": 0.75, "x1": 4, "x2": True, "y0": -1.25}


# ------------------------------------------------------- typed functions
def ti_add(x: int, y: int) -> int:
    return x + y


def ti_mul(x: int, y: int) -> int:
    return (x * y) % 9973


def ti_if(c: bool, x: int, y: int) -> int:
    return x if c else y


def tf_fromint(x: int) -> float:
    return float(x % 1000) / 8.0


def tf_if(c: bool, x: float, y: float) -> float:
    return x if c else y


def tf_sub(x: float, y: float) -> float:
    return x - y


def tb_lt(x: float, y: float) -> bool:
    return bool(x < y)


def tb_and(a: bool, b: bool) -> bool:
    return a and b


def tb_even(x: int) -> bool:
    return x % 2 == 0


# user functions that share their names with others
_BASE = ["f_add", "f_sub", "f_mul", "f_div", "f_neg", "f_max", "f_min",
         "f_iflte0", "f_abs", "f_sqrt", "f_log", "f_inv", "f_iflte", "f_sin"]


def namesake(name, k):
    """The k-th user function of this name."""
    q = "_ns%d_%s" % (k, name)
    f = globals().get(q)
    if f is None:
        import types
        b = getattr(UF, name)
        f = types.FunctionType(b.__code__, b.__globals__, name,
                               b.__defaults__, b.__closure__)
        f.__qualname__, f.__module__ = q, __name__
        f.__annotations__ = dict(b.__annotations__)
        globals()[q] = f
    return f


for _k in range(1, 4):
    for _n in _BASE:
        namesake(_n, _k)


def u_fail(x, y):
    """A user's function that may fail when evaluated by a run."""
    t = ENV.sched.cur
    st = RUNS.get("A")
    if st is not None and t in st.executing:
        n = st.fn_calls
        st.fn_calls += 1
        boom(st, "fn", n)
    return x - y


def boom(st, where, n):
    """Fail if the scenario says so."""
    b = st.boom
    if b and b["where"] == where and n == b["at"]:
        st.failed = (where, b["exc"], "%s %s #%d" % (where, st.tag, n))
        count(where + "_" + b["exc"])
        raise make_exc(b["exc"], st.failed[2])


TYPES = {"float": float, "int": int, "bool": bool, None: None,
         "argmax": TF.t_argmax}
FSETS = {
    "float": [TF.add2floats, TF.sub2floats, TF.mul2floats, TF.max2floats],
    "int": [ti_add, ti_mul],
    "sk": [TF.add2floats, TF.sub2floats, TF.max2floats, TF.min2floats],
    "skarg": [TF.add2floats, TF.sub2floats, TF.max2floats, TF.argmax2floats],
    "mixed": [ti_add, ti_if, tf_fromint, tf_if, tf_sub, tb_lt, tb_and,
              tb_even],
    "gap": [tf_sub, tf_if],
}
TSETS = {
    "float": {"x0": float, "y0": float},
    "int": {"x1": int},
    "mixed": {"x0": float, "x1": int, "x2": bool},
    "gap": {"x0": float, "y0": float, "x2": bool},
}


# ------------------------------------------------------- genomes
def genome(ind):
    """A canonical, immutable description of an individual's genome."""
    if isinstance(ind, Tree):
        out = []
        for n in ind.tree:
            t = n.node_type.__name__ if n.node_type is not None else None
            if isinstance(n, FunctionNode):
                out.append(("F", n.function.__name__, t))
            else:
                out.append(("T", repr(n.value), t))
        return tuple(out)
    return tuple(repr(x) for x in ind.vector)


def jgenome(ind):
    if isinstance(ind, Tree):
        return " ".join(a[1] for a in genome(ind))
    return ",".join(genome(ind))


def crc(x):
    return zlib.crc32(repr(x).encode())


def interp(ind, env):
    """Independent evaluation of a program tree (right-to-left stack)."""
    stack = []
    for n in reversed(ind.tree):
        if isinstance(n, FunctionNode):
            args = [stack.pop() for _ in range(n.n_args)]
            stack.append(n.function(*args))
        elif isinstance(n.value, str) and n.value in env:
            stack.append(env[n.value])
        else:
            stack.append(n.value)
    if len(stack) != 1:
        raise AssertionError("not one expression: %d values" % len(stack))
    return stack[0]


def finite(x):
    try:
        x = float(x)
    except (TypeError, ValueError, OverflowError):
        return 1e6
    return x if math.isfinite(x) and abs(x) < 1e6 else 1e6


_SK = {}


def sk_data(cfg, seed=None):
    """Training data of a configuration (deterministic)."""
    key = (cfg["dseed"] if seed is None else seed, cfg["rows"], cfg["nvars"],
           cfg["ints"], cfg["sk"], cfg.get("ncls"))
    if key not in _SK:
        r = random.Random("data%r" % (key,))
        m, n = key[1], key[2]
        if key[3]:
            X = np.array([[r.randrange(-9, 10) for _ in range(n)]
                          for _ in range(m)])
        else:
            X = np.array([[r.uniform(-3, 3) for _ in range(n)]
                          for _ in range(m)])
        if cfg["sk"] == "clf":
            y = np.array([r.randrange(cfg["ncls"]) for _ in range(m)])
        else:
            y = np.array([r.uniform(-5, 5) for _ in range(m)])
        _SK[key] = (X, y)
    return _SK[key]


def user_metric(y_true, y_pred):
    d = np.abs(np.nan_to_num(np.asarray(y_pred, dtype=float), nan=1e3,
                             posinf=1e3, neginf=-1e3) - y_true)
    return float(np.mean(np.minimum(d, 1e3)))


def sk_metric(cfg):
    import sklearn.metrics as sm
    if cfg["metric"] == "user":
        return user_metric
    if cfg["metric"] == "mse":
        return sm.mean_squared_error
    return sm.mean_absolute_error if cfg["sk"] == "reg" else sm.accuracy_score


def sk_raw(cfg, ind, X):
    """Value of the program for every row of X (independent of eckity)."""
    with np.errstate(all="ignore"):
        r = interp(ind, {"x%d" % j: X[:, j] for j in range(X.shape[1])})
    r = np.asarray(r)
    if r.shape == ():
        r = np.full(X.shape[0], r, dtype=np.result_type(X[:, 0], r))
    return r


def sk_predict(cfg, ind, X):
    r = sk_raw(cfg, ind, X)
    if cfg["sk"] == "reg" or cfg["clf"] == "argmax":
        return r
    k = cfg["ncls"]
    out = np.zeros(len(r), dtype=int)
    with np.errstate(all="ignore"):
        p = 1.0 / (1.0 + np.exp(-r.astype(float)))
    for j in range(1, k):
        out += (p >= j / k - 1e-12)
    # values on a class border are left to the implementation
    edge = np.zeros(len(r), dtype=bool)
    for j in range(1, k):
        edge |= np.abs(p - j / k) < 1e-9
    return out, edge


def sk_score(cfg, ind):
    X, y = sk_data(cfg)
    pred = sk_predict(cfg, ind, X)
    if isinstance(pred, tuple):
        from scipy.special import expit
        raw = sk_raw(cfg, ind, X)
        th = np.linspace(0, 1, cfg["ncls"] + 1)[1:-1]
        pred = np.digitize(expit(raw), th)
    return float(sk_metric(cfg)(y, pred))


def tree_inputs(cfg):
    if cfg.get("sk"):
        X = sk_data(cfg)[0]
        return {"x%d" % j: X[:, j] for j in range(X.shape[1])}
    if cfg.get("typed"):
        return {k: TINPUTS[k] if k in TINPUTS else
                TYPES[t](INPUTS["x" + k[1:]] * 4 if t == "int" else
                         INPUTS["x" + k[1:]])
                for k, t in ((k, t.__name__)
                             for k, t in typed_terminals(cfg).items())}
    return {"x%d" % i: INPUTS["x%d" % i] for i in range(cfg["nvars"])}


def score(cfg, ind, executed=None):
    """The fitness of an individual as a pure function of its genome."""
    v = plain_score(cfg, ind, executed)
    ret = cfg.get("ret")
    if not ret or cfg["fit"] == "sk":
        return v
    if cfg.get("nsga"):
        return tuple(v) if ret == "tuple" else np.array(v)
    if ret == "np":
        return np.float64(v)
    if ret == "0d":
        return np.array(v)
    if ret == "int":
        return int(v * 7)
    if ret == "npi":
        return np.int64(v * 7)
    if ret == "big":        # neighbours are equal as floats
        return int(v * 7) + (2 ** 60 if v >= 0 else -2 ** 60)
    if ret in ("near", "tiny", "dense"):
        return squeeze(cfg, v)
    if ret == "inf" and (cfg.get("sel") or {}).get("s") != "fp":
        if crc(("inf", genome(ind))) % 5 == 0:
            return float("-inf") if cfg["hib"] else float("inf")
    return v


def squeeze(cfg, v, gap=False):
    """Fitness values that nearly coincide, or are nearly zero."""
    if cfg.get("ret") == "near":
        return v * 1e-5 + (0 if gap else -1000 if cfg.get("neg") else 1000)
    if cfg.get("ret") == "dense":
        return v * 1e-8 + (0 if gap else -1000 if cfg.get("neg") else 1000)
    if cfg.get("ret") == "tiny":
        return v * 1e-13
    return v


def plain_score(cfg, ind, executed=None):
    kind = cfg["fit"]
    if cfg.get("nsga"):
        g = genome(ind)
        out = []
        for j in range(cfg["nobj"]):
            c = crc((j, g))
            k = kind
            if kind == "mixed":
                k = ("crc", "coarse", "near")[j % 3]
            v = {"crc": (c % 100003) / 7.0, "coarse": float(c % 4),
                 "coarse3": float(c % 2),
                 "near": 5.0 + (c % 5) * 1e-10}[k]
            out.append(-v if cfg.get("neg") else v)
        return out
    if kind == "sk":
        return sk_score(cfg, ind)
    if kind == "exec":
        v = finite(executed if executed is not None
                   else interp(ind, tree_inputs(cfg)))
        if not cfg.get("neg"):
            v = abs(v)
    elif kind == "size":
        v = float(len(ind.tree))
    elif kind == "sum":
        v = float(sum(abs(x) for x in ind.vector))
    elif kind == "coarse":
        v = float(crc(genome(ind)) % 4)
    elif kind == "const":
        v = 3.0
    else:
        v = (crc(genome(ind)) % 100003) / 7.0
    if cfg.get("neg") and kind != "exec":
        v = -v
    return v


def aug(cfg, ind, f=None):
    """Expected fitness including the bloat penalty."""
    f = score(cfg, ind) if f is None else f
    w = cfg.get("bloat") or 0.0
    if cfg["enc"] == "tree" and w:
        return f - w * len(ind.tree) if cfg["hib"] else f + w * len(ind.tree)
    return f


def better(cfg, a, b):
    return a > b if cfg["hib"] else a < b


def best_of(cfg, xs):
    return max(xs) if cfg["hib"] else min(xs)


def worst_of(cfg, xs):
    return min(xs) if cfg["hib"] else max(xs)


# ------------------------------------------------------- deep snapshots
ATOM = (int, float, str, bytes, bool, type(None), complex, type)


def freeze(x, skip=(), depth=0):
    """An immutable description of an object graph (values, not identity)."""
    if isinstance(x, ATOM):
        return (type(x).__name__, repr(x))
    if isinstance(x, np.generic):
        return ("npg", repr(x))
    if isinstance(x, np.ndarray):
        return ("nd", x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(
            freeze(v, skip, depth + 1) for v in x)
    if isinstance(x, dict):
        return ("dict",) + tuple(
            (freeze(k, skip, depth + 1), freeze(v, skip, depth + 1))
            for k, v in x.items() if k not in skip)
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted(map(repr, x)))
    if callable(x) and hasattr(x, "__name__"):
        return ("fn", x.__name__)
    if hasattr(x, "__dict__"):
        if depth > 30:
            return ("deep",)
        return (type(x).__name__, freeze(
            {k: v for k, v in vars(x).items() if k not in skip}, skip,
            depth + 1))
    return ("obj", type(x).__name__)


def snap(ind, with_fitness=True):
    skip = ("function_set", "terminal_set") if with_fitness else (
        "function_set", "terminal_set", "fitness")
    return freeze(vars(ind), skip)


def core(ind):
    """The documented state of an individual."""
    f = ind.fitness
    return freeze([genome(ind), ind.id, ind.gen, ind.cloned_from,
                   ind.selected_by, ind.applied_operators,
                   getattr(ind, "parents", None), f.is_fitness_evaluated(),
                   f.fitness, getattr(f, "front_rank", None),
                   getattr(f, "crowding", None)])


SHARED_OK = ("function_set", "terminal_set", "bounds", "erc_range",
             "root_type", "higher_is_better")


def mutable_parts(ind):
    """(description, object) of every mutable object an individual owns."""
    out = []
    seen = set()
    stack = [("individual", ind)]
    while stack:
        name, x = stack.pop()
        if isinstance(x, ATOM + (np.generic,)) or (
                callable(x) and hasattr(x, "__name__")):
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, tuple):
            stack.extend((name, v) for v in x)
            continue
        if isinstance(x, (frozenset,)):
            continue
        out.append((name, x))
        if isinstance(x, (list, set)):
            stack.extend((name + "[]", v) for v in x)
        elif isinstance(x, dict):
            stack.extend((name + "." + str(k), v) for k, v in x.items())
        elif hasattr(x, "__dict__"):
            stack.extend((name + "." + k, v) for k, v in vars(x).items()
                         if k not in SHARED_OK)
    return out


# ------------------------------------------------------- run states
class RunState:
    """What the harness itself knows about one run (not part of eckity)."""

    def __init__(self, tag, cfg, sim):
        self.tag = tag
        self.cfg = cfg
        self.sim = sim
        self.evals = []         # (individual id, genome, pool, in_process)
        self.n = 0
        self.active = 0
        self.fail = {}          # evaluation index -> exception kind
        self.failed = None
        self.dur = random.Random("dur%s%s" % (tag, cfg.get("seed")))
        self.op_calls = 0
        self.fn_calls = 0
        self.executing = []     # tasks inside an evaluation
        self.boom = None        # a failure of another user component
        self.calls = Counter()
        self.check_calls = 0
        self.stat_rows = []


RUNS = {}


def state(tag, cfg=None, sim=None):
    st = RUNS.get(tag)
    if st is None:
        st = RUNS[tag] = RunState(tag, cfg, sim if sim else ENV.sim)
    return st


class Boom(Exception):
    """The failure injected into evaluators, operators and observers."""

    def __init__(self, what="boom"):
        super().__init__(what)
        self.what = what


def make_exc(kind, what):
    return {"boom": Boom, "value": ValueError, "memory": MemoryError,
            "type": TypeError, "kbd": KeyboardInterrupt, "stop": StopIteration,
            "exit": SystemExit, "index": IndexError, "attr": AttributeError,
            "timeout": TimeoutError, "key": KeyError,
            "assert": AssertionError, "os": OSError,
            "cancel": __import__("concurrent.futures").futures.CancelledError,
            }[kind](what)


def noise(cfg):
    """Randomness consumed by user code."""
    if cfg.get("noisy"):
        d = ENV.draws
        if d is not None:
            d.off += 1
        for _ in range(1 + random.randrange(3)):
            random.random()
        np.random.rand(2)
        if d is not None:
            d.off -= 1


def on_eval(tag, cfg, ind):
    st = state(tag, cfg)
    s = ENV.sched
    n = st.n
    st.n += 1
    pool = current_pool()
    st.evals.append((ind.id, genome(ind), pool.pid if pool else None,
                     CURRENT.in_process))
    s.point()
    noise(cfg)
    slow = cfg.get("slow", 0)
    if slow:
        x = st.dur.random()
        if slow == 2 or x < 0.3:
            s.sleep(x * 5.0)
    f = st.fail.get(n)
    if f:
        st.failed = ("eval", f, "eval %s #%d" % (tag, n))
        count("eval_" + f)
        raise make_exc(f, "eval %s #%d" % (tag, n))
    s.point()


class Ev(SimpleIndividualEvaluator):
    """A user's evaluator: a pure function of the genome."""

    def __init__(self, tag, cfg):
        super().__init__()
        self.tag = tag
        self.cfg = cfg

    def evaluate_individual(self, individual):
        on_eval(self.tag, self.cfg, individual)
        if self.cfg["fit"] == "exec":
            st = state(self.tag)
            st.executing.append(ENV.sched.cur)
            try:
                r = individual.execute(**tree_inputs(self.cfg))
            finally:
                st.executing.remove(ENV.sched.cur)
            return score(self.cfg, individual, executed=r)
        f = score(self.cfg, individual)
        ENV.sched.point()
        return f


# ------------------------------------------------------- user components
class RecStats(Statistics):
    def __init__(self, tag, name="rec"):
        super().__init__("{}")
        self.tag = tag
        self.name = name

    def write_statistics(self, sender, data_dict):
        sp = data_dict["population"].sub_populations[0]
        row = (self.name, data_dict["generation_num"])
        if state(self.tag).cfg and not state(self.tag).cfg.get("nsga"):
            row += (sp.get_best_individual().get_pure_fitness(),
                    sp.get_worst_individual().get_pure_fitness(),
                    float(sp.get_average_fitness()))
        state(self.tag).stat_rows.append(row)


class AtGen(TerminationChecker):
    def __init__(self, at, tag):
        super().__init__()
        self.at = at
        self.tag = tag

    def should_terminate(self, population, best_individual, gen_number):
        state(self.tag).check_calls += 1
        return gen_number >= self.at


class BoomCheck(TerminationChecker):
    def __init__(self, at, tag, exc="boom"):
        super().__init__()
        self.at, self.tag, self.exc = at, tag, exc

    def should_terminate(self, population, best_individual, gen_number):
        if gen_number == self.at:
            st = state(self.tag)
            st.failed = ("check", self.exc, "check %s" % self.tag)
            count("checker_" + self.exc)
            raise make_exc(self.exc, "check %s" % self.tag)
        return False


class BoomOp(GO.GeneticOperator):
    """A user's operator that fails on its n-th application, possibly after
    having changed part of the genome."""

    def __init__(self, tag, at, half, exc="boom", arity=1):
        super().__init__(probability=1.0, arity=arity)
        self.tag, self.at, self.half, self.exc = tag, at, half, exc

    def apply(self, individuals):
        st = state(self.tag)
        n = st.op_calls
        st.op_calls += 1
        if n == self.at:
            if self.half:
                for ind in individuals[:1]:
                    if isinstance(ind, Tree):
                        for nd in ind.tree:
                            if isinstance(nd, TerminalNode):
                                nd.value = 12345.5
                                break
                    else:
                        ind.vector[0] = ind.vector[0] + 1
            st.failed = ("op", self.exc, "op %s #%d" % (self.tag, n))
            count("operator_" + self.exc)
            raise make_exc(self.exc, "op %s #%d" % (self.tag, n))
        return individuals


class BoomFailable(GO.FailableOperator):
    """A user's operator that may fail an attempt, legally or by raising."""

    def __init__(self, tag, where, attempts=2, arity=1):
        super().__init__(probability=1.0, arity=arity, attempts=attempts)
        self.tag, self.where = tag, where

    def call(self, where):
        st = state(self.tag)
        n = st.calls[where]
        st.calls[where] += 1
        boom(st, where, n)

    def attempt_operator(self, payload, attempt_num):
        self.call("attempt")
        return self.where == "attempt" and attempt_num > 0, payload

    def on_fail(self, payload):
        self.call("on_fail")
        return payload


class BoomPart:
    """A user's callable of a vector mutation, a vector creator or a metric;
    fails at its n-th call."""

    def __init__(self, tag, where, f):
        self.tag, self.where, self.f = tag, where, f

    def __call__(self, *a, **kw):
        st = state(self.tag)
        n = st.calls[self.where]
        st.calls[self.where] += 1
        boom(st, self.where, n)
        return self.f(*a, **kw)


def pick_cells(vec):
    return random.sample(range(vec.size()), k=1)


def any_value(vec, idx):
    return vec.get_random_number_in_bounds(idx)


def in_bounds(old, new):
    return new.check_if_in_bounds()


class BoomSelection(GO.TournamentSelection):
    def __init__(self, tag, hib):
        super().__init__(tournament_size=2, higher_is_better=hib)
        self.tag = tag

    def select(self, source_inds, dest_inds):
        st = state(self.tag)
        n = st.calls["select"]
        st.calls["select"] += 1
        boom(st, "select", n)
        return super().select(source_inds, dest_inds)


class BoomStats(Statistics):
    def __init__(self, tag):
        super().__init__("{}")
        self.tag = tag

    def write_statistics(self, sender, data_dict):
        st = state(self.tag)
        n = st.calls["stats"]
        st.calls["stats"] += 1
        boom(st, "stats", n)


class MyRNG(RNG):
    """A user's extension of the random number generator."""

    def __init__(self, tag="A"):
        super().__init__()
        self.calls = 0
        self.tag = tag

    def set_seed(self, seed):
        boom(state(self.tag), "rng", self.calls)
        super().set_seed(seed)
        self.calls += 1


class _Caching:
    """A user's creator of individuals with cached fitness."""

    def create_individuals(self, n_individuals, higher_is_better):
        inds = super().create_individuals(n_individuals, higher_is_better)
        for i in inds:
            i.fitness.cache = True
        return inds


class CFull(_Caching, FullCreator):
    pass


class CGrow(_Caching, GrowCreator):
    pass


class CHalf(_Caching, HalfCreator):
    pass


class CBits(_Caching, GABitStringVectorCreator):
    pass


class CInts(_Caching, GAIntVectorCreator):
    pass


class CFloats(_Caching, GAFloatVectorCreator):
    pass


def low_gene(individual, index):
    """A user's gene creator: often the lower bound."""
    v = individual.get_random_number_in_bounds(index)
    if random.random() < 0.5:
        return individual.bounds[index][0] if isinstance(
            individual.bounds, list) else individual.bounds[0]
    return v


# ------------------------------------------------------- builders
def to_bounds(b):
    if "one" in b:
        return tuple(b["one"])
    return [tuple(x) for x in b["per"]]


def make_op(o, cfg, tag):
    k, p = o["op"], o.get("p", 1.0)
    ar = {"arity": o["ar"]} if o.get("ar") else {}
    if k == "kxo":
        return GO.VectorKPointsCrossover(probability=p, k=o["k"])
    if k == "bitflip":
        return GO.BitStringVectorFlipMutation(probability=p, **ar)
    if k == "nflip":
        return GO.BitStringVectorNFlipMutation(
            probability=p, probability_for_each=o["pe"], n=o["n"], **ar)
    if k == "int1":
        return GO.IntVectorOnePointMutation(probability=p,
                                            probability_for_each=o["pe"], **ar)
    if k == "intn":
        return GO.IntVectorNPointMutation(probability=p, n=o["n"], **ar)
    if k == "funi1":
        return GO.FloatVectorUniformOnePointMutation(probability=p, **ar)
    if k == "funin":
        return GO.FloatVectorUniformNPointMutation(probability=p, n=o["n"], **ar)
    if k == "fgauss1":
        return GO.FloatVectorGaussOnePointMutation(
            probability=p, sigma=o["sigma"], attempts=o["attempts"], **ar)
    if k == "fgaussn":
        return GO.FloatVectorGaussNPointMutation(
            n=o["n"], probability=p, sigma=o["sigma"], attempts=o["attempts"], **ar)
    if k == "npoint":
        return GO.VectorNPointMutation(n=o["n"], probability=p, **ar)
    if k == "ident":
        return GO.IdentityTransformation(probability=p)
    if k == "sxo":
        return GO.SubtreeCrossover(probability=p, attempts=o["attempts"], **ar)
    if k == "smut":
        return GO.SubtreeMutation(probability=p, attempts=o["attempts"],
                                  init_depth=tuple(o["depth"]))
    if k == "erc":
        return GO.ERCMutation(probability=p, **ar)
    if k == "boom":
        return BoomOp(tag, o["at"], o["half"], o.get("exc", "boom"),
                      o.get("arity", 1))
    if k == "boomf":
        return BoomFailable(tag, o["where"], o["attempts"], o["arity"])
    if k == "boomn":
        kw = {"cells": pick_cells, "value": any_value, "check": in_bounds}
        kw = {n: BoomPart(tag, n, f) if n == o["where"] else f
              for n, f in kw.items()}
        return GO.VectorNPointMutation(
            n=1, probability=1.0, cell_selector=kw["cells"],
            mut_val_getter=kw["value"], success_checker=kw["check"])
    raise ValueError(k)


def typed_terminals(cfg):
    """The variables of a typed configuration and their types."""
    ts = dict(TSETS[cfg["fset"]])
    own = list(ts.values())
    for i in range(3, cfg.get("nvars") or 0):
        ts["z%d" % i] = own[i % len(own)]
    return ts


def tree_sets(cfg):
    if cfg["typed"]:
        fs = list(FSETS[cfg["fset"]])
        if cfg.get("sk"):
            ts = {"x%d" % i: float for i in range(cfg["nvars"])}
        else:
            ts = typed_terminals(cfg)
        if cfg.get("consts"):
            ts.update({"float": {1.5: float}, "sk": {1.5: float},
                       "skarg": {1.5: float}, "int": {7: int},
                       "mixed": {2.5: float, 7: int, True: bool}
                       if cfg["consts"] == 2 else
                       {2.5: float, 7: int}}[cfg["fset"]])
            if cfg["consts"] == 3:      # false values
                ts.update({"int": {0: int}, "mixed": {0: int}}.get(
                    cfg["fset"], {0.0: float}))
        return fs, ts
    fs = [namesake(n, cfg["clos"]) if cfg.get("clos") else getattr(UF, n)
          for n in cfg["funcs"]]
    if cfg.get("fnfail"):
        fs.append(u_fail)
    ts = ["x%d" % i for i in range(cfg["nvars"])]
    if cfg.get("consts"):
        ts += [0, -1] if cfg["consts"] == 3 else [1, -1]
    return fs, ts


def make_creator(cfg, j=0):
    """The j-th creator of a configuration."""
    up = cfg.get("parents", False)
    ch = cfg.get("cache")
    if cfg["enc"] == "tree":
        fs, ts = tree_sets(cfg)
        kw = dict(init_depth=tuple(cfg["depth"]), function_set=fs,
                  terminal_set=ts, bloat_weight=cfg.get("bloat") or 0.0,
                  root_type=TYPES[cfg.get("root")])
        if cfg.get("erc"):
            kw["erc_range"] = tuple(cfg["erc"])
        kind = cfg["creator"]
        if j:
            kind = {"full": "grow", "grow": "full", "half": "half"}[kind]
        if kind == "full":
            return (CFull if ch else FullCreator)(update_parents=up, **kw)
        if kind == "grow":
            return (CGrow if ch else GrowCreator)(
                update_parents=up, p_prune=cfg.get("prune", 0.5), **kw)
        own = {}
        if cfg["hib"] and not cfg.get("sk"):
            # the halves are created by creators of the user's
            k1 = dict(kw, init_depth=(1, 1))
            own = {"grow_creator": GrowCreator(p_prune=0.7, **k1),
                   "full_creator": FullCreator(**k1)}
        return (CHalf if ch else HalfCreator)(**kw, **own)
    b = to_bounds(cfg["bounds"])
    if cfg.get("nsga"):
        return GAVectorCreator(length=cfg["len"], bounds=b,
                               vector_type=VEC[cfg["enc"]],
                               fitness_type=NSGA2Fitness, update_parents=up)
    cls = {"bits": CBits if ch else GABitStringVectorCreator,
           "ints": CInts if ch else GAIntVectorCreator,
           "floats": CFloats if ch else GAFloatVectorCreator}[cfg["enc"]]
    kw = {}
    if bool(cfg.get("genec")) != bool(j % 2):
        kw["gene_creator"] = low_gene
    if cfg.get("booms") == "gene":
        kw["gene_creator"] = BoomPart("A", "gene", any_value)
    return cls(length=cfg["len"], bounds=b, update_parents=up, **kw)


def given_individuals(cfg):
    """An initial population made by the user, the same for every build."""
    py, nps = random.getstate(), np.random.get_state()
    d = ENV.draws
    if d is not None:
        d.off += 1
    try:
        random.seed(12345)
        np.random.seed(12345)
        inds = make_creator(cfg).create_individuals(cfg["pop"], cfg["hib"])
        if cfg["given"] in ("veterans", "stale"):   # of an earlier run
            for j, i in enumerate(inds):
                if cfg["given"] == "stale":
                    i.fitness.set_fitness(1.0 + j)
                i.gen = 7
                i.selected_by.append("TournamentSelection")
                inds[j] = i.clone()
                inds[j].applied_operators.append("ERCMutation")
        return inds
    finally:
        random.setstate(py)
        np.random.set_state(nps)
        if d is not None:
            d.off -= 1


def make_selection(cfg):
    s = cfg.get("sel")
    if s is None:
        return None
    if s["s"] == "boom":
        return BoomSelection("A", cfg["hib"])
    if s["s"] == "tour":
        return GO.TournamentSelection(tournament_size=s["t"],
                                      higher_is_better=cfg["hib"],
                                      replace=s["rep"])
    return GO.FitnessProportionateSelection(higher_is_better=cfg["hib"])


def term_opt(cfg, t):
    return squeeze(cfg, t["opt"] + t.get("off", 0))


def term_thr(cfg, t):
    return squeeze(cfg, t["thr"], gap=True)


def make_term(t, cfg, tag):
    if t["t"] == "thr":
        return ThresholdFromTargetTerminationChecker(
            optimal=term_opt(cfg, t), threshold=term_thr(cfg, t),
            higher_is_better=cfg["hib"])
    if t["t"] == "stag":
        return BestFitnessStagnationTerminationChecker(t["n"])
    if t["t"] == "gen":
        return AtGen(t["at"], tag)
    if t["t"] == "boom":
        return BoomCheck(t["at"], tag, t.get("exc", "boom"))
    if t["t"] == "crowd":
        return CrowdingTerminationChecker(t["thr"])
    raise ValueError(t)


def make_stat(name, tag):
    if name == "baw":
        return BestAverageWorstStatistics()
    if name == "baws":
        return BestAverageWorstSizeTreeStatistics()
    if name == "boom":
        return BoomStats(tag)
    if name == "min":
        return MinimalPrintStatistics()
    return RecStats(tag, name)


class RegEv(RegressionEvaluator):
    """The bundled evaluator; the harness only sees the calls."""

    def __init__(self, tag, cfg, **kw):
        super().__init__(**kw)
        self.tag, self.cfg = tag, cfg

    def evaluate_individual(self, individual):
        on_eval(self.tag, self.cfg, individual)
        return super().evaluate_individual(individual)


class ClfEv(ClassificationEvaluator):
    def __init__(self, tag, cfg, **kw):
        super().__init__(**kw)
        self.tag, self.cfg = tag, cfg

    def evaluate_individual(self, individual):
        on_eval(self.tag, self.cfg, individual)
        return super().evaluate_individual(individual)


def make_evaluator(cfg, tag):
    if not cfg.get("sk"):
        return Ev(tag, cfg)
    kw = {} if cfg["metric"] == "default" else {"metric": sk_metric(cfg)}
    if cfg.get("booms") == "metric":
        kw["metric"] = BoomPart(tag, "metric", sk_metric(cfg))
    if not cfg.get("wrap"):
        kw["X"], kw["y"] = (a.copy() for a in sk_data(cfg))
    if cfg["sk"] == "reg":
        return RegEv(tag, cfg, **kw)
    return ClfEv(tag, cfg, n_classes=cfg["ncls"], clf_method=cfg["clf"], **kw)


def start(sim, algo, cfg, est=None):
    """Run an experiment the way its configuration says."""
    if cfg.get("wrap"):
        est = est or wrap(algo, cfg)
        X, y = sk_data(cfg)
        return guarded(sim, lambda: est.fit(X.copy(), y.copy()), "fit()")
    return guarded(sim, algo.evolve, "evolve()")


def wrap(algo, cfg):
    return (SKRegressor if cfg["sk"] == "reg" else SKClassifier)(algo)


def build(cfg, tag, sim, evaluator=None, individuals=None, **over):
    """An algorithm from a configuration; omitted options use defaults."""
    st = state(tag, cfg, sim)
    ev = evaluator if evaluator is not None else make_evaluator(cfg, tag)
    if individuals is None and cfg.get("given"):
        individuals = given_individuals(cfg)
    nc = cfg.get("creators") or 1
    kw = dict(evaluator=ev, creators=make_creator(cfg) if nc == 1 else [
        make_creator(cfg, j) for j in range(nc)],
              operators_sequence=[make_op(o, cfg, tag) for o in cfg["ops"]],
              population_size=cfg["pop"], higher_is_better=cfg["hib"])
    if cfg.get("elite"):
        kw["elitism_rate"] = cfg["elite"] / cfg["pop"]
        if round((cfg.get("rate") or 0) * cfg["pop"]) == cfg["elite"]:
            kw["elitism_rate"] = cfg["rate"]
    sel = make_selection(cfg)
    if sel is not None:
        kw["selection_methods"] = [(sel, 1)]
    if nc > 1 and cfg.get("pcr"):
        kw["pcr"] = {2: [0.25, 0.75], 3: [0.5, 0.125, 0.375]}[nc]
    if individuals is not None:
        kw["individuals"] = individuals
    sub = Subpopulation(**kw)
    ak = dict(max_generation=cfg["gens"], random_seed=cfg["seed"])
    if cfg.get("gseed") is not None:
        ak["generation_seed"] = cfg["gseed"]
    if cfg.get("exec"):
        ak["executor"] = cfg["exec"]
    if cfg.get("workers") is not None:
        ak["max_workers"] = cfg["workers"]
    if cfg.get("method"):
        ak["population_evaluator"] = SimplePopulationEvaluator(cfg["method"])
    if cfg.get("rng") == "custom":
        ak["random_generator"] = MyRNG(tag)
    if cfg.get("stats"):
        ss = [make_stat(n, tag) for n in cfg["stats"]]
        ak["statistics"] = ss[0] if len(ss) == 1 and cfg.get("stat1") else ss
    t = cfg.get("term")
    if t is not None:
        ts = [make_term(x, cfg, tag) for x in t]
        ak["termination_checker"] = ts[0] if len(ts) == 1 and not \
            cfg.get("termlist") else ts
    if cfg.get("own_breeder"):
        ak["breeder"] = SimpleBreeder()
    pop = sub
    if cfg.get("popform") == "list":
        pop = [sub]
    elif cfg.get("popform") == "pop":
        pop = Population([sub])
    if cfg.get("nsga"):
        if not cfg.get("defaults"):
            ak.update(breeder=NSGA2Breeder(),
                      NSGA2FrontSorting=NSGA2FrontSorting())
            ak.setdefault("population_evaluator", SimplePopulationEvaluator())
            ak.setdefault("termination_checker", None)
        ak.update(over)
        return NSGA2Evolution(pop, **ak)
    ak.update(over)
    return SimpleEvolution(pop, **ak)


def subpop(algo):
    return algo.population.sub_populations[0]


# ------------------------------------------------------- monitor
class Monitor:
    """Observes one run through the events the algorithm, its breeder and its
    population evaluator publish.  `hooks` get each event as it happens."""

    REG = {}

    def __init__(self, tag, cfg, sim):
        self.tag = tag
        self.cfg = cfg
        self.sim = sim
        self.events = []        # names in order
        self.hooks = {}
        self.algo = None
        Monitor.REG[tag] = self

    def attach(self, algo):
        self.algo = algo
        algo.register("init", self.on_init)
        algo.register("after_generation", self.on_gen)
        algo.register("evolution_finished", self.on_end)
        algo.breeder.register("before_operator", self.on_bb)
        algo.breeder.register("after_operator", self.on_ba)
        algo.population_evaluator.register("before_operator", self.on_eb)
        algo.population_evaluator.register("after_operator", self.on_ea)
        return self

    def _ev(self, name, sender, data):
        self.events.append(name)
        h = self.hooks.get(name)
        if h is not None:
            h(sender, data)
        ENV.sched.point()

    def on_init(self, sender, data):
        self._ev("init", sender, data)

    def on_gen(self, sender, data):
        self._ev("gen", sender, data)

    def on_end(self, sender, data):
        self._ev("end", sender, data)

    def on_bb(self, sender, data):
        self._ev("breed<", sender, data)

    def on_ba(self, sender, data):
        self._ev("breed>", sender, data)

    def on_eb(self, sender, data):
        self._ev("eval<", sender, data)

    def on_ea(self, sender, data):
        self._ev("eval>", sender, data)

    def __reduce__(self):
        return (get_monitor, (self.tag,))

    def __deepcopy__(self, memo):
        return self


def get_monitor(tag):
    m = Monitor.REG.get(tag)
    if m is None:
        m = Monitor(tag, None, ENV.sim)
    return m


def fit_list(x):
    return repr(x)


class History(Monitor):
    """Records, per generation, the individuals in order with their fitness,
    and the best and worst."""

    def __init__(self, tag, cfg, sim):
        super().__init__(tag, cfg, sim)
        self.rows = []
        self.hooks["eval>"] = self._row
        self.hooks["gen"] = self._after

    def _row(self, sender, data):
        inds = subpop(self.algo).individuals
        self.rows.append({"inds": [
            [jgenome(i), repr(i.get_pure_fitness())
             if i.fitness.is_fitness_evaluated() else None] for i in inds]})

    def _after(self, sender, data):
        a = self.algo
        row = {"n": data["generation_num"]}
        if self.cfg and self.cfg.get("nsga"):
            row["inds"] = [[jgenome(i), repr(i.get_pure_fitness()),
                            i.fitness.front_rank, repr(i.fitness.crowding)]
                           for i in subpop(a).individuals]
            row["front"] = [[jgenome(i) for i in f] for f in a.best_of_gen] \
                if a.best_of_gen else None
        else:
            row["best_run"] = [jgenome(a.best_of_run_),
                               repr(a.best_of_run_.get_pure_fitness())]
            if a.best_of_gen is not None:
                row["best"] = [jgenome(a.best_of_gen),
                               repr(a.best_of_gen.get_pure_fitness())]
            if a.worst_of_gen is not None:
                row["worst"] = [jgenome(a.worst_of_gen),
                                repr(a.worst_of_gen.get_pure_fitness())]
            row["pop"] = [[jgenome(i) for i in a.population
                           .get_best_individuals()],
                          [jgenome(i) for i in a.population
                           .get_worst_individuals()],
                          repr(a.population.get_average_fitness())]
        self.rows.append(row)


# ------------------------------------------------------- shared checks
def check_fitness(sim, cfg, inds, where):
    """Every individual is evaluated and carries its own fitness."""
    for i in inds:
        if not i.fitness.is_fitness_evaluated():
            sim.fail("not-evaluated", "%s: individual %d has no fitness"
                     % (where, i.id))
            continue
        want = score(cfg, i)
        got = i.get_pure_fitness()
        if not same_fit(got, want):
            sim.fail("wrong-fitness", "%s: individual %d with genome %s has "
                     "fitness %r, the evaluator yields %r" % (
                         where, i.id, jgenome(i)[:200], got, want))


def same_fit(a, b):
    if isinstance(a, np.ndarray) and a.ndim:
        a = a.tolist()
    if isinstance(b, np.ndarray) and b.ndim:
        b = b.tolist()
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and \
            isinstance(b, (list, tuple)) and len(a) == len(b) and \
            all(same_fit(x, y) for x, y in zip(a, b))
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return False


def close(a, b, tol=1e-9, scale=0.0):
    """Equal up to rounding; scale: the size of the values an average was
    taken of (their sum may cancel)."""
    if isinstance(a, np.ndarray) and a.ndim:
        a = a.tolist()
    if isinstance(b, np.ndarray) and b.ndim:
        b = b.tolist()
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return same_fit(a, b)
    return same_fit(a, b) or (
        abs(a - b) <= tol * max(1.0, abs(a), abs(b), scale))


def check_vector(sim, cfg, ind, where):
    """Length, bounds and cell type of a vector."""
    v = ind.vector
    if not isinstance(v, list) or len(v) != cfg["len"] or \
            ind.size() != cfg["len"]:
        sim.fail("length", "%s: vector %r does not have length %d" % (
            where, v, cfg["len"]))
        return
    b = cfg["bounds"]
    ty = float if cfg["enc"] == "floats" else int
    for j, x in enumerate(v):
        lo, hi = b["one"] if "one" in b else b["per"][j]
        if type(x) is not ty:
            sim.fail("cell-type", "%s: cell %d is %r (%s), not %s" % (
                where, j, x, type(x).__name__, ty.__name__))
            return
        if not (lo <= x <= hi):
            sim.fail("bounds", "%s: cell %d is %r, outside [%r, %r]" % (
                where, j, x, lo, hi))
            return


def tree_spans(tree):
    """end[i]: end (exclusive) of the subtree starting at i; None if the list
    is not one complete expression."""
    n = len(tree)
    end = [0] * n
    for i in range(n - 1, -1, -1):
        nd = tree[i]
        if isinstance(nd, FunctionNode):
            j = i + 1
            for _ in range(nd.n_args):
                if j >= n:
                    return None
                j = end[j]
            end[i] = j
        else:
            end[i] = i + 1
    return end if n and end[0] == n else None


def hints(f):
    import inspect
    import typing
    h = typing.get_type_hints(f)
    ps = list(inspect.signature(f).parameters)
    return [h.get(p) for p in ps], h.get("return")


def tree_depth(tree, end=None):
    end = end or tree_spans(tree)

    def d(i):
        if not isinstance(tree[i], FunctionNode):
            return 0
        j, m = i + 1, 0
        for _ in range(tree[i].n_args):
            m = max(m, 1 + d(j))
            j = end[j]
        return m
    return d(0)


def check_tree(sim, cfg, ind, where, execute=True):
    """One complete, well-typed expression over the given sets."""
    t = ind.tree
    fs, ts = tree_sets(cfg)
    if not isinstance(t, list):
        sim.fail("tree", "%s: tree is %r" % (where, type(t)))
        return False
    for nd in t:
        if not isinstance(nd, (FunctionNode, TerminalNode)):
            sim.fail("tree", "%s: node %r in %r" % (where, nd, t))
            return False
        if isinstance(nd, FunctionNode):
            if nd.function not in fs:
                sim.fail("tree-func", "%s: function %s not in the function set"
                         % (where, nd.function.__name__))
                return False
            if nd.n_args != len(hints(nd.function)[0]):
                sim.fail("tree-arity", "%s: %s has %d arguments" % (
                    where, nd.function.__name__, nd.n_args))
                return False
        else:
            v = nd.value
            if isinstance(v, str) and v not in ts:
                sim.fail("tree-term", "%s: variable %s not in the terminal set"
                         % (where, v))
                return False
            if not isinstance(v, (str, int, float)):
                sim.fail("tree-term", "%s: leaf %r is neither a variable nor "
                         "a constant" % (where, v))
                return False
            if not isinstance(v, str) and not cfg.get("erc") and \
                    not cfg.get("consts"):
                sim.fail("tree-term", "%s: constant %r without constants in "
                         "the configuration" % (where, v))
                return False
    end = tree_spans(t)
    if end is None:
        sim.fail("tree-shape", "%s: not one complete expression: %s" % (
            where, t))
        return False
    if cfg["typed"]:
        def ty(nd):
            if isinstance(nd, FunctionNode):
                return hints(nd.function)[1]
            if isinstance(nd.value, str):
                return ts[nd.value]
            return type(nd.value)
        root = TYPES[cfg["root"]]
        if ty(t[0]) is not root or t[0].node_type is not root:
            sim.fail("tree-type", "%s: root %s has type %s, required %s" % (
                where, t[0], ty(t[0]), root))
            return False
        for i, nd in enumerate(t):
            if nd.node_type is not ty(nd):
                sim.fail("tree-type", "%s: node %s is marked %s but has type "
                         "%s" % (where, nd, nd.node_type, ty(nd)))
                return False
            if isinstance(nd, FunctionNode):
                j = i + 1
                for k, want in enumerate(hints(nd.function)[0]):
                    if ty(t[j]) is not want:
                        sim.fail("tree-type", "%s: argument %d of %s is %s of "
                                 "type %s, declared %s" % (
                                     where, k, nd, t[j], ty(t[j]), want))
                        return False
                    j = end[j]
    if execute:
        env = tree_inputs(cfg)
        want = interp(ind, env)
        got = ind.execute(**env)
        if not equalish(got, want):
            sim.fail("tree-exec", "%s: executing %s gives %r, the expression "
                     "has the value %r" % (where, t, got, want))
            return False
    return True


def equalish(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    try:
        return bool(np.all((a == b) | ((a != a) & (b != b))))
    except Exception:
        return False


def check_ind(sim, cfg, ind, where):
    if cfg["enc"] == "tree":
        return check_tree(sim, cfg, ind, where)
    return check_vector(sim, cfg, ind, where)


def guarded(sim, fn, what):
    """Call; an unexpected exception is a violation."""
    import traceback
    try:
        fn()
        return True
    except Exception as e:
        sim.fail("raised", "%s raised %s" % (what, "".join(
            traceback.format_exception(e)[-6:])[-900:]))
        return False


def run_evolve(sim, algo):
    return guarded(sim, algo.evolve, "evolve()")
