"""C18: copies of an algorithm or estimator are complete and independent."""
import copy

from .. import gen as G
from .c07 import PICKLABLE

TIERS = {"quick": {"runs": 1700}, "thorough": {"runs": 30000}}
RULE = ("Each seed draws an algorithm or estimator and a history of copying "
        "(deep copy, serialisation, scikit-learn clone; before, after and at "
        "ends of generations), evolving or fitting with different data, "
        "predicting, reconfiguring and registering observers, one after the "
        "other or several at once; every copy is compared with its original, "
        "and every object not in use has to stay as it was.")
OWN_SHRINKS = True


def gen(rng, tier, i):
    k = rng.random()
    if k < 0.45:
        c = G.cfg(rng)
    elif k < 0.9:
        c = G.sk_cfg(rng, wrap=G.coin(rng, 0.85))
    else:
        c = G.nsga_cfg(rng)
    c["gens"] = rng.choice([0, 1, 2, 3])
    if G.coin(rng, 0.25):
        c["gseed"] = G.seed32(rng)
    G.cap(c, 10)
    if G.coin(rng, 0.2):
        c["term"] = [{"t": "gen", "at": rng.randrange(0, c["gens"] + 1)}]
    elif not c.get("nsga") and G.coin(rng, 0.3):
        c["gens"] = rng.choice([3, 4, 6])
        c["term"] = [rng.choice([
            {"t": "stag", "n": rng.choice([1, 2, 3])},
            {"t": "thr", "opt": rng.choice([0, 1, 3]), "thr": 0.5}])]
        if not c.get("sk"):
            c["fit"] = rng.choice(["const", "coarse", "crc"])
    plain = c["enc"] == "tree" or not c.get("nsga") and all(
        o["op"] in PICKLABLE for o in c["ops"])
    hows = ["deepcopy", "deepcopy", "cloudpickle"]
    if plain:
        hows += ["pickle", "pickle"]
    if c.get("wrap"):
        hows += ["clone", "clone"]
    steps = []
    n = 1           # a bound on the number of objects

    def act(who):
        k = rng.random()
        if k < 0.6:
            cps = []
            if c["gens"] and G.coin(rng, 0.4):
                cps = [{"gen": rng.randrange(1, c["gens"] + 1),
                        "how": rng.choice(hows)}]
            return {"s": "evolve", "who": who, "copies": cps,
                    "gens": rng.choice([None, None, None, 0, 1, 2]),
                    "own": G.coin(rng)}
        if k < 0.85:
            return {"s": "predict", "who": who, "x": rng.randrange(10 ** 6)}
        if k < 0.93:
            return {"s": "set", "who": who, "how": rng.choice(
                ["attr", "params"])}
        return {"s": "listen", "who": who}
    for _ in range(rng.randrange(2, 9)):
        k = rng.random()
        if k < 0.3:
            steps.append({"s": "copy", "who": rng.randrange(8),
                          "how": rng.choice(hows)})
        elif k < 0.8:
            steps.append(act(rng.randrange(8)))
        else:
            m = rng.choice([2, 2, 3])
            steps.append({"s": "together", "acts": [
                act(w) for w in rng.sample(range(8), m)]})
    if not any(s["s"] == "copy" or s.get("copies") for s in steps):
        steps.insert(rng.randrange(len(steps) + 1), {
            "s": "copy", "who": 0, "how": rng.choice(hows)})
    return {"parts": [G.part(rng, {"cfg": c, "steps": steps}, extreme=0.15,
                             faults=G.env_faults(rng, c))]}


class Obj:
    def __init__(self, algo, est, cfg, tag):
        self.algo, self.est, self.cfg, self.tag = algo, est, cfg, tag
        self.ran = False        # its pool is used up
        self.best = False       # it has a best individual of a finished run
        self.fitted = False
        self.busy = False
        self.origin = 0         # equal for copies that are alike, or None
        self.listeners = set()


def view(W, o):
    """What must not change while the object is not in use."""
    a = o.algo
    sp = W.subpop(a)
    ev = sp.evaluator
    inds = sp.individuals
    b = a.best_of_run_
    return [("population", [W.core(i) for i in inds] if inds is not None
             else None),
            ("best", W.core(b) if b is not None else None),
            ("seeds", (a.random_seed, a.generation_seed)),
            ("generation", (a.generation_num, a.final_generation_)),
            ("config", config(W, a)),
            ("observers", [sorted((k, len(v)) for k, v in x.events.items())
                           for x in (a, a.breeder, a.population_evaluator)]),
            ("data", W.freeze([getattr(ev, "X", None),
                               getattr(ev, "y", None)])),
            ("termination condition", W.freeze(
                a.termination_checker, skip=("events",))),
            ("fitted", getattr(o.est, "is_fitted_", None))]


def config(W, a):
    sp = W.subpop(a)

    def plain(x):
        out = [type(x).__name__]
        for k in ("probability", "arity", "k", "n", "attempts", "init_depth",
                  "mu", "sigma", "probability_for_each", "tournament_size",
                  "replace", "higher_is_better", "length", "bounds",
                  "erc_range", "bloat_weight", "p_prune", "update_parents",
                  "threshold", "optimal", "at",
                  "stagnation_generations_to_terminate"):
            if hasattr(x, k):
                out.append((k, repr(getattr(x, k))))
        return out
    t = a.termination_checker
    return W.freeze([
        a.max_generation, a.max_workers, sp.population_size, sp.n_elite,
        sp.higher_is_better,
        [plain(x) for x in sp.get_operators_sequence()],
        [[plain(x[0]), x[1]] for x in sp.get_selection_methods()],
        [plain(x) for x in sp.creators],
        [plain(x) for x in (t if isinstance(t, list) else [t])],
        [type(x).__name__ for x in a.statistics],
        type(a).__name__, type(sp.evaluator).__name__])


def genomes(W, x):
    if isinstance(x, (list, tuple)):
        return [genomes(W, y) for y in x]
    return W.genome(x) if hasattr(x, "fitness") else None


def content(W, o):
    """What a copy has to carry."""
    a = o.algo
    inds = W.subpop(a).individuals
    return [("population", [W.genome(i) for i in inds] if inds is not None
             else None),
            ("best individual", W.genome(a.best_of_run_)
             if a.best_of_run_ is not None else None),
            ("best and worst of the generation",
             genomes(W, [a.best_of_gen, a.worst_of_gen])),
            ("seeds", (a.random_seed, a.generation_seed)),
            ("generation number", a.generation_num),
            ("configuration", config(W, a)),
            ("data", W.freeze([getattr(W.subpop(a).evaluator, "X", None),
                               getattr(W.subpop(a).evaluator, "y", None)]))]


def run(part, sim):
    import pickle
    from .. import world as W
    cfg0 = part["do"]["cfg"]
    s = sim.sched
    objs = []

    def add(algo, est, cfg):
        tag = "T%d" % len(objs)
        o = Obj(algo, est, dict(cfg), tag)
        W.state(tag, o.cfg, sim)
        W.subpop(algo).evaluator.tag = tag
        W.subpop(algo).evaluator.cfg = o.cfg
        objs.append(o)
        return o

    algo = W.build(cfg0, "T0", sim)
    first = add(algo, W.wrap(algo, cfg0) if cfg0.get("wrap") else None, cfg0)
    mon = W.Monitor("M", cfg0, sim)
    algo.register("after_generation", mon.on_gen)

    def do_copy(o, how, where):
        src = o.est if o.est is not None else o.algo
        want, whole = content(W, o), view(W, o)
        try:
            if how == "deepcopy":
                x = copy.deepcopy(src)
            elif how == "clone":
                from sklearn.base import clone
                x = clone(src)
            elif how == "pickle":
                x = pickle.loads(pickle.dumps(src))
            else:
                import cloudpickle
                x = pickle.loads(cloudpickle.dumps(src))
        except Exception as e:
            sim.fail("raised", "%s: %s raised %r" % (where, how, e))
            return None
        a = x.algorithm if o.est is not None else x
        sim.count("copy_" + how)
        if a is o.algo:
            sim.fail("shared", "%s: the %s shares the algorithm" % (
                where, how))
            return None
        n = add(a, x if o.est is not None else None, o.cfg)
        n.best = o.best
        n.fitted = o.fitted and how != "clone"
        n.ran, n.origin = False, None if o.ran else o.origin
        n.listeners = set(o.listeners)
        for (k, a_), (_, b_) in zip(want, content(W, n)):
            if a_ != b_:
                sim.fail("incomplete", "%s: the copy (%s) has another %s: %s, "
                         "the original %s" % (where, how, k, str(b_)[:300],
                                              str(a_)[:300]))
                return None
        d = changed(whole, view(W, o))
        if d:
            sim.fail("changed", "%s: copying (%s) changed the %s of the "
                     "original" % (where, how, d))
        for i, j in ((W.subpop(o.algo), W.subpop(a)),
                     (o.algo.breeder, a.breeder),
                     (o.algo.population_evaluator, a.population_evaluator),
                     (o.algo.events, a.events)):
            if i is j:
                sim.fail("shared", "%s: the copy (%s) shares its %s with the "
                         "original" % (where, how, type(i).__name__))
        return n

    def changed(a, b):
        for (k, x), (_, y) in zip(a, b):
            if x != y:
                return k
        return None

    results = {}

    def evolve(o, act, where, alone):
        if o.ran:
            return
        o.ran = True
        cops = list(act["copies"])

        def on_gen(sender, data):
            if sender is not o.algo:
                return
            for c in list(cops):
                if data["generation_num"] == c["gen"]:
                    cops.remove(c)
                    how = c["how"]
                    do_copy(o, how, "%s, end of generation %d" % (
                        where, c["gen"]))
        # heard through the observer that all copies carry, too
        hooks.append(on_gen)
        if act["gens"] is not None:
            o.algo.max_generation = act["gens"]
            o.cfg["gens"] = act["gens"]
        if o.est is not None:
            if act.get("own"):
                o.cfg["dseed"] = o.cfg["dseed"] + 1000 * (1 + objs.index(o))
            X, y = W.sk_data(o.cfg)
            X, y = X.copy(), y.copy()
            sn = W.freeze([X, y])
            ok = W.guarded(sim, lambda: o.est.fit(X, y), where + ": fit()")
            if ok and W.freeze([X, y]) != sn:
                sim.fail("data", "%s: fit changed its data" % where)
            o.fitted = ok
        else:
            ok = W.run_evolve(sim, o.algo)
        if not ok:
            return
        o.best = True
        inds = W.subpop(o.algo).individuals
        if len(inds) != o.cfg["pop"]:
            sim.fail("size", "%s: %d individuals" % (where, len(inds)))
        W.check_fitness(sim, o.cfg, inds, where)
        wrong = [e for e in W.state(o.tag).evals[:1]
                 if e[2] is None]
        if wrong:
            sim.fail("pool", "%s: evaluated outside of a pool" % where)
        sim.count("evolved")
        # copies that are alike, each evolved on its own, do alike
        if alone and o.origin is not None and not part.get("draws"):
            key = repr((o.origin, o.cfg["gens"], o.cfg.get("dseed")))
            r = [("final generation", o.algo.final_generation_),
                 ("population", [W.genome(i) for i in inds])]
            if not o.cfg.get("nsga"):
                r.append(("best individual", W.genome(o.algo.best_of_run_)))
            old, by = results.setdefault(key, (r, o.tag))
            d = changed(old, r)
            if d:
                sim.fail("different", "%s: evolving object %s gives another "
                         "%s than evolving object %s, of which it is (or which"
                         " is) a copy: %s, %s" % (
                             where, o.tag, d, by, str(r)[:300],
                             str(old)[:300]))
            if by != o.tag:
                sim.count("same_result")

    hooks = []

    def on_any(sender, data):
        for h in list(hooks):
            h(sender, data)
    mon.hooks["gen"] = on_any

    def predict(o, act, where):
        if not o.best or o.cfg.get("nsga"):
            return
        best = o.algo.best_of_run_
        if o.est is not None:
            cfg = dict(o.cfg, dseed=act["x"])
            X = W.sk_data(cfg)[0].copy()
            try:
                got = o.est.predict(X)
            except Exception as e:
                if type(e).__name__ == "NotFittedError" and not o.fitted:
                    return
                sim.fail("raised", "%s: predict() raised %r" % (where, e))
                return
            if not o.fitted:
                sim.fail("fitted", "%s: an unfitted clone predicts" % where)
                return
            want = W.sk_predict(cfg, best, X)
            if isinstance(want, tuple):
                import numpy as np
                want, edge = want
                ok = np.shape(got) == want.shape and bool(np.all(
                    (got == want) | edge | np.isnan(np.asarray(
                        W.sk_raw(cfg, best, X), dtype=float))))
            else:
                ok = W.equalish(got, want)
        elif o.cfg.get("sk"):
            X = W.sk_data(dict(o.cfg, dseed=act["x"]))[0]
            env = {"x%d" % j: X[:, j] for j in range(X.shape[1])}
            got, want = o.algo.execute(**env), W.interp(best, env)
            ok = W.equalish(got, want)
        elif o.cfg["enc"] == "tree":
            env = W.tree_inputs(o.cfg)
            got, want = o.algo.execute(**env), W.interp(best, env)
            ok = W.equalish(got, want)
        else:
            got, want = o.algo.execute(), list(best.vector)
            ok = list(got) == want
        sim.count("predictions")
        if not ok:
            sim.fail("prediction", "%s: gives %s, its best individual %s" % (
                where, str(got)[:200], str(want)[:200]))

    def do(o, act, where, alone=False):
        k = act["s"]
        if k == "evolve":
            evolve(o, act, where, alone)
        elif k == "predict":
            for _ in range(3):
                predict(o, act, where)
                s.point()
        elif k == "set":
            o.origin = None
            o.cfg["gens"] += 1
            if o.est is not None and act.get("how") == "params":
                # the way of scikit-learn, which also renews the pool
                was = o.algo
                r = o.est.set_params(max_generation=o.cfg["gens"])
                if r is not o.est or o.est.algorithm is not was or \
                        o.est.get_params()["algorithm"] is not was or \
                        was.max_generation != o.cfg["gens"]:
                    sim.fail("parameters", "%s: set_params(max_generation=%d) "
                             "left %r generations" % (
                                 where, o.cfg["gens"],
                                 o.est.algorithm.max_generation))
                    return
                sim.count("refit" if o.ran else "set_params")
                o.ran = False
            else:
                o.algo.max_generation = o.cfg["gens"]
            ops = W.subpop(o.algo).get_operators_sequence()
            if ops:
                ops[0].probability = 0.5
            sels = W.subpop(o.algo).get_selection_methods()
            if hasattr(sels[0][0], "tournament_size"):
                sels[0][0].tournament_size = 1
        elif k == "listen":
            m = W.Monitor("L%d" % len(W.Monitor.REG), o.cfg, sim)
            o.listeners.add(m.tag)

            def heard(sender, data, tag=m.tag):
                x = [p for p in objs if p.algo is sender]
                if not x or tag not in x[0].listeners:
                    sim.fail("observers", "an observer of one object heard "
                             "another one")
            m.hooks["gen"] = heard
            o.algo.register("after_generation", m.on_gen)

    for n, st in enumerate(part["do"]["steps"]):
        if sim.violations:
            return
        where = "step %d (%s)" % (n, st["s"])
        if st["s"] == "copy":
            o = objs[st["who"] % len(objs)]
            rest = [(p, view(W, p)) for p in objs if p is not o]
            do_copy(o, st["how"], where)
        else:
            acts = st["acts"] if st["s"] == "together" else [st]
            todo = []
            for a in acts:
                o = objs[a["who"] % len(objs)]
                if all(o is not p for p, _ in todo):
                    todo.append((o, a))
            rest = [(p, view(W, p)) for p in objs
                    if all(p is not q for q, _ in todo)]
            if len(todo) > 1:
                sim.count("together")
                ts = [s.spawn(lambda o=o, a=a, j=j: do(
                    o, a, "%s, object %s" % (where, o.tag)), "user%d" % j)
                    for j, (o, a) in enumerate(todo)]
                for t in ts:
                    s.join(t)
                    if t.exc is not None:
                        raise t.exc
            else:
                do(todo[0][0], todo[0][1], where, alone=True)
        for p, v in rest:
            d = changed(v, view(W, p))
            if d:
                sim.fail("disturbed", "%s changed the %s of object %s, which "
                         "was not in use" % (where, d, p.tag))
                return
        sim.log(n, st["s"], [W.crc(repr(content(W, p)[:4])) for p in objs])
    sim.count("objects", len(objs))


def shrinks(scn):
    d = scn["parts"][0]["do"]
    for j in range(len(d["steps"])):
        c = copy.deepcopy(scn)
        del c["parts"][0]["do"]["steps"][j]
        yield c
        if d["steps"][j].get("copies"):
            c = copy.deepcopy(scn)
            c["parts"][0]["do"]["steps"][j]["copies"] = []
            yield c
        if d["steps"][j]["s"] == "together":
            for a in d["steps"][j]["acts"]:
                c = copy.deepcopy(scn)
                c["parts"][0]["do"]["steps"][j] = copy.deepcopy(a)
                yield c
    for key, val in G._smaller(d["cfg"]):
        if key == "gens":
            continue
        c = copy.deepcopy(scn)
        t = c["parts"][0]["do"]["cfg"]
        if key == "pop":
            t["elite"] = min(t.get("elite", 0), val)
        t[key] = val
        yield c
