"""C11: predicting with a fitted model is a pure, re-entrant read."""
import copy
import pickle
import random as _random

from .. import gen as G

TIERS = {"quick": {"runs": 2500}, "thorough": {"runs": 40000}}
RULE = ("Each seed fits a regressor, classifier or plain evolution, lets "
        "several user threads predict, execute and classify with their own "
        "inputs (some of them invalid) under a drawn schedule, and compares "
        "each result with an independent interpreter and the model's state "
        "before and after.")
OWN_SHRINKS = True


def gen(rng, tier, i):
    sk = rng.random() < 0.8
    if sk:
        c = G.sk_cfg(rng, wrap=True)
    else:
        c = G.cfg(rng, encs=("tree",))
    c["gens"] = rng.choice([0, 1, 1, 2])
    G.cap(c, 6)
    if G.coin(rng, 0.6) and c["depth"][1] < 3:
        c["depth"] = [2, 3]
        if c["creator"] == "half":
            c["creator"] = "full"
    ths = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        calls = []
        for _ in range(rng.choice([1, 2, 3])):
            calls.append({"seed": rng.randrange(10 ** 6),
                          "rows": rng.choice([1, 1, 2, 3, 5, 9]),
                          "ints": G.coin(rng, 0.3),
                          "what": rng.choice(["predict", "predict", "execute",
                                              "best", "bad"])})
        ths.append(calls)
    p = G.part(rng, {"cfg": c, "threads": ths, "early": G.coin(rng, 0.3),
                     "fails": rng.randrange(c["pop"] * (c["gens"] + 1))
                     if sk and G.coin(rng, 0.12) else None,
                     "refit": rng.choice([None, None, "pickle", "copy"])},
               extreme=0.1)
    if len(ths) > 1 and p["sched"]["policy"] == "rand":
        p["sched"]["p"] = rng.choice([0.05, 0.2, 0.5])
        if G.coin(rng, 0.3):
            p["sched"].update(p=0.02, focus=G.focus(rng))
    return {"parts": [p]}


def state_of(W, algo, cfg):
    sp = W.subpop(algo)
    ev = sp.evaluator
    return W.freeze({
        "population": [W.core(i) for i in sp.individuals],
        "best": W.core(algo.best_of_run_), "seeds": [
            algo.random_seed, algo.generation_seed, algo.generation_num,
            algo.final_generation_, algo.max_generation],
        "X": getattr(ev, "X", None), "y": getattr(ev, "y", None),
        "n": [len(sp.individuals), sp.population_size],
    })


def run(part, sim):
    import numpy as np
    from sklearn.exceptions import NotFittedError
    from .. import world as W
    do, cfg = part["do"], part["do"]["cfg"]
    s = sim.sched
    algo = W.build(cfg, "A", sim)
    est = W.wrap(algo, cfg) if cfg.get("sk") else None
    if est is not None and do["early"]:
        X, _ = W.sk_data(cfg, 1)
        try:
            r = est.predict(X)
            sim.fail("not-refused", "predicting before fitting returned %r" %
                     (r,))
        except NotFittedError:
            sim.count("refused_before_fit")
        except Exception as e:
            sim.fail("not-refused", "predicting before fitting raised %r" % e)
    if est is not None and do.get("fails") is not None:
        # a fit that fails leaves no fitted model
        st = W.state("A")
        st.fail = {do["fails"]: "boom"}
        try:
            est.fit(*(a.copy() for a in W.sk_data(cfg)))
        except W.Boom:
            sim.count("failed_fits")
            X, _ = W.sk_data(cfg, 1)
            for e in (est, copy.deepcopy(est)):
                try:
                    r = e.predict(X)
                    sim.fail("not-refused", "predicting after a fit that "
                             "failed returned %r" % (r,))
                except NotFittedError:
                    pass
                except Exception as x:
                    sim.fail("not-refused", "predicting after a fit that "
                             "failed raised %r" % x)
        st.fail = {}
        est = e if st.failed else est
        algo = est.algorithm
    if est is not None:
        X0, y0 = (a.copy() for a in W.sk_data(cfg))
        if not W.guarded(sim, lambda: est.fit(X0, y0), "fit()"):
            return
        if do.get("refit"):
            # a saved model is fitted again, to other data
            if do["refit"] == "pickle":
                est = pickle.loads(pickle.dumps(est))
            else:
                est = copy.deepcopy(est)
            algo = est.algorithm
            est.predict(X0[:1])
            y1 = np.roll(y0, 1) if cfg["sk"] == "clf" else -y0[::-1]
            if not W.guarded(sim, lambda: est.fit(X0[::-1].copy(), y1.copy()),
                             "fit() of a saved model"):
                return
            sim.count("refits")
    elif not W.start(sim, algo, cfg):
        return
    best = algo.best_of_run_
    before = state_of(W, algo, cfg)

    def inputs(call):
        r = _random.Random("in%d" % call["seed"])
        n, m = cfg["nvars"], call["rows"]
        if cfg.get("sk"):
            if call["ints"]:
                return np.array([[r.randrange(-9, 10) for _ in range(n)]
                                 for _ in range(m)])
            return np.array([[r.uniform(-3, 3) for _ in range(n)]
                             for _ in range(m)])
        env = {}
        for k, v in W.tree_inputs(cfg).items():
            if isinstance(v, bool):
                env[k] = r.random() < 0.5
            elif isinstance(v, int) and cfg["typed"]:
                env[k] = r.randrange(-9, 10)
            elif cfg["typed"] or call["rows"] == 1:
                env[k] = r.uniform(-3, 3)
            else:
                env[k] = np.array([r.uniform(-3, 3)
                                   for _ in range(call["rows"])])
        return env

    def verdict(what, call, got, inp):
        with np.errstate(all="ignore"):
            if not cfg.get("sk"):
                want = W.interp(best, inp)
                ok = W.equalish(got, want)
            elif what == "predict" and cfg["sk"] == "clf":
                want = W.sk_predict(cfg, best, inp)
                if isinstance(want, tuple):
                    want, edge = want
                    got = np.asarray(got)
                    ok = got.shape == want.shape and bool(np.all(
                        (got == want) | edge | np.isnan(np.asarray(
                            W.sk_raw(cfg, best, inp), dtype=float))))
                else:
                    ok = W.equalish(got, want)
            elif what == "execute":
                want = W.interp(best, {"x%d" % j: inp[:, j] for j in range(
                    inp.shape[1])})
                ok = W.equalish(got, want)
            else:
                want = W.sk_raw(cfg, best, inp)
                ok = W.equalish(got, want)
        if not ok:
            sim.fail("wrong-prediction", "%s of %s for the input %s gave %s, "
                     "the best individual yields %s" % (
                         what, W.jgenome(best)[:200],
                         str(inp).replace("\n", " ")[:200],
                         str(got)[:200], str(want)[:200]))

    def do_call(what, inp):
        if not cfg.get("sk"):
            return (algo if what != "best" else best).execute(**inp)
        if what == "predict":
            return est.predict(inp)
        if what == "execute":
            return algo.execute(**{"x%d" % j: inp[:, j] for j in range(
                inp.shape[1])})
        return best.execute(inp)

    def bad_call(call, inp):
        """An invalid call fails by itself and disturbs nobody."""
        try:
            if cfg.get("sk"):
                est.predict(np.hstack([inp, inp[:, :1]]))
            else:
                algo.execute(**dict(list(inp.items())[1:]))
        except Exception:
            pass
        else:
            sim.fail("bad-accepted", "an input with the wrong variables was "
                     "accepted")
        sim.count("invalid_calls")

    def user(calls):
        def go():
            for call in calls:
                inp = inputs(call)
                what = call["what"]
                if what == "bad":
                    bad_call(call, inp)
                    continue
                sn = W.freeze(inp)
                got = do_call(what, inp)
                s.point()
                if W.freeze(inp) != sn:
                    sim.fail("input-changed", "%s changed its input" % what)
                verdict(what, call, got, inp)
                sim.count("calls")
                if cfg.get("sk") and call["seed"] % 3 == 0:
                    # the caller's buffer refilled: a new input
                    inp[:] = inp[::-1] * -2 + 1
                    verdict(what, call, do_call(what, inp), inp)
                    sim.count("refilled_buffers")
                sim.log(what, call["seed"], str(got)[:100])
        return go
    ts = [s.spawn(user(c), "user%d" % j)
          for j, c in enumerate(do["threads"])]
    for t in ts:
        s.join(t)
        if t.exc is not None:
            import traceback
            sim.fail("raised", "a prediction raised %s" % "".join(
                traceback.format_exception(t.exc)[-5:])[-900:])
    if algo.best_of_run_ is not best or state_of(W, algo, cfg) != before:
        a, b = before, state_of(W, algo, cfg)
        d = [(x, y) for x, y in zip(a, b) if x != y]
        sim.fail("model-changed", "predictions changed the model: %s" %
                 str(d)[:800])
    # later predictions are as before
    user([c for t in do["threads"] for c in t if c["what"] != "bad"][:2])()


def shrinks(scn):
    d = scn["parts"][0]["do"]
    for j in range(len(d["threads"])):
        if len(d["threads"]) > 1:
            c = copy.deepcopy(scn)
            del c["parts"][0]["do"]["threads"][j]
            yield c
        for k in range(len(d["threads"][j])):
            if len(d["threads"][j]) > 1:
                c = copy.deepcopy(scn)
                del c["parts"][0]["do"]["threads"][j][k]
                yield c
    if d.get("refit"):
        c = copy.deepcopy(scn)
        c["parts"][0]["do"]["refit"] = None
        yield c
    for key, val in G._smaller(d["cfg"]):
        c = copy.deepcopy(scn)
        c["parts"][0]["do"]["cfg"][key] = val
        if key == "pop":
            c["parts"][0]["do"]["cfg"]["elite"] = 0
        yield c
