"""C03: a failure inside a run is never swallowed and never corrupts it."""
from .. import gen as G

TIERS = {"quick": {"runs": 3500}, "thorough": {"runs": 50000}}
RULE = ("Each seed draws a configuration, a schedule and one or two failures "
        "(evaluator exception of one of 14 types at the n-th call, worker "
        "process killed before or after a task, undeliverable task, worker "
        "that cannot be started, failing operator, attempt of an operator, "
        "user callable of a mutation, selection, gene creator, tree function, "
        "metric, statistics writer, random generator, observer or termination "
        "checker, MemoryError at an arbitrary line, interrupt while waiting).")

EXC = ["boom", "boom", "value", "memory", "type", "kbd", "stop", "exit",
       "index", "attr", "timeout", "key", "assert", "os", "cancel"]
SITES = ["init", "gen", "end", "breed<", "breed>", "eval<", "eval>"]


def gen(rng, tier, i):
    k = rng.random()
    if k < 0.65:
        c = G.cfg(rng)
    elif k < 0.8:
        c = G.nsga_cfg(rng)
    else:
        c = G.sk_cfg(rng)
    c["gens"] = min(c["gens"], 4)
    if c.get("given") == "stale":
        c["given"] = "veterans"
    c["noisy"] = False
    n = c["pop"] * (c["gens"] * (2 if c.get("nsga") else 1) + 1)
    what = rng.choice(["eval", "eval", "eval", "eval", "env", "env", "op",
                       "obs", "check", "alarm", "alarm", "wait", "part",
                       "part", "part"])
    do = {"cfg": c, "what": what}
    faults = G.env_faults(rng, c)
    if what == "eval":
        do["evals"] = [[rng.randrange(n), rng.choice(EXC)]
                       for _ in range(rng.choice([1, 1, 2]))]
    elif what == "env":
        kind = rng.choice(["kill", "kill", "pickle", "spawn"])
        if kind in ("kill", "pickle"):
            c["exec"] = "process"
            faults.append({"kind": kind, "at": rng.randrange(n),
                           "v": rng.choice(["before", "after"])})
        else:
            faults.append({"kind": "spawn", "at": rng.randrange(3)})
    elif what == "op":
        c["ops"].append({"op": "boom", "at": rng.randrange(
            max(1, c["pop"] * c["gens"])), "half": G.coin(rng),
            "exc": rng.choice(EXC), "arity": rng.choice([1, 2])})
    elif what == "obs":
        do["site"] = rng.choice(SITES)
        do["at"] = rng.randrange(max(1, c["gens"]))
        do["exc"] = rng.choice(EXC)
    elif what == "check":
        c["term"] = [{"t": "boom", "at": rng.randrange(0, c["gens"] + 1),
                      "exc": rng.choice(EXC)}]
        if G.coin(rng, 0.3):
            c["term"].insert(rng.randrange(2), {"t": "gen", "at": 10 ** 6})
    elif what == "part":
        part_fault(rng, c, do, n)
    elif what == "alarm":
        do["step"] = int(10 ** rng.uniform(1.5, 4.6))
    else:
        do["block"] = rng.randrange(1, 3 * c["pop"])
    G.cap(c)
    p = G.part(rng, do, faults=faults, extreme=0.1)
    if what == "alarm":
        # CPython 3.12 crashes when an opcode trace function raises
        G.light(p["sched"])
    return {"parts": [p]}


def part_fault(rng, c, do, n):
    """A failure of some other component of the user."""
    opts = ["attempt", "attempt", "on_fail", "rng"]
    if c["enc"] != "tree":
        opts += ["cells", "value", "check"]
        if not c.get("nsga"):
            opts.append("gene")
            c["given"] = False
    elif c.get("sk"):
        opts += ["metric", "metric"]
    elif not c["typed"]:
        opts += ["fn", "fn", "fn"]
    if not c.get("nsga"):
        opts.append("select")
    opts.append("stats")
    w = rng.choice(opts)
    per = max(1, c["gens"])
    at = rng.randrange(per * c["pop"])
    if w in ("attempt", "on_fail"):
        c["ops"].insert(rng.randrange(len(c["ops"]) + 1), {
            "op": "boomf", "where": w, "attempts": rng.choice([1, 2, 3]),
            "arity": rng.choice([1, 2])})
    elif w in ("cells", "value", "check"):
        c["ops"].append({"op": "boomn", "where": w})
    elif w == "gene":
        c["booms"] = "gene"
        at = rng.randrange(c["len"] * c["pop"])
    elif w == "metric":
        c["booms"] = "metric"
        at = rng.randrange(n)
    elif w == "fn":
        c["fit"], c["fnfail"] = "exec", True
        at = rng.randrange(2 * n)
    elif w == "select":
        c["sel"] = {"s": "boom"}
        at = rng.randrange(per)
    elif w == "stats":
        c["stats"] = rng.sample(["boom", "rec"], rng.choice([1, 2]))
        if "boom" not in c["stats"]:
            c["stats"][0] = "boom"
        at = rng.randrange(per)
    else:
        c["rng"] = "custom"
        at = rng.randrange(c["gens"] + 1)
    do["boom"] = {"where": w, "at": at, "exc": rng.choice(EXC)}


def chain(e):
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        e = e.__cause__ or e.__context__
    return seen


def run(part, sim):
    import sys
    from sklearn.exceptions import NotFittedError
    from concurrent.futures.process import BrokenProcessPool
    import pickle
    from .. import world as W
    from ..seams import ENV, SRC, count
    do, cfg = part["do"], part["do"]["cfg"]
    s = sim.sched
    st = W.state("A", cfg, sim)
    for n, e in do.get("evals", []):
        st.fail[n] = e
    st.boom = do.get("boom")
    algo = W.build(cfg, "A", sim)
    m = W.Monitor("A", cfg, sim).attach(algo)
    box = {"done": [], "cand": [], "pop": [], "after": []}

    def on_before(sender, data):
        box["pop"] = [i.id for i in W.subpop(algo).individuals]
        box["ev0"] = len(st.evals)

    def on_after(sender, data):
        # an evaluation completed: these individuals count
        box["cand"] = [(i, W.snap(i)) for i in W.subpop(algo).individuals]
        box["done"].append(box["cand"])
    m.hooks["eval<"] = on_before
    m.hooks["eval>"] = on_after

    # events after the failure
    ev = m._ev

    def spy(name, sender, data):
        if st.failed or ENV.faults.fired_hard():
            box["after"].append(name)
        ev(name, sender, data)
        if do["what"] == "obs" and name == do["site"]:
            k = box.get("k", 0)
            box["k"] = k + 1
            if k == do["at"] or name in ("init", "end"):
                st.failed = ("obs", do["exc"], "observer %s" % name)
                count("observer_" + do["exc"])
                raise W.make_exc(do["exc"], "observer %s" % name)
    m._ev = spy

    if do["what"] == "alarm":
        def fire():
            f = sys._getframe(3)
            g = sys._getframe(4)
            if f.f_code.co_name == "local" and \
                    g.f_code.co_filename.startswith(SRC) and \
                    box.get("running"):
                st.failed = ("alarm", "memory", "%s:%d" % (
                    g.f_code.co_name, g.f_lineno - g.f_code.co_firstlineno))
                count("memory_error_at_line")
                raise MemoryError("simulated")
            if box.get("over"):
                return
            s.add_alarm(s.steps + 1, fire)
        s.add_alarm(do["step"], fire)
    elif do["what"] == "wait":
        def hook(task):
            if task.tid == 0 and box.get("running") and not st.failed:
                box["b"] = box.get("b", 0) + 1
                if box["b"] == do["block"]:
                    st.failed = ("wait", "kbd", "interrupt")
                    count("interrupt_while_waiting")
                    return KeyboardInterrupt("interrupt")
            return None
        s.block_hooks.append(hook)

    est = W.wrap(algo, cfg) if cfg.get("wrap") else None
    got = None
    box["running"] = True
    try:
        if est is not None:
            X, y = W.sk_data(cfg)
            est.fit(X.copy(), y.copy())
        else:
            algo.evolve()
    except BaseException as e:
        sys.settrace(None)
        got = e
    box["running"] = False
    box["over"] = True
    fired = ENV.faults.fired_hard()
    failed = st.failed
    sim.log("failed", failed, fired, type(got).__name__ if got else None,
            str(got)[:80] if got else "", m.events)
    # leave the workers all the time they need
    s.sleep(10 ** 7)

    if not failed and not fired:
        if got is not None:
            import traceback
            sim.fail("raised", "no failure was injected, yet the run raised "
                     "%s" % "".join(traceback.format_exception(got))[-900:])
        elif "end" not in m.events:
            sim.fail("no-end", "the run ended without announcing its end")
        return
    sim.count("failures")
    sim.count("failed_" + (failed[0] if failed else fired[0]))
    what = "%s" % (failed or fired,)
    if got is None:
        sim.fail("swallowed", "the failure %s was not reported to the caller"
                 % what)
        return
    # the reported failure is the injected one
    ok = False
    if fired and not failed:
        want = {"kill": BrokenProcessPool, "pickle": pickle.PicklingError,
                "spawn": (RuntimeError, OSError)}[fired[0]]
        ok = any(isinstance(x, want) for x in chain(got))
    elif fired:
        ok = True
    elif failed[0] == "alarm":
        ok = True
    elif failed[0] == "wait":
        ok = isinstance(got, KeyboardInterrupt)
    else:
        msgs = ["eval A #%d" % n for n, _ in do.get("evals", [])] or \
            [failed[2]]
        kinds = [e for _, e in do.get("evals", [])] or [failed[1]]
        for x in chain(got):
            if any(type(x) is type(W.make_exc(k, "x")) for k in kinds) and \
                    any(t in str(x) for t in msgs):
                ok = True
    if not ok:
        sim.fail("other-failure", "the failure %s reached the caller as %s: "
                 "%s" % (what, type(got).__name__, str(got)[:300]))
    if box["after"]:
        sim.fail("went-on", "after the failure %s the run still announced %s"
                 % (what, box["after"]))
    late = {e[0] for e in st.evals[box.get("ev0", 0):]} - set(box["pop"])
    if late:
        sim.fail("went-on", "after the failure %s individuals %s outside the "
                 "population were evaluated" % (what, sorted(late)))
    if est is not None:
        try:
            est.predict(W.sk_data(cfg)[0])
            sim.fail("fitted", "after the failure %s the estimator counts as "
                     "fitted" % what)
        except NotFittedError:
            pass
    for i in W.subpop(algo).individuals or []:
        if i.fitness.is_fitness_evaluated() and not W.close(
                i.get_pure_fitness(), W.score(cfg, i)):
            sim.fail("wrong-fitness", "after the failure %s individual %d "
                     "reports %r, not %r" % (what, i.id, i.get_pure_fitness(),
                                             W.score(cfg, i)))
    if cfg.get("nsga"):
        return
    best = algo.best_of_run_
    hist = box["done"]
    # the last evaluation may not have been taken into account yet when the
    # failure struck right behind it
    soft = failed and (failed[0] in ("alarm", "wait") or
                       failed[2] == "observer eval>")
    alts = [hist] if not soft else [hist, hist[:-1]]
    wants = []
    for h in alts:
        inds = [i for g in h for i in g]
        wants.append(W.best_of(cfg, [W.aug(cfg, i) for i, _ in inds])
                     if inds else None)
    if best is None:
        if None not in wants:
            sim.fail("best-lost", "after the failure %s there is no best of "
                     "run although %d evaluations completed" % (
                         what, len(hist)))
        return
    snap = next((sn for g in hist for i, sn in g if i is best), None)
    if snap is None:
        sim.fail("best-foreign", "after the failure %s the best of run is an "
                 "individual of no completed evaluation" % what)
        return
    if W.snap(best) != snap and not _gen_only(W, best, snap):
        sim.fail("best-changed", "after the failure %s the best of run "
                 "changed since its evaluation" % what)
    if not best.fitness.is_fitness_evaluated() or \
            not W.close(best.get_pure_fitness(), W.score(cfg, best)):
        sim.fail("best-fitness", "after the failure %s the best of run does "
                 "not carry its fitness" % what)
    elif not any(w is not None and W.close(W.aug(cfg, best), w)
                 for w in wants):
        sim.fail("best-wrong", "after the failure %s the best of run has %r, "
                 "the best completed evaluation %r" % (
                     what, W.aug(cfg, best), wants))


def _gen_only(W, ind, snap):
    """The generation number an individual takes part in may advance."""
    strip = lambda s: tuple(x for x in s if not (  # noqa
        isinstance(x, tuple) and x and x[0] == ("str", "'gen'")))
    return strip(W.snap(ind)) == strip(snap)


def shrinks(scn):
    import copy
    do = scn["parts"][0]["do"]
    if len(do.get("evals", [])) > 1:
        for j in range(len(do["evals"])):
            c = copy.deepcopy(scn)
            del c["parts"][0]["do"]["evals"][j]
            yield c
