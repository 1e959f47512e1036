"""C15: no individual ever reports a fitness computed for another genome."""
import copy

from .. import gen as G

TIERS = {"quick": {"runs": 3500}, "thorough": {"runs": 45000}}
RULE = ("Each seed draws either a whole evolution in which an evaluation, "
        "operator or checker may fail, or a history of direct evaluations, "
        "operators, clones, selections, comparisons and serialisations, some "
        "failing half way; after every step every individual that claims to "
        "be evaluated is compared with the score of its present genome, and "
        "every other one is asked for its fitness.")
OWN_SHRINKS = True
EXC = ["boom", "value", "memory", "key", "type", "timeout"]


def hist(rng):
    r = rng.random()
    if r < 0.15:
        c = G.nsga_cfg(rng)
    else:
        c = G.cfg(rng)
    if c["enc"] == "tree" and c["creator"] == "half":
        c["creator"] = "grow"
    c["pop"] = rng.randrange(2, 7)
    c["neg"] = False
    if c["hib"] is True and not c.get("nsga"):
        c["bloat"] = rng.choice([0.0, 0.0, 0.1])
    n = c["pop"]
    by_hand = c["enc"] == "tree" and c["hib"] is False and G.coin(rng, 0.3)
    if by_hand:     # programs built without naming a fitness
        c["bloat"] = 0.1
    steps = []
    for _ in range(rng.randrange(2, 30)):
        r = rng.random()
        w = lambda k: rng.sample(range(n), k)   # noqa
        if r < 0.3:
            steps.append({"s": "eval", "who": w(rng.randrange(1, n + 1)),
                          "fail": rng.randrange(n) if G.coin(rng, 0.2)
                          else None, "exc": rng.choice(EXC)})
        elif r < 0.55:
            o = rng.choice(c["ops"] if G.coin(rng, 0.6) else (
                G.tree_ops(rng, c["typed"]) if c["enc"] == "tree" else
                G.vec_ops(rng, c["enc"], c["len"])))
            [o] = G.groups(rng, [dict(o)])
            if G.arity(o) > n:
                del o["ar"]
            steps.append({"s": "op", "op": o, "who": w(G.arity(o))})
        elif r < 0.62:
            steps.append({"s": "boom", "half": G.coin(rng, 0.7),
                          "exc": rng.choice(EXC), "who": w(1)})
        elif r < 0.75:
            steps.append({"s": "clone", "who": w(2)})
        elif r < 0.83:
            steps.append({"s": "pickle", "who": w(1),
                          "how": rng.choice(["pickle", "deepcopy"])})
        elif r < 0.93:
            steps.append({"s": "select", "m": rng.choice(
                ["tour", "elite", "fp"] if not c.get("nsga") else ["tour"]),
                "t": rng.randrange(1, 4), "keep": G.coin(rng)})
        else:
            steps.append({"s": "edit", "who": w(1)})
    return {"cfg": c, "steps": steps, "hand": by_hand, "cached": [
        G.coin(rng, 0.3) for _ in range(n)]}


def gen(rng, tier, i):
    if rng.random() < 0.4:
        k = rng.random()
        c = G.sk_cfg(rng) if k < 0.1 else G.nsga_cfg(rng) if k < 0.25 \
            else G.cfg(rng)
        c["gens"] = max(1, c["gens"])
        if c.get("given") == "stale":
            c["given"] = "veterans"
        do = {"mode": "run", "cfg": c}
        k = rng.random()
        if k < 0.4:
            do["fail"] = [rng.randrange(c["pop"] * (c["gens"] + 1)),
                          rng.choice(EXC)]
        elif k < 0.6:
            at = rng.randrange(len(c["ops"]) + 1)
            c["ops"].insert(at, {"op": "boom", "half": G.coin(rng, 0.7),
                                 "at": rng.randrange(c["pop"] * c["gens"]),
                                 "exc": rng.choice(EXC)})
        elif k < 0.7 and not c.get("nsga"):
            c["term"] = [{"t": "boom", "at": rng.randrange(c["gens"] + 1),
                          "exc": rng.choice(EXC)}]
        return {"parts": [G.part(rng, do, extreme=0.3,
                                 faults=G.env_faults(rng, c))]}
    return {"parts": [G.part(rng, {"mode": "hist", "h": hist(rng)},
                             threads=False, extreme=0.4)]}


def run(part, sim):
    do = part["do"]
    if do["mode"] == "run":
        return run_evo(do, sim)
    return run_hist(do["h"], sim)


def raises(fn):
    try:
        v = fn()
    except ValueError:
        return None
    except Exception as e:
        return "raised %r" % e
    return "gave %r" % (v,)


def honest(sim, cfg, inds, where, partner=None):
    """Every individual reports the fitness of its genome, or none at all."""
    from .. import world as W
    for i in inds:
        if i is None:
            continue
        if i.fitness.is_fitness_evaluated():
            try:
                got = i.get_pure_fitness()
            except Exception as e:
                sim.fail("evaluated", "%s: individual %d says it is evaluated "
                         "and raises %r" % (where, i.id, e))
                return False
            want = W.score(cfg, i)
            if not W.same_fit(got, want):
                sim.fail("stale-fitness", "%s: individual %d with genome %s "
                         "reports the fitness %r, the genome's is %r" % (
                             where, i.id, W.jgenome(i)[:200], got, want))
                return False
            if not cfg.get("nsga"):
                a = i.get_augmented_fitness()
                if not W.close(a, W.aug(cfg, i, want)):
                    sim.fail("stale-fitness", "%s: individual %d reports the "
                             "augmented fitness %r, not %r" % (
                                 where, i.id, a, W.aug(cfg, i, want)))
                    return False
            sim.count("evaluated")
            continue
        sim.count("unevaluated")
        asks = [("get_pure_fitness", i.get_pure_fitness),
                ("get_augmented_fitness", i.get_augmented_fitness)]
        if not cfg.get("nsga"):
            for j in (partner or [])[:3]:
                if j is i:
                    continue
                asks += [("better_than", lambda j=j: i.better_than(j)),
                         ("better_than", lambda j=j: j.better_than(i)),
                         ("equal_to", lambda j=j: i.fitness.equal_to(
                             i, j.fitness, j)),
                         ("equal_to", lambda j=j: j.fitness.equal_to(
                             j, i.fitness, i))]
        for name, fn in asks:
            bad = raises(fn)
            if bad:
                sim.fail("unevaluated", "%s: individual %d is not evaluated "
                         "but %s %s" % (where, i.id, name, bad))
                return False
    return True


def run_evo(do, sim):
    from .. import world as W
    cfg = do["cfg"]
    st = W.state("A", cfg, sim)
    if do.get("fail"):
        st.fail = {do["fail"][0]: do["fail"][1]}
    seen = []
    algo = W.build(cfg, "A", sim)
    m = W.Monitor("A", cfg, sim).attach(algo)

    def everybody():
        out = list(W.subpop(algo).individuals)
        for x in (algo.best_of_run_, getattr(algo, "best_of_gen", None),
                  getattr(algo, "worst_of_gen", None)):
            for y in flat(x):
                out.append(y)
        return out

    def look(where):
        def f(sender, data):
            inds = everybody()
            honest(sim, cfg, inds, where, inds)
            sim.log(where, len(inds), sum(
                i.fitness.is_fitness_evaluated() for i in inds))
            if len(seen) < 40:
                seen.extend(W.subpop(algo).individuals)
        return f

    def on_ea(sender, data):
        for i in W.subpop(algo).individuals:
            if not i.fitness.is_fitness_evaluated():
                sim.fail("not-evaluated", "after evaluation individual %d is "
                         "not evaluated" % i.id)
                return
        look("after evaluation")(sender, data)

    def on_ba(sender, data):
        if not cfg.get("nsga"):
            for i in W.subpop(algo).individuals:
                # (clones carry on the record of their source)
                if len(i.applied_operators) > had.get(i.cloned_from, 0) and \
                        i.fitness.is_fitness_evaluated():
                    sim.fail("operated", "after breeding individual %d, on "
                             "which %s acted, is still evaluated" % (
                                 i.id, i.applied_operators))
                    return
        look("after breeding")(sender, data)
    had = {}

    def on_bb(sender, data):
        had.clear()
        had.update((i.id, len(i.applied_operators))
                   for i in W.subpop(algo).individuals)
        look("before breeding")(sender, data)
    m.hooks.update({"breed<": on_bb, "breed>": on_ba,
                    "eval<": look("before evaluation"), "eval>": on_ea,
                    "gen": look("after the generation"),
                    "end": look("at the end")})
    try:
        if cfg.get("wrap"):
            X, y = W.sk_data(cfg)
            W.wrap(algo, cfg).fit(X.copy(), y.copy())
        else:
            algo.evolve()
    except Exception as e:
        if st.failed is None or st.failed[2] not in str(e):
            sim.fail("raised", "evolve() raised %r, injected was %s" % (
                e, st.failed))
            return
        sim.count("failed_runs")
    # whatever happened: nobody lies afterwards
    inds = everybody() + seen
    honest(sim, cfg, inds, "after the run", inds)


def flat(x):
    if x is None:
        return []
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


def run_hist(h, sim):
    import pickle
    from .. import world as W
    cfg = h["cfg"]
    st = W.state("H", cfg, sim)
    ev = W.Ev("H", cfg)
    inds = W.make_creator(cfg).create_individuals(cfg["pop"], cfg["hib"])
    if h.get("hand"):
        inds = [W.Tree(function_set=i.function_set,
                       terminal_set=i.terminal_set if cfg["typed"] else
                       list(i.terminal_set), tree=i.tree,
                       erc_range=i.erc_range, root_type=i.root_type)
                for i in inds]
    for i, c in zip(inds, h["cached"]):
        i.fitness.cache = c
    extra = []

    def evaluated(i):
        return i.fitness.is_fitness_evaluated()

    for i in inds:
        if evaluated(i):
            sim.fail("evaluated", "a created individual is evaluated")
    for n, s in enumerate(h["steps"]):
        if sim.violations:
            return
        k = s["s"]
        where = "step %d (%s)" % (n, k)
        sim.count("op_" + k)
        sel = [inds[j] for j in s.get("who", [])]
        before = {id(i): (evaluated(i), W.genome(i)) for i in inds + extra}
        if k == "eval":
            if s["fail"] is not None:
                st.fail = {st.n + s["fail"]: s["exc"]}
            try:
                for i in sel:
                    if cfg.get("nsga"):
                        i.set_fitness_not_evaluated()
                    ev.evaluate(i, sel)
                    if not evaluated(i):
                        sim.fail("not-evaluated", "%s: individual %d is not "
                                 "evaluated" % (where, i.id))
            except Exception as e:
                if st.failed is None or st.failed[2] not in str(e):
                    raise
                sim.count("eval_failed")
            st.fail = {}
        elif k in ("op", "boom"):
            o = W.make_op(s["op"], cfg, "H") if k == "op" else \
                W.BoomOp("H", st.op_calls, s["half"], s["exc"])
            na = [len(i.applied_operators) for i in sel]
            try:
                o.apply_operator(list(sel))
                for i, a in zip(sel, na):
                    acted = len(i.applied_operators) > a or \
                        before[id(i)][1] != W.genome(i) or \
                        k == "op" and s["op"]["p"] == 1.0
                    if acted and evaluated(i):
                        sim.fail("operated", "%s: %s acted on individual %d, "
                                 "which is still evaluated" % (
                                     where, type(o).__name__, i.id))
                    elif not acted and evaluated(i) != before[id(i)][0]:
                        sim.fail("lost", "%s: an operator that did not act "
                                 "changed the fitness of individual %d" % (
                                     where, i.id))
            except Exception as e:
                if k != "boom" or st.failed is None or \
                        st.failed[2] not in str(e):
                    sim.fail("raised", "%s raised %r" % (where, e))
                    return
                sim.count("operator_failed")
                for i in sel:
                    if evaluated(i):
                        sim.fail("operated", "%s: an operator failed on "
                                 "individual %d, which is still evaluated" % (
                                     where, i.id))
        elif k == "clone":
            c = sel[0].clone()
            cloned(sim, cfg, sel[0], c, where)
            extra.append(inds[s["who"][1]])
            inds[s["who"][1]] = c
        elif k == "pickle":
            c = pickle.loads(pickle.dumps(sel[0])) if s["how"] == "pickle" \
                else copy.deepcopy(sel[0])
            cloned(sim, cfg, sel[0], c, where)
            extra.append(inds[s["who"][0]])
            inds[s["who"][0]] = c
        elif k == "select":
            m = {"tour": lambda: W.GO.TournamentSelection(
                s["t"], higher_is_better=cfg["hib"]),
                "elite": lambda: W.GO.ElitismSelection(
                    s["t"], higher_is_better=cfg["hib"]),
                "fp": lambda: W.GO.FitnessProportionateSelection(
                    higher_is_better=cfg["hib"])}[s["m"]]()
            dest = []
            src = list(inds)
            if s["m"] == "fp" and all(map(evaluated, src)) and any(
                    i.get_augmented_fitness() < 0 for i in src):
                continue
            try:
                m.select(src, dest)
            except ValueError:
                if all(map(evaluated, src)) or cfg.get("nsga") and \
                        all(i.fitness.front_rank == float("inf")
                            for i in src):
                    raise
                sim.count("select_refused")
            else:
                sure = not all(map(evaluated, src)) and not cfg.get("nsga")
                if sure and (s["m"] in ("elite", "fp")):
                    sim.fail("unevaluated", "%s: %s selected among unevaluated"
                             " individuals" % (where, s["m"]))
                for d in dest:
                    f = [i for i in src if i.id == d.cloned_from]
                    if len(f) == 1:
                        cloned(sim, cfg, f[0], d, where)
                if s["keep"] and len(dest) == len(src):
                    extra.extend(inds)
                    inds = dest
        elif k == "edit":
            # a user who changes a genome resets the fitness
            i = sel[0]
            i.set_fitness_not_evaluated()
            if evaluated(i):
                sim.fail("unevaluated", "%s: individual %d is evaluated after "
                         "set_fitness_not_evaluated" % (where, i.id))
        del extra[:-12]
        touched = {id(x) for x in sel}
        if k in ("clone", "pickle", "select", "eval"):
            touched = {id(x) for x in sel} if k == "eval" else set()
        for i in inds + extra:
            b = before.get(id(i))
            if b is not None and id(i) not in touched and \
                    b != (evaluated(i), W.genome(i)):
                sim.fail("bystander", "%s changed individual %d, which it was "
                         "not applied to" % (where, i.id))
        honest(sim, cfg, inds + extra, where, inds)
        sim.log(n, k, [(W.crc(W.genome(i)), evaluated(i)) for i in inds])


def cloned(sim, cfg, src, c, where):
    want = src.fitness.is_fitness_evaluated() and src.fitness.cache
    if c.fitness.is_fitness_evaluated() != want:
        sim.fail("clone", "%s: the copy of an %s individual %s caching is %s" %
                 (where, "evaluated" if src.fitness.is_fitness_evaluated()
                  else "unevaluated", "with" if src.fitness.cache
                  else "without", "evaluated"
                  if c.fitness.is_fitness_evaluated() else "not evaluated"))


def shrinks(scn):
    do = scn["parts"][0]["do"]
    if do["mode"] == "run":
        for key, val in G._smaller(do["cfg"]):
            c = copy.deepcopy(scn)
            t = c["parts"][0]["do"]["cfg"]
            if key == "pop":
                t["elite"] = min(t.get("elite", 0), val)
            t[key] = val
            yield c
        if do.get("fail"):
            c = copy.deepcopy(scn)
            del c["parts"][0]["do"]["fail"]
            yield c
        return
    h = do["h"]
    k = len(h["steps"])
    size = k // 2
    while size:
        for a in range(0, k, size):
            c = copy.deepcopy(scn)
            del c["parts"][0]["do"]["h"]["steps"][a:a + size]
            yield c
        size //= 2
