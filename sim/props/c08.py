"""C08: breeding conserves size and never shares or corrupts individuals."""
from .. import gen as G

TIERS = {"quick": {"runs": 2000}, "thorough": {"runs": 30000}}
RULE = ("Each seed draws a configuration, a schedule and random draws (or "
        "several threads creating, cloning and evolving individuals at once) "
        "and checks size, identifiers, aliasing, clone sources and the "
        "previous generation at every breeding, evaluation and generation.")


def gen(rng, tier, i):
    k = rng.random()
    if k < 0.22:
        ths = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            c = G.cfg(rng)
            c["pop"] = max(c["pop"], 4)
            G.cap(c)
            ths.append({"cfg": c, "n": rng.randrange(1, 8),
                        "evolve": G.coin(rng, 0.25)})
            c["gens"] = min(c["gens"], 2)
        p = G.part(rng, {"mode": "threads", "threads": ths}, extreme=0)
        p["sched"].update(policy="rand", p=rng.choice([0.05, 0.2, 0.5]),
                          opcodes=G.coin(rng, 0.6))
        return {"parts": [p]}
    if k < 0.36:
        c = G.nsga_cfg(rng)
    elif k < 0.42:
        c = G.sk_cfg(rng)
    else:
        c = G.cfg(rng)
        if G.coin(rng, 0.2):
            c["own_breeder"] = True
    c["gens"] = max(c["gens"], 1)
    return {"parts": [G.part(rng, {"mode": "run", "cfg": c}, extreme=0.4,
                             faults=G.env_faults(rng, c))]}


def run(part, sim):
    if part["do"]["mode"] == "threads":
        return run_threads(part, sim)
    from .. import world as W
    cfg = part["do"]["cfg"]
    nsga = cfg.get("nsga")
    algo = W.build(cfg, "A", sim)
    m = W.Monitor("A", cfg, sim).attach(algo)
    used = set()        # ids of all individuals seen
    keep = []           # generations, kept alive
    prev = []           # [(individual, snapshot)] of the last generations

    def size(where, n):
        inds = W.subpop(algo).individuals
        if len(inds) != n:
            sim.fail("size", "%s: %d individuals, configured %d" % (
                where, len(inds), n))
        if len({id(i) for i in inds}) != len(inds):
            sim.fail("duplicate", "%s: an individual occurs twice" % where)
        ids = [i.id for i in inds]
        if len(set(ids)) != len(ids):
            sim.fail("id", "%s: identifiers %s are not distinct" % (
                where, ids))

    def alias(where):
        owner = {}
        inds = W.subpop(algo).individuals
        older = [i for g in keep for i in g] if not nsga else []
        seen = set()
        for ind in list(inds) + older:
            if id(ind) in seen:
                continue
            seen.add(id(ind))
            for name, obj in W.mutable_parts(ind):
                o = owner.get(id(obj))
                if o is not None and o[0] is not ind:
                    sim.fail("shared", "%s: individuals %d and %d share %s "
                             "(%s): %r" % (where, o[0].id, ind.id, name, o[1],
                                           obj))
                    return
                owner[id(obj)] = (ind, name, obj)
        sim.count("alias_checks")

    def unchanged(where):
        for ind, sn in prev:
            if W.snap(ind) != sn:
                sim.fail("previous-changed", "%s: individual %d of an earlier "
                         "generation changed: %s -> %s" % (
                             where, ind.id, sn, W.snap(ind)))
                return

    def fresh(where):
        for i in W.subpop(algo).individuals:
            if i.id in used:
                sim.fail("id", "%s: identifier %d was used before" % (
                    where, i.id))
                return
            used.add(i.id)

    def on_bb(sender, data):
        inds = W.subpop(algo).individuals
        keep.append(list(inds))
        prev[:] = [(i, W.snap(i)) for i in inds] if not nsga else []

    def on_ba(sender, data):
        where = "after breeding %d" % len(keep)
        size(where, cfg["pop"] * (2 if nsga else 1))
        if not nsga:
            unchanged(where)
            fresh(where)
            src = {i.id for i in keep[-1]}
            for i in W.subpop(algo).individuals:
                if i.cloned_from not in src:
                    sim.fail("clone-source", "%s: individual %d was cloned "
                             "from %r, which is not in the generation it was "
                             "bred from %s" % (where, i.id, i.cloned_from,
                                               sorted(src)))
                    break
        alias(where)

    def on_ea(sender, data):
        where = "after evaluation %d" % len(keep)
        size(where, cfg["pop"] * (2 if nsga and keep else 1))
        if not keep:
            fresh(where)
            alias(where)
        unchanged(where)

    def on_gen(sender, data):
        where = "generation %d" % len(keep)
        size(where, cfg["pop"])
        unchanged(where)
        if nsga:
            alias(where)
        sim.log(where, [i.id for i in W.subpop(algo).individuals])
        sim.count("generations")

    m.hooks.update({"breed<": on_bb, "breed>": on_ba, "eval>": on_ea,
                    "gen": on_gen})
    W.start(sim, algo, cfg)


def run_threads(part, sim):
    from .. import world as W
    s = sim.sched
    made = []

    def worker(k, spec):
        cfg = spec["cfg"]

        def go():
            cr = W.make_creator(cfg)
            mine = []
            for j in range(spec["n"]):
                if mine and j % 2:
                    mine.append(mine[-1].clone())
                else:
                    n = cfg["pop"] if cfg.get("creator") == "half" else 1
                    mine.extend(cr.create_individuals(n, cfg["hib"]))
            made.extend((k, i) for i in mine)
            if spec["evolve"]:
                a = algos[k]
                m = mons[k]
                m.hooks["eval>"] = lambda *_: made.extend(
                    (k, i) for i in W.subpop(a).individuals)
                W.run_evolve(sim, a)
        return go
    algos, mons = {}, {}
    for k, spec in enumerate(part["do"]["threads"]):
        if spec["evolve"]:
            algos[k] = W.build(spec["cfg"], "T%d" % k, sim)
            mons[k] = W.Monitor("T%d" % k, spec["cfg"], sim).attach(algos[k])
    ts = [s.spawn(worker(k, spec), "user%d" % k)
          for k, spec in enumerate(part["do"]["threads"])]
    for t in ts:
        s.join(t)
        if t.exc is not None:
            sim.fail("raised", "creating individuals raised %r" % t.exc)
    seen = {}
    for k, i in made:
        o = seen.get(i.id)
        if o is not None and o[1] is not i:
            sim.fail("id", "threads %d and %d created different individuals "
                     "with the identifier %d" % (o[0], k, i.id))
            break
        seen[i.id] = (k, i)
    sim.log(sorted(seen))
    sim.count("concurrently_created", len(seen))
