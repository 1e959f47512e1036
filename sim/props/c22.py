"""C22: the lineage an individual carries is what happened to it."""
import copy

from .. import gen as G

TIERS = {"quick": {"runs": 3000}, "thorough": {"runs": 40000}}
RULE = ("Each seed draws a whole evolution (configuration, pool, schedule, "
        "extreme draws, stalls) or a history of direct "
        "operators, some of them raising, clones, selections, creations and "
        "serialisations; an independent ledger of these events is compared "
        "with the generation number, clone source, selections, operators and "
        "parents of every individual after every step.")
OWN_SHRINKS = True


def hist(rng):
    c = G.cfg(rng)
    if c["enc"] == "tree" and c["creator"] == "half":
        c["creator"] = "grow"
    c["pop"] = rng.randrange(2, 8)
    c["neg"] = False
    if c["hib"]:
        c["bloat"] = 0.0
    n = c["pop"]
    steps = []
    for _ in range(rng.randrange(2, 25)):
        r = rng.random()
        w = lambda k: rng.sample(range(n), min(k, n))   # noqa
        if r < 0.45:
            o = dict(rng.choice(c["ops"] if G.coin(rng, 0.5) else (
                G.tree_ops(rng, c["typed"]) if c["enc"] == "tree" else
                G.vec_ops(rng, c["enc"], c["len"]))))
            if G.coin(rng, 0.5):
                o["p"] = 1.0
            steps.append({"s": "op", "op": o, "who": w(G.arity(o)),
                          "act": G.coin(rng, 0.3), "again": G.coin(rng, 0.3)})
        elif r < 0.52:
            steps.append({"s": "boom", "half": G.coin(rng, 0.7),
                          "exc": rng.choice(["boom", "value", "memory"]),
                          "who": w(1)})
        elif r < 0.57:
            steps.append({"s": "swap", "who": w(rng.choice([1, 2])),
                          "act": G.coin(rng, 0.3)})
        elif r < 0.7:
            steps.append({"s": "clone", "who": w(2)})
        elif r < 0.8:
            steps.append({"s": "pickle", "who": w(1),
                          "how": rng.choice(["pickle", "deepcopy"])})
        elif r < 0.95:
            steps.append({"s": "select", "m": rng.choice(
                ["tour", "elite", "fp"]), "t": rng.randrange(1, 4),
                "keep": G.coin(rng, 0.7), "act": G.coin(rng, 0.3),
                "gen": rng.choice([None, 3, 17])})
        else:
            steps.append({"s": "create", "who": w(1)})
    return {"cfg": c, "steps": steps}


def gen(rng, tier, i):
    k = rng.random()
    if k < 0.55:
        c = G.sk_cfg(rng) if k < 0.05 else G.nsga_cfg(rng) if k < 0.1 \
            else G.cfg(rng)
        c["gens"] = max(1, c["gens"])
        if G.coin(rng, 0.6):
            c["parents"] = True
        if G.coin(rng, 0.2) and not c.get("nsga"):
            c["own_breeder"] = True
        return {"parts": [G.part(rng, {"mode": "run", "cfg": c},
                                 extreme=0.3, faults=G.env_faults(rng, c))]}
    return {"parts": [G.part(rng, {"mode": "hist", "h": hist(rng)},
                             threads=False, extreme=0.3)]}


def run(part, sim):
    do = part["do"]
    if do["mode"] == "run":
        return run_evo(do, sim)
    return run_hist(do["h"], sim)


# operators that other operators create and apply themselves
NESTED = ("FloatVectorUniformOnePointMutation",
          "FloatVectorUniformNPointMutation")


class Ledger:
    """What operators were given and returned."""

    def __init__(self):
        self.acts = []      # [(operator, operands, ids, results)]
        self.seen = set()

    def _note(self, op, real, individuals):
        given = list(individuals)
        ids = [i.id for i in given]
        out = real(individuals)
        self.acts.append((type(op).__name__, given, ids, list(out)))
        return out

    def watch(self, op):
        if id(op) not in self.seen:
            self.seen.add(id(op))
            real = op.apply
            op.apply = lambda individuals: self._note(op, real, individuals)
        return op

    def __enter__(self):
        from .. import world as W
        self.real = []

        def nested(cls, real):
            def apply(op, individuals):
                if id(op) in self.seen:
                    return real(op, individuals)
                return self._note(op, lambda x: real(op, x), individuals)
            return apply
        for name in NESTED:
            cls = getattr(W.GO, name)
            self.real.append((cls, cls.__dict__.get("apply")))
            cls.apply = nested(cls, cls.apply)
        return self

    def __exit__(self, *exc):
        for cls, real in self.real:
            if real is None:
                del cls.apply
            else:
                cls.apply = real

    def of(self, ind):
        names, parents = [], []
        for name, given, ids, out in self.acts:
            for r in out:
                if r is ind:
                    names.append(name)
                    parents.extend(ids)
        return names, parents


def line(i):
    return {"gen": i.gen, "cloned_from": i.cloned_from,
            "selected_by": list(i.selected_by),
            "applied_operators": list(i.applied_operators),
            "parents": list(i.parents) if i.update_parents else None}


def told(sim, i, want, where):
    got = line(i)
    for k, v in want.items():
        if got[k] != v:
            sim.fail("lineage", "%s: individual %d says %s = %r, should be %r"
                     % (where, i.id, k, got[k], v))
            return False
    sim.count("lineages")
    return True


def run_evo(do, sim):
    from .. import world as W
    cfg = do["cfg"]
    nsga = cfg.get("nsga")
    algo = W.build(cfg, "A", sim)
    m = W.Monitor("A", cfg, sim).attach(algo)
    led = Ledger()
    for op in W.subpop(algo).get_operators_sequence():
        led.watch(op)
    sel = type(W.subpop(algo).get_selection_methods()[0][0]).__name__
    # the ramped creator has no such option
    half = cfg.get("creator") == "half" or (cfg.get("creators") or 1) > 1
    up = bool(cfg.get("parents"))
    k = W.subpop(algo).n_elite
    st = {"g": 0, "prev": None, "init": False}

    def on_ea(sender, data):
        if st["prev"] is not None:
            return
        if st["init"]:
            sim.fail("order", "evaluated again before any generation")
        st["init"] = True
        if cfg.get("given"):
            return
        for i in W.subpop(algo).individuals:
            if not half and i.update_parents != up:
                sim.fail("parents", "individual %d is %skeeping its parents"
                         % (i.id, "" if i.update_parents else "not "))
                return
            if not told(sim, i, {
                    "gen": 0, "cloned_from": -1, "selected_by": [],
                    "applied_operators": [],
                    "parents": [] if i.update_parents else None}, "initial population"):
                return

    def on_bb(sender, data):
        st["g"] += 1
        led.acts.clear()
        st["prev"] = [(i, i.id, W.genome(i))
                      for i in W.subpop(algo).individuals]

    def on_ba(sender, data):
        if nsga or sim.violations:
            return
        where = "after breeding generation %d" % st["g"]
        src = {i: g for _, i, g in st["prev"]}
        elites = 0
        for i in W.subpop(algo).individuals:
            ops, par = led.of(i)
            if i.cloned_from not in src:
                sim.fail("lineage", "%s: individual %d is a clone of %r, "
                         "which is not in the generation before" % (
                             where, i.id, i.cloned_from))
                return
            elite = list(i.selected_by) == ["ElitismSelection"]
            elites += elite
            if not told(sim, i, {
                    "selected_by": ["ElitismSelection" if elite else sel],
                    "applied_operators": ops,
                    "parents": par if i.update_parents else None}, where):
                return
            if not cfg.get("given") and not half and i.update_parents != up:
                sim.fail("parents", "%s: individual %d is %skeeping its "
                         "parents" % (where, i.id,
                                      "" if i.update_parents else "not "))
                return
            if not i.applied_operators and W.genome(i) != src[i.cloned_from]:
                sim.fail("lineage", "%s: individual %d names no operator, but "
                         "its genome %s is not that of the individual %d it "
                         "was cloned from: %s" % (
                             where, i.id, str(W.genome(i))[:300],
                             i.cloned_from, str(src[i.cloned_from])[:300]))
                return
        if elites != k:
            sim.fail("lineage", "%s: %d individuals say elitism selected them,"
                     " %d elites are configured" % (where, elites, k))

    def on_gen(sender, data):
        g = data["generation_num"]
        for i in W.subpop(algo).individuals:
            if i.gen != g:
                sim.fail("lineage", "after generation %d individual %d says "
                         "it belongs to generation %r" % (g, i.id, i.gen))
                return
        sim.log(g, [sorted(map(str, line(i).items()))
                    for i in W.subpop(algo).individuals] if not nsga else 0)
        sim.count("generations")
    m.hooks.update({"eval>": on_ea, "breed<": on_bb, "breed>": on_ba,
                    "gen": on_gen})
    with led:
        W.start(sim, algo, cfg)


def run_hist(h, sim):
    import pickle
    from .. import world as W
    cfg = h["cfg"]
    st = W.state("H", cfg, sim)
    ev = W.Ev("H", cfg)
    up = bool(cfg.get("parents"))
    book = {}           # id(individual) -> (individual, its lineage)

    def enter(i, **kw):
        book[id(i)] = (i, dict({
            "gen": 0, "cloned_from": -1, "selected_by": [],
            "applied_operators": [], "parents": [] if up else None}, **kw))

    def create():
        out = W.make_creator(cfg).create_individuals(cfg["pop"], cfg["hib"])
        for i in out:
            enter(i)
        return out

    inds = create()

    class Swap(W.GO.GeneticOperator):
        """A user's operator that returns new individuals."""
        def apply(self, individuals):
            out = [i.clone() for i in individuals]
            for i, c in zip(individuals, out):
                enter(c, gen=i.gen, cloned_from=i.id)
            return out

    for n, s in enumerate(h["steps"]):
        k = s["s"]
        where = "step %d (%s)" % (n, k)
        sim.count("op_" + k)
        who = [j for j in s.get("who", []) if j < len(inds)]
        sel = [inds[j] for j in who]
        if k in ("op", "boom", "swap"):
            if k == "op":
                o = W.make_op(s["op"], cfg, "H")
                if len(sel) != G.arity(s["op"]):
                    continue
            elif k == "boom":
                o = W.BoomOp("H", st.op_calls, s["half"], s["exc"])
            else:
                o = Swap(probability=1.0, arity=len(sel))
            led = Ledger()
            led.watch(o)
            for _ in range(2 if s.get("again") else 1):
                led.acts.clear()
                try:
                    with led:
                        out = (o.act if s.get("act") else o.apply_operator)(
                            list(sel))
                except Exception as e:
                    if k != "boom" or st.failed is None or \
                            st.failed[2] not in str(e):
                        sim.fail("raised", "%s: %s raised %r" % (
                            where, type(o).__name__, e))
                        return
                    sim.count("operator_failed")
                    break
                for name, given, ids, res in led.acts:
                    for r in res:
                        b = book[id(r)][1]
                        b["applied_operators"].append(name)
                        if b["parents"] is not None:
                            b["parents"].extend(ids)
                    sim.count("acted")
                if len(out) == len(sel):
                    for j, r in zip(who, out):
                        inds[j] = r
                    sel = list(out)
        elif k == "clone":
            c = sel[0].clone()
            enter(c, gen=sel[0].gen, cloned_from=sel[0].id)
            inds[who[-1]] = c
        elif k == "pickle":
            c = pickle.loads(pickle.dumps(sel[0])) if s["how"] == "pickle" \
                else copy.deepcopy(sel[0])
            if c.id != sel[0].id:
                sim.fail("lineage", "%s: the copy of individual %d has the "
                         "identifier %d" % (where, sel[0].id, c.id))
                return
            book[id(c)] = (c, copy.deepcopy(book[id(sel[0])][1]))
            inds[who[0]] = c
        elif k == "select":
            for i in inds:
                if not i.fitness.is_fitness_evaluated():
                    ev.evaluate(i, inds)
                if s["gen"] is not None:
                    i.gen = s["gen"]
                    book[id(i)][1]["gen"] = s["gen"]
            if s["m"] == "fp" and any(
                    i.get_augmented_fitness() < 0 for i in inds):
                continue
            m = {"tour": lambda: W.GO.TournamentSelection(
                s["t"], higher_is_better=cfg["hib"]),
                "elite": lambda: W.GO.ElitismSelection(
                    s["t"], higher_is_better=cfg["hib"]),
                "fp": lambda: W.GO.FitnessProportionateSelection(
                    higher_is_better=cfg["hib"])}[s["m"]]()
            src = list(inds)
            dest = []
            if s["act"]:
                m.apply_operator((src, dest))
            else:
                m.select(src, dest)
            ids = {}
            for i in src:
                ids.setdefault(i.id, i)
            for d in dest:
                if d.cloned_from not in ids:
                    sim.fail("lineage", "%s: individual %d is a clone of %r, "
                             "which is not among the candidates" % (
                                 where, d.id, d.cloned_from))
                    return
                enter(d, gen=ids[d.cloned_from].gen,
                      cloned_from=d.cloned_from,
                      selected_by=[type(m).__name__])
            if s["keep"] and len(dest) == len(src):
                inds = dest
        elif k == "create":
            inds[who[0]] = create()[0]
        for i, want in list(book.values()):
            if not told(sim, i, want, where):
                return
        sim.log(n, k, [sorted(map(str, line(i).items())) for i in inds])
        if len(book) > 60:
            live = {id(i) for i in inds}
            for b in [b for b in book if b not in live][:-20]:
                del book[b]


def shrinks(scn):
    do = scn["parts"][0]["do"]
    if do["mode"] == "run":
        for key, val in G._smaller(do["cfg"]):
            c = copy.deepcopy(scn)
            t = c["parts"][0]["do"]["cfg"]
            if key == "pop":
                t["elite"] = min(t.get("elite", 0), val)
            t[key] = val
            yield c
        return
    k = len(do["h"]["steps"])
    size = k // 2
    while size:
        for a in range(0, k, size):
            c = copy.deepcopy(scn)
            del c["parts"][0]["do"]["h"]["steps"][a:a + size]
            yield c
        size //= 2
