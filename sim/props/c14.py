"""C14: vectors keep their length, bounds and cell type."""
import copy

from .. import gen as G

TIERS = {"quick": {"runs": 4000}, "thorough": {"runs": 60000}}
RULE = ("Each seed draws an encoding, length, bounds and either a whole "
        "evolution (single- or multi-objective) or one or two interleaved "
        "histories of direct creations, crossovers, mutations with failing "
        "attempts and clones, with extreme random draws; after every step "
        "every vector is checked, and every operator against the cells it may "
        "have changed.")
OWN_SHRINKS = True

MUTS = {"bits": ["bitflip", "nflip", "npoint", "reject", "wild"],
        "ints": ["intn", "int1", "npoint", "reject", "wild"],
        "floats": ["funi1", "funin", "fgauss1", "fgaussn", "npoint", "reject",
                   "wild"]}
for _m in MUTS.values():
    _m.append("pick")


def hist(rng):
    enc = rng.choice(["bits", "ints", "floats"])
    length = rng.choice([1, 2, 3, 3, 4, 5, 8, 13])
    c = {"enc": enc, "len": length, "bounds": G.bounds(rng, enc, length),
         "hib": G.coin(rng), "pop": rng.randrange(2, 6), "typed": False}
    if G.coin(rng, 0.12):
        c["direct"] = True      # built by their own class, default bounds
        c["bounds"] = {"one": {"bits": [0, 1], "ints": [-2 ** 31, 2 ** 31 - 1],
                               "floats": [0.0, 1.0]}[enc]}
    n = c["pop"]
    steps = []
    for _ in range(rng.randrange(1, 25)):
        r = rng.random()
        if r < 0.35 and length >= 2:
            steps.append({"s": "kxo", "who": rng.sample(range(n), 2),
                          "k": rng.randrange(1, length),
                          "apart": G.coin(rng, 0.7)})
        elif r < 0.85:
            m = rng.choice(MUTS[enc])
            a = 1 if rng.random() < 0.75 else 2
            o = {"s": m, "who": rng.sample(range(n), a)}
            o["n"] = rng.randrange(1, length + 1)
            if m in ("nflip", "int1"):
                o["pe"] = rng.choice([0.0, 0.2, 1.0])
            if m in ("fgauss1", "fgaussn"):
                o["sigma"] = rng.choice([0.01, 1.0, 100.0, 1e6])
                o["mu"] = rng.choice([0.0, 0.0, 5.0, -1e6])
            if m in ("fgauss1", "fgaussn", "reject", "wild", "npoint"):
                o["attempts"] = rng.choice([1, 2, 5])
            if m == "pick":
                o["cells"] = sorted(rng.sample(range(length), o["n"]))
                o["attempts"] = rng.choice([1, 2])
            if m in ("reject", "wild"):
                o["fails"] = rng.choice([0, 1, 2, 4, 99])
            steps.append(o)
        elif r < 0.9:
            i = rng.randrange(length)
            steps.append({"s": "api", "who": rng.sample(range(n), 2),
                          "do": rng.choice(["part", "part", "random",
                                            "rebuild", "cell", "get"]),
                          "i": i, "e": rng.randrange(i, length + 1)})
        elif r < 0.96:
            steps.append({"s": "clone", "who": rng.sample(range(n), 2)})
        else:
            steps.append({"s": "new"})
    return {"cfg": c, "steps": steps, "reuse": G.coin(rng)}


def gen(rng, tier, i):
    if i == 0:
        # the recorded finding, see known_findings.json
        return {"parts": [{"sched": {"seed": 0, "policy": "rr",
                                     "trace": False},
                           "do": {"mode": "onepoint"}}]}
    if rng.random() < 0.35:
        c = G.nsga_cfg(rng) if rng.random() < 0.2 else \
            G.cfg(rng, encs=("bits", "ints", "floats"))
        c["gens"] = max(1, c["gens"])
        for o in c["ops"]:
            o["p"] = rng.choice([0.5, 1.0])
        return {"parts": [G.part(rng, {"mode": "run", "cfg": c}, extreme=0.5,
                                 faults=G.env_faults(rng, c))]}
    do = {"mode": "hist", "h": [hist(rng)
                                for _ in range(rng.choice([1, 1, 1, 2]))]}
    return {"parts": [G.part(rng, do, threads=len(do["h"]) > 1,
                             extreme=0.6)]}


def run(part, sim):
    do = part["do"]
    if do["mode"] == "onepoint":
        return onepoint(sim)
    if do["mode"] == "run":
        return run_evo(do["cfg"], sim)
    hs = do["h"]
    if len(hs) == 1:
        return run_hist(hs[0], sim, "")
    ts = [sim.sched.spawn(lambda h=h, j=j: run_hist(h, sim, "user %d: " % j),
                          "user%d" % j) for j, h in enumerate(hs)]
    for t in ts:
        sim.sched.join(t)
        if t.exc is not None:
            raise t.exc


def onepoint(sim):
    from .. import world as W
    v = W.IntVector(W.SimpleFitness(), 8, (0, 1000), vector=[500] * 8)
    W.GO.IntVectorOnePointMutation(
        probability=1.0, probability_for_each=1.0).apply_operator([v])
    ch = [j for j in range(8) if v.vector[j] != 500]
    if len(ch) > 1:
        sim.fail("one-point", "IntVectorOnePointMutation, documented to mutate "
                 "a single cell, changed %d of 8 cells" % len(ch))


def run_evo(cfg, sim):
    from .. import world as W
    algo = W.build(cfg, "A", sim)
    m = W.Monitor("A", cfg, sim).attach(algo)
    st = {"n": 0}

    def look(where):
        def f(sender, data):
            for ind in W.subpop(algo).individuals:
                W.check_vector(sim, cfg, ind, "%s, generation %d" % (
                    where, st["n"]))
                if not ind.check_if_in_bounds():
                    sim.fail("bounds", "%s: %r is said to be out of bounds" % (
                        where, ind.vector))
                sim.count("vectors")
        return f

    def on_gen(sender, data):
        st["n"] += 1
        sim.log([W.crc(W.genome(i)) for i in W.subpop(algo).individuals])
    m.hooks.update({"eval<": look("before evaluation"),
                    "breed>": look("after breeding"),
                    "eval>": look("after evaluation"), "gen": on_gen})
    W.start(sim, algo, cfg)


class Reject:
    """A user's success checker that turns down the first attempts."""

    def __init__(self, n):
        self.n = n

    def __call__(self, old, new):
        self.n -= 1
        return self.n < 0 and new.check_if_in_bounds()


class Wild:
    """A user's value getter that leaves the bounds at first."""

    def __init__(self, n):
        self.n = n

    def __call__(self, vec, j):
        self.n -= 1
        lo, hi = vec.bounds if isinstance(vec.bounds, tuple) else \
            vec.bounds[j]
        return (hi + 1 if self.n % 2 else lo - 1) if self.n >= 0 else \
            vec.get_random_number_in_bounds(j)


def by_hand(st, a, b, uniform, sim, where):
    """A user's own operator, written with the methods of vectors."""
    x, y = list(a.vector), list(b.vector)
    i, e, L = st["i"], st["e"], len(x)
    k = st["do"]
    if k == "random" and not uniform:
        k = "part"
    wx, wy = x, y           # the vectors that are right afterwards
    if k == "get":
        got = [a.get_vector(), a.execute(), [a.cell_value(j)
                                             for j in range(a.size())]]
        if any(g != x for g in got) or a.get_vector_part(i, e) != x[i:e] or \
                a.length != L:
            sim.fail("api", "%s: reads of %r give %r" % (where, x, got))
    elif k == "part":
        part = a.get_vector_part(i, e)
        old = b.replace_vector_part(part, i)
        wy = y[:i] + x[i:e] + y[e:]
        if old != y[i:e] or part != x[i:e]:
            sim.fail("api", "%s: exchanged %r for %r, cells %d to %d of %r "
                     "and %r" % (where, part, old, i, e, x, y))
    elif k == "random":
        part = a.random_vector_part()
        if not part or not any(x[j:j + len(part)] == part for j in range(L)):
            sim.fail("api", "%s: %r is no part of %r" % (where, part, x))
            return
        given = list(part)
        old = b.replace_vector_part_random(part)
        wy = None
        if len(old) != len(given) or not any(
                b.vector == y[:j] + given + y[j + len(given):] and
                old == y[j:j + len(given)] for j in range(L)):
            sim.fail("api", "%s: %r put into %r gave %r and returned %r" % (
                where, given, y, b.vector, old))
    elif k == "cell":
        c = min(i, L - 1)
        b.set_cell_value(c, a.cell_value(c))
        wy = y[:c] + [x[c]] + y[c + 1:]
    elif k == "rebuild":
        a.empty_vector()
        if a.size() or a.length:
            sim.fail("api", "%s: an emptied vector has size %r" % (
                where, a.size()))
        for v in y:
            a.add_cell(v)
        wx = y
    if a.vector != wx or (wy is not None and b.vector != wy):
        sim.fail("api", "%s (%s) of %r and %r left %r and %r" % (
            where, k, x, y, a.vector, b.vector))


def make(st, sel, W, cfg):
    k, a = st["s"], len(sel)
    GO = W.GO
    if k == "kxo":
        return GO.VectorKPointsCrossover(k=st["k"])
    if k == "bitflip":
        return GO.BitStringVectorFlipMutation(arity=a)
    if k == "nflip":
        return GO.BitStringVectorNFlipMutation(
            arity=a, probability_for_each=st["pe"], n=st["n"])
    if k == "int1":
        return GO.IntVectorOnePointMutation(probability=1.0, arity=a,
                                            probability_for_each=st["pe"])
    if k == "intn":
        return GO.IntVectorNPointMutation(arity=a, n=st["n"])
    if k == "funi1":
        return GO.FloatVectorUniformOnePointMutation(arity=a)
    if k == "funin":
        return GO.FloatVectorUniformNPointMutation(arity=a, n=st["n"])
    if k == "fgauss1":
        return GO.FloatVectorGaussOnePointMutation(
            arity=a, mu=st["mu"], sigma=st["sigma"], attempts=st["attempts"])
    if k == "fgaussn":
        return GO.FloatVectorGaussNPointMutation(
            n=st["n"], arity=a, mu=st["mu"], sigma=st["sigma"],
            attempts=st["attempts"])
    kw = {}
    if k == "reject":
        kw["success_checker"] = Reject(st["fails"])
    if k == "wild":
        kw["mut_val_getter"] = Wild(st["fails"])
    if k == "pick":
        kw["cell_selector"] = lambda vec: list(st["cells"])
    return GO.VectorNPointMutation(n=st["n"], arity=a,
                                   attempts=st["attempts"], **kw)


def run_hist(h, sim, who):
    from .. import world as W
    cfg = h["cfg"]
    creator = W.make_creator(cfg)
    L = cfg["len"]
    b = cfg["bounds"]

    def bnd(j):
        return b["one"] if "one" in b else b["per"][j]

    def create():
        if cfg.get("direct"):
            out = []
            for _ in range(cfg["pop"]):
                v = W.VEC[cfg["enc"]](W.SimpleFitness(
                    higher_is_better=cfg["hib"]), L)
                v.set_vector([v.get_random_number_in_bounds(j)
                              for j in range(L)])
                out.append(v)
            return out
        out = creator.create_individuals(cfg["pop"], cfg["hib"])
        if len(out) != cfg["pop"]:
            sim.fail("count", "%d vectors created, %d asked for" % (
                len(out), cfg["pop"]))
        return out

    inds = create()
    for i in inds:
        W.check_vector(sim, cfg, i, who + "created")
    ops = {}
    for n, st in enumerate(h["steps"]):
        if sim.violations:
            return
        k = st["s"]
        where = "%sstep %d (%s)" % (who, n, k)
        sim.count("op_" + k)
        if k == "new":
            inds = create()
            for i in inds:
                W.check_vector(sim, cfg, i, where)
            continue
        sel = [inds[j] for j in st["who"]]
        if k == "clone":
            c = inds[st["who"][1]] = sel[0].clone()
            if c.vector != sel[0].vector or c.vector is sel[0].vector:
                sim.fail("clone", "%s: clone %r of %r" % (where, c.vector,
                                                          sel[0].vector))
            continue
        if k == "api":
            rest = [(i, list(i.vector)) for i in inds
                    if all(i is not s for s in sel)]
            sim.point()
            by_hand(st, sel[0], sel[1], "one" in b, sim, where)
            for i in sel:
                W.check_vector(sim, cfg, i, where)
            for i, g in rest:
                if i.vector != g:
                    sim.fail("bystander", "%s changed a vector it was not "
                             "applied to" % where)
            sim.log(n, k, [list(i.vector) for i in sel])
            continue
        if k == "kxo" and st["apart"]:
            for v, side in zip(sel, (0, 1)):
                v.set_vector([bnd(j)[side] for j in range(L)])
        old = [list(i.vector) for i in sel]
        rest = [(i, list(i.vector)) for i in inds
                if all(i is not s for s in sel)]
        key = repr(sorted((a, v) for a, v in st.items() if a != "who")) + \
            str(len(sel))
        if not h["reuse"] or key not in ops or k in ("reject", "wild"):
            ops[key] = make(st, sel, W, cfg)
        sim.point()
        try:
            res = ops[key].apply_operator(list(sel))
        except Exception as e:
            sim.fail("raised", "%s on %r raised %r" % (where, old, e))
            return
        if not isinstance(res, list) or len(res) != len(sel) or any(
                x is not y for x, y in zip(res, sel)):
            sim.fail("result", "%s does not return its operands" % where)
            return
        for i in sel:
            W.check_vector(sim, cfg, i, where)
        for i, g in rest:
            if i.vector != g:
                sim.fail("bystander", "%s changed a vector it was not applied "
                         "to" % where)
        if sim.violations:
            return
        new = [list(i.vector) for i in sel]
        sim.log(n, k, new)
        if k == "kxo":
            src = []
            for j in range(L):
                a, c = old[0][j], old[1][j]
                x, y = new[0][j], new[1][j]
                if not ((x, y) == (a, c) or (x, y) == (c, a)):
                    sim.fail("crossover", "%s: position %d of %r and %r became"
                             " %r and %r" % (where, j, a, c, x, y))
                    return
                if a != c:
                    src.append(0 if x == a else 1)
            cuts = sum(p != q for p, q in zip(src, src[1:]))
            if cuts > st["k"] or (len(src) == L and cuts != st["k"]):
                sim.fail("crossover", "%s: %r and %r became %r and %r, which "
                         "alternates at %d points, k=%d" % (
                             where, old[0], old[1], new[0], new[1], cuts,
                             st["k"]))
            continue
        limit = {"bitflip": 1, "funi1": 1, "fgauss1": 1, "int1": L}.get(
            k, st["n"])
        for o, v in zip(old, new):
            ch = sum(x != y for x, y in zip(o, v))
            if ch > limit:
                sim.fail("too-many", "%s changed %d cells of %r to %r, n=%d" % (
                    where, ch, o, v, limit))
            if k == "pick" and any(x != y for j, (x, y) in enumerate(
                    zip(o, v)) if j not in st["cells"]):
                sim.fail("too-many", "%s changed other cells than %r of %r "
                         "to %r" % (where, st["cells"], o, v))
            if k == "bitflip" and ch != 1:
                sim.fail("bit-flip", "%s flipped %d bits of %r" % (
                    where, ch, o))
            if k == "nflip" and st["pe"] == 1.0 and ch != st["n"]:
                sim.fail("bit-flip", "%s flipped %d bits of %r, not %d" % (
                    where, ch, o, st["n"]))
            if k == "reject" and st["fails"] >= st["attempts"] * len(sel) and \
                    ch:
                sim.fail("failed-op", "%s failed and changed %r to %r" % (
                    where, o, v))


def shrinks(scn):
    do = scn["parts"][0]["do"]
    if do["mode"] == "onepoint":
        return
    if do["mode"] == "run":
        for key, val in G._smaller(do["cfg"]):
            c = copy.deepcopy(scn)
            t = c["parts"][0]["do"]["cfg"]
            if key == "pop":
                t["elite"] = min(t.get("elite", 0), val)
            t[key] = val
            yield c
        return
    hs = do["h"]
    for j, h in enumerate(hs):
        if len(hs) > 1:
            c = copy.deepcopy(scn)
            del c["parts"][0]["do"]["h"][j]
            yield c
        k = len(h["steps"])
        size = k // 2
        while size:
            for a in range(0, k, size):
                c = copy.deepcopy(scn)
                del c["parts"][0]["do"]["h"][j]["steps"][a:a + size]
                yield c
            size //= 2
