"""C21: random choices follow their configured probabilities and reach all."""
import copy
import math

from .. import gen as G

TIERS = {"quick": {"runs": 1000}, "thorough": {"runs": 8000}}
RULE = ("Each seed draws one kind of random choice (application of an "
        "operator, tournament, proportionate selection, creator, cut points, "
        "mutated cells, new values, Gaussian noise, nodes of fresh trees, "
        "replaced subtrees, whole breedings of simulated runs), its "
        "configuration and the seed of the generators, and repeats it "
        "thousands of times; every observed frequency is compared with the "
        "configured one by its exact large-deviation bound, so that chance "
        "alone is ruled out as an explanation (less than 1e-12 each).")

# a frequency is refused when chance reaches it less often than exp(-LIMIT)
LIMIT = 34.0

BINARY = ["f_add", "f_sub", "f_mul", "f_div", "f_max", "f_min"]
PS = [0.0, 0.02, 0.1, 0.25, 0.5, 0.75, 0.9, 0.98, 1.0]


def gen(rng, tier, i):
    st = STATIONS[i % len(STATIONS)]
    do = {"st": st, "rs": rng.randrange(2 ** 31),
          "n": {"quick": 6000, "thorough": 20000}[tier]}
    enc = rng.choice(["bits", "ints", "floats"])
    if st in ("op", "pairs"):
        k = rng.choice(["ident", "vec", "vec", "vec", "tree", "tree"])
        c = {"hib": G.coin(rng), "pop": 2, "typed": False}
        if k == "tree":
            c.update(G.tree_cfg(rng))
            c["enc"] = "tree"
            c["creator"] = "full"
            c["depth"] = [1, 2]
            o = rng.choice([{"op": "sxo", "attempts": 1},
                            {"op": "smut", "attempts": 1, "depth": [0, 1]},
                            {"op": "erc"}])
            do["n"] //= 2
        else:
            length = rng.choice([2, 3, 5])
            c.update(enc=enc, len=length, bounds=G.bounds(rng, enc, length))
            o = {"op": "ident"}
            if k == "vec":
                o = rng.choice([{"op": "kxo", "k": 1}] + [
                    {"op": m, "n": 1, "pe": 0.5, "attempts": rng.choice([1, 2, 5]),
                     "sigma": rng.choice([0.1, 1e5])}
                    for m in {"bits": ["bitflip", "nflip", "npoint"],
                              "ints": ["intn", "int1", "npoint"],
                              "floats": ["funi1", "funin", "fgauss1",
                                         "fgaussn", "npoint"]}[enc]])
        o["p"] = rng.choice(PS) if G.coin(rng, 0.7) else rng.random()
        if o["op"] not in ("ident", "kxo", "smut") and G.coin(rng, 0.4):
            o["ar"] = rng.choice([3, 4] if o["op"] == "sxo" else [2, 3, 3])
        do.update(cfg=c, op=o)
    elif st == "tour":
        m = rng.choice([2, 3, 5, 8, 12])
        rep = G.coin(rng)
        t = rng.choice([1, 2, 3, m]) if rep else rng.randrange(1, m + 1)
        do.update(m=m, t=t, rep=rep, hib=G.coin(rng), pre=G.coin(rng, 0.2),
                  neg=G.coin(rng))
    elif st == "fp":
        m = rng.choice([2, 3, 5, 8])
        do.update(m=m, hib=G.coin(rng), zero=G.coin(rng, 0.3),
                  big=G.coin(rng, 0.2), shuffle=rng.randrange(10 ** 6))
    elif st == "pcr":
        k = rng.choice([1, 2, 3, 4])
        do.update(k=k, pcr=rng.choice([None, {
            1: [1.0], 2: [0.25, 0.75], 3: [0.5, 0.125, 0.375],
            4: [0.0, 0.5, 0.25, 0.25]}[k], {
            1: [1.0], 2: [1.0, 0.0], 3: [0.25, 0.5, 0.25],
            4: [0.0625, 0.0625, 0.125, 0.75]}[k]]))
        if G.coin(rng, 0.4):    # which sum to one but for rounding
            do.update(k=rng.choice([5, 6, 7, 10, 11]), pcr=None)
        elif G.coin(rng, 0.4):
            do["pcr"] = rng.choice([[0.7, 0.2, 0.1], [0.1] * 10, [0.6, 0.4],
                                    [0.01, 0.3, 0.69], [0.02, 0.69, 0.29],
                                    [0.41, 0.58, 0.01]])
            do["k"] = len(do["pcr"])
    elif st == "cuts":
        length = rng.choice([2, 3, 4, 5, 7, 10, 15])
        do.update(enc=enc, len=length, k=rng.randrange(1, length))
    elif st == "cells":
        length = rng.choice([1, 2, 3, 5, 8])
        m = rng.choice({"bits": ["bitflip", "nflip", "nflip", "npoint"],
                        "ints": ["intn", "int1", "npoint"],
                        "floats": ["funi1", "funin", "fgauss1", "fgaussn",
                                   "npoint"]}[enc])
        do.update(enc=enc, len=length, op={
            "op": m, "n": rng.randrange(1, length + 1), "p": 1.0,
            "pe": rng.choice([0.0, 0.2, 0.5, 1.0]), "sigma": 1.0,
            "attempts": 1}, pair=G.coin(rng, 0.3), per=G.coin(rng))
    elif st == "values":
        length = rng.choice([1, 2, 3, 4])
        lo = rng.choice([0, -3, 5, -1000, 7])
        w = rng.choice([0, 1, 2, 4, 9])
        if enc == "floats":
            lo, w = rng.choice([[0.0, 1.0], [-5.0, 10.0], [100.0, 0.5],
                                [-1e6, 1e3], [-3.0, 3.0]])
        b = [[lo + 20 * j, lo + 20 * j + w] for j in range(length)]
        if enc == "bits":
            b = [[0, 1]] * length
        do.update(enc=enc, len=length, bounds={"per": b} if G.coin(rng)
                  else {"one": b[0]}, how=rng.choice(
                      ["create", "create", "npoint",
                       {"bits": "npoint", "ints": "intn",
                        "floats": "funin"}[enc],
                       {"bits": "create", "ints": "intn",
                        "floats": "funi1"}[enc]]))
        do["n"] //= 2
    elif st == "gauss":
        length = rng.choice([1, 2, 4])
        do.update(len=length, which=rng.choice(["fgauss1", "fgaussn", "erc",
                                                "erci"]),
                  nn=rng.randrange(1, length + 1),
                  mu=rng.choice([0.0, 0.0, 3.0, -40.0]),
                  sigma=rng.choice([0.01, 1.0, 25.0]))
        if do["which"] == "erci":
            do["sigma"], do["mu"] = 50.0, rng.choice([0.0, -40.0])
    elif st == "fresh":
        c = G.tree_cfg(rng)
        c.update(enc="tree", hib=True, pop=2,
                 creator=rng.choice(["full", "grow"]))
        lo = rng.choice([1, 1, 2]) if c["typed"] else rng.choice([0, 1, 2])
        c["depth"] = [lo, max(1, lo + rng.choice([0, 1, 2]))]
        c["prune"] = rng.choice([0.1, 0.5, 0.8, 1.0])
        if G.coin(rng, 0.3):
            c["consts"] = True
        do.update(cfg=c)
        do["n"] //= 3
    elif st == "subtree":
        do.update(size=rng.choice([1, 2, 3, 4, 6]),
                  which=rng.choice(["smut", "sxo", "sxo", "sxo3", "erc"]),
                  alike=G.coin(rng), typed=G.coin(rng, 0.4),
                  shape=rng.randrange(10 ** 6))
    elif st == "half":
        c = G.tree_cfg(rng, typed=False)
        c.update(enc="tree", hib=True, creator="half")
        c["depth"][0] = max(1, c["depth"][0])
        c["depth"][1] = max(c["depth"])
        need = 2 * (c["depth"][1] + 1 - c["depth"][0])
        c["pop"] = rng.choice([need, need + 1, 2 * need, 3 * need + 1,
                               5 * need])
        do.update(cfg=c)
    elif st == "run":
        c = G.nsga_cfg(rng) if G.coin(rng, 0.2) else G.cfg(rng)
        c["creators"] = 1
        c["given"] = False
        if c["enc"] == "tree" and not c["typed"]:
            c["clos"] = 0
        used = set()
        ops = []
        for o in c["ops"]:
            if o["op"] in used or o["op"] in ("fgauss1", "fgaussn", "nflip",
                                              "npoint"):
                continue
            used.add(o["op"])
            ops.append(dict(o, p=rng.choice([0.0, 0.1, 0.5, 0.8, 1.0, 1.0])))
        c["ops"] = ops or [{"op": "ident", "p": 0.5}]
        c["gens"] = 1
        c["elite"] = 0
        c["term"] = None
        c["pop"] = 2 * rng.randrange(1, 11)
        c["pop"] += -c["pop"] % G.unit(c)
        if c.get("creator") == "half":
            c["creator"] = "full"
        if c["sel"] and not c["sel"].get("rep", True):
            c["sel"]["t"] = min(c["sel"]["t"], c["pop"])
        do.update(cfg=c, runs=rng.choice([10, 20, 40]))
        del do["n"]
        p = G.part(rng, do, extreme=0, faults=G.env_faults(rng, c))
        G.light(p["sched"])
        return {"parts": [p]}
    return {"parts": [G.part(rng, do, threads=False, extreme=0)]}


def kl(q, p):
    r = 0.0
    if q > 0:
        r += q * math.log(q / p)
    if q < 1:
        r += (1 - q) * math.log((1 - q) / (1 - p))
    return r


class Freq:
    """Frequencies against their probabilities."""

    def __init__(self, sim):
        self.sim = sim

    def expect(self, what, x, n, p, limit=LIMIT):
        self.sim.count("frequencies")
        self.sim.count("draws", n)
        self.sim.log(what, x, n)
        if n == 0:
            return
        if p <= 0 or p >= 1:
            p = min(1, max(0, p))
            bad = x != n * p
        else:
            bad = n * kl(x / n, p) > limit
        if bad:
            self.sim.fail("frequency", "%s: %d of %d (%.4f), configured "
                          "probability %.4f" % (what, x, n, x / n, p))

    def uniform(self, what, seq, values):
        seq = list(seq)
        for v in values:
            self.expect("%s %s" % (what, v), sum(s == v for s in seq),
                        len(seq), 1 / len(values))
        odd = [s for s in seq if s not in values]
        if odd:
            self.sim.fail("unexpected", "%s %r, possible are %s" % (
                what, odd[0], values))

    def flat(self, what, xs, lo, hi, bins=8):
        """Uniform over a real interval."""
        if lo == hi:
            return
        c = [0] * bins
        for x in xs:
            c[min(bins - 1, max(0, int((x - lo) / (hi - lo) * bins)))] += 1
        for j in range(bins):
            self.expect("%s in [%g, %g]" % (
                what, lo + (hi - lo) * j / bins,
                lo + (hi - lo) * (j + 1) / bins), c[j], len(xs), 1 / bins)


def run(part, sim):
    import random
    import numpy as np
    do = part["do"]
    random.seed(do["rs"])
    np.random.seed(do["rs"] % 2 ** 32)
    sim.count("station_" + do["st"])
    globals()["st_" + do["st"]](do, sim, Freq(sim))


# ------------------------------------------------------------ operators
def st_op(do, sim, fr):
    """An operator acts exactly as often as configured, every time anew."""
    from .. import world as W
    c, o, n = do["cfg"], do["op"], do["n"]
    op = W.make_op(o, c, "A")
    inds = W.make_creator(c).create_individuals(op.arity, c["hib"])
    name = type(op).__name__
    acted = []
    fresh = None
    if c["enc"] == "tree":
        fresh = [list(i.tree) for i in inds]
    # these cannot leave a vector as it is
    sure = o["op"] in ("funi1", "funin", "fgauss1", "fgaussn", "bitflip") or (
        o["op"] == "npoint" and c["enc"] == "floats")
    idle = []
    for j in range(n):
        before = [W.genome(i) for i in inds] if sure else None
        for i in inds:
            i.applied_operators = []
            i.fitness.set_fitness(1.0) if not c.get("nsga") else None
        op.apply_operator(inds)
        a = [name in i.applied_operators for i in inds]
        ev = [i.fitness._is_evaluated for i in inds] if hasattr(
            inds[0].fitness, "_is_evaluated") else None
        if len(set(a)) > 1:
            sim.fail("together", "%s of arity %d acted on %d of its "
                     "individuals" % (name, op.arity, sum(a)))
            return
        del ev
        acted.append(a[0])
        if sure:
            idle.append(before == [W.genome(i) for i in inds])
        if fresh and j % 8 == 7:    # keep the programs small
            for i, t in zip(inds, fresh):
                i.tree = list(t)
    p = o["p"]
    fr.expect("%s acted" % name, sum(acted), n, p)
    if sure:
        fr.expect("%s left its operand as it was" % name, sum(idle), n, 1 - p)
    # one application tells nothing about the next
    both = sum(acted[j] and acted[j + 1] for j in range(0, n - 1, 2))
    fr.expect("%s acted twice in a row" % name, both, n // 2, p * p)
    both = sum(acted[j] and acted[j + 2] for k in (0, 1)
               for j in range(k, n - 3, 4))
    fr.expect("%s acted on the next but one" % name, both,
              len(range(0, n - 3, 4)) + len(range(1, n - 3, 4)), p * p)


# ----------------------------------------------------------- selections
def fitted(W, vals, hib):
    return [W.IntVector(W.SimpleFitness(v, higher_is_better=hib), 1,
                        (0, 10 ** 6), vector=[k])
            for k, v in enumerate(vals)]


def st_tour(do, sim, fr):
    from .. import world as W
    import random
    m, t, rep, hib = do["m"], do["t"], do["rep"], do["hib"]
    vals = [float(7 * v) - (30 if do["neg"] else 0) for v in range(m)]
    random.shuffle(vals)
    inds = fitted(W, vals, hib)
    order = sorted(range(m), key=lambda k: vals[k], reverse=hib)  # best first
    sel = W.GO.TournamentSelection(t, higher_is_better=hib, replace=rep)
    won, pairs = [], []
    for _ in range(do["n"] // m):
        dest = inds[:1] if do["pre"] else []
        k0 = len(dest)
        sel.select(inds, dest)
        w = [d.vector[0] for d in dest[k0:]]
        won += w
        if len(w) >= 2:
            pairs.append(w[0] == w[1])
    probs = []
    for r in range(m):      # r individuals are better
        worse = m - r       # at least as bad, itself included
        if rep:
            p = (worse / m) ** t - ((worse - 1) / m) ** t
        else:
            p = math.comb(worse - 1, t - 1) / math.comb(m, t)
        probs.append(p)
        k = order[r]
        fr.expect("tournaments of %d %s among %d won by number %d of the "
                  "ranking" % (t, "with repetition" if rep else "distinct",
                               m, r + 1),
                  sum(w == k for w in won), len(won), p)
    fr.expect("two tournaments of one selection with the same winner",
              sum(pairs), len(pairs), sum(p * p for p in probs))


def st_fp(do, sim, fr):
    from .. import world as W
    import random
    m, hib = do["m"], do["hib"]
    # well separated in the direction that counts
    if hib:
        vals = [3.0 * k / (m - 1) for k in range(m)]
        if do["big"]:
            vals = [v + 400 for v in vals]
        elif not do["zero"]:
            vals = [v + 0.2 for v in vals]
    else:
        g = [0.25 + 2.5 * k / (m - 1) for k in range(m)]
        vals = [1 / x for x in g]
        if do["zero"]:
            vals = [0.0] + [v for v in vals if v > 0.3][:m - 1]
    random.Random(do["shuffle"]).shuffle(vals)
    m = len(vals)
    inds = fitted(W, vals, hib)
    sel = W.GO.FitnessProportionateSelection(higher_is_better=hib)
    c = [0] * m
    for _ in range(do["n"] // m):
        dest = []
        sel.select(inds, dest)
        for d in dest:
            c[d.vector[0]] += 1
    order = sorted(range(m), key=lambda k: vals[k], reverse=hib)
    for a in range(m):
        for b in range(a + 1, m):
            i, j = order[a], order[b]
            fr.sim.count("frequencies")
            n = c[i] + c[j]
            # (the best and the worst differ by far)
            p = 0.55 if a == 0 and b == m - 1 and not do["zero"] else 0.5
            if n and c[i] / n < p and n * kl(c[i] / n, p) > LIMIT:
                sim.fail("proportionate", "fitness %r was selected %d times, "
                         "fitness %r %d times (%s is better)" % (
                             vals[i], c[i], vals[j], c[j],
                             "higher" if hib else "lower"))
    sim.count("draws", sum(c))
    sim.log(vals, c)
    if 0 in c and not do["zero"]:
        sim.fail("proportionate", "never selected: fitness %r of %s" % (
            vals[c.index(0)], vals))


# ------------------------------------------------------------- creation
def st_pcr(do, sim, fr):
    from .. import world as W
    cr = [W.GABitStringVectorCreator(length=j + 1) for j in range(do["k"])]
    kw = {} if do["pcr"] is None else {"pcr": list(do["pcr"])}
    ev = W.make_evaluator({"fit": "crc", "enc": "bits"}, "A")
    seen = []
    try:
        sub = W.Subpopulation(ev, creators=cr, population_size=2,
                              operators_sequence=[
                                  W.GO.IdentityTransformation()], **kw)
    except ValueError as e:
        sim.fail("refused", "creators with probabilities %s are refused: %r" %
                 (do["pcr"], e))
        return
    for _ in range(do["n"]):
        sub.individuals = None
        sub.create_subpopulation_individuals()
        ls = {i.size() for i in sub.individuals}
        if len(ls) != 1:
            sim.fail("creators", "a population was made by %d creators" %
                     len(ls))
            return
        seen.append(ls.pop() - 1)
    ps = do["pcr"] or [1 / do["k"]] * do["k"]
    for j, p in enumerate(ps):
        fr.expect("populations by creator %d of %s" % (j, ps),
                  sum(s == j for s in seen), len(seen), p)


def st_cuts(do, sim, fr):
    from .. import world as W
    ln, k = do["len"], do["k"]
    cls = W.VEC[do["enc"]]
    bound = {"bits": (0, 1), "ints": (0, 9), "floats": (0.0, 9.0)}[do["enc"]]
    one = 1.0 if do["enc"] == "floats" else 1
    op = W.GO.VectorKPointsCrossover(probability=1, k=k)
    a = cls(W.SimpleFitness(), ln, bound, vector=[0 * one] * ln)
    b = cls(W.SimpleFitness(), ln, bound, vector=[one] * ln)
    cuts = {}
    for _ in range(do["n"]):
        a.set_vector([0 * one] * ln)
        b.set_vector([one] * ln)
        a.applied_operators, b.applied_operators = [], []
        op.apply_operator([a, b])
        v = a.get_vector()
        key = tuple(j for j in range(1, ln) if v[j] != v[j - 1])
        cuts[key] = cuts.get(key, 0) + 1
    n = do["n"]
    for j in range(1, ln):
        fr.expect("%d-point crossover of length %d cut before cell %d" % (
            k, ln, j), sum(x for c, x in cuts.items() if j in c), n,
            k / (ln - 1))
    total = math.comb(ln - 1, k)
    for c, x in cuts.items():
        if len(c) != k:
            sim.fail("cuts", "%d-point crossover cut at %s" % (k, c))
            return
        fr.expect("%d-point crossover cut at %s" % (k, c), x, n, 1 / total)
    if total <= 60 and len(cuts) != total:
        sim.fail("cuts", "%d-point crossover of length %d used %d of %d sets "
                 "of cut points in %d draws" % (k, ln, len(cuts), total, n))


def st_cells(do, sim, fr):
    from .. import world as W
    ln, o, n = do["len"], do["op"], do["n"]
    enc, m = do["enc"], do["op"]["op"]
    if enc == "bits":
        one, old, chg = (0, 1), 0, 1.0
    elif enc == "ints":
        one, old, chg = (0, 999), 500, 0.999
    else:
        one, old, chg = (-1e6, 1e6), 0.25, 1.0
    if enc == "bits" and m == "npoint":
        chg = 0.5
    k = {"bitflip": 1, "funi1": 1, "fgauss1": 1}.get(m, o["n"])
    rate = k / ln * chg
    if m == "nflip":
        rate = k / ln * o["pe"]
    op = W.make_op(o, {}, "A")
    cls = W.VEC[enc]
    two = 2 if do["pair"] else 1
    bound = [one] * ln if do["per"] else one
    vs = [cls(W.SimpleFitness(), ln, bound, vector=[old] * ln)
          for _ in range(two)]
    c = [[0] * ln for _ in range(two)]
    same = 0
    for _ in range(n):
        for v in vs:
            v.set_vector([old] * ln)
            v.applied_operators = []
        op.apply_operator(vs)
        ch = [[j for j in range(ln) if v.vector[j] != old] for v in vs]
        for q in range(two):
            for j in ch[q]:
                c[q][j] += 1
        same += len(ch) == 2 and len(ch[0]) == 1 and ch[0] == ch[1]
    for q in range(two):
        if m == "int1":     # (see C14 for how many cells it mutates)
            r = sum(c[q]) / (n * ln)
            for j in range(ln):
                if 0 < r < 1:
                    fr.expect("%s changed cell %d (of %s changes)" % (
                        type(op).__name__, j, c[q]), c[q][j], n, r, 50)
            continue
        for j in range(ln):
            fr.expect("%s changed cell %d of %d" % (
                type(op).__name__, j, ln), c[q][j], n, rate)
    if two == 2 and k == 1 and chg == 1.0 and m != "nflip" and m != "int1":
        fr.expect("%s changed the same cell of two individuals" %
                  type(op).__name__, same, n, 1 / ln)


def st_values(do, sim, fr):
    from .. import world as W
    enc, ln, n = do["enc"], do["len"], do["n"]
    b = W.to_bounds(do["bounds"])
    per = [tuple(x) for x in b] if isinstance(b, list) else [b] * ln
    cols = [[] for _ in range(ln)]
    if do["how"] == "create":
        cr = {"bits": W.GABitStringVectorCreator,
              "ints": W.GAIntVectorCreator,
              "floats": W.GAFloatVectorCreator}[enc](length=ln, bounds=b)
        for i in cr.create_individuals(n, True):
            for j, x in enumerate(i.get_vector()):
                cols[j].append(x)
    else:
        op = W.make_op({"op": do["how"], "n": ln, "p": 1.0}, {}, "A")
        v = W.VEC[enc](W.SimpleFitness(), ln, b, vector=[p[0] for p in per])
        for _ in range(n):
            base = [p[1] if enc != "floats" else -9e99 for p in per]
            v.set_vector(list(base))
            if enc == "floats" and do["how"] == "funi1":
                # (one cell changes: the others must be legal)
                base = [p[0] + (p[1] - p[0]) * 0.123456789 for p in per]
                v.set_vector(list(base))
            v.applied_operators = []
            op.apply_operator([v])
            for j, x in enumerate(v.get_vector()):
                if enc != "floats" or x != base[j]:
                    cols[j].append(x)
    what = "cell %d by " + do["how"] + " is"
    for j in range(ln):
        lo, hi = per[j]
        if enc == "floats":
            fr.flat(what % j, cols[j], lo, hi)
        else:
            fr.uniform(what % j, cols[j], list(range(lo, hi + 1)))
    if ln > 1 and len(cols[0]) == len(cols[1]) == n:
        # cells are drawn independently
        def low(j):
            lo, hi = per[j]
            return [x <= lo + (hi - lo) / 2 for x in cols[j]], \
                0.5 if enc == "floats" else len(
                    [x for x in range(lo, hi + 1)
                     if x <= lo + (hi - lo) / 2]) / (hi - lo + 1)
        (a, pa), (c, pc) = low(0), low(1)
        fr.expect("both first cells low", sum(
            x and y for x, y in zip(a, c)), n, pa * pc)


def st_gauss(do, sim, fr):
    from .. import world as W
    ln, mu, s = do["len"], do["mu"], do["sigma"]
    deltas = []
    if do["which"].startswith("fgauss"):
        kw = {} if do["which"] == "fgauss1" else {"n": do["nn"]}
        cls = W.GO.FloatVectorGaussOnePointMutation if \
            do["which"] == "fgauss1" else W.GO.FloatVectorGaussNPointMutation
        op = cls(probability=1.0, mu=mu, sigma=s, **kw)
        v = W.FloatVector(W.SimpleFitness(), ln, (-1e6, 1e6),
                          vector=[5.0] * ln)
        for _ in range(do["n"]):
            v.set_vector([5.0] * ln)
            v.applied_operators = []
            op.apply_operator([v])
            deltas += [x - 5.0 for x in v.get_vector() if x != 5.0][:1]
        half = 0.0
    else:
        typed = do["which"] == "erci"
        op = W.GO.ERCMutation(probability=1.0, mu=mu, sigma=s)
        T = int if typed else None
        fs = [W.ti_add] if typed else [W.UF.f_add]
        ts = {"x0": int} if typed else ["x0"]
        t = W.Tree(W.GPFitness(), function_set=fs, terminal_set=ts,
                   erc_range=(1, 9) if typed else (1.0, 9.0), root_type=T)
        for _ in range(do["n"]):
            t.tree = [W.FunctionNode(fs[0]), W.TerminalNode("x0", T),
                      W.TerminalNode(5 if typed else 5.0, T)]
            t.applied_operators = []
            op.apply_operator([t])
            deltas.append(t.tree[2].value - 5)
        half = 0.5 if typed else 0.0

    def phi(z):
        return 0.5 * (1 + math.erf(z / math.sqrt(2)))
    n = len(deltas)
    if n < do["n"] * 0.95 and not half:
        sim.fail("gauss", "%d of %d mutations changed nothing" % (
            do["n"] - n, do["n"]))
        return
    for z in (-2.0, -1.0, 0.0, 1.0, 2.0):
        at = mu + z * s
        if half:
            at = math.floor(at) + half
        p = phi((at - mu) / s)
        fr.expect("noise with mean %g and deviation %g at most %g" % (
            mu, s, at), sum(d <= at for d in deltas), n, p)


def parse(W, tree):
    """(node, depth, type it was drawn for) in preorder."""
    from eckity.genetic_encodings.gp.tree.utils import get_func_types
    out = []
    pos = [0]

    def go(d):
        nd = tree[pos[0]]
        pos[0] += 1
        out.append((nd, d, nd.node_type))
        if isinstance(nd, W.FunctionNode):
            for _ in get_func_types(nd.function)[:-1]:
                go(d + 1)
    go(0)
    return out


def st_fresh(do, sim, fr):
    """Fresh programs: functions and terminals of a type equally likely."""
    from .. import world as W
    c, n = do["cfg"], do["n"]
    cr = W.make_creator(c)
    fs, ts = W.tree_sets(c)
    if isinstance(ts, list):
        ts = {t: None for t in ts}
    lo, hi = c["depth"]
    funcs, terms, ercs, prune = {}, {}, [], []
    et = type(c["erc"][0]) if c.get("erc") else None
    need = n * 2
    for _ in range(40):
        for ind in cr.create_individuals(max(20, n // 40), True):
            for nd, d, ty in parse(W, ind.tree):
                if isinstance(nd, W.FunctionNode):
                    funcs.setdefault(ty, []).append(nd.function)
                    if lo <= d < hi:
                        prune.append(False)
                    continue
                if lo <= d < hi:
                    prune.append(True)
                v = nd.value
                known = any(v == t and type(v) is type(t) for t in ts)
                terms.setdefault(ty, []).append(v if known else "(erc)")
                if not known:
                    ercs.append(v)
    for ty, seq in funcs.items():
        fr.uniform("function of type %s is" % ty, [
            f.__name__ for f in seq[:need]],
            [f.__name__ for f in fs if W.hints(f)[-1] is ty])
    clash = et is int and any(type(t) is int and
                              c["erc"][0] <= t <= c["erc"][1] for t in ts)
    for ty, seq in terms.items():
        have = [t for t, x in ts.items() if x is ty]
        if et is not None and (ty is None or ty is et):
            have.append("(erc)")
        if not clash:
            fr.uniform("terminal of type %s is" % ty, [
                str(t) for t in seq[:need]], [str(t) for t in have])
    if c["creator"] == "grow" and not c["typed"]:
        fr.expect("grown programs end early", sum(prune[:need]),
                  len(prune[:need]), c["prune"])
    if ercs and not clash:
        a, b = c["erc"]
        if et is float:
            fr.flat("constant", ercs[:need], a, b)
        elif b - a <= 40:
            fr.uniform("constant", ercs[:need], list(range(a, b + 1)))
        else:
            fr.flat("constant", [x + 0.5 for x in ercs[:need]], a, b + 1)
        if any(type(x) is not et or not a <= x <= b for x in ercs):
            sim.fail("constant", "constants outside of %s" % (c["erc"],))


def shape(rng, names, leaf):
    """A program with the given functions, as nested lists."""
    if not names:
        return leaf()
    f, rest = names[0], list(names[1:])
    k = rng.randrange(len(rest) + 1)
    return [f, shape(rng, rest[:k], leaf), shape(rng, rest[k:], leaf)]


def flatten(W, s, out):
    if isinstance(s, list):
        out.append(W.FunctionNode(getattr(W.UF, s[0])))
        for x in s[1:]:
            flatten(W, x, out)
    else:
        out.append(W.TerminalNode(s))
    return out


def leafsets(s, out):
    """The constants below each node."""
    if not isinstance(s, list):
        r = frozenset([s])
    else:
        r = frozenset().union(*[leafsets(x, out) for x in s[1:]])
    out.append(r)
    return r


def st_subtree(do, sim, fr):
    """Every subtree (or constant) of a program equally likely."""
    import random
    from .. import world as W
    if do.get("alike"):
        return st_alike(do, sim, fr)
    rng = random.Random(do["shape"])
    q = {"smut": 1, "erc": 1, "sxo": 2, "sxo3": 3}[do["which"]]
    fs = [getattr(W.UF, f) for f in BINARY]
    trees, shapes = [], []
    for j in range(q):
        names = BINARY[:]
        rng.shuffle(names)
        cnt = iter(range(1, 99))
        s = shape(rng, names[:do["size"]],
                  lambda: 1000.5 * (j + 1) + next(cnt))
        shapes.append(s)
        t = W.Tree(W.GPFitness(), function_set=fs, terminal_set=["x0"],
                   erc_range=(0.0, 1.0))
        trees.append(t)
    if do["which"] == "smut":
        op = W.GO.SubtreeMutation(probability=1.0, init_depth=(0, 0))
    elif do["which"] == "erc":
        op = W.GO.ERCMutation(probability=1.0)
    else:
        op = W.GO.SubtreeCrossover(probability=1.0, arity=q)
    sets = []
    for s in shapes:
        out = []
        leafsets(s, out)
        sets.append(out)
    got = [[] for _ in range(q)]
    for _ in range(do["n"]):
        for t, s in zip(trees, shapes):
            t.tree = flatten(W, s, [])
            t.applied_operators = []
        op.apply_operator(trees)
        for j, t in enumerate(trees):
            left = {nd.value for nd in t.tree
                    if isinstance(nd, W.TerminalNode)}
            allc = sets[j][-1]
            got[j].append(frozenset(allc - left))
    for j in range(q):
        cand = sets[j]
        if do["which"] == "erc":
            cand = [x for x in cand if len(x) == 1]
        names = ["#%d%s" % (k, sorted(x)) for k, x in enumerate(cand)]
        m = dict(zip(cand, names))
        fr.uniform("%s of program %d replaced" % (
            "constant" if do["which"] == "erc" else "subtree", j),
            [m.get(g, "none of its nodes: %s" % sorted(g)) for g in got[j]],
            names)


def st_alike(do, sim, fr):
    """The same in programs that repeat one function and one constant: the
    place of the replaced subtree is where foreign nodes are afterwards."""
    import random
    from .. import world as W
    rng = random.Random(do["shape"])
    q = {"smut": 1, "erc": 1, "sxo": 2, "sxo3": 3}[do["which"]]
    ty = float if do["typed"] else None
    names = ["add2floats", "sub2floats", "max2floats"] if ty else BINARY[:3]
    fs = [getattr(W.TF if ty else W.UF, f) for f in names]
    trees, shapes = [], []
    for j in range(q):
        shapes.append(shape(rng, [fs[j]] * do["size"],
                            lambda: 1000.5 * (j + 1)))
        trees.append(W.Tree(
            W.GPFitness(), function_set=fs, erc_range=(0.0, 1.0),
            terminal_set={"x0": float} if ty else ["x0"], root_type=ty))

    def nodes(s, out):
        if isinstance(s, list):
            out.append(W.FunctionNode(s[0]))
            for x in s[1:]:
                nodes(x, out)
        else:
            out.append(W.TerminalNode(s, ty))
        return out
    if do["which"] == "smut":
        op = W.GO.SubtreeMutation(probability=1.0, init_depth=(0, 0))
    elif do["which"] == "erc":
        op = W.GO.ERCMutation(probability=1.0)
    else:
        op = W.GO.SubtreeCrossover(probability=1.0, arity=q)
    got = [[] for _ in range(q)]
    for _ in range(do["n"]):
        for t, s in zip(trees, shapes):
            t.tree = nodes(s, [])
            t.applied_operators = []
        op.apply_operator(trees)
        for j, t in enumerate(trees):
            own = [nd.function is fs[j] if isinstance(nd, W.FunctionNode)
                   else nd.value == 1000.5 * (j + 1) for nd in t.tree]
            got[j].append(own.index(False) if False in own else None)
    for j in range(q):
        cand = list(range(2 * do["size"] + 1))
        if do["which"] == "erc":
            full = nodes(shapes[j], [])
            cand = [k for k in cand if isinstance(full[k], W.TerminalNode)]
        elif ty:
            # whether whole typed programs are replaced is left open
            cand.remove(0)
            got[j] = [k for k in got[j] if k != 0]
        fr.uniform("%s of program %d replaced at" % (
            "constant" if do["which"] == "erc" else "subtree", j),
            got[j], cand)


def st_half(do, sim, fr):
    """Ramped half and half: a full half and a grown half of each depth."""
    from .. import world as W
    c = do["cfg"]
    lo, hi = c["depth"]
    cr = W.make_creator(c)
    grown = 0
    per = c["pop"] // (2 * (hi + 1 - lo))
    runs = max(1, 300 // c["pop"])
    for _ in range(runs):
        inds = cr.create_individuals(c["pop"], c["hib"])
        if len(inds) != c["pop"]:
            sim.fail("ramped", "%d individuals, requested %d" % (
                len(inds), c["pop"]))
            return
        full = {}
        top = {}
        for i in inds:
            ds = [d for nd, d, _ in parse(W, i.tree)
                  if not isinstance(nd, W.FunctionNode)]
            if max(ds) > hi or min(ds) < lo:
                sim.fail("ramped", "leaves at depths %d to %d, configured "
                         "are %s" % (min(ds), max(ds), c["depth"]))
            if min(ds) == max(ds):
                full[max(ds)] = full.get(max(ds), 0) + 1
            else:
                grown += 1
            top[max(ds)] = top.get(max(ds), 0) + 1
        sim.count("ramped_populations")
        for d in range(lo, hi + 1):
            if full.get(d, 0) < per:
                sim.fail("ramped", "%d of %d individuals of depths %s are "
                         "full with depth %d, at least %d should be" % (
                             full.get(d, 0), c["pop"], c["depth"], d, per))
                return
            below = sum(x for e, x in top.items() if e <= d)
            want = 2 * per * (d + 1 - lo)
            if below < want:
                sim.fail("ramped", "%d of %d individuals have depth %d or "
                         "less, at least %d should" % (
                             below, c["pop"], d, want))
                return
    binary = [f for f in W.tree_sets(c)[0] if len(W.hints(f)) > 2]
    # half of the individuals of the larger depths are grown: a program of
    # a binary function ends early on one side with probability 1/4 at least
    k = runs * per * (hi - lo)
    if len(binary) == len(c["funcs"]) and k >= 200 and grown < k / 40:
        sim.fail("ramped", "only %d programs are not full, %d were to be "
                 "grown" % (grown, k))


# ------------------------------------------------------------ whole runs
def st_run(do, sim, fr):
    """One generation of simulated runs, operators as configured."""
    from .. import world as W
    import random
    c = do["cfg"]
    acted = {}
    n = {}
    seeds = random.Random(do["rs"])
    for r in range(do["runs"]):
        cfg = dict(c, seed=seeds.randrange(2 ** 32))
        tag = "R%d" % r
        algo = W.build(cfg, tag, sim)
        if not W.guarded(sim, algo.evolve, "evolve()"):
            return
        if cfg.get("nsga"):
            # survivors of both generations remain: only never is judged
            for o, op in zip(c["ops"], W.subpop(
                    algo).get_operators_sequence()):
                name = type(op).__name__
                if o["p"] == 0 and any(
                        name in i.applied_operators
                        for i in W.subpop(algo).individuals):
                    sim.fail("frequency", "%s of probability 0 acted" % name)
                    return
            sim.count("runs_judged")
            continue
        inds = W.subpop(algo).individuals
        for o, op in zip(c["ops"], W.subpop(algo).get_operators_sequence()):
            name = type(op).__name__
            a = op.arity
            k = sum(name in i.applied_operators for i in inds)
            if k % a:
                sim.fail("together", "%s of arity %d acted on %d individuals "
                         "of a generation" % (name, a, k))
                return
            acted[o["op"]] = acted.get(o["op"], 0) + k // a
            n[o["op"]] = n.get(o["op"], 0) + len(inds) // a
        sim.count("runs_judged")
    for o in c["ops"]:
        if n.get(o["op"]):
            fr.expect("groups of a generation on which %s acted" % o["op"],
                      acted[o["op"]], n[o["op"]], o["p"])


def st_pairs(do, sim, fr):
    """Several operators in sequence decide independently."""
    from .. import world as W
    c = do["cfg"]
    p = do["op"]["p"]
    a = W.GO.IdentityTransformation(probability=p)
    b = W.make_op(dict(do["op"], p=0.5), c, "A")
    inds = W.make_creator(c).create_individuals(b.arity, c["hib"])
    fresh = [list(i.tree) for i in inds] if c["enc"] == "tree" else None
    na = type(a).__name__
    nb = type(b).__name__
    hits = {}
    n = do["n"]
    for j in range(n):
        for i in inds:
            i.applied_operators = []
        for i in inds:
            a.apply_operator([i])
        b.apply_operator(inds)
        key = (na in inds[0].applied_operators, nb in
               inds[0].applied_operators)
        if na != nb:
            hits[key] = hits.get(key, 0) + 1
        if fresh and j % 8 == 7:
            for i, t in zip(inds, fresh):
                i.tree = list(t)
    for x in (True, False):
        for y in (True, False):
            if na != nb:
                fr.expect("first operator acted: %s, second: %s" % (x, y),
                          hits.get((x, y), 0), n,
                          (p if x else 1 - p) * 0.5)


STATIONS = ["op", "tour", "fp", "pcr", "cuts", "cells", "values", "gauss",
            "fresh", "subtree", "half", "run", "cells", "values", "fresh",
            "subtree", "tour", "pairs", "run", "op", "cuts", "op", "subtree",
            "op"]


def shrinks(scn):
    d = scn["parts"][0]["do"]
    for f in (4, 2):
        if d.get("n", 0) >= 400 * f:
            c = copy.deepcopy(scn)
            c["parts"][0]["do"]["n"] = d["n"] // f
            yield c
    if d.get("runs", 0) > 2:
        c = copy.deepcopy(scn)
        c["parts"][0]["do"]["runs"] = d["runs"] // 2
        yield c
