"""C17: NSGA-II keeps the best fronts and ranks them correctly."""
import copy

from .. import gen as G

TIERS = {"quick": {"runs": 3000}, "thorough": {"runs": 40000}}
RULE = ("Each seed draws a multi-objective evolution (objective count, "
        "directions, ties, pool, schedule, extreme draws, stalls) or a "
        "history of direct survivor selections over drawn objective values; "
        "each selection is compared with an independent non-dominated sort.")
OWN_SHRINKS = True


def gen(rng, tier, i):
    if rng.random() < 0.6:
        c = G.nsga_cfg(rng)
        c["gens"] = max(1, c["gens"])
        if G.coin(rng, 0.15):
            c["gens"] = rng.choice([6, 9, 12])
        if G.coin(rng, 0.6):
            for o in c["ops"]:
                o["p"] = 1.0
        if G.coin(rng, 0.15):
            c["term"] = [{"t": "crowd", "thr": rng.choice([0.1, 1.0])}]
            c["defaults"] = False
        return {"parts": [G.part(rng, {"mode": "run", "cfg": c}, extreme=0.3,
                                 faults=G.env_faults(rng, c))]}
    nobj = rng.choice([1, 2, 2, 3, 4])
    hib = [G.coin(rng) for _ in range(nobj)] if G.coin(rng, 0.6) \
        else G.coin(rng)
    rounds = []
    n = rng.choice([1, 2, 3, 4, 6, 10, 15])
    kind = rng.choice(["fine", "coarse", "binary", "line", "same", "int",
                       "near"])

    def obj():
        if kind == "fine":
            return rng.uniform(-10, 10)
        if kind == "coarse":
            return float(rng.randrange(5))
        if kind == "binary":
            return float(rng.randrange(2))
        if kind == "int":
            return rng.randrange(-9, 10)
        if kind == "near":
            return 5.0 + rng.randrange(5) * 1e-10
        return 1.5
    for _ in range(rng.randrange(1, 4)):
        rows = []
        for _ in range(2 * n):
            if kind == "line" and nobj >= 2:
                x = rng.choice([rng.random(), rng.randrange(8) / 8.0])
                up = hib if isinstance(hib, list) else [hib] * nobj
                row = [x, -x if up[0] == up[1] else x] + [
                    rng.random() for _ in range(nobj - 2)]
            else:
                row = [obj() for _ in range(nobj)]
            rows.append(row)
        rounds.append({"rows": rows, "size": rng.randrange(1, 2 * n + 1)
                       if G.coin(rng, 0.3) else None,
                       "keep": G.coin(rng, 0.3),
                       "again": rng.randrange(1, 2 * n + 1)
                       if G.coin(rng, 0.3) else None})
    return {"parts": [G.part(rng, {
        "mode": "sort", "hib": hib, "n": n, "rounds": rounds,
        "reuse": G.coin(rng, 0.7)}, threads=False, extreme=0)]}


def dominates(a, b, up):
    ge = all((x >= y) if u else (x <= y) for x, y, u in zip(a, b, up))
    gt = any((x > y) if u else (x < y) for x, y, u in zip(a, b, up))
    return ge and gt


def fronts(objs, up):
    """Lists of indices, best front first."""
    left = list(range(len(objs)))
    out = []
    while left:
        f = [i for i in left if not any(
            dominates(objs[j], objs[i], up) for j in left)]
        out.append(f)
        s = set(f)
        left = [i for i in left if i not in s]
    return out


def crowding(front, objs):
    """index -> (lowest, highest) crowding distance; equal unless there are
    ties, which may be ordered arbitrarily."""
    inf = float("inf")
    out = {i: [0.0, 0.0] for i in front}
    for j in range(len(objs[front[0]])):
        vs = sorted(objs[i][j] for i in front)
        d = vs[-1] - vs[0]
        distinct = sorted(set(vs))
        for i in front:
            v = objs[i][j]
            m = vs.count(v)
            first, last = v == vs[0], v == vs[-1]
            k = distinct.index(v)
            up = distinct[k + 1] - v if not last else 0.0
            dn = v - distinct[k - 1] if not first else 0.0
            lo, hi = 0.0, 0.0
            if (first or last) and m == 1 or len(front) <= 2:
                lo = hi = inf
            elif first and last:    # all equal
                hi = inf
            elif first or last:
                hi = inf
                lo = (up + dn) / d if m == 2 else 0.0
            elif m == 1:
                lo = hi = (up + dn) / d
            elif m == 2:
                lo, hi = min(up, dn) / d, max(up, dn) / d
            else:
                hi = max(up, dn) / d
            out[i][0] += lo
            out[i][1] += hi
    return out


TOL = 1e-9


def judge(sim, combined, objs, survivors, up, size, where):
    """combined: genomes/keys of everybody; survivors: (key, rank, crowding)"""
    from collections import Counter
    if len(survivors) != size:
        sim.fail("size", "%s: %d survivors, %d wanted" % (
            where, len(survivors), size))
        return
    fs = fronts(objs, up)
    rank = {}
    crowd = {}
    for r, f in enumerate(fs, 1):
        c = crowding(f, objs)
        for i in f:
            rank[i] = r
            crowd[i] = c[i]
    bykey = {}
    for i, k in enumerate(combined):
        bykey.setdefault(k, []).append(i)
    have = Counter(k for k, _, _ in survivors)
    for k, n in have.items():
        if k not in bykey or n > len(bykey[k]):
            sim.fail("survivor", "%s: survivor %s is not in the combined "
                     "population, or more often" % (where, k))
            return
    left = size
    for r, f in enumerate(fs, 1):
        if left <= 0:
            take = 0
        else:
            take = min(left, len(f))
        left -= take
        keys = Counter(combined[i] for i in f)
        got = sum(min(have[k], n) for k, n in keys.items())
        if got != take:
            sim.fail("front", "%s: %d of the %d individuals of front %d "
                     "survive, should be %d" % (where, got, len(f), r, take))
            return
        if 0 < take < len(f):
            kept = [k for k in keys if have[k]]
            gone = [k for k, n in keys.items() if have[k] < n]
            # individuals with equal keys: the interval of all of them
            for a in kept:
                for b in gone:
                    if a == b:
                        continue
                    hi = max(crowd[i][1] for i in bykey[a])
                    lo = min(crowd[i][0] for i in bykey[b])
                    if hi < lo - TOL:
                        sim.fail("crowding", "%s: front %d: %s with crowding "
                                 "%r survives, %s with %r does not" % (
                                     where, r, objs[bykey[a][0]], hi,
                                     objs[bykey[b][0]], lo))
                        return
            sim.count("truncated_fronts")
    for k, r, c in survivors:
        i = bykey[k][0]
        if r != rank[i]:
            sim.fail("rank", "%s: %s with objectives %s has rank %r, its front "
                     "is %d" % (where, k, objs[i], r, rank[i]))
            return
        lo = min(crowd[i][0] for i in bykey[k])
        hi = max(crowd[i][1] for i in bykey[k])
        if not (lo - TOL * max(1, abs(lo) if lo < 1e300 else 1) <= c <=
                hi + TOL * max(1, hi if hi < 1e300 else 1)):
            sim.fail("crowding", "%s: %s with objectives %s has crowding %r, "
                     "its neighbours give %r to %r" % (
                         where, k, objs[i], c, lo, hi))
            return
        if lo == hi:
            sim.count("exact_crowding")
    # the extremes of the objectives, one at each end, and nobody else
    nobj = len(objs[0])
    end = float("inf")
    for r, f in enumerate(fs, 1):
        mine = [c for _, q, c in survivors if q == r]
        if not mine:
            break
        n_inf = sum(c == end for c in mine)
        if n_inf > 2 * nobj:
            sim.fail("crowding", "%s: %d of the %d survivors of front %d have "
                     "infinite crowding, %d objectives have only %d extremes"
                     % (where, n_inf, len(mine), r, nobj, 2 * nobj))
            return
        if len(mine) < len(f):
            break
        room = 0.0
        for j in range(nobj):
            vs = sorted(objs[i][j] for i in f)
            d = vs[-1] - vs[0]
            if len(f) > 2 and d > 0:
                room += (vs[-1] - vs[1]) / d + (vs[-2] - vs[0]) / d
            for e in (vs[0], vs[-1]):
                at = {combined[i] for i in f if objs[i][j] == e}
                if not any(c == end for k, _, c in survivors if k in at):
                    sim.fail("crowding", "%s: no survivor of front %d with "
                             "%r in objective %d, an extreme of the front, "
                             "has infinite crowding" % (where, r, e, j))
                    return
        if sum(c for c in mine if c != end) > room + TOL * max(
                1, len(mine)):
            sim.fail("crowding", "%s: the finite crowding distances of front "
                     "%d sum to %r, the gaps of the front to %r" % (
                         where, r, sum(c for c in mine if c != end), room))
            return
        sim.count("whole_fronts")
    sim.count("fronts", len(fs))


def compare(sim, inds, where):
    """The better-than rule of ranked individuals."""
    for a in inds[:8]:
        for b in inds[:8]:
            if a is b:
                continue
            fa, fb = a.fitness, b.fitness
            want = fa.front_rank < fb.front_rank or (
                fa.front_rank == fb.front_rank and fa.crowding > fb.crowding)
            got = a.better_than(b)
            if bool(got) != want:
                sim.fail("better", "%s: better_than is %r for rank %r, "
                         "crowding %r against rank %r, crowding %r" % (
                             where, got, fa.front_rank, fa.crowding,
                             fb.front_rank, fb.crowding))
                return


def run(part, sim):
    do = part["do"]
    if do["mode"] == "sort":
        return run_sort(do, sim)
    from .. import world as W
    cfg = do["cfg"]
    algo = W.build(cfg, "A", sim)
    m = W.Monitor("A", cfg, sim).attach(algo)
    up = cfg["hib"] if isinstance(cfg["hib"], list) else \
        [cfg["hib"]] * cfg["nobj"]
    st = {"n": 0}

    def on_ea(sender, data):
        inds = W.subpop(algo).individuals
        st["keys"] = [W.genome(i) for i in inds]
        st["objs"] = [W.score(cfg, i) for i in inds]
        W.check_fitness(sim, cfg, inds, "combined population")

    def on_ba(sender, data):
        n = len(W.subpop(algo).individuals)
        now = [W.genome(i) for i in W.subpop(algo).individuals]
        if n != 2 * cfg["pop"]:
            sim.fail("combined", "%d individuals after breeding, not the %d "
                     "parents and as many offspring" % (n, cfg["pop"]))
            return
        from collections import Counter
        if Counter(st["parents"]) - Counter(now):
            sim.fail("combined", "a parent is missing from the combined "
                     "population")

    def on_bb(sender, data):
        st["parents"] = [W.genome(i) for i in W.subpop(algo).individuals]

    def on_gen(sender, data):
        st["n"] += 1
        inds = W.subpop(algo).individuals
        where = "generation %d" % st["n"]
        judge(sim, st["keys"], st["objs"], [
            (W.genome(i), i.fitness.front_rank, i.fitness.crowding)
            for i in inds], up, cfg["pop"], where)
        for i in inds:
            if not i.fitness.is_fitness_evaluated() or not W.same_fit(
                    i.get_pure_fitness(), W.score(cfg, i)):
                sim.fail("fitness", "%s: a survivor lost its objectives" %
                         where)
                return
        front = algo.best_of_gen[0]
        want = {id(i) for i in inds if i.fitness.front_rank == 1}
        if {id(i) for i in front} != want or len(front) != len(want):
            if sorted(map(W.jgenome, front)) != sorted(
                    W.jgenome(i) for i in inds if id(i) in want):
                sim.fail("pareto", "%s: the reported Pareto front %s is not "
                         "the survivors of rank one" % (
                             where, list(map(W.jgenome, front))))
        if len({id(i) for i in inds}) != len(inds):
            sim.fail("duplicate", "%s: a survivor occurs twice" % where)
        compare(sim, inds, where)
        sim.log([(W.jgenome(i), i.fitness.front_rank) for i in inds])
        sim.count("generations")
    m.hooks.update({"eval>": on_ea, "breed<": on_bb, "breed>": on_ba,
                    "gen": on_gen})
    W.start(sim, algo, cfg)


def run_sort(do, sim):
    from .. import world as W
    n, hib = do["n"], do["hib"]
    nobj = len(do["rounds"][0]["rows"][0])
    up = hib if isinstance(hib, list) else [hib] * nobj

    def fresh(k):
        return [W.BitStringVector(W.NSGA2Fitness(higher_is_better=hib), 1,
                                  vector=[0]) for _ in range(k)]
    inds = fresh(2 * n)
    sorter = W.NSGA2FrontSorting()
    ev = W.Ev("S", {"fit": "crc"})
    for r, rd in enumerate(do["rounds"]):
        where = "round %d" % r
        if not do["reuse"]:
            sorter = W.NSGA2FrontSorting()
        rows = list(rd["rows"])
        old = len(inds) if rd.get("keep") and r and len(inds) < 2 * n else 0
        inds = inds[:2 * n] + fresh(2 * n - len(inds))
        for j, i in enumerate(inds):
            if j < old:     # a survivor, as evaluated before
                rows[j] = i.get_pure_fitness()
                continue
            row = rows[j]
            i.set_fitness_not_evaluated()
            i.fitness.set_fitness(list(row))
        sp = W.Subpopulation(evaluator=ev, creators=W.GAVectorCreator(),
                             operators_sequence=[], population_size=n,
                             individuals=list(inds), higher_is_better=hib)
        pop = W.Population([sp])
        key = {id(i): "i%d" % j for j, i in enumerate(inds)}
        if rd["size"] is None:
            sorter.select_for_population(pop)
        else:
            sorter.select_for_population(pop, rd["size"])
        out = sp.individuals
        if any(id(i) not in key for i in out):
            sim.fail("survivor", "%s: a survivor is no member" % where)
            return
        judge(sim, [key[id(i)] for i in inds], rows, [
            (key[id(i)], i.fitness.front_rank, i.fitness.crowding)
            for i in out], up, n if rd["size"] is None else rd["size"], where)
        compare(sim, out, where)
        sim.log(r, sorted((key[id(i)], i.fitness.front_rank) for i in out))
        sim.count("sorts")
        if sim.violations:
            return
        if rd.get("again") and len(out) > 1:
            # the survivors alone, as evaluated before
            k = max(1, min(rd["again"], len(out) - 1))
            rows = {key[id(i)]: row for i, row in zip(inds, rows)}
            before = [key[id(i)] for i in out]
            sorter.select_for_population(pop, k)
            out = sp.individuals
            judge(sim, before, [rows[b] for b in before], [
                (key[id(i)], i.fitness.front_rank, i.fitness.crowding)
                for i in out], up, k, where + ", again")
            compare(sim, out, where + ", again")
            sim.count("sorts")
            if sim.violations:
                return
        inds = list(out)


def shrinks(scn):
    do = scn["parts"][0]["do"]
    if do["mode"] == "run":
        for key, val in G._smaller(do["cfg"]):
            c = copy.deepcopy(scn)
            c["parts"][0]["do"]["cfg"][key] = val
            yield c
        return
    for a in range(len(do["rounds"])):
        if len(do["rounds"]) > 1:
            c = copy.deepcopy(scn)
            del c["parts"][0]["do"]["rounds"][a]
            yield c
    if do["n"] > 1:
        c = copy.deepcopy(scn)
        d = c["parts"][0]["do"]
        d["n"] -= 1
        for r in d["rounds"]:
            r["rows"] = r["rows"][:2 * d["n"]]
            if r["size"]:
                r["size"] = min(r["size"], 2 * d["n"])
        yield c
