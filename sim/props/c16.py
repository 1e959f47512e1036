"""C16: selection fills the next generation only with deserving copies."""
import copy

from .. import gen as G

TIERS = {"quick": {"runs": 5000}, "thorough": {"runs": 60000}}
RULE = ("Each seed draws either a history of direct selections (tournament "
        "with and without repetition, elite, proportionate) over individuals "
        "with tied, negative, infinite and bloat-penalised scores, or an "
        "evolution by selection alone, with extreme random draws; sizes, "
        "copies, the unchanged source and the rank of every selected "
        "individual are checked.")
OWN_SHRINKS = True


def scores(rng, n, kind):
    if kind == "ties":
        return [float(rng.randrange(3)) for _ in range(n)]
    if kind == "neg":
        return [rng.choice([-1, 1]) * rng.random() * 10 for _ in range(n)]
    if kind == "same":
        return [2.5] * n
    if kind == "ints":
        return [rng.randrange(1, 50) for _ in range(n)]
    if kind == "inf":
        return [rng.choice([float("inf"), 1e308, -1e308, 0.0, 5.0])
                for _ in range(n)]
    if kind == "zero":
        return [rng.choice([0.0, 0.0, 1.0, 1e-9, 1e3]) for _ in range(n)]
    if kind == "near":
        return [1.0 + rng.randrange(4) * 2.0 ** -52 for _ in range(n)]
    if kind in ("unit", "odds"):    # as good as a distribution, or its odds
        v = [rng.choice([1.0, 2.0, rng.random() + 1e-3]) for _ in range(n)]
        k = sum(v) / rng.choice([1.0, 1.0, 1 + 1e-6, 1 - 1e-6, 1 + 1e-9, 1.01])
        return [x / k if kind == "unit" else k / x for x in v]
    return [rng.random() * 100 for _ in range(n)]


def gen(rng, tier, i):
    if rng.random() < 0.3:
        c = G.cfg(rng)
        c["ops"] = [{"op": "ident", "p": rng.choice([0.0, 1.0])}]
        c["gens"] = rng.choice([1, 2, 3])
        c["sel"] = {"s": "tour", "t": rng.choice([1, 2, 3, c["pop"] - 1,
                                                  c["pop"]]),
                    "rep": G.coin(rng, 0.3)}
        c["sel"]["t"] = max(1, min(c["sel"]["t"], c["pop"]))
        if c["sel"]["rep"] and G.coin(rng) and c["pop"] <= 12:
            c["sel"]["t"] = 40 * c["pop"]
        if G.coin(rng, 0.15):
            c["sel"] = {"s": "fp"}
            c["neg"] = False
            if c["hib"]:
                c["bloat"] = 0.0
        p = G.part(rng, {"mode": "run", "cfg": c}, extreme=0.4,
                   faults=G.env_faults(rng, c))
        if c["sel"].get("t", 0) > 100:
            G.light(p["sched"])
        return {"parts": [p]}
    c = G.cfg(rng)
    if c["enc"] == "tree":
        c["creator"] = rng.choice(["full", "grow"])
        c["bloat"] = rng.choice([0.0, 0.1, 5.0])
    n = c["pop"] = rng.choice([1, 2, 3, 4, 5, 7, 10, 16])
    kind = rng.choice(["ties", "neg", "same", "ints", "inf", "zero", "any",
                       "near"])
    if G.coin(rng, 0.12):
        kind = "unit" if c["hib"] else "odds"
        c["bloat"] = 0.0 if c["enc"] == "tree" else c.get("bloat")
    steps = []
    for _ in range(rng.randrange(1, 7)):
        r = rng.random()
        if r < 0.6:
            rep = G.coin(rng, 0.4)
            t = rng.choice([1, 2, 3, n, n, max(1, n - 1), n + 1, n + 7]) \
                if not rep else rng.choice([1, 2, 3, n, n + 5, 40 * n])
            steps.append({"m": "tour", "t": t, "rep": rep})
        elif r < 0.8:
            steps.append({"m": "elite", "k": rng.randrange(0, n + 1)})
        else:
            steps.append({"m": "fp"})
        if kind in ("unit", "odds") and G.coin(rng):
            steps[-1] = {"m": "fp"}
        steps[-1]["pre"] = rng.randrange(0, n + 1) if G.coin(rng, 0.4) else 0
        steps[-1]["dup"] = G.coin(rng, 0.5)
        steps[-1]["keep"] = G.coin(rng, 0.4)
        steps[-1]["own"] = G.coin(rng)
    return {"parts": [G.part(rng, {
        "mode": "hist", "cfg": c, "scores": scores(rng, n, kind),
        "steps": steps, "shuffle": rng.randrange(10 ** 6)}, threads=False,
        extreme=0.5)]}


def run(part, sim):
    do = part["do"]
    if do["mode"] == "run":
        return run_evo(do["cfg"], sim)
    return run_hist(do, sim)


def not_better(vals, v, hib):
    """How many of vals are not strictly better than v."""
    return sum(1 for x in vals if not (x > v if hib else x < v))


def judge_tour(sim, vals, won, t, rep, hib, where):
    """vals: all scores of the source; won: scores of the winners."""
    from ..seams import ENV
    n = len(vals)
    for v in won:
        if not rep and not_better(vals, v, hib) < t:
            sim.fail("tournament", "%s: a tournament of %d distinct out of %s "
                     "selected %r (%s is better)" % (
                         where, t, sorted(vals), v,
                         "higher" if hib else "lower"))
            return
        best = max(vals) if hib else min(vals)
        nb = sum(x == best for x in vals)
        # (unless the draws are extreme, chance rules this out)
        if rep and ENV.draws is None and v != best and (1 - nb / n) ** t < 1e-15:
            sim.fail("tournament", "%s: a tournament with %d draws out of %d "
                     "individuals selected %r, the best is %r" % (
                         where, t, n, v, best))
            return


def run_evo(cfg, sim):
    from .. import world as W
    algo = W.build(cfg, "A", sim)
    m = W.Monitor("A", cfg, sim).attach(algo)
    st = {}
    sel = cfg["sel"]

    def on_bb(sender, data):
        inds = W.subpop(algo).individuals
        st["inds"] = list(inds)
        st["snap"] = [W.core(i) for i in inds]
        st["vals"] = [W.aug(cfg, i) for i in inds]

    def on_ba(sender, data):
        inds = W.subpop(algo).individuals
        if len(inds) != cfg["pop"]:
            sim.fail("size", "%d individuals after selection, %d before" % (
                len(inds), cfg["pop"]))
        if [W.core(i) for i in st["inds"]] != st["snap"]:
            sim.fail("source", "breeding by selection changed the individuals "
                     "selected from")
        old = {}
        for i, v in zip(st["inds"], st["vals"]):
            old[W.genome(i)] = v
        won = []
        for i in inds:
            if W.genome(i) not in old:
                sim.fail("copy", "selection alone made the new genome %s" %
                         W.jgenome(i)[:200])
                return
            if any(i is j for j in st["inds"]):
                sim.fail("copy", "an individual of the old generation itself "
                         "is in the new one")
                return
            won.append(old[W.genome(i)])
        # the elites, in whatever position, may be any; the rest are winners
        if sel["s"] == "tour":
            k = cfg["elite"]
            won.sort(reverse=cfg["hib"])
            if not sel["rep"] or len(won) > k:
                vals = st["vals"]
                if k:
                    top = sorted(vals, reverse=cfg["hib"])[:k]
                    for v in top:
                        if v in won:
                            won.remove(v)
                        else:
                            sim.fail("elite", "the elite score %r is missing"
                                     % v)
                            return
                judge_tour(sim, vals, won, sel["t"], sel["rep"], cfg["hib"],
                           "evolution")
        sim.log(sorted(won))
        sim.count("generations")
    m.hooks.update({"breed<": on_bb, "breed>": on_ba})
    W.start(sim, algo, cfg)


class Recorder:
    """Sees what the tournaments draw, if they use the usual functions."""

    def __init__(self, src):
        self.ids = {id(i) for i in src}
        self.drawn = []

    def __enter__(self):
        import random
        self.old = (random.choices, random.sample)

        def rec(f):
            def g(pop, *a, **k):
                r = f(pop, *a, **k)
                if r and all(id(x) in self.ids for x in r):
                    self.drawn.append(list(r))
                else:
                    self.drawn.append(None)
                return r
            return g
        random.choices = rec(random.choices)
        random.sample = rec(random.sample)
        return self

    def __exit__(self, *a):
        import random
        random.choices, random.sample = self.old


def run_hist(do, sim):
    import random
    from .. import world as W
    cfg = do["cfg"]
    hib = cfg["hib"]
    src = W.make_creator(cfg).create_individuals(cfg["pop"], hib)
    sc = do["scores"]
    for i, v in zip(src, sc):
        i.fitness.set_fitness(v)
    w = (cfg.get("bloat") or 0.0) if cfg["enc"] == "tree" else 0.0

    def val(i):
        f = i.get_pure_fitness()
        if not w:
            return f
        return f - w * len(i.tree) if hib else f + w * len(i.tree)

    for n, s in enumerate(do["steps"]):
        if sim.violations:
            return
        where = "step %d (%s)" % (n, s)
        sim.count("sel_" + s["m"])
        N = len(src)
        vals = [val(i) for i in src]
        before = [W.snap(i) for i in src]
        order = list(src)
        # what is selected already may hold several copies of one individual
        dest = [src[j // 2 if s.get("dup") else j].clone()
                for j in range(s["pre"])]
        if s["m"] == "elite" and s["pre"]:
            dest = []
        pre = list(dest)
        snap_pre = [W.snap(i) for i in pre]
        GO = W.GO
        # a tournament goes by the individuals' own direction
        own = hib if s["own"] or s["m"] != "tour" else not hib
        if s["m"] == "tour":
            m = GO.TournamentSelection(s["t"], higher_is_better=own,
                                       replace=s["rep"])
        elif s["m"] == "elite":
            m = GO.ElitismSelection(s["k"], higher_is_better=hib)
        else:
            m = GO.FitnessProportionateSelection(higher_is_better=hib)
        refuse = s["m"] == "tour" and not s["rep"] and s["t"] > N or \
            s["m"] == "fp" and any(v < 0 for v in vals)
        if s["m"] == "fp" and not refuse and (
                any(v in (float("inf"), float("nan")) or v > 1e300
                    for v in vals)):
            continue
        rec = Recorder(src)
        try:
            with rec:
                res = m.select(src, dest)
        except ValueError as e:
            if not refuse:
                sim.fail("raised", "%s raised %r" % (where, e))
                return
            sim.count("refused")
            res = None
        else:
            if refuse:
                sim.fail("not-refused", "%s was not refused, scores %s" % (
                    where, vals))
                return
        if len(src) != N or any(a is not b for a, b in zip(order, src)) or \
                [W.snap(i) for i in src] != before:
            sim.fail("source", "%s changed the individuals selected from" %
                     where)
            return
        if any(a is not b for a, b in zip(pre, dest)) or \
                [W.snap(i) for i in pre] != snap_pre:
            sim.fail("destination", "%s changed individuals selected before" %
                     where)
            return
        if res is None:
            if len(dest) != len(pre):
                sim.fail("destination", "%s was refused and left %d more "
                         "individuals" % (where, len(dest) - len(pre)))
            continue
        if res is not dest:
            sim.fail("result", "%s does not return its destination" % where)
        new = dest[len(pre):]
        want = s["k"] if s["m"] == "elite" else N - len(pre)
        if len(new) != want:
            sim.fail("size", "%s selected %d individuals, %d are missing" % (
                where, len(new), want))
            return
        byid = {i.id: i for i in src}
        won = []
        parts = {}
        for i in src + pre:
            for nm, p in W.mutable_parts(i):
                parts[id(p)] = nm
        ids = set(byid) | {i.id for i in pre}
        for d in new:
            f = byid.get(d.cloned_from)
            if f is None or W.genome(f) != W.genome(d):
                sim.fail("copy", "%s: the selected individual %d says it is a "
                         "copy of %r" % (where, d.id, d.cloned_from))
                return
            if d.id in ids:
                sim.fail("copy", "%s: two individuals have the id %d" % (
                    where, d.id))
                return
            ids.add(d.id)
            for nm, p in W.mutable_parts(d):
                if id(p) in parts:
                    sim.fail("alias", "%s: the selected individual shares %s "
                             "with another" % (where, nm))
                    return
            for nm, p in W.mutable_parts(d):
                parts[id(p)] = nm
            if type(m).__name__ not in d.selected_by:
                sim.fail("record", "%s: selected_by is %s" % (
                    where, d.selected_by))
            won.append(val(f))
        sim.log(n, s["m"], won)
        if s["m"] == "tour":
            judge_tour(sim, vals, won, s["t"], s["rep"], hib, where)
            if len(rec.drawn) == len(new) and all(
                    r is not None and len(r) == s["t"] for r in rec.drawn):
                sim.count("tournaments", len(new))
                best = [(max if hib else min)(val(i) for i in r)
                        for r in rec.drawn]
                if sorted(best) != sorted(won):
                    sim.fail("tournament", "%s: the best participants have %s,"
                             " the winners %s" % (where, best, won))
        elif s["m"] == "elite":
            top = sorted(vals, reverse=hib)[:s["k"]]
            if sorted(won, reverse=hib) != top:
                sim.fail("elite", "%s: the elites have %s, the best are %s" % (
                    where, won, top))
            if len({d.cloned_from for d in new}) != len(new):
                sim.fail("elite", "%s took an individual twice" % where)
        if s["keep"] and len(dest) == N and not pre:
            keep = {i.id: i.get_pure_fitness() for i in src}
            src = dest
            for i in src:
                i.fitness.set_fitness(keep[i.cloned_from])
            random.Random(do["shuffle"]).shuffle(src)


def shrinks(scn):
    do = scn["parts"][0]["do"]
    if do["mode"] == "run":
        for key, val in G._smaller(do["cfg"]):
            if key in ("sel", "ops"):
                continue
            c = copy.deepcopy(scn)
            t = c["parts"][0]["do"]["cfg"]
            if key == "pop":
                t["elite"] = min(t.get("elite", 0), val)
            t[key] = val
            yield c
        return
    for a in range(len(do["steps"])):
        c = copy.deepcopy(scn)
        del c["parts"][0]["do"]["steps"][a]
        yield c
