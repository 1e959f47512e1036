"""C09: elites survive every generation unchanged."""
from .. import gen as G

TIERS = {"quick": {"runs": 2500}, "thorough": {"runs": 40000}}
RULE = ("Each seed draws a single-objective configuration with elites (ties, "
        "bloat penalty, either direction, aggressive operators), a schedule "
        "and random draws, and compares the best of each generation with the "
        "next one.")


def gen(rng, tier, i):
    c = G.sk_cfg(rng) if rng.random() < 0.1 else G.cfg(rng)
    n = c["pop"]
    c["elite"] = rng.choice([1, 1, 2, 3, n // 2, n - 1, n])
    c["elite"] = max(1, min(c["elite"], n))
    c["gens"] = rng.choice([1, 2, 3, 5, 8]) if c["enc"] != "tree" \
        else rng.choice([1, 2, 3, 4])
    if G.coin(rng, 0.5):
        for o in c["ops"]:
            o["p"] = 1.0
            if "pe" in o:
                o["pe"] = 1.0
    if G.coin(rng, 0.3) and c["enc"] != "tree" and c["len"] > 2:
        c["fit"] = "crc"
    if G.coin(rng, 0.2):
        c["own_breeder"] = True
    if c["fit"] != "sk" and not c["ret"] and G.coin(rng, 0.15):
        c["ret"] = "dense"
    if c["enc"] != "tree" and not c.get("own_breeder") and \
            c.get("creators", 1) == 1 and not c.get("given") and \
            G.coin(rng, 0.08):
        # a rate that makes a whole number but for rounding
        u = G.unit(c)
        odd = [(k / m, m, k) for m in range(20, 101) if m % u == 0
               for k in range(1, m) if int(k / m * m) < k]
        odd += [(r / 100, 100, r) for r in range(1, 100)
                if int(r / 100 * 100) < r and 100 % u == 0]
        if odd:
            c["rate"], c["pop"], c["elite"] = rng.choice(odd)
            c["gens"] = rng.choice([1, 2])
            c["slow"] = 0
            if c["sel"] and c["sel"]["s"] == "tour":
                c["sel"]["t"] = rng.choice([1, 2, 3])
    return {"parts": [G.part(rng, {"cfg": c}, extreme=0.4,
                             faults=G.env_faults(rng, c))]}


def run(part, sim):
    from collections import Counter
    from .. import world as W
    cfg = part["do"]["cfg"]
    algo = W.build(cfg, "A", sim)
    m = W.Monitor("A", cfg, sim).attach(algo)
    k = cfg["elite"]
    st = {"prev": None, "best": None, "gen": 0}

    def strictly(a, b):
        return bool(W.better(cfg, a, b))

    def rows():
        # ranked by their own account of their fitness, which is compared
        # exactly (others check that it is right)
        out = []
        for i in W.subpop(algo).individuals:
            own = i.get_augmented_fitness()
            if not W.close(own, W.aug(cfg, i)):
                sim.fail("fitness", "an individual has fitness %r, expected "
                         "%r" % (own, W.aug(cfg, i)))
            out.append((W.genome(i), own, W.score(cfg, i)))
        return out

    def on_bb(sender, data):
        st["prev"] = rows()
        st["gen"] += 1

    def compare(where):
        prev = sorted(st["prev"], key=lambda r: r[1], reverse=cfg["hib"])
        t = prev[k - 1][1]
        must = Counter(r[0] for r in prev if strictly(r[1], t))
        may = Counter(r[0] for r in prev if not strictly(t, r[1]))
        now = Counter(W.genome(i) for i in W.subpop(algo).individuals)
        lost = must - now
        if lost:
            sim.fail("elite-lost", "%s: the genome %s is among the %d best of "
                     "the previous generation and does not reappear" % (
                         where, str(next(iter(lost)))[:300], k))
            return
        n = sum(min(now[g], c) for g, c in may.items())
        if n < k:
            sim.fail("elite-lost", "%s: only %d of the %d best individuals of "
                     "the previous generation reappear" % (where, n, k))

    def on_ba(sender, data):
        compare("after breeding generation %d" % st["gen"])

    def on_ea(sender, data):
        if st["prev"] is not None:
            compare("after evaluating generation %d" % st["gen"])
            # unchanged genomes carry unchanged fitness
            old = {g: f for g, _, f in st["prev"]}
            for i in W.subpop(algo).individuals:
                f = old.get(W.genome(i))
                if f is not None and not W.close(i.get_pure_fitness(), f):
                    sim.fail("elite-fitness", "generation %d: the genome %s "
                             "had fitness %r and now has %r" % (
                                 st["gen"], W.jgenome(i)[:200], f,
                                 i.get_pure_fitness()))
                    break
        b = W.best_of(cfg, [i.get_augmented_fitness() for i in
                            W.subpop(algo).individuals])
        if st["best"] is not None and strictly(st["best"], b):
            sim.fail("best-worse", "generation %d: the best is %r, it was %r "
                     "in the previous generation" % (st["gen"], b,
                                                     st["best"]))
        st["best"] = b
        sim.log(st["gen"], b)
        sim.count("generations")

    m.hooks.update({"breed<": on_bb, "breed>": on_ba, "eval>": on_ea})
    W.start(sim, algo, cfg)
