"""C05: consecutive generations, and the run stops exactly when it should."""
from .. import gen as G

TIERS = {"quick": {"runs": 4000}, "thorough": {"runs": 50000}}
RULE = ("Each seed draws a configuration with none, one or several "
        "termination conditions (threshold around reachable targets, "
        "stagnation, user-defined), a generation limit and a schedule; a "
        "model predicts the generation at which the run must stop.")


def term(rng, c):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.random()
        if k < 0.4:
            # targets around values the coarse fitness reaches
            sign = -1 if c["neg"] else 1
            out.append({"t": "thr", "opt": sign * rng.choice(
                [0, 1, 2, 3, 0.5, 100, 14000]),
                "thr": rng.choice([0, 0.0, 0.5, 1, 2.5, 50, 3000]),
                "off": rng.choice([1e-9, -1e-9, 1e-6, -1e-4, 0.01])
                if G.coin(rng, 0.3) else 0})
        elif k < 0.75:
            out.append({"t": "stag", "n": rng.choice([1, 1, 2, 3, 4])})
        else:
            out.append({"t": "gen", "at": rng.randrange(0, c["gens"] + 3)})
    return out


def gen(rng, tier, i):
    k = rng.random()
    if k < 0.85:
        c = G.cfg(rng)
        if G.coin(rng, 0.6):
            c["bloat"] = 0.0
        if c["enc"] == "tree" and c["fit"] == "exec":
            c["fit"] = "coarse"
        if G.coin(rng, 0.5):
            c["fit"] = rng.choice(["coarse", "const"])
        c["gens"] = rng.choice([0, 1, 2, 3, 4, 6, 9]) if c["enc"] != "tree" \
            else rng.choice([0, 1, 2, 3, 4])
        G.cap(c, 12)
        if G.coin(rng, 0.2):
            c["ret"] = rng.choice(["near", "tiny", None])
        c["term"] = term(rng, c) if G.coin(rng, 0.85) else None
    elif k < 0.93:
        c = G.nsga_cfg(rng)
        c["term"] = [rng.choice([
            {"t": "gen", "at": rng.randrange(0, c["gens"] + 2)},
            {"t": "crowd", "thr": rng.choice([0.1, 0.5, 1.0, 2.0])}])] \
            if G.coin(rng, 0.8) else None
    else:
        c = G.sk_cfg(rng, bloat=0.0)
        c["term"] = [{"t": "gen", "at": rng.randrange(0, 4)}] \
            if G.coin(rng) else None
    c["termlist"] = G.coin(rng, 0.3)
    do = {"cfg": c}
    if G.coin(rng, 0.12) and all(t["t"] != "gen" for t in c["term"] or []):
        # generation counts of an earlier run do not matter
        do["num"] = rng.choice([1, 2, c["gens"], c["gens"] + 3])
    return {"parts": [G.part(rng, do, faults=G.env_faults(rng, c),
                             extreme=0.15)]}


def run(part, sim):
    from .. import world as W
    import math
    cfg = part["do"]["cfg"]
    num = part["do"].get("num")
    algo = W.build(cfg, "A", sim, **({"generation_num": num} if num else {}))
    st = W.state("A")
    m = W.Monitor("A", cfg, sim).attach(algo)
    hist = {"all": [], "stop": None, "n": -1, "crowd": None, "why": None}
    stag = {}

    def best(xs):
        top = W.best_of(cfg, [x[0] for x in xs])
        pure = [x[1] for x in xs if x[0] == top]
        if any(x != pure[0] for x in pure):
            # several best ones with different pure fitness: any may be meant
            hist["open"] = True
        return pure[0]

    def model(gen, inds):
        """Should the run end after this generation?"""
        why = []
        if not cfg.get("nsga"):
            # (penalised, pure) fitness; the pure one of the best is judged
            fits = [(W.aug(cfg, i), W.score(cfg, i)) for i in inds]
            hist["all"].extend(fits)
            best_run, best_gen = [best(xs) for xs in (hist["all"], fits)]
        for j, t in enumerate(cfg["term"] or []):
            if t["t"] == "gen":
                if gen >= t["at"]:
                    why.append(t)
            elif t["t"] == "thr":
                if abs(best_run - W.term_opt(cfg, t)) <= \
                        W.term_thr(cfg, t):
                    why.append(t)
            elif t["t"] == "stag":
                ref, n = stag.get(j, (None, 0))
                if ref is not None and math.isclose(ref, best_gen):
                    n += 1
                    stag[j] = (ref, n)
                    if n >= t["n"]:
                        why.append(t)
                else:
                    stag[j] = (best_gen, 0)
            elif t["t"] == "crowd":
                cr = [i.fitness.crowding for i in inds
                      if i.fitness.crowding != float("inf")]
                mx = max(cr) if cr else float("inf")
                if mx < t["thr"] and mx != 0:
                    why.append(t)
        return why

    def evaluated(sender, data):
        hist["n"] += 1
        if hist["stop"] is not None and not hist.get("open"):
            sim.fail("overrun", "generation %d was evaluated although the run "
                     "had to end after generation %d because of %s" % (
                         hist["n"], hist["stop"], hist["why"]))
        if not cfg.get("nsga"):
            step()

    def step():
        w = model(hist["n"], W.subpop(algo).individuals)
        if w:
            hist["stop"], hist["why"] = hist["n"], w
        elif hist["n"] >= cfg["gens"]:
            hist["stop"], hist["why"] = hist["n"], "the limit"

    gens = []

    def on_gen(sender, data):
        gens.append(data["generation_num"])
        if algo.generation_num != data["generation_num"]:
            sim.fail("gen-number", "generation %r announced as %r" % (
                algo.generation_num, data["generation_num"]))
        if cfg.get("nsga") and data["generation_num"] > 0:
            step()

    def on_init(sender, data):
        if cfg.get("nsga"):
            step()
    m.hooks.update({"eval>": evaluated, "gen": on_gen, "init": on_init})
    if not W.start(sim, algo, cfg):
        return
    stop = hist["stop"]
    if hist.get("open"):
        sim.count("ambiguous_best")
        return
    sim.log(stop, hist["why"], gens, algo.final_generation_)
    if stop is None:
        sim.fail("early", "the run ended after generation %d although no "
                 "condition held and the limit is %d" % (
                     hist["n"], cfg["gens"]))
        return
    sim.count("stopped_early" if stop < cfg["gens"] else "ran_to_limit")
    if num and stop == 0:
        gens = []
    if [g for g in gens if g != 0] != list(range(1, stop + 1)):
        sim.fail("gen-sequence", "generations %s announced, expected 1..%d" % (
            gens, stop))
    if algo.final_generation_ != stop:
        sim.fail("final-generation", "the run ended in generation %d but "
                 "records %r" % (stop, algo.final_generation_))
    if m.events.count("breed>") != stop or m.events.count("eval>") != stop + 1:
        sim.fail("gen-sequence", "%d breedings and %d evaluations for %d "
                 "generations" % (m.events.count("breed>"),
                                  m.events.count("eval>"), stop))
    want = cfg["pop"] * (1 + stop * (2 if cfg.get("nsga") else 1))
    if st.n != want:
        sim.fail("gen-sequence", "%d evaluator calls for %d generations of "
                 "%d" % (st.n, stop, cfg["pop"]))
