"""C04: best-of-run is the best individual ever evaluated, and stays intact."""
from .. import gen as G

TIERS = {"quick": {"runs": 2500}, "thorough": {"runs": 40000}}
RULE = ("Each seed draws a single-objective configuration (ties, bloat "
        "penalty, either direction, elitism, early termination), a schedule "
        "and random draws, and compares the reported best and worst with all "
        "individuals evaluated so far after every generation.")


def gen(rng, tier, i):
    c = G.sk_cfg(rng) if rng.random() < 0.12 else G.cfg(rng)
    c["gens"] = rng.choice([0, 1, 2, 3, 5, 8]) if c["enc"] != "tree" \
        else min(c["gens"], 4)
    if G.coin(rng, 0.15):
        c["term"] = [{"t": "gen", "at": rng.randrange(0, c["gens"] + 1)}]
    if G.coin(rng, 0.2):
        c["own_breeder"] = True
    if c["fit"] != "sk" and not c["ret"] and G.coin(rng, 0.15):
        c["ret"] = "dense"
    return {"parts": [G.part(rng, {"cfg": c}, faults=G.env_faults(rng, c))]}


def run(part, sim):
    from .. import world as W
    cfg = part["do"]["cfg"]
    algo = W.build(cfg, "A", sim)
    m = W.Monitor("A", cfg, sim).attach(algo)
    seen = []           # expected augmented fitness of everything evaluated
    owns = []           # their own account of it, which is compared exactly
    alive = {}          # every individual seen at an evaluation (kept alive)
    last = {"aug": []}
    reported = []       # (what, individual, snapshot)
    n = [0]

    def nogen(ind):
        return W.freeze({k: v for k, v in vars(ind).items() if k != "gen"},
                        ("function_set", "terminal_set"))

    def evaluated(sender, data):
        inds = W.subpop(algo).individuals
        last["aug"] = [W.aug(cfg, i) for i in inds]
        last["inds"] = list(inds)
        last["own"] = [i.get_augmented_fitness() for i in inds]
        seen.extend(last["aug"])
        owns.extend(last["own"])
        for i in inds:
            alive[id(i)] = i

    def intact(where):
        for what, ind, sn in reported:
            if nogen(ind) != sn:
                sim.fail("best-altered", "%s: the individual reported as %s "
                         "was altered: %s -> %s" % (where, what, sn,
                                                    nogen(ind)))

    def report(what, ind, where):
        if not any(ind is r[1] for r in reported):
            reported.append(("%s (%s)" % (what, where), ind, nogen(ind)))

    def check(where, data, gen):
        intact(where)
        best = algo.best_of_run_
        if best is None or id(best) not in alive:
            sim.fail("best-foreign", "%s: best of run %r was never evaluated"
                     % (where, best))
            return
        if not best.fitness.is_fitness_evaluated() or not W.close(
                best.get_pure_fitness(), W.score(cfg, best)):
            sim.fail("best-fitness", "%s: best of run does not carry its "
                     "fitness" % where)
            return
        got, want = W.aug(cfg, best), W.best_of(cfg, seen)
        if not W.close(got, want):
            sim.fail("not-best", "%s: best of run has %r but an individual "
                     "with %r was evaluated" % (where, got, want))
        if not W.close(best.get_augmented_fitness(), got):
            sim.fail("not-best", "%s: the penalised fitness of the best of "
                     "run is %r, not %r" % (
                         where, best.get_augmented_fitness(), got))
        mine = best.get_augmented_fitness()
        if W.better(cfg, W.best_of(cfg, owns), mine):
            sim.fail("not-best", "%s: best of run has %r but an individual "
                     "with %r was evaluated" % (where, mine,
                                                W.best_of(cfg, owns)))
        report("best of run", best, where)
        if "best_of_run_" in data and data["best_of_run_"] is not best:
            sim.fail("event-data", "%s: announced best of run differs" % where)
        sp = W.subpop(algo)
        for what, ind, pick in (
                ("best", sp.get_best_individual(), W.best_of),
                ("worst", sp.get_worst_individual(), W.worst_of)):
            if not any(ind is i for i in last["inds"]) or not W.close(
                    W.aug(cfg, ind), pick(cfg, last["aug"])) or \
                    ind.get_augmented_fitness() != pick(cfg, last["own"]):
                sim.fail("extreme", "%s: the %s individual of the "
                         "subpopulation has %r, expected %r" % (
                             where, what, W.aug(cfg, ind),
                             pick(cfg, last["aug"])))
        if gen:
            for what, ind, pick in (
                    ("best of generation", algo.best_of_gen, W.best_of),
                    ("worst of generation", algo.worst_of_gen, W.worst_of)):
                if ind is None or not any(ind is i for i in last["inds"]):
                    sim.fail("extreme", "%s: %s is no member of the "
                             "generation" % (where, what))
                    continue
                a, b = W.aug(cfg, ind), pick(cfg, last["aug"])
                if not W.close(a, b) or \
                        ind.get_augmented_fitness() != pick(
                            cfg, last["own"]):
                    sim.fail("extreme", "%s: %s has %r, expected %r" % (
                        where, what, a, b))
                report(what, ind, where)
        sim.log(where, W.jgenome(best), got)
        sim.count("checked_generations")

    def on_init(sender, data):
        check("initial population", data, False)

    def on_gen(sender, data):
        check("generation %s" % data.get("generation_num"), data,
              data.get("generation_num", 0) > 0)

    m.hooks.update({"eval>": evaluated, "init": on_init, "gen": on_gen})
    if not W.start(sim, algo, cfg):
        return
    best = algo.best_of_run_
    check("end", {}, cfg["gens"] > 0 and n[0] > 0)
    if cfg["enc"] == "tree":
        env = W.tree_inputs(cfg)
        got, want = algo.execute(**env), W.interp(best, env)
        if not W.equalish(got, want):
            sim.fail("execute", "executing the run gives %r, its best "
                     "individual yields %r" % (got, want))
    else:
        got = algo.execute()
        if list(got) != list(best.vector):
            sim.fail("execute", "executing the run gives %r, its best "
                     "individual is %r" % (got, best.vector))
    intact("after executing")
