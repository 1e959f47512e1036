"""C01: every individual gets exactly its own fitness under any schedule."""
from collections import Counter

from .. import gen as G

TIERS = {"quick": {"runs": 2500}, "thorough": {"runs": 40000}}
RULE = ("Each seed draws a configuration (encoding, operators, pool kind and "
        "size, dispatch method, bundled or user evaluator), worker stalls, "
        "evaluation durations and a schedule, and evolves it.")


def gen(rng, tier, i):
    kind = rng.choice(["run", "run", "run", "sk", "nsga"])
    if kind == "run":
        c = G.cfg(rng, noisy=G.coin(rng, 0.3))
        c["gens"] = min(c["gens"], 3)
    elif kind == "nsga":
        c = G.nsga_cfg(rng, noisy=G.coin(rng, 0.3))
        c["gens"] = min(c["gens"], 2)
    else:
        c = G.sk_cfg(rng)
    return {"parts": [G.part(rng, {"kind": kind, "cfg": c},
                             faults=G.env_faults(rng, c))]}


def run(part, sim):
    from .. import world as W
    do, cfg = part["do"], part["do"]["cfg"]
    st = W.state("A", cfg, sim)
    algo = W.build(cfg, "A", sim)
    oracle = lambda ind: W.score(cfg, ind)  # noqa
    m = W.Monitor("A", cfg, sim).attach(algo)
    cur = {}

    def before(sender, data):
        cur["from"] = len(st.evals)
        cur["inds"] = list(W.subpop(algo).individuals)
        cur["snap"] = [W.snap(i, False) for i in cur["inds"]]

    def after(sender, data):
        where = "evaluation %d" % len([e for e in m.events if e == "eval>"])
        inds = W.subpop(algo).individuals
        if [id(i) for i in inds] != [id(i) for i in cur["inds"]]:
            sim.fail("population-changed", "%s replaced individuals" % where)
            return
        for i, s in zip(inds, cur["snap"]):
            if W.snap(i, False) != s:
                sim.fail("side-effect", "%s changed individual %d: %s -> %s"
                         % (where, i.id, s, W.snap(i, False)))
        for i in inds:
            if not i.fitness.is_fitness_evaluated():
                sim.fail("not-evaluated", "%s: individual %d has no fitness"
                         % (where, i.id))
                continue
            want, got = oracle(i), i.get_pure_fitness()
            if not (W.close(got, want) if cfg.get("sk") else
                    W.same_fit(got, want)):
                sim.fail("wrong-fitness", "%s: individual %d with genome %s "
                         "has fitness %r, the evaluator yields %r" % (
                             where, i.id, W.jgenome(i)[:300], got, want))
        calls = Counter(e[0] for e in st.evals[cur["from"]:])
        want = Counter(i.id for i in inds)
        if calls != want:
            sim.fail("eval-count", "%s: evaluator calls per individual %s, "
                     "expected once each for %s" % (
                         where, dict(calls), sorted(want)))
        sim.log(where, [(W.jgenome(i), repr(i.get_pure_fitness()))
                        for i in inds if i.fitness.is_fitness_evaluated()])
        sim.count("evaluated_individuals", len(inds))
        cur.clear()

    m.hooks["eval<"] = before
    m.hooks["eval>"] = after
    W.start(sim, algo, cfg)
    if sim.sched.max_live > 2:
        sim.count("concurrent_runs")
    sim.log(sim.sched.steps)
