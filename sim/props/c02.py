"""C02: a seeded run is a function of its configuration and seed alone."""
import copy

from .. import gen as G

TIERS = {"quick": {"runs": 1000}, "thorough": {"runs": 20000}}
RULE = ("Each seed draws a configuration and two to four environments (pool "
        "kind and size, dispatch method, schedule, stalls, clock, ambient "
        "generator state, hash seeds, noisy evaluators and observers, earlier "
        "runs in the process) and compares the histories of the runs.")


def gen(rng, tier, i):
    k = rng.random()
    if k < 0.6:
        c = G.cfg(rng)
    elif k < 0.85:
        c = G.nsga_cfg(rng)
    else:
        c = G.sk_cfg(rng)
    c["gens"] = max(c["gens"], 1)
    c["noisy"] = False
    noseed = G.coin(rng, 0.2)
    if rng.random() < 0.2:
        c["rng"] = "custom"
    parts = []
    for j in range(rng.choice([2, 2, 3, 4])):
        v = copy.deepcopy(c)
        if j:
            v["exec"] = rng.choice(["thread", "thread", "process", None])
            v["workers"] = rng.choice([None, 1, 2, 3, 5])
            v["method"] = rng.choice(["map", "submit", None])
            v["noisy"] = G.coin(rng)
            v["slow"] = rng.choice([0, 1, 2])
            v["popform"] = rng.choice(["sub", "list", "pop"])
        if noseed and j == 0:
            v["seed"] = None
        p = G.part(rng, {"cfg": v, "prior": None, "obs": G.coin(rng, 0.4)},
                   extreme=0, faults=G.env_faults(rng, v))
        if j and G.coin(rng, 0.3):
            pr = G.cfg(rng) if rng.random() < 0.7 else G.nsga_cfg(rng)
            pr["gens"] = min(pr["gens"], 2)
            p["do"]["prior"] = pr
        parts.append(p)
    return {"parts": parts, "noseed": noseed}


def run(part, sim):
    from .. import world as W
    do, cfg = part["do"], part["do"]["cfg"]
    if do.get("prior"):
        a = W.build(do["prior"], "P", sim)
        W.run_evolve(sim, a)
    algo = W.build(cfg, "A", sim)
    h = W.History("A", cfg, sim).attach(algo)
    if do["obs"]:
        noisy = {"noisy": True}
        f = lambda *_: W.noise(noisy)  # noqa
        for e in ("init", "after_generation", "evolution_finished"):
            algo.register(e, f)
        algo.population_evaluator.register("before_operator", f)
        algo.population_evaluator.register("after_operator", f)
    seed = algo.random_seed
    if type(seed) is not int or not 0 <= seed < 2 ** 32:
        sim.fail("bad-seed", "the run recorded the seed %r" % (seed,))
        return {"rows": [], "seed": 0}
    if cfg["seed"] is not None and seed != cfg["seed"]:
        sim.fail("bad-seed", "the run was given seed %r and records %r" % (
            cfg["seed"], seed))
    ok = W.start(sim, algo, cfg)
    if algo.random_seed != seed:
        sim.fail("bad-seed", "the recorded seed changed from %r to %r in the "
                 "run" % (seed, algo.random_seed))
    sim.log(h.rows)
    out = {"rows": h.rows, "seed": seed, "ok": ok}
    if not cfg.get("nsga") and ok:
        out["best"] = [W.jgenome(algo.best_of_run_),
                       repr(algo.best_of_run_.get_pure_fitness())]
    return out


def diff(a, b):
    for i, (x, y) in enumerate(zip(a["rows"], b["rows"])):
        if x != y:
            for k in sorted(set(x) | set(y)):
                p, q = x.get(k), y.get(k)
                if p != q:
                    if isinstance(p, list) and isinstance(q, list) and \
                            k == "inds":
                        for j, (m, n) in enumerate(zip(p, q)):
                            if m != n:
                                return "record %d, individual %d: %s / %s" % (
                                    i, j, str(m)[:200], str(n)[:200])
                    return "record %d, %s: %s / %s" % (
                        i, k, str(p)[:200], str(q)[:200])
    if len(a["rows"]) != len(b["rows"]):
        return "%d / %d records" % (len(a["rows"]), len(b["rows"]))
    if a.get("best") != b.get("best"):
        return "best of run %s / %s" % (a.get("best"), b.get("best"))
    return None


def play(scn):
    out = []
    v = []
    for j, part in enumerate(scn["parts"]):
        if scn.get("noseed") and out:
            part = copy.deepcopy(part)
            part["do"]["cfg"]["seed"] = out[0]["data"]["seed"]
        r = yield part
        out.append(r)
        v.extend(r["violations"])
        if v:
            return v
        d = diff(out[0]["data"], r["data"])
        if d:
            v.append({"kind": "diverged", "msg":
                      "the same configuration and seed %d gave different "
                      "histories in run 0 and run %d: %s" % (
                          out[0]["data"]["seed"], j, d)})
            return v
    return v


def shrinks(scn):
    if len(scn["parts"]) > 2:
        for j in range(1, len(scn["parts"])):
            c = copy.deepcopy(scn)
            del c["parts"][j]
            yield c
    for j, p in enumerate(scn["parts"]):
        if p["do"].get("prior"):
            c = copy.deepcopy(scn)
            c["parts"][j]["do"]["prior"] = None
            yield c
        if p["do"].get("obs"):
            c = copy.deepcopy(scn)
            c["parts"][j]["do"]["obs"] = False
            yield c
    # the run's own configuration must stay the same in all parts
    base = scn["parts"][0]["do"]["cfg"]
    for key, val in G._smaller(base):
        if key in ("exec", "workers", "slow", "stats"):
            continue
        c = copy.deepcopy(scn)
        for p in c["parts"]:
            t = p["do"]["cfg"]
            if key == "pop":
                t["elite"] = min(t.get("elite", 0), val)
            t[key] = val
        yield c


OWN_SHRINKS = True
