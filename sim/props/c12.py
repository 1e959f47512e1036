"""C12: each run uses one worker pool of its own and releases it."""
import copy

from .. import gen as G

TIERS = {"quick": {"runs": 2200}, "thorough": {"runs": 40000}}
RULE = ("Each seed draws one or two runs (any algorithm kind, pool kind and "
        "size), copies or restores them before, during or after the run, and "
        "evolves originals and copies one after the other or interleaved, "
        "with stalled workers; every pool is inspected.")
OWN_SHRINKS = True


def gen(rng, tier, i):
    runs = []
    for j in range(rng.choice([1, 1, 2])):
        k = rng.random()
        c = G.cfg(rng) if k < 0.5 else G.nsga_cfg(rng) if k < 0.8 \
            else G.sk_cfg(rng)
        c["gens"] = rng.choice([0, 1, 2, 3])
        c["exec"] = rng.choice(["thread", "process", None])
        c["workers"] = rng.choice([None, 1, 2, 3, 5])
        G.cap(c, 10)
        c["slow"] = rng.choice([0, 1, 2])
        if G.coin(rng, 0.15):
            c["term"] = [{"t": "gen", "at": rng.randrange(0, c["gens"] + 1)}]
        cp = None
        if G.coin(rng, 0.6):
            cp = {"how": rng.choice(["deepcopy", "cloudpickle"]),
                  "when": rng.choice(["before", "gen", "gen", "after"]),
                  "at": rng.randrange(1, max(2, c["gens"] + 1)),
                  "gens": rng.choice([0, 1, 2]), "start": rng.choice(
                      ["at once", "after"])}
            if cp["when"] == "gen" and not c["gens"]:
                cp["when"] = "before"
        runs.append({"cfg": c, "copy": cp, "held": G.coin(rng, 0.25)})
    p = G.part(rng, {"runs": runs, "together": G.coin(rng, 0.4)},
               extreme=0, faults=G.env_faults(rng, runs[0]["cfg"]))
    return {"parts": [p]}


def run(part, sim):
    from .. import world as W
    from ..seams import ENV
    do = part["do"]
    s = sim.sched
    checks = []         # (tag, cfg, label)
    later = []

    def one(j, spec):
        cfg = spec["cfg"]
        tag = "R%d" % j
        algo = W.build(cfg, tag, sim)
        cp = spec["copy"]
        tasks = []
        if spec.get("held"):
            # the population evaluator still has the open pool of an
            # algorithm that did not evolve
            algo.population_evaluator.set_executor(
                type(algo.executor)(max_workers=2))
            sim.count("evaluator_held")

        def make_copy():
            if cp["how"] == "deepcopy":
                b = copy.deepcopy(algo)
            else:
                import cloudpickle
                import pickle
                b = pickle.loads(cloudpickle.dumps(algo))
            sim.count("copies")
            W.state(tag + "c", cfg, sim)
            W.subpop(b).evaluator.tag = tag + "c"
            b.max_generation = cp["gens"]

            def go():
                # the copy carries the data of a wrapped evaluator itself,
                # unless it was made before fitting
                if cfg.get("wrap") and cp["when"] == "before":
                    ok = W.start(sim, b, cfg)
                else:
                    ok = W.run_evolve(sim, b)
                if ok:
                    checks.append((tag + "c", cfg, "copy of run %s (%s %s)" % (
                        tag, cp["how"], cp["when"])))
                    released(tag + "c", "copy of run " + tag)
            if cp["start"] == "at once":
                tasks.append(s.spawn(go, "copy" + tag))
            else:
                later.append(go)

        if cp and cp["when"] == "gen":
            def on_gen(sender, data):
                if sender is algo and data["generation_num"] == cp["at"]:
                    make_copy()
            # a plain function, so that it is not part of the saved state
            m = W.Monitor(tag, cfg, sim)
            m.hooks["gen"] = on_gen
            m.algo = algo
            algo.register("after_generation", m.on_gen)
        if cp and cp["when"] == "before":
            make_copy()
        if W.start(sim, algo, cfg):
            checks.append((tag, cfg, "run %s" % tag))
            released(tag, "run " + tag)
        if cp and cp["when"] == "after":
            make_copy()
        for t in tasks:
            s.join(t)
            if t.exc is not None:
                sim.fail("raised", "copy of %s: %r" % (tag, t.exc))

    def pools_of(tag):
        return sorted({e[2] for e in W.state(tag).evals}, key=str)

    def released(tag, label):
        """Directly after the run: nothing queued, running or alive."""
        ps = pools_of(tag)
        if len(ps) != 1 or ps[0] is None:
            sim.fail("one-pool", "%s evaluated in the pools %s" % (label, ps))
            return
        p = ENV.pools[ps[0]]
        left = p.alive()
        if not p.closed or p.queue or p.running or left:
            sim.fail("not-released", "%s has finished, but its %s pool is %s, "
                     "with %d tasks queued, %d running and %d workers alive" % (
                         label, p.kind, "shut down" if p.closed else "open",
                         len(p.queue), p.running, len(left)))
        if p.submitted != p.finished:
            sim.fail("not-released", "%s: %d tasks submitted, %d finished" % (
                label, p.submitted, p.finished))

    specs = do["runs"]
    if do["together"] and len(specs) > 1:
        ts = [s.spawn(lambda j=j, sp=sp: one(j, sp), "user%d" % j)
              for j, sp in enumerate(specs)]
        for t in ts:
            s.join(t)
            if t.exc is not None:
                raise t.exc
    else:
        for j, sp in enumerate(specs):
            one(j, sp)
    for go in later:
        go()
    if sim.violations:
        return
    owner = {}
    for tag, cfg, label in checks:
        ps = pools_of(tag)
        p = ENV.pools[ps[0]]
        if p.pid in owner:
            sim.fail("shared-pool", "%s and %s evaluated in the same pool" % (
                label, owner[p.pid]))
        owner[p.pid] = label
        kind = cfg["exec"] or "thread"
        if p.kind != kind:
            sim.fail("pool-kind", "%s uses a %s pool, requested %s" % (
                label, p.kind, kind))
        if any(e[3] != (kind == "process") for e in W.state(tag).evals):
            sim.fail("pool-kind", "%s did not evaluate in %s workers" % (
                label, kind))
        if cfg["workers"] is not None and (p._max_workers != cfg["workers"] or
                                           p.peak > cfg["workers"]):
            sim.fail("pool-size", "%s uses a pool of %d workers, %d requested"
                     % (label, p._max_workers, cfg["workers"]))
        if cfg["workers"] is None and p.requested is not None and \
                p.requested != part.get("default_workers"):
            sim.count("explicit_default")
        sim.count("pools_checked")
    for p in ENV.pools:
        if p.submitted and p.pid not in owner:
            sim.fail("one-pool", "pool %d ran %d tasks of no run" % (
                p.pid, p.submitted))
        if p.alive():
            sim.fail("not-released", "pool %d still has %d workers at the end"
                     % (p.pid, len(p.alive())))
    sim.log([(p.kind, p._max_workers, p.submitted, p.peak)
             for p in ENV.pools])


def shrinks(scn):
    runs = scn["parts"][0]["do"]["runs"]
    for j, r in enumerate(runs):
        if len(runs) > 1:
            c = copy.deepcopy(scn)
            del c["parts"][0]["do"]["runs"][j]
            yield c
        if r["copy"]:
            c = copy.deepcopy(scn)
            c["parts"][0]["do"]["runs"][j]["copy"] = None
            yield c
        if r.get("held"):
            c = copy.deepcopy(scn)
            c["parts"][0]["do"]["runs"][j]["held"] = False
            yield c
        for key, val in G._smaller(r["cfg"]):
            c = copy.deepcopy(scn)
            t = c["parts"][0]["do"]["runs"][j]["cfg"]
            if key == "pop":
                t["elite"] = min(t.get("elite", 0), val)
            if key in ("exec", "workers"):
                continue
            if key == "gens" and r["copy"] and r["copy"]["when"] == "gen" \
                    and val < r["copy"]["at"]:
                continue
            t[key] = val
            yield c
