"""C10: runs evolving concurrently in one process do not interfere."""
import copy

from .. import gen as G
from . import c17

TIERS = {"quick": {"runs": 1400}, "thorough": {"runs": 25000}}
RULE = ("Each seed draws two or three runs with their own components "
        "(different encodings or vector lengths) and defaults elsewhere, one "
        "of which may fail, and interleaves them in threads; every run is "
        "checked against its own contract.")
OWN_SHRINKS = True


def gen(rng, tier, i):
    runs = []
    alike = None
    if G.coin(rng, 0.25):
        # several untyped tree runs
        alike = {"typed": False, "funcs": rng.sample(G.UNTYPED, 3) + ["f_add"],
                 "fset": None, "root": None, "erc": rng.choice(
                     [None, [-1.0, 1.0]]), "consts": False}
        alike["funcs"] = sorted(set(alike["funcs"]))
    vec = None
    if alike is None and G.coin(rng, 0.35):
        # several runs with vectors of one kind (of different lengths)
        vec = rng.choice(["bits", "ints", "floats"])
    lens = rng.sample([1, 2, 3, 4, 5, 6, 8, 11], 3)
    # several multi-objective runs
    moo = alike is None and vec is None and G.coin(rng, 0.25)
    for j in range(rng.choice([2, 2, 2, 3])):
        k = 0.7 if moo else rng.random()
        if k < 0.65:
            c = G.cfg(rng, given=False, **(
                {"encs": ("tree",)} if alike else {"encs": (vec,)} if vec
                else {}))
            if alike is not None:
                c.update(alike)
        elif k < 0.85:
            c = G.nsga_cfg(rng)
        else:
            c = G.sk_cfg(rng)
        if c["enc"] != "tree":
            n = max(lens[j], 2) if c.get("nsga") else lens[j]
            c["len"] = n
            c["bounds"] = G.bounds(rng, c["enc"], n)
            c["ops"] = G.vec_ops(rng, c["enc"], n)
            if vec:
                for o in c["ops"]:
                    o["p"] = 1.0
        if G.coin(rng, 0.7):
            c.update(exec=None, method=None)
            if not c["enc"] == "tree":
                c["sel"] = None
        c["workers"] = rng.choice([None, 1, 2, 3])
        c["gens"] = rng.choice([1, 2, 3] if not vec else [2, 4, 6])
        if not moo:
            G.cap(c, 8)
        c["stats"] = rng.choice([[], ["rec"], ["baw", "rec"]]) \
            if not c.get("nsga") else rng.choice([[], ["rec"]])
        if c["enc"] == "tree" and not c.get("sk"):
            # functions of another run may have the same names
            c["clos"] = j + 1 if G.coin(rng, 0.8) else 0
            mate = [x["cfg"] for x in runs if x["cfg"]["enc"] == "tree"
                    and not x["cfg"].get("sk")
                    and not x["cfg"]["typed"]]
            if mate and not c["typed"] and G.coin(rng, 0.8):
                c["funcs"] = list(mate[0]["funcs"])
        r = {"cfg": c, "fail": None, "delay": rng.choice(
            [0] * 10 + [0.0005, 0.003, 0.5, 20.0])}
        runs.append(r)
    if G.coin(rng, 0.25):
        r = rng.choice(runs)
        c = r["cfg"]
        r["fail"] = rng.randrange(c["pop"] * (c["gens"] + 1))
    p = G.part(rng, {"runs": runs}, extreme=0.1, default_workers=3)
    if p["sched"]["policy"] == "rr" or not p["sched"].get("p", 1):
        p["sched"].update(policy="rand", p=0.01)
    if G.coin(rng, 0.6) and not p["sched"].get("opcodes"):
        p["sched"]["focus"] = G.focus(rng)
    return {"parts": [p]}


def run(part, sim):
    from .. import world as W
    from ..seams import ENV
    s = sim.sched
    specs = part["do"]["runs"]
    R = [Run(W, ENV, sim, "R%d" % j, sp) for j, sp in enumerate(specs)]
    ts = []
    for r in R:
        r.task = s.spawn(r.go, "user-" + r.tag)
        ts.append(r.task)
    for r in R:
        s.join(r.task)
        if r.task.exc is not None and not r.expected(r.task.exc):
            import traceback
            sim.fail("raised", "run %s, concurrent with others, raised %s" % (
                r.tag, "".join(traceback.format_exception(
                    r.task.exc)[-5:])[-900:]))
    if sim.violations:
        return
    for r in R:
        r.after(R)


class Run:
    def __init__(self, W, ENV, sim, tag, spec):
        self.W, self.ENV, self.sim, self.tag = W, ENV, sim, tag
        self.spec, self.cfg = spec, spec["cfg"]
        self.algo = W.build(self.cfg, tag, sim)
        self.pool = self.algo.executor
        self.st = W.state(tag)
        if spec["fail"] is not None:
            self.st.fail = {spec["fail"]: "boom"}
        self.m = W.Monitor(tag, self.cfg, sim).attach(self.algo)
        self.m.hooks.update({"eval>": self.evaluated, "gen": self.on_gen,
                             "breed>": self.bred, "init": self.on_init,
                             "breed<": self.sender, "eval<": self.sender,
                             "end": self.sender})
        self.best = []
        self.gens = []
        self.n_eval = 0
        self.rows = {}
        self.done = False

    def go(self):
        if self.spec["delay"]:
            self.ENV.sched.sleep(self.spec["delay"])
        if self.cfg.get("wrap"):
            X, y = self.W.sk_data(self.cfg)
            self.W.wrap(self.algo, self.cfg).fit(X.copy(), y.copy())
        else:
            self.algo.evolve()
        self.done = True

    def expected(self, e):
        return self.spec["fail"] is not None and self.st.failed and \
            isinstance(e, self.W.Boom) and e.what == self.st.failed[2]

    # ---------------------------------------------------------- monitoring
    def f(self, kind, msg):
        self.sim.fail(kind, "run %s: %s" % (self.tag, msg))

    def sender(self, sender, data):
        a = self.algo
        if sender not in (a, a.breeder, a.population_evaluator):
            self.f("foreign-event", "was announced something by another run")
        if self.ENV.sched.cur is not self.task:
            self.f("foreign-event", "was announced something in a thread of "
                   "another run")

    def members(self, where, n):
        W, cfg = self.W, self.cfg
        inds = W.subpop(self.algo).individuals
        if len(inds) != n:
            self.f("size", "%s: %d individuals, configured %d" % (
                where, len(inds), n))
        before = len(self.sim.violations)
        for i in inds:
            W.check_ind(self.sim, cfg, i, "run %s %s" % (self.tag, where))
            if len(self.sim.violations) > before:
                break
        return inds

    def bred(self, sender, data):
        self.sender(sender, data)
        self.members("after breeding", self.cfg["pop"] * (
            2 if self.cfg.get("nsga") else 1))

    def evaluated(self, sender, data):
        W, cfg = self.W, self.cfg
        self.sender(sender, data)
        where = "evaluation %d" % self.n_eval
        n = cfg["pop"] * (2 if cfg.get("nsga") and self.n_eval else 1)
        inds = self.members(where, n)
        W.check_fitness(self.sim, cfg, inds, "run %s %s" % (self.tag, where))
        new = self.st.evals
        self.st.evals = []
        if sorted(e[0] for e in new) != sorted(i.id for i in inds):
            self.f("foreign-eval", "%s: its evaluator was called for "
                   "individuals %s, the population is %s" % (
                       where, sorted(e[0] for e in new),
                       sorted(i.id for i in inds)))
        bad = {e[2] for e in new if e[2] != self.pool.pid}
        if bad:
            self.f("foreign-pool", "%s: evaluated in pool %s, its own pool is "
                   "%d" % (where, sorted(map(str, bad)), self.pool.pid))
        if not cfg.get("nsga"):
            a = [W.aug(cfg, i) for i in inds]
            self.best.extend(a)
            p = [W.score(cfg, i) for i in inds]
            b, w = W.best_of(cfg, a), W.worst_of(cfg, a)
            self.rows[self.n_eval] = (
                [y for x, y in zip(a, p) if W.close(x, b)],
                [y for x, y in zip(a, p) if W.close(x, w)], sum(p) / len(p))
        else:
            self.both = ([W.genome(i) for i in inds],
                         [W.score(cfg, i) for i in inds])
        self.n_eval += 1

    def best_ok(self, where):
        W, cfg = self.W, self.cfg
        if cfg.get("nsga"):
            return
        b = self.algo.best_of_run_
        if b is None or not W.close(W.aug(cfg, b), W.best_of(
                cfg, self.best)) or not W.close(
                    b.get_pure_fitness(), W.score(cfg, b)):
            self.f("best", "%s: best of run is %r, the best evaluated has %r"
                   % (where, b and W.aug(cfg, b),
                      W.best_of(cfg, self.best)))

    def on_init(self, sender, data):
        self.sender(sender, data)
        self.best_ok("initially")

    def on_gen(self, sender, data):
        self.sender(sender, data)
        g = data["generation_num"]
        self.gens.append(g)
        self.members("generation %d" % g, self.cfg["pop"])
        self.best_ok("generation %d" % g)
        if self.cfg.get("nsga"):
            # ranks and survivors, by its own individuals alone
            hib = self.cfg["hib"]
            c17.judge(self.sim, self.both[0], self.both[1], [
                (self.W.genome(i), i.fitness.front_rank, i.fitness.crowding)
                for i in self.W.subpop(self.algo).individuals],
                hib if isinstance(hib, list) else [hib] * self.cfg["nobj"],
                self.cfg["pop"], "run %s generation %d" % (self.tag, g))

    # ---------------------------------------------------------- afterwards
    def after(self, R):
        W, cfg, sim = self.W, self.cfg, self.sim
        sim.log(self.tag, self.gens, len(self.best), self.done)
        if self.spec["fail"] is not None and self.st.failed:
            if self.done:
                self.f("swallowed", "its failure was swallowed")
            sim.count("failed_runs")
            return
        n = cfg["gens"]
        want = ["eval<", "eval>", "init"] + [
            "breed<", "breed>", "eval<", "eval>", "gen"] * n + ["end"]
        if self.m.events != want:
            self.f("events", "announcements %s, expected %s" % (
                self.m.events, want))
        if self.gens != list(range(1, n + 1)):
            self.f("events", "generations %s of %d" % (self.gens, n))
        self.best_ok("at the end")
        rec = [r for r in self.st.stat_rows if r[0] == "rec"]
        if "rec" in cfg["stats"]:
            if [r[1] for r in rec] != self.gens:
                self.f("statistics", "statistics of generations %s, completed "
                       "were %s" % ([r[1] for r in rec], self.gens))
            elif not cfg.get("nsga"):
                for r in rec:
                    eb, ew, ea = self.rows[r[1]]
                    if not any(W.close(r[2], x) for x in eb) or not any(
                            W.close(r[3], x) for x in ew) or \
                            not W.close(r[4], ea, scale=max(
                                abs(eb[0]), abs(ew[0]))):
                        self.f("statistics", "generation %d reported as %s, "
                               "it has %s %s %s" % (r[1], r[2:], eb[:1],
                                                    ew[:1], ea))
                        break
        elif rec:
            self.f("statistics", "foreign statistics %s" % rec[:2])
        mine = [m for t, nme, m in self.ENV.logs
                if t == self.task.tid and "best_average_worst" in nme
                and m.startswith("generation #")]
        wl = ["generation #%d" % g for g in self.gens] \
            if "baw" in cfg["stats"] else []
        if mine != wl:
            self.f("statistics", "statistics %s in its thread, expected %s" % (
                mine, wl))
        if not self.pool.closed or self.pool.alive():
            self.f("pool", "its pool was not shut down")
        for o in R:
            if o is not self and o.pool is self.pool:
                self.f("foreign-pool", "shares its pool with run %s" % o.tag)
        sim.count("completed_runs")


def shrinks(scn):
    runs = scn["parts"][0]["do"]["runs"]
    if len(runs) > 2:
        for j in range(len(runs)):
            c = copy.deepcopy(scn)
            del c["parts"][0]["do"]["runs"][j]
            yield c
    for j, r in enumerate(runs):
        if r["fail"] is not None:
            c = copy.deepcopy(scn)
            c["parts"][0]["do"]["runs"][j]["fail"] = None
            yield c
        for key, val in G._smaller(r["cfg"]):
            c = copy.deepcopy(scn)
            t = c["parts"][0]["do"]["runs"][j]["cfg"]
            if key == "pop":
                t["elite"] = min(t.get("elite", 0), val)
            t[key] = val
            yield c
