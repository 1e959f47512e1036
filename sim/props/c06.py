"""C06: observers see each step exactly once, in order, with its data."""
import copy
import math

from .. import gen as G

TIERS = {"quick": {"runs": 2500}, "thorough": {"runs": 40000}}
RULE = ("Each seed draws a configuration, observers of the run's, the "
        "breeder's and the evaluator's announcements, a history of "
        "registrations and unregistrations triggered during the run, "
        "statistics writers, a schedule and optionally a save point from "
        "which a copy is evolved further; a model predicts every call.")

EVS = [("algo", "init"), ("algo", "after_generation"),
       ("algo", "evolution_finished"), ("breeder", "before_operator"),
       ("breeder", "after_operator"), ("eval", "before_operator"),
       ("eval", "after_operator")]


NAMES = ["before_operator", "after_operator", "mine"]


def direct(rng):
    """A history of one operator, selection or evaluator used directly."""
    c = G.cfg(rng)
    if c["enc"] == "tree" and c["creator"] == "half":
        c["creator"] = "grow"
    c["pop"] = rng.randrange(2, 7)
    c["neg"] = False
    if c["hib"]:
        c["bloat"] = 0.0
    kind = rng.choice(["op", "op", "op", "user", "user", "sel", "sel", "ev",
                       "boom"])
    d = {"cfg": c, "kind": kind}
    if kind == "op":
        d["op"] = dict(rng.choice(c["ops"]))
        if G.coin(rng, 0.6):
            d["op"]["p"] = 1.0
    elif kind == "sel":
        d["sel"] = rng.choice(["tour", "fp", "elite"])
    elif kind == "boom":
        d["at"] = rng.randrange(4)
        d["exc"] = rng.choice(["boom", "value", "memory"])
    elif kind == "user":
        d["events"] = rng.choice(["list", "dict", "some"])
    steps = []
    m = 0
    for _ in range(rng.randrange(3, 16)):
        r = rng.random()
        ev = rng.choice(NAMES if kind == "user" else NAMES[:2])
        if r < 0.35:
            st = {"s": "reg", "ev": ev, "none": G.coin(rng, 0.15),
                  "name": "o%d" % m}
            if G.coin(rng, 0.2):
                st["does"] = rng.choice(["leave", "join", "fail"])
            steps.append(st)
            m += 1
        elif r < 0.45 and m:
            steps.append({"s": "unreg", "name": "o%d" % rng.randrange(m)})
        elif r < 0.85:
            steps.append({"s": "act", "at": rng.randrange(c["pop"])})
        elif r < 0.92 and kind == "user":
            steps.append({"s": "publish", "ev": ev})
        else:
            steps.append({"s": "copy", "how": rng.choice(
                ["deepcopy", "cloudpickle"]), "keep": G.coin(rng)})
    d["steps"] = steps
    return d


def gen(rng, tier, i):
    k = rng.random()
    if k < 0.12:
        return {"parts": [G.part(rng, {"mode": "direct", "d": direct(rng)},
                                 threads=False, extreme=0.1)]}
    k = rng.random()
    if k < 0.7:
        c = G.cfg(rng)
        c["stats"] = rng.choice([[], ["baw"], ["rec"], ["baw", "rec"],
                                 ["min", "rec", "rec2"], ["rec", "bawf"],
                                 ["baws", "min"]])
        if "baws" in c["stats"] and c["enc"] != "tree":
            c["stats"] = ["bawf", "min"]
    elif k < 0.9:
        c = G.nsga_cfg(rng)
        c["stats"] = rng.choice([[], ["rec"], ["rec", "rec2"], ["moe"]])
    else:
        c = G.sk_cfg(rng)
        c["stats"] = rng.choice([["baw"], ["rec", "baws"]])
    G.cap(c, 12)
    c["stat1"] = G.coin(rng, 0.3)
    if G.coin(rng, 0.2):
        c["term"] = [{"t": "gen", "at": rng.randrange(0, c["gens"] + 2)}]
    obs = []
    for j in range(rng.choice([1, 2, 3, 5, 7])):
        pub, ev = rng.choice(EVS + EVS[1:2] * 2)
        o = {"name": "o%d" % j, "pub": pub, "ev": ev, "on": None, "off": None}
        if G.coin(rng, 0.35):
            o["on"] = [rng.randrange(len(EVS)), rng.randrange(3)]
        if G.coin(rng, 0.35):
            o["off"] = [rng.randrange(len(EVS)), rng.randrange(3)]
        if G.coin(rng, 0.15):
            o["twice"] = True
        obs.append(o)
    do = {"cfg": c, "obs": obs, "start": rng.choice(["run", "run", "act"]),
          "save": None,
          # observers that leave before the run, the very first ones included
          "ghosts": [rng.randrange(len(EVS)) for _ in range(
              rng.choice([0, 0, 1, 2, 4]))]}
    if G.coin(rng, 0.25):
        # subscribers given to the constructor
        do["pre"] = [[rng.randrange(3), rng.choice(["obj", "str", 0, 5])]
                     for _ in range(rng.choice([1, 1, 2, 3]))]
        do["partial"] = G.coin(rng)
    if not c.get("wrap") and G.coin(rng, 0.35):
        do["save"] = {"at": rng.randrange(0, c["gens"] + 1),
                      "how": rng.choice(["cloudpickle", "deepcopy"]),
                      "gens": rng.choice([0, 1, 2, 3]),
                      "when": rng.choice(["event", "end"])}
    return {"parts": [G.part(rng, do, faults=G.env_faults(rng, c),
                             extreme=0.1)]}


class Obs:
    REG = {}

    def __init__(self, name, world):
        self.name = name
        self.world = world
        Obs.REG[name] = self

    def __call__(self, sender, data):
        self.world.called(self.name, sender, data)

    def method(self, sender, data):
        self.world.called(self.name, sender, data)

    def __reduce__(self):
        return (get_obs, (self.name,))

    def __deepcopy__(self, memo):
        return self


def get_obs(name):
    return Obs.REG[name]


class Sink:
    """Output stream of a statistics writer."""
    OUT = []

    def write(self, s):
        Sink.OUT.append(s)


def run(part, sim):
    from .. import world as W
    from ..seams import ENV
    do = part["do"]
    if do.get("mode") == "direct":
        return run_direct(do["d"], sim)
    cfg = do["cfg"]
    nsga = bool(cfg.get("nsga"))
    names = list(cfg["stats"])
    stats = []
    for nm in names:
        if nm == "bawf":
            stats.append(W.BestAverageWorstStatistics("{}|{}|{}"))
        elif nm == "moe":
            from eckity.multi_objective_evolution import \
                MOEBestWorstStatistics
            stats.append(MOEBestWorstStatistics(output_stream=Sink()))
        else:
            stats.append(W.make_stat(nm, "A"))
    over = {}
    if stats:
        over["statistics"] = stats[0] if len(stats) == 1 and cfg["stat1"] \
            else stats
    world = World(W, ENV, sim, do, cfg, None)
    if do.get("pre"):
        over["events"] = world.given()
    algo = world.algo = W.build(cfg, "A", sim, **over)
    world.setup()
    started = W.guarded(sim, algo.act, "act()") if (
        do["start"] == "act" and not cfg.get("wrap")) \
        else W.start(sim, algo, cfg)
    world.finish(started)
    if not started or sim.violations:
        return
    if world.saved is not None:
        sim.count("resumed_runs")
        b = world.restore()
        b.max_generation = do["save"]["gens"]
        w2 = world.for_copy(b)
        ok = W.guarded(sim, b.evolve, "evolve() of a restored copy")
        w2.finish(ok)


class World:
    """The model of one run's announcements."""

    def __init__(self, W, ENV, sim, do, cfg, algo):
        self.W, self.ENV, self.sim = W, ENV, sim
        self.do, self.cfg, self.algo = do, cfg, algo
        self.calls = []         # of the current announcement
        self.cur = None         # (pub, ev, required, optional)
        self.model = {e: [] for e in EVS}    # [(id, name)]
        self.seq = []
        self.occ = {e: 0 for e in EVS}
        self.gen = 0
        self.saved = None
        self.rows = {}          # generation -> (best set, worst set, average)
        self.inds = None
        self.gens_announced = []
        self.ids = {}
        self.resumed = False
        self.name = "the run"
        self.log0 = len(ENV.logs)
        self.sink0 = len(Sink.OUT)
        self.act = [0, 0]
        self.ctl = set()

    def pub(self, p):
        a = self.algo
        return {"algo": a, "breeder": a.breeder,
                "eval": a.population_evaluator}[p]

    def reg(self, e, name, cb):
        n = self.pub(e[0]).register(e[1], cb)
        ids = self.ids.setdefault(e[0], set())
        if n in ids:
            self.sim.fail("observer-id", "registering returned the identifier "
                          "%r a second time" % (n,))
        ids.add(n)
        self.model[e].append((n, name))
        if self.cur is not None and self.cur[0] == e:
            self.cur[2].add(n)

    def unreg(self, e, name):
        for n, x in list(self.model[e]):
            if x == name:
                self.pub(e[0]).unregister(e[1], n)
                self.model[e].remove((n, x))
                if self.cur is not None and self.cur[0] == e:
                    self.cur[2].add(n)

    def given(self):
        """A dictionary of events with subscribers."""
        events = {} if self.do["partial"] else {
            e: {} for e in ("evolution_finished", "before_operator", "init",
                            "after_operator", "after_generation")}
        ctl = set()
        for j, (k, kind) in enumerate(self.do["pre"]):
            e = EVS[k]
            subs = events.setdefault(e[1], {})
            # the controller of this announcement comes first
            for name in (["ctl%d" % k] if k not in ctl else []) + \
                    ["pre%d" % j]:
                o = Obs(name, self)
                o.event = e
                key = o if kind == "obj" else "key " + name \
                    if kind == "str" else kind + len(subs)
                while key in subs:
                    key += 1
                subs[key] = o
                self.model[e].append((key, name))
                if isinstance(key, int):
                    self.ids.setdefault(e[0], set()).add(key)
            ctl.add(k)
        self.ctl = ctl
        return events

    def setup(self):
        for j, k in enumerate(self.do.get("ghosts", ())):
            o = Obs("ghost%d" % j, self)
            o.event = EVS[k]
            self.reg(EVS[k], o.name, o if k % 2 else o.method)
        for j, k in enumerate(self.do.get("ghosts", ())):
            self.unreg(EVS[k], "ghost%d" % j)
        for j, e in enumerate(EVS):
            if j in self.ctl:
                continue
            o = Obs("ctl%d" % j, self)
            o.event = e
            self.reg(e, o.name, o)
        for o in self.do["obs"]:
            ob = Obs(o["name"], self)
            ob.event = (o["pub"], o["ev"])
            if o["on"] is None:
                self.add(o)
        if self.do["start"] == "act":
            self.algo.register("before_operator", self.before)
            self.algo.register("after_operator", self.after)

    def before(self, sender, data):
        self.act[0] += 1
        if self.seq:
            self.sim.fail("order", "before-event of the run after %s" %
                          self.seq[0][1])

    def after(self, sender, data):
        self.act[1] += 1
        if not self.seq or self.seq[-1][1] != "evolution_finished":
            self.sim.fail("order", "after-event of the run before its end")

    def __reduce__(self):
        return (get_world, ())

    def __deepcopy__(self, memo):
        return self

    def add(self, o):
        e = (o["pub"], o["ev"])
        ob = Obs.REG[o["name"]]
        cb = ob if len(o["name"]) % 2 else ob.method
        self.reg(e, o["name"], cb)
        if o.get("twice"):
            self.reg(e, o["name"], cb)

    # ---------------------------------------------------------- the calls
    def called(self, name, sender, data):
        if self.resumed and False:
            return
        ob = Obs.REG[name]
        e = ob.event
        if sender is not self.pub(e[0]):
            self.sim.fail("sender", "observer %s of %s was called by %r" % (
                name, e, type(sender).__name__))
        if name.startswith("ctl"):
            self.close()
            self.open(e)
            self.calls.append(name)
            self.check_data(name, e, data)
            self.trigger(e)
        else:
            if self.cur is None or self.cur[0] != e:
                self.sim.fail("stray-call", "observer %s of %s was called "
                              "outside its announcement" % (name, e))
                return
            self.calls.append(name)
            self.check_data(name, e, data)
        self.ENV.sched.point()

    def open(self, e):
        self.cur = [e, list(self.model[e]), set()]
        self.calls = []
        self.seq.append(e)
        W = self.W
        if e == ("breeder", "before_operator"):
            self.gen += 1
        if e == ("eval", "after_operator"):
            inds = W.subpop(self.algo).individuals
            self.inds = list(inds)
            if not (self.cfg.get("nsga")):
                a = [W.aug(self.cfg, i) for i in inds]
                p = [W.score(self.cfg, i) for i in inds]
                b, w = W.best_of(self.cfg, a), W.worst_of(self.cfg, a)
                self.rows[self.gen] = (
                    [y for x, y in zip(a, p) if W.close(x, b)],
                    [y for x, y in zip(a, p) if W.close(x, w)],
                    sum(p) / len(p), sum(i.size() for i in inds) / len(inds))
        if e == ("algo", "after_generation"):
            self.gens_announced.append(self.gen)
            if self.cfg.get("nsga"):
                f = [(i.fitness.front_rank, i.fitness.crowding,
                      i.get_pure_fitness())
                     for i in W.subpop(self.algo).individuals]
                last = max(x[0] for x in f)
                self.rows[self.gen] = [
                    sum(x[0] == 1 for x in f)] + [
                    sorted({tuple(map(float, x[2])) for x in f
                            if x[0] == r and x[1] == math.inf})
                    for r in (1, last)] + [str(last)]

    def close(self):
        if self.cur is None:
            return
        e, must, flex = self.cur
        want = [n for i, n in must if i not in flex]
        allowed = [n for i, n in must] + [
            n for i, n in self.model[e] if i in flex]
        got = list(self.calls)
        self.cur = None
        self.sim.count("announcements")
        if not flex:
            if got != want:
                self.sim.fail("observer-calls", "announcement %s #%d of %s "
                              "called %s, registered: %s" % (
                                  e, self.occ[e], self.name, got, want))
            return
        self.sim.count("announcements_with_changes")
        rest = list(allowed)
        for n in got:
            if n not in rest:
                self.sim.fail("observer-calls", "announcement %s of %s called "
                              "%s, registered: %s" % (
                                  e, self.name, got, allowed))
                return
            rest.remove(n)
        for n in set(want):
            if got.count(n) < want.count(n):
                self.sim.fail("observer-calls", "announcement %s of %s called "
                              "%s, registered: %s" % (
                                  e, self.name, got, want))

    def trigger(self, e):
        n = self.occ[e]
        self.occ[e] += 1
        if not self.resumed:
            k = EVS.index(e)
            for o in self.do["obs"]:
                if o["on"] == [k, n]:
                    self.add(o)
                    self.sim.count("registered_during_run")
                if o["off"] == [k, n]:
                    self.unreg((o["pub"], o["ev"]), o["name"])
                    self.sim.count("unregistered_during_run")
            sv = self.do["save"]
            if sv and e == ("algo", "after_generation") and \
                    sv["when"] == "event" and self.gen == sv["at"]:
                self.save()
            elif sv and e == ("algo", "evolution_finished") and \
                    sv["when"] == "end":
                self.save()

    def save(self):
        # at a pause the announcement in progress is complete for the model
        how = self.do["save"]["how"]
        World.CUR = self
        if how == "deepcopy":
            self.saved = copy.deepcopy(self.algo)
        else:
            import cloudpickle
            self.saved = cloudpickle.dumps(self.algo)
        self.saved_model = {e: list(v) for e, v in self.model.items()}

    def restore(self):
        if self.do["save"]["how"] == "deepcopy":
            return self.saved
        import pickle
        return pickle.loads(self.saved)

    def for_copy(self, b):
        w = World(self.W, self.ENV, self.sim, self.do, self.cfg, b)
        w.model = self.saved_model
        w.resumed = True
        w.name = "the restored run"
        for o in Obs.REG.values():
            o.world = w
        self.W.state("A").stat_rows = []
        return w

    # ---------------------------------------------------------- the data
    def check_data(self, name, e, data):
        W, a, sim = self.W, self.algo, self.sim
        if e[0] == "algo":
            if data.get("population") is not a.population:
                sim.fail("event-data", "%s: the announced population is not "
                         "the run's" % (e,))
            if "generation_num" in data and \
                    data["generation_num"] != self.gen and not (
                        self.gen == 0 and self.resumed):
                sim.fail("event-data", "%s: generation %r announced in "
                         "generation %d" % (e, data["generation_num"],
                                            self.gen))
            if e[1] == "init":
                return
            if data.get("generation_num") is None:
                sim.fail("event-data", "%s carries no generation number" % (
                    e,))
            inds = W.subpop(a).individuals
            if not self.cfg.get("nsga"):
                if len(inds) != len(self.inds or ()) or any(
                        x is not y for x, y in zip(inds, self.inds)):
                    sim.fail("event-data", "%s: the announced individuals are "
                             "not those evaluated in generation %d" % (
                                 e, self.gen))
                    return
                if data.get("best_of_run_") is not a.best_of_run_ or \
                        a.best_of_run_ is None:
                    sim.fail("event-data", "%s: announced best of run is %r" %
                             (e, data.get("best_of_run_")))
                if self.gen:
                    b = data.get("best_of_gen")
                    if b is None or not any(b is i for i in inds) or \
                            not any(W.close(W.score(self.cfg, b), x)
                                    for x in self.rows[self.gen][0]):
                        sim.fail("event-data", "%s: announced best of "
                                 "generation %d is %r" % (e, self.gen, b))
            elif self.gen:
                f = data.get("best_of_gen")
                want = [i for i in inds if i.fitness.front_rank == 1]
                if not f or len(f) != 1 or len(f[0]) != len(want) or any(
                        x is not y for x, y in zip(f[0], want)):
                    sim.fail("event-data", "%s: announced Pareto front is not "
                             "that of generation %d" % (e, self.gen))
        if e == ("eval", "after_operator"):
            if data.get("applied_individuals") is not a.population:
                sim.fail("event-data", "after evaluating: announced %r" % (
                    data,))
            if any(not i.fitness.is_fitness_evaluated()
                   for i in W.subpop(a).individuals):
                sim.fail("event-data", "announced as evaluated, but not all "
                         "individuals are")

    # ---------------------------------------------------------- afterwards
    def finish(self, ok):
        sim, W = self.sim, self.W
        self.close()
        if not ok:
            return
        stop = self.gen
        b, e = "before_operator", "after_operator"
        want = [("eval", b), ("eval", e), ("algo", "init")]
        for _ in range(stop):
            want += [("breeder", b), ("breeder", e), ("eval", b), ("eval", e),
                     ("algo", "after_generation")]
        if stop == 0 and len(self.seq) > 4:
            want.append(("algo", "after_generation"))
        want.append(("algo", "evolution_finished"))
        if self.seq != want:
            k = next((k for k, (x, y) in enumerate(zip(self.seq, want))
                      if x != y), min(len(self.seq), len(want)))
            sim.fail("order", "%s announced %s ..., expected %s ... from "
                     "announcement %d on" % (self.name, self.seq[k:k + 4],
                                             want[k:k + 4], k))
            return
        if self.do["start"] == "act" and not self.resumed and \
                not self.cfg.get("wrap") and self.act != [1, 1]:
            sim.fail("order", "act() announced its start and end %s times" %
                     self.act)
        gens = self.gens_announced
        sim.log(self.seq, gens, self.calls)
        self.check_stats(gens)

    def check_stats(self, gens):
        import re
        cfg, sim, W = self.cfg, self.sim, self.W
        if self.resumed and gens == [0]:
            gens = None     # number of an immediately ended resumed run
        rows = W.state("A").stat_rows
        logs = [(n, m) for _, n, m in self.ENV.logs[self.log0:]
                if n.startswith("eckity.statistics")]
        num = r"[-+0-9.einfa]+"
        for nm in cfg["stats"]:
            if nm.startswith("rec"):
                got = [r for r in rows if r[0] == nm]
                if gens is not None and [r[1] for r in got] != gens:
                    sim.fail("statistics", "%s: statistics %s reported "
                             "generations %s, completed were %s" % (
                                 self.name, nm, [r[1] for r in got], gens))
                    continue
                rep = [r[2:] + (None,) for r in got] if not cfg.get("nsga") \
                    else []
            elif nm == "moe":
                txt = "".join(Sink.OUT[self.sink0:])
                g = [int(x) for x in re.findall(r"generation #(\d+)", txt)]
                if gens is not None and g != gens:
                    sim.fail("statistics", "%s: statistics reported "
                             "generations %s, completed were %s" % (
                                 self.name, g, gens))
                    continue
                k = [int(x) for x in re.findall(
                    r"first front has (\d+) individuals", txt)]
                corners = [[sorted({tuple(map(float, re.findall(
                    r"[-+]?(?:\d[\d.e+-]*|inf|nan)", re.sub(
                        r"np\.\w+\(|array\(", "", c)))) for c in re.findall(
                            r"\[([^\[\]]+)\]", x)}) for x in re.findall(
                    which + r" front's corners: (.*)", txt)]
                    for which in ("first", "last")]
                last = re.findall(r"has (\S+) fronts", txt)
                rep = [list(x) for x in zip(k, *corners, last)]
                w = [self.rows[x] for x in gens or []]
                if gens is not None and rep != w:
                    sim.fail("statistics", "%s: reported first fronts of this "
                             "many individuals, corners, and fronts: %s; they "
                             "have %s" % (self.name, rep, w))
                continue
            else:
                mod = {"baw": "best_average_worst", "bawf":
                       "best_average_worst", "baws": "best_avg_worst_size",
                       "min": "minimal_print"}[nm]
                mine = [m for n, m in logs if mod in n]
                txt = "\n".join(mine)
                g = [int(x) for x in re.findall(r"generation #(\d+)", txt)]
                if gens is not None and g != gens:
                    sim.fail("statistics", "%s: statistics %s reported "
                             "generations %s, completed were %s" % (
                                 self.name, nm, g, gens))
                    continue
                if nm == "min":
                    continue
                if nm == "bawf":
                    rep = [tuple(map(float, m.split("|"))) + (None,)
                           for m in mine if "|" in m]
                else:
                    def col(s):
                        return [float(x) for x in re.findall(
                            s + r" (%s)" % num, txt)]
                    cols = [col("best fitness"), col("worst fitness"),
                            col("average fitness")]
                    cols.append(col("average size") if nm == "baws" else
                                [None] * len(cols[0]))
                    rep = list(zip(*cols))
                if gens is not None and len(rep) != len(gens):
                    sim.fail("statistics", "%s: %d reports of statistics %s "
                             "for %d generations" % (self.name, len(rep), nm,
                                                     len(gens)))
                    continue
            sim.count("statistics_reports", len(rep))
            if gens is None:
                continue
            for g, (b, w, avg, size) in zip(gens, rep):
                eb, ew, ea, es = self.rows[g]
                if not any(W.close(b, x) for x in eb) or \
                        not any(W.close(w, x) for x in ew) or \
                        not W.close(avg, ea, scale=scale(eb, ew)) or \
                        size is not None and not W.close(size, es):
                    sim.fail("statistics", "%s, generation %d: statistics %s "
                             "reports best %r worst %r average %r size %r, "
                             "they are %r %r %r %r" % (
                                 self.name, g, nm, b, w, avg, size,
                                 eb[:1], ew[:1], ea, es))
                    return


def scale(*vals):
    return max([abs(float(x)) for v in vals for x in v
                if math.isfinite(float(x))], default=0.0)


def get_world():
    return World.CUR


# ------------------------------------------------ components used directly
class Seat:
    """An observer of a component; shared by the copies of the component."""
    REG = {}

    def __init__(self, name, does, table):
        self.name, self.does, self.table = name, does, table
        Seat.REG[name] = self

    def __call__(self, sender, data):
        self.table.call(self, sender, data)

    def __reduce__(self):
        return (get_seat, (self.name,))

    def __deepcopy__(self, memo):
        return self


def get_seat(name):
    return Seat.REG[name]


class Refused(Exception):
    pass


class Table:
    """Who is registered at one component, and who was called."""

    def __init__(self, sim, comp):
        self.sim, self.comp = sim, comp
        self.subs = {}      # event -> [[id, name, present from the start]]
        self.calls = []
        self.now = None
        self.extra = 0

    def call(self, seat, sender, data):
        sim = self.sim
        t = Table.CUR
        if sender is not t.comp:
            sim.fail("sender", "observer %s was called by another object, "
                     "%r" % (seat.name, sender))
        ev = [e for e, l in t.subs.items() for r in l if r[1] == seat.name]
        t.calls.append((ev[0] if ev else None, seat.name, data))
        if seat.does == "leave":
            t.unreg(seat.name)
        elif seat.does == "join":
            t.extra += 1
            t.reg(ev[0], Seat("x%d" % t.extra, None, t), True)
        elif seat.does == "fail":
            raise Refused(seat.name)

    def reg(self, ev, seat, late=False):
        n = self.comp.register(ev, seat)
        name = seat.name if seat is not None else None
        for e, l in self.subs.items():
            if any(r[0] == n for r in l):
                self.sim.fail("observer-id", "registering at %s returned the "
                              "identifier %r of another observer" % (
                                  type(self.comp).__name__, n))
        self.subs.setdefault(ev, []).append([n, name, late])

    def unreg(self, name):
        for ev, l in self.subs.items():
            for r in list(l):
                if r[1] == name:
                    self.comp.unregister(ev, r[0])
                    l.remove(r)


def run_direct(d, sim):
    import pickle
    from .. import world as W
    cfg, kind = d["cfg"], d["kind"]
    st = W.state("H", cfg, sim)
    ev = W.Ev("H", cfg)
    inds = W.make_creator(cfg).create_individuals(cfg["pop"], cfg["hib"])
    arity = 1

    class User(W.GO.GeneticOperator):
        def __init__(self, events):
            super().__init__(probability=1.0, arity=1, events=events)

        def apply(self, individuals):
            self.applied_individuals = individuals
            self.publish("mine")
            return individuals

    if kind == "op":
        comp = W.make_op(d["op"], cfg, "H")
        arity = G.arity(d["op"])
    elif kind == "user":
        comp = User({"list": ["mine"], "some": {"mine": {}}, "dict": {
            e: {} for e in NAMES}}[d["events"]])
    elif kind == "boom":
        comp = W.BoomOp("H", d["at"], False, d["exc"])
    elif kind == "ev":
        comp = ev
    else:
        comp = {"tour": lambda: W.GO.TournamentSelection(
            2, higher_is_better=cfg["hib"]),
            "elite": lambda: W.GO.ElitismSelection(
                1, higher_is_better=cfg["hib"]),
            "fp": lambda: W.GO.FitnessProportionateSelection(
                higher_is_better=cfg["hib"])}[d["sel"]]()
    if arity > len(inds):
        return
    t = Table(sim, comp)
    Table.CUR = t
    does = {}

    def prepare():
        if kind in ("sel",):
            for i in inds:
                if not i.fitness.is_fitness_evaluated():
                    ev.evaluate(i, inds)
        elif kind == "ev":
            for i in inds:
                i.set_fitness_not_evaluated()

    def names(e):
        return [r[1] for r in t.subs.get(e, []) if r[1] is not None]

    for n, s in enumerate(d["steps"]):
        k = s["s"]
        where = "step %d (%s) of %s" % (n, k, type(t.comp).__name__)
        if sim.violations:
            return
        sim.count("direct_" + k)
        if k == "reg":
            if s["none"]:
                t.reg(s["ev"], None)
            else:
                does[s["name"]] = s.get("does")
                t.reg(s["ev"], Seat(s["name"], s.get("does"), t))
        elif k == "unreg":
            t.unreg(s["name"])
        elif k == "copy":
            how = s["how"]
            try:
                if how == "deepcopy":
                    c = copy.deepcopy(t.comp)
                else:
                    import cloudpickle
                    c = pickle.loads(cloudpickle.dumps(t.comp))
            except Exception as e:
                sim.fail("raised", "%s: copying raised %r" % (where, e))
                return
            if s["keep"]:
                u = Table(sim, c)
                u.subs = {e: [list(r) for r in l] for e, l in t.subs.items()}
                u.extra = t.extra
                t = Table.CUR = u
        elif k in ("act", "publish"):
            prepare()
            t.calls = []
            who = [inds[(s.get("at", 0) + j) % len(inds)]
                   for j in range(arity)]
            # what should be called: those present when it is announced
            order = ["before_operator", "mine", "after_operator"] \
                if k == "act" and kind == "user" else \
                ["before_operator", "after_operator"] if k == "act" else \
                [s["ev"]]
            want = [(e, x) for e in order for x in names(e)]
            cut = [j for j, (e, x) in enumerate(want)
                   if does.get(x) == "fail"]
            booms = kind == "boom" and k == "act" and st.op_calls == d["at"]
            if booms and not (cut and want[cut[0]][0] == "before_operator"):
                want = [w for w in want if w[0] == "before_operator"]
                cut = []
            exc = None
            nested = t.extra
            try:
                if k == "publish":
                    t.comp.publish(s["ev"])
                elif kind == "sel":
                    dest = []
                    t.comp.act((list(inds), dest))
                elif kind == "ev":
                    t.comp.act((who[0], inds))
                else:
                    t.comp.act(list(who))
            except Exception as e:
                exc = e
            if cut:
                want = want[:cut[0] + 1]
            # callbacks that leave during an announcement or join one
            got = [(e, x) for e, x, _ in t.calls if not x.startswith("x")
                   or (e, x) in want]
            got = [(e or w[0], x) for (e, x), w in
                   zip(got, want + got[len(want):])]
            if got != want:
                sim.fail("observer-calls", "%s: called %s, registered %s" % (
                    where, got, want))
                return
            if cut and not isinstance(exc, Refused):
                sim.fail("swallowed", "%s: the exception of an observer did "
                         "not reach the caller: %r" % (where, exc))
            elif booms and not cut:
                if exc is None or "op H" not in str(exc):
                    sim.fail("swallowed", "%s: the exception of the operator "
                             "did not reach the caller: %r" % (where, exc))
            elif exc is not None and not cut:
                sim.fail("raised", "%s raised %r" % (where, exc))
                return
            sure = kind in ("user", "ev") or kind == "op" and \
                d["op"]["p"] == 1.0 and d["op"]["op"] in (
                    "ident", "kxo") or kind == "op" and \
                d["op"]["p"] == 1.0 and cfg["enc"] in ("bits", "ints")
            for e, x, data in t.calls:
                if e == "after_operator" and sure and k == "act":
                    a = data.get("applied_individuals")
                    if a is None or len(a) != len(who) or any(
                            p is not q for p, q in zip(a, who)):
                        sim.fail("event-data", "%s: announced %r as applied, "
                                 "not %s" % (where, a, [i.id for i in who]))
                        return
            sim.count("direct_calls", len(t.calls))
        sim.log(n, k, [(e, x) for e, x, _ in t.calls])
