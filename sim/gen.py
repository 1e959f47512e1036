"""Scenario generation (pure: nothing of eckity is imported here)."""
import copy
import math

UNTYPED = ["f_add", "f_sub", "f_mul", "f_div", "f_neg", "f_max", "f_min",
           "f_iflte0", "f_abs", "f_sqrt", "f_log", "f_inv", "f_iflte", "f_sin"]


RETS = ["np", "0d", "int", "npi", "big", "inf", "near", "tiny"]


def coin(rng, p=0.5):
    return rng.random() < p


def seed32(rng):
    r = rng.random()
    if r < 0.08:
        return 0
    if r < 0.16:
        return 2 ** 32 - 1 - rng.randrange(3)
    return rng.randrange(2 ** 32)


def focus(rng):
    """Some functions of the code under test, interrupted often."""
    return {"salt": rng.randrange(2 ** 31), "mod": rng.choice([3, 8, 25]),
            "p": rng.choice([0.1, 0.3, 0.6]), "op": coin(rng, 0.4),
            "meet": rng.choice([0, 5000, 50000])}


def sched(rng, threads=True, **kw):
    """A scheduling policy drawn per scenario (swarm)."""
    d = {"seed": rng.randrange(2 ** 31)}
    if not threads:
        d["policy"] = "rr"
        d["trace"] = False
        d.update(kw)
        return d
    r = rng.random()
    if r < 0.15:
        d["policy"] = "rr"
    elif r < 0.35:
        d["policy"] = "rand"
        d["p"] = 0.0
    elif r < 0.8:
        d["policy"] = "rand"
        d["p"] = rng.choice([0.002, 0.01, 0.05, 0.2])
    else:
        d["policy"] = "pct"
        d["d"] = rng.randrange(1, 6)
        d["est"] = rng.choice([300, 2000, 8000, 30000])
    if coin(rng, 0.12):
        d["opcodes"] = True
    elif coin(rng, 0.25):
        d["focus"] = focus(rng)
    d.update(kw)
    return d


def light(s):
    """No costly tracing (long runs)."""
    s.pop("opcodes", None)
    s.pop("focus", None)


def part(rng, do, threads=True, extreme=0.3, **kw):
    p = {"sched": sched(rng, threads), "do": do,
         "clock": rng.choice([1_700_000_000.125, 0.0, 3.25, 1.5,
                              1234567890.0, 4294967295.75,
                              1_700_000_000.0 + rng.randrange(10 ** 6) / 1e3,
                              17_000_000_000.5]),
         "default_workers": rng.choice([1, 2, 3, 5, 8]),
         "hash_salt": rng.randrange(2 ** 31),
         "hashseed": rng.randrange(2),
         "pre_random": rng.randrange(2 ** 31)}
    if extreme and coin(rng, extreme):
        p["draws"] = {"q": rng.choice([0.02, 0.1, 0.4, 0.9]),
                      "seed": rng.randrange(2 ** 31)}
    p.update(kw)
    return p


def bounds(rng, enc, length):
    def one():
        if enc == "bits":
            return [0, 1]
        if enc == "ints":
            a = rng.choice([0, -5, 1, -100, 7])
            return [a, a + rng.choice([0, 1, 2, 10, 1000])]
        a = rng.choice([0.0, -1.0, -5.12, 0.5, 100.0])
        return [a, a + rng.choice([1.0, 0.25, 10.24, 1e-3, 1000.0])]
    if coin(rng, 0.35):
        return {"per": [one() for _ in range(length)]}
    return {"one": one()}


def vec_ops(rng, enc, length, kmax=None, weird=True):
    ops = []
    p = lambda: rng.choice([0.0, 0.2, 0.5, 0.7, 1.0, 1.0])  # noqa
    if length >= 2 and coin(rng, 0.85):
        ops.append({"op": "kxo", "k": rng.randrange(1, min(length - 1, 5) + 1)
                    if length > 2 else 1, "p": p()})
    muts = {"bits": ["bitflip", "nflip", "npoint"],
            "ints": ["intn", "int1", "npoint"],
            "floats": ["funi1", "funin", "fgauss1", "fgaussn", "npoint"]}[enc]
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        m = rng.choice(muts)
        o = {"op": m, "p": p()}
        if m in ("nflip", "intn", "funin", "fgaussn", "npoint"):
            o["n"] = rng.randrange(1, length + 1)
        if m in ("nflip", "int1"):
            o["pe"] = rng.choice([0.0, 0.2, 1.0])
        if m in ("fgauss1", "fgaussn"):
            o["sigma"] = rng.choice([0.01, 1.0, 100.0])
            o["attempts"] = rng.choice([1, 2, 5])
        ops.append(o)
    if coin(rng, 0.1):
        ops.append({"op": "ident", "p": p()})
    rng.shuffle(ops)
    return ops or [{"op": "ident", "p": 1.0}]


def tree_ops(rng, typed):
    ops = []
    p = lambda: rng.choice([0.0, 0.2, 0.5, 0.9, 1.0, 1.0])  # noqa
    if coin(rng, 0.85):
        ops.append({"op": "sxo", "p": p(), "attempts": rng.choice([1, 1, 3])})
    if coin(rng, 0.6):
        ops.append({"op": "smut", "p": p(), "attempts": rng.choice([1, 1, 3]),
                    "depth": rng.choice([[0, 2], [1, 2], [2, 4], [1, 1],
                                         [0, 1]])})
    if coin(rng, 0.4):
        ops.append({"op": "erc", "p": p()})
    if coin(rng, 0.1):
        ops.append({"op": "ident", "p": p()})
    rng.shuffle(ops)
    return ops or [{"op": "sxo", "p": 1.0, "attempts": 1}]


def arity(o):
    return o.get("ar") or o.get("arity") or (
        2 if o["op"] in ("kxo", "sxo") else 1)


def unit(c):
    """The population size has to be a multiple of this."""
    u = 1
    for o in c["ops"]:
        u = math.lcm(u, arity(o))
    return u


def cap(c, n=None):
    """Limit the population to n and make it fit the operators."""
    if n is not None and c.get("creator") != "half":
        c["pop"] = min(c["pop"], n)
    u = unit(c)
    c["pop"] = max(c["pop"] + -c["pop"] % u, 1)
    c["elite"] = min(c["elite"], c["pop"])
    if c["sel"] and c["sel"].get("rep") is False:
        c["sel"]["t"] = min(c["sel"]["t"], c["pop"])


def groups(rng, ops):
    """Operators acting on unusual numbers of individuals."""
    for o in ops:
        if o["op"] in ("kxo", "smut", "ident") or not coin(rng, 0.3):
            continue
        o["ar"] = rng.choice([3, 3, 4] if o["op"] == "sxo" else [2, 2, 3])
    return ops


def tree_cfg(rng, typed=None):
    c = {}
    typed = coin(rng, 0.4) if typed is None else typed
    c["typed"] = typed
    if typed:
        c["fset"] = rng.choice(["float", "mixed", "mixed", "int"])
        r = rng.random()
        if c["fset"] == "float":
            c["erc"] = rng.choice([None, [-1.0, 1.0], [0.0, 0.5]])
        elif c["fset"] == "int":
            c["erc"] = rng.choice([None, [-3, 9]])
        else:
            c["erc"] = rng.choice([None, [-1.0, 1.0], [-400, 400], [0, 3]])
        c["root"] = {"float": "float", "int": "int",
                     "mixed": rng.choice(["float", "bool", "int"])}[c["fset"]]
        c["consts"] = coin(rng, 0.4) and rng.choice([1, 2, 3])
    else:
        k = rng.randrange(2, 6)
        c["funcs"] = rng.sample(UNTYPED, k)
        if "f_add" not in c["funcs"]:
            c["funcs"].append("f_add")
        c["erc"] = rng.choice([None, [-1.0, 1.0], [-10, 10], [0.0, 1e-3],
                               [500, 505], [0, 3]])
        c["consts"] = coin(rng, 0.4) and rng.choice([1, 2, 3])
    c["nvars"] = rng.randrange(1, 4)
    if coin(rng, 0.15):
        c["nvars"] = rng.randrange(4, 12)
    lo = rng.choice([0, 1, 1, 2])
    c["depth"] = [lo, lo + rng.choice([0, 1, 2])]
    if coin(rng, 0.05):
        c["depth"] = rng.choice([[3, 4], [4, 4], [0, 5], [2, 5]])
    if c["depth"][1] == 0:
        c["depth"][1] = 1
    c["creator"] = rng.choice(["full", "grow", "half"])
    if c["creator"] == "grow":
        c["prune"] = rng.choice([0.0, 0.5, 0.9])
    return c


def cfg(rng, encs=("bits", "ints", "floats", "tree"), small=True, **kw):
    """A configuration of a single-objective run."""
    enc = rng.choice(encs)
    c = {"enc": enc, "hib": coin(rng)}
    r = rng.random()
    if r < 0.1:
        pop = 2
    elif r < 0.13:
        pop = rng.choice([50, 64, 100, 130])
    elif r < 0.85:
        pop = 2 * rng.randrange(2, 7)
    else:
        pop = 2 * rng.randrange(7, 16)
    c["gens"] = rng.choice([0, 1, 2, 3, 3, 4, 5, 6])
    if enc == "tree":
        c.update(tree_cfg(rng))
        if c["creator"] == "half":
            need = 2 * (c["depth"][1] + 1 - c["depth"][0])
            pop = max(pop, need + need % 2)
        c["ops"] = tree_ops(rng, c["typed"])
        c["gens"] = min(c["gens"], 4)
        pop = min(pop, 16)
        if pop <= 8 and coin(rng, 0.06):
            c["gens"] = rng.choice([10, 16])
        c["bloat"] = rng.choice([0.0, 0.0, 0.1, 5.0])
        c["fit"] = rng.choice(["crc", "coarse", "size", "exec", "crc"])
    else:
        length = rng.choice([1, 2, 2, 3, 5, 8, 20])
        if pop <= 10 and coin(rng, 0.05):
            length = rng.choice([33, 70, 150])
        c["len"] = length
        c["bounds"] = bounds(rng, enc, length)
        c["ops"] = vec_ops(rng, enc, length)
        c["fit"] = rng.choice(["crc", "coarse", "sum", "crc"])
        if pop <= 8 and coin(rng, 0.06):
            c["gens"] = rng.choice([12, 20, 33])
        elif pop >= 50:
            c["gens"] = min(c["gens"], 2)
    if coin(rng, 0.2):
        groups(rng, c["ops"])
    u = unit(c)
    if u % 2 and coin(rng, 0.5):
        pop += 1 if coin(rng) or c.get("creator") == "half" else -1
        if enc != "tree" and coin(rng, 0.1):
            pop = 1
    pop += -pop % u
    c["pop"] = pop
    c["neg"] = coin(rng, 0.3)
    sel = rng.random()
    if sel < 0.6:
        t = rng.choice([1, 2, 3, 4, 10])
        rep = coin(rng, 0.7)
        if not rep:
            t = min(t, pop)
        c["sel"] = {"s": "tour", "t": t, "rep": rep}
    elif sel < 0.8:
        c["sel"] = {"s": "fp"}
        c["neg"] = False
        if c["hib"]:
            c["bloat"] = 0.0
    else:
        c["sel"] = None
    c["elite"] = rng.choice([0, 0, 1, 2, pop // 2, pop]) if coin(
        rng, 0.7) else rng.randrange(0, pop + 1)
    c["elite"] = min(c["elite"], pop)
    c["exec"] = rng.choice(["thread", "thread", "process", None])
    c["workers"] = rng.choice([None, 1, 2, 3, 5])
    c["method"] = rng.choice(["map", "submit", None])
    c["seed"] = seed32(rng)
    c["parents"] = coin(rng, 0.3)
    c["term"] = None
    c["stats"] = rng.choice([[], ["baw"], ["rec"], ["min", "rec"],
                             ["baw", "rec"]])
    c["slow"] = rng.choice([0, 0, 1, 1, 2])
    c["cache"] = coin(rng, 0.15)
    c["given"] = coin(rng, 0.1) and rng.choice(
        ["new", "veterans", "stale"])
    c["creators"] = rng.choice([1, 1, 1, 1, 2, 3])
    c["pcr"] = coin(rng)
    c["ret"] = rng.choice(RETS) if coin(rng, 0.3) else None
    if c["ret"] in ("big", "inf"):
        c["bloat"] = 0.0
        if (c["sel"] or {}).get("s") == "fp":
            c["sel"] = None
    if enc != "tree":
        c["genec"] = coin(rng, 0.1)
    elif not c["typed"]:
        c["clos"] = rng.choice([0, 0, 0, 1])
    c.update(kw)
    return c


def nsga_cfg(rng, **kw):
    enc = rng.choice(["bits", "ints", "floats"])
    length = rng.choice([2, 3, 5, 8])
    c = {"enc": enc, "nsga": True, "len": length,
         "bounds": bounds(rng, enc, length),
         "ops": vec_ops(rng, enc, length),
         "pop": 2 * rng.randrange(1, 9), "gens": rng.choice([0, 1, 2, 3, 4]),
         "nobj": rng.choice([1, 2, 2, 2, 3]),
         "fit": rng.choice(["crc", "coarse", "coarse3", "mixed"]),
         "neg": coin(rng, 0.3),
         "exec": rng.choice(["thread", "thread", "process", None]),
         "workers": rng.choice([None, 1, 2, 3]),
         "method": rng.choice(["map", "submit", None]),
         "seed": seed32(rng), "parents": coin(rng, 0.2), "term": None,
         "stats": rng.choice([[], ["rec"]]), "slow": rng.choice([0, 0, 1]),
         "sel": rng.choice([None, {"s": "tour", "t": 2, "rep": True}]),
         "elite": 0, "defaults": coin(rng, 0.5), "cache": False,
         "ret": rng.choice([None, None, None, "tuple", "arr"])}
    c["hib"] = [coin(rng) for _ in range(c["nobj"])] if coin(rng, 0.6) \
        else coin(rng)
    c.update(kw)
    return c


SAFE = ["f_add", "f_sub", "f_neg", "f_max", "f_min", "f_abs", "f_sin",
        "f_iflte0"]


def sk_cfg(rng, **kw):
    """A run with a bundled regression or classification evaluator."""
    c = cfg(rng, encs=("tree",))
    c["ret"] = None
    c["sk"] = rng.choice(["reg", "clf"])
    c["fit"] = "sk"
    c["gens"] = min(c["gens"], 3)
    c["rows"] = rng.choice([1, 2, 3, 6, 10])
    c["dseed"] = rng.randrange(10 ** 6)
    c["ints"] = coin(rng, 0.25)
    c["metric"] = rng.choice(["default", "default", "user", "mse"])
    c["neg"] = False
    if c["sk"] == "clf":
        c["ncls"] = rng.choice([2, 2, 3, 5])
        c["clf"] = rng.choice(["sigmoid", "sigmoid", "argmax"])
        if c["metric"] == "mse":
            c["metric"] = "user"
    c["wrap"] = coin(rng)
    c["typed"] = coin(rng, 0.3) or c.get("clf") == "argmax"
    if c["typed"]:
        c.update(fset="sk", root="float", consts=coin(rng, 0.2),
                 erc=rng.choice([None, [-1.0, 1.0]]))
        if c.get("clf") == "argmax":
            c.update(fset="skarg", root="argmax")
            if c["depth"][0] == 0:
                c["depth"] = [1, 2]
            if c["creator"] == "half":
                c["creator"] = "full"
    else:
        c.update(root=None, fset=None)
        c["funcs"] = rng.sample(SAFE, rng.randrange(1, 4)) + ["f_add"] \
            if c["metric"] == "default" or c["sk"] == "clf" \
            else rng.sample(UNTYPED, 3) + ["f_add"]
        c["funcs"] = sorted(set(c["funcs"]))
        if c["metric"] != "user" and c["sk"] == "reg":
            c["funcs"] = [f for f in c["funcs"] if f in SAFE]
        c["erc"] = rng.choice([None, [-1.0, 1.0], [-10, 10], [0.0, 1e-3]])
    c["ops"] = tree_ops(rng, c["typed"])
    if c.get("clf") == "argmax":
        for o in c["ops"]:
            if o["op"] == "smut" and o["depth"][0] == 0:
                o["depth"] = [1, 2]
    if coin(rng, 0.1):
        groups(rng, c["ops"])
    cap(c)
    c.update(kw)
    return c


def env_faults(rng, c):
    """Faults that delay but do not fail."""
    f = []
    for _ in range(rng.choice([0, 0, 1, 3])):
        f.append({"kind": "stall", "at": rng.randrange(
            max(1, c["pop"] * (c["gens"] + 1))),
            "v": rng.choice([0.5, 30.0, 3600.0])})
    return f


# ------------------------------------------------------------ minimisation
def _cfgs(x, path=()):
    if isinstance(x, dict):
        if "enc" in x and "pop" in x:
            yield path
        for k, v in x.items():
            yield from _cfgs(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from _cfgs(v, path + (i,))


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def generic_shrinks(scn, configs=True):
    """Smaller variants of a scenario: fewer faults, simpler configurations,
    simpler schedules."""
    for k, part_ in enumerate(scn["parts"]):
        if part_.get("faults"):
            for j in range(len(part_["faults"])):
                c = copy.deepcopy(scn)
                del c["parts"][k]["faults"][j]
                yield c
        if part_.get("draws"):
            c = copy.deepcopy(scn)
            del c["parts"][k]["draws"]
            yield c
        s = part_.get("sched", {})
        if s.get("opcodes"):
            c = copy.deepcopy(scn)
            del c["parts"][k]["sched"]["opcodes"]
            yield c
        if s.get("focus"):
            c = copy.deepcopy(scn)
            del c["parts"][k]["sched"]["focus"]
            yield c
        if s.get("policy") not in (None, "rr"):
            c = copy.deepcopy(scn)
            c["parts"][k]["sched"] = dict(
                s, policy="rr", p=0.0)
            yield c
    if not configs:
        return
    paths = list(_cfgs(scn["parts"]))
    # the same configuration may occur in several parts: change all alike
    seen = []
    for path in paths:
        cf = _get(scn["parts"], path)
        if cf in seen:
            continue
        seen.append(cf)
        same = [p for p in paths if _get(scn["parts"], p) == cf]
        for key, val in _smaller(cf):
            c = copy.deepcopy(scn)
            for p in same:
                t = _get(c["parts"], p)
                if key == "pop":
                    t["elite"] = min(t.get("elite", 0), val)
                t[key] = val
            yield c


def _smaller(cf):
    if cf.get("gens", 0) > 1:
        yield "gens", 1
        yield "gens", cf["gens"] - 1
    if cf["enc"] != "tree" and cf["pop"] > 2:
        sel = cf.get("sel") or {}
        u = math.lcm(2, unit(cf))
        lo, half = u, cf["pop"] // 2
        if sel.get("s") == "tour" and not sel.get("rep"):
            lo = sel["t"] + -sel["t"] % u
        if lo < cf["pop"]:
            yield "pop", lo
            yield "pop", max(lo, half + -half % u)
    for j in range(len(cf.get("ops", []))):
        if len(cf["ops"]) > 1:
            yield "ops", cf["ops"][:j] + cf["ops"][j + 1:]
    if cf.get("elite"):
        yield "elite", 0
        if cf["elite"] > 1:
            yield "elite", 1
    if cf.get("stats"):
        yield "stats", []
    if cf.get("slow"):
        yield "slow", 0
    if cf.get("exec") == "process":
        yield "exec", "thread"
    if cf.get("workers") not in (1, 2):
        yield "workers", 2
    if cf.get("workers") == 2:
        yield "workers", 1
    for k in ("parents", "cache", "given", "genec"):
        if cf.get(k):
            yield k, False
    if cf.get("creators", 1) > 1:
        yield "creators", 1
    if cf.get("ret"):
        yield "ret", None
    if cf.get("sel"):
        yield "sel", None
