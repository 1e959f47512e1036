"""C07: a run resumed from a saved state continues as the uninterrupted run."""
import base64
import copy
import math

from .. import gen as G
from .c02 import diff

TIERS = {"quick": {"runs": 1100}, "thorough": {"runs": 20000}}
RULE = ("Each seed draws a configuration, runs it uninterrupted, runs it "
        "again in another simulated process that saves its state at ends of "
        "generations and crashes at a drawn evaluation or scheduler step, "
        "restores a drawn surviving state in a third process with another "
        "environment and compares all generations.")
OWN_SHRINKS = True

PICKLABLE = ("kxo", "ident", "sxo", "smut", "erc", "npoint")


def gen(rng, tier, i):
    k = rng.random()
    if k < 0.72:
        c = G.cfg(rng)
        if c["enc"] == "tree" and G.coin(rng, 0.6):
            c["erc"] = [-1.0, 1.0] if not c["typed"] else c["erc"]
    elif k < 0.86:
        c = G.nsga_cfg(rng)
    else:
        c = G.sk_cfg(rng, wrap=False)
    c["gens"] = rng.choice([2, 3, 4, 5, 6])
    if c["enc"] == "tree":
        c["gens"] = min(c["gens"], 4)
    c["noisy"] = False
    c["stats"] = rng.choice([[], [], ["rec"]])
    if rng.random() < 0.2:
        c["rng"] = "custom"
    how = rng.choice(["whole", "whole", "parts"])
    plain = c["enc"] == "tree" or not c.get("nsga") and all(
        o["op"] in PICKLABLE for o in c["ops"])
    lib = rng.choice(["pickle", "pickle", "cloudpickle"]) if plain \
        else "cloudpickle"
    if how == "whole" and not c.get("nsga") and G.coin(rng, 0.25):
        c["gens"] = max(c["gens"], 4)
        if c["ret"] == "dense":
            c["ret"] = None
        c["term"] = [{"t": "stag", "n": rng.choice([1, 2, 2, 3])}]
        if G.coin(rng, 0.5):
            c["fit"] = "coarse" if c["fit"] != "sk" else "sk"
            c["elite"] = max(1, c["elite"])
    saves = sorted(rng.sample(range(1, c["gens"]), min(
        c["gens"] - 1, rng.choice([1, 1, 2, 3]))))
    if how == "whole" and G.coin(rng, 0.15):
        saves = [0] + saves        # before the first generation
    v1, v2 = copy.deepcopy(c), copy.deepcopy(c)
    for v in (v1, v2):
        v["exec"] = rng.choice(["thread", "thread", "process", None])
        v["workers"] = rng.choice([None, 1, 2, 3, 5])
        v["method"] = rng.choice(["map", "submit", None])
        v["noisy"] = G.coin(rng, 0.3)
        v["slow"] = rng.choice([0, 1, 2])
    n_ev = c["pop"] * (c["gens"] + 1) * (2 if c.get("nsga") else 1)
    crash = rng.choice([None, {"eval": rng.randrange(1, n_ev)},
                        {"eval": rng.randrange(n_ev // 2, n_ev)},
                        {"step": rng.randrange(500, 60000)}])
    save = {"how": how, "lib": lib, "proto": rng.choice([2, 4, 5]),
            "at": saves, "chunks": rng.choice([1, 2, 4])}
    parts = [
        G.part(rng, {"cfg": c, "mode": "full"}, extreme=0),
        G.part(rng, {"cfg": v1, "mode": "saving", "save": save,
                     "crash": crash}, extreme=0,
               faults=G.env_faults(rng, v1)),
        G.part(rng, {"cfg": v2, "mode": "resume", "save": save,
                     "chain": None}, extreme=0,
               faults=G.env_faults(rng, v2)),
    ]
    if crash and "step" in crash:
        G.light(parts[1]["sched"])
    return {"parts": parts, "pick": rng.randrange(100)}


def blob(algo, W, save):
    import io
    import pickle
    import cloudpickle
    f = io.BytesIO()
    P = pickle.Pickler if save["lib"] == "pickle" else cloudpickle.Pickler
    x = algo if save["how"] == "whole" else {
        "individuals": W.subpop(algo).individuals,
        "generation_seed": algo.generation_seed}
    P(f, save["proto"]).dump(x)
    return f.getvalue()


def run(part, sim):
    import pickle
    from .. import world as W
    from ..seams import ENV
    do, cfg = part["do"], part["do"]["cfg"]
    mode = do["mode"]
    if mode != "resume":
        algo = W.build(cfg, "A", sim)
        h = W.History("A", cfg, sim).attach(algo)
        if mode == "full":
            ok = W.start(sim, algo, cfg)
            sim.log(h.rows)
            return {"rows": h.rows, "ok": ok}
        save = do["save"]
        disk = []       # (generation, number of chunks, [chunks])
        sim.data = out = {"rows": h.rows, "ok": True, "disk": disk}

        def store(gen):
            b = base64.b64encode(blob(algo, W, save)).decode()
            n = save["chunks"]
            size = -(-len(b) // n)
            rec = [gen, n, []]
            disk.append(rec)
            for j in range(n):          # a crash may leave it torn
                ENV.sched.point()
                rec[2].append(b[j * size:(j + 1) * size])
            sim.count("checkpoints_saved")

        def crash():
            import sys
            sys.settrace(None)
            sim.count("crashes")
            sim.log(h.rows, [r[:2] + [len(r[2])] for r in disk])
            sim.finish()

        old = h.hooks["gen"]

        def on_gen(sender, data):
            old(sender, data)
            if data["generation_num"] in save["at"]:
                store(data["generation_num"])
        h.hooks["gen"] = on_gen
        cr = do["crash"] or {}
        if "eval" in cr:
            st = W.state("A")

            class Evals(list):
                def append(self, x):
                    super().append(x)
                    if len(self) == cr["eval"]:
                        crash()
            st.evals = Evals()
        if "step" in cr:
            ENV.sched.add_alarm(cr["step"], crash)
        if 0 in save["at"]:
            store(0)
        W.start(sim, algo, cfg)
        sim.log(h.rows)
        return out
    # ------------------------------------------------------------- resume
    W.state("A", cfg, sim)
    save = do["save"]
    gen, raw = do["ckpt"]
    x = pickle.loads(base64.b64decode(raw))
    left = cfg["gens"] - gen
    if save["how"] == "whole":
        algo = x
        algo.max_generation = left
    else:
        algo = W.build(dict(cfg, gens=left), "A", sim,
                       individuals=x["individuals"],
                       generation_seed=x["generation_seed"])
    h = W.History("B", cfg, sim).attach(algo)
    sim.count("resumes")
    ok = W.start(sim, algo, cfg)
    sim.log(h.rows)
    return {"rows": h.rows, "ok": ok}


def play(scn):
    v = []
    full, saving, res = scn["parts"]
    a = yield full
    v.extend(a["violations"])
    if v:
        return v
    rows = a["data"]["rows"]
    b = yield saving
    v.extend(b["violations"])
    if v:
        return v
    got = b["data"]["rows"]
    d = diff({"rows": rows[:len(got)]}, {"rows": got})
    if d:
        v.append({"kind": "disturbed", "msg": "saving the run disturbed it: "
                  "uninterrupted / with saving: %s" % d})
        return v
    disk = b["data"]["disk"]
    whole = [r for r in disk if len(r[2]) == r[1]]
    if not whole:
        return v
    # the newest complete one, sometimes an older one
    pick = whole[-1] if scn["pick"] < 60 else whole[scn["pick"] % len(whole)]
    res = copy.deepcopy(res)
    res["do"]["ckpt"] = [pick[0], "".join(pick[2])]
    c = yield res
    v.extend(c["violations"])
    if v:
        return v
    gen = pick[0]
    tail = c["data"]["rows"]
    how = res["do"]["save"]
    d = compare(rows, tail, gen, how["how"])
    term = full["do"]["cfg"].get("term")
    early = stops_early(rows, tail, gen, term[0]["n"]) if d and term else None
    if early is not None:
        v.append({"kind": "stagnation-recount", "msg": "resumed from "
                  "generation %d of %d, the restored generation was counted "
                  "again as one without improvement: the run stopped after "
                  "generation %d of the uninterrupted run" % (
                      gen, (len(rows) - 1) // 2, early)})
    elif d:
        v.append({"kind": "resume-diverged", "msg": "resumed from generation "
                  "%d (%s, %s): uninterrupted / resumed: %s" % (
                      gen, how["how"], how["lib"], d)})
    return v


def stops_early(rows, tail, gen, n):
    """The generation after which the resumed run stopped, if it is the
    uninterrupted one up to where n generations without improvement are
    reached when the restored one counts twice."""
    last = (len(rows) - 1) // 2
    for s in range(gen, last):
        first = max(1, s - n + 1)
        if gen < first:
            break
        best = [float(rows[2 * g]["best"][1].split("(")[-1].rstrip(")"))
                for g in range(first, s + 1)]
        if not all(math.isclose(x, best[0]) for x in best):
            continue
        if not compare(rows[:2 * s + 1], tail, gen, "whole"):
            return s
    return None


def compare(rows, tail, gen, how):
    """Full: [eval0, eval1, gen1, eval2, gen2, ...]; resumed: [eval of the
    restored population, eval, gen, ...]."""
    def strip(r):
        return {k: x for k, x in r.items() if k not in ("n", "best_run")}
    if gen == 0:
        return diff({"rows": [strip(r) for r in rows]},
                    {"rows": [strip(r) for r in tail]})
    want = rows[2 * gen - 1:]
    if not tail:
        return "no generation at all"
    if len(want) == 2 and len(tail) == 2 and "n" in tail[1]:
        tail = tail[:1]     # nothing left to do: announced as it is
    first = {"inds": [x[:2] for x in (want[1] if len(want[1].get(
        "inds", ())) else want[0])["inds"]]}
    return diff({"rows": [first] + [strip(r) for r in want[2:]]},
                {"rows": [strip(r) for r in tail]})


def shrinks(scn):
    f = scn["parts"][1]
    if f["do"]["crash"]:
        c = copy.deepcopy(scn)
        c["parts"][1]["do"]["crash"] = None
        yield c
    sv = f["do"]["save"]
    for g in sv["at"]:
        if len(sv["at"]) > 1:
            c = copy.deepcopy(scn)
            for p in c["parts"][1:]:
                p["do"]["save"] = dict(sv, at=[x for x in sv["at"] if x != g])
            yield c
    base = scn["parts"][0]["do"]["cfg"]
    for key, val in G._smaller(base):
        if key in ("exec", "workers", "slow", "stats"):
            continue
        if key == "gens" and val <= max(sv["at"]):
            continue
        c = copy.deepcopy(scn)
        for p in c["parts"]:
            t = p["do"]["cfg"]
            if key == "pop":
                t["elite"] = min(t.get("elite", 0), val)
            t[key] = val
        yield c
