"""Coordinator: seeded search over scenarios, minimisation, replay, evidence."""
import copy
import hashlib
import importlib
import json
import os
import queue
import random
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


class HarnessError(Exception):
    pass


class Server:
    def __init__(self, prop, hashseed, cache):
        env = dict(os.environ)
        for k in ("PYTHONPATH", "PYTHONHOME", "PYTHONSTARTUP"):
            env.pop(k, None)
        env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1",
                   PYTHONPYCACHEPREFIX=cache, MPLBACKEND="Agg",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   MPLCONFIGDIR=cache, LC_ALL="C.UTF-8")
        self.p = subprocess.Popen(
            [PY, "-X", "no_debug_ranges", "-W", "ignore", "-m", "sim.server",
             prop], cwd=HERE, env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, prop, part):
        b = json.dumps({"prop": prop, "part": part}).encode()
        try:
            self.p.stdin.write(struct.pack("<I", len(b)) + b)
            self.p.stdin.flush()
            hd = self.p.stdout.read(4)
            if len(hd) < 4:
                raise HarnessError("simulation server died")
            return json.loads(self.p.stdout.read(struct.unpack("<I", hd)[0]))
        except (BrokenPipeError, OSError) as e:
            raise HarnessError("simulation server died: %s" % e)

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


HASHSEEDS = (0, 4242)


class Fleet:
    """Servers grouped by PYTHONHASHSEED."""

    def __init__(self, prop, n):
        self.prop = prop
        self.cache = tempfile.mkdtemp(prefix="eckity-sim-")
        self.groups = {h: queue.Queue() for h in HASHSEEDS}
        self.servers = []
        for i in range(max(2, n)):
            h = HASHSEEDS[i % len(HASHSEEDS)]
            s = Server(prop, h, self.cache)
            self.servers.append(s)
            self.groups[h].put(s)

    def run(self, part):
        g = self.groups[HASHSEEDS[part.get("hashseed", 0) % len(HASHSEEDS)]]
        s = g.get()
        try:
            res = s.ask(self.prop, part)
        finally:
            g.put(s)
        if res.get("error"):
            raise HarnessError("%s\npart: %s" % (
                res["error"], json.dumps(part)[:3000]))
        return res

    def close(self):
        for s in self.servers:
            s.close()
        shutil.rmtree(self.cache, ignore_errors=True)


def load(prop):
    return importlib.import_module("sim.props." + prop.lower())


def default_play(scn):
    """Run every part of a scenario on its own."""
    out = []
    for part in scn["parts"]:
        out.append((yield part))
    v = []
    for r in out:
        v.extend(r["violations"])
    return v


def drive(mod, scn, run, want=False):
    """Play a scenario; returns (violations, results of its parts)."""
    play = getattr(mod, "play", default_play)
    g = play(scn)
    results = []
    try:
        part = next(g)
        while True:
            if want:
                part = dict(part, want_sched=True)
            r = run(part)
            results.append(r)
            crash = [x for x in r["violations"] if x["kind"] == "crash"]
            if crash:
                g.close()
                return crash, results
            part = g.send(r)
    except StopIteration as e:
        v = e.value or []
    stuck = [x for r in results for x in r["violations"]
             if x["kind"] in ("no-progress", "deadlock")]
    for x in stuck:
        if x not in v:
            v.append(x)
    return v, results


def scenario(mod, prop, seed, i, tier):
    rng = random.Random("%s/%s/%d" % (prop, seed, i))
    scn = mod.gen(rng, tier, i)
    scn["index"] = i
    return scn


def digest_of(results):
    return hashlib.blake2b(
        "/".join(r.get("digest", "") for r in results).encode(),
        digest_size=8).hexdigest()


# ------------------------------------------------------------ minimisation
def fails(mod, scn, run, kinds):
    try:
        v, res = drive(mod, scn, run, want=True)
    except HarnessError:
        return None
    v = [x for x in v if x["kind"] in kinds]
    return (v, res) if v else None


def ddmin(items, test, deadline):
    """Smallest sublist (by chunk removal) for which test() still holds."""
    n = 2
    while items and time.time() < deadline:
        size = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items) and time.time() < deadline:
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                reduced = True
            else:
                i += size
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
        else:
            n = max(2, n - 1)
    return items


def minimise(mod, scn, run, kinds, budget=60):
    deadline = time.time() + budget
    best = copy.deepcopy(scn)
    got = fails(mod, best, run, kinds)
    if got is None:
        return None
    # 1. smaller configurations
    shr = getattr(mod, "shrinks", None)
    from . import gen as G
    again = True
    while again and time.time() < deadline - budget * 0.4:
        again = False
        cands = list(shr(best)) if shr else []
        cands += list(G.generic_shrinks(
            best, not getattr(mod, "OWN_SHRINKS", False)))
        for cand in cands:
            if time.time() > deadline - budget * 0.4:
                break
            g = fails(mod, cand, run, kinds)
            if g is not None:
                best, got, again = cand, g, True
                break
    # 2. explicit schedule: replace the seeds by the recorded deviations
    exp = copy.deepcopy(best)
    plist = exp["parts"]
    for part, r in zip(plist, got[1]):
        if "sched" in r:
            part.setdefault("sched", {})["replay"] = {
                "pre": r["sched"]["pre"], "forced": r["sched"]["forced"]}
        if part.get("draws") and "draws" in r:
            part["draws"]["replay"] = r["draws"]
    g = fails(mod, exp, run, kinds)
    if g is None:
        return best, got
    best, got = exp, g
    # 3. minimise deviations part by part
    for k in range(len(best["parts"])):
        for path in (("sched", "replay", "pre"), ("sched", "replay", "forced"),
                     ("draws", "replay")):
            d = best["parts"][k]
            ok = True
            for p in path[:-1]:
                d = d.get(p)
                if not isinstance(d, dict):
                    ok = False
                    break
            if not ok or not d.get(path[-1]):
                continue

            def test(items):
                cand = copy.deepcopy(best)
                e = cand["parts"][k]
                for p in path[:-1]:
                    e = e[p]
                e[path[-1]] = items
                return fails(mod, cand, run, kinds) is not None
            items = ddmin(list(d[path[-1]]), test, deadline)
            e = best["parts"][k]
            for p in path[:-1]:
                e = e[p]
            e[path[-1]] = items
    got = fails(mod, best, run, kinds)
    return (best, got) if got else None


# ------------------------------------------------------------ known findings
def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"]
                if k["property"] == prop and k["status"] == "open"]


def is_known(v, known):
    return any(v["kind"] == k["kind"] and k["match"] in v["msg"]
               for k in known)


# ------------------------------------------------------------ entry points
def do_replay(prop, path):
    mod = load(prop)
    with open(path) as f:
        rec = json.load(f)
    fleet = Fleet(prop, 2)
    try:
        v, res = drive(mod, rec["scenario"], fleet.run, want=True)
    finally:
        fleet.close()
    same = digest_of(res) == rec["digest"]
    print("replay of %s: digest %s (%s)" % (
        path, digest_of(res), "identical" if same else "DIFFERENT"))
    for x in v:
        print("  %s: %s" % (x["kind"], x["msg"]))
    for r in res:
        for t in r.get("tail", [])[-15:]:
            print("    |", t[:220])
    if v:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def main(argv):
    prop = argv[0]
    if len(argv) > 2 and argv[1] == "--replay":
        return do_replay(prop, argv[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = load(prop)
    cfg = mod.TIERS[tier]
    runs = int(os.environ.get("SIM_RUNS", cfg["runs"]))
    cap = float(os.environ.get("SIM_CAP", cfg.get("cap", 420 if tier ==
                                                  "quick" else 3600)))
    start = int(os.environ.get("SIM_START", "0"))
    t0 = time.time()
    ncpu = os.cpu_count() or 4
    fleet = Fleet(prop, ncpu)
    idx = iter(range(start, start + runs))
    lock = threading.Lock()
    stop = threading.Event()
    agg = {"runs": 0, "parts": 0, "steps": 0, "switches": 0, "sim_s": 0.0,
           "preempts": 0, "forced": 0, "extreme": 0, "tasks": 0,
           "longest": 0}
    faults, counters, kinds_count = {}, {}, {}
    sigs, digests, nontrivial = set(), set(), set()
    samples, found, errors = [], [], []
    known = known_findings(prop)
    known_hit = {}

    def worker():
        while not stop.is_set():
            with lock:
                i = next(idx, None)
            if i is None or time.time() - t0 > cap:
                return
            try:
                scn = scenario(mod, prop, seed, i, tier)
                v, res = drive(mod, scn, fleet.run)
            except HarnessError as e:
                with lock:
                    errors.append("scenario %d: %s" % (i, e))
                stop.set()
                return
            except Exception:
                import traceback
                with lock:
                    errors.append("scenario %d: %s" % (
                        i, traceback.format_exc()))
                stop.set()
                return
            with lock:
                agg["runs"] += 1
                agg["parts"] += len(res)
                nt = False
                sg = []
                for r in res:
                    st = r.get("stats") or {}
                    for k in ("steps", "switches", "sim_s", "preempts",
                              "forced", "extreme", "tasks"):
                        agg[k] += st.get(k, 0)
                    agg["longest"] = max(agg["longest"], st.get("steps", 0))
                    for k, n in (st.get("faults") or {}).items():
                        faults[k] = faults.get(k, 0) + n
                    for k, n in (st.get("counters") or {}).items():
                        counters[k] = counters.get(k, 0) + n
                    if st.get("switches"):
                        sg.append(st.get("sig"))
                    if st.get("switches") or st.get("faults") or \
                            st.get("extreme") or (
                                st.get("counters") or {}).get("draws"):
                        nt = True
                d = digest_of(res)
                digests.add(d)
                if sg:
                    sigs.add(tuple(sg))
                if nt:
                    nontrivial.add(d)
                if len(samples) < 3:
                    samples.append({"scenario": scn, "digest": d})
                fresh = []
                for x in v:
                    kk = next((k for k in known if x["kind"] == k["kind"] and
                               k["match"] in x["msg"]), None)
                    if kk is not None:
                        known_hit[kk["id"]] = kk
                    else:
                        fresh.append(x)
                if fresh:
                    found.append((i, scn, fresh))
                    if len(found) >= 1:
                        stop.set()

    # twice as many request threads as servers of a group, so that scenarios
    # whose parts need one hash seed do not starve the other group
    ths = [threading.Thread(target=worker) for _ in range(ncpu + 2)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    search_s = time.time() - t0
    rc = 0
    replay = None
    if errors and not found:
        for e in errors[:2]:
            print("HARNESS-ERROR", e, file=sys.stderr)
        rc = 2
    if found:
        rc = 1
        i, scn, v = min(found, key=lambda f: f[0])
        kinds = {x["kind"] for x in v}
        small = None
        try:
            small = minimise(mod, scn, fleet.run, kinds,
                             budget=float(os.environ.get("SIM_SHRINK", "45")))
        except Exception as e:  # minimisation is best effort
            print("minimisation failed: %r" % e, file=sys.stderr)
        if small is None:
            vv, res = drive(mod, scn, fleet.run, want=True)
            small = (scn, (vv or v, res))
        scn2, (v2, res2) = small
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        d = digest_of(res2)
        replay = os.path.join(HERE, "replays", "%s-%d-%s.json" % (
            prop, i, d))
        with open(replay, "w") as f:
            json.dump({"property": prop, "verif_seed": seed,
                       "scenario_index": i, "violations": v2,
                       "digest": d, "scenario": scn2,
                       "trace_tail": [r.get("tail", []) for r in res2],
                       "command": "python check.py %s --replay %s" % (
                           prop, replay)}, f, indent=1)
        for x in v2[:3]:
            print("%s: %s" % (x["kind"], x["msg"]))
        print("scenario index %d of VERIF_SEED %d, minimised to: %s" % (
            i, seed, json.dumps(scn2)[:2500]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    fleet.close()
    for k in known:
        # listed findings are demonstrated by their own scenario on every run
        if k["id"] in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    wall = time.time() - t0
    agg["sim_s"] = round(agg["sim_s"], 6)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["parts"],
            "distinct_nontrivial": len(nontrivial),
            "rule": getattr(mod, "RULE", "") + " A scenario is one seed; it is "
            "non-trivial when at least one context switch, injected fault or "
            "extreme or counted random draw happened in it, and distinct when the digest "
            "of its recorded event log differs from all others.",
            "samples": samples,
            "scenarios": agg["runs"],
            "simulated_runs_per_hour": int(
                agg["parts"] / max(search_s, 1e-9) * 3600),
            "seeds_per_hour": int(agg["runs"] / max(search_s, 1e-9) * 3600),
            "simulated_seconds": agg["sim_s"],
            "scheduler_steps": agg["steps"],
            "longest_run_steps": agg["longest"],
            "context_switches": agg["switches"],
            "preemptions": agg["preempts"],
            "nondefault_wakeup_choices": agg["forced"],
            "tasks_simulated": agg["tasks"],
            "faults_injected": faults,
            "distinct_interleavings": len(sigs),
            "interleaving_measure": "hash of the sequence of (step, task) "
                                    "context switches of a scenario",
            "distinct_histories": len(digests),
            "observations": counters,
            "real_components": "everything under /repo/eckity, numpy, scipy, "
                               "scikit-learn, the Mersenne Twister generators",
            "stubbed_components": "thread and process pools (tasks on a "
                                  "deterministic scheduler; process tasks are "
                                  "pickled both ways), clocks, locks created "
                                  "by eckity, log output, checkpoint storage",
        },
        "assumptions": getattr(mod, "ASSUMES", []),
        "wall_s": round(wall, 2),
        "violations": len(found),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not os.environ.get("SIM_NO_EVIDENCE"):
        tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    print("%s %s: %d scenarios, %d simulated runs, %d distinct interleavings, "
          "%.1f s, rc=%d" % (prop, tier, agg["runs"], agg["parts"], len(sigs),
                             wall, rc))
    return rc
