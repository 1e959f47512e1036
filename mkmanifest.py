"""Writes MANIFEST.json (kept as a script so that the notes stay in one place)."""
import json
T = ("deterministic simulation with fault injection: seeded search over "
     "schedules, faults and random draws of the real eckity code under a "
     "simulated scheduler, oracle: ")
CHECKS = {
 "C01": ("recorded fitness against the pure evaluator of each genome; per-evaluation call census",
         "the bundled numeric functions and numpy are trusted as the reference for single genomes"),
 "C02": ("byte-identical histories of paired runs that differ only in schedule, pool, clock, ambient generator state, hash seed and process history",
         "both runs of a pair are generated from one configuration; other numpy or CPython versions are not explored"),
 "C03": ("fault sequences (evaluator, worker, task start, transport, operator, observer, checker) against the prescribed outcome of a failed run",
         "faults strike one or two places per run"),
 "C04": ("running maximum of a reference history over all evaluated individuals; aliasing snapshots of reported bests",
         "fitness functions are deterministic and finite"),
 "C05": ("reference automaton of generations and termination over the recorded fitness history",
         "termination checkers that are asked, other than the bundled ones, are deterministic functions of the generation"),
 "C06": ("reference subscriber table and announcement automaton; statistics log parsed back",
         "log output is captured at the logging module"),
 "C07": ("refinement of the uninterrupted run by every resumed run, crash points and surviving saves drawn by the scheduler, restore in another process",
         "storage is simulated: only completed saves survive a crash"),
 "C08": ("identity, id and object-graph aliasing census of every generation",
         "object graphs are walked through __dict__, lists, dicts, tuples, sets and numpy arrays"),
 "C09": ("reference elite multiset of each generation looked up in the next one",
         "ties are resolved by fitness value: any individuals with the elite fitness values count"),
 "C10": ("each concurrently evolving run judged by its own contract",
         "2 or 3 runs per process; every run built from its own component objects"),
 "C11": ("each concurrent prediction compared with the same call alone; model snapshot before and after",
         "preemption at line or opcode granularity inside eckity only"),
 "C12": ("ledger of simulated pool constructions, submissions, shutdowns and copies",
         "pools other than the two kinds of concurrent.futures are refused by the code"),
 "C13": ("independent well-formedness, typing and splice oracles over trees after every operator",
         "function and terminal sets are sampled from a catalogue including gap, typed and constant sets"),
 "C14": ("independent length, bounds, type, provenance and change-count oracles over vectors after every operator",
         "bounds are finite"),
 "C15": ("reference ledger of genome -> fitness followed through random histories and faults",
         "evaluators are deterministic"),
 "C16": ("reference ranking of every selection's input, provenance of its output",
         "participants of a tournament are observed through the individuals' comparisons only in statistical worst/best bounds that hold for every draw"),
 "C17": ("independent non-domination ranking and crowding of each combined population",
         "ties at the cut may be resolved either way"),
 "C21": ("exact large-deviation bounds (error below 1e-12 each) on the frequencies of thousands of seeded draws per configuration, directly and in simulated runs",
         "a bias too small for some thousand draws per configuration stays unseen; IntVectorOnePointMutation is only required to treat all cells alike (K01)"),
 "C22": ("independent ledger of clones, selections, operators and parents compared with every individual after every step",
         "operators are observed where the library calls their apply method"),
 "C18": ("views of original and copy compared step by step under random interleavings of their use",
         "state is compared through public attributes and behaviour"),
}
COMMON = ("Exploration: every scenario is one seed deciding configuration, "
          "interleaving, faults and draws; held on all explored, no claim "
          "beyond them. Pools, clocks, locks and storage are simulated, "
          "everything in /repo/eckity runs unmodified. Assumes: ")
NA = {
 "C19": "a pure function of its arguments: no concurrency, time, I/O, randomness or history for a simulator to control; only input enumeration or proof would decide it, which is another technique.",
 "C20": "a pure check of constructor arguments: nothing nondeterministic or faulty takes part, so there is nothing to simulate; example or property-based tests would decide it.",
}
m = {
 "version": 1,
 "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.dont_write_bytecode=True; import sim.runner\"",
 "checks": [{
   "property": p,
   "quick_cmd": "VERIF_TIER=quick /opt/venv/bin/python -B check.py %s" % p,
   "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python -B check.py %s" % p,
   "evidence_file": "evidence/%s.json" % p,
   "technique": T + o, "level": "exploration",
   "level_note": COMMON + a + "."} for p, (o, a) in sorted(CHECKS.items())],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
 "notes": "No hooks in /repo: the existing seams (module-level clocks, executors, generators, events) are replaced from outside by sim/seams.py. Replay: check.py Cxx --replay FILE.",
}
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
