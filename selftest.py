"""selftest.py [N] [PROP...]: every scenario run twice, in different servers and
order, must give the identical event log, interleaving and verdict; a recorded
schedule replayed as explicit deviations must give the same log again."""
import copy
import glob
import os
import random
import sys
from concurrent.futures import ThreadPoolExecutor

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import runner  # noqa


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    props = sys.argv[2:] or sorted(
        os.path.basename(p)[:-3].upper()
        for p in glob.glob(os.path.join(runner.HERE, "sim/props/c*.py")))
    bad = 0
    for prop in props:
        mod = runner.load(prop)
        fleet = runner.Fleet(prop, os.cpu_count() or 4)

        def one(i, explicit=None):
            scn = runner.scenario(mod, prop, 77, i, "quick")
            if explicit is not None:
                for part, r in zip(scn["parts"], explicit):
                    if part.get("sched") is not None and "sched" in r:
                        part["sched"]["replay"] = r["sched"]
                    if part.get("draws") and "draws" in r:
                        part["draws"]["replay"] = r["draws"]
            v, res = runner.drive(mod, scn, fleet.run, want=True)
            return ([r["digest"] for r in res],
                    [r["stats"].get("sig") for r in res], v), res
        order = list(range(n))
        with ThreadPoolExecutor(10) as ex:
            a = list(ex.map(one, order))
            random.Random(1).shuffle(order)
            b = dict(zip(order, ex.map(one, order)))
            c = list(ex.map(lambda i: one(i, a[i][1]), range(n)))
        d1 = [i for i in range(n) if a[i][0] != b[i][0]]
        d2 = [i for i in range(n) if a[i][0] != c[i][0]]
        fleet.close()
        print("%s: %d scenarios, %d differ on rerun, %d differ on explicit "
              "replay %s" % (prop, n, len(d1), len(d2), (d1 + d2)[:8]),
              flush=True)
        bad += len(d1) + len(d2)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
