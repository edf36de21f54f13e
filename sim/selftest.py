"""Is one seed one execution?  Runs the same seeds twice, in fresh lanes and in another order, and compares everything the
runs answered (choices drawn, events, outcome, faults, shape).  Usage: selftest.py [--runs N] [--pypy] [PROP ...]"""
import argparse
import json
import shutil
import sys
from concurrent.futures import ThreadPoolExecutor

import driver
import plans

SAME = ("status", "choices", "digest", "faults", "probes", "shape", "nontrivial", "summary", "steps", "sim_ns", "known")


def answers(prop, spec, runs):
    lane = driver.Lane(spec)
    try:
        return {r: lane.ask(dict(prop=prop, seed=1, run=r, events=True)) for r in runs}
    finally:
        lane.stop()


def one(prop, spec, n):
    first = answers(prop, spec, range(n))
    second = answers(prop, spec, reversed(range(n)))
    bad = []
    for r in range(n):
        d = [k for k in SAME if json.dumps(first[r].get(k), sort_keys=True) != json.dumps(second[r].get(k), sort_keys=True)]
        if d:
            bad.append((r, d))
    return prop, spec, bad, first, second


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--runs", type=int, default=60)
    ap.add_argument("--pypy", action="store_true")
    ap.add_argument("props", nargs="*")
    a = ap.parse_args()
    driver.build_seam()
    driver.scratch_base()
    code = 0
    try:
        jobs = [(p, ["pypy" if a.pypy else "cpython", 1]) for p in (a.props or sorted(plans.PLANS))]
        with ThreadPoolExecutor(4) as ex:
            for prop, spec, bad, x, y in ex.map(lambda j: one(j[0], j[1], a.runs), jobs):
                print("%s %s: %d runs twice, %d differ" % (prop, spec[0], a.runs, len(bad)))
                for r, d in bad[:3]:
                    code = 1
                    print("   run %d differs in %s" % (r, d))
                    for e, f in zip(x[r].get("events") or (), y[r].get("events") or ()):
                        if e != f:
                            print("     %s\n     %s" % (e[:300], f[:300]))
                            break
                    for k in d:
                        if k not in ("choices", "digest"):
                            print("     %s: %s / %s" % (k, json.dumps(x[r].get(k))[:300], json.dumps(y[r].get(k))[:300]))
    finally:
        shutil.rmtree(driver.SCRATCH, ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    main()
