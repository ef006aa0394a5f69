#!/usr/bin/env python3
"""selftest.py [--runs N] [PROP...]: is the simulator itself deterministic?

Runs each check three times - again, with another string hash seed, with
another number of workers - and compares everything its evidence says except
wall time: counts of runs, simulated time, disk operations, solver calls,
every fault fired, every distinct outcome."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = ("runs_per_hour", "workers", "slowest_run_s", "samples")


def once(prop, runs, hashseed, workers):
    env = dict(os.environ, SIM_HASHSEED=hashseed)
    p = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), prop,
                        "--runs", str(runs), "--workers", str(workers)],
                       env=env, capture_output=True, text=True)
    if p.returncode:
        return {"exit": p.returncode, "out": p.stdout[-500:]}
    with open(os.path.join(HERE, "evidence", f"{prop}.json")) as f:
        c = json.load(f)["coverage"]
    return {k: v for k, v in c.items() if k not in SKIP}


def main():
    a = sys.argv[1:]
    runs = 24
    if a[:1] == ["--runs"]:
        runs, a = int(a[1]), a[2:]
    if not a:
        with open(os.path.join(HERE, "MANIFEST.json")) as f:
            a = [c["property"] for c in json.load(f)["checks"]]
    bad = 0
    for prop in a:
        got = [once(prop, runs, h, w) for h, w in
               (("0", 4), ("0", 4), ("90210", 4), ("0", 3))]
        for what, g in zip(("again", "hash seed", "workers"), got[1:]):
            d = {k: (got[0].get(k), g.get(k)) for k in set(got[0]) | set(g)
                 if got[0].get(k) != g.get(k)}
            if d:
                bad += 1
                print(f"{prop} differs ({what}): {json.dumps(d)[:600]}")
        print(prop, "done", flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
