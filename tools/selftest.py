#!/usr/bin/env python3
"""Determinism self-test: every check's exploration, repeated with other worker
counts in fresh processes, must give the same counters and the same digests.
usage: selftest.py [SCALE] [CHECK...]   (not part of any check)"""
import os
import pathlib
import sys
import tempfile
import time

HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
sys.path.insert(0, str(HERE / "tools"))
import run as R  # noqa: E402
import stream  # noqa: E402
import genproc  # noqa: E402
import genruns  # noqa: E402
import expand  # noqa: E402

for m in (stream, genproc, genruns, expand):
    m.R = R


def batch(prop, seed, workers, n, exe):
    R.SEED, R.WORKERS = seed, workers
    stats = {"n": {}, "digests": set(), "samples": [], "truncated": False, "corpora": []}
    if prop in R.SIM:
        with tempfile.TemporaryDirectory(prefix="self-", dir="/tmp") as td:
            R.explore(exe, prop, "", n, 600, pathlib.Path(td), stats)
    elif prop == "C11":
        stream.CASES["quick"] = (n, 600)
        stream.check(prop, "quick", stats)
    elif prop == "C17":
        genruns.WORK["quick"] = (n, 600)
        genruns.check(prop, "quick", stats)
    elif prop == "C19":
        expand.CASES["quick"] = (n, 600)
        expand.check(prop, "quick", stats)
    else:
        genproc.WORK[prop]["quick"] = (n, 600)
        genproc.check(prop, "quick", stats)
    assert not stats["truncated"]
    n = {k: v for k, v in stats["n"].items() if k not in ("grammars", "distinct_schedules") and not k.startswith("max_")}
    return n, stats["digests"]


def main():
    scale = float(sys.argv[1]) if len(sys.argv) > 1 else 1.0
    only = sys.argv[2:]
    bad = 0
    R.BUILD.mkdir(exist_ok=True)
    sizes = {"C01": 4000, "C02": 1200, "C11": 60000, "C13": 1500, "C14": 1500, "C15": 1500, "C17": 400, "C18": 20000, "C19": 600}
    for prop in list(R.SIM) + ["C11", "C13", "C14", "C15", "C17", "C19"]:
        if only and prop not in only:
            continue
        n = int(sizes.get(prop, 60000) * scale)
        for seed in (1, 2, 3):
            exe = None
            if prop in R.SIM:
                exe, _ = R.ws_build(R.SIM[prop]["profile"], 1, R.SIM[prop].get("features", ""))
            t0 = time.time()
            runs = [batch(prop, seed, w, n, exe) for w in (8, 8, 3, 11, 1)]
            same = all(r == runs[0] for r in runs)
            if not same:
                bad += 1
                for r in runs[1:]:
                    print("   counters differ:", {k: (runs[0][0].get(k), r[0].get(k)) for k in set(runs[0][0]) | set(r[0]) if runs[0][0].get(k) != r[0].get(k)},
                          "digests:", len(runs[0][1] ^ r[1]))
            print("%s seed %d: %d cases x 5 batches (8, 8, 3, 11, 1 processes): %s  (%d digests, %.0f s)" % (
                prop, seed, n, "identical" if same else "DIFFERENT", len(runs[0][1]), time.time() - t0), flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
