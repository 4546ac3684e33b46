"""C11: clients of a simulated stream (sim/frames)."""
import json
import pathlib
import re
import shutil
import subprocess
import tempfile
import time

import run as R

CASES = {"quick": (1000000, 60), "thorough": (60000000, 900)}


def build():
    ws = R.BUILD / "ws-frames"
    ws.mkdir(parents=True, exist_ok=True)
    (ws / "Cargo.toml").write_text(
        '[package]\nname = "frames"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n'
        '[[bin]]\nname = "frames"\npath = "%s/sim/frames/src/main.rs"\n'
        '[dependencies]\nsimlib = { path = "%s/sim/simlib" }\npeg = { path = "%s" }\n'
        '[profile.dev]\nopt-level = 1\ndebug = 0\nincremental = false\n' % (R.HERE, R.HERE, R.REPO))
    if not (ws / "Cargo.lock").exists():
        shutil.copy(R.HERE / "sim" / "base.lock", ws / "Cargo.lock")
    R.cargo(["build", "--offline", "--target-dir", str(R.BUILD / "target-frames")], ws, "the stream clients")
    exe = R.BUILD / "frames"
    shutil.copy(R.BUILD / "target-frames" / "debug" / "frames", exe)
    return exe


def once(exe, path):
    try:
        p = subprocess.run([str(exe), "replay", "file=" + str(path)], stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, text=True, errors="replace", timeout=60, preexec_fn=R.limit)
    except subprocess.TimeoutExpired:
        return "hang", "no answer within 60 s"
    if p.returncode == 10:
        return (re.search(r"^class (.*)$", p.stderr, re.M).group(1), re.search(r"^detail (.*)$", p.stderr, re.M).group(1))
    if p.returncode == 0:
        return None, ""
    if p.returncode < 0 or p.returncode == 101:
        return "crash", "the process ended with %d" % p.returncode
    raise R.HarnessError("replay ended with %d: %s" % (p.returncode, p.stderr[-1000:]))


HEAD = "check C11\nkind frames\n"


def check(prop, tier, stats):
    t0 = time.time()
    try:
        exe = build()
    except R.BuildRejected as e:
        raise R.Found("rejected", "the grammar of a message format no longer compiles: " + e.what,
                      HEAD + "build-only\n" + "".join("# " + l + "\n" for l in e.log.splitlines()))
    stats["build_s"] = time.time() - t0
    stats["level"] = "exploration"
    stats["rule"] = ("a case is a seeded set of connections (messages, fragments, stalls, restarts, cuts, damage) interleaved in one "
                     "process; distinct by the sequence of parse outcomes and buffer lengths of every connection")
    stats["real"] = ["peg-runtime str, [u8] and [T] inputs, ErrorState, ParseError", "generated #[no_eof] and whole-stream parsers of 7 formats"]
    stats["stub"] = ["connection, sender, client durable log"]
    stats["corpora"] = [{"formats": 7}]
    total, wall = CASES[tier]
    t0 = time.time()
    with tempfile.TemporaryDirectory(prefix="frames-", dir="/tmp") as td:
        td = pathlib.Path(td)
        procs = []
        for w in range(R.WORKERS):
            out = td / ("w%d" % w)
            procs.append((out, R.spawn([str(exe), "explore", "seed=%d" % R.SEED, "from=%d" % w, "step=%d" % R.WORKERS,
                                        "to=%d" % total, "wall=%d" % wall, "out=%s" % out], str(out) + ".err")))
        end = t0 + wall * 2 + 120
        late = False
        for out, p in procs:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                late = True
                p.kill()
                p.wait()
        stats["explore_s"] = time.time() - t0
        for out, p in procs:
            j = pathlib.Path(str(out) + ".json")
            if j.exists():
                d = json.loads(j.read_text())
                for k, v in d["counters"].items():
                    stats["n"][k] = stats["n"].get(k, 0) + v
                stats["truncated"] |= d["truncated"]
                stats["samples"].extend(d["samples"])
                b = pathlib.Path(str(out) + ".digests").read_bytes()
                stats["digests"].update(b[i:i + 8] for i in range(0, len(b), 8))
        for out, p in procs:
            if p.returncode == 10:
                body = HEAD + pathlib.Path(str(out) + ".viol").read_text()
                path = td / "replay.txt"
                path.write_text(body)
                cls, det = once(exe, path)
                raise R.Found(cls or "unrepeatable", det, body)
        for out, p in procs:
            if p.returncode != 0:
                # a hang or crash: find the case by replaying this worker's share
                cls, det, body = hunt(exe, td, int(out.name[1:]), total)
                if cls:
                    raise R.Found(cls, det, body)
                raise R.HarnessError("a worker ended with %s: %s" % (
                    p.returncode, pathlib.Path(str(out) + ".err").read_text(errors="replace")[-800:]))


def hunt(exe, td, w, total):
    lo, hi = 0, 0
    step = 1
    start = time.time()

    def fails(a, b):
        try:
            p = subprocess.run([str(exe), "explore", "seed=%d" % R.SEED, "from=%d" % (w + a * R.WORKERS), "step=%d" % R.WORKERS,
                                "to=%d" % (w + b * R.WORKERS), "wall=1000", "out=%s" % (td / "hunt")], timeout=30,
                               stderr=subprocess.DEVNULL, preexec_fn=R.limit)
            return p.returncode not in (0, 10)
        except subprocess.TimeoutExpired:
            return True

    while time.time() - start < 200 and lo * R.WORKERS < total:
        hi = lo + step
        if fails(lo, hi):
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if fails(lo, mid):
                    hi = mid
                else:
                    lo = mid
            q = subprocess.run([str(exe), "case", "seed=%d" % R.SEED, "index=%d" % (w + lo * R.WORKERS)], stdout=subprocess.PIPE, text=True)
            path = td / "replay.txt"
            path.write_text(HEAD + q.stdout)
            cls, det = once(exe, path)
            return cls, det, HEAD + q.stdout
        lo = hi
        step = min(step * 2, 20000)
    return None, "", ""


def replay(prop, path):
    try:
        exe = build()
    except R.BuildRejected as e:
        return "rejected", e.what
    if "build-only" in pathlib.Path(path).read_text().splitlines():
        return None, ""
    return once(exe, path)
