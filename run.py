#!/usr/bin/env python3
"""Decide one property by deterministic simulation.

usage: run.py PROPERTY [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Exit 2: the check itself failed. Everything is derived from VERIF_SEED.
"""
import argparse
import hashlib
import json
import os
import pathlib
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = pathlib.Path(os.environ.get("VERIF_BUILD", str(HERE / "build")))
EVID = pathlib.Path(os.environ.get("VERIF_EVIDENCE", str(HERE / "evidence")))
SEED = int(os.environ.get("VERIF_SEED", "1"))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
# for development only: a fraction of the usual number of cases
SCALE = float(os.environ.get("VERIF_SCALE", "1"))

sys.path.insert(0, str(HERE / "tools"))


class HarnessError(Exception):
    pass


class BuildRejected(Exception):
    """rust-peg or rustc refuses a grammar that the unchanged tree accepts."""

    def __init__(self, what, log):
        self.what = what
        self.log = log


class Found(Exception):
    def __init__(self, cls, detail, body):
        self.cls = cls
        self.detail = detail
        self.body = body


def toolchain_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "TRYBUILD", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    env.update(
        RUSTUP_TOOLCHAIN="1.68.0",
        CARGO_REGISTRIES_CRATES_IO_PROTOCOL="sparse",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
    )
    return env


def cargo(args, cwd, what, limit_s=None):
    """Builds; with a limit, a build that does not end counts as rejected (the
    macro runs inside the build)."""
    p = subprocess.Popen(
        ["cargo"] + args, cwd=cwd, env=toolchain_env(), stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True,
    )
    try:
        p.stdout_text = p.communicate(timeout=limit_s)[0]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise BuildRejected("expanding its grammars did not end within %d s" % limit_s, "")
    if p.returncode != 0:
        log = p.stdout_text
        failed = re.findall(r"could not compile `([^`]+)`", log)
        if failed and all(re.fullmatch(r"c\d+_\w+|frames", f) for f in failed):
            first = next((l for l in log.splitlines() if l.startswith("error")), "?")
            raise BuildRejected(first, log[-6000:])
        raise HarnessError("building %s failed:\n%s" % (what, log[-6000:]))
    return p.stdout_text


# a build of one corpus takes well under a minute
BUILD_LIMIT = 400

# ---------------------------------------------------------------- corpora

# check -> (profile, level, runs per worker-corpus quick, thorough corpora, thorough runs)
SIM = {
    "C01": dict(profile="mixed", quick=90000, quick_corpora=3, thorough=200000, corpora=8),
    "C02": dict(profile="mixed", quick=24000, quick_corpora=3, thorough=60000, corpora=8, level="fault_enumeration"),
    "C03": dict(profile="mixed", quick=1800000, quick_corpora=3, thorough=4000000, corpora=8),
    "C04": dict(profile="mixed", quick=1800000, quick_corpora=3, thorough=4000000, corpora=8),
    "C05": dict(profile="core", quick=3000000, quick_corpora=3, thorough=4000000, corpora=12),
    "C06": dict(profile="prec", quick=2400000, quick_corpora=3, thorough=4000000, corpora=12),
    "C07": dict(profile="memo", quick=2400000, quick_corpora=4, thorough=4000000, corpora=12),
    "C08": dict(profile="leftrec", quick=1800000, quick_corpora=3, thorough=4000000, corpora=12),
    "C09": dict(profile="errors", quick=3000000, quick_corpora=3, thorough=4000000, corpora=12),
    "C10": dict(profile="mixed", quick=1800000, quick_corpora=3, thorough=4000000, corpora=8),
    "C12": dict(profile="mixed", quick=1200000, quick_corpora=3, thorough=2000000, corpora=6, features="trace"),
    "C18": dict(profile="errors", quick=300000, quick_corpora=2, thorough=1000000, corpora=8, level="fault_enumeration"),
    "C16": dict(profile="bounded", quick=2400000, quick_corpora=3, thorough=4000000, corpora=12),
}

RULES = {
    "sim": "a case is a seeded (grammar of the corpus, entry point, input tape, device geometry, answers of user code, fault plan); "
           "it is non-trivial when a fault took effect, a second pass ran, or at least six user-code calls were made; "
           "distinct means distinct (grammar, outcome, user-code history)",
    "C18": "a case is one failing parse whose error, expected set, trait object and copy are each rendered into sinks that refuse or panic "
           "at every piece in turn, run out of room, render or parse something themselves; non-trivial when an error was rendered; "
           "distinct by outcome, user-code history and the results of all renderings",
    "C01": "a case is a seeded set of parses, their assignment to client threads, re-entrant parses and the scheduler's choices; "
           "non-trivial when the baton moved between threads, a parse ran inside another, or a fault fired; distinct by schedule and results",
    "C02": "a case is one parse with a panic at one enumerated user-code call or input access (all of the run's first 60 calls per pass and 80 accesses), "
           "followed by three later parses; non-trivial when the panic was reached; distinct by outcome and history",
}


def ws_build(profile, cseed, features=""):
    cargo(["build", "--release", "--offline", "--bin", "simgen", "--target-dir", str(BUILD / "tools")],
          HERE / "sim" / "simlib", "the corpus generator")
    name = "ws-%s-%d%s" % (profile, cseed, "-" + features if features else "")
    ws = BUILD / name
    args = [str(BUILD / "tools" / "release" / "simgen"), profile, str(cseed), str(ws), str(REPO),
            str(HERE / "sim"), "8"]
    if features:
        args.append(features)
    subprocess.run(args, check=True, stdout=subprocess.DEVNULL)
    lock = ws / "Cargo.lock"
    if not lock.exists():
        shutil.copy(HERE / "sim" / "base.lock", lock)
    # one target directory per tree under test
    target = BUILD / "target"
    pkg = "run_%s%d%s" % (profile, cseed, features)
    cargo(["build", "--offline", "--target-dir", str(target), "--package", pkg], ws,
          "the corpus %s" % name, BUILD_LIMIT)
    exe = BUILD / ("run-" + name)
    shutil.copy(target / "debug" / pkg, exe)
    who = subprocess.run([str(exe), "identity"], stdout=subprocess.PIPE, text=True, preexec_fn=limit).stdout.strip()
    if who != "%s/%d traced=%s" % (profile, cseed, str(bool(features)).lower()):
        raise HarnessError("the runner of %s says it is %r" % (name, who))
    return exe, ws


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def spawn(cmd, err):
    return subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(err, "w"), preexec_fn=limit)


def replay_once(exe, prop, path, timeout=180):
    try:
        p = subprocess.run([str(exe), "replay", "check=" + prop, "file=" + str(path)], stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, preexec_fn=limit)
    except subprocess.TimeoutExpired:
        return "hang", "no answer within %d s" % timeout
    if p.returncode == 10:
        cls = re.search(r"^class (.*)$", p.stderr, re.M)
        det = re.search(r"^detail (.*)$", p.stderr, re.M)
        return (cls.group(1) if cls else "?"), (det.group(1) if det else "")
    if p.returncode == 0:
        return None, ""
    if p.returncode == 13:
        return "hang", "one parse used 25 s of processor time"
    if p.returncode < 0:
        return "crash", "the process was killed by signal %d: %s" % (-p.returncode, p.stderr[-300:].strip())
    raise HarnessError("replay ended with %d: %s" % (p.returncode, p.stderr[-2000:]))


def header(prop, profile, cseed, features, exe_kind="sim"):
    return "check %s\nkind %s\nprofile %s\ncorpus-seed %d\nfeatures %s\n" % (
        prop, exe_kind, profile, cseed, features or "-")


def confirm(exe, prop, head, case_text, prelude, tmp):
    """Turn a raw failure into a minimised, confirmed replay file body."""
    path = tmp / "confirm.txt"
    path.write_text(head + case_text)
    cls, det = replay_once(exe, prop, path)
    if cls:
        if cls not in ("hang", "crash"):
            path2 = tmp / "shrink.txt"
            path2.write_text(case_text)
            try:
                p = subprocess.run([str(exe), "shrink", "check=" + prop, "file=" + str(path2)],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=150, preexec_fn=limit)
                if p.returncode == 10:
                    small = head + path2.read_text()
                    path.write_text(small)
                    c2, d2 = replay_once(exe, prop, path)
                    if c2:
                        return c2, d2, small
            except subprocess.TimeoutExpired:
                pass
        else:
            return crash_shrink(exe, prop, head, case_text, cls, det, tmp)
        return cls, det, head + case_text
    # the failure may depend on what the process did before
    seed, frm, step, idx, k = prelude
    back = 1
    while True:
        start = max(frm, idx - back * step)
        body = head + "prelude %d %d %d %d %d\n" % (seed, start, step, idx, k) + case_text
        path.write_text(body)
        cls, det = replay_once(exe, prop, path, 600)
        if cls:
            return cls, det + " (after the scenarios replayed first)", body
        if start == frm:
            break
        back *= 8
    for _ in range(20):
        path.write_text(head + case_text)
        cls, det = replay_once(exe, prop, path)
        if cls:
            return cls, det + " (not on every execution)", head + case_text
    return "unrepeatable", "observed once; the replay does not fail again", head + case_text


def crash_shrink(exe, prop, head, case_text, cls, det, tmp):
    path = tmp / "crash.txt"
    lines = case_text.splitlines()
    start = time.time()
    changed = True
    while changed and time.time() - start < 60:
        changed = False
        for i, l in enumerate(lines):
            if not l.startswith("parse "):
                continue
            words = l.split(" ")
            for j in range(len(words) - 1, 0, -1):
                cand = None
                if words[j].startswith("@"):
                    cand = words[:j] + words[j + 1:]
                elif words[j].startswith("tape=") and words[j] != "tape=-":
                    cs = words[j][5:].split(",")[:-1]
                    cand = words[:j] + ["tape=" + (",".join(cs) or "-")] + words[j + 1:]
                if cand is None or time.time() - start > 60:
                    continue
                new = lines[:i] + [" ".join(cand)] + lines[i + 1:]
                path.write_text(head + "\n".join(new) + "\n")
                c2, d2 = replay_once(exe, prop, path, 60)
                if c2 == cls:
                    lines, det, changed = new, d2, True
                    break
            if changed:
                break
    return cls, det, head + "\n".join(lines) + "\n"


def explore(exe, prop, head, n, wall, tmp, stats):
    procs = []
    for w in range(WORKERS):
        out = tmp / ("w%d" % w)
        cmd = [str(exe), "explore", "check=" + prop, "seed=%d" % SEED, "from=%d" % w, "step=%d" % WORKERS,
               "to=%d" % n, "wall=%d" % wall, "out=%s" % out]
        procs.append((w, out, spawn(cmd, str(out) + ".err")))
    failures = []
    pending = list(procs)
    while pending:
        time.sleep(0.02)
        for item in list(pending):
            w, out, p = item
            if p.poll() is None:
                continue
            pending.remove(item)
            if p.returncode != 0:
                failures.append(item)
        if failures:
            for _, _, p in pending:
                p.kill()
                p.wait()
            break
    for w, out, p in procs:
        j = pathlib.Path(str(out) + ".json")
        if j.exists():
            d = json.loads(j.read_text())
            for k, v in d["counters"].items():
                if k.startswith("max_"):
                    stats["n"][k] = max(stats["n"].get(k, 0), v)
                else:
                    stats["n"][k] = stats["n"].get(k, 0) + v
            stats["truncated"] |= d["truncated"]
            stats["samples"].extend(d["samples"])
            b = pathlib.Path(str(out) + ".digests").read_bytes()
            stats["digests"].update(b[i:i + 8] for i in range(0, len(b), 8))
    for w, out, p in failures:
        if p.returncode == 10:
            text = pathlib.Path(str(out) + ".viol").read_text()
            idx, k = map(int, re.search(r"^index (\d+) .* case (\d+)", text, re.M).groups())
            case = "".join(l + "\n" for l in text.splitlines() if l.startswith(("opt ", "parse ")))
            cls, det, body = confirm(exe, prop, head, case, (SEED, w, WORKERS, idx, k), tmp)
            raise Found(cls, det, body)
        if p.returncode in (13, -6, -11, -4, -7, -9):
            idx = int.from_bytes(pathlib.Path(str(out) + ".progress").read_bytes()[:8], "little")
            err = pathlib.Path(str(out) + ".err").read_text(errors="replace")[-300:]
            q = subprocess.run([str(exe), "case", "check=" + prop, "seed=%d" % SEED, "index=%d" % idx],
                               stdout=subprocess.PIPE, text=True)
            for k, case in enumerate(q.stdout.split("case\n")[1:]):
                path = tmp / "crashcase.txt"
                path.write_text(head + case)
                cls, det = replay_once(exe, prop, path)
                if cls:
                    cls, det, body = confirm(exe, prop, head, case, (SEED, w, WORKERS, idx, k), tmp)
                    raise Found(cls, det, body)
            body = head + "prelude %d %d %d %d\n" % (SEED, w, WORKERS, idx + WORKERS)
            path = tmp / "crashcase.txt"
            path.write_text(body)
            cls, det = replay_once(exe, prop, path, 600)
            if cls:
                raise Found(cls, det, body)
            if p.returncode == -9:
                raise HarnessError("a worker was killed: %s" % err)
            raise Found("unrepeatable", "a worker ended with %d at scenario %d: %s" % (p.returncode, idx, err), body)
        err = pathlib.Path(str(out) + ".err").read_text(errors="replace")[-2000:]
        raise HarnessError("worker %d ended with %d: %s" % (w, p.returncode, err))


def sim_check(prop, tier, stats):
    spec = SIM[prop]
    corpora = [SEED + 1000 * k for k in range(spec.get("quick_corpora", 2) if tier == "quick" else spec["corpora"])]
    n = spec[tier] // (len(corpora) if tier == "quick" else 1)
    n = max(100, int(n * SCALE))
    wall = 100 if tier == "quick" else 1200
    feats = spec.get("features", "")
    stats["level"] = spec.get("level", "exploration")
    stats["rule"] = RULES.get(prop, RULES["sim"])
    for cseed in corpora:
        head = header(prop, spec["profile"], cseed, feats)
        t0 = time.time()
        try:
            exe, ws = ws_build(spec["profile"], cseed, feats)
        except BuildRejected as e:
            raise Found("rejected", "a grammar of the supported language no longer compiles: " + e.what,
                        head + "build-only\n" + "".join("# " + l + "\n" for l in e.log.splitlines()))
        stats["build_s"] = stats.get("build_s", 0) + time.time() - t0
        stats["corpora"].append({"profile": spec["profile"], "seed": cseed})
        with tempfile.TemporaryDirectory(prefix="sim-", dir="/tmp") as td:
            t0 = time.time()
            try:
                explore(exe, prop, head, n, wall, pathlib.Path(td), stats)
            finally:
                stats["explore_s"] = stats.get("explore_s", 0) + time.time() - t0
        if tier != "quick":
            shutil.rmtree(ws, ignore_errors=True)
            exe.unlink()
    stats["real"] = ["peg-macros (expanding every grammar of the corpus at build time)",
                     "peg-runtime (ErrorState, ParseError, RuleResult" + (", str input)" if prop != "C10" else ")"),
                     "all generated parser code"]
    stats["stub"] = ["input device (Parse/ParseElem/ParseLiteral/ParseSlice over a simulated tape with sparse positions)",
                     "user code (custom expressions, methods, guards, conditional blocks, actions)"]
    if prop == "C18":
        stats["stub"].append("text sinks (fmt::Write) errors are rendered into")
    if prop == "C12":
        stats["stub"].append("standard output (write(2) on descriptor 1)")
    if prop == "C01":
        stats["stub"].append("thread scheduler (real threads, one runs at a time, chosen by the seed)")


def sim_replay(prop, path):
    text = pathlib.Path(path).read_text()
    h = dict(l.split(" ", 1) for l in text.splitlines()[:5])
    feats = "" if h["features"] == "-" else h["features"]
    try:
        exe, _ = ws_build(h["profile"], int(h["corpus-seed"]), feats)
    except BuildRejected as e:
        return "rejected", e.what
    if "build-only" in text.splitlines():
        return None, ""
    subprocess.run([str(exe), "replay", "check=" + prop, "file=" + str(path), "log=1"], preexec_fn=limit) \
        if os.environ.get("SIM_LOG") else None
    return replay_once(exe, prop, path, 600)


# ---------------------------------------------------------------- main

def known_findings():
    p = HERE / "known-findings.txt"
    out = []
    if p.exists():
        for l in p.read_text().splitlines():
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) :: (.*)$", l)
            if m:
                out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop = a.property
    if prop == "setup":
        BUILD.mkdir(parents=True, exist_ok=True)
        cargo(["build", "--release", "--offline", "--bin", "simgen", "--target-dir", str(BUILD / "tools")],
              HERE / "sim" / "simlib", "the corpus generator")
        return 0
    BUILD.mkdir(parents=True, exist_ok=True)
    EVID.mkdir(parents=True, exist_ok=True)
    if prop in SIM:
        check, replay = sim_check, sim_replay
    elif prop == "C11":
        import stream
        check, replay = stream.check, stream.replay
    elif prop in ("C13", "C14", "C15"):
        import genproc
        check, replay = genproc.check, genproc.replay
    elif prop == "C19":
        import expand
        check, replay = expand.check, expand.replay
    elif prop == "C17":
        import genruns
        check, replay = genruns.check, genruns.replay
    else:
        print("no check for", prop)
        return 2
    if a.replay:
        cls, det = replay(prop, a.replay)
        if cls:
            print("class %s\ndetail %s" % (cls, det))
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        print("the replay does not fail")
        return 0
    print("seed %d, tier %s, tree %s" % (SEED, a.tier, REPO), flush=True)
    t0 = time.time()
    stats = {"n": {}, "digests": set(), "samples": [], "truncated": False, "corpora": []}
    found = None
    try:
        check(prop, a.tier, stats)
    except Found as f:
        found = f
    for (kp, kc, km, kd) in known_findings():
        if kp == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, kd))
            if found and found.cls == kc and km in found.detail:
                found = None
    wall = time.time() - t0
    n = stats["n"]
    cov = {
        "evaluations": n.get("evaluations", 0),
        "distinct_nontrivial": len(stats["digests"]),
        "rule": stats.get("rule", ""),
        "samples": stats["samples"][:6] or ["none"],
        "faults_injected": {k[6:]: v for k, v in sorted(n.items()) if k.startswith("fault.")},
        "situations_reached": {k[6:]: v for k, v in sorted(n.items()) if k.startswith("probe.")},
        "outcomes": {k[8:]: v for k, v in sorted(n.items()) if k.startswith("outcome.")},
        "counters": {k: v for k, v in sorted(n.items())
                     if not k.startswith(("fault.", "probe.", "outcome.")) and k != "evaluations"},
        "simulated_runs_per_hour": int(n.get("evaluations", 0) / max(0.001, stats.get("explore_s", wall)) * 3600),
        "simulated_time": "%d %s; the system has no clock" % (
            n.get("steps", 0), stats.get("unit", "environment steps (input accesses and user-code calls)")),
        "distinct_measure": stats.get("rule", ""),
        "corpora": stats["corpora"],
        "real_components": stats.get("real", []),
        "stub_components": stats.get("stub", []),
        "workers": WORKERS,
        "stopped_at_wall_limit": stats["truncated"],
        "build_s": round(stats.get("build_s", 0), 1),
    }
    cov.update(stats.get("extra", {}))
    ev = {
        "property": prop, "tier": a.tier, "seed": SEED, "level": stats.get("level", "exploration"),
        "coverage": cov, "wall_s": round(wall, 2), "violations": 1 if found else 0,
        "assumptions": stats.get("assumptions", ["sampling, not enumeration: a clean batch is evidence, not proof"]),
    }
    (EVID / (prop + ".json")).write_text(json.dumps(ev, indent=1, ensure_ascii=False) + "\n")
    print("%s: %d evaluations, %d distinct non-trivial, %.1f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], wall))
    if found:
        body = found.body
        h = hashlib.sha1(body.encode()).hexdigest()[:10]
        path = EVID / ("replay-%s-%s.txt" % (prop, h))
        path.write_text(body)
        print("class %s\ndetail %s" % (found.cls, found.detail[:3000]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if cov["evaluations"] == 0:
        print("nothing was evaluated")
        return 2
    return 0


if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
    try:
        code = main()
    except HarnessError as e:
        print("harness error: %s" % e)
        code = 2
    sys.exit(code)
