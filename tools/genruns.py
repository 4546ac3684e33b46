"""C17: histories of rust-peg runs in one place.

Several simulated processes run one after another and at once in the same
directory, home and temporary directory. Each stops at every call that touches a
file; one seeded scheduler says which goes on, so a case is one interleaving.
Runs are killed, refused and starved of memory; the runs that nothing happened
to must give what they give alone, and nothing but the grammars may be left.
"""
import hashlib
import json
import multiprocessing as mp
import os
import pathlib
import random
import select
import shutil
import struct
import subprocess
import tempfile
import time

import genproc as G
import run as R

SLOTS = 3
WORK = dict(quick=(3600, 100), thorough=(200000, 900))
FILES = ["g.rustpeg", "a.peg", "b"]


class Stuck(Exception):
    pass


class Slot:
    def __init__(self, root):
        self.dir = pathlib.Path(root)
        self.stuck = False
        self.dir.mkdir(parents=True)
        self.rep, self.plan = self.dir / "report", self.dir / "plan"
        self.out, self.err, self.src = self.dir / "out", self.dir / "err", self.dir / "src"
        self.gin, self.gout = self.dir / "gatein", self.dir / "gateout"
        os.mkfifo(self.gin)
        os.mkfifo(self.gout)
        self.fin = os.open(self.gin, os.O_RDWR | os.O_NONBLOCK)
        self.fout = os.open(self.gout, os.O_RDWR | os.O_NONBLOCK)
        self.p = subprocess.Popen([str(R.BUILD / "proc" / "launch")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0)

    def close(self):
        if self.stuck:
            self.p.kill()
        self.p.stdin.close()
        self.p.wait()
        os.close(self.fin)
        os.close(self.fout)

    def drain(self):
        for fd in (self.fin, self.fout):
            try:
                while os.read(fd, 4096):
                    pass
            except BlockingIOError:
                pass


class Place:
    """A directory tree the runs share, and nothing else."""

    def __init__(self, exe, root):
        self.exe = exe
        self.root = pathlib.Path(root)
        self.root.mkdir(parents=True, exist_ok=True)
        self.jail = self.root / "jail"
        self.slots, self.made = [], 0
        self.set_up()
        self.fresh()

    def set_up(self):
        for s in self.slots:
            s.stuck = True
            s.close()
        self.slots = [Slot(self.root / ("s%d" % (self.made + i))) for i in range(SLOTS)]
        self.made += SLOTS

    def close(self):
        for s in self.slots:
            s.close()

    def fresh(self):
        shutil.rmtree(self.jail, ignore_errors=True)
        for d in ("cwd", "home", "tmp"):
            (self.jail / d).mkdir(parents=True)

    def tree(self):
        out = {}
        for base, dirs, files in os.walk(self.jail):
            for f in dirs + files:
                q = os.path.join(base, f)
                out[os.path.relpath(q, self.jail)] = None if f in dirs else open(q, "rb").read()
        return out

    def start(self, s, run, data, gated=True):
        s.drain()
        s.rep.write_bytes(b"\0" * G.REPORT)
        plan = dict(run["plan"])
        plan.update(report=str(s.rep), jail=str(self.jail))
        if gated:
            plan.update(gatein=str(s.gin), gateout=str(s.gout))
        cwd = self.jail / "cwd"
        if run["via"] == "file":
            plan["source"] = arg = run["file"] if run.get("rel") else str(cwd / run["file"])
            argv, stdin = [arg], "/dev/null"
        else:
            s.src.write_bytes(data)
            argv, stdin = [], str(s.src)
        s.plan.write_text("".join("%s=%s\n" % kv for kv in plan.items()))
        env = ["SIMPLAN=" + str(s.plan), "LD_PRELOAD=" + str(R.BUILD / "proc" / "shim.so"),
               "HOME=" + str(self.jail / "home"), "TMPDIR=" + str(self.jail / "tmp"),
               "XDG_CACHE_HOME=" + str(self.jail / "home" / "cache"), "PATH=/bin"]
        f = [str(G.TIMEOUT_MS), str(cwd), stdin, str(s.out), str(s.err), str(self.exe), "rust-peg",
             str(len(argv))] + argv + env
        s.p.stdin.write(("\t".join(f) + "\n").encode())

    def result(self, s, rc):
        if rc in (94, 95, 96, 97, 98, 99):
            raise R.HarnessError("the process seam failed with %d" % rc)
        rep = dict(zip(G.FIELDS, struct.unpack("<%dQ" % len(G.FIELDS), s.rep.read_bytes())))
        return rc, s.out.read_bytes(), s.err.read_bytes(), rep

    def group(self, runs, datas, rng):
        """Run them at once -> (results, number of switches, schedule digest)"""
        for s, r, d in zip(self.slots, runs, datas):
            self.start(s, r, d)
        state = ["moving"] * len(runs)
        rcs = [None] * len(runs)
        last, switches, sched = None, 0, hashlib.sha1()
        hold = rng.choice([1, 1, 2, 5, 20])
        left = 0
        while True:
            while "moving" in state:
                fds = {}
                for i, st in enumerate(state):
                    if st == "moving":
                        fds[self.slots[i].fout] = (i, "gate")
                        fds[self.slots[i].p.stdout.fileno()] = (i, "end")
                ready, _, _ = select.select(list(fds), [], [], 60)
                if not ready:
                    raise Stuck("a simulated process neither moves nor ends")
                for fd in ready:
                    i, what = fds[fd]
                    if state[i] != "moving":
                        continue
                    if what == "end":
                        line = self.slots[i].p.stdout.readline()
                        if not line:
                            raise R.HarnessError("the launcher ended")
                        rcs[i] = int(line)
                        state[i] = "ended"
                    else:
                        os.read(fd, 1)
                        state[i] = "waiting"
            able = [i for i, st in enumerate(state) if st == "waiting"]
            if not able:
                break
            if last in able and left > 0:
                i, left = last, left - 1
            else:
                i, left = rng.choice(able), rng.randrange(hold)
            if last is not None and i != last:
                switches += 1
            last = i
            sched.update(bytes([i]))
            state[i] = "moving"
            os.write(self.slots[i].fin, b"x")
        return [self.result(s, rc) for s, rc in zip(self.slots, rcs)], switches, sched.digest()[:8]


QUIET = {"seed": 0, "fixclock": 1000000, "pid": 4242}


def reference(place, data):
    place.fresh()
    s = place.slots[0]
    place.start(s, {"plan": QUIET, "via": "stdin"}, data, gated=False)
    rc, out, err, rep = place.result(s, int(s.p.stdout.readline()))
    place.fresh()
    return {"rc": rc, "out": out, "err": err, "rep": rep}


def make(rng, texts, ref):
    """A history. texts: [(name, text)]"""
    pool = [rng.randrange(len(texts)) for _ in range(rng.randint(1, 3))]
    groups = []
    for _ in range(rng.randint(1, 4)):
        group = []
        placed = {}
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            gi = rng.choice(pool)
            f = rng.choice(FILES[:2])
            if placed.get(f, gi) != gi:
                f = FILES[2]
                if placed.get(f, gi) != gi:
                    continue
            r = ref(gi)
            plan = {"seed": rng.choice([1, 2, rng.getrandbits(48)]), "fixclock": rng.choice([1000000, 1000000, 2000000]),
                    "pid": 4242 + rng.randrange(3)}
            k = rng.randrange(12)
            points = r["rep"]["points"]
            if k < 3:
                plan["pkill"] = rng.choice([rng.randrange(points + 1), rng.randrange(12), max(0, points - rng.randrange(4))])
            elif k == 3:
                plan["wfail"] = rng.randrange(len(r["out"]) + 1)
                plan["werr"] = rng.choice(G.WRITE_ERRORS)
                plan["wsticky"] = rng.randrange(2)
            elif k == 4:
                plan["mfail"] = rng.randrange(max(1, r["rep"]["allocs"]))
                plan["mlast"] = plan["mfail"] + rng.choice([0, 1 << 40])
            elif k == 5:
                plan["rfail"] = rng.randrange(len(texts[gi][1].encode()) + 1)
                plan["rerr"] = rng.choice(G.READ_ERRORS)
            if rng.random() < 0.3:
                plan["xfail"], plan["xerr"] = rng.randrange(4), rng.choice([28, 5, 13])
            if rng.random() < 0.3:
                plan["xmax"] = rng.choice([1, 7, 512])
            if rng.random() < 0.2:
                plan["rmax"] = rng.choice([64, 1000])
            via = rng.choice(["file", "file", "stdin"])
            if via == "file":
                placed[f] = gi
            group.append({"g": texts[gi][0], "via": via, "file": f, "rel": rng.random() < 0.5, "plan": plan})
        groups.append(group)
    return {"groups": groups, "sseed": rng.getrandbits(32), "mtime": rng.random() < 0.5}


def execute(place, case, grammars, refs):
    """-> (violation or None, reports, switches, schedule digest)"""
    place.fresh()
    rng = random.Random(case["sseed"])
    expect = {d: None for d in ("cwd", "home", "tmp")}
    reps, switches, sched = [], 0, hashlib.sha1()
    for n, group in enumerate(case["groups"]):
        datas = [grammars[r["g"]].encode() for r in group]
        for r, d in zip(group, datas):
            if r["via"] == "file":
                p = place.jail / "cwd" / r["file"]
                if not p.exists() or p.read_bytes() != d:
                    p.write_bytes(d)
                if case["mtime"]:
                    os.utime(p, (1e9, 1e9))
                expect["cwd/" + r["file"]] = d
        try:
            results, sw, dig = place.group(group, datas, rng)
        except Stuck as e:
            place.set_up()
            return ("hang", "group %d: %s" % (n + 1, e)), reps, switches, sched
        switches += sw
        sched.update(dig)
        for k, (r, (rc, out, err, rep)) in enumerate(zip(group, results)):
            reps.append((rc, rep))
            who = "run %d of group %d (%s, %s)" % (k + 1, n + 1, r["g"], r["via"])
            ref = refs[r["g"]]
            hard = [x for x in ("killed", "write_fail", "alloc_fail", "read_fail") if rep[x]]
            if rc == 2000:
                return ("hang", who + ": no end within %d ms of processor time" % G.TIMEOUT_MS), reps, switches, sched
            if not ref["out"].startswith(out):
                at = next((i for i, (a, b) in enumerate(zip(ref["out"], out)) if a != b), min(len(out), len(ref["out"])))
                return ("mixed-output", who + ": its output differs from that of the same run alone at byte %d: %r" % (
                    at, out[max(0, at - 20):at + 30])), reps, switches, sched
            if hard:
                continue
            for what, a, b in (("exit-status", ref["rc"], rc), ("output", ref["out"], out), ("diagnostics", ref["err"], err)):
                if a != b:
                    return ("disturbed", who + ": %s differs from that of the same run alone (%r instead of %r)" % (
                        what, b if what == "exit-status" else b[-80:], a if what == "exit-status" else a[-80:])), reps, switches, sched
        tree = place.tree()
        if tree != expect:
            for f in sorted(set(tree) | set(expect)):
                if f not in tree:
                    return ("removed", "%s is gone after group %d" % (f, n + 1)), reps, switches, sched
                if f not in expect:
                    return ("left-behind", "%s was made by group %d" % (f, n + 1)), reps, switches, sched
                if tree[f] != expect[f]:
                    return ("input-changed", "%s was changed by group %d" % (f, n + 1)), reps, switches, sched
    return None, reps, switches, sched


def worker(w, tier, exe, texts, root, total, deadline):
    place = Place(exe, os.path.join(root, "w%d" % w))
    refs, n, digests, scheds, samples = {}, {}, set(), set(), []
    names = dict(texts)
    found = None

    def add(k, v=1):
        if v:
            n[k] = n.get(k, 0) + v

    def ref(gi):
        name, text = texts[gi]
        if name not in refs:
            refs[name] = reference(place, text.encode())
        return refs[name]

    try:
        i = w
        while i < total:
            if time.time() > deadline:
                n["truncated"] = 1
                break
            rng = random.Random("C17-%d-%d" % (R.SEED, i))
            case = make(rng, texts, ref)
            bad, reps, switches, sched = execute(place, case, names, refs)
            add("evaluations")
            add("process_switches", switches)
            for rc, rep in reps:
                add("processes")
                add("steps", rep["points"])
                add("outcome.exit_0" if rc == 0 else "outcome.exit_fail" if rc < 1000 else "outcome.signal")
                for k in ("killed", "write_fail", "alloc_fail", "read_fail", "read_short", "other_fail"):
                    add("fault." + k, rep[k])
                for k in ("other_opens", "other_writes"):
                    add(k, rep[k])
            add("concurrent_groups", sum(len(g) > 1 for g in case["groups"]))
            d = sched.digest()[:8]
            scheds.add(d)
            digests.add(hashlib.sha1(repr([(rc, rep["hash"]) for rc, rep in reps]).encode() + d).digest()[:8])
            if len(samples) < 2:
                samples.append(case)
            if bad:
                found = (bad[0], bad[1], case)
                break
            i += R.WORKERS
        n["distinct_schedules"] = len(scheds)
    finally:
        place.close()
    return n, digests, samples, found


def pool_worker(args):
    try:
        return worker(*args)
    except R.HarnessError as e:
        return str(e)


def check(prop, tier, stats):
    t0 = time.time()
    exe = G.build()
    texts = [(n, t) for n, t in G.corpus("C14", tier) if len(t) < 2500][:150]
    stats["build_s"] = time.time() - t0
    total, wall = WORK[tier]
    total = max(100, int(total * R.SCALE))
    stats["level"] = "exploration"
    stats["unit"] = "calls that touch a file"
    stats["rule"] = ("a case is a seeded history of one to four groups of up to three simultaneous runs of the real program in one place, "
                     "with its fault plan and its interleaving at every call that touches a file; distinct by results, intercepted calls and interleaving")
    stats["real"] = ["rust-peg program (bin.rs, meta-grammar parser, analysis, translate, peg-runtime, proc-macro2, Rust std), one process per run"]
    stats["stub"] = ["libc calls that touch files, memory, clock, randomness and identity (interposed)", "process scheduler (at those calls)"]
    stats["corpora"] = [{"grammars": len(texts)}]
    t0 = time.time()
    with tempfile.TemporaryDirectory(prefix="runs-", dir="/tmp") as root:
        found = None
        with mp.get_context("fork").Pool(R.WORKERS) as pool:
            for res in pool.imap_unordered(pool_worker, [(w, tier, exe, texts, root, total, t0 + wall) for w in range(R.WORKERS)]):
                if isinstance(res, str):
                    raise R.HarnessError(res)
                n, digests, samples, bad = res
                for k, v in n.items():
                    if k == "truncated":
                        stats["truncated"] = True
                    else:
                        stats["n"][k] = stats["n"].get(k, 0) + v
                stats["digests"] |= digests
                stats["samples"].extend(samples)
                if bad:
                    found = bad
                    break
        stats["explore_s"] = time.time() - t0
        if found:
            raise R.Found(*minimise(exe, root, found, dict(texts)))


def verdict(place, case, grammars):
    used = {r["g"] for g in case["groups"] for r in g}
    refs = {n: reference(place, grammars[n].encode()) for n in used}
    return execute(place, case, grammars, refs)[0]


def minimise(exe, root, found, names):
    cls, det, case = found
    place = Place(exe, os.path.join(root, "min"))
    start = time.time()

    def body(c):
        used = {r["g"] for g in c["groups"] for r in g}
        return json.dumps({"check": "C17", "class": cls, "grammars": {k: names[k] for k in sorted(used)}, "case": c}, indent=1) + "\n"

    try:
        v = verdict(place, case, names)
        if not v:
            return "unrepeatable", cls + ": " + det, body(case)
        cls, det = v
        better = True
        while better and time.time() - start < 60:
            better = False
            for cand in simpler(case):
                if time.time() - start > 60:
                    break
                v = verdict(place, cand, names)
                if v and v[0] == cls:
                    case, det, better = cand, v[1], True
                    break
        return cls, det, body(case)
    finally:
        place.close()


def simpler(case):
    def copy():
        return json.loads(json.dumps(case))
    for i in range(len(case["groups"])):
        if len(case["groups"]) > 1:
            c = copy()
            del c["groups"][i]
            yield c
        for j in range(len(case["groups"][i])):
            if len(case["groups"][i]) > 1:
                c = copy()
                del c["groups"][i][j]
                yield c
            for k in case["groups"][i][j]["plan"]:
                if k not in ("seed", "werr", "rerr", "xerr", "fixclock", "pid"):
                    c = copy()
                    del c["groups"][i][j]["plan"][k]
                    yield c


def replay(prop, path):
    d = json.loads(pathlib.Path(path).read_text())
    exe = G.build()
    with tempfile.TemporaryDirectory(prefix="runs-", dir="/tmp") as root:
        place = Place(exe, os.path.join(root, "r"))
        try:
            v = verdict(place, d["case"], d["grammars"])
        finally:
            place.close()
    return v or (None, "")
