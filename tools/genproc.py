"""C13, C14, C15: the rust-peg program as a simulated process.

The real binary, built from the tree under test, runs under an interposed libc
seam (sim/proc/shim.c). One seeded PRNG per case decides the grammar, how it is
delivered, and every fault. A case is a dict; the replay file is its JSON.
"""
import base64
import errno as E
import hashlib
import json
import os
import pathlib
import random
import re
import shutil
import struct
import subprocess
import tempfile
import time
import multiprocessing as mp

import run as R

FIELDS = ("hash events reads read_bytes read_short read_eintr read_fail read_eof_early writes write_bytes "
          "write_short write_eintr write_fail write_zero killed opens open_fail open_eintr allocs alloc_fail "
          "alloc_poison randoms clocks stats stat_lies err_writes err_fail env_asked env_lies machine points other_opens other_writes other_fail").split()
REPORT = 8 * len(FIELDS)

READ_ERRORS = [E.EIO, E.EISDIR, E.ENOMEM, E.EAGAIN, E.EINVAL, E.ETIMEDOUT, E.ESTALE, E.ECONNRESET]
OPEN_ERRORS = [E.ENOENT, E.EACCES, E.EMFILE, E.ENFILE, E.EIO, E.ENOMEM, E.ELOOP, E.ESTALE, E.EPERM]
WRITE_ERRORS = [E.ENOSPC, E.EPIPE, E.EIO, E.EDQUOT, E.EFBIG, E.EAGAIN, E.ECONNRESET, 0]  # 0: accepts nothing

TIMEOUT_MS = 20000
WORK = {
    # cases per run, wall-clock limit of the batch in seconds
    "C13": dict(quick=(12000, 45), thorough=(400000, 900)),
    "C14": dict(quick=(12000, 45), thorough=(400000, 900)),
    "C15": dict(quick=(14000, 45), thorough=(400000, 900)),
}


# ---------------------------------------------------------------- building

def build():
    R.cargo(["build", "-p", "peg-macros", "--bin", "rust-peg", "--offline", "--target-dir", str(R.BUILD / "bin")],
            R.REPO, "the rust-peg program")
    R.cargo(["build", "--release", "--offline", "--bin", "simgen", "--target-dir", str(R.BUILD / "tools")],
            R.HERE / "sim" / "simlib", "the corpus generator")
    out = R.BUILD / "proc"
    out.mkdir(exist_ok=True)
    src = R.HERE / "sim" / "proc"
    for args in (["-shared", "-fPIC", "-o", str(out / "shim.so"), str(src / "shim.c"), "-ldl"],
                 ["-o", str(out / "launch"), str(src / "launch.c")]):
        pathlib.Path(args[args.index("-o") + 1]).unlink(missing_ok=True)
        p = subprocess.run(["gcc", "-O2"] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise R.HarnessError("building the process seam failed:\n" + p.stdout[-3000:])
    exe = out / "rust-peg"
    fresh = out / ("rust-peg.%d" % os.getpid())
    shutil.copy(R.BUILD / "bin" / "debug" / "rust-peg", fresh)
    os.replace(fresh, exe)
    return exe


UNI = ["λ", "→", "é", "漢字", "🦀", "Ω", "ñandú", "\u200b", "𝔾"]


def decorate(text, rng):
    """Comments, blank space and literals outside ASCII; the grammar stays valid."""
    lines = text.rstrip("\n").split("\n")
    out = []
    for i, l in enumerate(lines):
        if 0 < i < len(lines) and re.match(r"\s*(#\[|pub rule|rule )", l) and rng.random() < 0.3:
            w = "".join(rng.choice(UNI) for _ in range(rng.randint(1, 8)))
            out.append(rng.choice(["// %s", "/* %s */", "    // '%s \" {"]) % w)
        out.append(l)
    text = "\n".join(out)
    if rng.random() < 0.4:
        k = text.rstrip().rfind("}")
        text = text[:k] + "  rule zz_extra() = \"%s\" / ['\u03b1'..='\u03c9']\n" % rng.choice(UNI) + text[k:]
    if rng.random() < 0.2:
        text = "// %s\n" % rng.choice(UNI) + text
    return text + rng.choice(["\n", "\n", "", "\n\n", "\r\n", "\n// " + rng.choice(UNI) + "\n"])


def corpus(prop, tier):
    """[(name, text)]: shipped grammars, then generated ones."""
    out = []
    for f in sorted((R.HERE / "sim" / "proc" / "grammars").glob("*.peg")):
        out.append((f.stem, f.read_text()))
    td = R.BUILD / "proc" / "texts"
    shutil.rmtree(td, ignore_errors=True)
    td.mkdir(parents=True)
    subprocess.run([str(R.BUILD / "tools" / "release" / "simgen"), "texts", str(R.SEED), str(td)], check=True)
    gen = [(f.stem, f.read_text()) for f in sorted(td.glob("*.peg"))]
    rng = random.Random("corpus-%d" % R.SEED)
    rng.shuffle(gen)
    gen = gen[:(140 if tier == "quick" else len(gen))]
    out += [(n, decorate(t, rng)) for n, t in gen]
    out += huge()
    if prop == "C14":
        out += wrong(out, rng, 60 if tier == "quick" else 600)
        out += big(gen, rng, 6 if tier == "quick" else 30)
    return out


def huge():
    """A text longer than common buffers, and its two halves."""
    rules = []
    for i in range(960):
        k = i % 480
        rules.append("  rule r%d() -> u8 = \"lit%d\" a:r%d()? b:$(['a'..='z']+) { 1 } / \"x\" { 2 }\n"
                     % (i, i, i - k + (k + 1) % 480))
    out = []
    for name, part in (("huge", rules), ("huge_a", rules[:480]), ("huge_b", rules[480:])):
        first = re.search(r"rule (\w+)", part[0]).group(1)
        out.append((name, "pub grammar g() for str {\n" + "".join(part) + "  pub rule top() -> u8 = %s()\n}\n" % first))
    return out


def wrong(good, rng, n):
    """Grammars with mistakes, usually several: diagnostics must be repeatable too."""
    out = []
    for k in range(n):
        name, text = good[rng.randrange(len(good))]
        for _ in range(rng.choice([1, 1, 2, 4])):
            m = rng.randrange(6)
            toks = list(re.finditer(r"[A-Za-z_0-9]+|\S", text))
            if len(toks) < 8:
                continue
            t = toks[rng.randrange(4, len(toks) - 1)]
            if m == 0:
                text = text[:t.start()] + text[t.end():]
            elif m == 1:
                text = text[:t.end()] + " " + rng.choice(["@", "rule", "nope()", "**", "=", "'", "}", "1", "->"]) + " " + text[t.end():]
            elif m == 2:
                calls = list(re.finditer(r"\b([a-z_]\w*)\(\)", text))
                if calls:
                    c = calls[rng.randrange(len(calls))]
                    text = text[:c.start()] + "undefined_%d()" % rng.randrange(9) + text[c.end():]
            elif m == 3:
                rules = re.findall(r"\brule (\w+)\(", text)
                if rules:
                    k2 = text.rstrip().rfind("}")
                    text = text[:k2] + "".join(
                        "  rule %s() = \"dup\"\n" % rng.choice(rules) for _ in range(rng.randint(1, 3))) + text[k2:]
            elif m == 4:
                k2 = text.rstrip().rfind("}")
                text = text[:k2] + "  rule la() = lb() \"x\"\n  rule lb() = lc() / \"y\"\n  rule lc() = la()\n" \
                                   "  rule lo() = (\"a\"? [' ']*)*\n  rule lp() = (&\"a\")**\"\"\n" + text[k2:]
            else:
                toks2 = toks[rng.randrange(len(toks))]
                text = text[:toks2.start()] + rng.choice(["\u03bb", "#", "\\", "\x00", "''", "\"\"\""]) + text[toks2.end():]
        out.append(("wrong%d-%s" % (k, name), text))
    return out


def big(gen, rng, n):
    """Many rules, caches and rule arguments in one grammar: large hash tables."""
    out = []
    for k in range(n):
        parts = ["pub grammar big%d(a: &str, b: u8) for str {\n  use std::collections::HashMap;\n" % k]
        names = ["r%d" % i for i in range(rng.randint(20, 60))]
        rng.shuffle(names)
        for i, nm in enumerate(names):
            attr = rng.choice(["", "", "#[cache]\n", "#[cache]\n", "#[cache_left_rec]\n"])
            callee = [rng.choice(names[i + 1:] or ["leaf"]) for _ in range(3)]
            body = rng.choice([
                '"%s" %s() / %s()? "z"', "%s() ** %s() \"k\"", "$(\"q\" %s()) quiet!{%s()} / expected!(\"t\")",
                "\"w\" gen(<%s()>) / !%s() \"m\" [_]",
            ])
            n2 = body.count("%s")
            args = [nm] + callee if body.startswith('"%s"') else callee
            parts.append("  %srule %s() = %s\n" % (attr, nm, re.sub(r"\S*-> ", "", body) % tuple(args[:n2])))
        parts.append("  rule leaf() = \"leaf\"\n  rule gen(x: rule<()>) = \"g\" x() / \"h\"\n  pub rule top() = %s()\n}\n" % names[0])
        out.append(("big%d" % k, "".join(parts)))
    return out


# ---------------------------------------------------------------- one process

class Runner:
    def __init__(self, exe, root):
        self.exe = exe
        self.dir = pathlib.Path(root)
        self.dir.mkdir(parents=True, exist_ok=True)
        self.cwds = [self.dir / "cwd", self.dir / "other dir", self.dir / "d\u00e9"]
        for d in self.cwds:
            d.mkdir(exist_ok=True)
        self.rep = self.dir / "report"
        self.p = subprocess.Popen([str(R.BUILD / "proc" / "launch")], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.last = None

    def close(self):
        self.p.stdin.close()
        self.p.wait()

    def run(self, data, plan, via="file", name="g.rustpeg", cwd=0, env=(), rel=False,
            argv0="rust-peg"):
        """-> (status, stdout, stderr, counters)"""
        cwd = self.cwds[cwd % len(self.cwds)]
        src = cwd / name
        key = (str(src), data)
        if self.last != key:
            src.write_bytes(data)
            self.last = key
        self.rep.write_bytes(b"\0" * REPORT)
        plan = dict(plan)
        plan["report"] = str(self.rep)
        if via == "file":
            arg = name if rel else str(src)
            plan["source"] = arg
        (self.dir / "plan").write_text("".join("%s=%s\n" % kv for kv in plan.items()))
        out, err = self.dir / "out", self.dir / "err"
        argv = [arg] if via == "file" else []
        envs = ["SIMPLAN=" + str(self.dir / "plan"), "LD_PRELOAD=" + str(R.BUILD / "proc" / "shim.so")] + list(env)
        f = [str(TIMEOUT_MS), str(cwd), str(src) if via == "stdin" else "/dev/null", str(out), str(err), str(self.exe),
             argv0, str(len(argv))] + argv + envs
        self.p.stdin.write(("\t".join(f) + "\n").encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise R.HarnessError("the launcher ended")
        rc = int(line)
        if rc in (94, 95, 96, 97, 98, 99):
            raise R.HarnessError("the process seam failed with %d" % rc)
        rep = dict(zip(FIELDS, struct.unpack("<%dQ" % len(FIELDS), self.rep.read_bytes())))
        return rc, out.read_bytes(), err.read_bytes(), rep


QUIET = {"seed": 0, "fixclock": 1000000, "pid": 4242}


# ---------------------------------------------------------------- cases

def reads(rng, plan, size):
    """Fragmented and interrupted delivery of complete text."""
    k = rng.randrange(6)
    if k == 0:
        plan["rmax"] = 1 if size < 3000 else 7
    elif k == 1:
        plan["rmax"] = rng.choice([2, 3, 7, 16, 64, 1000])
    elif k == 2:
        plan["rmin"] = plan["rmax"] = rng.choice([1, 31, 32, 33, 512, 4096]) if size < 20000 else 4096
    if rng.random() < 0.4:
        plan["reintr"] = rng.choice([20, 200, 600])
    if rng.random() < 0.4:
        plan["statlie"] = rng.choice([0, 1, max(0, size - 1), size + 1, size * 3, 100000, -2])


def writes(rng, plan):
    k = rng.randrange(4)
    if k == 0:
        plan["wmax"] = rng.choice([1, 3, 17, 100, 1000])
    elif k == 1:
        plan["wmin"] = plan["wmax"] = rng.choice([1, 5, 512, 1023, 1025])
    if rng.random() < 0.4:
        plan["weintr"] = rng.choice([20, 200, 600])


def case_c13(rng, g, ref):
    size = len(ref["out"])
    plan = {"seed": rng.getrandbits(48), "fixclock": 1000000}
    if rng.random() < 0.5:
        writes(rng, plan)
        if size > 40000 and plan.get("wmax", 99) < 17:
            plan["wmax"] = 512
            plan.pop("wmin", None)
    k = rng.randrange(10)
    if k < 5:
        head = ref["out"].find(b"\n") + 1
        at = rng.choice([
            lambda: rng.randrange(size + 1),
            lambda: size - rng.randrange(1, min(size, 1100) + 1),
            lambda: size - 1,
            lambda: rng.choice([0, 1, head - 1, head, head + 1]),
            lambda: max(0, min(size - 1, rng.choice([512, 1024, 4096, 8192]) * rng.randint(1, 9) + rng.randint(-1, 1))),
            lambda: size,
        ])()
        plan["wfail"] = max(0, at)
        plan["werr"] = rng.choice(WRITE_ERRORS)
        plan["wsticky"] = rng.randrange(2)
    elif k < 7:
        plan["wcall"] = rng.randrange(ref["rep"]["writes"] + 1)
        if "wmax" in plan:
            plan["wcall"] = rng.randrange(max(1, size // max(1, plan["wmax"] // 2)))
        plan["werr"] = rng.choice(WRITE_ERRORS)
        plan["wsticky"] = rng.randrange(2)
    elif k == 7:
        n = ref["rep"]["allocs"]
        plan["mfail"] = rng.randrange(n)
        if rng.random() < 0.3:
            plan["mfail"] = max(0, n - 1 - rng.randrange(40))
        plan["mlast"] = plan["mfail"] + rng.choice([0, 0, 3, 1 << 40])
    elif k == 8:
        plan["wkill"] = rng.randrange(size + 1)
    if rng.random() < 0.1:
        plan["efail"] = rng.choice([E.EIO, E.EPIPE, E.ENOSPC])
    return {"plan": plan, "via": rng.choice(["file", "stdin"])}


def sweep_c13(refs, tier):
    """Refuse each write call in turn, for the smaller grammars."""
    limit = 12 if tier == "quick" else 80
    small = sorted((len(r["out"]), gi) for gi, r in refs.items() if r["rc"] == 0)
    for size, gi in small[3:3 + limit]:
        for w in range(refs[gi]["rep"]["writes"] + 1):
            for sticky in (0, 1):
                yield gi, {"plan": {"seed": 1, "wcall": w, "werr": E.ENOSPC, "wsticky": sticky}, "via": "file"}


def judge_c13(case, data, ref, res):
    rc, out, err, rep = res
    good = ref["out"]
    if not good.startswith(out):
        n = next((i for i, (a, b) in enumerate(zip(good, out)) if a != b), min(len(good), len(out)))
        return "not-a-prefix", "the %d bytes accepted differ from the right output at byte %d of %d" % (len(out), n, len(good))
    if rc == 2000:
        return "hang", "no end within %d ms of processor time" % TIMEOUT_MS
    if rc == 0 and out != good:
        return "lost-output", "exit status 0 with %d of %d bytes of output accepted" % (len(out), len(good))
    if rc == 0 and rep["write_fail"]:
        return "ignored-error", "exit status 0 although the output stream refused data %d times" % rep["write_fail"]
    hard = rep["write_fail"] or rep["alloc_fail"] or rep["killed"]
    if rc != 0 and not hard:
        return "spurious-failure", "exit status %d although every byte could be written; stderr %r" % (rc, err[-200:])
    return None


def case_c14(rng, g, ref):
    size = len(g[1])
    plan = {"seed": rng.getrandbits(48), "fixclock": rng.choice([1, 1000000, 1 << 31, 1 << 40])}
    if rng.random() < 0.6:
        reads(rng, plan, size)
    if rng.random() < 0.7:
        plan["mpoison"] = 1
    if rng.random() < 0.7:
        plan["mpad"] = rng.choice([2, 8, 64])
    if rng.random() < 0.6:
        plan["envlie"] = rng.choice([300, 1000])
    if rng.random() < 0.5:
        plan["pid"] = rng.randint(2, 4000000)
    if rng.random() < 0.6:
        plan["machine"] = 1
    env = []
    if rng.random() < 0.3:
        env.append("%s=%d" % ("".join(rng.choice("ABCDEFGHXYZ_") for _ in range(rng.randint(1, 12))), rng.randrange(99)))
    for k, vs in (("LANG", ["C", "de_DE.UTF-8", ""]), ("TZ", ["UTC", "Asia/Tokyo"]), ("HOME", ["/", "/nonexistent"]),
                  ("RUST_LOG", ["trace"]), ("COLUMNS", ["3", "400"]), ("TERM", ["dumb", "xterm"]), ("USER", ["u"]),
                  ("CARGO_PKG_NAME", ["x"]), ("CARGO_MANIFEST_DIR", ["/x"]), ("OUT_DIR", ["/tmp"]), ("PATH", ["/bin"]),
                  ("SOURCE_DATE_EPOCH", ["0"]), ("NO_COLOR", ["1"]), ("DEBUG", ["1"]), ("TMPDIR", ["/tmp"])):
        if rng.random() < 0.3:
            env.append("%s=%s" % (k, rng.choice(vs)))
    if rng.random() < 0.2:
        env.append("PAD=" + "x" * rng.randrange(3000))
    return {"plan": plan, "via": rng.choice(["file", "stdin"]), "env": env, "cwd": rng.randrange(3),
            "rel": rng.random() < 0.5, "name": rng.choice(["g.rustpeg", "a", "\u00fc.peg", "z" * 60]),
            "argv0": rng.choice(["rust-peg", "/usr/bin/rust-peg", "./x", "\u00fc"])}


def judge_c14(case, data, ref, res):
    rc, out, err, rep = res
    if rc == 2000:
        return "hang", "no end within %d ms of processor time" % TIMEOUT_MS
    for what, a, b in (("exit-status", ref["rc"], rc), ("output", ref["out"], out), ("diagnostics", ref["err"], err)):
        if a != b:
            if what == "exit-status":
                return what, "exit status %s instead of %s" % (b, a)
            n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            return what, "differs from the reference run at byte %d: %r instead of %r" % (n, b[max(0, n - 30):n + 40], a[max(0, n - 30):n + 40])
    return None


def incomplete(text, out):
    """What the parser of this text lacks, if anything."""
    if not out.rstrip().endswith(b"}"):
        return "the output ends with %r" % out[-40:]
    code = re.sub(r"//[^\n]*|/\*.*?\*/", "", text, flags=re.S)
    for name in re.findall(r"\bpub\s+rule\s+(\w+)", code):
        if not re.search(rb"\bfn\s+%s\b" % name.encode(), out):
            return "there is no function for rule %s in the %d bytes of output" % (name, len(out))
    return None


def closing(data):
    return data.rstrip().rfind(b"}") if b"//" not in data[data.rfind(b"}"):] else data.rfind(b"}")


def case_c15(rng, g, ref):
    data = g[1].encode()
    last = closing(data)
    plan = {"seed": rng.getrandbits(48), "fixclock": 1000000}
    case = {"plan": plan, "via": rng.choice(["file", "file", "stdin"])}
    if rng.random() < 0.6:
        reads(rng, plan, len(data))
    k = rng.randrange(12)
    point = rng.choice([lambda: rng.randrange(last + 1), lambda: last, lambda: max(0, last - rng.randrange(1, 60)),
                        lambda: min(last, rng.choice([32, 64, 512, 1024, 4096, 8192])), lambda: rng.randrange(min(last, 60) + 1)])
    if k < 3:
        case["damage"] = ["cut", point()]
    elif k == 3:
        plan["reof"] = point()
    elif k == 4:
        case["damage"] = ["zero-tail", point()]
    elif k < 8:
        if rng.random() < 0.2 and case["via"] == "file":
            plan["ofail"] = rng.choice(OPEN_ERRORS)
        else:
            plan["rfail"] = rng.choice([point, point, lambda: len(data)])()
            plan["rerr"] = rng.choice(READ_ERRORS)
            plan["rsticky"] = rng.randrange(2)
    elif k < 10:
        at = rng.choice([point, lambda: rng.randrange(len(data) + 1)])()
        bad = rng.choice([b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\xa6", b"\x80", b"\xed\xa0\x80", b"\xc0\xaf", b"\xf5\x80\x80\x80"])
        if rng.random() < 0.5 and at < len(data):
            case["damage"] = ["replace", at, base64.b64encode(bad).decode()]
        else:
            case["damage"] = ["insert", at, base64.b64encode(bad).decode()]
    if rng.random() < 0.2 and case["via"] == "file":
        plan["ointr"] = rng.randint(1, 3)
    if rng.random() < 0.1:
        plan["efail"] = rng.choice([E.EIO, E.EPIPE, E.ENOSPC])
    return case


def sweep_c15(refs, texts, tier):
    """Cut the smaller grammars after every byte."""
    limit = 4 if tier == "quick" else 60
    small = sorted((len(texts[gi][1]), gi) for gi, r in refs.items() if r["rc"] == 0)
    for size, gi in small[2:2 + limit * 3:3]:
        for at in range(closing(texts[gi][1].encode()) + 1):
            yield gi, {"plan": {"seed": 1}, "via": "file", "damage": ["cut", at]}


def damaged(case, data):
    d = case.get("damage")
    if not d:
        return data
    if d[0] == "cut":
        return data[:d[1]]
    if d[0] == "zero-tail":
        return data[:d[1]] + b"\0" * (len(data) - d[1])
    bad = base64.b64decode(d[2])
    if d[0] == "replace":
        return data[:d[1]] + bad + data[d[1] + len(bad):]
    return data[:d[1]] + bad + data[d[1]:]


def judge_c15(case, data, ref, res):
    rc, out, err, rep = res
    if rc == 2000:
        return "hang", "no end within %d ms of processor time" % TIMEOUT_MS
    sent = damaged(case, data)
    why = None
    d = case.get("damage")
    cut = len(sent)
    if d and d[0] in ("cut", "zero-tail"):
        cut = d[1]
    if rep["read_eof_early"]:
        cut = min(cut, case["plan"]["reof"])
    if cut <= closing(data):
        why = "the text ended after byte %d of %d" % (cut, len(data))
    if rep["read_fail"]:
        why = "reading it failed"
    if rep["open_fail"]:
        why = "opening it failed"
    try:
        sent.decode("utf-8")
    except UnicodeDecodeError:
        why = why or "the text is not valid UTF-8"
    if why:
        if rc == 0:
            return "accepted", "exit status 0 and %d bytes of output although %s" % (len(out), why)
        if out:
            return "output", "%d bytes were written to standard output although %s" % (len(out), why)
        return None
    if sent == data and "reof" not in case["plan"]:
        if rc != 0:
            return "spurious-failure", "exit status %d for complete text; stderr %r" % (rc, err[-200:])
        if out != ref["out"]:
            return "changed-output", "the output differs from that of an undisturbed run"
    return None


MAKE = {"C13": case_c13, "C14": case_c14, "C15": case_c15}
JUDGE = {"C13": judge_c13, "C14": judge_c14, "C15": judge_c15}


def execute(runner, case, data):
    return runner.run(damaged(case, data), case["plan"], case["via"], case.get("name", "g.rustpeg"),
                      case.get("cwd", 0), case.get("env", ()), case.get("rel", False), case.get("argv0", "rust-peg"))


def reference(runner, data):
    rc, out, err, rep = runner.run(data, QUIET)
    return {"rc": rc, "out": out, "err": err, "rep": rep}


# ---------------------------------------------------------------- exploring

def worker(w, prop, tier, exe, texts, root, total, deadline):
    import resource
    runner = Runner(exe, os.path.join(root, "w%d" % w))
    refs = {}
    n = {}
    digests = set()
    samples = []
    found = None

    def add(k, v=1):
        n[k] = n.get(k, 0) + v

    def ref(gi):
        if gi not in refs:
            refs[gi] = reference(runner, texts[gi][1].encode())
        return refs[gi]

    def one(gi, case):
        data = texts[gi][1].encode()
        r = ref(gi)
        res = execute(runner, case, data)
        rc, out, err, rep = res
        add("evaluations")
        for k, v in rep.items():
            if v and k not in ("hash", "events"):
                if k in ("read_short", "read_eintr", "read_fail", "read_eof_early", "write_short", "write_eintr",
                         "write_fail", "write_zero", "killed", "open_fail", "open_eintr", "alloc_fail", "alloc_poison",
                         "stat_lies", "err_fail"):
                    add("fault." + k, v)
                elif k in ("randoms", "clocks", "env_asked", "env_lies"):
                    add("controlled." + k, v)
        if case.get("damage"):
            add("fault.text_" + case["damage"][0])
        add("steps", rep["events"])
        add("outcome.exit_0" if rc == 0 else "outcome.exit_fail" if rc < 1000 else "outcome.signal")
        sig = (gi, rc, len(out), rep["hash"], hashlib.sha1(err).digest(), json.dumps(case.get("damage")),
               case["plan"]["seed"] if prop == "C14" else 0)
        digests.add(hashlib.sha1(repr(sig).encode()).digest()[:8])
        bad = JUDGE[prop](case, data, r, res)
        if bad:
            return bad[0], bad[1], gi, case
        return None

    def whole(gi):
        """Is the undisturbed output there in full?"""
        r = refs[gi]
        if r["rc"] != 0 and texts[gi][0] == "huge":
            halves = [k for k, t in enumerate(texts) if t[0] in ("huge_a", "huge_b")]
            if all(ref(k)["rc"] == 0 for k in halves):
                return ("spurious-failure", "exit status %d for a text of %d bytes, both halves of which are accepted; stderr %r"
                        % (r["rc"], len(texts[gi][1]), r["err"][-200:]), gi, {"plan": dict(QUIET), "via": "stdin", "control": True})
        if prop == "C13" and r["rc"] == 0:
            missing = incomplete(texts[gi][1], r["out"])
            if missing:
                return "lost-output", "exit status 0 and " + missing, gi, {"plan": dict(QUIET), "via": "stdin", "control": True}
        return None

    try:
        sweep = []
        if prop in ("C13", "C15"):
            for gi in range(len(texts)):
                if len(texts[gi][1]) < 20000:
                    ref(gi)
            gen = sweep_c13(refs, tier) if prop == "C13" else sweep_c15(refs, texts, tier)
            sweep = [x for i, x in enumerate(gen) if i % R.WORKERS == w]
        usable = None
        for gi, case in sweep:
            found = one(gi, case)
            add("enumerated_fault_points")
            if found:
                break
        i = w
        while not found and i < total:
            if time.time() > deadline:
                n["truncated"] = 1
                break
            rng = random.Random("%s-%d-%d" % (prop, R.SEED, i))
            gi = rng.randrange(len(texts))
            if len(texts[gi][1]) > 6000 and rng.random() < 0.5:
                gi = rng.randrange(len(texts))
            fresh = gi not in refs
            r = ref(gi)
            if fresh and prop != "C14":
                found = whole(gi)
                if found:
                    break
            if prop != "C14" and r["rc"] != 0:
                add("unusable")
            else:
                case = MAKE[prop](rng, texts[gi], r)
                if len(samples) < 2 and case["plan"]:
                    samples.append({"grammar": texts[gi][0], "case": {k: v for k, v in case.items() if k != "env"}})
                found = one(gi, case)
                if found:
                    break
            i += R.WORKERS
        if prop == "C14" and not found:
            n["grammars"] = len(refs)
    finally:
        runner.close()
    return n, digests, samples, found


def pool_worker(args):
    try:
        return worker(*args)
    except R.HarnessError as e:
        return str(e)


def check(prop, tier, stats):
    t0 = time.time()
    exe = build()
    texts = corpus(prop, tier)
    stats["build_s"] = time.time() - t0
    total, wall = WORK[prop][tier]
    stats["level"] = "exploration"
    stats["unit"] = "intercepted calls"
    stats["rule"] = ("a case is a seeded (grammar, delivery, fault plan) run of the real program; distinct by grammar, exit status, "
                     "bytes accepted, diagnostics and the hash of the sequence of intercepted calls"
                     + (" and hash/heap seed" if prop == "C14" else ""))
    stats["real"] = ["rust-peg program (bin.rs), meta-grammar parser, analysis, translate, peg-runtime, proc-macro2, Rust std"]
    stats["stub"] = ["libc read/write/open/stat/malloc/getrandom/clock seam (interposed; data still passes through scratch files)"]
    stats["corpora"] = [{"grammars": len(texts)}]
    t0 = time.time()
    with tempfile.TemporaryDirectory(prefix="proc-", dir="/tmp") as root:
        found = []
        with mp.get_context("fork").Pool(R.WORKERS) as pool:
            for res in pool.imap_unordered(pool_worker, [(w, prop, tier, exe, texts, root, total, t0 + wall)
                                                         for w in range(R.WORKERS)]):
                if isinstance(res, str):
                    raise R.HarnessError(res)
                n, digests, samples, bad = res
                for k, v in n.items():
                    if k == "truncated":
                        stats["truncated"] = True
                    else:
                        stats["n"][k] = stats["n"].get(k, 0) + v
                stats["digests"] |= digests
                stats["samples"].extend(samples)
                if bad:
                    found.append(bad)
                    break
        stats["explore_s"] = time.time() - t0
        if found:
            cls, det, gi, case = found[0]
            runner = Runner(exe, os.path.join(root, "min"))
            try:
                cls, det, body = minimise(runner, prop, cls, det, texts[gi], case)
            finally:
                runner.close()
            raise R.Found(cls, det, body)


# ---------------------------------------------------------------- replay and minimisation

def body_of(prop, cls, name, text, case):
    return json.dumps({"check": prop, "class": cls, "grammar_name": name, "grammar": text, "case": case}, indent=1) + "\n"


def verdict(runner, prop, text, case):
    data = text.encode()
    r = reference(runner, data)
    if case.get("control"):
        if r["rc"] != 0:
            return "spurious-failure", "exit status %d for a complete text of %d bytes; stderr %r" % (r["rc"], len(data), r["err"][-200:])
        missing = incomplete(text, r["out"])
        return ("lost-output", "exit status 0 and " + missing) if missing else None
    if prop != "C14" and r["rc"] != 0:
        return None
    return JUDGE[prop](case, data, r, execute(runner, case, data))


def minimise(runner, prop, cls, det, named, case):
    name, text = named
    start = time.time()
    first = verdict(runner, prop, text, case)
    if not first:
        return "unrepeatable", cls + ": " + det, body_of(prop, cls, name, text, case)
    cls, det = first

    def ok(t, c):
        nonlocal det
        v = verdict(runner, prop, t, c)
        if v and v[0] == cls:
            det = v[1]
            return True
        return False

    changed = True
    while changed and time.time() - start < 60:
        changed = False
        for k in list(case["plan"]):
            if k in ("seed", "werr", "rerr"):
                continue
            c = json.loads(json.dumps(case))
            del c["plan"][k]
            if ok(text, c):
                case, changed = c, True
        for k, v in (("env", []), ("cwd", 0), ("rel", False), ("name", "g.rustpeg"), ("via", "file")):
            if case.get(k, v) != v:
                c = dict(case)
                c[k] = v
                if ok(text, c):
                    case, changed = c, True
        for i in range(len(case.get("env", ()))):
            c = dict(case)
            c["env"] = case["env"][:i] + case["env"][i + 1:]
            if ok(text, c):
                case, changed = c, True
                break
        if not case.get("damage") and "rfail" not in case["plan"]:
            lines = text.split("\n")
            size = max(1, len(lines) // 2)
            while size and time.time() - start < 60:
                i = 1
                while i < len(lines) - 1 and time.time() - start < 60:
                    t = "\n".join(lines[:i] + lines[i + size:])
                    if t.rstrip().endswith("}") and ok(t, case):
                        lines = lines[:i] + lines[i + size:]
                        text, changed = t, True
                    else:
                        i += size
                size //= 2
    v = verdict(runner, prop, text, case)
    return cls, (v or (cls, det))[1], body_of(prop, cls, name, text, case)


def replay(prop, path):
    d = json.loads(pathlib.Path(path).read_text())
    exe = build()
    with tempfile.TemporaryDirectory(prefix="proc-", dir="/tmp") as root:
        runner = Runner(exe, os.path.join(root, "r"))
        try:
            v = verdict(runner, prop, d["grammar"], d["case"])
        finally:
            runner.close()
    return v or (None, "")
