"""C19: several grammars expanded in one process (sim/macros).

The macro crate's own sources, with its entry point as an ordinary function over
proc-macro2, run on several threads; a seeded scheduler decides at every
allocation which thread goes on.
"""
import json
import pathlib
import re
import shutil
import subprocess
import tempfile
import time

import genproc as G
import run as R

CASES = {"quick": (12000, 60), "thorough": (2000000, 900)}
HEAD = "check C19\nkind macros\n"
ENTRY = """
pub fn parser(input: ::proc_macro2::TokenStream) -> ::proc_macro2::TokenStream {
    let tokens = tokens::FlatTokenStream::new(input);
    let grammar = match grammar::peg::peg_grammar(&tokens) {
        Ok(g) => g,
        Err(err) => {
            let msg = if tokens.is_eof(err.location.1) {
                format!("expected {} at end of input", err.expected)
            } else {
                format!("expected {}", err.expected)
            };
            return quote::quote_spanned!(err.location.0=> compile_error!(#msg););
        }
    };
    translate::compile_grammar(&grammar)
}
"""


def build():
    ws = R.BUILD / "ws-macros"
    shutil.rmtree(ws / "src", ignore_errors=True)
    (ws / "src").mkdir(parents=True)
    root = R.REPO / "peg-macros"
    for f in root.rglob("*.rs"):
        rel = f.relative_to(root)
        if rel.parts[0] != "target":
            (ws / "src" / rel).parent.mkdir(parents=True, exist_ok=True)
            shutil.copy(f, ws / "src" / rel)
    text = (root / "lib.rs").read_text()
    text = re.sub(r"#\[proc_macro\]", "", text)
    text = re.sub(r"(?<![\w])(::)?proc_macro::TokenStream", "::proc_macro2::TokenStream", text)
    (ws / "src" / "lib.rs").unlink()
    (ws / "src" / "main.rs").write_text(text + (R.HERE / "sim" / "macros" / "harness.rs").read_text())
    (ws / "Cargo.toml").write_text(
        '[package]\nname = "macros"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[features]\ntrace = []\n'
        '[[bin]]\nname = "macros"\npath = "src/main.rs"\n'
        '[dependencies]\nquote = "1.0"\nproc-macro2 = "1.0.24"\nsimlib = { path = "%s/sim/simlib" }\n'
        'peg-runtime = { path = "%s/peg-runtime" }\n'
        '[profile.dev]\nopt-level = 1\ndebug = 0\nincremental = false\n' % (R.HERE, R.REPO))
    if not (ws / "Cargo.lock").exists():
        shutil.copy(R.HERE / "sim" / "base.lock", ws / "Cargo.lock")
    build = lambda: R.cargo(["build", "--offline", "--target-dir", str(R.BUILD / "target-macros")], ws, "the macro as a library")
    try:
        build()
    except R.HarnessError:
        # lib.rs uses more of the compiler's interface than its token stream:
        # its modules behind an entry point of ours
        mods = re.findall(r"^(?:#\[[^]]*\]\s*)?(?:pub(?:\([^)]*\))?\s+)?mod\s+\w+;", text, re.M)
        (ws / "src" / "main.rs").write_text(
            "extern crate peg_runtime as peg;\nuse peg::Parse;\n" + "\n".join(mods) + ENTRY +
            (R.HERE / "sim" / "macros" / "harness.rs").read_text())
        build()
    exe = R.BUILD / "macros"
    shutil.copy(R.BUILD / "target-macros" / "debug" / "macros", exe)
    return exe


def texts(tier, to):
    """Grammars in groups of variants: same names, other rules, some rejected."""
    import random
    rng = random.Random("expand-%d" % R.SEED)
    named = [(n, t) for n, t in G.corpus("C13", tier) if len(t) < 4000]
    rng.shuffle(named)
    named = named[:60 if tier == "quick" else 400]
    k = 0
    for name, text in named:
        for v in [text] + [t for _, t in G.wrong([(name, text)], rng, rng.randint(1, 2))] + variants(text, rng):
            (to / ("%05d.peg" % k)).write_text(v)
            k += 1
    return k


def variants(text, rng):
    """The same grammar with rule bodies exchanged or attributes changed."""
    out = []
    lits = re.findall(r'"[a-z]+"', text)
    if lits:
        out.append(text.replace(rng.choice(lits), '"zz"'))
    v = re.sub(r"#\[cache(_left_rec)?\]\s*", "", text)
    if v != text and "cache_left_rec" not in text:
        out.append(v)
    # what analysis concludes about a rule depends on the grammar it is in: the
    # same rules, able to match nothing in one of them, and a loop around one
    names = re.findall(r"\brule\s+(\w+)\s*\(\)", text)
    if names and text.rstrip().endswith("}") and text.count("grammar ") == 1:
        loops = "".join("  rule loop%d() = %s()*\n" % (i, n) for i, n in enumerate(rng.sample(names, min(2, len(names)))))
        base = text.rstrip()[:-1] + loops + "}\n"
        out.append(base)
        loose = re.sub(r'("(?:[^"\\\n]|\\.)*")(?=[ )])', r"\1?", base)
        out.append(re.sub(r"(?<=[\])])\+(?=[ )\n])", "*", loose))
    return out


def once(exe, path, timeout=200):
    try:
        p = subprocess.run([str(exe), "replay", "file=" + str(path)], stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, preexec_fn=R.limit)
    except subprocess.TimeoutExpired:
        return "hang", "no answer within %d s" % timeout
    if p.returncode == 10:
        return (re.search(r"^class (.*)$", p.stderr, re.M).group(1), re.search(r"^detail (.*)$", p.stderr, re.M).group(1))
    if p.returncode == 0:
        return None, ""
    if p.returncode == 13:
        return "hang", "one set of expansions used 60 s of processor time"
    if p.returncode < 0 or p.returncode == 101:
        return "crash", "the process ended with %d" % p.returncode
    raise R.HarnessError("replay ended with %d: %s" % (p.returncode, p.stderr[-1000:]))


def check(prop, tier, stats):
    t0 = time.time()
    G.build()
    exe = build()
    stats["build_s"] = time.time() - t0
    stats["level"] = "exploration"
    stats["unit"] = "allocations (points where the scheduler may switch)"
    stats["rule"] = ("a case is a seeded assignment of grammars (variants of each other, some of them rejected) to one to three threads, with the "
                     "interleaving at allocations; distinct by interleaving and results; all cases with two or more expansions count")
    stats["real"] = ["peg-macros (lib.rs with its entry point as a function, tokens, meta-grammar parser, analysis, translate), peg-runtime, proc-macro2's fallback"]
    stats["stub"] = ["compiler (proc_macro bridge replaced by proc-macro2's fallback)", "thread scheduler (at allocations)", "hash seeds"]
    total, wall = CASES[tier]
    total = max(100, int(total * R.SCALE))
    t0 = time.time()
    with tempfile.TemporaryDirectory(prefix="macros-", dir="/tmp") as td:
        td = pathlib.Path(td)
        (td / "texts").mkdir()
        stats["corpora"] = [{"grammars": texts(tier, td / "texts")}]
        procs = []
        for w in range(R.WORKERS):
            out = td / ("w%d" % w)
            procs.append((w, out, R.spawn([str(exe), "explore", "seed=%d" % R.SEED, "from=%d" % w, "step=%d" % R.WORKERS,
                                           "to=%d" % total, "wall=%d" % wall, "out=%s" % out, "texts=%s" % (td / "texts")],
                                          str(out) + ".err")))
        end = t0 + wall * 2 + 200
        for w, out, p in procs:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        stats["explore_s"] = time.time() - t0
        for w, out, p in procs:
            j = pathlib.Path(str(out) + ".json")
            if j.exists():
                d = json.loads(j.read_text())
                for k, v in d["counters"].items():
                    stats["n"][k] = stats["n"].get(k, 0) + v
                stats["truncated"] |= d["truncated"]
                stats["samples"].extend(d["samples"])
                b = pathlib.Path(str(out) + ".digests").read_bytes()
                stats["digests"].update(b[i:i + 8] for i in range(0, len(b), 8))
        for w, out, p in procs:
            if p.returncode == 10:
                body = HEAD + pathlib.Path(str(out) + ".viol").read_text()
                path = td / "replay.txt"
                path.write_text(body)
                cls, det = once(exe, path)
                if not cls:
                    det = "observed once; the replay does not fail again: " + re.search(r"^detail (.*)$", body, re.M).group(1)
                raise R.Found(cls or "unrepeatable", det, body)
        for w, out, p in procs:
            if p.returncode != 0:
                at = pathlib.Path(str(out) + ".progress").read_text()
                err = pathlib.Path(str(out) + ".err").read_text(errors="replace")[-500:]
                if p.returncode in (13, -6, -11, -4, -7):
                    case = subprocess.run([str(exe), "case", "seed=%d" % R.SEED, "index=%s" % at, "texts=%s" % (td / "texts")],
                                          stdout=subprocess.PIPE, text=True).stdout
                    path = td / "replay.txt"
                    path.write_text(HEAD + case)
                    cls, det = once(exe, path)
                    raise R.Found(cls or "unrepeatable", det or "a worker ended with %d at case %s: %s" % (p.returncode, at, err), HEAD + case)
                raise R.HarnessError("a worker ended with %s at case %s: %s" % (p.returncode, at, err))


def replay(prop, path):
    return once(build(), path)
