//! The simulator's driver: makes cases from seeds, runs them against the real
//! parser and the model, judges, minimises and replays.
use simlib::ast::Grammar;
use simlib::env::{Env, Plan, KINDS};
use simlib::gen;
use simlib::model::{self, ModelRun, Outcome, PROBES};
use simlib::rng::mix;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};

mod alloc;
pub mod checks;
pub mod sched;
pub mod trace;

pub type RunFn = fn(usize, u32, &Rc<Env>) -> Outcome;

pub struct Target {
    pub profile: String,
    pub cseed: u64,
    pub corpus: Vec<Grammar>,
    pub run: RunFn,
    pub traced: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Parse {
    pub g: usize,
    pub entry: u32,
    pub plan: Plan,
}

/// Everything that decides one simulated run.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Case {
    pub parses: Vec<Parse>,
    pub opts: BTreeMap<String, u64>,
}

impl Case {
    pub fn one(g: usize, entry: u32, plan: Plan) -> Case {
        Case {
            parses: vec![Parse { g, entry, plan }],
            opts: BTreeMap::new(),
        }
    }
    pub fn opt(&self, k: &str) -> u64 {
        *self.opts.get(k).unwrap_or(&0)
    }
    pub fn with(mut self, k: &str, v: u64) -> Case {
        self.opts.insert(k.to_string(), v);
        self
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        for (k, v) in &self.opts {
            writeln!(s, "opt {} {}", k, v).unwrap();
        }
        for p in &self.parses {
            writeln!(s, "parse {} {} {}", p.g, p.entry, p.plan.to_text()).unwrap();
        }
        s
    }
    /// Parses the lines of one case; other lines are ignored.
    pub fn from_text(text: &str) -> Option<Case> {
        let mut c = Case::default();
        for l in text.lines() {
            if let Some(r) = l.strip_prefix("opt ") {
                let (k, v) = r.split_once(' ')?;
                c.opts.insert(k.to_string(), v.trim().parse().ok()?);
            } else if let Some(r) = l.strip_prefix("parse ") {
                let mut it = r.splitn(3, ' ');
                c.parses.push(Parse {
                    g: it.next()?.parse().ok()?,
                    entry: it.next()?.parse().ok()?,
                    plan: Plan::parse(it.next()?)?,
                });
            }
        }
        Some(c)
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

pub fn bad(class: &str, detail: String) -> Option<Violation> {
    Some(Violation {
        class: class.to_string(),
        detail,
    })
}

#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
    pub digests: HashSet<u64>,
    pub samples: Vec<String>,
    /// measurements are off while minimising
    pub off: bool,
}

impl Stats {
    pub fn add(&mut self, k: &str, v: u64) {
        if self.off || v == 0 {
            return;
        }
        if let Some(x) = self.n.get_mut(k) {
            *x += v;
        } else {
            self.n.insert(k.to_string(), v);
        }
    }
    pub fn max(&mut self, k: &str, v: u64) {
        if self.off {
            return;
        }
        let x = self.n.entry(k.to_string()).or_insert(0);
        *x = (*x).max(v);
    }
    pub fn env(&mut self, env: &Env) {
        if self.off {
            return;
        }
        for (i, c) in env.fired.borrow().iter().enumerate() {
            if *c > 0 {
                self.add(&format!("fault.{}", KINDS[i]), *c as u64);
            }
        }
        self.add("steps", env.steps.get());
        self.add("input_accesses", env.reads.get());
        self.add("user_calls", env.history.borrow().len() as u64);
    }
    pub fn model(&mut self, m: &ModelRun) {
        if self.off {
            return;
        }
        for (i, c) in m.probes.iter().enumerate() {
            if *c > 0 {
                self.add(&format!("probe.{}", PROBES[i]), *c as u64);
            }
        }
    }
    /// One finished evaluation.
    pub fn done(&mut self, kind: &str, digest: u64, nontrivial: bool) {
        if self.off {
            return;
        }
        self.add("evaluations", 1);
        self.add(&format!("outcome.{}", kind), 1);
        if nontrivial {
            self.add("nontrivial", 1);
            self.digests.insert(digest);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if !self.off && self.samples.len() < 3 {
            self.samples.push(f());
        }
    }
}

pub struct Real {
    pub outcome: Outcome,
    pub env: Rc<Env>,
}

pub const MODEL_LIMIT: u64 = 15000;

pub fn real_run(t: &Target, p: &Parse, limit: u64, count: bool) -> Real {
    real_run_marked(t, p, limit, count, false)
}

pub fn real_run_marked(t: &Target, p: &Parse, limit: u64, count: bool, marking: bool) -> Real {
    let env = Env::new(&p.plan, count);
    env.limit.set(limit);
    env.marking.set(marking);
    let outcome = (t.run)(p.g, p.entry, &env);
    env.registry.disarm();
    Real { outcome, env }
}

pub fn model_run(t: &Target, p: &Parse, trace: bool) -> (ModelRun, Rc<Env>) {
    model_run_g(&t.corpus[p.g], p, trace)
}

/// The model, noting through which expressions each call of user code is reached.
pub fn model_run_marked(t: &Target, p: &Parse) -> (ModelRun, Rc<Env>) {
    let env = Env::new(&p.plan, false);
    env.limit.set(MODEL_LIMIT);
    env.marking.set(true);
    env.chain.set(1);
    let m = model::run(&t.corpus[p.g], &env, p.entry, false);
    (m, env)
}

pub fn model_run_g(g: &Grammar, p: &Parse, trace: bool) -> (ModelRun, Rc<Env>) {
    let env = Env::new(&p.plan, false);
    env.limit.set(MODEL_LIMIT);
    let m = model::run(g, &env, p.entry, trace);
    (m, env)
}

/// Steps the real parser may take when the model took this many.
pub fn allowance(model_steps: u64) -> u64 {
    model_steps * 8 + 2000
}

// ---------------------------------------------------------------- command line

static PROGRESS: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn clock() -> i64;
}

pub fn main(profile: &str, cseed: u64, run: RunFn, traced: bool) {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map_or(false, |a| a == "identity") {
        println!("{}/{} traced={}", profile, cseed, traced);
        return;
    }
    let t = Target {
        profile: profile.to_string(),
        cseed,
        corpus: gen::corpus(cseed, &gen::profile(profile)),
        run,
        traced,
    };
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        let quiet = p.downcast_ref::<simlib::env::SimPanic>().is_some()
            || p.downcast_ref::<String>().map_or(false, |s| s.starts_with("sim text "))
            || p.downcast_ref::<simlib::env::Budget>().is_some()
            || p.downcast_ref::<&str>()
                .map_or(false, |s| s.starts_with("Parser is nondeterministic") || s.starts_with("sim panic "));
        if !quiet && std::env::var("SIM_VERBOSE").is_ok() {
            eprintln!("{}", info);
        }
    }));
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || real_main(&args, &t))
        .unwrap();
    let code = h.join().unwrap_or(4);
    std::process::exit(code);
}

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (u64::MAX, 0i64);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let p = PROGRESS.load(Ordering::Relaxed);
            let cpu = unsafe { clock() } / 1_000_000;
            if p != last.0 {
                last = (p, cpu);
            } else if cpu - last.1 >= 25 {
                eprintln!("simcheck: one run used 25 s of processor time");
                std::process::exit(13);
            }
        }
    });
}

pub fn tick_progress() {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
}

fn real_main(args: &[String], t: &Target) -> i32 {
    let mut o: BTreeMap<String, String> = BTreeMap::new();
    for a in &args[2..] {
        if let Some((k, v)) = a.split_once('=') {
            o.insert(k.to_string(), v.to_string());
        }
    }
    let get = |k: &str, d: u64| o.get(k).map_or(d, |v| v.parse().unwrap());
    match args[1].as_str() {
        "explore" => {
            watchdog();
            explore(
                t,
                &o["check"],
                get("seed", 1),
                get("from", 0),
                get("step", 1),
                get("to", 1000),
                get("wall", 600),
                &o["out"],
            )
        }
        "replay" => {
            watchdog();
            replay(t, &o["check"], &o["file"], o.contains_key("log"))
        }
        "shrink" => {
            watchdog();
            shrink_file(t, &o["check"], &o["file"])
        }
        "case" => {
            // print the case(s) an index stands for
            for c in checks::make(t, &o["check"], get("seed", 1), get("index", 0)) {
                println!("case\n{}", c.to_text());
            }
            0
        }
        "solo" => {
            let text = std::fs::read_to_string(&o["file"]).unwrap();
            let c = Case::from_text(&text).unwrap();
            println!("{}", solo_digest(t, &c.parses[0]));
            0
        }
        _ => 2,
    }
}

/// What a parse does when nothing else happened before it in the process.
pub fn solo_digest(t: &Target, p: &Parse) -> String {
    let r = real_run(t, p, 200_000, false);
    format!("{:x} {:x}", r.outcome.digest(), r.env.history_digest())
}

/// The same, in a fresh process.
pub fn fresh_solo(p: &Parse) -> String {
    let path = std::env::temp_dir().join(format!("sim-solo-{}", std::process::id()));
    let mut p = p.clone();
    p.plan
        .faults
        .retain(|f| !matches!(f.fault, simlib::env::Fault::Nested(_)));
    let c = Case {
        parses: vec![p],
        opts: BTreeMap::new(),
    };
    std::fs::write(&path, c.to_text()).unwrap();
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("solo")
        .arg(format!("file={}", path.display()))
        .output()
        .unwrap();
    let _ = std::fs::remove_file(&path);
    String::from_utf8_lossy(&out.stdout).trim().to_string()
}

fn explore(
    t: &Target,
    check: &str,
    seed: u64,
    from: u64,
    step: u64,
    to: u64,
    wall: u64,
    out: &str,
) -> i32 {
    let start = std::time::Instant::now();
    let mut stats = Stats::default();
    let progress = std::fs::File::create(format!("{}.progress", out)).unwrap();
    let mut i = from;
    let mut code = 0;
    let mut runs = 0u64;
    let mut truncated = false;
    while i < to {
        if start.elapsed().as_secs() >= wall {
            truncated = true;
            break;
        }
        progress.write_at(&i.to_le_bytes(), 0).unwrap();
        runs += 1;
        for (k, case) in checks::make(t, check, seed, i).into_iter().enumerate() {
            tick_progress();
            if let Some(v) = checks::judge(t, check, &case, &mut stats) {
                let mut f = std::fs::File::create(format!("{}.viol", out)).unwrap();
                writeln!(f, "index {} from {} step {} case {}", i, from, step, k).unwrap();
                writeln!(f, "class {}", v.class).unwrap();
                writeln!(f, "detail {}", v.detail.replace('\n', "\\n")).unwrap();
                write!(f, "{}", case.to_text()).unwrap();
                code = 10;
                break;
            }
        }
        if code != 0 {
            break;
        }
        i += step;
    }
    stats.add("scenarios", runs);
    let mut j = String::from("{\"counters\": {");
    for (k, (n, v)) in stats.n.iter().enumerate() {
        write!(j, "{}\"{}\": {}", if k > 0 { ", " } else { "" }, n, v).unwrap();
    }
    write!(
        j,
        "}}, \"truncated\": {}, \"samples\": [{}]}}",
        truncated,
        stats
            .samples
            .iter()
            .map(|s| json_str(s))
            .collect::<Vec<_>>()
            .join(", ")
    )
    .unwrap();
    std::fs::write(format!("{}.json", out), j).unwrap();
    let mut bytes = vec![];
    let mut ds: Vec<u64> = stats.digests.into_iter().collect();
    ds.sort();
    for d in ds {
        bytes.extend(d.to_le_bytes());
    }
    std::fs::write(format!("{}.digests", out), bytes).unwrap();
    code
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Exit code 10 and the violation on stdout if the file's case(s) still fail.
/// A file may start with the indexes of a worker's earlier scenarios
/// (`prelude SEED FROM STEP TO CASES`), which are run first.
fn replay(t: &Target, check: &str, file: &str, log: bool) -> i32 {
    let text = std::fs::read_to_string(file).unwrap();
    let mut stats = Stats::default();
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("prelude ") {
            let n: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect();
            let mut i = n[1];
            while i < n[3] {
                for case in checks::make(t, check, n[0], i) {
                    tick_progress();
                    let _ = checks::judge(t, check, &case, &mut stats);
                }
                i += n[2];
            }
            // the cases of the last scenario that came before the one replayed
            let k = n.get(4).copied().unwrap_or(0) as usize;
            for case in checks::make(t, check, n[0], n[3]).into_iter().take(k) {
                tick_progress();
                let _ = checks::judge(t, check, &case, &mut stats);
            }
        }
    }
    let case = Case::from_text(&text).unwrap();
    let v = checks::judge(t, check, &case, &mut stats);
    if log {
        for p in &case.parses {
            let (m, me) = model_run(t, p, false);
            let r = real_run(t, p, allowance(me.steps.get()), false);
            eprintln!("grammar {} entry {}", p.g, p.entry);
            eprintln!(
                "{}",
                simlib::ast::Printer {
                    g: &t.corpus[p.g]
                }
                .grammar(&format!("g{}", p.g))
            );
            eprintln!("tape: {:?}", p.plan.tape);
            eprintln!("real : {}", r.outcome.to_text());
            eprintln!("model: {}", m.outcome.to_text());
            for e in r.env.history.borrow().iter() {
                eprintln!("  real  {:?}", e);
            }
            for e in me.history.borrow().iter() {
                eprintln!("  model {:?}", e);
            }
        }
    }
    match v {
        Some(v) => {
            eprintln!("class {}\ndetail {}", v.class, v.detail.replace('\n', "\\n"));
            10
        }
        None => 0,
    }
}

fn shrink_file(t: &Target, check: &str, file: &str) -> i32 {
    let text = std::fs::read_to_string(file).unwrap();
    let case = Case::from_text(&text).unwrap();
    let mut stats = Stats::default();
    stats.off = true;
    let v = match checks::judge(t, check, &case, &mut stats) {
        Some(v) => v,
        None => return 0,
    };
    let (case, v) = shrink(t, check, case, v, &mut stats);
    let mut s = format!("class {}\ndetail {}\n", v.class, v.detail.replace('\n', "\\n"));
    s.push_str(&case.to_text());
    std::fs::write(file, s).unwrap();
    10
}

/// Greedy minimisation: keep any simplification after which the same class of
/// violation is still found.
fn shrink(
    t: &Target,
    check: &str,
    mut case: Case,
    mut v: Violation,
    stats: &mut Stats,
) -> (Case, Violation) {
    let start = std::time::Instant::now();
    let mut tries = 0;
    loop {
        let mut better = false;
        for cand in simpler(&case) {
            if tries > 6000 || start.elapsed().as_secs() > 60 {
                return (case, v);
            }
            tries += 1;
            tick_progress();
            if let Some(w) = checks::judge(t, check, &cand, stats) {
                if w.class == v.class {
                    case = cand;
                    v = w;
                    better = true;
                    break;
                }
            }
        }
        if !better {
            return (case, v);
        }
    }
}

fn simpler(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    let keep = c.opt("keep").max(1) as usize;
    for i in (keep..c.parses.len()).rev() {
        let mut d = c.clone();
        d.parses.remove(i);
        out.push(d);
    }
    for i in 0..c.parses.len() {
        let p = &c.parses[i];
        let mut edit = |f: &mut dyn FnMut(&mut Plan)| {
            let mut d = c.clone();
            f(&mut d.parses[i].plan);
            if d != *c {
                out.push(d);
            }
        };
        for k in 0..p.plan.faults.len() {
            edit(&mut |p| {
                p.faults.remove(k);
            });
        }
        let n = p.plan.tape.len();
        if n > 3 {
            edit(&mut |p| p.tape.truncate(n / 2));
        }
        for k in (0..n).rev() {
            edit(&mut |p| {
                p.tape.remove(k);
            });
        }
        edit(&mut |p| p.refuse_pct = 0);
        edit(&mut |p| {
            for f in &mut p.faults {
                if f.tick > 0 {
                    f.tick -= 1;
                }
            }
        });
        for k in 0..n {
            if p.plan.tape[k] != 'a' {
                edit(&mut |p| p.tape[k] = 'a');
            }
        }
    }
    for k in ["switch", "threads", "depth", "refuse"] {
        if c.opt(k) > 1 {
            let mut d = c.clone();
            let v = d.opt(k);
            d.opts.insert(k.to_string(), v / 2);
            out.push(d);
        }
    }
    out
}

pub fn case_seed(seed: u64, check: &str, index: u64) -> u64 {
    mix(&[seed, simlib::rng::hash_bytes(check.as_bytes()), index])
}
