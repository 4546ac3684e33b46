//! One generator and one judge per property.
use crate::*;
use std::collections::BTreeSet;
use simlib::ast::{Cache, Ex, Input};
use simlib::env::{Fault, Planned, What};
use simlib::gen::{add_faults, base_plan, FaultMix};
use simlib::rng::Rng;

const ENV: FaultMix = FaultMix {
    env: true,
    between: false,
    panics: false,
    read_panics: false,
    max: 3,
};

/// User-code calls per pass of a run.
fn calls(env: &Env) -> Vec<u32> {
    let mut v = vec![0; env.passes().max(1) as usize];
    for e in env.history.borrow().iter() {
        if e.what != What::Pass {
            v[e.pass as usize - 1] += 1;
        }
    }
    v
}

/// The most eventful of a few plans.
fn eventful(t: &Target, gi: usize, entry: u32, seed: u64, tries: usize) -> (Plan, Vec<u32>) {
    let g = &t.corpus[gi];
    let mut best: Option<(u64, Plan, Vec<u32>)> = None;
    for k in 0..tries {
        let plan = base_plan(g, mix(&[seed, 1000, k as u64]));
        let p = Parse {
            g: gi,
            entry,
            plan,
        };
        let (m, env) = model_run(t, &p, false);
        if matches!(m.outcome, Outcome::Budget) {
            continue;
        }
        let n = env.history.borrow().len();
        // successful runs are rarer and shorter than failing ones
        let bonus = if matches!(m.outcome, Outcome::Ok(_)) { 2 } else { 1 };
        let score = bonus * n.min(60) as u64 + p.plan.tape.len() as u64;
        if best.as_ref().map_or(true, |b| score > b.0) {
            best = Some((score, p.plan, calls(&env)));
        }
    }
    match best {
        Some((_, p, c)) => (p, c),
        None => {
            let mut p = base_plan(g, seed);
            p.tape.truncate(2);
            (p, vec![1, 1])
        }
    }
}

fn pick_grammar(t: &Target, idx: u64, r: &mut Rng, ok: impl Fn(&Grammar) -> bool) -> usize {
    let n = t.corpus.len();
    let mut g = idx as usize % n;
    for _ in 0..50 {
        if ok(&t.corpus[g]) {
            break;
        }
        g = r.below(n);
    }
    g
}

/// An exported rule: mostly the plain ones.
fn pick_entry(r: &mut Rng) -> u32 {
    match r.below(20) {
        0..=8 => 0,
        9..=13 => 1,
        14 | 15 => 2,
        16 => 3 + r.below(3) as u32,
        _ => 6,
    }
}

fn general(t: &Target, seed: u64, idx: u64, fault_pct: usize, mixk: FaultMix) -> Case {
    let mut r = Rng::new(seed);
    let gi = pick_grammar(t, idx, &mut r, |_| true);
    let entry = pick_entry(&mut r);
    let tries = if r.chance(75) { 4 } else { 1 };
    let (mut plan, calls) = eventful(t, gi, entry, seed, tries);
    if r.chance(6) {
        // the work of growing a long match is quadratic
        let lr = t.corpus[gi].has_left_rec();
        let max = match r.below(60) {
            0 => 2000,
            1 | 2 => 400,
            3..=8 if !lr => 400,
            _ => 64,
        };
        lengthen(&mut plan, &mut r, max);
    }
    if r.chance(fault_pct) {
        add_faults(&t.corpus[gi], &mut plan, &calls, mixk, &mut r);
    }
    Case::one(gi, entry, plan)
}

/// Repeat part of the input, so that loops and recursions go on for longer;
/// sometimes a later part as often, so that nesting is closed again.
fn lengthen(plan: &mut Plan, r: &mut Rng, max: usize) {
    let n = plan.tape.len();
    if n == 0 {
        return;
    }
    let close = n > 1 && r.chance(45);
    let short = r.chance(60);
    let mut pick = |from: usize, to: usize| {
        let a = from + r.below(to - from);
        let b = if short { (a + 1 + r.below(2)).min(to) } else { r.range(a + 1, to) };
        (a, b)
    };
    let (a, b) = if close { pick(0, n - 1) } else { pick(0, n) };
    let (c, d) = if close { pick(b, n) } else { (n, n) };
    let t = &plan.tape;
    let per = (b - a) + (d - c);
    let times = 1 + r.below(max / per + 1);
    let mut out = t[..a].to_vec();
    (0..times).for_each(|_| out.extend(&t[a..b]));
    out.extend(&t[b..c]);
    if close {
        (0..times).for_each(|_| out.extend(&t[c..d]));
    }
    out.extend(&t[d..]);
    out.truncate(max.max(n));
    plan.tape = out;
}

pub fn make(t: &Target, check: &str, seed: u64, idx: u64) -> Vec<Case> {
    let cs = case_seed(seed, check, idx);
    match check {
        "C01" => vec![make_c01(t, cs, idx)],
        "C02" => make_c02(t, cs, idx),
        "C03" => {
            let mut mixk = ENV;
            mixk.panics = true;
            mixk.read_panics = true;
            let mut c = general(t, cs, idx, 70, mixk);
            let mut r = Rng::new(mix(&[cs, 9]));
            let p = &mut c.parses[0];
            if r.chance(25) && (t.corpus[p.g].has_cache() || p.entry == 2) {
                p.plan.faults.push(Planned {
                    pass: 1,
                    tick: 0,
                    fault: Fault::PanicClone(r.below(12) as u32),
                });
            }
            vec![c]
        }
        "C04" => {
            let mut r = Rng::new(mix(&[cs, 9]));
            let mut mixk = ENV;
            mixk.between = r.chance(65);
            vec![general(t, cs, idx, 75, mixk)]
        }
        "C07" => {
            let mut r = Rng::new(mix(&[cs, 9]));
            let mut c = general(t, cs, idx, 60, ENV);
            if c.parses[0].plan.faults.is_empty() && r.chance(70) {
                c.parses[0].plan.pure_nonce = true;
                c.parses[0].g &= !1;
            }
            vec![c]
        }
        "C16" => {
            let mut r = Rng::new(mix(&[cs, 9]));
            let mut c = general(t, cs, idx, 60, ENV);
            if r.chance(15) {
                lengthen(&mut c.parses[0].plan, &mut r, 160);
            }
            vec![c]
        }
        "C10" => {
            let mut r = Rng::new(mix(&[cs, 9]));
            let mut mixk = ENV;
            mixk.panics = r.chance(10);
            mixk.max = 4;
            let mut c = general(t, cs, idx, 80, mixk);
            let mut k = 0;
            while t.corpus[c.parses[0].g].input.built_in() && k < 20 {
                k += 1;
                c = general(t, mix(&[cs, k]), r.next() >> 8, 80, mixk);
            }
            vec![c]
        }
        "C12" => {
            let mut r = Rng::new(mix(&[cs, 9]));
            let mut mixk = ENV;
            mixk.panics = true;
            let c = general(t, cs, idx, 50, mixk);
            let (s, e) = *r.pick(&[(0, 0), (20, 0), (60, 10), (90, 30), (0, 30)]);
            let mut c = c
                .with("short", s)
                .with("eintr", e)
                .with("sseed", r.next() >> 16);
            if r.chance(20) {
                let most = *r.pick(&[2, 8, 30, 200]);
                c = c
                    .with("refuse", r.range(1, most) as u64)
                    .with("sticky", r.below(2) as u64)
                    .with("errno", *r.pick(&[28, 32, 5, 11, 0]));
            }
            vec![c]
        }
        "C18" => {
            let mut r = Rng::new(mix(&[cs, 9]));
            let mut c = general(t, cs, idx, 60, ENV);
            let other = general(t, mix(&[cs, 10]), r.next() >> 8, 0, ENV);
            c.parses.extend(other.parses);
            vec![c.with("sseed", (r.next() >> 16) | 1)]
        }
        _ => vec![general(t, cs, idx, 60, ENV)],
    }
}

/// Errors rendered into failing sinks.
fn judge_c18(t: &Target, case: &Case, stats: &mut Stats) -> Option<Violation> {
    let p = &case.parses[0];
    let env = Env::new(&p.plan, false);
    env.limit.set(100_000);
    env.renders.borrow_mut().seed = case.opt("sseed");
    if let Some(q) = case.parses.get(1).cloned() {
        let run = t.run;
        *env.nested.borrow_mut() = Some(Rc::new(move |_: &Env, _| {
            let inner = Env::new(&q.plan, false);
            inner.limit.set(100_000);
            let _ = run(q.g, q.entry, &inner);
        }));
    }
    let outcome = (t.run)(p.g, p.entry, &env);
    *env.nested.borrow_mut() = None;
    let real = Real { outcome, env };
    stats.env(&real.env);
    let r = real.env.renders.borrow();
    stats.add("renderings", r.runs);
    stats.add("pieces", r.pieces);
    stats.add("fault.sink_refuses", r.refused);
    stats.add("fault.sink_panics", r.panics);
    stats.add("fault.rendered_inside", r.nested);
    stats.add("fault.parse_inside", r.parses);
    let n = match &real.outcome {
        Outcome::Err { expected, .. } => expected.len() as u64,
        _ => 0,
    };
    stats.max("max_expected", n);
    stats.done(
        real.outcome.kind(),
        mix(&[digest_of(p, &real), r.digest]),
        r.runs > 0,
    );
    stats.sample(|| format!("{} -> {} ({} renderings)", describe(t, p), real.outcome.to_text(), r.runs));
    r.bad
        .as_ref()
        .and_then(|(class, text)| bad(class, format!("{}: {}", describe(t, p), text)))
}

pub fn judge(t: &Target, check: &str, case: &Case, stats: &mut Stats) -> Option<Violation> {
    if case.parses.is_empty() || case.parses.iter().any(|p| p.g >= t.corpus.len()) {
        return None;
    }
    match check {
        "C01" => sched::judge(t, case, stats),
        "C02" => judge_c02(t, case, stats),
        "C03" => judge_c03(t, case, stats),
        "C10" => judge_c10(t, case, stats),
        "C18" => judge_c18(t, case, stats),
        "C12" => judge_c12(t, case, stats),
        "C16" => judge_c16(t, case, stats),
        _ => {
            let v = judge_model(t, check, case, stats);
            if v.is_none() && check == "C07" {
                return judge_twin(t, case, stats);
            }
            v
        }
    }
}

fn describe(t: &Target, p: &Parse) -> String {
    format!(
        "grammar {} of corpus {}/{} ({}), input {:?}",
        p.g,
        t.profile,
        t.cseed,
        simlib::ast::ENTRIES[p.entry as usize],
        p.plan.tape.iter().collect::<String>()
    )
}

fn digest_of(p: &Parse, real: &Real) -> u64 {
    mix(&[
        p.g as u64,
        p.entry as u64,
        real.outcome.digest(),
        real.env.history_digest(),
    ])
}

fn nontrivial(real: &Real) -> bool {
    real.env.fired.borrow().iter().any(|c| *c > 0)
        || real.env.passes() > 1
        || real.env.history.borrow().len() >= 6
}

/// Compare the real parser with the model.
fn judge_model(t: &Target, check: &str, case: &Case, stats: &mut Stats) -> Option<Violation> {
    let p = &case.parses[0];
    let (m, me) = model_run(t, p, false);
    if matches!(m.outcome, Outcome::Budget) {
        stats.add("model_gave_up", 1);
        return None;
    }
    if m.sep_at_max_calls {
        stats.add("skipped_separator_at_maximum", 1);
        return None;
    }
    let real = real_run(t, p, allowance(me.steps.get()), false);
    stats.env(&real.env);
    stats.model(&m);
    stats.done(real.outcome.kind(), digest_of(p, &real), nontrivial(&real));
    stats.sample(|| {
        format!(
            "{} {} -> {}",
            describe(t, p),
            p.plan.to_text(),
            real.outcome.to_text()
        )
    });
    let detail_errors = check != "C05" && !m.sep_at_max;
    compare(t, p, &m, &me, &real, detail_errors).or_else(|| match check {
        "C04" => passes_c04(t, p, &real),
        "C09" => real.env.bad_text.borrow().as_ref().and_then(|text| {
            bad("error-text", format!("{}: the error reads {}", describe(t, p), text))
        }),
        "C07" => at_most_once(t, p, &real),
        _ => None,
    })
}

fn compare(
    t: &Target,
    p: &Parse,
    m: &ModelRun,
    me: &Env,
    real: &Real,
    detail_errors: bool,
) -> Option<Violation> {
    let where_ = describe(t, p);
    match (&real.outcome, &m.outcome) {
        (Outcome::Ok(a), Outcome::Ok(b)) => {
            if a.digest(true) != b.digest(true) {
                return bad(
                    "value",
                    format!("{}: returned {} instead of {}", where_, a.to_text(), b.to_text()),
                );
            }
        }
        (
            Outcome::Err {
                pos: a,
                expected: e,
            },
            Outcome::Err {
                pos: b,
                expected: f,
            },
        ) => {
            if detail_errors && a != b {
                return bad(
                    "error-position",
                    format!(
                        "{}: error reported at {} but the furthest failure is at {}",
                        where_, a, b
                    ),
                );
            }
            if detail_errors && e != f {
                return bad(
                    "expected-set",
                    format!("{}: error expects {:?} instead of {:?}", where_, e, f),
                );
            }
        }
        (Outcome::Panic(a), _) => {
            return bad("panic", format!("{}: panicked: {}", where_, a));
        }
        (Outcome::Budget, _) => {
            return bad(
                "unbounded",
                format!(
                    "{}: not finished after {} steps; PEG semantics need {}",
                    where_,
                    real.env.steps.get(),
                    me.steps.get()
                ),
            );
        }
        (a, b) => {
            if !a.same(b) {
                return bad(
                    "outcome",
                    format!("{}: {} instead of {}", where_, a.to_text(), b.to_text()),
                );
            }
        }
    }
    let a = real.env.history.borrow();
    let b = me.history.borrow();
    if *a != *b {
        let k = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
        return bad(
            "user-code",
            format!(
                "{}: user-code call {} is {:?} instead of {:?}",
                where_,
                k,
                a.get(k),
                b.get(k)
            ),
        );
    }
    None
}

/// The retry protocol, from the history alone.
fn passes_c04(t: &Target, p: &Parse, real: &Real) -> Option<Violation> {
    let passes = real.env.passes();
    let want = match real.outcome {
        Outcome::Ok(_) => 1,
        Outcome::Err { .. } | Outcome::Nondet => 2,
        _ => return None,
    };
    if passes != want {
        return bad(
            "passes",
            format!(
                "{}: {} after {} passes",
                describe(t, p),
                real.outcome.to_text(),
                passes
            ),
        );
    }
    if p.plan.faults.is_empty() && matches!(real.outcome, Outcome::Nondet) {
        return bad(
            "blamed",
            format!("{}: blames nondeterminism although nothing changed", describe(t, p)),
        );
    }
    if p.plan.faults.is_empty() && passes == 2 {
        let h = real.env.history.borrow();
        let one: Vec<_> = h.iter().filter(|e| e.pass == 1).map(|e| (e.what, e.id, e.arg, e.ans)).collect();
        let two: Vec<_> = h.iter().filter(|e| e.pass == 2).map(|e| (e.what, e.id, e.arg, e.ans)).collect();
        // argument digests contain value identities, which differ between passes
        let strip = |v: &Vec<(What, u32, u64, u64)>| -> Vec<(What, u32, u64)> {
            v.iter()
                .map(|e| match e.0 {
                    What::Cond | What::Action => (e.0, e.1, e.3),
                    _ => (e.0, e.1, e.2),
                })
                .collect()
        };
        if strip(&one) != strip(&two) {
            return bad(
                "retry-differs",
                format!("{}: the second run makes other user-code calls", describe(t, p)),
            );
        }
    }
    None
}

/// No memoised body runs twice at one position in one pass.
fn at_most_once(t: &Target, p: &Parse, real: &Real) -> Option<Violation> {
    let g = &t.corpus[p.g];
    let mut seen = HashSet::new();
    for e in real.env.history.borrow().iter() {
        if e.what == What::Enter
            && g.rules[e.id as usize].cache == Cache::Simple
            && !seen.insert((e.pass, e.id, e.arg))
        {
            return bad(
                "evaluated-twice",
                format!(
                    "{}: rule {} ran its body twice at position {} in pass {}",
                    describe(t, p),
                    g.rules[e.id as usize].name,
                    e.arg,
                    e.pass
                ),
            );
        }
    }
    None
}

/// The same grammar with and without #[cache] in a consistent environment.
fn judge_twin(t: &Target, case: &Case, stats: &mut Stats) -> Option<Violation> {
    let p = &case.parses[0];
    if !p.plan.pure_nonce || !p.plan.faults.is_empty() || p.g % 2 != 0 || t.profile != "memo" {
        return None;
    }
    let mut q = p.clone();
    q.g = p.g + 1;
    let (m, me) = model_run(t, &q, false);
    if matches!(m.outcome, Outcome::Budget) {
        return None;
    }
    let a = real_run(t, p, allowance(me.steps.get()), false);
    let b = real_run(t, &q, allowance(me.steps.get()), false);
    stats.add("twin_comparisons", 1);
    let same = match (&a.outcome, &b.outcome) {
        (Outcome::Ok(x), Outcome::Ok(y)) => x.digest(true) == y.digest(true),
        (x, y) => x.kind() == y.kind(),
    };
    if !same {
        return bad(
            "memo-visible",
            format!(
                "{}: with #[cache] {} but without {}",
                describe(t, p),
                a.outcome.to_text(),
                b.outcome.to_text()
            ),
        );
    }
    None
}

// ------------------------------------------------------------------ C01

fn make_c01(t: &Target, cs: u64, idx: u64) -> Case {
    let mut r = Rng::new(cs);
    let threads = if r.chance(6) { r.range(5, 12) } else { r.range(1, 4) };
    let n = threads.max(2) + r.below(3);
    // a tower of parses, each started inside another
    let tower = r.chance(8);
    let mut parses: Vec<Parse> = vec![];
    let hot = pick_grammar(t, idx, &mut r, |_| true);
    for i in 0..n {
        let (gi, entry, mut plan, calls);
        if i > 0 && r.chance(25) {
            // the same grammar on the same input
            let p = parses[r.below(parses.len())].clone();
            gi = p.g;
            entry = p.entry;
            plan = p.plan;
            plan.faults.clear();
            let (_, me) = model_run(
                t,
                &Parse {
                    g: gi,
                    entry,
                    plan: plan.clone(),
                },
                false,
            );
            calls = self::calls(&me);
            if r.chance(50) {
                plan.seed = r.next() >> 16;
            }
        } else {
            gi = if r.chance(60) {
                hot
            } else {
                r.below(t.corpus.len())
            };
            entry = pick_entry(&mut r);
            let x = eventful(t, gi, entry, r.next(), 3);
            plan = x.0;
            calls = x.1;
        }
        if r.chance(50) {
            let mixk = FaultMix {
                env: r.chance(50),
                between: false,
                panics: r.chance(60),
                read_panics: false,
                max: 2,
            };
            if mixk.env || mixk.panics {
                add_faults(&t.corpus[gi], &mut plan, &calls, mixk, &mut r);
            }
        }
        for _ in 0..if tower { 1 + r.below(2) } else { [0, 0, 1, 1, 2][r.below(5)] } {
            let pass = 1 + r.below(calls.len()) as u32;
            let tick = r.below(calls[pass as usize - 1] as usize + 1) as u32;
            plan.faults.push(Planned {
                pass,
                tick,
                fault: Fault::Nested(r.below(n) as u8),
            });
        }
        parses.push(Parse {
            g: gi,
            entry,
            plan,
        });
    }
    let switch = [5, 20, 50, 100][r.below(4)];
    let mut c = Case {
        parses,
        opts: BTreeMap::new(),
    }
    .with("threads", threads as u64)
    .with("switch", switch)
    .with("sseed", r.next() >> 16);
    c.opts.insert("keep".into(), 1);
    if tower {
        c.opts.insert("depth".into(), r.range(3, 20) as u64);
    }
    c
}

// ------------------------------------------------------------------ C02

/// One case per point at which the first parse can be abandoned.
fn make_c02(t: &Target, cs: u64, idx: u64) -> Vec<Case> {
    let mut r = Rng::new(cs);
    let gi = pick_grammar(t, idx, &mut r, |_| true);
    let entry = pick_entry(&mut r);
    let (mut base, _) = eventful(t, gi, entry, cs, 3);
    if r.chance(30) {
        let (_, me) = model_run(
            t,
            &Parse {
                g: gi,
                entry,
                plan: base.clone(),
            },
            false,
        );
        add_faults(&t.corpus[gi], &mut base, &calls(&me), ENV, &mut r);
    }
    let victim = Parse {
        g: gi,
        entry,
        plan: base,
    };
    let (m, me) = model_run(t, &victim, false);
    if matches!(m.outcome, Outcome::Budget) {
        return vec![];
    }
    // the same parse again (not abandoned), and others
    let mut later = vec![victim.clone()];
    let second = pick_entry(&mut r);
    let (plan, _) = eventful(t, gi, second, r.next(), 2);
    later.push(Parse {
        g: gi,
        entry: second,
        plan,
    });
    let other = r.below(t.corpus.len());
    let (plan, _) = eventful(t, other, 0, r.next(), 2);
    later.push(Parse {
        g: other,
        entry: 0,
        plan,
    });
    let mut out = vec![];
    let cs = calls(&me);
    let mut push = |f: Planned| {
        let mut v = victim.clone();
        v.plan.faults.push(f);
        let mut parses = vec![v];
        parses.extend(later.iter().cloned());
        out.push(
            Case {
                parses,
                opts: BTreeMap::new(),
            }
            .with("keep", 1),
        );
    };
    for (p, n) in cs.iter().enumerate() {
        for tick in 0..=(*n).min(60) {
            push(Planned {
                pass: p as u32 + 1,
                tick,
                fault: Fault::Panic,
            });
        }
    }
    // user code also runs when the parser copies or drops a value
    let real = real_run(t, &victim, MODEL_LIMIT * 8, true);
    let reg = real.env.registry.clone();
    for (n, drops) in [(reg.cloned.get(), false), (reg.dropped.get(), true)] {
        for k in 0..n.min(30) as u32 {
            push(Planned {
                pass: 1,
                tick: 0,
                fault: if drops { Fault::PanicDrop(k) } else { Fault::PanicClone(k) },
            });
        }
    }
    if !t.corpus[gi].input.built_in() {
        let reads = me.reads.get().min(80) as u32;
        for k in 0..reads {
            push(Planned {
                pass: 1,
                tick: 0,
                fault: Fault::PanicRead(k),
            });
        }
    }
    out
}

fn judge_c02(t: &Target, case: &Case, stats: &mut Stats) -> Option<Violation> {
    let victim = &case.parses[0];
    let by_read = victim
        .plan
        .faults
        .iter()
        .any(|f| matches!(f.fault, Fault::PanicRead(_) | Fault::PanicCell(_)));
    let real = real_run(t, victim, MODEL_LIMIT * 8, true);
    stats.env(&real.env);
    match real.env.payload.get() {
        Some(x) => {
            if !matches!(&real.outcome, Outcome::Injected(y) if *y == x) {
                return bad(
                    "panic-lost",
                    format!(
                        "{}: user code panicked but the caller got {}",
                        describe(t, victim),
                        real.outcome.to_text()
                    ),
                );
            }
            if real.env.after_panic.get() > 0 {
                return bad(
                    "after-panic",
                    format!(
                        "{}: {} steps after user code panicked",
                        describe(t, victim),
                        real.env.after_panic.get()
                    ),
                );
            }
            stats.add("abandoned", 1);
            stats.add(if real.env.passes() > 1 { "abandoned_in_second_pass" } else { "abandoned_in_first_pass" }, 1);
        }
        None => {
            stats.add("panic_point_not_reached", 1);
            if let Outcome::Injected(_) = real.outcome {
                return bad("panic-invented", describe(t, victim));
            }
        }
    }
    let _ = by_read;
    let mut digest = digest_of(victim, &real);
    for (k, p) in case.parses.iter().enumerate().skip(1) {
        let (m, me) = model_run(t, p, false);
        if matches!(m.outcome, Outcome::Budget) {
            continue;
        }
        let r = real_run(t, p, allowance(me.steps.get()), false);
        stats.add("later_parses", 1);
        digest = mix(&[digest, r.outcome.digest()]);
        let got = format!("{:x} {:x}", r.outcome.digest(), r.env.history_digest());
        let want = format!("{:x} {:x}", m.outcome.digest(), me.history_digest());
        if got != want {
            if stats.n.get("fresh_runs").copied().unwrap_or(0) > 200 && !stats.off {
                stats.add("unattributed", 1);
                continue;
            }
            stats.add("fresh_runs", 1);
            let alone = fresh_solo(p);
            if alone != got {
                return bad(
                    "left-behind",
                    format!(
                        "after a parse abandoned by a panic, parse {} ({}) gives {} but in a fresh process it gives another result (model: {})",
                        k,
                        describe(t, p),
                        r.outcome.to_text(),
                        m.outcome.to_text()
                    ),
                );
            }
            stats.add("unattributed", 1);
        }
    }
    stats.done(
        if real.env.payload.get().is_some() { "abandoned" } else { "finished" },
        digest,
        real.env.payload.get().is_some(),
    );
    stats.sample(|| case.to_text());
    None
}

// ------------------------------------------------------------------ C03

fn judge_c03(t: &Target, case: &Case, stats: &mut Stats) -> Option<Violation> {
    let p = &case.parses[0];
    let (m, _) = model_run(t, p, false);
    if matches!(m.outcome, Outcome::Budget) {
        return None;
    }
    let Real { outcome, env } = real_run(t, p, MODEL_LIMIT * 8, true);
    stats.env(&env);
    stats.model(&m);
    let reg = env.registry.clone();
    stats.add("values_made", reg.made.get());
    stats.add("values_cloned", reg.cloned.get());
    let real = Real { outcome, env };
    stats.done(
        real.outcome.kind(),
        digest_of(p, &real),
        reg.made.get() > 0 && nontrivial(&real),
    );
    stats.sample(|| {
        format!(
            "{} {} -> made {} copied {} dropped {}",
            describe(t, p),
            p.plan.to_text(),
            reg.made.get(),
            reg.cloned.get(),
            reg.dropped.get()
        )
    });
    let kept = match &real.outcome {
        Outcome::Ok(v) => v.count_nodes() as i64,
        _ => 0,
    };
    if reg.live() != kept {
        return bad(
            if reg.live() > kept { "kept" } else { "dropped-twice" },
            format!(
                "{}: {} values are alive after the call ({}), {} are in its result",
                describe(t, p),
                reg.live(),
                real.outcome.kind(),
                kept
            ),
        );
    }
    if !t.corpus[p.g].has_cache() && p.entry != 2 && reg.cloned.get() > 0 {
        return bad(
            "copied",
            format!(
                "{}: {} values copied by a grammar that memoises nothing",
                describe(t, p),
                reg.cloned.get()
            ),
        );
    }
    drop(real);
    if reg.live() != 0 {
        return bad(
            "kept",
            format!(
                "{}: {} values are alive after the result was dropped",
                describe(t, p),
                reg.live()
            ),
        );
    }
    if p.plan.seed % 4 == 0 {
        return judge_memory(t, p, stats);
    }
    None
}

/// Memory other than the user's values: none is held once the result is gone.
/// Something made once for all is no leak, so it has to happen each time.
fn judge_memory(t: &Target, p: &Parse, stats: &mut Stats) -> Option<Violation> {
    stats.add("memory_balanced", 1);
    let mut least = i64::MAX;
    for _ in 0..4 {
        let before = alloc::net();
        drop(real_run(t, p, MODEL_LIMIT * 8, true));
        least = least.min(alloc::net() - before);
        if least <= 0 {
            return None;
        }
    }
    bad(
        "memory",
        format!(
            "{}: each call leaves {} bytes of memory or more behind after its result was dropped",
            describe(t, p),
            least
        ),
    )
}

// ------------------------------------------------------------------ C10

fn judge_c10(t: &Target, case: &Case, stats: &mut Stats) -> Option<Violation> {
    let p = &case.parses[0];
    if t.corpus[p.g].input.built_in() {
        return None;
    }
    let (m, _) = model_run(t, p, false);
    if matches!(m.outcome, Outcome::Budget) {
        return None;
    }
    let real = real_run(t, p, MODEL_LIMIT * 8, false);
    stats.env(&real.env);
    stats.model(&m);
    stats.done(real.outcome.kind(), digest_of(p, &real), nontrivial(&real));
    stats.sample(|| {
        format!(
            "{} {} -> {} accesses, {}",
            describe(t, p),
            p.plan.to_text(),
            real.env.reads.get(),
            real.outcome.to_text()
        )
    });
    let b = real.env.breaches.borrow();
    if let Some(x) = b.first() {
        return bad("position", format!("{}: {}", describe(t, p), x));
    }
    if let Outcome::Err { pos, .. } = &real.outcome {
        // checked by the device when it was asked to represent the position
        stats.add("error_positions_checked", (*pos >= p.plan.base) as u64);
    }
    if let Outcome::Panic(s) = &real.outcome {
        return bad("panic", format!("{}: panicked: {}", describe(t, p), s));
    }
    None
}

// ------------------------------------------------------------------ C12

fn line_col(text: &str, off: usize) -> String {
    let before = &text[..off.min(text.len())];
    let line = before.matches('\n').count() + 1;
    let col = before.chars().rev().take_while(|c| *c != '\n').count() + 1;
    format!("{}:{}", line, col)
}

fn wanted_trace(t: &Target, p: &Parse, m: &ModelRun) -> Vec<String> {
    let text: String = p.plan.tape.iter().collect();
    m
        .trace
        .iter()
        .map(|l| {
            let l = if t.corpus[p.g].input == Input::Str {
                l.split(' ')
                    .map(|w| match w.strip_prefix('p').and_then(|n| n.parse().ok()) {
                        Some(off) => line_col(&text, off),
                        None => w.to_string(),
                    })
                    .collect::<Vec<_>>()
                    .join(" ")
            } else if t.corpus[p.g].input == Input::Bytes {
                // plain indices
                l.split(' ')
                    .map(|w| match w.strip_prefix('p') {
                        Some(n) if n.parse::<usize>().is_ok() => n,
                        _ => w,
                    })
                    .collect::<Vec<_>>()
                    .join(" ")
            } else {
                l.clone()
            };
            format!("[PEG_TRACE] {}", l)
        })
        .collect()
}

/// A line of the trace was refused: the parse may unwind, as `println!` does,
/// but not give another answer or lose the line.
fn judge_refused(
    t: &Target,
    p: &Parse,
    m: &ModelRun,
    me: &Env,
    real: &Real,
    cap: &trace::Captured,
) -> Option<Violation> {
    let want = wanted_trace(t, p, m).iter().map(|l| format!("{}\n", l)).collect::<String>();
    if !matches!(real.outcome, Outcome::Panic(_)) {
        if let Some(v) = compare(t, p, m, me, real, true) {
            return Some(v);
        }
        if cap.text != want {
            return bad(
                "trace-lost",
                format!(
                    "{}: standard output refused {} writes and the trace is not whole, but the parse returned as if nothing had happened",
                    describe(t, p),
                    cap.refused
                ),
            );
        }
        return None;
    }
    if !want.starts_with(&cap.text) {
        return bad(
            "trace",
            format!(
                "{}: after a refused write the trace reads {:?}",
                describe(t, p),
                &cap.text[cap.text.len().saturating_sub(200)..]
            ),
        );
    }
    let (a, b) = (real.env.history.borrow(), me.history.borrow());
    if !b.starts_with(&a) {
        return bad(
            "user-code",
            format!("{}: other user code was called before the refused write", describe(t, p)),
        );
    }
    None
}

fn judge_c12(t: &Target, case: &Case, stats: &mut Stats) -> Option<Violation> {
    let p = &case.parses[0];
    let (m, me) = model_run(t, p, true);
    if matches!(m.outcome, Outcome::Budget) || m.sep_at_max {
        stats.add("skipped", 1);
        return None;
    }
    let lim = allowance(me.steps.get());
    let stream = |refuse| {
        trace::capture(
            case.opt("sseed"),
            case.opt("short") as usize,
            case.opt("eintr") as usize,
            refuse,
            || real_run(t, p, lim, false),
        )
    };
    let refuse = trace::Refuse {
        at: case.opt("refuse"),
        sticky: case.opt("sticky") != 0,
        errno: case.opt("errno") as i32,
    };
    let (mut real, mut cap) = stream(refuse);
    if cap.refused > 0 {
        stats.add("fault.refused_write", cap.refused);
        if let Some(v) = judge_refused(t, p, &m, &me, &real, &cap) {
            return Some(v);
        }
        // and again, now that the stream takes everything
        (real, cap) = stream(trace::Refuse::default());
    }
    stats.env(&real.env);
    stats.model(&m);
    stats.add("fault.short_write", cap.shorts);
    stats.add("fault.interrupted_write", cap.eintrs);
    stats.add("writes", cap.calls);
    stats.done(
        real.outcome.kind(),
        mix(&[
            digest_of(p, &real),
            simlib::rng::hash_bytes(cap.text.as_bytes()),
        ]),
        nontrivial(&real),
    );
    if let Some(v) = compare(t, p, &m, &me, &real, true) {
        return Some(v);
    }
    if !t.traced {
        return None;
    }
    let want = wanted_trace(t, p, &m);
    let got: Vec<&str> = cap.text.lines().collect();
    stats.add("trace_lines", got.len() as u64);
    stats.sample(|| {
        format!(
            "{} {} -> {} trace lines in {} writes ({} short, {} interrupted)",
            describe(t, p),
            p.plan.to_text(),
            got.len(),
            cap.calls,
            cap.shorts,
            cap.eintrs
        )
    });
    let k = got.iter().zip(want.iter()).take_while(|(a, b)| a == b).count();
    if k < got.len() || k < want.len() {
        return bad(
            "trace",
            format!(
                "{}: trace line {} is {:?} instead of {:?}",
                describe(t, p),
                k,
                got.get(k),
                want.get(k)
            ),
        );
    }
    None
}

// ------------------------------------------------------------------ C16

/// Depths at which one piece of user code, reached through one chain of rules
/// and expressions, may run: code the compiler duplicated has several.
const DEPTHS: usize = 16;

/// The stack a parse takes follows the nesting of its rules: another turn of a
/// repetition, another operator or another growth of a left-recursive rule takes
/// none.
fn flat_stack(t: &Target, p: &Parse, real: &Env, model: &Env, stats: &mut Stats) -> Option<Violation> {
    let (a, b) = (real.history.borrow(), model.history.borrow());
    if a.len() <= DEPTHS || *a != *b {
        return None;
    }
    let (deep, chain) = (real.marks.borrow(), model.marks.borrow());
    let mut seen: BTreeMap<(u64, What, u32), BTreeSet<u64>> = BTreeMap::new();
    let mut most = 0;
    for ((e, d), c) in a.iter().zip(deep.iter()).zip(chain.iter()) {
        let s = seen.entry((*c, e.what, e.id)).or_default();
        s.insert(*d);
        most = most.max(s.len());
        if s.len() > DEPTHS {
            return bad(
                "stack",
                format!(
                    "{}: {:?} {} runs deeper in the stack each time, though it is reached in the same way: the stack grows with the length of the input",
                    describe(t, p),
                    e.what,
                    e.id
                ),
            );
        }
    }
    stats.max("max_stack_depths_of_one_call", most as u64);
    None
}

fn judge_c16(t: &Target, case: &Case, stats: &mut Stats) -> Option<Violation> {
    let p = &case.parses[0];
    let g = &t.corpus[p.g];
    let (m, me) = model_run_marked(t, p);
    if matches!(m.outcome, Outcome::Budget) {
        stats.add("model_gave_up", 1);
        return None;
    }
    let lim = me.steps.get() * 3 + 100;
    let real = real_run_marked(t, p, lim, false, true);
    stats.env(&real.env);
    stats.model(&m);
    stats.max("max_steps_of_one_run", real.env.steps.get());
    stats.done(real.outcome.kind(), digest_of(p, &real), nontrivial(&real));
    stats.sample(|| {
        format!(
            "{} {} -> {} steps, model {} steps, {}",
            describe(t, p),
            p.plan.to_text(),
            real.env.steps.get(),
            me.steps.get(),
            real.outcome.to_text()
        )
    });
    if let Outcome::Budget = real.outcome {
        return bad(
            "unbounded",
            format!(
                "{}: not finished after {} steps; PEG semantics need {}",
                describe(t, p),
                real.env.steps.get(),
                me.steps.get()
            ),
        );
    }
    let (a, b) = (
        real.env.history.borrow().len(),
        me.history.borrow().len(),
    );
    if a > 2 * b + 20 {
        return bad(
            "too-many-calls",
            format!(
                "{}: {} user-code calls where PEG semantics make {}",
                describe(t, p),
                a,
                b
            ),
        );
    }
    if let Some(v) = at_most_once(t, p, &real) {
        return Some(v);
    }
    if let Some(v) = flat_stack(t, p, &real.env, &me, stats) {
        return Some(v);
    }
    // evaluations of left-recursive bodies: one more than the positions they can grow to
    let mut n: BTreeMap<(u32, u32, u64), u64> = BTreeMap::new();
    for e in real.env.history.borrow().iter() {
        if e.what == What::Enter && g.rules[e.id as usize].cache == Cache::LeftRec {
            *n.entry((e.pass, e.id, e.arg)).or_insert(0) += 1;
        }
    }
    let direct_only = g
        .rules
        .iter()
        .enumerate()
        .filter(|(_, r)| r.cache == Cache::LeftRec)
        .all(|(i, r)| !mentions_other_leftrec(g, i, &r.body));
    if direct_only {
        let positions = p.plan.tape.len() as u64 + 24;
        for ((pass, id, pos), c) in n {
            if c > positions + 2 {
                return bad(
                    "too-many-evaluations",
                    format!(
                        "{}: left-recursive rule {} ran {} times at position {} in pass {}",
                        describe(t, p),
                        g.rules[id as usize].name,
                        c,
                        pos,
                        pass
                    ),
                );
            }
        }
    }
    None
}

fn mentions_other_leftrec(g: &Grammar, me: usize, e: &Ex) -> bool {
    let mut found = false;
    walk(e, &mut |x| {
        if let Ex::Call(j, _) = x {
            if *j != me && g.rules[*j].cache == Cache::LeftRec {
                found = true;
            }
        }
    });
    found
}

fn walk(e: &Ex, f: &mut dyn FnMut(&Ex)) {
    use simlib::ast::{Arg, OpEl};
    f(e);
    match e {
        Ex::Choice(es) => es.iter().for_each(|e| walk(e, f)),
        Ex::Opt(e) | Ex::Ahead(e) | Ex::Not(e) | Ex::Slice(e) | Ex::Quiet(e) => walk(e, f),
        Ex::Rep(e, _, s) => {
            walk(e, f);
            if let Some(s) = s {
                walk(s, f)
            }
        }
        Ex::Seq(els, _) => els.iter().for_each(|el| walk(&el.ex, f)),
        Ex::Call(_, args) => {
            for a in args {
                if let Arg::Rule(e) = a {
                    walk(e, f)
                }
            }
        }
        Ex::Prec(_, levels) => {
            for op in levels.iter().flatten() {
                for el in &op.els {
                    if let OpEl::El(el) = el {
                        walk(&el.ex, f)
                    }
                }
            }
        }
        _ => {}
    }
}
