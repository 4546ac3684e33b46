//! Several parses in progress at once. Each runs on a real thread, but only the
//! thread holding the baton moves: at every input access and user-code call the
//! seeded scheduler decides who holds it next.
use crate::{fresh_solo, model_run, Case, Parse, RunFn, Stats, Target, Violation, MODEL_LIMIT};
use simlib::env::{Env, Fault};
use simlib::rng::{mix, Rng};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

struct St {
    current: usize,
    alive: Vec<bool>,
    rng: Rng,
    switches: u64,
    digest: u64,
}

struct Sched {
    st: Mutex<St>,
    cvs: Vec<Condvar>,
    pct: usize,
}

impl Sched {
    fn choose(st: &mut St) -> Option<usize> {
        let n = st.alive.iter().filter(|a| **a).count();
        if n == 0 {
            return None;
        }
        let k = st.rng.below(n);
        st.alive
            .iter()
            .enumerate()
            .filter(|(_, a)| **a)
            .nth(k)
            .map(|(i, _)| i)
    }

    fn wait<'a>(
        &self,
        mut g: std::sync::MutexGuard<'a, St>,
        me: usize,
    ) -> std::sync::MutexGuard<'a, St> {
        while g.current != me {
            g = self.cvs[me].wait(g).unwrap();
        }
        g
    }

    fn step(&self, me: usize) {
        let mut g = self.st.lock().unwrap();
        if !g.rng.chance(self.pct) {
            return;
        }
        let next = Self::choose(&mut g).unwrap();
        if next != me {
            g.switches += 1;
            g.digest = mix(&[g.digest, next as u64]);
            g.current = next;
            self.cvs[next].notify_one();
            drop(self.wait(g, me));
        } else {
            g.digest = mix(&[g.digest, 99]);
        }
    }

    fn begin(&self, me: usize) {
        let g = self.st.lock().unwrap();
        drop(self.wait(g, me));
    }

    fn finish(&self, me: usize) {
        let mut g = self.st.lock().unwrap();
        g.alive[me] = false;
        if let Some(next) = Self::choose(&mut g) {
            g.current = next;
            self.cvs[next].notify_one();
        }
    }
}

/// (parse, nesting) -> what it did
struct Done {
    parse: usize,
    depth: u8,
    what: String,
    outcome: String,
    steps: u64,
    fired: [u32; simlib::env::KINDS.len()],
    after_panic: u32,
}

/// How deep parses may be nested, and how many more this thread may nest.
#[derive(Clone)]
struct Nest {
    depth: u8,
    left: Rc<std::cell::Cell<u32>>,
}

fn one(
    run: RunFn,
    parses: &Arc<Vec<Parse>>,
    shared: &Arc<Vec<Option<Arc<str>>>>,
    i: usize,
    depth: u8,
    nest: &Nest,
    yielder: &Rc<dyn Fn(&Env, simlib::env::Step)>,
    out: &Rc<std::cell::RefCell<Vec<Done>>>,
) {
    let p = &parses[i];
    let env = Env::new(&p.plan, false);
    env.limit.set(MODEL_LIMIT * 8 + 2000);
    *env.shared.borrow_mut() = shared[i].clone();
    *env.hook.borrow_mut() = Some(yielder.clone());
    {
        let (parses, shared, yielder, out, nest) =
            (parses.clone(), shared.clone(), yielder.clone(), out.clone(), nest.clone());
        *env.nested.borrow_mut() = Some(Rc::new(move |_: &Env, k: u8| {
            if depth < nest.depth && nest.left.get() > 0 {
                nest.left.set(nest.left.get() - 1);
                one(
                    run,
                    &parses,
                    &shared,
                    k as usize % parses.len(),
                    depth + 1,
                    &nest,
                    &yielder,
                    &out,
                );
            }
        }));
    }
    let o = run(p.g, p.entry, &env);
    *env.nested.borrow_mut() = None;
    *env.hook.borrow_mut() = None;
    let fired = *env.fired.borrow();
    out.borrow_mut().push(Done {
        parse: i,
        depth,
        what: format!("{:x} {:x}", o.digest(), env.history_digest()),
        outcome: o.to_text(),
        steps: env.steps.get(),
        fired,
        after_panic: env.after_panic.get(),
    });
}

pub fn judge(t: &Target, case: &Case, stats: &mut Stats) -> Option<Violation> {
    // what each parse does alone
    let mut want = vec![];
    for p in &case.parses {
        let (m, me) = model_run(t, p, false);
        want.push((
            format!("{:x} {:x}", m.outcome.digest(), me.history_digest()),
            m.outcome,
        ));
    }
    let threads = (case.opt("threads").max(1) as usize).min(case.parses.len());
    let mut texts: BTreeMap<String, Arc<str>> = BTreeMap::new();
    let shared: Vec<Option<Arc<str>>> = case
        .parses
        .iter()
        .map(|p| {
            if t.corpus[p.g].input.built_in() {
                let s: String = p.plan.tape.iter().collect();
                Some(
                    texts
                        .entry(s.clone())
                        .or_insert_with(|| Arc::from(s.as_str()))
                        .clone(),
                )
            } else {
                None
            }
        })
        .collect();
    let shared = Arc::new(shared);
    let parses = Arc::new(case.parses.clone());
    let mut rng = Rng::new(mix(&[case.opt("sseed"), 5]));
    let first = rng.below(threads);
    let sched = Arc::new(Sched {
        st: Mutex::new(St {
            current: first,
            alive: vec![true; threads],
            rng,
            switches: 0,
            digest: 7,
        }),
        cvs: (0..threads).map(|_| Condvar::new()).collect(),
        pct: case.opt("switch") as usize,
    });
    let run = t.run;
    let depth = if case.opt("depth") > 0 { case.opt("depth") as u8 } else { 2 };
    let hs: Vec<_> = (0..threads)
        .map(|me| {
            let (sched, parses, shared) = (sched.clone(), parses.clone(), shared.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let out = Rc::new(std::cell::RefCell::new(vec![]));
                    sched.begin(me);
                    let s2 = sched.clone();
                    let yielder: Rc<dyn Fn(&Env, simlib::env::Step)> =
                        Rc::new(move |_, _| s2.step(me));
                    for i in (me..parses.len()).step_by(threads) {
                        let nest = Nest {
                            depth,
                            left: Rc::new(std::cell::Cell::new(60)),
                        };
                        one(run, &parses, &shared, i, 0, &nest, &yielder, &out);
                    }
                    sched.finish(me);
                    drop(yielder);
                    let v = std::mem::take(&mut *out.borrow_mut());
                    v
                })
                .unwrap()
        })
        .collect();
    let mut done = vec![];
    for h in hs {
        match h.join() {
            Ok(v) => done.extend(v),
            Err(_) => return crate::bad("harness", "a simulated client died".into()),
        }
    }
    let (switches, digest) = {
        let g = sched.st.lock().unwrap();
        (g.switches, g.digest)
    };
    stats.add("thread_switches", switches);
    let mut nested = 0;
    let mut all = vec![digest];
    let mut solo: BTreeMap<usize, String> = BTreeMap::new();
    let mut found = None;
    let mut fired_any = 0;
    for d in &done {
        nested += (d.depth > 0) as u64;
        all.push(simlib::rng::hash_bytes(d.what.as_bytes()));
        stats.add("steps", d.steps);
        for (k, c) in d.fired.iter().enumerate() {
            fired_any += *c;
            stats.add(&format!("fault.{}", simlib::env::KINDS[k]), *c as u64);
        }
        let (w, wo) = &want[d.parse];
        if matches!(wo, simlib::model::Outcome::Budget) {
            continue;
        }
        if d.after_panic > 0 {
            return crate::bad(
                "after-panic",
                format!("parse {} ran user code after it had panicked", d.parse),
            );
        }
        if d.what != *w && found.is_none() {
            let s = solo
                .entry(d.parse)
                .or_insert_with(|| fresh_solo(&case.parses[d.parse]));
            if *s != d.what {
                found = crate::bad(
                    "interference",
                    format!(
                        "parse {} (nesting {}) among {} gave {} but alone it gives another result or runs other user code (model: {})",
                        d.parse,
                        d.depth,
                        case.parses.len(),
                        d.outcome,
                        wo.to_text()
                    ),
                );
            } else {
                stats.add("unattributed", 1);
            }
        }
    }
    stats.add("nested_parses", nested);
    stats.add("parses", done.len() as u64);
    for p in &case.parses {
        if p.plan.faults.iter().any(|f| matches!(f.fault, Fault::Nested(_))) {
            stats.add("parses_with_reentry", 1);
        }
    }
    stats.done(
        if found.is_some() { "interference" } else { "as_alone" },
        mix(&all),
        switches > 0 || nested > 0 || fired_any > 0,
    );
    stats.sample(|| {
        format!(
            "{} threads, {} switches, {} nested; {}",
            threads,
            switches,
            nested,
            case.to_text()
        )
    });
    found
}
