//! The reference model: a direct interpreter of PEG semantics, written from the
//! documentation, run against its own instance of the simulated environment.

use crate::ast::*;
use crate::env::{thrown, Budget, Env};
use crate::rng::mix;
use crate::val::{IntoVal, Val};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum Outcome {
    Ok(Val),
    Err {
        pos: usize,
        expected: BTreeSet<String>,
    },
    /// the documented "Parser is nondeterministic" panic
    Nondet,
    /// the injected panic
    Injected(u64),
    /// the step budget ran out
    Budget,
    /// any other panic
    Panic(String),
}

impl Outcome {
    pub fn kind(&self) -> &'static str {
        match self {
            Outcome::Ok(_) => "ok",
            Outcome::Err { .. } => "err",
            Outcome::Nondet => "nondeterministic",
            Outcome::Injected(_) => "injected-panic",
            Outcome::Budget => "budget",
            Outcome::Panic(_) => "panic",
        }
    }
    pub fn to_text(&self) -> String {
        match self {
            Outcome::Ok(v) => format!("Ok({})", v.to_text()),
            Outcome::Err { pos, expected } => format!("Err(at {} expected {:?})", pos, expected),
            Outcome::Nondet => "panic(nondeterministic)".into(),
            Outcome::Injected(x) => format!("panic(injected {:x})", x),
            Outcome::Budget => "step budget exceeded".into(),
            Outcome::Panic(s) => format!("panic({:?})", s),
        }
    }
    pub fn same(&self, o: &Outcome) -> bool {
        match (self, o) {
            (Outcome::Ok(a), Outcome::Ok(b)) => a.digest(true) == b.digest(true),
            (
                Outcome::Err { pos: a, expected: e },
                Outcome::Err { pos: b, expected: f },
            ) => a == b && e == f,
            (Outcome::Injected(a), Outcome::Injected(b)) => a == b,
            (Outcome::Panic(a), Outcome::Panic(b)) => a == b,
            _ => self.kind() == o.kind(),
        }
    }
    pub fn digest(&self) -> u64 {
        crate::rng::hash_bytes(self.to_text().as_bytes())
    }
}

#[derive(Clone, Copy)]
struct Link<'s> {
    name: u32,
    val: &'s Val,
    prev: Option<&'s Link<'s>>,
}

#[derive(Clone, Copy)]
enum PV<'s> {
    Rule(&'s Ex, Scope<'s>),
    Num(usize),
}

#[derive(Clone, Copy)]
struct Scope<'s> {
    labels: Option<&'s Link<'s>>,
    params: &'s [PV<'s>],
}

type Res = Option<(usize, Val)>;

/// Rare situations reached by the model during a run ("probes").
pub const PROBES: [&str; 24] = [
    "backtrack_after_progress",
    "repeat_max_reached",
    "repeat_below_min",
    "separator_then_no_element",
    "lookahead_success_nonempty",
    "negative_lookahead_blocked",
    "cond_rejected_after_progress",
    "memo_hit_match",
    "memo_hit_fail",
    "left_rec_grew",
    "left_rec_stopped_not_longer",
    "left_rec_grew_3_times",
    "operator_without_operand",
    "prefix_operator_failed_operand",
    "postfix_applied",
    "nested_precedence_level",
    "error_inside_suppression_ignored",
    "error_at_same_position_merged",
    "matched_prefix_then_eof_error",
    "second_pass_matched",
    "passes_disagree",
    "rule_argument_called",
    "variable_bound_used",
    "error_position_beyond_start",
];

pub struct Model<'a> {
    g: &'a Grammar,
    env: &'a Env,
    max: usize,
    suppress: u32,
    reparse: bool,
    expected: BTreeSet<String>,
    cache: BTreeMap<(usize, usize), Res>,
    pub trace: Option<Vec<String>>,
    /// a separator was tried although the repetition had reached its maximum
    pub sep_at_max: bool,
    pub sep_at_max_calls: bool,
    pub probes: [u32; 24],
    pub rule_evals: u64,
    depth: u32,
    /// size of the values in the memo table
    kept: u64,
    /// rounds of repetitions
    repeated: u64,
}

pub struct ModelRun {
    pub outcome: Outcome,
    pub trace: Vec<String>,
    pub sep_at_max: bool,
    pub sep_at_max_calls: bool,
    pub probes: [u32; 24],
    /// body evaluations of each (pass, rule, position) that is memoised
    pub rule_evals: u64,
}

/// Run the grammar through one of its exported functions (`ENTRIES`); all but
/// entry 1 must reach the end of input.
pub fn run(g: &Grammar, env: &Env, entry: u32, trace: bool) -> ModelRun {
    let mut m = Model {
        g,
        env,
        max: 0,
        suppress: 0,
        reparse: false,
        expected: BTreeSet::new(),
        cache: BTreeMap::new(),
        trace: if trace { Some(vec![]) } else { None },
        sep_at_max: false,
        sep_at_max_calls: false,
        probes: [0; 24],
        rule_evals: 0,
        depth: 0,
        kept: 0,
        repeated: 0,
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.exported(entry)));
    let outcome = match r {
        Ok(o) => o,
        Err(p) => from_panic(p),
    };
    ModelRun {
        outcome,
        trace: m.trace.take().unwrap_or_default(),
        sep_at_max: m.sep_at_max,
        sep_at_max_calls: m.sep_at_max_calls,
        probes: m.probes,
        rule_evals: m.rule_evals,
    }
}

pub fn from_panic(p: Box<dyn std::any::Any + Send>) -> Outcome {
    if let Some(n) = thrown(&*p) {
        return Outcome::Injected(n);
    }
    if p.downcast_ref::<Budget>().is_some() {
        return Outcome::Budget;
    }
    let msg = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "unknown payload".to_string()
    };
    if msg.starts_with("Parser is nondeterministic") {
        Outcome::Nondet
    } else {
        Outcome::Panic(msg)
    }
}

impl<'a> Model<'a> {
    fn probe(&mut self, i: usize) {
        self.probes[i] += 1;
    }

    fn fail(&mut self, pos: usize, what: impl FnOnce() -> String) {
        if self.suppress > 0 {
            self.probe(16);
            return;
        }
        if self.reparse {
            if pos == self.max {
                if !self.expected.is_empty() {
                    self.probe(17);
                }
                self.expected.insert(what());
            }
        } else if pos > self.max {
            self.max = pos;
        }
    }

    fn say(&mut self, f: impl FnOnce(&Env) -> String) {
        if self.trace.is_some() {
            let s = f(self.env);
            self.trace.as_mut().unwrap().push(s);
        }
    }

    fn exported(&mut self, entry: u32) -> Outcome {
        let start = self.env.start();
        self.max = start;
        for second in [false, true] {
            self.cache.clear();
            self.kept = 0;
            self.reparse = second;
            self.suppress = 0;
            if let Some((end, v)) = self.top(entry, start) {
                if entry == 1 || self.env.eof(end) {
                    if !second {
                        return Outcome::Ok(v);
                    }
                    self.probe(19);
                    return Outcome::Nondet;
                }
                self.probe(18);
                self.fail(end, || "EOF".to_string());
            }
        }
        if self.max > start {
            self.probe(23);
        }
        if self.expected.is_empty() {
            self.probe(20);
        }
        Outcome::Err {
            pos: self.env.repr(self.max),
            expected: std::mem::take(&mut self.expected),
        }
    }

    /// The body of the exported rule: pass marker, then rule 0.
    fn top(&mut self, entry: u32, start: usize) -> Res {
        let name = ENTRIES[entry as usize];
        self.say(|e| format!("Attempting to match rule `{}` at p{}", name, e.repr(start)));
        let p = self.env.pass(start);
        let scope = Scope {
            labels: None,
            params: &[],
        };
        let r = self.eval(&entry_body(entry), p, true, scope);
        match &r {
            Some((end, _)) => {
                let end = *end;
                self.say(|e| {
                    format!(
                        "Matched rule `{}` at p{} to p{}",
                        name,
                        e.repr(start),
                        e.repr(end)
                    )
                })
            }
            None => self.say(|e| format!("Failed to match rule `{}` at p{}", name, e.repr(start))),
        }
        r
    }

    fn body(&mut self, r: usize, params: &[PV], pos: usize) -> Res {
        let g = self.g;
        let rule = &g.rules[r];
        self.rule_evals += 1;
        self.say(|e| format!("Attempting to match rule `{}` at p{}", rule.name, e.repr(pos)));
        let scope = Scope {
            labels: None,
            params,
        };
        let res = self.eval(&rule.body, pos, rule.ret, scope);
        match &res {
            Some((end, _)) => {
                let end = *end;
                self.say(|e| {
                    format!(
                        "Matched rule `{}` at p{} to p{}",
                        rule.name,
                        e.repr(pos),
                        e.repr(end)
                    )
                })
            }
            None => self.say(|e| {
                format!("Failed to match rule `{}` at p{}", rule.name, e.repr(pos))
            }),
        }
        res
    }

    fn call(&mut self, r: usize, params: &[PV], pos: usize) -> Res {
        self.depth += 1;
        if self.depth > 400 {
            std::panic::panic_any(Budget);
        }
        let res = self.call2(r, params, pos);
        self.depth -= 1;
        res
    }

    fn call2(&mut self, r: usize, params: &[PV], pos: usize) -> Res {
        let g = self.g;
        let rule = &g.rules[r];
        if rule.cache == Cache::No {
            return self.body(r, params, pos);
        }
        if let Some(hit) = self.cache.get(&(r, pos)) {
            let hit = hit.clone();
            let how = if hit.is_some() { "match" } else { "fail" };
            self.probe(if hit.is_some() { 7 } else { 8 });
            self.say(|e| format!("Cached {} of rule `{}` at p{}", how, rule.name, e.repr(pos)));
            return hit;
        }
        if rule.cache == Cache::Simple {
            let res = self.body(r, params, pos);
            self.keep(&res);
            self.cache.insert((r, pos), res.clone());
            return res;
        }
        // left recursion: grow the seed from failure
        self.cache.insert((r, pos), None);
        let mut last: Res = None;
        let mut grown = 0;
        loop {
            let now = self.body(r, params, pos);
            let longer = match (&now, &last) {
                (None, _) => false,
                (Some(_), None) => true,
                (Some((e, _)), Some((le, _))) => e > le,
            };
            if !longer {
                if now.is_some() {
                    self.probe(10);
                }
                return last;
            }
            grown += 1;
            if grown > 1 {
                self.probe(9);
            }
            if grown == 4 {
                self.probe(11);
            }
            self.kept -= self.cache[&(r, pos)].as_ref().map_or(0, |r| r.1.size());
            self.keep(&now);
            self.cache.insert((r, pos), now.clone());
            last = now;
        }
    }

    /// Give up when the memo table takes too much memory.
    fn keep(&mut self, res: &Res) {
        self.kept += res.as_ref().map_or(1, |r| r.1.size());
        if self.kept > 400_000 {
            std::panic::panic_any(Budget);
        }
    }

    fn num(&mut self, n: &Num, scope: Scope) -> usize {
        match n {
            Num::Const(n) => *n,
            Num::Env(id) => self.env.bound(*id),
            Num::Param(i) => match scope.params[*i] {
                PV::Num(n) => n,
                _ => unreachable!(),
            },
            Num::Label(l) => {
                self.probe(22);
                let mut link = scope.labels;
                while let Some(k) = link {
                    if k.name == *l {
                        return k.val.hint();
                    }
                    link = k.prev;
                }
                unreachable!("unbound label x{}", l)
            }
        }
    }

    fn eval(&mut self, e: &Ex, pos: usize, used: bool, scope: Scope) -> Res {
        let c = self.env.chain.get();
        if c == 0 {
            return self.eval2(e, pos, used, scope);
        }
        self.env.chain.set(mix(&[c, e as *const Ex as u64]));
        let r = self.eval2(e, pos, used, scope);
        self.env.chain.set(c);
        r
    }

    fn eval2(&mut self, e: &Ex, pos: usize, used: bool, scope: Scope) -> Res {
        match e {
            Ex::Lit(s) => match self.env.literal(pos, s) {
                Some(p) => Some((p, Val::Unit)),
                None => {
                    self.fail(pos, || expected_name(e));
                    None
                }
            },
            Ex::Pat(p) => {
                if let Some((next, c)) = self.env.elem(pos) {
                    let hit = match p.guard {
                        Some(id) => self.env.guard(id, c),
                        None => p.set.iter().any(|(lo, hi)| *lo <= c && c <= *hi),
                    };
                    if hit != p.neg {
                        return Some((next, if used { Val::Elem(c) } else { Val::Unit }));
                    }
                }
                self.fail(pos, || expected_name(e));
                None
            }
            Ex::Call(r, args) => {
                let pvs: Vec<PV> = args
                    .iter()
                    .map(|a| match a {
                        Arg::Rule(e) => PV::Rule(e, scope),
                        Arg::Num(n) => PV::Num(self.num(n, scope)),
                    })
                    .collect();
                let res = self.call(*r, &pvs, pos);
                match res {
                    Some((p, v)) => Some((p, if used { v } else { Val::Unit })),
                    None => None,
                }
            }
            Ex::Param(i, _) => match scope.params[*i] {
                PV::Rule(e, s) => {
                    self.probe(21);
                    self.eval(e, pos, true, s)
                }
                _ => unreachable!(),
            },
            Ex::Custom(k, id) => self.env.custom(*k, *id, pos),
            Ex::Method(k, id) => self.env.method(*k, *id, pos),
            Ex::Enter(r) => Some((self.env.enter(*r as u32, pos), Val::Unit)),
            Ex::Choice(es) => {
                for (i, e) in es.iter().enumerate() {
                    let before = self.env.steps.get();
                    if let Some(r) = self.eval(e, pos, used, scope) {
                        return Some(r);
                    }
                    if i + 1 < es.len() && self.env.steps.get() > before + 1 {
                        self.probe(0);
                    }
                }
                None
            }
            Ex::Opt(e) => match self.eval(e, pos, used, scope) {
                Some((p, v)) => Some((p, Val::Some(Box::new(v)))),
                None => Some((pos, Val::None)),
            },
            Ex::Rep(e, b, sep) => {
                let (lo, hi) = match b {
                    Bound::Star => (None, None),
                    Bound::Plus => (Some(1), None),
                    Bound::Exact(n) => {
                        let n = self.num(n, scope);
                        (Some(n), Some(n))
                    }
                    Bound::Range(lo, hi) => {
                        let lo = lo.as_ref().map(|n| self.num(n, scope));
                        let hi = hi.as_ref().map(|n| self.num(n, scope));
                        (lo, hi)
                    }
                };
                let mut at = pos;
                let mut out = vec![];
                loop {
                    let mut p = at;
                    if let Some(sep) = sep {
                        if !out.is_empty() {
                            let full = hi.map_or(false, |hi| out.len() >= hi);
                            let calls = self.env.history.borrow().len();
                            if full {
                                self.sep_at_max = true;
                            }
                            let r = self.eval(sep, p, false, scope);
                            if full && self.env.history.borrow().len() != calls {
                                self.sep_at_max_calls = true;
                            }
                            match r {
                                Some((q, _)) => p = q,
                                None => break,
                            }
                        }
                    }
                    if hi.map_or(false, |hi| out.len() >= hi) {
                        self.probe(1);
                        break;
                    }
                    match self.eval(e, p, used, scope) {
                        Some((q, v)) => {
                            at = q;
                            out.push(v);
                            // bounds within bounds, possibly of nothing
                            self.repeated += 1;
                            if self.repeated > 200_000 {
                                std::panic::panic_any(Budget);
                            }
                        }
                        None => {
                            if p != at {
                                self.probe(3);
                            }
                            break;
                        }
                    }
                }
                if lo.map_or(false, |lo| out.len() < lo) {
                    self.probe(2);
                    None
                } else {
                    Some((at, Val::List(out)))
                }
            }
            Ex::Ahead(e) => {
                self.suppress += 1;
                let r = self.eval(e, pos, used, scope);
                self.suppress -= 1;
                match r {
                    Some((p, v)) => {
                        if p != pos {
                            self.probe(4);
                        }
                        Some((pos, v))
                    }
                    None => None,
                }
            }
            Ex::Not(e) => {
                self.suppress += 1;
                let r = self.eval(e, pos, false, scope);
                self.suppress -= 1;
                match r {
                    Some(_) => {
                        self.probe(5);
                        None
                    }
                    None => Some((pos, Val::Unit)),
                }
            }
            Ex::Seq(els, act) => self.seq(els, *act, pos, pos, scope, &mut vec![]),
            Ex::Slice(e) => match self.eval(e, pos, false, scope) {
                Some((p, _)) => Some((p, Val::Slice(self.env.slice(pos, p)))),
                None => None,
            },
            Ex::Position => Some((pos, Val::Num(pos as u64))),
            Ex::Quiet(e) => {
                self.suppress += 1;
                let r = self.eval(e, pos, used, scope);
                self.suppress -= 1;
                r
            }
            Ex::Expected(i) => {
                self.fail(pos, || EXPECTS[*i as usize % 4].to_string());
                None
            }
            Ex::Prec(span, levels) => self.climb(*span, levels, 0, pos, scope),
        }
    }

    fn seq(
        &mut self,
        els: &[El],
        act: Act,
        start: usize,
        pos: usize,
        scope: Scope,
        vals: &mut Vec<Val>,
    ) -> Res {
        if let Some((el, rest)) = els.split_first() {
            let (p, v) = self.eval(&el.ex, pos, el.label.is_some(), scope)?;
            return match el.label {
                Some(name) => {
                    vals.push(v.clone());
                    let link = Link {
                        name,
                        val: &v,
                        prev: scope.labels,
                    };
                    let inner = Scope {
                        labels: Some(&link),
                        params: scope.params,
                    };
                    self.seq(rest, act, start, p, inner, vals)
                }
                None => self.seq(rest, act, start, p, scope, vals),
            };
        }
        let kids = std::mem::take(vals);
        match act {
            Act::None => Some((pos, Val::Unit)),
            Act::Plain(id) => Some((pos, self.env.action(id, kids))),
            Act::Cond(id) => match self.env.cond(id, kids) {
                Ok(v) => Some((pos, v)),
                Err(what) => {
                    if pos != start {
                        self.probe(6);
                    }
                    self.fail(pos, || what.to_string());
                    None
                }
            },
        }
    }

    /// Precedence climbing. `min` is the lowest level an operator may have.
    fn climb(
        &mut self,
        span: Option<u32>,
        levels: &[Vec<Op>],
        min: usize,
        pos: usize,
        scope: Scope,
    ) -> Res {
        if min > 0 {
            self.probe(15);
        }
        // prefix operators and atoms, in the order they are written
        let mut left = None;
        // The span-capture operator is written as a level of its own, so it shifts
        // the numbers the trace shows (nothing else depends on them).
        let shift = span.is_some() as usize;
        'atoms: for (prec, level) in levels.iter().enumerate() {
            let prec = prec + shift;
            for op in level {
                let n = op.els.len();
                if matches!(op.els[0], OpEl::Marker(..)) {
                    continue; // infix or postfix
                }
                if let OpEl::Marker(paren, label) = &op.els[n - 1] {
                    let right = (if *paren { prec } else { prec + 1 }, *label);
                    left = self.operator(
                        span, levels, &op.els[..n - 1], None, Some(right), op.act, pos, pos, scope,
                    );
                } else {
                    left = self.operator(
                        span, levels, &op.els, None, None, op.act, pos, pos, scope,
                    );
                }
                if left.is_some() {
                    break 'atoms;
                }
            }
        }
        let (mut at, mut value) = left?;
        self.say(|_| format!("Entering level {}", min));
        // infix and postfix operators of high enough level, repeatedly
        'grow: loop {
            for (prec, level) in levels.iter().enumerate() {
                let prec = prec + shift;
                if prec < min {
                    continue;
                }
                for op in level {
                    let n = op.els.len();
                    let llabel = match &op.els[0] {
                        OpEl::Marker(_, l) => *l,
                        _ => continue,
                    };
                    let lhs = Some((llabel, value.clone()));
                    let r = match &op.els[n - 1] {
                        OpEl::Marker(rparen, rlabel) if n >= 3 => {
                            let right = (if *rparen { prec } else { prec + 1 }, *rlabel);
                            self.operator(
                                span,
                                levels,
                                &op.els[1..n - 1],
                                lhs,
                                Some(right),
                                op.act,
                                at,
                                pos,
                                scope,
                            )
                        }
                        _ => {
                            let r = self.operator(
                                span, levels, &op.els[1..], lhs, None, op.act, at, pos, scope,
                            );
                            if r.is_some() {
                                self.probe(14);
                            }
                            r
                        }
                    };
                    if let Some((p, v)) = r {
                        at = p;
                        value = v;
                        continue 'grow;
                    }
                }
            }
            break;
        }
        self.say(|_| format!("Leaving level {}", min));
        Some((at, value))
    }

    /// One operator form: its elements, then (if any) the right operand, then
    /// the action on all labelled values.
    #[allow(clippy::too_many_arguments)]
    fn operator(
        &mut self,
        span: Option<u32>,
        levels: &[Vec<Op>],
        els: &[OpEl],
        lhs: Option<(Option<u32>, Val)>,
        right: Option<(usize, Option<u32>)>,
        act: u32,
        pos: usize,
        lpos: usize,
        scope: Scope,
    ) -> Res {
        let mut kids = vec![];
        let infix = lhs.is_some();
        if let Some((Some(_), v)) = lhs {
            kids.push(v);
        }
        let list: Vec<&El> = els
            .iter()
            .map(|e| match e {
                OpEl::El(el) => el,
                OpEl::Marker(..) => unreachable!("marker inside operator"),
            })
            .collect();
        let (p, mut kids) = self.elements(&list, pos, scope, kids)?;
        let mut end = p;
        if let Some((min, label)) = right {
            let c = self.env.chain.get();
            if c != 0 {
                self.env.chain.set(mix(&[c, min as u64]));
            }
            let right = self.climb(span, levels, min, p, scope);
            self.env.chain.set(c);
            match right {
                Some((q, v)) => {
                    end = q;
                    if label.is_some() {
                        kids.push(v);
                    }
                }
                None => {
                    self.probe(if infix { 12 } else { 13 });
                    return None;
                }
            }
        }
        let mut v = self.env.action(act, kids);
        if let Some(wrap) = span {
            v = self
                .env
                .action(wrap, vec![Val::Num(lpos as u64), v, Val::Num(end as u64)]);
        }
        Some((end, v))
    }

    fn elements(
        &mut self,
        els: &[&El],
        pos: usize,
        scope: Scope,
        mut kids: Vec<Val>,
    ) -> Option<(usize, Vec<Val>)> {
        match els.split_first() {
            None => Some((pos, kids)),
            Some((el, rest)) => {
                let (p, v) = self.eval(&el.ex, pos, el.label.is_some(), scope)?;
                match el.label {
                    Some(name) => {
                        kids.push(v.clone());
                        let link = Link {
                            name,
                            val: &v,
                            prev: scope.labels,
                        };
                        let inner = Scope {
                            labels: Some(&link),
                            params: scope.params,
                        };
                        self.elements(rest, p, inner, kids)
                    }
                    None => self.elements(rest, p, scope, kids),
                }
            }
        }
    }
}
