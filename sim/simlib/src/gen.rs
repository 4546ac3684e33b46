//! Seeded generation of grammars (accepted by the macro and terminating: every
//! unbounded loop and every recursion consumes input) and of fault plans.

use crate::ast::*;
use crate::env::{Fault, Plan, Planned, ALPHABET};
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Profile {
    pub name: &'static str,
    /// number of grammars in the corpus
    pub grammars: usize,
    pub candidates: usize,
    pub rules: (usize, usize),
    pub depth: usize,
    /// percentages per rule
    pub cache: usize,
    pub leftrec: usize,
    pub prec: usize,
    pub params: usize,
    /// weight multipliers
    pub w_quiet: u32,
    pub w_ahead: u32,
    pub w_expected: u32,
    pub w_cb: u32,
    pub str_pct: usize,
    pub lt_pct: usize,
    /// also emit each memoising grammar without memoisation (odd indexes)
    pub twins: bool,
    /// mark the entry of every rule
    pub enter_all: bool,
    /// conditional blocks take part
    pub cache_all: bool,
}

pub const PROFILES: [&str; 7] = ["mixed", "core", "prec", "memo", "leftrec", "errors", "bounded"];

pub fn profile(name: &str) -> Profile {
    let base = Profile {
        name: "mixed",
        grammars: 96,
        candidates: 1500,
        rules: (2, 6),
        depth: 4,
        cache: 20,
        leftrec: 12,
        prec: 12,
        params: 22,
        w_quiet: 1,
        w_ahead: 1,
        w_expected: 1,
        w_cb: 1,
        str_pct: 22,
        lt_pct: 10,
        twins: false,
        enter_all: false,
        cache_all: false,
    };
    match name {
        "mixed" => base,
        "core" => Profile {
            name: "core",
            grammars: 160,
            candidates: 3000,
            cache: 6,
            leftrec: 3,
            prec: 4,
            params: 30,
            ..base
        },
        "prec" => Profile {
            name: "prec",
            grammars: 110,
            rules: (2, 4),
            depth: 3,
            cache: 8,
            leftrec: 0,
            prec: 100,
            params: 10,
            ..base
        },
        "memo" => Profile {
            name: "memo",
            grammars: 60,
            cache: 75,
            leftrec: 0,
            prec: 6,
            params: 12,
            w_ahead: 3,
            twins: true,
            ..base
        },
        "leftrec" => Profile {
            name: "leftrec",
            grammars: 110,
            rules: (2, 5),
            depth: 3,
            cache: 15,
            leftrec: 100,
            prec: 4,
            params: 8,
            ..base
        },
        "errors" => Profile {
            name: "errors",
            grammars: 150,
            candidates: 2500,
            w_quiet: 4,
            w_ahead: 4,
            w_expected: 4,
            w_cb: 2,
            cache: 10,
            leftrec: 5,
            prec: 8,
            ..base
        },
        "bounded" => Profile {
            name: "bounded",
            grammars: 110,
            cache: 30,
            cache_all: true,
            leftrec: 20,
            enter_all: true,
            ..base
        },
        _ => panic!("unknown profile {}", name),
    }
}

/// Corpus: chosen greedily from many candidates so that combinations of forms
/// (parent, child, result used or not) are covered as evenly as possible.
pub fn corpus(seed: u64, prof: &Profile) -> Vec<Grammar> {
    let mut cands: Vec<(Grammar, BTreeMap<u64, u32>)> = vec![];
    for i in 0..prof.candidates {
        let g = grammar(mix(&[seed, 1, i as u64]), prof);
        let mut shp = BTreeMap::new();
        shapes(&g, &mut shp);
        cands.push((g, shp));
    }
    let n = prof.grammars;
    let mut have: BTreeMap<u64, u32> = BTreeMap::new();
    let mut out = vec![];
    let mut rng = Rng::new(mix(&[seed, 2]));
    while out.len() < n && !cands.is_empty() {
        // best of a random sample
        let mut best = 0;
        let mut best_score = -1.0f64;
        for _ in 0..60 {
            let i = rng.below(cands.len());
            let (g, s) = &cands[i];
            let mut size = 0u32;
            let mut score = 0.0;
            for (k, c) in s {
                let seen = *have.get(k).unwrap_or(&0);
                score += 1.0 / (1.0 + seen as f64) / (1.0 + seen as f64);
                if *k < 1 << 40 {
                    size += *c;
                }
            }
            let _ = g;
            let score = score / (10.0 + size as f64);
            if score > best_score {
                best_score = score;
                best = i;
            }
        }
        let (g, s) = cands.swap_remove(best);
        for (k, c) in s {
            *have.entry(k).or_insert(0) += c;
        }
        if prof.twins {
            let twin = g.uncached();
            out.push(g);
            out.push(twin);
        } else {
            out.push(g);
        }
    }
    out
}

struct Gen<'a> {
    r: Rng,
    p: &'a Profile,
    next_id: u32,
    next_label: u32,
    rets: Vec<bool>,
    params: Vec<Vec<ParamTy>>,
    caches: Vec<Cache>,
    /// rule always consumes when it matches; None: not generated yet
    nonnull: Vec<Option<bool>>,
    budget: i32,
    /// how many of its literals are long
    long_pct: usize,
}

#[derive(Clone)]
struct Ctx {
    rule: usize,
    used: bool,
    depth: usize,
    /// input has been consumed since the rule was entered
    consumed: bool,
    labels: Vec<u32>,
    /// no calls at all to rules <= rule even after consuming (used in arguments)
    in_arg: bool,
}

pub fn grammar(seed: u64, p: &Profile) -> Grammar {
    let mut r = Rng::new(seed);
    let n = r.range(p.rules.0, p.rules.1);
    let mut g = Gen {
        p,
        next_id: 1,
        next_label: 0,
        rets: vec![],
        params: vec![],
        caches: vec![],
        nonnull: vec![None; n],
        budget: 0,
        long_pct: 1,
        r: r.clone(),
    };
    let input = if r.chance(p.str_pct) {
        Input::Str
    } else if r.chance(p.str_pct) {
        Input::Bytes
    } else if r.chance(p.lt_pct) {
        Input::DeviceLt
    } else {
        Input::Device
    };
    if r.chance(if input == Input::Bytes { 40 } else { 15 }) {
        g.long_pct = 20;
    }
    let underscore = n > 2 && g.r.chance(25);
    let mut names = vec![];
    let mut lr_pair_second = vec![false; n + 1];
    for i in 0..n {
        let mut ret = i == 0 || g.r.chance(75);
        let mut params = vec![];
        let mut cache = Cache::No;
        let mut name = format!("r{}", i);
        if underscore && i == n - 1 {
            name = ["_", "__", "___"][g.r.below(3)].to_string();
            ret = g.r.chance(40);
            if g.r.chance(p.cache) {
                cache = Cache::Simple;
            }
        } else if lr_pair_second[i] {
            ret = true;
            cache = Cache::LeftRec;
        } else if g.r.chance(p.leftrec) && i + 1 < n {
            ret = true;
            cache = Cache::LeftRec;
            if i + 2 < n && g.r.chance(35) {
                lr_pair_second[i + 1] = true;
            }
        } else if i > 0 && g.r.chance(p.params) {
            let k = g.r.range(1, 2);
            for _ in 0..k {
                params.push(match g.r.below(6) {
                    0 | 1 => ParamTy::Rule(true),
                    2 => ParamTy::Rule(false),
                    3 => ParamTy::Gen,
                    _ => ParamTy::Num,
                });
            }
        } else if g.r.chance(p.cache) || p.cache_all {
            cache = Cache::Simple;
        }
        names.push(name);
        g.rets.push(ret);
        g.params.push(params);
        g.caches.push(cache);
    }
    let mut bodies: Vec<Option<Ex>> = vec![None; n];
    let mut i = n;
    while i > 0 {
        i -= 1;
        if g.caches[i] == Cache::LeftRec && lr_pair_second[i] {
            continue; // made together with its partner
        }
        if g.caches[i] == Cache::LeftRec {
            if lr_pair_second[i + 1] {
                let (a, b) = g.mutual(i);
                bodies[i] = Some(a);
                bodies[i + 1] = Some(b);
            } else {
                bodies[i] = Some(g.direct(i));
            }
            continue;
        }
        bodies[i] = Some(g.rule_body(i));
    }
    let rules = (0..n)
        .map(|i| {
            let mut body = bodies[i].take().unwrap();
            if g.caches[i] != Cache::No || p.enter_all {
                body = g.marked(i, body);
            }
            Rule {
                name: names[i].clone(),
                ret: g.rets[i],
                params: g.params[i].clone(),
                cache: g.caches[i],
                body,
            }
        })
        .collect();
    let mut g = Grammar {
        rules,
        input,
        note: format!("seed {}", seed),
    };
    if input == Input::Bytes {
        g.for_bytes()
    }
    g
}

impl<'a> Gen<'a> {
    fn id(&mut self) -> u32 {
        self.next_id += 1;
        self.next_id
    }
    fn label(&mut self) -> u32 {
        self.next_label += 1;
        self.next_label
    }

    fn ctx(&self, rule: usize, used: bool) -> Ctx {
        Ctx {
            rule,
            used,
            depth: self.p.depth,
            consumed: false,
            labels: vec![],
            in_arg: false,
        }
    }

    /// Put an entry marker in front of a rule body.
    fn marked(&mut self, rule: usize, body: Ex) -> Ex {
        if self.rets[rule] {
            let l = self.label();
            let id = self.id();
            Ex::Seq(
                vec![
                    El {
                        label: None,
                        ex: Ex::Enter(rule),
                    },
                    El {
                        label: Some(l),
                        ex: body,
                    },
                ],
                Act::Plain(id),
            )
        } else {
            Ex::Seq(
                vec![
                    El {
                        label: None,
                        ex: Ex::Enter(rule),
                    },
                    El {
                        label: None,
                        ex: body,
                    },
                ],
                Act::None,
            )
        }
    }

    fn rule_body(&mut self, i: usize) -> Ex {
        self.budget = 26;
        let used = self.rets[i];
        let ctx = self.ctx(i, used);
        let e = if self.p.prec > 0 && used && self.r.chance(self.p.prec) {
            self.prec(&ctx)
        } else {
            self.gen(&ctx)
        };
        let e = if used {
            self.as_val(e, &ctx)
        } else {
            self.as_unit(e, &ctx)
        };
        // arguments are often used after the rule has consumed something
        let e = match self.combinator(i) {
            Some(c) if used => Ex::Choice(vec![c, e]),
            Some(c) => {
                let c = self.as_unit(c, &ctx);
                Ex::Choice(vec![c, e])
            }
            None => e,
        };
        // a choice at the top of most rules, so that backtracking is common
        let e = if self.r.chance(35) && !matches!(e, Ex::Choice(_)) {
            let f = self.gen(&ctx);
            let f = if used {
                self.as_val(f, &ctx)
            } else {
                self.as_unit(f, &ctx)
            };
            Ex::Choice(vec![e, f])
        } else {
            e
        };
        self.nonnull[i] = Some(self.nonnull(&e));
        e
    }

    /// Terminals around the arguments of rule `i`.
    fn combinator(&mut self, i: usize) -> Option<Ex> {
        let ps: Vec<usize> = (0..self.params[i].len())
            .filter(|&k| self.params[i][k] != ParamTy::Num)
            .collect();
        if ps.is_empty() || !self.r.chance(60) {
            return None;
        }
        let mut els = vec![];
        if self.r.chance(80) {
            els.push(El {
                label: None,
                ex: self.lit_nonempty(),
            });
        }
        for _ in 0..self.r.range(1, 3) {
            let k = ps[self.r.below(ps.len())];
            let x = Ex::Param(k, self.params[i][k] == ParamTy::Gen);
            let label = if self.r.chance(80) { Some(self.label()) } else { None };
            els.push(El { label, ex: x });
            if self.r.chance(30) {
                els.push(El {
                    label: None,
                    ex: self.lit_nonempty(),
                });
            }
        }
        Some(Ex::Seq(els, Act::Plain(self.id())))
    }

    fn direct(&mut self, i: usize) -> Ex {
        self.budget = 30;
        let mut alts = vec![];
        for _ in 0..self.r.range(1, 2) {
            alts.push(self.lr_alt(i, i));
        }
        let mut nn = true;
        for _ in 0..self.r.range(1, 2) {
            let ctx = self.ctx(i, true);
            let e = self.gen(&ctx);
            let e = self.as_val(e, &ctx);
            nn = nn && self.nonnull(&e);
            alts.push(e);
        }
        if self.r.chance(15) {
            let k = alts.len() - 1;
            alts.swap(0, k);
        }
        self.nonnull[i] = Some(nn);
        Ex::Choice(alts)
    }

    fn lr_alt(&mut self, rule: usize, target: usize) -> Ex {
        let mut els = vec![];
        if self.r.chance(15) {
            let s = self.lit();
            els.push(El {
                label: None,
                ex: Ex::Opt(Box::new(s)),
            });
        }
        let l = self.label();
        els.push(El {
            label: Some(l),
            ex: Ex::Call(target, vec![]),
        });
        let mut ctx = self.ctx(rule, true);
        ctx.depth = 2;
        if self.r.chance(75) {
            let op = self.lit();
            els.push(El { label: None, ex: op });
            ctx.consumed = true;
        }
        for _ in 0..self.r.range(0, 2) {
            self.push_el(&mut els, &mut ctx);
        }
        let id = self.id();
        let act = if self.r.chance(25) {
            Act::Cond(id)
        } else {
            Act::Plain(id)
        };
        Ex::Seq(els, act)
    }

    fn mutual(&mut self, i: usize) -> (Ex, Ex) {
        self.budget = 30;
        let mk = |g: &mut Self, me: usize, other: usize| {
            let mut alts = vec![g.lr_alt(me, other)];
            if g.r.chance(30) {
                alts.push(g.lr_alt(me, me));
            }
            // base alternatives may only call rules after the pair
            let ctx = g.ctx(i + 1, true);
            let e = g.gen(&ctx);
            alts.push(g.as_val(e, &ctx));
            Ex::Choice(alts)
        };
        let a = mk(self, i, i + 1);
        let b = mk(self, i + 1, i);
        self.nonnull[i] = Some(false);
        self.nonnull[i + 1] = Some(false);
        (a, b)
    }

    fn as_val(&mut self, e: Ex, ctx: &Ctx) -> Ex {
        if ty(&e, ctx.used) == Ty::Val {
            return e;
        }
        // wrap in an action
        let id = self.id();
        let usable = usable(&e, &self.rets);
        if usable && !matches!(e, Ex::Lit(_)) && ty(&e, true) != Ty::Any && ctx.used {
            let l = self.label();
            return Ex::Seq(
                vec![El {
                    label: Some(l),
                    ex: e,
                }],
                Act::Plain(id),
            );
        }
        if ctx.used {
            let e = Ex::Slice(Box::new(self.unused(e)));
            let l = self.label();
            Ex::Seq(
                vec![El {
                    label: Some(l),
                    ex: e,
                }],
                Act::Plain(id),
            )
        } else {
            let e = self.unused(e);
            Ex::Seq(vec![El { label: None, ex: e }], Act::Plain(id))
        }
    }

    /// Make an expression fit where its result is not used.
    fn unused(&mut self, e: Ex) -> Ex {
        match e {
            Ex::Expected(_) => Ex::Lit("a".into()),
            Ex::Choice(es) => {
                let es: Vec<Ex> = es.into_iter().map(|e| self.unused_branch(e)).collect();
                Ex::Choice(es)
            }
            Ex::Opt(e) => Ex::Opt(Box::new(self.unused(*e))),
            Ex::Rep(e, b, s) => Ex::Rep(Box::new(self.unused(*e)), b, s),
            Ex::Ahead(e) => Ex::Ahead(Box::new(self.unused(*e))),
            Ex::Quiet(e) => Ex::Quiet(Box::new(self.unused(*e))),
            e => e,
        }
    }

    fn unused_branch(&mut self, e: Ex) -> Ex {
        if let Ex::Expected(_) = e {
            return e;
        }
        let e = self.unused(e);
        if ty(&e, false) == Ty::Unit {
            e
        } else {
            unit_wrap(e)
        }
    }

    fn as_unit(&mut self, e: Ex, ctx: &Ctx) -> Ex {
        debug_assert!(!ctx.used);
        match ty(&e, false) {
            Ty::Unit => e,
            Ty::Any => Ex::Lit("b".into()),
            _ => unit_wrap(e),
        }
    }

    fn lit(&mut self) -> Ex {
        if self.r.chance(self.long_pct) {
            return self.long_lit();
        }
        let s = match self.r.below(12) {
            0..=6 => ALPHABET[self.r.below(ALPHABET.len())].to_string(),
            7 => "ab".into(),
            8 => "ba".into(),
            9 => "+é".into(),
            10 => "a".into(),
            _ => "b".into(),
        };
        Ex::Lit(s)
    }

    /// A keyword longer than a machine word, some of which differ near the end only.
    fn long_lit(&mut self) -> Ex {
        let n = match self.r.below(8) {
            0..=3 => self.r.range(3, 10),
            4..=6 => self.r.range(8, 40),
            _ => self.r.range(30, 90),
        };
        let mut cs: Vec<char> = "abcdab+dcba*(d)b-".chars().cycle().take(n).collect();
        if self.r.chance(50) {
            let k = if self.r.chance(70) { n - 1 } else { self.r.below(n) };
            cs[k] = ALPHABET[self.r.below(ALPHABET.len())];
        }
        Ex::Lit(cs.into_iter().collect())
    }

    fn pat(&mut self) -> Ex {
        let neg = self.r.chance(25);
        if self.r.chance(18) {
            let id = self.id();
            return Ex::Pat(Pat {
                bytes: false,
                set: vec![],
                neg,
                guard: Some(id),
            });
        }
        let mut set = vec![];
        for _ in 0..self.r.range(1, 2) {
            set.push(match self.r.below(5) {
                0 => ('a', 'c'),
                1 => ('a', 'd'),
                2 => ('b', 'd'),
                _ => {
                    let c = ALPHABET[self.r.below(ALPHABET.len())];
                    (c, c)
                }
            });
        }
        Ex::Pat(Pat {
                bytes: false,
            set,
            neg,
            guard: None,
        })
    }

    fn leaf(&mut self, ctx: &Ctx) -> Ex {
        loop {
            let cb = self.p.w_cb * 2;
            match self
                .r
                .weighted(&[10, 8, cb, cb / 2 + 1, 2, 4, 4, 1])
            {
                0 => return self.lit(),
                1 => return self.pat(),
                2 => {
                    let id = self.id();
                    return if self.r.chance(70) {
                        Ex::Custom(CbKind::Consume, id)
                    } else {
                        Ex::Custom(CbKind::Zero, id)
                    };
                }
                3 => {
                    let id = self.id();
                    return if self.r.chance(70) {
                        Ex::Method(CbKind::Consume, id)
                    } else {
                        Ex::Method(CbKind::Zero, id)
                    };
                }
                4 => return Ex::Position,
                5 => {
                    if let Some(e) = self.call(ctx) {
                        return e;
                    }
                }
                6 => {
                    // a parameter of the rule
                    let ps: Vec<usize> = self.params[ctx.rule]
                        .iter()
                        .enumerate()
                        .filter(|(_, p)| !matches!(p, ParamTy::Num))
                        .map(|(i, _)| i)
                        .collect();
                    if !ps.is_empty() {
                        let i = ps[self.r.below(ps.len())];
                        return Ex::Param(i, self.params[ctx.rule][i] == ParamTy::Gen);
                    }
                }
                _ => return Ex::Lit(String::new()),
            }
        }
    }

    fn call(&mut self, ctx: &Ctx) -> Option<Ex> {
        let n = self.rets.len();
        let mut cands = vec![];
        for j in 0..n {
            if ctx.used && !self.rets[j] {
                continue;
            }
            if j > ctx.rule {
                cands.push(j);
                cands.push(j);
            } else if ctx.consumed && !ctx.in_arg && self.params[j].is_empty() {
                cands.push(j);
            }
        }
        if cands.is_empty() {
            return None;
        }
        let j = cands[self.r.below(cands.len())];
        let mut args = vec![];
        for p in self.params[j].clone() {
            args.push(match p {
                ParamTy::Num => Arg::Num(self.num(ctx)),
                ParamTy::Gen => {
                    let mut c = ctx.clone();
                    c.used = true;
                    c.depth = ctx.depth.min(2);
                    c.in_arg = true;
                    let e = match self.r.below(8) {
                        0 | 1 => Ex::Position,
                        2 => self.lit(),
                        3 => self.pat(),
                        4 => {
                            let e = self.gen(&c);
                            let e = self.unused(e);
                            Ex::Slice(Box::new(e))
                        }
                        _ => self.gen(&c),
                    };
                    if ty(&e, true) == Ty::Any || !usable(&e, &self.rets) {
                        Arg::Rule(Ex::Position)
                    } else {
                        Arg::Rule(e)
                    }
                }
                ParamTy::Rule(nn) => {
                    let mut c = ctx.clone();
                    c.used = true;
                    c.depth = ctx.depth.min(2);
                    c.in_arg = true;
                    let e = self.gen(&c);
                    let mut e = self.as_val(e, &c);
                    if nn && !self.nonnull(&e) {
                        let (l, id) = (self.label(), self.id());
                        e = Ex::Seq(
                            vec![
                                El {
                                    label: Some(l),
                                    ex: e,
                                },
                                El {
                                    label: None,
                                    ex: self.lit_nonempty(),
                                },
                            ],
                            Act::Plain(id),
                        );
                    }
                    Arg::Rule(e)
                }
            });
        }
        Some(Ex::Call(j, args))
    }

    fn lit_nonempty(&mut self) -> Ex {
        self.lit()
    }

    fn num(&mut self, ctx: &Ctx) -> Num {
        let ps: Vec<usize> = self.params[ctx.rule]
            .iter()
            .enumerate()
            .filter(|(_, p)| matches!(p, ParamTy::Num))
            .map(|(i, _)| i)
            .collect();
        match self.r.below(10) {
            0 if self.r.chance(20) => Num::Const(self.r.range(200, 300)),
            0..=3 => Num::Const(self.r.range(0, 3)),
            4 | 5 => {
                let id = self.id();
                Num::Env(id)
            }
            6 | 7 if !ctx.labels.is_empty() => {
                Num::Label(ctx.labels[self.r.below(ctx.labels.len())])
            }
            _ if !ps.is_empty() => Num::Param(ps[self.r.below(ps.len())]),
            _ => Num::Const(self.r.range(1, 3)),
        }
    }

    fn gen(&mut self, ctx: &Ctx) -> Ex {
        self.budget -= 1;
        if ctx.depth == 0 || self.budget <= 0 {
            return self.leaf(ctx);
        }
        let mut sub = ctx.clone();
        sub.depth -= 1;
        let w = [
            8,                    // leaf
            9,                    // seq with action
            6,                    // seq without action
            9,                    // choice
            4,                    // optional
            8,                    // repeat
            2 * self.p.w_ahead,   // &
            2 * self.p.w_ahead,   // !
            3,                    // slice
            2 * self.p.w_quiet,   // quiet
            4,                    // call
            1,                    // precedence
            7,                    // idiom
        ];
        match self.r.weighted(&w) {
            0 => self.leaf(ctx),
            1 => {
                let els = self.seq_els(&sub);
                let id = self.id();
                let act = if self.r.chance(30) {
                    Act::Cond(id)
                } else {
                    Act::Plain(id)
                };
                Ex::Seq(els, act)
            }
            2 => {
                let els = self.seq_els(&sub);
                if els.len() == 1 {
                    // a single element without action is just the element
                    let el = els.into_iter().next().unwrap();
                    let e = self.unused(el.ex);
                    unit_wrap(e)
                } else {
                    Ex::Seq(els, Act::None)
                }
            }
            3 => {
                let n = self.r.range(2, 4);
                let val = self.r.chance(if ctx.used { 65 } else { 30 });
                let mut es = vec![];
                for _ in 0..n {
                    let e = self.gen(&sub);
                    let e = if val {
                        self.as_val(e, &sub)
                    } else if ctx.used {
                        // common type of used branches: unit
                        if ty(&e, true) == Ty::Unit {
                            e
                        } else {
                            let e = self.unused(e);
                            unit_wrap(e)
                        }
                    } else {
                        self.unused_branch(e)
                    };
                    es.push(e);
                }
                if self.r.chance(8 * self.p.w_expected as usize) {
                    let id = self.r.below(4) as u32;
                    if self.r.chance(30) {
                        es.insert(1, Ex::Expected(id));
                    } else {
                        es.push(Ex::Expected(id));
                    }
                }
                Ex::Choice(es)
            }
            4 => {
                let e = self.gen(&sub);
                if ty(&e, ctx.used) == Ty::Any {
                    return self.leaf(ctx);
                }
                Ex::Opt(Box::new(e))
            }
            5 => self.repeat(&sub),
            6 => {
                let e = self.gen(&sub);
                if ty(&e, ctx.used) == Ty::Any {
                    return self.leaf(ctx);
                }
                Ex::Ahead(Box::new(e))
            }
            7 => {
                let mut s = sub.clone();
                s.used = false;
                let e = self.gen(&s);
                if ty(&e, false) == Ty::Any {
                    return self.leaf(ctx);
                }
                Ex::Not(Box::new(e))
            }
            8 => {
                let mut s = sub.clone();
                s.used = false;
                let e = self.gen(&s);
                if ty(&e, false) == Ty::Any {
                    return self.leaf(ctx);
                }
                Ex::Slice(Box::new(e))
            }
            9 => {
                let e = self.gen(&sub);
                if ty(&e, ctx.used) == Ty::Any {
                    return self.leaf(ctx);
                }
                Ex::Quiet(Box::new(e))
            }
            10 => match self.call(ctx) {
                Some(e) => e,
                None => self.leaf(ctx),
            },
            12 => self.idiom(&sub),
            _ => {
                if self.p.prec > 0 && self.r.chance(60) {
                    self.prec(&sub)
                } else {
                    self.leaf(ctx)
                }
            }
        }
    }

    /// A literal of a small family whose members start alike.
    fn family(&mut self) -> Ex {
        if self.r.chance(self.long_pct) {
            return self.long_lit();
        }
        Ex::Lit((*self.r.pick(&["a", "ab", "aba", "b", "ba", "bab", "+", "+é", "+é+", "é", "(", "((", "-", "--"])).into())
    }

    fn set(&mut self) -> Ex {
        loop {
            let e = self.pat();
            if let Ex::Pat(Pat { guard: None, .. }) = e {
                return e;
            }
        }
    }

    /// Forms that people write by hand, made of like parts.
    fn idiom(&mut self, ctx: &Ctx) -> Ex {
        let term = |g: &mut Gen| if g.r.chance(50) { g.family() } else { g.set() };
        let lits = |g: &mut Gen| {
            let n = if g.r.chance(6) { g.r.range(9, 40) } else { g.r.range(2, 6) };
            Ex::Choice((0..n).map(|_| g.family()).collect())
        };
        let sets = |g: &mut Gen| {
            let n = g.r.range(2, 4);
            Ex::Choice((0..n).map(|_| g.set()).collect())
        };
        let alike = |g: &mut Gen| match g.r.below(4) {
            0 => lits(g),
            1 => sets(g),
            2 => g.set(),
            _ => g.family(),
        };
        let many = |g: &mut Gen, e: Ex, sep: Option<Ex>| {
            let b = match g.r.below(6) {
                0..=2 => Bound::Star,
                3 | 4 => Bound::Plus,
                _ => Bound::Range(Some(g.num(ctx)), Some(g.num(ctx))),
            };
            Ex::Rep(Box::new(e), b, sep.map(Box::new))
        };
        let el = |ex| El { label: None, ex };
        match self.r.below(16) {
            0 | 1 => lits(self),
            2 => sets(self),
            3 => {
                let e = alike(self);
                many(self, e, None)
            }
            4 => {
                let (e, s) = (alike(self), alike(self));
                many(self, e, Some(s))
            }
            5 => {
                let e = alike(self);
                let e = self.unused(e);
                let e = many(self, e, None);
                Ex::Slice(Box::new(e))
            }
            6 => {
                let (a, b) = (self.set(), self.set());
                let b = many(self, b, None);
                Ex::Slice(Box::new(Ex::Seq(vec![el(a), el(b)], Act::None)))
            }
            7 => {
                // anything up to a terminator
                let stop = alike(self);
                let stop = self.unused(stop);
                let l = self.label();
                let id = self.id();
                let any = self.set();
                let body = Ex::Seq(
                    vec![
                        el(Ex::Not(Box::new(stop))),
                        El {
                            label: Some(l),
                            ex: any,
                        },
                    ],
                    Act::Plain(id),
                );
                many(self, body, None)
            }
            8 => {
                // alternatives that start alike
                let n = self.r.range(2, 4);
                let mut c = ctx.clone();
                c.used = true;
                c.depth = c.depth.min(1);
                let mut first = self.gen(&c);
                if matches!(first, Ex::Lit(_)) {
                    // (a label on a bare literal binds nothing)
                    first = Ex::Slice(Box::new(first));
                }
                if ty(&first, true) == Ty::Any || !usable(&first, &self.rets) {
                    first = self.set();
                }
                let es = (0..n)
                    .map(|k| {
                        let mut els = vec![El {
                            label: Some(self.label()),
                            ex: first.clone(),
                        }];
                        if k + 1 < n || self.r.chance(40) {
                            let t = term(self);
                            let t = self.unused(t);
                            els.push(el(t));
                        }
                        let id = self.id();
                        Ex::Seq(els, if self.r.chance(20) { Act::Cond(id) } else { Act::Plain(id) })
                    })
                    .collect();
                Ex::Choice(es)
            }
            9 => {
                let e = alike(self);
                let e = self.unused(e);
                match self.r.below(4) {
                    0 => Ex::Not(Box::new(Ex::Not(Box::new(e)))),
                    1 => Ex::Not(Box::new(Ex::Ahead(Box::new(e)))),
                    2 => Ex::Not(Box::new(Ex::Quiet(Box::new(e)))),
                    _ => Ex::Quiet(Box::new(Ex::Not(Box::new(e)))),
                }
            }
            10 => {
                let e = alike(self);
                Ex::Opt(Box::new(e))
            }
            11 => {
                // a named token
                let e = alike(self);
                let e = self.unused(e);
                let e = many(self, e, None);
                let id = self.r.below(4) as u32;
                Ex::Choice(vec![
                    Ex::Quiet(Box::new(Ex::Slice(Box::new(e)))),
                    Ex::Expected(id),
                ])
            }
            12 => {
                let n = self.r.range(2, 4);
                let els = (0..n)
                    .map(|_| {
                        let t = term(self);
                        el(self.unused(t))
                    })
                    .collect();
                Ex::Seq(els, Act::None)
            }
            13 => {
                // a token with its span
                let e = alike(self);
                let e = self.unused(e);
                let e = if self.r.chance(50) { many(self, e, None) } else { e };
                let els = [Ex::Position, Ex::Slice(Box::new(e)), Ex::Position]
                    .into_iter()
                    .map(|ex| El {
                        label: Some(self.label()),
                        ex,
                    })
                    .collect();
                let id = self.id();
                Ex::Seq(els, Act::Plain(id))
            }
            14 => {
                // a list in delimiters, with a trailing separator
                let (e, s) = (alike(self), self.family());
                let l = self.label();
                let list = many(self, e, Some(s.clone()));
                let (open, close) = (self.family(), self.family());
                let id = self.id();
                Ex::Seq(
                    vec![
                        el(open),
                        El {
                            label: Some(l),
                            ex: list,
                        },
                        el(Ex::Opt(Box::new(s))),
                        el(close),
                    ],
                    Act::Plain(id),
                )
            }
            _ => {
                // a chain of calls
                let n = self.r.range(2, 3);
                let mut es = vec![];
                for _ in 0..n {
                    if let Some(e) = self.call(ctx) {
                        es.push(e)
                    }
                }
                if es.is_empty() {
                    return lits(self);
                }
                if ctx.used && es.iter().any(|e| !usable(e, &self.rets)) {
                    return lits(self);
                }
                if !ctx.used {
                    es = es.into_iter().map(|e| self.unused_branch(e)).collect();
                }
                Ex::Choice(es)
            }
        }
    }

    fn push_el(&mut self, els: &mut Vec<El>, ctx: &mut Ctx) {
        let want = self.r.chance(55);
        let mut c = ctx.clone();
        c.used = want;
        let e = self.gen(&c);
        if ty(&e, want) == Ty::Any {
            return;
        }
        let label = if want && usable(&e, &self.rets) && !matches!(e, Ex::Lit(_)) {
            Some(self.label())
        } else {
            None
        };
        // generated for a used result but not labelled: make it fit
        let e = if want && label.is_none() {
            self.unused(e)
        } else {
            e
        };
        if self.nonnull(&e) {
            ctx.consumed = true;
        }
        if let Some(l) = label {
            ctx.labels.push(l);
        }
        els.push(El { label, ex: e });
    }

    fn seq_els(&mut self, ctx: &Ctx) -> Vec<El> {
        let mut c = ctx.clone();
        let mut els = vec![];
        for _ in 0..self.r.range(1, 4) {
            self.push_el(&mut els, &mut c);
        }
        els
    }

    fn repeat(&mut self, ctx: &Ctx) -> Ex {
        let e = self.gen(ctx);
        let e = if ty(&e, ctx.used) == Ty::Any {
            self.lit()
        } else {
            e
        };
        let nn = self.nonnull(&e);
        let sep = if self.r.chance(35) {
            let mut s = ctx.clone();
            s.used = false;
            s.depth = s.depth.min(1);
            // the separator runs after the element; only what the element surely
            // consumed counts
            s.consumed = ctx.consumed || nn;
            let sep = self.gen(&s);
            if ty(&sep, false) == Ty::Any {
                None
            } else {
                Some(sep)
            }
        } else {
            None
        };
        let safe = nn || sep.as_ref().map_or(false, |s| self.nonnull(s));
        let b = if safe {
            match self.r.below(10) {
                0..=2 => Bound::Star,
                3 | 4 => Bound::Plus,
                5 => Bound::Exact(self.num(ctx)),
                6 => Bound::Range(Some(self.num(ctx)), None),
                7 => Bound::Range(None, Some(self.num(ctx))),
                _ => Bound::Range(Some(self.num(ctx)), Some(self.num(ctx))),
            }
        } else {
            match self.r.below(3) {
                0 => Bound::Exact(self.num(ctx)),
                1 => Bound::Range(None, Some(self.num(ctx))),
                _ => Bound::Range(Some(self.num(ctx)), Some(self.num(ctx))),
            }
        };
        Ex::Rep(Box::new(e), b, sep.map(Box::new))
    }

    fn prec(&mut self, ctx: &Ctx) -> Ex {
        let span = if self.r.chance(35) {
            Some(self.id())
        } else {
            None
        };
        let n = if self.r.chance(5) { self.r.range(5, 20) } else { self.r.range(1, 4) };
        let mut levels: Vec<Vec<Op>> = vec![];
        let ops = ["+", "*", "-", "a", "b", "ab", "+é", "c"];
        for _ in 0..n {
            let mut level = vec![];
            for _ in 0..self.r.range(1, 2) {
                level.push(self.op(ctx, &ops));
            }
            levels.push(level);
        }
        // atoms
        let mut atoms = vec![];
        for _ in 0..self.r.range(1, 2) {
            let mut els = vec![];
            let mut c = ctx.clone();
            c.depth = ctx.depth.min(2);
            for _ in 0..self.r.range(1, 2) {
                let want = els.is_empty() || self.r.chance(40);
                c.used = want;
                let e = self.leaf(&c);
                let label = if want && usable(&e, &self.rets) && !matches!(e, Ex::Lit(_)) {
                    Some(self.label())
                } else {
                    None
                };
                els.push(El { label, ex: e });
            }
            let nn = els.iter().any(|e| self.nonnull(&e.ex));
            if !nn && self.r.chance(60) {
                els.push(El {
                    label: None,
                    ex: self.lit(),
                });
            }
            if els.len() >= 2 {
                // an element that only marks a position would make the form look
                // like span capture
                if let Ex::Position = els[0].ex {
                    els[0].ex = self.pat();
                }
            }
            atoms.push(Op {
                els: els.into_iter().map(OpEl::El).collect(),
                act: self.id(),
            });
        }
        // parenthesised atom, recursing into the rule
        if self.r.chance(40) && !ctx.in_arg && self.params[ctx.rule].is_empty() && self.rets[ctx.rule]
        {
            let l = self.label();
            atoms.push(Op {
                els: vec![
                    OpEl::El(El {
                        label: None,
                        ex: Ex::Lit("(".into()),
                    }),
                    OpEl::El(El {
                        label: Some(l),
                        ex: Ex::Call(ctx.rule, vec![]),
                    }),
                    OpEl::El(El {
                        label: None,
                        ex: Ex::Lit(")".into()),
                    }),
                ],
                act: self.id(),
            });
        }
        if self.r.chance(80) {
            levels.push(atoms);
        } else {
            let k = self.r.below(levels.len());
            levels[k].extend(atoms);
        }
        Ex::Prec(span, levels)
    }

    fn op(&mut self, ctx: &Ctx, ops: &[&str]) -> Op {
        let s = ops[self.r.below(ops.len())].to_string();
        let mut mid = vec![OpEl::El(El {
            label: None,
            ex: Ex::Lit(s),
        })];
        if self.r.chance(25) {
            let mut c = ctx.clone();
            c.depth = 1;
            c.consumed = true;
            c.used = true;
            let e = self.leaf(&c);
            if usable(&e, &self.rets) && !matches!(e, Ex::Lit(_)) {
                let l = self.label();
                mid.push(OpEl::El(El {
                    label: Some(l),
                    ex: e,
                }));
            }
        }
        let l = if self.r.chance(90) {
            Some(self.label())
        } else {
            None
        };
        let r = if self.r.chance(90) {
            Some(self.label())
        } else {
            None
        };
        let mut els = vec![];
        match self.r.below(8) {
            0..=2 => {
                // infix, left associative
                els.push(OpEl::Marker(true, l));
                els.extend(mid);
                els.push(OpEl::Marker(false, r));
            }
            3 | 4 => {
                els.push(OpEl::Marker(false, l));
                els.extend(mid);
                els.push(OpEl::Marker(true, r));
            }
            5 => {
                // postfix
                els.push(OpEl::Marker(self.r.chance(30), l));
                els.extend(mid);
            }
            _ => {
                els.extend(mid);
                els.push(OpEl::Marker(self.r.chance(50), r));
            }
        }
        Op {
            els,
            act: self.id(),
        }
    }

    /// Surely consumes input whenever it matches.
    fn nonnull(&self, e: &Ex) -> bool {
        match e {
            Ex::Lit(s) => !s.is_empty(),
            Ex::Pat(_) => true,
            Ex::Expected(_) => true, // never matches
            Ex::Call(j, _) => self.nonnull[*j].unwrap_or(false),
            Ex::Param(..) => self.param_nonnull(e),
            Ex::Custom(k, _) | Ex::Method(k, _) => *k == CbKind::Consume,
            Ex::Enter(_) | Ex::Position | Ex::Opt(_) | Ex::Ahead(_) | Ex::Not(_) => false,
            Ex::Choice(es) => es.iter().all(|e| self.nonnull(e)),
            Ex::Rep(e, b, _) => match b {
                Bound::Plus => self.nonnull(e),
                Bound::Exact(Num::Const(n)) | Bound::Range(Some(Num::Const(n)), _) => {
                    *n >= 1 && self.nonnull(e)
                }
                _ => false,
            },
            Ex::Seq(els, _) => els.iter().any(|el| self.nonnull(&el.ex)),
            Ex::Slice(e) | Ex::Quiet(e) => self.nonnull(e),
            // every operator has a literal of its own
            Ex::Prec(_, levels) => levels
                .iter()
                .flatten()
                .filter(|op| !op.els.iter().any(|e| matches!(e, OpEl::Marker(..))))
                .all(|op| {
                    op.els.iter().any(|e| match e {
                        OpEl::El(el) => self.nonnull(&el.ex),
                        OpEl::Marker(..) => false,
                    })
                }),
        }
    }

    fn param_nonnull(&self, _e: &Ex) -> bool {
        false
    }
}

fn unit_wrap(e: Ex) -> Ex {
    Ex::Seq(
        vec![
            El { label: None, ex: e },
            El {
                label: None,
                ex: Ex::Seq(vec![], Act::None),
            },
        ],
        Act::None,
    )
}

// ---------------------------------------------------------------- inputs

/// A text the grammar is likely to accept: a random derivation.
pub fn derive(g: &Grammar, r: &mut Rng, max: usize) -> Vec<char> {
    let mut out = vec![];
    let wide = r.chance(4);
    let max = if wide { 700 } else { max };
    let fuel = &mut Fuel {
        left: 120,
        cap: 24,
        wide,
    };
    sample(g, &g.rules[0].body, r, &mut out, fuel, 0, &[]);
    out.truncate(max);
    out
}

struct Fuel {
    left: i32,
    cap: usize,
    /// one repetition is still to go on for hundreds of elements
    wide: bool,
}

type PArgs<'a> = &'a [Option<&'a Ex>];

fn sample(
    g: &Grammar,
    e: &Ex,
    r: &mut Rng,
    out: &mut Vec<char>,
    fuel: &mut Fuel,
    depth: usize,
    params: PArgs,
) {
    fuel.left -= 1;
    if fuel.left <= 0 || depth > 30 || out.len() > fuel.cap {
        return;
    }
    let d = depth + 1;
    match e {
        Ex::Lit(s) => out.extend(s.chars()),
        Ex::Pat(p) => {
            let c = ALPHABET[r.below(ALPHABET.len())];
            if p.guard.is_some() {
                out.push(c);
            } else if p.neg {
                let ok: Vec<char> = ALPHABET
                    .iter()
                    .cloned()
                    .filter(|c| !p.set.iter().any(|(l, h)| l <= c && c <= h))
                    .collect();
                if !ok.is_empty() {
                    out.push(ok[r.below(ok.len())]);
                }
            } else {
                let (l, h) = p.set[r.below(p.set.len())];
                let n = h as u32 - l as u32 + 1;
                out.push(char::from_u32(l as u32 + r.below(n as usize) as u32).unwrap());
            }
        }
        Ex::Call(j, args) => {
            let ps: Vec<Option<&Ex>> = args
                .iter()
                .map(|a| match a {
                    Arg::Rule(e) => Some(e),
                    _ => None,
                })
                .collect();
            sample(g, &g.rules[*j].body, r, out, fuel, d, &ps)
        }
        Ex::Param(i, _) => {
            if let Some(Some(e)) = params.get(*i) {
                sample(g, e, r, out, fuel, d, &[])
            }
        }
        Ex::Custom(k, _) | Ex::Method(k, _) => {
            if *k == CbKind::Consume {
                out.push(ALPHABET[r.below(ALPHABET.len())])
            }
        }
        Ex::Choice(es) => {
            let k = r.below(es.len());
            // prefer late alternatives when deep, they recurse less
            let k = if depth > 10 { es.len() - 1 } else { k };
            sample(g, &es[k], r, out, fuel, d, params)
        }
        Ex::Opt(e) => {
            if r.chance(50) {
                sample(g, e, r, out, fuel, d, params)
            }
        }
        Ex::Rep(e, b, sep) => {
            let lo = match b {
                Bound::Star => 0,
                Bound::Plus => 1,
                Bound::Exact(Num::Const(n)) | Bound::Range(Some(Num::Const(n)), _) => *n,
                _ => 0,
            };
            let n = lo + if r.chance(70) { r.below(3) } else { 0 };
            let hi = match b {
                Bound::Range(_, Some(Num::Const(n))) => *n,
                _ => lo,
            };
            if fuel.wide && (hi.max(lo) > 100 || !matches!(b, Bound::Exact(_)) && r.chance(30)) {
                fuel.wide = false;
                let n = match hi.max(lo) {
                    0..=100 => r.range(100, 600),
                    big => big + r.below(4) - 1,
                };
                let mut one = vec![];
                sample(g, e, r, &mut one, fuel, d, params);
                let mut between = vec![];
                if let Some(s) = sep {
                    sample(g, s, r, &mut between, fuel, d, params)
                }
                for i in 0..n {
                    if i > 0 {
                        out.extend(&between);
                    }
                    out.extend(&one);
                }
                fuel.cap = out.len() + 24;
                return;
            }
            for i in 0..n {
                if i > 0 {
                    if let Some(s) = sep {
                        sample(g, s, r, out, fuel, d, params)
                    }
                }
                sample(g, e, r, out, fuel, d, params)
            }
        }
        Ex::Seq(els, _) => {
            for el in els {
                sample(g, &el.ex, r, out, fuel, d, params)
            }
        }
        Ex::Slice(e) | Ex::Quiet(e) => sample(g, e, r, out, fuel, d, params),
        Ex::Prec(_, levels) => sample_prec(g, levels, r, out, fuel, d, params),
        Ex::Ahead(_) | Ex::Not(_) | Ex::Position | Ex::Expected(_) | Ex::Enter(_) => {}
    }
}

fn sample_prec(
    g: &Grammar,
    levels: &[Vec<Op>],
    r: &mut Rng,
    out: &mut Vec<char>,
    fuel: &mut Fuel,
    depth: usize,
    params: PArgs,
) {
    let ops: Vec<&Op> = levels.iter().flatten().collect();
    let atoms: Vec<&&Op> = ops
        .iter()
        .filter(|o| !o.els.iter().any(|e| matches!(e, OpEl::Marker(..))))
        .collect();
    let op: &Op = if r.chance(60) || depth > 8 {
        atoms[r.below(atoms.len())]
    } else {
        ops[r.below(ops.len())]
    };
    for el in &op.els {
        match el {
            OpEl::Marker(..) => {
                if fuel.left > 0 && out.len() + 4 < fuel.cap {
                    sample_prec(g, levels, r, out, fuel, depth + 1, params)
                }
            }
            OpEl::El(el) => sample(g, &el.ex, r, out, fuel, depth + 1, params),
        }
    }
}

/// What kinds of fault a scenario may inject.
#[derive(Clone, Copy, Debug)]
pub struct FaultMix {
    /// faults that change the device or refuse a call
    pub env: bool,
    /// only between the two passes
    pub between: bool,
    pub panics: bool,
    pub read_panics: bool,
    pub max: usize,
}

/// The part of a plan that does not depend on fault placement.
pub fn base_plan(g: &Grammar, seed: u64) -> Plan {
    let mut r = Rng::new(seed);
    let mut tape = match r.below(10) {
        0 => {
            let n = r.below(10);
            (0..n).map(|_| ALPHABET[r.below(ALPHABET.len())]).collect()
        }
        _ => derive(g, &mut r, 20),
    };
    // mutate some
    if r.chance(45) && !tape.is_empty() {
        for _ in 0..r.range(1, 2) {
            let i = r.below(tape.len());
            match r.below(4) {
                0 => tape[i] = ALPHABET[r.below(ALPHABET.len())],
                1 => {
                    tape.remove(i);
                }
                2 => tape.insert(i, ALPHABET[r.below(ALPHABET.len())]),
                _ => tape.truncate(i + 1),
            }
            if tape.is_empty() {
                break;
            }
        }
    }
    let str_input = g.input.built_in();
    if g.input == Input::Bytes {
        tape.iter_mut().for_each(|c| *c = ascii(*c));
    }
    let mut seed = r.next() >> 16;
    if tape.len() > 60 && r.chance(40) {
        // bounds from user code are large too, see `Env::bound`
        seed = seed / 32 * 32 + 7;
    }
    Plan {
        seed,
        base: match r.below(20) {
            _ if str_input => 0,
            0..=2 => 0,
            3 => (1 << 31) - r.below(40),
            4 => (1 << 32) - r.below(40),
            5 => (1 << 63) - r.below(40),
            _ => r.below(1000) + 1,
        },
        geom: if str_input {
            0
        } else {
            let scale = [0, 0, 0, 0, 0, 0, 1, 8, 16, 32][r.below(10)];
            scale << 24 | 1 + r.below(1 << 20) as u64
        },
        tape,
        refuse_pct: [0, 5, 15, 30, 50][r.below(5)],
        pure_nonce: r.chance(10),
        faults: vec![],
    }
}

/// Place faults inside a run whose fault-free execution made `calls[p]` user-code
/// calls in pass p+1.
pub fn add_faults(g: &Grammar, plan: &mut Plan, calls: &[u32], mixk: FaultMix, r: &mut Rng) {
    let n = r.range(1, mixk.max.max(1));
    let len = plan.tape.len();
    let mutable = !g.input.built_in();
    for _ in 0..n {
        let total_passes = calls.len().max(1);
        let mut pass = 1 + r.below(total_passes) as u32;
        let mut tick = r.below(*calls.get(pass as usize - 1).unwrap_or(&0) as usize + 2) as u32;
        if mixk.between || r.chance(20) {
            pass = 2;
            tick = if r.chance(60) {
                0
            } else {
                r.below(*calls.get(1).unwrap_or(&2) as usize + 1) as u32
            };
        }
        let mut choices: Vec<u32> = vec![];
        if mixk.env {
            if mutable {
                choices.extend([0, 0, 0, 1, 1, 2, 3, 3, 4, 4]);
            }
            choices.extend([5, 5, 5, 5]);
        }
        if mixk.panics {
            choices.push(6);
            choices.push(6);
        }
        if mixk.read_panics && mutable {
            choices.push(7);
            choices.push(8);
        }
        if choices.is_empty() {
            return;
        }
        let c = *r.pick(&choices);
        let cell = r.below(len + 1);
        let fault = match c {
            0 => Fault::Flip(cell, ALPHABET[r.below(ALPHABET.len())]),
            1 => Fault::Bad(cell),
            2 => {
                // a transient read error: bad now, healed a little later
                plan.faults.push(Planned {
                    pass,
                    tick,
                    fault: Fault::Bad(cell),
                });
                tick += 1 + r.below(4) as u32;
                if r.chance(40) && pass == 1 {
                    pass = 2;
                    tick = 0;
                }
                Fault::Heal(cell)
            }
            3 => Fault::Cut(r.below(len + 1)),
            4 => {
                let k = r.range(1, 3);
                let d = derive(g, r, 12);
                let mut cs: Vec<char> = (0..k).map(|_| ALPHABET[r.below(ALPHABET.len())]).collect();
                if r.chance(40) && d.len() > len {
                    cs = d[len..].to_vec();
                }
                Fault::Grow(cs)
            }
            5 => Fault::Refuse,
            6 => Fault::Panic,
            7 => Fault::PanicRead(r.below(6) as u32),
            _ => Fault::PanicCell(cell),
        };
        plan.faults.push(Planned { pass, tick, fault });
    }
}

pub fn rule_calls(g: &Grammar) -> BTreeSet<usize> {
    let mut s = BTreeSet::new();
    for (i, r) in g.rules.iter().enumerate() {
        if r.cache != Cache::No {
            s.insert(i);
        }
    }
    s
}
