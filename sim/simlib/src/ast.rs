//! Grammar programs: the abstract syntax the generator makes, the model
//! interprets, and this module prints as rust-peg source.

use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Unit,
    Elem,
    Slice,
    Num,
    Opt(Box<Ty>),
    List(Box<Ty>),
    Val,
    /// the type parameter of a rule
    Gen,
    /// a bare `expected!()`: fits any type
    Any,
}

#[derive(Clone, Debug)]
pub struct Pat {
    pub set: Vec<(char, char)>,
    pub neg: bool,
    /// `Some(id)`: `[c if env.guard(id, c)]` instead of a set
    pub guard: Option<u32>,
    /// written for bytes (see `Grammar::for_bytes`)
    pub bytes: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CbKind {
    /// matches one or two cells, or fails
    Consume,
    /// matches without consuming, or fails
    Zero,
}

#[derive(Clone, Debug)]
pub enum Num {
    Const(usize),
    /// `{env.bound(id)}`
    Env(u32),
    /// a `usize` parameter of the rule
    Param(usize),
    /// `{xN.hint()}` of an earlier label of an enclosing sequence
    Label(u32),
}

#[derive(Clone, Debug)]
pub enum Bound {
    Star,
    Plus,
    Exact(Num),
    Range(Option<Num>, Option<Num>),
}

#[derive(Clone, Debug)]
pub enum Arg {
    Rule(Ex),
    Num(Num),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    None,
    Plain(u32),
    Cond(u32),
}

#[derive(Clone, Debug)]
pub struct El {
    pub label: Option<u32>,
    pub ex: Ex,
}

#[derive(Clone, Debug)]
pub enum OpEl {
    /// `@` (false) or `(@)` (true), with a label
    Marker(bool, Option<u32>),
    El(El),
}

#[derive(Clone, Debug)]
pub struct Op {
    pub els: Vec<OpEl>,
    pub act: u32,
}

#[derive(Clone, Debug)]
pub enum Ex {
    Lit(String),
    Pat(Pat),
    Call(usize, Vec<Arg>),
    /// call of the rule's n-th parameter, a `rule<Val>` or (true) a `rule<T>`
    Param(usize, bool),
    Custom(CbKind, u32),
    Method(CbKind, u32),
    /// `#{|_, p| env.x_enter(rule, p)}`: always matches, consumes nothing
    Enter(usize),
    Choice(Vec<Ex>),
    Opt(Box<Ex>),
    Rep(Box<Ex>, Bound, Option<Box<Ex>>),
    Ahead(Box<Ex>),
    Not(Box<Ex>),
    Seq(Vec<El>, Act),
    Slice(Box<Ex>),
    Position,
    Quiet(Box<Ex>),
    Expected(u32),
    /// span capture (action id) and levels
    Prec(Option<u32>, Vec<Vec<Op>>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cache {
    No,
    Simple,
    LeftRec,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ParamTy {
    /// `rule<Val>`; true: whatever is passed always consumes when it matches
    Rule(bool),
    /// `rule<T>` of a generic rule: any expression with a result
    Gen,
    Num,
}

#[derive(Clone, Debug)]
pub struct Rule {
    pub name: String,
    pub ret: bool,
    pub params: Vec<ParamTy>,
    pub cache: Cache,
    pub body: Ex,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Input {
    /// the simulated device (sparse positions, mutable content)
    Device,
    /// a Rust `str` (immutable content; callbacks still simulated)
    Str,
    /// the simulated device behind a type with a lifetime parameter
    DeviceLt,
    /// a byte slice (ASCII content; otherwise like `Str`)
    Bytes,
}

impl Input {
    /// Not the simulated device but an input type of peg's own.
    pub fn built_in(self) -> bool {
        matches!(self, Input::Str | Input::Bytes)
    }
}

/// The ASCII stand-in of an element.
pub fn ascii(c: char) -> char {
    match c {
        'é' => 'e',
        '→' => '>',
        '🦀' => '#',
        c if c.is_ascii() => c,
        _ => '?',
    }
}

fn ascii_els(els: &mut [El]) {
    els.iter_mut().for_each(|e| ascii_ex(&mut e.ex))
}

/// Rewrite an expression so that it can be matched against bytes.
fn ascii_ex(e: &mut Ex) {
    match e {
        Ex::Lit(s) => *s = s.chars().map(ascii).collect(),
        Ex::Pat(p) => {
            p.bytes = true;
            for (l, h) in &mut p.set {
                let wide = !h.is_ascii();
                *l = ascii(*l);
                *h = if wide { *l } else { *h };
            }
        }
        Ex::Call(_, args) => {
            for a in args {
                if let Arg::Rule(e) = a {
                    ascii_ex(e)
                }
            }
        }
        Ex::Choice(es) => es.iter_mut().for_each(ascii_ex),
        Ex::Opt(e) | Ex::Ahead(e) | Ex::Not(e) | Ex::Slice(e) | Ex::Quiet(e) => ascii_ex(e),
        Ex::Rep(e, _, s) => {
            ascii_ex(e);
            if let Some(s) = s {
                ascii_ex(s)
            }
        }
        Ex::Seq(els, _) => ascii_els(els),
        Ex::Prec(_, levels) => {
            for op in levels.iter_mut().flatten() {
                for el in &mut op.els {
                    if let OpEl::El(el) = el {
                        ascii_ex(&mut el.ex)
                    }
                }
            }
        }
        Ex::Param(..)
        | Ex::Custom(..)
        | Ex::Method(..)
        | Ex::Enter(_)
        | Ex::Position
        | Ex::Expected(_) => {}
    }
}

#[derive(Clone, Debug)]
pub struct Grammar {
    pub rules: Vec<Rule>,
    pub input: Input,
    /// entry 0 requires end of input, entry 1 is `#[no_eof]`; both run rule 0
    pub note: String,
}

impl Grammar {
    /// The same grammar without memoisation.
    pub fn uncached(&self) -> Grammar {
        let mut g = self.clone();
        for r in &mut g.rules {
            if r.cache == Cache::Simple {
                r.cache = Cache::No;
            }
        }
        g
    }

    /// Turn into a grammar for bytes.
    pub fn for_bytes(&mut self) {
        self.input = Input::Bytes;
        for r in &mut self.rules {
            ascii_ex(&mut r.body)
        }
    }

    pub fn has_cache(&self) -> bool {
        self.rules.iter().any(|r| r.cache != Cache::No)
    }

    pub fn has_left_rec(&self) -> bool {
        self.rules.iter().any(|r| r.cache == Cache::LeftRec)
    }
}

// ---------------------------------------------------------------- typing

/// The Rust type of the compiled expression when its result is (not) used.
pub fn ty(e: &Ex, used: bool) -> Ty {
    match e {
        Ex::Lit(_) | Ex::Not(_) | Ex::Enter(_) => Ty::Unit,
        Ex::Pat(_) => {
            if used {
                Ty::Elem
            } else {
                Ty::Unit
            }
        }
        Ex::Call(..) => {
            if used {
                Ty::Val
            } else {
                Ty::Unit
            }
        }
        Ex::Param(_, true) => Ty::Gen,
        Ex::Param(_, false) | Ex::Custom(..) | Ex::Method(..) | Ex::Prec(..) => Ty::Val,
        Ex::Choice(es) => es
            .iter()
            .map(|e| ty(e, used))
            .find(|t| *t != Ty::Any)
            .unwrap_or(Ty::Any),
        Ex::Opt(e) => {
            if used {
                Ty::Opt(Box::new(ty(e, true)))
            } else {
                Ty::Unit
            }
        }
        Ex::Rep(e, ..) => {
            if used {
                Ty::List(Box::new(ty(e, true)))
            } else {
                Ty::Unit
            }
        }
        Ex::Ahead(e) | Ex::Quiet(e) => ty(e, used),
        Ex::Seq(_, Act::None) => Ty::Unit,
        Ex::Seq(..) => Ty::Val,
        Ex::Slice(_) => Ty::Slice,
        Ex::Position => Ty::Num,
        Ex::Expected(_) => Ty::Any,
    }
}

/// May the result be used (no call of a rule without a return value)?
pub fn usable(e: &Ex, rets: &[bool]) -> bool {
    match e {
        Ex::Call(r, _) => rets[*r],
        Ex::Opt(e) | Ex::Rep(e, ..) | Ex::Ahead(e) | Ex::Quiet(e) => usable(e, rets),
        Ex::Choice(es) => es.iter().all(|e| usable(e, rets)),
        _ => true,
    }
}

// ---------------------------------------------------------------- printing

pub const CONDS: [&str; 6] = ["cond-a", "cond-b", "cond-c", "cond-d", "cond-e", "cond-f"];
pub const EXPECTS: [&str; 4] = ["exp-a", "exp-b", "exp-c", "exp-d"];

fn num(n: &Num) -> String {
    match n {
        Num::Const(n) => format!("{}", n),
        Num::Env(id) => format!("{{env.bound({})}}", id),
        Num::Param(i) => format!("{{p{}}}", i),
        Num::Label(l) => format!("{{hint(&x{})}}", l),
    }
}

fn bound(b: &Bound) -> &'static str {
    match b {
        Bound::Plus => "+",
        _ => "*",
    }
}

fn bound_range(b: &Bound) -> String {
    match b {
        Bound::Star | Bound::Plus => String::new(),
        Bound::Exact(n) => format!("<{}>", num(n)),
        Bound::Range(lo, hi) => format!(
            "<{},{}>",
            lo.as_ref().map(num).unwrap_or_default(),
            hi.as_ref().map(num).unwrap_or_default()
        ),
    }
}

pub fn pat_text(p: &Pat) -> String {
    let mut s = String::from("[");
    if p.neg {
        s.push('^');
    }
    if let Some(id) = p.guard {
        let c = if p.bytes { "c as char" } else { "c" };
        write!(s, "c if env.guard({}, {})", id, c).unwrap();
    } else {
        for (i, (lo, hi)) in p.set.iter().enumerate() {
            if i > 0 {
                s.push_str(" | ");
            }
            let b = if p.bytes { "b" } else { "" };
            if lo == hi {
                write!(s, "{}{:?}", b, lo).unwrap();
            } else {
                write!(s, "{}{:?}..={}{:?}", b, lo, b, hi).unwrap();
            }
        }
    }
    s.push(']');
    s
}

fn strip_ws(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// The name under which a terminal is reported as expected (blanks removed).
pub fn expected_name(e: &Ex) -> String {
    match e {
        Ex::Lit(s) => format!("{:?}", s),
        Ex::Pat(p) => strip_ws(&pat_text(p)),
        _ => unreachable!(),
    }
}

pub struct Printer<'a> {
    pub g: &'a Grammar,
}

fn kids_vec(labels: &[u32]) -> String {
    let parts: Vec<String> = labels
        .iter()
        .map(|l| format!("val(x{})", l))
        .collect();
    format!("vec![{}]", parts.join(", "))
}

impl<'a> Printer<'a> {
    /// Atom: printed so that a suffix or prefix operator may be attached.
    fn atom(&self, e: &Ex) -> String {
        match e {
            Ex::Lit(_)
            | Ex::Pat(_)
            | Ex::Call(..)
            | Ex::Param(..)
            | Ex::Custom(..)
            | Ex::Method(..)
            | Ex::Enter(_)
            | Ex::Position
            | Ex::Quiet(_)
            | Ex::Expected(_)
            | Ex::Prec(..) => self.ex(e),
            _ => format!("({})", self.ex(e)),
        }
    }

    pub fn ex(&self, e: &Ex) -> String {
        match e {
            Ex::Lit(s) => format!("{:?}", s),
            Ex::Pat(p) => pat_text(p),
            Ex::Call(r, args) => {
                let name = &self.g.rules[*r].name;
                if name.chars().all(|c| c == '_') {
                    return name.clone();
                }
                let args: Vec<String> = args
                    .iter()
                    .map(|a| match a {
                        Arg::Rule(e) => format!("<{}>", self.ex(e)),
                        Arg::Num(Num::Const(n)) => format!("{}", n),
                        Arg::Num(Num::Env(id)) => format!("env.bound({})", id),
                        Arg::Num(Num::Param(i)) => format!("p{}", i),
                        Arg::Num(Num::Label(l)) => format!("hint(&x{})", l),
                    })
                    .collect();
                format!("{}({})", name, args.join(", "))
            }
            Ex::Param(i, _) => format!("p{}()", i),
            Ex::Custom(k, id) => format!("#{{|_i, p| env.x_custom(CbKind::{:?}, {}, p)}}", k, id),
            Ex::Method(k, id) => format!("##x_method(CbKind::{:?}, {}, env)", k, id),
            Ex::Enter(r) => format!("#{{|_i, p| env.x_enter({}, p)}}", r),
            Ex::Choice(es) => {
                let parts: Vec<String> = es
                    .iter()
                    .map(|e| match e {
                        Ex::Choice(_) => self.atom(e),
                        _ => self.ex(e),
                    })
                    .collect();
                parts.join(" / ")
            }
            Ex::Opt(e) => format!("{}?", self.atom_pre(e)),
            Ex::Rep(e, b, sep) => match (b, sep) {
                (Bound::Plus, Some(s)) => format!("{} ++ {}", self.atom_pre(e), self.atom(s)),
                (_, Some(s)) => {
                    format!("{} **{} {}", self.atom_pre(e), bound_range(b), self.atom(s))
                }
                (_, None) => format!("{}{}{}", self.atom_pre(e), bound(b), bound_range(b)),
            },
            Ex::Ahead(e) => format!("&{}", self.atom(e)),
            Ex::Not(e) => format!("!{}", self.atom(e)),
            Ex::Slice(e) => format!("${}", self.atom(e)),
            Ex::Seq(els, act) => {
                if els.is_empty() && *act == Act::None {
                    return "()".to_string();
                }
                let mut s = String::new();
                let mut labels = vec![];
                for el in els {
                    if !s.is_empty() {
                        s.push(' ');
                    }
                    if let Some(l) = el.label {
                        labels.push(l);
                        write!(s, "x{}:", l).unwrap();
                    }
                    s.push_str(&self.seq_el(&el.ex));
                }
                match act {
                    Act::None => {}
                    Act::Plain(id) => {
                        write!(s, " {{ env.action({}, {}) }}", id, kids_vec(&labels)).unwrap()
                    }
                    Act::Cond(id) => {
                        write!(s, " {{? env.cond({}, {}) }}", id, kids_vec(&labels)).unwrap()
                    }
                }
                s
            }
            Ex::Position => "position!()".to_string(),
            Ex::Quiet(e) => format!("quiet!{{{}}}", self.ex(e)),
            Ex::Expected(i) => format!("expected!({:?})", EXPECTS[*i as usize % 4]),
            Ex::Prec(span, levels) => {
                let mut s = String::from("precedence!{\n");
                let mut first = true;
                if let Some(id) = span {
                    write!(
                        s,
                        "      l:position!() n:@ r:position!() {{ env.action({}, vec![val(l), val(n), val(r)]) }}\n",
                        id
                    )
                    .unwrap();
                    first = false;
                }
                for level in levels {
                    if !first {
                        s.push_str("      --\n");
                    }
                    first = false;
                    for op in level {
                        let mut labels = vec![];
                        s.push_str("     ");
                        for el in &op.els {
                            s.push(' ');
                            let (label, text) = match el {
                                OpEl::Marker(paren, label) => {
                                    (*label, if *paren { "(@)" } else { "@" }.to_string())
                                }
                                OpEl::El(el) => (el.label, self.seq_el(&el.ex)),
                            };
                            if let Some(l) = label {
                                labels.push(l);
                                write!(s, "x{}:", l).unwrap();
                            }
                            s.push_str(&text);
                        }
                        write!(s, " {{ env.action({}, {}) }}\n", op.act, kids_vec(&labels))
                            .unwrap();
                    }
                }
                s.push_str("    }");
                s
            }
        }
    }

    /// Operand of a suffix operator: a prefix expression needs no parentheses.
    fn atom_pre(&self, e: &Ex) -> String {
        match e {
            Ex::Slice(_) | Ex::Ahead(_) | Ex::Not(_) => self.ex(e),
            _ => self.atom(e),
        }
    }

    fn seq_el(&self, e: &Ex) -> String {
        match e {
            Ex::Choice(_) | Ex::Seq(..) => self.atom(e),
            _ => self.ex(e),
        }
    }

    pub fn grammar(&self, name: &str) -> String {
        let mut s = String::new();
        match self.g.input {
            Input::Device => {
                write!(s, "grammar {}(env: &Env) for SimInput {{\n", name).unwrap();
                entry(&mut s, "SimInput");
            }
            Input::Str => {
                write!(s, "grammar {}(env: &Env) for str {{\n", name).unwrap();
                entry(&mut s, "str");
            }
            Input::Bytes => {
                write!(s, "grammar {}(env: &Env) for [u8] {{\n", name).unwrap();
                entry(&mut s, "[u8]");
            }
            Input::DeviceLt => {
                write!(s, "grammar {}<'e>(env: &'e Env) for SimLt<'e> {{\n", name).unwrap();
                entry(&mut s, "SimLt");
            }
        }
        for (i, r) in self.g.rules.iter().enumerate() {
            match r.cache {
                Cache::No => {}
                Cache::Simple => s.push_str("  #[cache]\n"),
                Cache::LeftRec => s.push_str("  #[cache_left_rec]\n"),
            }
            if i == 0 {
                // exported as well as used by other rules
                if self.g.rules.len() % 2 == 0 {
                    s.push_str("  #[no_eof]\n");
                }
                s.push_str("  pub");
            }
            write!(s, "  rule {}", r.name).unwrap();
            if !r.name.chars().all(|c| c == '_') {
                let gs: Vec<String> = r
                    .params
                    .iter()
                    .enumerate()
                    .filter(|(_, p)| **p == ParamTy::Gen)
                    .map(|(i, _)| format!("G{}: IntoVal", i))
                    .collect();
                if !gs.is_empty() {
                    write!(s, "<{}>", gs.join(", ")).unwrap();
                }
                let ps: Vec<String> = r
                    .params
                    .iter()
                    .enumerate()
                    .map(|(i, p)| match p {
                        ParamTy::Rule(_) => format!("p{}: rule<Val>", i),
                        ParamTy::Gen => format!("p{}: rule<G{}>", i, i),
                        ParamTy::Num => format!("p{}: usize", i),
                    })
                    .collect();
                write!(s, "({})", ps.join(", ")).unwrap();
            }
            if r.ret {
                s.push_str(" -> Val");
            }
            write!(s, "\n    = {}\n", self.ex(&r.body)).unwrap();
        }
        s.push_str("}");
        s
    }
}

/// The exported rules, by entry number.
pub const ENTRIES: [&str; 7] = ["whole", "prefix", "kept", "counted", "counted", "counted", "twice"];

/// What the exported rule of an entry does after its pass marker.
pub fn entry_body(entry: u32) -> Ex {
    let one = || Ex::Call(0, vec![]);
    let el = |label, ex| El {
        label: Some(label),
        ex,
    };
    match entry {
        3..=5 => Ex::Seq(
            vec![el(
                9_000_001,
                Ex::Rep(
                    Box::new(one()),
                    Bound::Range(None, Some(Num::Const(entry as usize - 2))),
                    None,
                ),
            )],
            Act::Plain(9_000_001),
        ),
        6 => Ex::Seq(
            vec![
                el(9_000_002, one()),
                el(9_000_003, Ex::Opt(Box::new(one()))),
            ],
            Act::Plain(9_000_002),
        ),
        _ => one(),
    }
}

fn entry(s: &mut String, _input: &str) {
    // The pass marker is user code: it runs once at the start of each pass.
    let mark = "#{|_i, p| env.x_pass(p)}";
    write!(
        s,
        "  pub rule whole() -> Val = {mark} v:r0() {{ v }}
  #[no_eof]
  pub rule prefix() -> Val = {mark} v:r0() {{ v }}
  #[cache]
  pub rule kept() -> Val = {mark} v:r0() {{ v }}
  pub rule counted(n: usize) -> Val = {mark} a:r0()*<,{{n}}> {{ env.action(9000001, vec![val(a)]) }}
  pub rule twice() -> Val = {mark} a:r0() b:r0()? {{ env.action(9000002, vec![val(a), val(b)]) }}
"
    )
    .unwrap();
}

// ---------------------------------------------------------------- shape coverage

/// Count (parent form, child form, used) pairs and a few deeper shapes, to pick
/// a corpus that covers combinations of forms.
pub fn shapes(g: &Grammar, out: &mut BTreeMap<u64, u32>) {
    for r in &g.rules {
        let top = match r.cache {
            Cache::No => 40,
            Cache::Simple => 41,
            Cache::LeftRec => 42,
        };
        walk(&r.body, r.ret, top + if r.ret { 3 } else { 0 }, 0, out);
    }
}

pub fn kind(e: &Ex) -> u64 {
    match e {
        Ex::Lit(_) => 1,
        Ex::Pat(p) => 2 + p.neg as u64 + if p.guard.is_some() { 2 } else { 0 },
        Ex::Call(_, a) => 6 + !a.is_empty() as u64,
        Ex::Param(_, gen) => 8 + 60 * *gen as u64,
        Ex::Custom(k, _) => 9 + (*k == CbKind::Zero) as u64,
        Ex::Method(k, _) => 11 + (*k == CbKind::Zero) as u64,
        Ex::Enter(_) => 13,
        Ex::Choice(_) => 14,
        Ex::Opt(_) => 15,
        Ex::Rep(_, b, s) => {
            let b = match b {
                Bound::Star => 0,
                Bound::Plus => 1,
                Bound::Exact(_) => 2,
                Bound::Range(Some(_), None) => 3,
                Bound::Range(None, Some(_)) => 4,
                Bound::Range(..) => 5,
            };
            16 + b * 2 + s.is_some() as u64
        }
        Ex::Ahead(_) => 28,
        Ex::Not(_) => 29,
        Ex::Seq(_, a) => match a {
            Act::None => 30,
            Act::Plain(_) => 31,
            Act::Cond(_) => 32,
        },
        Ex::Slice(_) => 33,
        Ex::Position => 34,
        Ex::Quiet(_) => 35,
        Ex::Expected(_) => 36,
        Ex::Prec(s, _) => 37 + s.is_some() as u64,
    }
}

fn walk(e: &Ex, used: bool, parent: u64, grand: u64, out: &mut BTreeMap<u64, u32>) {
    let k = kind(e);
    *out.entry(k << 20 | parent << 8 | used as u64).or_insert(0) += 1;
    *out.entry(1 << 40 | k << 20 | parent << 12 | grand << 4 | used as u64)
        .or_insert(0) += 1;
    let here = k;
    match e {
        Ex::Choice(es) => {
            for (i, c) in es.iter().enumerate() {
                let last = i + 1 == es.len();
                walk(c, used, if last { 50 } else { here }, parent, out)
            }
        }
        Ex::Opt(c) | Ex::Ahead(c) | Ex::Quiet(c) => walk(c, used, here, parent, out),
        Ex::Not(c) | Ex::Slice(c) => walk(c, false, here, parent, out),
        Ex::Rep(c, _, s) => {
            walk(c, used, here, parent, out);
            if let Some(s) = s {
                walk(s, false, 51, here, out)
            }
        }
        Ex::Seq(els, _) => {
            for (i, el) in els.iter().enumerate() {
                let p = if i == 0 {
                    here
                } else if i + 1 == els.len() {
                    53
                } else {
                    52
                };
                walk(&el.ex, el.label.is_some(), p, here, out)
            }
        }
        Ex::Call(_, args) => {
            for a in args {
                if let Arg::Rule(c) = a {
                    walk(c, true, here, parent, out)
                }
            }
        }
        Ex::Prec(_, levels) => {
            for op in levels.iter().flatten() {
                for el in &op.els {
                    if let OpEl::El(el) = el {
                        walk(&el.ex, el.label.is_some(), here, parent, out)
                    }
                }
            }
        }
        _ => {}
    }
}
