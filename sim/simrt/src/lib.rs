//! The seam between the simulator and the real parser: input types backed by
//! the simulated device, and the callbacks generated grammars use.
use peg::{Parse, ParseElem, ParseLiteral, ParseSlice, RuleResult};
pub use simlib::ast::CbKind;
pub use simlib::env::Env;
use simlib::model::{from_panic, Outcome};
pub use simlib::val::{IntoVal, Val};
use std::collections::BTreeSet;
use simlib::rng::{mix, Rng};
use std::fmt::{self, Write as _};
use std::marker::PhantomData;
use std::rc::Rc;

/// How an issued position is reported.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct SimPos(pub usize);
impl fmt::Display for SimPos {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "p{}", self.0)
    }
}

pub struct SimInput(pub Rc<Env>);

fn rr<T>(r: Option<(usize, T)>) -> RuleResult<T> {
    match r {
        Some((p, v)) => RuleResult::Matched(p, v),
        None => RuleResult::Failed,
    }
}

impl Parse for SimInput {
    type PositionRepr = SimPos;
    fn start(&self) -> usize {
        self.0.start()
    }
    fn is_eof(&self, p: usize) -> bool {
        self.0.eof(p)
    }
    fn position_repr(&self, p: usize) -> SimPos {
        SimPos(self.0.repr(p))
    }
}
impl<'input> ParseElem<'input> for SimInput {
    type Element = char;
    fn parse_elem(&'input self, pos: usize) -> RuleResult<char> {
        rr(self.0.elem(pos))
    }
}
impl ParseLiteral for SimInput {
    fn parse_string_literal(&self, pos: usize, literal: &str) -> RuleResult<()> {
        rr(self.0.literal(pos, literal).map(|p| (p, ())))
    }
}
impl<'input> ParseSlice<'input> for SimInput {
    type Slice = String;
    fn parse_slice(&'input self, p1: usize, p2: usize) -> String {
        self.0.slice(p1, p2)
    }
}
impl SimInput {
    pub fn x_method(&self, pos: usize, kind: CbKind, id: u32, env: &Env) -> RuleResult<Val> {
        rr(env.method(kind, id, pos))
    }
}

/// The same device behind a type with a lifetime parameter.
pub struct SimLt<'e>(pub SimInput, pub PhantomData<&'e ()>);

impl<'e> Parse for SimLt<'e> {
    type PositionRepr = SimPos;
    fn start(&self) -> usize {
        self.0.start()
    }
    fn is_eof(&self, p: usize) -> bool {
        self.0.is_eof(p)
    }
    fn position_repr(&self, p: usize) -> SimPos {
        self.0.position_repr(p)
    }
}
impl<'input, 'e> ParseElem<'input> for SimLt<'e> {
    type Element = char;
    fn parse_elem(&'input self, pos: usize) -> RuleResult<char> {
        self.0.parse_elem(pos)
    }
}
impl<'e> ParseLiteral for SimLt<'e> {
    fn parse_string_literal(&self, pos: usize, literal: &str) -> RuleResult<()> {
        self.0.parse_string_literal(pos, literal)
    }
}
impl<'input, 'e> ParseSlice<'input> for SimLt<'e> {
    type Slice = String;
    fn parse_slice(&'input self, p1: usize, p2: usize) -> String {
        self.0.parse_slice(p1, p2)
    }
}
impl<'e> SimLt<'e> {
    pub fn x_method(&self, pos: usize, kind: CbKind, id: u32, env: &Env) -> RuleResult<Val> {
        rr(env.method(kind, id, pos))
    }
}

/// Callbacks of generated grammars on a plain `str`.
pub trait StrMethods {
    fn x_method(&self, pos: usize, kind: CbKind, id: u32, env: &Env) -> RuleResult<Val>;
}
impl StrMethods for str {
    fn x_method(&self, pos: usize, kind: CbKind, id: u32, env: &Env) -> RuleResult<Val> {
        rr(env.method(kind, id, pos))
    }
}

impl StrMethods for [u8] {
    fn x_method(&self, pos: usize, kind: CbKind, id: u32, env: &Env) -> RuleResult<Val> {
        rr(env.method(kind, id, pos))
    }
}

pub trait EnvCalls {
    fn x_pass(&self, p: usize) -> RuleResult<()>;
    fn x_enter(&self, rule: u32, p: usize) -> RuleResult<()>;
    fn x_custom(&self, kind: CbKind, id: u32, p: usize) -> RuleResult<Val>;
}
impl EnvCalls for Env {
    fn x_pass(&self, p: usize) -> RuleResult<()> {
        RuleResult::Matched(self.pass(p), ())
    }
    fn x_enter(&self, rule: u32, p: usize) -> RuleResult<()> {
        RuleResult::Matched(self.enter(rule, p), ())
    }
    fn x_custom(&self, kind: CbKind, id: u32, p: usize) -> RuleResult<Val> {
        rr(self.custom(kind, id, p))
    }
}

/// What generated code brings into scope.
pub mod prelude {
    pub use crate::{EnvCalls, SimInput, SimLt, StrMethods};
    pub use simlib::ast::CbKind;
    pub use simlib::env::Env;
    pub use simlib::val::{hint, val, IntoVal, Val};
}

pub trait Loc {
    fn pos(&self) -> usize;
}
impl Loc for SimPos {
    fn pos(&self) -> usize {
        self.0
    }
}
impl Loc for usize {
    fn pos(&self) -> usize {
        *self
    }
}
impl Loc for peg::str::LineCol {
    fn pos(&self) -> usize {
        self.offset
    }
}

/// The text an error should have, independently of how the runtime renders it.
fn error_text(place: &str, tokens: &[&str]) -> String {
    let mut tokens = tokens.to_vec();
    tokens.sort_unstable();
    let list = match tokens.len() {
        0 => "<unreported>".to_string(),
        1 => tokens[0].to_string(),
        _ => format!("one of {}", tokens.join(", ")),
    };
    format!("error at {}: expected {}", place, list)
}

/// Line and column (in characters, from 1) of a byte offset.
fn line_col(text: &str, offset: usize) -> String {
    let (mut line, mut col) = (1, 1);
    for (i, c) in text.char_indices() {
        if i >= offset {
            break;
        }
        if c == '\n' {
            line += 1;
            col = 1;
        } else {
            col += 1;
        }
    }
    format!("{}:{}", line, col)
}

/// A simulated text sink.
struct Sink<'a> {
    env: &'a Env,
    text: String,
    want: &'a str,
    calls: u64,
    /// the call that is refused, and whether all later ones are too
    refuse: Option<(u64, bool)>,
    /// a refused call may have taken part of its piece
    part: u64,
    /// no more than this many bytes
    room: usize,
    panic: Option<u64>,
    /// the call inside which something else happens
    inner: Option<(u64, &'a dyn Fn())>,
    refused: u64,
}

impl<'a> Sink<'a> {
    fn new(env: &'a Env, want: &'a str) -> Sink<'a> {
        Sink {
            env,
            text: String::new(),
            want,
            calls: 0,
            refuse: None,
            part: 0,
            room: usize::MAX,
            panic: None,
            inner: None,
            refused: 0,
        }
    }
}

/// The panic of a sink.
struct SinkPanic;

impl<'a> fmt::Write for Sink<'a> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let k = self.calls;
        self.calls += 1;
        self.env.rendered();
        if self.panic == Some(k) {
            std::panic::resume_unwind(Box::new(SinkPanic));
        }
        if let Some((at, f)) = self.inner {
            if at == k {
                f();
            }
        }
        let full = self.text.len() + s.len() > self.room;
        let refused = match self.refuse {
            Some((at, sticky)) => k == at || (sticky && k > at),
            None => false,
        };
        if full || refused {
            self.refused += 1;
            let mut n = if self.part == 0 { 0 } else { self.part as usize % (s.len() + 1) };
            n = n.min(self.room.saturating_sub(self.text.len()));
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            self.text.push_str(&s[..n]);
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

/// A destination that starts another rendering inside one of its pieces, and
/// the last of which may refuse or panic there.
struct Deep<'a> {
    text: String,
    calls: u64,
    at: u64,
    inner: &'a dyn Fn() -> fmt::Result,
}

impl<'a> fmt::Write for Deep<'a> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let k = self.calls;
        self.calls += 1;
        if k == self.at {
            (self.inner)()?;
        }
        self.text.push_str(s);
        Ok(())
    }
}

/// Renderings inside one another, `left` more of them. The innermost ends as
/// `end` says; what is around it catches that.
fn nest<L: fmt::Display>(
    e: &peg::error::ParseError<L>,
    at: u64,
    left: u32,
    end: u64,
    out: &std::cell::RefCell<Vec<(bool, bool, String)>>,
) {
    let inner = || -> fmt::Result {
        if left > 0 {
            nest(e, at, left - 1, end, out);
            return Ok(());
        }
        match end {
            0 => Err(fmt::Error),
            1 => std::panic::resume_unwind(Box::new(SinkPanic)),
            _ => Ok(()),
        }
    };
    let mut d = Deep {
        text: String::new(),
        calls: 0,
        at,
        inner: &inner,
    };
    let set = left % 2 == 1;
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if set {
            write!(d, "{}", e.expected)
        } else {
            write!(d, "{}", e)
        }
    }));
    out.borrow_mut().push((set, matches!(res, Ok(Ok(_))), d.text));
}

/// Render the error, and its expected set alone, into sinks that refuse, panic,
/// run out of room, or render and parse something themselves.
fn render<L: Loc + fmt::Display + fmt::Debug + Clone + PartialEq>(
    env: &Env,
    e: &peg::error::ParseError<L>,
    want: &str,
) -> Option<(String, String)> {
    let mut r = Rng::new(env.renders.borrow().seed);
    let kept = e.clone();
    let head = want.find(": expected ").map_or(0, |i| i + 11);
    let forms: [(&str, &str, Box<dyn Fn(&mut Sink) -> fmt::Result + '_>); 4] = [
        ("error", want, Box::new(|s: &mut Sink| write!(s, "{}", e))),
        ("expected set", &want[head..], Box::new(|s: &mut Sink| write!(s, "{}", e.expected))),
        ("error trait object", want, Box::new(|s: &mut Sink| write!(s, "{}", e as &dyn std::error::Error))),
        ("copied error", want, Box::new(|s: &mut Sink| write!(s, "{}", kept))),
    ];
    let bad = |class: &str, form: &str, text: String| Some((class.to_string(), format!("{}: {}", form, text)));
    for (form, want, f) in &forms {
        let mut plain = Sink::new(env, want);
        let ok = f(&mut plain).is_ok();
        if !ok || plain.text != *want {
            return bad("text", form, format!("{:?} instead of {:?}", plain.text, want));
        }
        let n = plain.calls;
        let inner_text = std::cell::RefCell::new(Vec::new());
        let (deep, end) = ([0, 0, 1, 2, 4, 8, 20][r.below(7)], r.below(6) as u64);
        let inner_at = r.below(n as usize) as u64;
        let again = || nest(e, inner_at, deep, end, &inner_text);
        let parse = || {
            let f = env.nested.borrow().clone();
            if let Some(f) = f {
                f(env, 1)
            }
        };
        let mut trials = vec![];
        for k in 0..n.min(24) {
            for kind in 0..3u64 {
                trials.push((kind, k));
            }
        }
        for _ in 0..4 {
            trials.push((3, r.below(want.len() + 1) as u64));
            trials.push((4, r.below(n as usize) as u64));
        }
        trials.push((3, want.len() as u64));
        trials.push((5, r.below(n as usize) as u64));
        for (kind, k) in trials {
            let mut s = Sink::new(env, want);
            s.part = if r.chance(50) { r.next() >> 20 } else { 0 };
            match kind {
                0 => s.refuse = Some((k, true)),
                1 => s.refuse = Some((k, false)),
                2 => s.panic = Some(k),
                3 => s.room = k as usize,
                4 => s.inner = Some((k, &again)),
                _ => s.inner = Some((k, &parse)),
            }
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut s)));
            let (panicked, ok) = match res {
                Ok(r) => (false, r.is_ok()),
                Err(p) if p.downcast_ref::<SinkPanic>().is_some() => (true, false),
                Err(_) => return bad("panic", form, format!("rendering panicked after {:?}", s.text)),
            };
            {
                let mut st = env.renders.borrow_mut();
                st.runs += 1;
                st.pieces += s.calls;
                st.refused += s.refused;
                st.panics += panicked as u64;
                st.nested += (kind == 4) as u64;
                st.parses += (kind == 5) as u64;
                st.digest = mix(&[st.digest, kind, k, s.text.len() as u64, ok as u64]);
            }
            let how = match kind {
                0 => format!("piece {} and all later ones refused", k),
                1 => format!("piece {} refused", k),
                2 => format!("the sink panics at piece {}", k),
                3 => format!("room for {} bytes", k),
                4 => format!("the same error rendered while piece {} is written", k),
                _ => format!("another parse while piece {} is written", k),
            };
            if !want.starts_with(s.text.as_str()) {
                return bad("not-a-prefix", form, format!("{}: wrote {:?} of {:?}", how, s.text, s.want));
            }
            if s.refused > 0 && ok {
                return bad("ignored-refusal", form, format!("{}: success reported with {:?} of {:?} written", how, s.text, s.want));
            }
            if s.refused > 1 {
                return bad("after-refusal", form, format!("{}: {} more pieces were offered", how, s.refused - 1));
            }
            if (kind == 2) != panicked {
                return bad("panic", form, format!("{}: the panic did not arrive", how));
            }
            if s.refused == 0 && !panicked && (!ok || s.text != *want) {
                return bad("text", form, format!("{}: wrote {:?} instead of {:?}", how, s.text, s.want));
            }
        }
        for (set, ok, t) in inner_text.borrow().iter() {
            let whole = forms[*set as usize].1;
            if if *ok { t != whole } else { !whole.starts_with(t.as_str()) } {
                return bad("text", form, format!("rendered inside {} other renderings: {:?} instead of {:?}", deep + 1, t, whole));
            }
        }
        let mut last = Sink::new(env, want);
        if f(&mut last).is_err() || last.text != *want {
            return bad("text", form, format!("after earlier failures: {:?} instead of {:?}", last.text, want));
        }
    }
    if kept != *e || kept.clone() != kept {
        return bad("changed", "error", "the error differs from a copy made before it was rendered".into());
    }
    None
}

fn guard<L: Loc + Clone + PartialEq + fmt::Display + fmt::Debug>(
    env: &Env,
    place: impl Fn(&L) -> String,
    f: impl FnOnce() -> Result<Val, peg::error::ParseError<L>>,
) -> Outcome {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    match r {
        Ok(Ok(v)) => Outcome::Ok(v),
        Ok(Err(e)) => {
            let mut expected = BTreeSet::new();
            let mut tokens = vec![];
            for t in e.expected.tokens() {
                tokens.push(t);
                expected.insert(t.chars().filter(|c| !c.is_whitespace()).collect());
            }
            let want = error_text(&place(&e.location), &tokens);
            let mut sink = Sink::new(env, &want);
            let _ = write!(sink, "{}", e);
            let got = sink.text;
            if got != want || tokens.len() != expected.len() {
                *env.bad_text.borrow_mut() = Some(format!("{:?} instead of {:?}", got, want));
            }
            if env.renders.borrow().seed != 0 {
                let bad = render(env, &e, &want);
                env.renders.borrow_mut().bad = bad;
            }
            Outcome::Err {
                pos: e.location.pos(),
                expected,
            }
        }
        Err(p) => from_panic(p),
    }
}

pub fn exec_dev(
    env: &Rc<Env>,
    f: impl FnOnce(&SimInput, &Env) -> Result<Val, peg::error::ParseError<SimPos>>,
) -> Outcome {
    let input = SimInput(env.clone());
    guard(env, |p: &SimPos| format!("p{}", p.0), || f(&input, env))
}

pub fn exec_lt(
    env: &Rc<Env>,
    f: impl for<'e> FnOnce(&SimLt<'e>, &'e Env) -> Result<Val, peg::error::ParseError<SimPos>>,
) -> Outcome {
    let input = SimLt(SimInput(env.clone()), PhantomData);
    guard(env, |p: &SimPos| format!("p{}", p.0), || f(&input, env))
}

pub fn exec_bytes(
    env: &Rc<Env>,
    f: impl FnOnce(&[u8], &Env) -> Result<Val, peg::error::ParseError<usize>>,
) -> Outcome {
    let shared = env.shared.borrow().clone();
    if let Some(text) = shared {
        return guard(env, |p: &usize| p.to_string(), || f(text.as_bytes(), env));
    }
    let text = env.text();
    guard(env, |p: &usize| p.to_string(), || f(text.as_bytes(), env))
}

pub fn exec_str(
    env: &Rc<Env>,
    f: impl FnOnce(&str, &Env) -> Result<Val, peg::error::ParseError<peg::str::LineCol>>,
) -> Outcome {
    let place = |text: &str, p: &peg::str::LineCol| line_col(text, p.offset);
    let shared = env.shared.borrow().clone();
    if let Some(text) = shared {
        return guard(env, |p| place(&text, p), || f(&text, env));
    }
    let text = env.text();
    guard(env, |p| place(&text, p), || f(&text, env))
}
