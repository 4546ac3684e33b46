//! The simulated environment of one parse: the input device, the user code
//! (custom expressions, methods, conditional blocks, guards, actions) and the
//! fault plan that decides how both behave. The real parser and the reference
//! model each get their own instance made from the same plan.

use crate::ast::{CbKind, CONDS};
use crate::rng::{mix, Rng};
use crate::val::{MAX_NODES, Registry, Token, Val};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

pub const ALPHABET: [char; 14] = [
    'a', 'b', 'c', 'd', '+', '*', '-', '(', ')', 'é', '→', '\n', '🦀', '\t',
];

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    /// a stored element changes
    Flip(usize, char),
    /// a stored element becomes unreadable / readable again
    Bad(usize),
    Heal(usize),
    /// the input ends earlier / grows
    Cut(usize),
    Grow(Vec<char>),
    /// this call of user code answers with failure
    Refuse,
    /// this call of user code panics
    Panic,
    /// the k-th input access from now on panics
    PanicRead(u32),
    /// reading this element panics
    PanicCell(usize),
    /// user code runs other parses (numbered) to completion before it answers
    Nested(u8),
    /// the k-th copying / dropping of a value by the parser from now on panics
    PanicClone(u32),
    PanicDrop(u32),
}

pub const KINDS: [&str; 12] = [
    "flip", "bad", "heal", "cut", "grow", "refuse", "panic", "panic_read", "panic_cell", "nested",
    "panic_clone", "panic_drop",
];

impl Fault {
    pub fn kind(&self) -> usize {
        match self {
            Fault::Flip(..) => 0,
            Fault::Bad(_) => 1,
            Fault::Heal(_) => 2,
            Fault::Cut(_) => 3,
            Fault::Grow(_) => 4,
            Fault::Refuse => 5,
            Fault::Panic => 6,
            Fault::PanicRead(_) => 7,
            Fault::PanicCell(_) => 8,
            Fault::Nested(_) => 9,
            Fault::PanicClone(_) => 10,
            Fault::PanicDrop(_) => 11,
        }
    }
}

/// A fault takes effect at the start of the given user-code call, counted from
/// the start of the given pass (call 0 is the start of the pass itself).
#[derive(Clone, Debug, PartialEq)]
pub struct Planned {
    pub pass: u32,
    pub tick: u32,
    pub fault: Fault,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub seed: u64,
    pub tape: Vec<char>,
    /// position of the first element; element widths derive from `geom` (0: the
    /// UTF-8 widths of the tape, as in a `str`; its bits from 24 on: the power of
    /// two that all widths are multiples of)
    pub base: usize,
    pub geom: u64,
    /// percentage of conditional blocks and consuming callbacks that refuse
    pub refuse_pct: u32,
    /// answers and value identities are a pure function of the request
    pub pure_nonce: bool,
    pub faults: Vec<Planned>,
}

impl Plan {
    pub fn to_text(&self) -> String {
        let mut s = format!(
            "seed={} base={} geom={} refuse={} pure={} tape={}",
            self.seed,
            self.base,
            self.geom,
            self.refuse_pct,
            self.pure_nonce as u8,
            chars_text(&self.tape)
        );
        for p in &self.faults {
            let f = match &p.fault {
                Fault::Flip(i, c) => format!("flip:{}:{}", i, *c as u32),
                Fault::Bad(i) => format!("bad:{}", i),
                Fault::Heal(i) => format!("heal:{}", i),
                Fault::Cut(i) => format!("cut:{}", i),
                Fault::Grow(cs) => format!("grow:{}", chars_text(cs)),
                Fault::Refuse => "refuse".into(),
                Fault::Panic => "panic".into(),
                Fault::PanicRead(k) => format!("panicread:{}", k),
                Fault::PanicCell(k) => format!("paniccell:{}", k),
                Fault::Nested(k) => format!("nested:{}", k),
                Fault::PanicClone(k) => format!("panicclone:{}", k),
                Fault::PanicDrop(k) => format!("panicdrop:{}", k),
            };
            s.push_str(&format!(" @{}.{}/{}", p.pass, p.tick, f));
        }
        s
    }

    pub fn parse(text: &str) -> Option<Plan> {
        let mut p = Plan {
            seed: 0,
            tape: vec![],
            base: 0,
            geom: 0,
            refuse_pct: 0,
            pure_nonce: false,
            faults: vec![],
        };
        for w in text.split_whitespace() {
            if let Some(rest) = w.strip_prefix('@') {
                let (at, f) = rest.split_once('/')?;
                let (pass, tick) = at.split_once('.')?;
                let mut it = f.split(':');
                let name = it.next()?;
                let arg = it.next().unwrap_or("");
                let fault = match name {
                    "flip" => Fault::Flip(
                        arg.parse().ok()?,
                        char::from_u32(it.next()?.parse().ok()?)?,
                    ),
                    "bad" => Fault::Bad(arg.parse().ok()?),
                    "heal" => Fault::Heal(arg.parse().ok()?),
                    "cut" => Fault::Cut(arg.parse().ok()?),
                    "grow" => Fault::Grow(parse_chars(arg)?),
                    "refuse" => Fault::Refuse,
                    "panic" => Fault::Panic,
                    "panicread" => Fault::PanicRead(arg.parse().ok()?),
                    "paniccell" => Fault::PanicCell(arg.parse().ok()?),
                    "nested" => Fault::Nested(arg.parse().ok()?),
                    "panicclone" => Fault::PanicClone(arg.parse().ok()?),
                    "panicdrop" => Fault::PanicDrop(arg.parse().ok()?),
                    _ => return None,
                };
                p.faults.push(Planned {
                    pass: pass.parse().ok()?,
                    tick: tick.parse().ok()?,
                    fault,
                });
                continue;
            }
            let (k, v) = w.split_once('=')?;
            match k {
                "seed" => p.seed = v.parse().ok()?,
                "base" => p.base = v.parse().ok()?,
                "geom" => p.geom = v.parse().ok()?,
                "refuse" => p.refuse_pct = v.parse().ok()?,
                "pure" => p.pure_nonce = v == "1",
                "tape" => p.tape = parse_chars(v)?,
                _ => return None,
            }
        }
        Some(p)
    }
}

fn chars_text(cs: &[char]) -> String {
    let v: Vec<String> = cs.iter().map(|c| format!("{:x}", *c as u32)).collect();
    if v.is_empty() {
        "-".into()
    } else {
        v.join(",")
    }
}

fn parse_chars(s: &str) -> Option<Vec<char>> {
    if s == "-" {
        return Some(vec![]);
    }
    s.split(',')
        .map(|h| char::from_u32(u32::from_str_radix(h, 16).ok()?))
        .collect()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum What {
    Pass,
    Enter,
    Custom,
    Method,
    Cond,
    Guard,
    Action,
}

/// One call of user code.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Event {
    pub what: What,
    pub id: u32,
    /// position, or digest of the arguments
    pub arg: u64,
    /// what it answered
    pub ans: u64,
    pub pass: u32,
}

/// Payload of an injected panic, unless it is text.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct SimPanic(pub u64);

/// Injected panics carry what panics carry in practice: a value of the user's
/// own, a text made by formatting, a literal text, or nothing.
const TEXTS: [&str; 8] = [
    "sim panic 0", "sim panic 1", "sim panic 2", "sim panic 3", "sim panic 4", "sim panic 5", "sim panic 6", "sim panic 7",
];

fn payload_number(x: u64) -> u64 {
    match x % 8 {
        0..=4 => x,
        5 | 6 => x - x % 8 + 5,
        _ => (x >> 8) % 8 * 8 + 7,
    }
}

fn throw(number: u64) -> ! {
    match number % 8 {
        0..=2 => std::panic::panic_any(SimPanic(number)),
        // without the panic hook
        3 | 4 => std::panic::resume_unwind(Box::new(SimPanic(number))),
        5 => std::panic::panic_any(format!("sim text {:x}", number)),
        _ => std::panic::panic_any(TEXTS[(number / 8) as usize]),
    }
}

/// The number of an injected panic with exactly its own payload.
pub fn thrown(p: &(dyn std::any::Any + Send)) -> Option<u64> {
    if let Some(s) = p.downcast_ref::<SimPanic>() {
        return Some(s.0);
    }
    if let Some(s) = p.downcast_ref::<String>() {
        return u64::from_str_radix(s.strip_prefix("sim text ")?, 16).ok();
    }
    let s = p.downcast_ref::<&'static str>()?;
    TEXTS.iter().position(|t| t == s).map(|k| k as u64 * 8 + 7)
}
/// Payload used when a parse exceeds its step budget.
pub struct Budget;

#[derive(Clone, Copy, Debug)]
struct CellSt {
    ch: char,
    bad: bool,
    panics: bool,
}

struct State {
    cells: Vec<CellSt>,
    end: usize,
    pass: u32,
    tick: u32,
    panic_in: Option<u32>,
    panicked: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    Read,
    Call,
    /// a piece of an error's text was written
    Render,
}

/// What happened while errors were rendered.
#[derive(Default)]
pub struct Renders {
    /// seed of the simulated text sinks; 0: the error is rendered once only
    pub seed: u64,
    pub runs: u64,
    pub pieces: u64,
    pub refused: u64,
    pub panics: u64,
    pub nested: u64,
    pub parses: u64,
    pub digest: u64,
    /// class and detail of the first fault found
    pub bad: Option<(String, String)>,
}

pub struct Env {
    pub plan: Plan,
    st: RefCell<State>,
    /// position of element i
    poss: Vec<usize>,
    back: BTreeMap<usize, usize>,
    pub history: RefCell<Vec<Event>>,
    /// for each event, where it happened (only with `marking`): how deep in the
    /// stack, or, in the model, through which expressions and rules
    pub marks: RefCell<Vec<u64>>,
    pub marking: Cell<bool>,
    pub chain: Cell<u64>,
    pub steps: Cell<u64>,
    pub reads: Cell<u64>,
    pub limit: Cell<u64>,
    pub fired: RefCell<[u32; KINDS.len()]>,
    granted: RefCell<Vec<bool>>,
    /// breaches of the input protocol
    pub breaches: RefCell<Vec<String>>,
    pub registry: Rc<Registry>,
    count_values: bool,
    /// called before every input access and user-code call is answered
    pub hook: RefCell<Option<Rc<dyn Fn(&Env, Step)>>>,
    pub nested: RefCell<Option<Rc<dyn Fn(&Env, u8)>>>,
    /// text shared by several parses of the same `str`
    pub shared: RefCell<Option<std::sync::Arc<str>>>,
    pub after_panic: Cell<u32>,
    /// payload of the panic that was injected
    pub payload: Cell<Option<u64>>,
    /// the returned error did not read as it should
    pub bad_text: RefCell<Option<String>>,
    pub renders: RefCell<Renders>,
}

/// Room for a tape to grow.
const SLACK: usize = 24;

impl Env {
    pub fn new(plan: &Plan, count_values: bool) -> Rc<Env> {
        let cap = plan.tape.len() + SLACK;
        let mut poss = vec![plan.base];
        let mut p = plan.base;
        for i in 0..cap {
            p += if plan.geom == 0 {
                plan.tape.get(i).map_or(1, |c| c.len_utf8())
            } else {
                let mut r = Rng::new(mix(&[plan.geom, i as u64]));
                (2 + r.below(5)) << (plan.geom >> 24)
            };
            poss.push(p);
        }
        let back = poss.iter().enumerate().map(|(i, p)| (*p, i)).collect();
        let env = Rc::new(Env {
            st: RefCell::new(State {
                cells: plan
                    .tape
                    .iter()
                    .map(|c| CellSt {
                        ch: *c,
                        bad: false,
                        panics: false,
                    })
                    .collect(),
                end: plan.tape.len(),
                pass: 0,
                tick: 0,
                panic_in: None,
                panicked: false,
            }),
            plan: plan.clone(),
            poss,
            back,
            history: RefCell::new(Vec::new()),
            marks: RefCell::new(Vec::new()),
            marking: Cell::new(false),
            chain: Cell::new(0),
            steps: Cell::new(0),
            reads: Cell::new(0),
            limit: Cell::new(u64::MAX),
            fired: RefCell::new([0; KINDS.len()]),
            granted: RefCell::new(vec![false; cap + 1]),
            breaches: RefCell::new(Vec::new()),
            registry: Rc::new(Registry::default()),
            count_values,
            hook: RefCell::new(None),
            nested: RefCell::new(None),
            shared: RefCell::new(None),
            after_panic: Cell::new(0),
            payload: Cell::new(None),
            bad_text: RefCell::new(None),
            renders: RefCell::default(),
        });
        if count_values {
            let weak = Rc::downgrade(&env);
            *env.registry.boom.borrow_mut() = Some(Box::new(move |kind| {
                if let Some(e) = weak.upgrade() {
                    e.do_panic(kind)
                }
            }));
        }
        env
    }

    pub fn passes(&self) -> u32 {
        self.st.borrow().pass
    }

    pub fn text(&self) -> String {
        self.plan.tape.iter().collect()
    }

    fn breach(&self, s: String) {
        let mut b = self.breaches.borrow_mut();
        if b.len() < 20 {
            b.push(s);
        }
    }

    fn step(&self, what: Step) {
        self.steps.set(self.steps.get() + 1);
        if self.st.borrow().panicked {
            self.after_panic.set(self.after_panic.get() + 1);
        }
        if self.steps.get() > self.limit.get() {
            std::panic::panic_any(Budget);
        }
        let hook = self.hook.borrow().clone();
        if let Some(h) = hook {
            h(self, what);
        }
    }

    /// A piece of an error's text reached a sink.
    pub fn rendered(&self) {
        let hook = self.hook.borrow().clone();
        if let Some(h) = hook {
            h(self, Step::Render);
        }
    }

    fn do_panic(&self, kind: usize) -> ! {
        self.fired.borrow_mut()[kind] += 1;
        let (pass, tick) = {
            let mut st = self.st.borrow_mut();
            st.panicked = true;
            (st.pass, st.tick)
        };
        self.registry.disarm();
        let payload = payload_number(mix(&[self.plan.seed, pass as u64, tick as u64, kind as u64]));
        self.payload.set(Some(payload));
        throw(payload)
    }

    /// The index of the element at a position the parser asks about.
    fn index(&self, pos: usize, what: &str) -> Option<usize> {
        match self.back.get(&pos) {
            Some(&i) => {
                if !self.granted.borrow()[i] {
                    self.breach(format!(
                        "{} at position {} (element {}), which was never handed out",
                        what, pos, i
                    ));
                }
                Some(i)
            }
            None => {
                self.breach(format!("{} at invalid position {}", what, pos));
                None
            }
        }
    }

    fn grant(&self, i: usize) -> usize {
        self.granted.borrow_mut()[i] = true;
        self.poss[i]
    }

    // ------------------------------------------------------------ input access

    pub fn start(&self) -> usize {
        self.grant(0)
    }

    fn read(&self) {
        self.reads.set(self.reads.get() + 1);
        self.step(Step::Read);
        let boom = {
            let mut st = self.st.borrow_mut();
            match &mut st.panic_in {
                Some(0) => true,
                Some(k) => {
                    *k -= 1;
                    false
                }
                None => false,
            }
        };
        if boom {
            self.st.borrow_mut().panic_in = None;
            self.do_panic(7);
        }
    }

    fn fetch(&self, i: usize) -> Option<char> {
        let c = {
            let st = self.st.borrow();
            if i >= st.end {
                return None;
            }
            st.cells[i]
        };
        if c.panics {
            self.do_panic(8);
        }
        if c.bad {
            None
        } else {
            Some(c.ch)
        }
    }

    pub fn eof(&self, pos: usize) -> bool {
        self.read();
        match self.index(pos, "end-of-input check") {
            Some(i) => i >= self.st.borrow().end,
            None => true,
        }
    }

    pub fn repr(&self, pos: usize) -> usize {
        self.index(pos, "position report");
        pos
    }

    pub fn elem(&self, pos: usize) -> Option<(usize, char)> {
        self.read();
        let i = self.index(pos, "element access")?;
        let c = self.fetch(i)?;
        Some((self.grant(i + 1), c))
    }

    pub fn literal(&self, pos: usize, lit: &str) -> Option<usize> {
        self.read();
        let mut i = self.index(pos, "literal match")?;
        for c in lit.chars() {
            if self.fetch(i)? != c {
                return None;
            }
            i += 1;
        }
        Some(self.grant(i))
    }

    pub fn slice(&self, p1: usize, p2: usize) -> String {
        self.read();
        let a = self.index(p1, "slice start");
        let b = self.index(p2, "slice end");
        match (a, b) {
            (Some(a), Some(b)) => {
                if a > b {
                    self.breach(format!("slice from {} back to {}", p1, p2));
                    return String::new();
                }
                let st = self.st.borrow();
                st.cells[a.min(st.cells.len())..b.min(st.cells.len())]
                    .iter()
                    .map(|c| c.ch)
                    .collect()
            }
            _ => String::new(),
        }
    }

    // ------------------------------------------------------------ user code

    /// Start of a user-code call: apply the faults planned for it. Returns true
    /// if the call must refuse.
    fn tick(&self) -> bool {
        self.step(Step::Call);
        let (pass, tick) = {
            let mut st = self.st.borrow_mut();
            st.tick += 1;
            (st.pass, st.tick)
        };
        self.apply(pass, tick)
    }

    fn apply(&self, pass: u32, tick: u32) -> bool {
        let mut refuse = false;
        let mut panic = false;
        let mut nested = vec![];
        for p in &self.plan.faults {
            if p.pass != pass || p.tick != tick {
                continue;
            }
            let mut st = self.st.borrow_mut();
            let hit = match &p.fault {
                Fault::Flip(i, c) => match st.cells.get_mut(*i) {
                    Some(x) => {
                        let hit = x.ch != *c;
                        x.ch = *c;
                        hit
                    }
                    None => false,
                },
                Fault::Bad(i) => match st.cells.get_mut(*i) {
                    Some(x) => {
                        let hit = !x.bad;
                        x.bad = true;
                        hit
                    }
                    None => false,
                },
                Fault::Heal(i) => match st.cells.get_mut(*i) {
                    Some(x) => {
                        let hit = x.bad || x.panics;
                        x.bad = false;
                        x.panics = false;
                        hit
                    }
                    None => false,
                },
                Fault::Cut(n) => {
                    let hit = *n < st.end;
                    st.end = st.end.min(*n);
                    hit
                }
                Fault::Grow(cs) => {
                    let end = st.end;
                    st.cells.truncate(end);
                    for c in cs {
                        if st.cells.len() + 4 < self.poss.len() {
                            st.cells.push(CellSt {
                                ch: *c,
                                bad: false,
                                panics: false,
                            });
                        }
                    }
                    st.end = st.cells.len();
                    st.end > end
                }
                Fault::Refuse => {
                    refuse = true;
                    false // counted where it has an effect
                }
                Fault::Panic => {
                    panic = true;
                    false // counted by do_panic
                }
                Fault::PanicRead(k) => {
                    st.panic_in = Some(*k);
                    false
                }
                Fault::PanicCell(i) => {
                    if let Some(x) = st.cells.get_mut(*i) {
                        x.panics = true;
                    }
                    false
                }
                Fault::PanicClone(k) => {
                    self.registry.clone_in.set(*k as i64);
                    false
                }
                Fault::PanicDrop(k) => {
                    self.registry.drop_in.set(*k as i64);
                    false
                }
                Fault::Nested(k) => {
                    nested.push(*k);
                    true
                }
            };
            if hit {
                self.fired.borrow_mut()[p.fault.kind()] += 1;
            }
        }
        for k in nested {
            let f = self.nested.borrow().clone();
            if let Some(f) = f {
                f(self, k);
            }
        }
        if panic {
            self.do_panic(6);
        }
        refuse
    }

    #[inline(never)]
    fn mark(&self) {
        let here = 0u8;
        let c = self.chain.get();
        let m = if c != 0 { c } else { std::hint::black_box(&here) as *const u8 as u64 };
        self.marks.borrow_mut().push(m);
    }

    fn log(&self, what: What, id: u32, arg: u64, ans: u64) {
        if self.marking.get() {
            self.mark();
        }
        let pass = self.st.borrow().pass;
        self.history.borrow_mut().push(Event {
            what,
            id,
            arg,
            ans,
            pass,
        });
    }

    fn nonce(&self, salt: u64) -> u64 {
        if self.plan.pure_nonce {
            salt % 1_000_003
        } else {
            self.history.borrow().len() as u64
        }
    }

    fn node(&self, id: u32, nonce: u64, kids: Vec<Val>) -> Val {
        if kids.iter().map(|k| k.size()).sum::<u64>() > MAX_NODES {
            std::panic::panic_any(Budget);
        }
        let tok = if self.count_values {
            Token::new(&self.registry)
        } else {
            Token::none()
        };
        Val::node(id, nonce, kids, tok)
    }

    /// Start of a pass (user code at the head of every exported rule).
    pub fn pass(&self, pos: usize) -> usize {
        self.step(Step::Call);
        self.index(pos, "pass marker");
        let pass = {
            let mut st = self.st.borrow_mut();
            st.pass += 1;
            st.tick = 0;
            st.pass
        };
        self.log(What::Pass, 0, pos as u64, 1);
        self.apply(pass, 0);
        pos
    }

    /// A marker in a rule body: matches without consuming.
    pub fn enter(&self, rule: u32, pos: usize) -> usize {
        self.tick();
        self.index(pos, "custom expression");
        self.log(What::Enter, rule, pos as u64, 1);
        pos
    }

    fn custom_like(&self, what: What, kind: CbKind, id: u32, pos: usize) -> Option<(usize, Val)> {
        let refuse = self.tick();
        let i = match self.index(pos, "custom expression") {
            Some(i) => i,
            None => {
                self.log(what, id, pos as u64, 0);
                return None;
            }
        };
        let h = mix(&[self.plan.seed, 77, id as u64, pos as u64]);
        let base = (h % 100) as u32 >= self.plan.refuse_pct;
        let res = if !base {
            None
        } else {
            let n = match kind {
                CbKind::Zero => 0,
                CbKind::Consume => 1 + ((h >> 8) % 3 == 0) as usize,
            };
            let mut ok = true;
            for k in 0..n {
                ok = ok && self.fetch(i + k).is_some();
            }
            if ok {
                Some(i + n)
            } else {
                None
            }
        };
        let res = match res {
            Some(_) if refuse => {
                self.fired.borrow_mut()[5] += 1;
                None
            }
            r => r,
        };
        match res {
            Some(j) => {
                let nonce = self.nonce(mix(&[1, id as u64, pos as u64]));
                self.log(what, id, pos as u64, j as u64 + 1);
                Some((self.grant(j), self.node(id, nonce, vec![])))
            }
            None => {
                self.log(what, id, pos as u64, 0);
                None
            }
        }
    }

    pub fn custom(&self, kind: CbKind, id: u32, pos: usize) -> Option<(usize, Val)> {
        self.custom_like(What::Custom, kind, id, pos)
    }

    pub fn method(&self, kind: CbKind, id: u32, pos: usize) -> Option<(usize, Val)> {
        self.custom_like(What::Method, kind, id, pos)
    }

    pub fn guard(&self, id: u32, c: char) -> bool {
        let refuse = self.tick();
        let h = mix(&[self.plan.seed, 78, id as u64, c as u64]);
        let mut ok = h % 100 < 60;
        if refuse && ok {
            self.fired.borrow_mut()[5] += 1;
            ok = false;
        }
        self.log(What::Guard, id, c as u64, ok as u64);
        ok
    }

    pub fn cond(&self, id: u32, kids: Vec<Val>) -> Result<Val, &'static str> {
        let refuse = self.tick();
        let d = digest(&kids, false);
        let h = mix(&[self.plan.seed, 79, id as u64, d]);
        let mut ok = (h % 100) as u32 >= self.plan.refuse_pct;
        if refuse && ok {
            self.fired.borrow_mut()[5] += 1;
            ok = false;
        }
        let full = digest(&kids, true);
        if ok {
            let nonce = self.nonce(mix(&[2, id as u64, full]));
            self.log(What::Cond, id, full, 1);
            Ok(self.node(id, nonce, kids))
        } else {
            self.log(What::Cond, id, full, 0);
            Err(CONDS[(h >> 9) as usize % CONDS.len()])
        }
    }

    pub fn action(&self, id: u32, kids: Vec<Val>) -> Val {
        self.tick();
        let full = digest(&kids, true);
        let nonce = self.nonce(mix(&[3, id as u64, full]));
        self.log(What::Action, id, full, 1);
        self.node(id, nonce, kids)
    }

    /// A repeat bound or rule argument: constant for the run, no event.
    pub fn bound(&self, id: u32) -> usize {
        let h = mix(&[self.plan.seed, 80, id as u64]);
        if self.plan.seed % 32 == 7 && h >> 60 < 6 {
            // now and then more than a byte can count
            return 200 + (h % 150) as usize;
        }
        (h % 4) as usize
    }

    pub fn history_digest(&self) -> u64 {
        let mut acc = 1;
        for e in self.history.borrow().iter() {
            acc = mix(&[acc, e.what as u64, e.id as u64, e.arg, e.ans, e.pass as u64]);
        }
        acc
    }
}

fn digest(vs: &[Val], nonces: bool) -> u64 {
    let mut acc = vs.len() as u64;
    for v in vs {
        acc = mix(&[acc, v.digest(nonces)]);
    }
    acc
}
