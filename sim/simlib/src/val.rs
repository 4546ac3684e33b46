//! Values that simulated user code produces. Every node carries a token that is
//! counted when it is made, cloned and dropped, so values can be conserved.

use crate::rng::mix;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub struct Registry {
    pub made: Cell<u64>,
    pub cloned: Cell<u64>,
    pub dropped: Cell<u64>,
    /// how many more values may be copied / dropped before one panics; negative: any
    pub clone_in: Cell<i64>,
    pub drop_in: Cell<i64>,
    pub boom: RefCell<Option<Box<dyn Fn(usize)>>>,
}

impl Default for Registry {
    fn default() -> Registry {
        Registry {
            made: Cell::new(0),
            cloned: Cell::new(0),
            dropped: Cell::new(0),
            clone_in: Cell::new(-1),
            drop_in: Cell::new(-1),
            boom: RefCell::new(None),
        }
    }
}

impl std::fmt::Debug for Registry {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Registry")
    }
}

impl Registry {
    pub fn live(&self) -> i64 {
        self.made.get() as i64 + self.cloned.get() as i64 - self.dropped.get() as i64
    }
    /// No value panics from now on.
    pub fn disarm(&self) {
        self.clone_in.set(-1);
        self.drop_in.set(-1);
    }
    fn tick(&self, c: &Cell<i64>, kind: usize) {
        let k = c.get();
        if k < 0 || std::thread::panicking() {
            return;
        }
        c.set(k - 1);
        if k == 0 {
            if let Some(f) = &*self.boom.borrow() {
                f(kind)
            }
        }
    }
}

#[derive(Debug)]
pub struct Token(Option<Rc<Registry>>);

impl Token {
    pub fn none() -> Token {
        Token(None)
    }
    pub fn new(reg: &Rc<Registry>) -> Token {
        reg.made.set(reg.made.get() + 1);
        Token(Some(reg.clone()))
    }
}
impl Clone for Token {
    fn clone(&self) -> Token {
        if let Some(r) = &self.0 {
            r.tick(&r.clone_in, 10);
            r.cloned.set(r.cloned.get() + 1);
        }
        Token(self.0.clone())
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        if let Some(r) = &self.0 {
            r.dropped.set(r.dropped.get() + 1);
            r.tick(&r.drop_in, 11);
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    Unit,
    Elem(char),
    Slice(String),
    Num(u64),
    None,
    Some(Box<Val>),
    List(Vec<Val>),
    Node {
        id: u32,
        nonce: u64,
        kids: Vec<Val>,
        tok: Token,
        /// digests without and with nonces, and the size
        sums: (u64, u64, u64),
    },
}

/// Values a run may not build: some grammars double a value at every step.
pub const MAX_NODES: u64 = 6000;

impl Val {
    /// A digest of the value; with `nonces` it also tells apart two evaluations
    /// of the same user code.
    pub fn digest(&self, nonces: bool) -> u64 {
        match self {
            Val::Unit => 11,
            Val::Elem(c) => mix(&[12, *c as u64]),
            Val::Slice(s) => mix(&[13, crate::rng::hash_bytes(s.as_bytes())]),
            Val::Num(n) => mix(&[14, *n]),
            Val::None => 15,
            Val::Some(v) => mix(&[16, v.digest(nonces)]),
            Val::List(vs) => digest_all(17, vs, nonces),
            Val::Node { sums, .. } => {
                if nonces {
                    sums.1
                } else {
                    sums.0
                }
            }
        }
    }

    pub fn node(id: u32, nonce: u64, kids: Vec<Val>, tok: Token) -> Val {
        let sums = (
            mix(&[18, id as u64, 0, digest_all(19, &kids, false)]),
            mix(&[18, id as u64, nonce, digest_all(19, &kids, true)]),
            1 + kids.iter().map(|k| k.size()).sum::<u64>(),
        );
        Val::Node {
            id,
            nonce,
            kids,
            tok,
            sums,
        }
    }

    /// About how much memory the value takes, in values.
    pub fn size(&self) -> u64 {
        match self {
            Val::Some(v) => 1 + v.size(),
            Val::List(vs) => 1 + vs.iter().map(|v| v.size()).sum::<u64>(),
            Val::Node { sums, .. } => sums.2,
            Val::Slice(s) => 1 + s.len() as u64 / 64,
            _ => 1,
        }
    }

    pub fn count_nodes(&self) -> u64 {
        match self {
            Val::Some(v) => v.count_nodes(),
            Val::List(vs) => vs.iter().map(|v| v.count_nodes()).sum(),
            Val::Node { kids, .. } => 1 + kids.iter().map(|v| v.count_nodes()).sum::<u64>(),
            _ => 0,
        }
    }

    pub fn show(&self, out: &mut String) {
        match self {
            Val::Unit => out.push_str("()"),
            Val::Elem(c) => out.push_str(&format!("{:?}", c)),
            Val::Slice(s) => out.push_str(&format!("${:?}", s)),
            Val::Num(n) => out.push_str(&format!("{}", n)),
            Val::None => out.push('-'),
            Val::Some(v) => {
                out.push('?');
                v.show(out)
            }
            Val::List(vs) => {
                out.push('[');
                for (i, v) in vs.iter().enumerate() {
                    if i > 0 {
                        out.push(' ');
                    }
                    v.show(out);
                }
                out.push(']');
            }
            Val::Node {
                id, nonce, kids, ..
            } => {
                out.push_str(&format!("n{}#{}(", id, nonce));
                for (i, v) in kids.iter().enumerate() {
                    if i > 0 {
                        out.push(' ');
                    }
                    v.show(out);
                }
                out.push(')');
            }
        }
    }

    pub fn to_text(&self) -> String {
        let mut s = String::new();
        self.show(&mut s);
        s
    }
}

fn digest_all(tag: u64, vs: &[Val], nonces: bool) -> u64 {
    let mut acc = mix(&[tag, vs.len() as u64]);
    for v in vs {
        acc = mix(&[acc, v.digest(nonces)]);
    }
    acc
}

/// Native Rust results of peg expressions, as they reach user actions.
pub trait IntoVal {
    fn into_val(self) -> Val;
    /// A small number derived from the value, used as a repeat bound.
    fn hint(&self) -> usize;
}
impl IntoVal for () {
    fn into_val(self) -> Val {
        Val::Unit
    }
    fn hint(&self) -> usize {
        1
    }
}
impl IntoVal for char {
    fn into_val(self) -> Val {
        Val::Elem(self)
    }
    fn hint(&self) -> usize {
        *self as usize % 3
    }
}
impl IntoVal for u8 {
    fn into_val(self) -> Val {
        Val::Elem(self as char)
    }
    fn hint(&self) -> usize {
        *self as usize % 3
    }
}
impl<'a> IntoVal for &'a [u8] {
    fn into_val(self) -> Val {
        Val::Slice(String::from_utf8_lossy(self).to_string())
    }
    fn hint(&self) -> usize {
        self.len() % 3
    }
}
impl IntoVal for usize {
    fn into_val(self) -> Val {
        Val::Num(self as u64)
    }
    fn hint(&self) -> usize {
        *self % 3
    }
}
impl IntoVal for String {
    fn into_val(self) -> Val {
        Val::Slice(self)
    }
    fn hint(&self) -> usize {
        self.chars().count() % 3
    }
}
impl<'a> IntoVal for &'a str {
    fn into_val(self) -> Val {
        Val::Slice(self.to_string())
    }
    fn hint(&self) -> usize {
        self.chars().count() % 3
    }
}
impl<T: IntoVal> IntoVal for Option<T> {
    fn into_val(self) -> Val {
        match self {
            Some(v) => Val::Some(Box::new(v.into_val())),
            None => Val::None,
        }
    }
    fn hint(&self) -> usize {
        match self {
            Some(v) => v.hint(),
            None => 0,
        }
    }
}
impl<T: IntoVal> IntoVal for Vec<T> {
    fn into_val(self) -> Val {
        Val::List(self.into_iter().map(|x| x.into_val()).collect())
    }
    fn hint(&self) -> usize {
        self.len() % 3
    }
}
impl IntoVal for Val {
    fn into_val(self) -> Val {
        self
    }
    fn hint(&self) -> usize {
        match self {
            Val::Unit => 1,
            Val::Elem(c) => *c as usize % 3,
            Val::Slice(s) => s.chars().count() % 3,
            Val::Num(n) => *n as usize % 3,
            Val::None => 0,
            Val::Some(v) => v.hint(),
            Val::List(v) => v.len() % 3,
            Val::Node { id, .. } => *id as usize % 3,
        }
    }
}

pub fn val<T: IntoVal>(t: T) -> Val {
    t.into_val()
}
pub fn hint<T: IntoVal>(t: &T) -> usize {
    t.hint()
}
