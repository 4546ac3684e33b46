//! The message formats: grammars under test, independent reference decoders,
//! and generators of messages. A stream is always bytes; what a parser sees
//! is the valid text, the bytes, or one token per byte.

use simlib::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tok {
    Open,
    Close,
    Comma,
    End,
    Num(u32),
    Word(char),
    Junk(u8),
}

pub fn tok(b: u8) -> Tok {
    match b {
        0 => Tok::Open,
        1 => Tok::Close,
        2 => Tok::Comma,
        3 => Tok::End,
        16..=127 => Tok::Num(b as u32 * 1000),
        128..=200 => Tok::Word(char::from_u32(0x3b1 + (b as u32 - 128)).unwrap()),
        _ => Tok::Junk(b),
    }
}

fn xor(b: &[u8]) -> u8 {
    b.iter().fold(0x5a, |a, x| a.rotate_left(1) ^ x)
}

fn show(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

peg::parser! { pub grammar kv() for str {
    #[no_eof]
    pub rule msg() -> (String, usize) = m:item() p:position!() { (m, p) }
    pub rule all() -> Vec<String> = m:item()* ws() { m }
    rule ws() = [' ' | '\n' | '\t']*
    rule item() -> String = ws() k:$(name()+) ws() "=" ws() v:value() ws() ";" { format!("{}={}", k, v) }
    rule name() = ['a'..='z' | 'α'..='ω' | '漢' | '_']
    rule value() -> String
        = n:$(['0'..='9']*<1,6>) { n.to_string() }
        / "\"" c:char()* "\"" { format!("{:?}", c.into_iter().collect::<String>()) }
        / "[" ws() v:(value() ** (ws() "," ws())) ws() "]" { format!("[{}]", v.join("|")) }
    rule char() -> char = [^ '"' | '\\'] / "\\" c:['"' | '\\' | 'é'] { c }
} }

peg::parser! { pub grammar expr() for str {
    #[no_eof]
    pub rule msg() -> (String, usize) = m:item() p:position!() { (m, p) }
    pub rule all() -> Vec<String> = m:item()* ws() { m }
    rule ws() = [' ' | '\n']*
    rule item() -> String = ws() e:e() ws() ";" { e }
    rule e() -> String = precedence! {
        x:(@) "+" y:@ { format!("({}+{})", x, y) }
        x:(@) "-" y:@ { format!("({}-{})", x, y) }
        --
        x:(@) "×" y:@ { format!("({}*{})", x, y) }
        --
        x:@ "^" y:(@) { format!("({}^{})", x, y) }
        --
        "-" x:(@) { format!("(-{})", x) }
        --
        x:(@) "!" { format!("({}!)", x) }
        --
        n:$(['0'..='9']+) { n.to_string() }
        "(" e:e() ")" { e }
    }
} }

peg::parser! { pub grammar path() for str {
    #[no_eof]
    pub rule msg() -> (String, usize) = m:item() p:position!() { (m, p) }
    pub rule all() -> Vec<String> = m:item()* { m }
    rule item() -> String = c:chain() ";" { c }
    #[cache_left_rec]
    rule chain() -> String
        = l:chain() "." n:name() { format!("({}.{})", l, n) }
        / l:chain() "(" a:(chain() ** ",") ")" { format!("{}[{}]", l, a.join("|")) }
        / name()
    #[cache]
    rule name() -> String = n:$(['a'..='z' | 'é' | '\n']+) { n.replace('\n', "_") }
} }

peg::parser! { pub grammar words() for str {
    #[no_eof]
    pub rule msg() -> (String, usize) = m:item() p:position!() { (m, p) }
    pub rule all() -> Vec<String> = m:item()* ws() { m }
    rule ws() = quiet!{ [' ' | '\n']* }
    rule item() -> String
        = ws() "begin" v:item()* ws() "end" { format!("({})", v.join(" ")) }
        / ws() "be!" { "be".to_string() }
        / ws() "→→" n:$(['0'..='9']+) "." { format!("arrow{}", n) }
        / ws() "né" b:$((!"né" [_])*) "né" { format!("né<{}>", b) }
} }

peg::parser! { pub grammar tlv() for [u8] {
    #[no_eof]
    pub rule msg() -> (String, usize) = m:frame() p:position!() { (m, p) }
    pub rule all() -> Vec<String> = frame()*
    rule frame() -> String
        = [0xa5] [1] n:[_] b:$([_]*<{n as usize}>) c:[_] {?
            if xor(b) == c { Ok(format!("raw{}", show(b))) } else { Err("checksum") }
        }
        / [0xa5] [2] n:[1..=9] f:frame()*<{n as usize}> { format!("seq[{}]", f.join("|")) }
        / [0xa5] [3] hi:[_] lo:[_] { format!("num{}", hi as u32 * 256 + lo as u32) }
} }

peg::parser! { pub grammar http() for [u8] {
    #[no_eof]
    pub rule msg() -> (String, usize) = m:message() p:position!() { (m, p) }
    pub rule all() -> Vec<String> = message()*
    rule message() -> String = "MSG " n:num() "\r\n" h:header()* "\r\n" b:$([_]*<{n}>) "\r\n" {
        format!("{}{{{}}}", h.join(","), show(b))
    }
    rule num() -> usize = d:$([b'0'..=b'9']*<1,2>) { std::str::from_utf8(d).unwrap().parse().unwrap() }
    rule header() -> String = k:$([b'a'..=b'z' | b'-']+) ": " v:$((!"\r\n" [_])*) "\r\n" {
        format!("{}:{}", show(k), show(v))
    }
} }

peg::parser! { pub grammar sexp() for [Tok] {
    #[no_eof]
    pub rule msg() -> (String, usize) = m:item() p:position!() { (m, p) }
    pub rule all() -> Vec<String> = item()*
    rule item() -> String = e:sexp() [Tok::End] { e }
    rule sexp() -> String
        = t:[Tok::Num(_) | Tok::Word(_)] { format!("{:?}", t) }
        / [Tok::Open] v:(sexp() ** [Tok::Comma]) s:$([Tok::Close]) { format!("({}){}", v.join(" "), s.len()) }
} }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Text,
    Bytes,
    Tokens,
}

pub const FORMATS: [(&str, Kind, usize); 7] = [
    // name, input, length of the longest literal: a failure this close to the
    // end of the data can be cured by more data
    ("kv", Kind::Text, 1),
    ("expr", Kind::Text, 2),
    ("path", Kind::Text, 1),
    ("words", Kind::Text, 6),
    ("tlv", Kind::Bytes, 1),
    ("http", Kind::Bytes, 4),
    ("sexp", Kind::Tokens, 1),
];

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Failure {
    pub offset: usize,
    pub line_col: Option<(usize, usize)>,
    pub expected: usize,
}

fn text_fail(e: peg::error::ParseError<peg::str::LineCol>) -> Failure {
    let shown = e.to_string();
    let expected = e.expected.tokens().count();
    assert!(!shown.is_empty());
    Failure { offset: e.location.offset, line_col: Some((e.location.line, e.location.column)), expected }
}

fn slice_fail(e: peg::error::ParseError<usize>) -> Failure {
    let _ = e.to_string();
    Failure { offset: e.location, line_col: None, expected: e.expected.tokens().count() }
}

macro_rules! dispatch {
    ($rule:ident, $fmt:expr, $data:expr) => {{
        let data: &[u8] = $data;
        let text = || std::str::from_utf8(data).unwrap();
        match $fmt {
            0 => kv::$rule(text()).map_err(text_fail),
            1 => expr::$rule(text()).map_err(text_fail),
            2 => path::$rule(text()).map_err(text_fail),
            3 => words::$rule(text()).map_err(text_fail),
            4 => tlv::$rule(data).map_err(slice_fail),
            5 => http::$rule(data).map_err(slice_fail),
            _ => {
                let toks: Vec<Tok> = data.iter().map(|b| tok(*b)).collect();
                sexp::$rule(&toks[..]).map_err(slice_fail)
            }
        }
    }};
}

pub fn real_msg(fmt: usize, data: &[u8]) -> Result<(String, usize), Failure> {
    dispatch!(msg, fmt, data)
}

pub fn real_all(fmt: usize, data: &[u8]) -> Result<Vec<String>, Failure> {
    dispatch!(all, fmt, data)
}

// ------------------------------------------------------------------ reference

/// A hand-written decoder: a cursor that remembers the furthest failed attempt.
struct Rd<'a> {
    b: &'a [u8],
    far: usize,
}

impl<'a> Rd<'a> {
    fn miss<T>(&mut self, at: usize) -> Option<T> {
        self.far = self.far.max(at);
        None
    }
    fn byte(&mut self, at: usize, ok: impl Fn(u8) -> bool) -> Option<usize> {
        if at < self.b.len() && ok(self.b[at]) {
            Some(at + 1)
        } else {
            self.miss(at)
        }
    }
    fn lit(&mut self, at: usize, l: &str) -> Option<usize> {
        if self.b[at..].starts_with(l.as_bytes()) {
            Some(at + l.len())
        } else {
            self.miss(at)
        }
    }
    fn chr(&mut self, at: usize, ok: impl Fn(char) -> bool) -> Option<(usize, char)> {
        let n = match self.b.get(at) {
            None => return self.miss(at),
            Some(0..=0x7f) => 1,
            Some(0x80..=0xdf) => 2,
            Some(0xe0..=0xef) => 3,
            Some(_) => 4,
        };
        let c = std::str::from_utf8(&self.b[at..at + n]).unwrap().chars().next().unwrap();
        if ok(c) {
            Some((at + n, c))
        } else {
            self.miss(at)
        }
    }
    fn many(&mut self, mut at: usize, ok: impl Fn(char) -> bool) -> usize {
        while let Some((n, _)) = self.chr(at, &ok) {
            at = n;
        }
        at
    }
    fn text(&self, a: usize, b: usize) -> String {
        String::from_utf8(self.b[a..b].to_vec()).unwrap()
    }

    fn kv_value(&mut self, at: usize) -> Option<(usize, String)> {
        let ws = |c| c == ' ' || c == '\n' || c == '\t';
        let mut p = at;
        let mut n = 0;
        while n < 6 {
            match self.chr(p, |c| c.is_ascii_digit()) {
                Some((q, _)) => p = q,
                None => break,
            }
            n += 1;
        }
        if n > 0 {
            return Some((p, self.text(at, p)));
        }
        if let Some(mut p) = self.lit(at, "\"") {
            let mut s = String::new();
            loop {
                if let Some((q, c)) = self.chr(p, |c| c != '"' && c != '\\') {
                    s.push(c);
                    p = q;
                } else if let Some((q, c)) =
                    self.lit(p, "\\").and_then(|q| self.chr(q, |c| c == '"' || c == '\\' || c == 'é'))
                {
                    s.push(c);
                    p = q;
                } else {
                    break;
                }
            }
            if let Some(q) = self.lit(p, "\"") {
                return Some((q, format!("{:?}", s)));
            }
        }
        let p = self.lit(at, "[")?;
        let mut p = self.many(p, ws);
        let mut vs = vec![];
        let mut next = Some(p);
        while let Some(q) = next {
            match self.kv_value(q) {
                None => break,
                Some((q, v)) => {
                    vs.push(v);
                    p = q;
                    let s = self.many(p, ws);
                    next = self.lit(s, ",").map(|s| self.many(s, ws));
                }
            }
        }
        let p = self.many(p, ws);
        let p = self.lit(p, "]")?;
        Some((p, format!("[{}]", vs.join("|"))))
    }

    fn climb(&mut self, at: usize, min: u32) -> Option<(usize, String)> {
        let (mut p, mut x) = if let Some(q) = self.lit(at, "-") {
            match self.climb(q, 3) {
                Some((q, x)) => (q, format!("(-{})", x)),
                None => self.atom(at)?,
            }
        } else {
            self.atom(at)?
        };
        loop {
            let mut grown = false;
            for (op, prec, right, shown) in
                [("+", 0, 1, '+'), ("-", 0, 1, '-'), ("×", 1, 2, '*'), ("^", 2, 2, '^'), ("!", 4, 99, '!')]
            {
                if prec < min {
                    continue;
                }
                if let Some(q) = self.lit(p, op) {
                    if right == 99 {
                        x = format!("({}!)", x);
                        p = q;
                        grown = true;
                        break;
                    }
                    if let Some((q, y)) = self.climb(q, right) {
                        x = format!("({}{}{})", x, shown, y);
                        p = q;
                        grown = true;
                        break;
                    }
                }
            }
            if !grown {
                return Some((p, x));
            }
        }
    }
    fn atom(&mut self, at: usize) -> Option<(usize, String)> {
        let p = self.many(at, |c| c.is_ascii_digit());
        if p > at {
            return Some((p, self.text(at, p)));
        }
        let p = self.lit(at, "(")?;
        let (p, e) = self.climb(p, 0)?;
        let p = self.lit(p, ")")?;
        Some((p, e))
    }

    fn chain(&mut self, at: usize) -> Option<(usize, String)> {
        let (mut p, mut x) = self.name(at)?;
        loop {
            if let Some((q, n)) = self.lit(p, ".").and_then(|q| self.name(q)) {
                x = format!("({}.{})", x, n);
                p = q;
                continue;
            }
            let Some(mut q) = self.lit(p, "(") else { return Some((p, x)) };
            let mut args = vec![];
            let mut next = Some(q);
            while let Some(r) = next {
                match self.chain(r) {
                    None => break,
                    Some((r, a)) => {
                        args.push(a);
                        q = r;
                        next = self.lit(q, ",");
                    }
                }
            }
            let Some(q) = self.lit(q, ")") else { return Some((p, x)) };
            x = format!("{}[{}]", x, args.join("|"));
            p = q;
        }
    }
    fn name(&mut self, at: usize) -> Option<(usize, String)> {
        let p = self.many(at, |c| c.is_ascii_lowercase() || c == 'é' || c == '\n');
        if p == at {
            return None;
        }
        Some((p, self.text(at, p).replace('\n', "_")))
    }

    /// Like `many` for blank space, but failures are not reported.
    fn quiet_ws(&mut self, at: usize) -> usize {
        let far = self.far;
        let p = self.many(at, |c| c == ' ' || c == '\n');
        self.far = far;
        p
    }
    fn word(&mut self, at: usize) -> Option<(usize, String)> {
        let s = self.quiet_ws(at);
        if let Some(mut p) = self.lit(s, "begin") {
            let mut v = vec![];
            while let Some((q, x)) = self.word(p) {
                v.push(x);
                p = q;
            }
            let p = self.quiet_ws(p);
            if let Some(p) = self.lit(p, "end") {
                return Some((p, format!("({})", v.join(" "))));
            }
        }
        if let Some(p) = self.lit(s, "be!") {
            return Some((p, "be".to_string()));
        }
        if let Some(p) = self.lit(s, "→→") {
            let q = self.many(p, |c| c.is_ascii_digit());
            if q > p {
                if let Some(r) = self.lit(q, ".") {
                    return Some((r, format!("arrow{}", self.text(p, q))));
                }
            }
        }
        let p = self.lit(s, "né")?;
        let mut q = p;
        while !self.b[q..].starts_with("né".as_bytes()) {
            match self.chr(q, |_| true) {
                Some((r, _)) => q = r,
                None => break,
            }
        }
        let r = self.lit(q, "né")?;
        Some((r, format!("né<{}>", self.text(p, q))))
    }

    fn frame(&mut self, at: usize) -> Option<(usize, String)> {
        let k = self.byte(at, |b| b == 0xa5)?;
        let p = k + 1;
        match self.b.get(k) {
            Some(1) => {
                let n = match self.b.get(p) {
                    None => return self.miss(p),
                    Some(n) => *n as usize,
                };
                let body = p + 1;
                let end = body + n;
                if self.b.len() <= end {
                    return self.miss(self.b.len());
                }
                if xor(&self.b[body..end]) != self.b[end] {
                    self.miss::<()>(k);
                    return self.miss(end + 1);
                }
                Some((end + 1, format!("raw{}", show(&self.b[body..end]))))
            }
            Some(2) => {
                let n = match self.b.get(p) {
                    Some(n @ 1..=9) => *n,
                    _ => return self.miss(p),
                };
                let mut q = p + 1;
                let mut v = vec![];
                for _ in 0..n {
                    let (r, x) = self.frame(q)?;
                    q = r;
                    v.push(x);
                }
                Some((q, format!("seq[{}]", v.join("|"))))
            }
            Some(3) => {
                if self.b.len() < p + 2 {
                    return self.miss(self.b.len());
                }
                Some((p + 2, format!("num{}", self.b[p] as u32 * 256 + self.b[p + 1] as u32)))
            }
            _ => self.miss(k),
        }
    }

    fn message(&mut self, at: usize) -> Option<(usize, String)> {
        let p = self.lit(at, "MSG ")?;
        let mut q = p;
        while q < p + 2 {
            match self.byte(q, |b| b.is_ascii_digit()) {
                Some(r) => q = r,
                None => break,
            }
        }
        if q == p {
            return None;
        }
        let n: usize = self.text(p, q).parse().unwrap();
        let mut p = self.lit(q, "\r\n")?;
        let mut hs = vec![];
        while let Some((q, h)) = self.header(p) {
            hs.push(h);
            p = q;
        }
        let p = self.lit(p, "\r\n")?;
        if self.b.len() < p + n {
            return self.miss(self.b.len());
        }
        let q = self.lit(p + n, "\r\n")?;
        Some((q, format!("{}{{{}}}", hs.join(","), show(&self.b[p..p + n]))))
    }
    fn header(&mut self, at: usize) -> Option<(usize, String)> {
        let mut k = at;
        while let Some(n) = self.byte(k, |b| b.is_ascii_lowercase() || b == b'-') {
            k = n;
        }
        if k == at {
            return None;
        }
        let v = self.lit(k, ": ")?;
        let mut q = v;
        while !self.b[q..].starts_with(b"\r\n") {
            if q == self.b.len() {
                return self.miss(q);
            }
            q += 1;
        }
        Some((q + 2, format!("{}:{}", show(&self.b[at..k]), show(&self.b[v..q]))))
    }

    fn sexp(&mut self, at: usize) -> Option<(usize, String)> {
        match self.b.get(at).map(|b| tok(*b)) {
            Some(t @ (Tok::Num(_) | Tok::Word(_))) => Some((at + 1, format!("{:?}", t))),
            Some(Tok::Open) => {
                let mut p = at + 1;
                let mut v = vec![];
                let mut next = Some(p);
                while let Some(q) = next {
                    match self.sexp(q) {
                        None => break,
                        Some((r, x)) => {
                            v.push(x);
                            p = r;
                            next = self.byte(p, |b| b == 2);
                        }
                    }
                }
                let p = self.byte(p, |b| b == 1)?;
                Some((p, format!("({})1", v.join(" "))))
            }
            _ => self.miss(at),
        }
    }

    fn item(&mut self, fmt: usize, at: usize) -> Option<(usize, String)> {
        let ws = |c| c == ' ' || c == '\n' || (c == '\t' && fmt == 0);
        match fmt {
            0 => {
                let p = self.many(at, ws);
                let q = self.many(p, |c| c.is_ascii_lowercase() || ('α'..='ω').contains(&c) || c == '漢' || c == '_');
                if q == p {
                    return None;
                }
                let name = self.text(p, q);
                let p = self.many(q, ws);
                let p = self.lit(p, "=")?;
                let p = self.many(p, ws);
                let (p, v) = self.kv_value(p)?;
                let p = self.many(p, ws);
                let p = self.lit(p, ";")?;
                Some((p, format!("{}={}", name, v)))
            }
            1 => {
                let p = self.many(at, ws);
                let (p, e) = self.climb(p, 0)?;
                let p = self.many(p, ws);
                let p = self.lit(p, ";")?;
                Some((p, e))
            }
            2 => {
                let (p, c) = self.chain(at)?;
                let p = self.lit(p, ";")?;
                Some((p, c))
            }
            3 => self.word(at),
            4 => self.frame(at),
            5 => self.message(at),
            _ => {
                let (p, e) = self.sexp(at)?;
                let p = self.byte(p, |b| b == 3)?;
                Some((p, e))
            }
        }
    }
}

fn failure(fmt: usize, data: &[u8], far: usize) -> Failure {
    let line_col = (FORMATS[fmt].1 == Kind::Text).then(|| {
        let mut line = 1;
        let mut col = 1;
        for c in std::str::from_utf8(&data[..far]).unwrap().chars() {
            if c == '\n' {
                line += 1;
                col = 1;
            } else {
                col += 1;
            }
        }
        (line, col)
    });
    Failure { offset: far, line_col, expected: 1 }
}

pub fn ref_msg(fmt: usize, data: &[u8]) -> Result<(String, usize), Failure> {
    let mut rd = Rd { b: data, far: 0 };
    match rd.item(fmt, 0) {
        Some((p, s)) => Ok((s, p)),
        None => Err(failure(fmt, data, rd.far)),
    }
}

pub fn ref_all(fmt: usize, data: &[u8]) -> Result<Vec<String>, Failure> {
    let mut rd = Rd { b: data, far: 0 };
    let mut v = vec![];
    let mut p = 0;
    while let Some((q, s)) = rd.item(fmt, p) {
        v.push(s);
        p = q;
    }
    if fmt == 0 || fmt == 1 {
        p = rd.many(p, |c| c == ' ' || c == '\n' || (c == '\t' && fmt == 0));
    } else if fmt == 3 {
        p = rd.quiet_ws(p);
    }
    if p == data.len() {
        Ok(v)
    } else {
        rd.miss::<()>(p);
        Err(failure(fmt, data, rd.far))
    }
}

// ------------------------------------------------------------------ messages

fn blank(r: &mut Rng, out: &mut String) {
    for _ in 0..r.weighted(&[6, 3, 1, 1]) {
        out.push(*r.pick(&[' ', '\n', ' ', '\n']));
    }
}

fn digits(r: &mut Rng, max: usize) -> String {
    (0..r.range(1, max)).map(|_| (b'0' + r.below(10) as u8) as char).collect()
}

fn gen_value(r: &mut Rng, out: &mut String, depth: usize) {
    match r.weighted(&[4, 4, if depth > 0 { 3 } else { 0 }]) {
        0 => out.push_str(&digits(r, 6)),
        1 => {
            out.push('"');
            for _ in 0..r.below(6) {
                match r.below(5) {
                    0 => out.push_str(*r.pick(&["\\\"", "\\\\", "\\é"])),
                    1 => out.push(*r.pick(&['é', '漢', '🦀', '\n', '\u{1}', '\u{7ff}', '\u{ffff}'])),
                    // what other notions of lines and columns treat in their own way
                    2 => out.push(*r.pick(&['\t', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{301}', '\u{feff}', '\u{200d}', 'Ａ', '\0', '\u{10ffff}'])),
                    _ => out.push(*r.pick(&['a', ' ', ';', '=', ']', 'z'])),
                }
            }
            out.push('"');
        }
        _ => {
            out.push('[');
            blank(r, out);
            let n = r.below(4);
            for i in 0..n {
                if i > 0 {
                    blank(r, out);
                    out.push(',');
                    blank(r, out);
                }
                gen_value(r, out, depth - 1);
            }
            blank(r, out);
            out.push(']');
        }
    }
}

fn gen_expr(r: &mut Rng, out: &mut String, depth: usize) {
    match r.weighted(&[4, if depth > 0 { 3 } else { 0 }, if depth > 0 { 7 } else { 0 }, 1]) {
        0 => out.push_str(&digits(r, 3)),
        1 => {
            out.push('(');
            gen_expr(r, out, depth - 1);
            out.push(')');
        }
        2 => {
            gen_expr(r, out, depth - 1);
            out.push_str(*r.pick(&["+", "-", "×", "^", "!+", "!×"]));
            gen_expr(r, out, depth - 1);
        }
        _ => {
            out.push('-');
            out.push_str(&digits(r, 2));
            if r.chance(40) {
                out.push('!');
            }
        }
    }
}

fn gen_name(r: &mut Rng, out: &mut String) {
    for _ in 0..r.range(1, 4) {
        out.push(*r.pick(&['a', 'b', 'z', 'é', '\n']));
    }
}

fn gen_chain(r: &mut Rng, out: &mut String, depth: usize) {
    gen_name(r, out);
    for _ in 0..r.below(4) {
        if depth > 0 && r.chance(40) {
            out.push('(');
            for i in 0..r.below(4) {
                if i > 0 {
                    out.push(',');
                }
                gen_chain(r, out, depth - 1);
            }
            out.push(')');
        } else {
            out.push('.');
            gen_name(r, out);
        }
    }
}

fn gen_word(r: &mut Rng, out: &mut String, depth: usize) {
    if r.chance(40) {
        out.push(*r.pick(&[' ', '\n']));
    }
    match r.weighted(&[if depth > 0 { 3 } else { 0 }, 2, 3, 2]) {
        0 => {
            out.push_str("begin");
            for _ in 0..r.below(4) {
                gen_word(r, out, depth - 1);
            }
            if r.chance(40) {
                out.push('\n');
            }
            out.push_str("end");
        }
        1 => out.push_str("be!"),
        2 => {
            out.push_str("→→");
            out.push_str(&digits(r, 3));
            out.push('.');
        }
        _ => {
            out.push_str("né");
            for _ in 0..r.below(5) {
                out.push(*r.pick(&['n', 'e', 'é', '→', '\n', 'x']));
                if out.ends_with("né") {
                    out.pop();
                }
            }
            out.push_str("né");
        }
    }
}

fn gen_frame(r: &mut Rng, out: &mut Vec<u8>, depth: usize) {
    out.push(0xa5);
    match r.weighted(&[4, if depth > 0 { 2 } else { 0 }, 3]) {
        0 => {
            let n = *r.pick(&[0, 1, 2, 5, 17]);
            let b: Vec<u8> = (0..n).map(|_| *r.pick(&[0xa5, 1, 2, 3, 0, 0xff, 0x0a])).collect();
            out.extend([1, n as u8]);
            out.extend(&b);
            out.push(xor(&b));
        }
        1 => {
            let n = r.range(1, 4);
            out.extend([2, n as u8]);
            for _ in 0..n {
                gen_frame(r, out, depth - 1);
            }
        }
        _ => out.extend([3, r.below(256) as u8, r.below(256) as u8]),
    }
}

fn gen_message(r: &mut Rng, out: &mut Vec<u8>) {
    let n = *r.pick(&[0usize, 1, 2, 4, 11]);
    out.extend(format!("MSG {}{}\r\n", if n < 10 && r.chance(30) { "0" } else { "" }, n).bytes());
    for _ in 0..r.below(4) {
        for _ in 0..r.range(1, 4) {
            out.push(*r.pick(&[b'a', b'x', b'-']));
        }
        out.extend(b": ");
        for _ in 0..r.below(6) {
            let c = *r.pick(&[b'v', b'\r', b' ', 0xff, b'M', b':']);
            out.push(c);
        }
        if out.last() == Some(&b'\n') {
            out.pop();
        }
        out.extend(b"\r\n");
    }
    out.extend(b"\r\n");
    for _ in 0..n {
        out.push(*r.pick(&[b'\r', b'\n', b'M', 0, 0xc3]));
    }
    out.extend(b"\r\n");
}

fn gen_sexp(r: &mut Rng, out: &mut Vec<u8>, depth: usize) {
    match r.weighted(&[3, 3, if depth > 0 { 4 } else { 0 }]) {
        0 => out.push(r.range(16, 127) as u8),
        1 => out.push(r.range(128, 150) as u8),
        _ => {
            out.push(0);
            for i in 0..r.below(4) {
                if i > 0 {
                    out.push(2);
                }
                gen_sexp(r, out, depth - 1);
            }
            out.push(1);
        }
    }
}

/// One message: its bytes on the wire.
pub fn gen(r: &mut Rng, fmt: usize) -> Vec<u8> {
    let mut s = String::new();
    let mut b = vec![];
    match fmt {
        0 => {
            blank(r, &mut s);
            for _ in 0..r.range(1, 4) {
                s.push(*r.pick(&['a', 'z', '_', 'λ', 'ω', '漢']));
            }
            blank(r, &mut s);
            s.push('=');
            blank(r, &mut s);
            gen_value(r, &mut s, 2);
            blank(r, &mut s);
            s.push(';');
        }
        1 => {
            blank(r, &mut s);
            gen_expr(r, &mut s, 3);
            blank(r, &mut s);
            s.push(';');
        }
        2 => {
            gen_chain(r, &mut s, 2);
            s.push(';');
        }
        3 => gen_word(r, &mut s, 2),
        4 => gen_frame(r, &mut b, 2),
        5 => gen_message(r, &mut b),
        _ => {
            gen_sexp(r, &mut b, 3);
            b.push(3);
        }
    }
    if b.is_empty() {
        s.into_bytes()
    } else {
        b
    }
}

/// A message of about `n` elements: longer than the counters and buffers that
/// an implementation might think large enough.
pub fn giant(r: &mut Rng, fmt: usize, n: usize) -> Vec<u8> {
    let fill = |r: &mut Rng, from: &[char]| -> String {
        // mostly one character, so that a line or a run gets long
        let main = *r.pick(from);
        let odd = r.below(3);
        (0..n).map(|_| if odd > 0 && r.below(50) < odd { *r.pick(from) } else { main }).collect()
    };
    let mut s = String::new();
    let mut b = vec![];
    match fmt {
        0 => match r.below(4) {
            0 => s.push_str(&format!("{}=1;", fill(r, &['a', 'z', '_', 'λ', '漢']))),
            1 => s.push_str(&format!("k=\"{}\";", fill(r, &['é', '漢', '🦀', '\n', 'a', ';', '\t', '\r', '\u{2028}', '\u{301}']))),
            2 => s.push_str(&format!("k={}7;", fill(r, &[' ', '\n', ' ', ' ']))),
            _ => s.push_str(&format!("k=[{}];", vec!["1"; n / 2].join(","))),
        },
        1 => match r.below(3) {
            0 => s.push_str(&format!("{};", fill(r, &['1', '7', '0']))),
            1 => s.push_str(&format!("{}7;", fill(r, &[' ', '\n', ' ', ' ']))),
            _ => s.push_str(&format!("{};", vec!["1"; n.min(1500)].join(*r.pick(&["+", "-", "×"])))),
        },
        2 => match r.below(2) {
            0 => s.push_str(&format!("{};", fill(r, &['a', 'é', 'z', '\n']))),
            _ => s.push_str(&format!("{};", vec!["a"; n.min(600)].join("."))),
        },
        3 => match r.below(3) {
            0 => s.push_str(&format!("né{}né", fill(r, &['n', 'e', 'é', '→', 'x']).replace("né", "nn"))),
            1 => s.push_str(&format!("→→{}.", fill(r, &['1', '7', '0']))),
            _ => s.push_str(&format!("begin{}end", "be!".repeat(n / 3))),
        },
        4 => {
            // nested frames of up to 9
            b.push(0xa5);
            b.extend([2, 9]);
            for _ in 0..9 {
                b.extend([0xa5, 2, 9]);
                for _ in 0..9 {
                    let k = (n / 81).clamp(1, 255);
                    b.extend([0xa5, 1, k as u8]);
                    let body: Vec<u8> = (0..k).map(|i| i as u8).collect();
                    b.extend(&body);
                    b.push(xor(&body));
                }
            }
        }
        5 => {
            b.extend(b"MSG 1\r\n");
            match r.below(3) {
                0 => b.extend(format!("a: {}\r\n", "v".repeat(n)).bytes()),
                1 => b.extend(format!("{}: v\r\n", "x".repeat(n)).bytes()),
                _ => b.extend("x: v\r\n".repeat(n / 6).bytes()),
            }
            b.extend(b"\r\nM\r\n");
        }
        _ => {
            b.push(0);
            for i in 0..n / 2 {
                if i > 0 {
                    b.push(2);
                }
                b.push(16 + (i % 100) as u8);
            }
            b.extend([1, 3]);
        }
    }
    if b.is_empty() {
        s.into_bytes()
    } else {
        b
    }
}
