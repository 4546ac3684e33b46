//! C11: clients of a simulated byte stream. Several connections run in one
//! process; the seed decides every fragment, stall, restart, cut and damage.

mod formats;

use formats::*;
use simlib::rng::{mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    /// the network hands over this many more bytes
    Deliver(usize),
    /// the client is woken without new data
    Stall,
    /// the client process dies; its buffer is lost, its log survives
    Restart,
    /// the connection ends; the client sees end of stream, then reconnects
    Cut,
}

#[derive(Clone, Debug)]
enum Damage {
    Flip(u8),
    Drop,
    Insert(u8),
}

#[derive(Clone, Debug, Default)]
struct Conn {
    fmt: usize,
    msgs: Vec<Vec<u8>>,
    /// damage to the byte at this offset of the clean stream, once, in transit
    damage: Vec<(usize, Damage)>,
}

impl Default for Ev {
    fn default() -> Ev {
        Ev::Stall
    }
}

#[derive(Clone, Debug, Default)]
struct Case {
    conns: Vec<Conn>,
    events: Vec<(usize, Ev)>,
}

struct Violation(String, String);

#[derive(Default)]
struct Stats(BTreeMap<String, u64>);

impl Stats {
    fn add(&mut self, k: &str, n: u64) {
        *self.0.entry(k.to_string()).or_default() += n;
    }
}

/// One connection: the sender's stream, the client's log and buffer.
struct Client<'a> {
    conn: &'a Conn,
    stream: Vec<u8>,
    sent: Vec<(usize, String)>, // end offset, content
    fired: Vec<bool>,
    /// next byte of the clean stream to transmit
    cursor: usize,
    /// durable: messages accepted, and the offset to resume from
    log: Vec<String>,
    durable: usize,
    /// an accepted message contained damaged bytes: what was sent no longer
    /// tells what to expect
    misled: bool,
    /// received and not yet accepted: byte, and its clean offset
    buf: Vec<u8>,
    origin: Vec<usize>,
    damaged_from: Option<usize>, // index in buf of the first damage
    digest: u64,
}

fn err<T>(class: &str, detail: String) -> Result<T, Violation> {
    let short = match detail.char_indices().nth(3000) {
        Some((i, _)) => format!("{} ...", &detail[..i]),
        None => detail,
    };
    Err(Violation(class.to_string(), short))
}

/// What the client can hand to the parser: whole characters only.
fn visible(fmt: usize, buf: &[u8]) -> (usize, bool) {
    if FORMATS[fmt].1 != Kind::Text {
        return (buf.len(), false);
    }
    match std::str::from_utf8(buf) {
        Ok(_) => (buf.len(), false),
        Err(e) => (e.valid_up_to(), e.error_len().is_some()),
    }
}

fn guard<T>(what: &str, fmt: usize, data: &[u8], f: impl FnOnce() -> T) -> Result<T, Violation> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            err("panic", format!("{} {} on {}: {}", FORMATS[fmt].0, what, show(data), m))
        }
    }
}

fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    format!("{:?}", s.chars().take(200).collect::<String>())
}

fn same_failure(fmt: usize, what: &str, data: &[u8], real: &Failure, good: &Failure) -> Result<(), Violation> {
    if real.offset > data.len() {
        return err("location", format!("{} {}: error at {} outside the {} elements of {}", FORMATS[fmt].0, what, real.offset, data.len(), show(data)));
    }
    if real.offset != good.offset || real.line_col != good.line_col {
        return err("location", format!(
            "{} {} on {}: error at offset {} {:?}, expected offset {} {:?}",
            FORMATS[fmt].0, what, show(data), real.offset, real.line_col, good.offset, good.line_col));
    }
    if real.expected == 0 {
        return err("expected", format!("{} {} on {}: nothing expected at {}", FORMATS[fmt].0, what, show(data), real.offset));
    }
    Ok(())
}

fn parse(fmt: usize, data: &[u8]) -> Result<Result<(String, usize), Failure>, Violation> {
    let real = guard("message", fmt, data, || real_msg(fmt, data))?;
    let good = ref_msg(fmt, data);
    match (&real, &good) {
        (Ok(a), Ok(b)) if a == b => {}
        (Err(a), Err(b)) => same_failure(fmt, "message", data, a, b)?,
        _ => return err("message", format!("{} on {}: got {:?}, expected {:?}", FORMATS[fmt].0, show(data), real, good)),
    }
    Ok(real)
}

fn parse_all(fmt: usize, data: &[u8]) -> Result<Result<Vec<String>, Failure>, Violation> {
    let real = guard("stream", fmt, data, || real_all(fmt, data))?;
    let good = ref_all(fmt, data);
    match (&real, &good) {
        (Ok(a), Ok(b)) if a == b => {}
        (Err(a), Err(b)) => same_failure(fmt, "stream", data, a, b)?,
        _ => return err("stream", format!("{} on {}: got {:?}, expected {:?}", FORMATS[fmt].0, show(data), real, good)),
    }
    Ok(real)
}

impl<'a> Client<'a> {
    fn new(conn: &'a Conn) -> Client<'a> {
        let mut stream = vec![];
        let mut sent = vec![];
        for m in &conn.msgs {
            // content as the independent decoder reads it
            if let Ok((s, n)) = ref_msg(conn.fmt, m) {
                if n == m.len() {
                    stream.extend(m);
                    sent.push((stream.len(), s));
                }
            }
        }
        Client {
            conn, stream, sent, fired: vec![false; conn.damage.len()], cursor: 0, log: vec![], durable: 0,
            misled: false, buf: vec![], origin: vec![], damaged_from: None, digest: 0,
        }
    }

    fn deliver(&mut self, n: usize, stats: &mut Stats) {
        let n = n.min(self.stream.len() - self.cursor);
        for _ in 0..n {
            let at = self.cursor;
            self.cursor += 1;
            let mut b = Some(self.stream[at]);
            let mut extra = None;
            for (i, (pos, d)) in self.conn.damage.iter().enumerate() {
                if *pos == at && !self.fired[i] {
                    self.fired[i] = true;
                    stats.add(match d {
                        Damage::Flip(_) => "fault.flipped_byte",
                        Damage::Drop => "fault.dropped_byte",
                        Damage::Insert(_) => "fault.inserted_byte",
                    }, 1);
                    match d {
                        Damage::Flip(x) => b = b.map(|b| b ^ x),
                        Damage::Drop => b = None,
                        Damage::Insert(x) => extra = Some(*x),
                    }
                    self.damaged_from.get_or_insert(self.buf.len());
                }
            }
            for x in extra.into_iter().chain(b) {
                self.buf.push(x);
                self.origin.push(at);
            }
        }
    }

    fn restart(&mut self) {
        self.buf.clear();
        self.origin.clear();
        self.damaged_from = None;
        self.cursor = self.durable;
    }

    /// Accept every complete message at the front of the buffer.
    fn work(&mut self, stats: &mut Stats) -> Result<(), Violation> {
        let fmt = self.conn.fmt;
        loop {
            let (len, broken) = visible(fmt, &self.buf);
            stats.add("steps", 1);
            match parse(fmt, &self.buf[..len])? {
                Ok((msg, used)) => {
                    stats.add("outcome.message", 1);
                    if used == 0 {
                        return err("progress", "a message of no bytes".into());
                    }
                    let clean = self.damaged_from.map_or(true, |d| d >= used);
                    if !clean {
                        self.misled = true;
                        stats.add("probe.undetected_damage", 1);
                    }
                    if !self.misled {
                        let k = self.log.len();
                        let end = self.origin[used - 1] + 1;
                        match self.sent.get(k) {
                            Some((e, s)) if *s == msg && *e == end => {}
                            other => {
                                return err("wrong-message", format!(
                                    "{}: accepted {:?} ending at {} as message {}, sent was {:?}",
                                    FORMATS[fmt].0, msg, end, k, other))
                            }
                        }
                    }
                    self.digest = mix(&[self.digest, used as u64, len as u64]);
                    // durable: log entry and resume point, in one step
                    self.durable = self.origin[used - 1] + 1;
                    self.log.push(msg);
                    self.buf.drain(..used);
                    self.origin.drain(..used);
                    self.damaged_from = self.damaged_from.and_then(|d| d.checked_sub(used));
                }
                Err(f) => {
                    self.digest = mix(&[self.digest, f.offset as u64, len as u64, 1]);
                    let near_end = f.offset + FORMATS[fmt].2 > len;
                    if near_end && !broken {
                        stats.add("outcome.wait_for_more", 1);
                        if len > 0 {
                            stats.add("probe.partial_message", 1);
                        }
                        return Ok(());
                    }
                    // damage noticed: resume from the last accepted message
                    stats.add("outcome.damage_noticed", 1);
                    if self.damaged_from.is_none() && !self.misled {
                        return err("false-damage", format!(
                            "{}: undamaged data {} rejected at {}", FORMATS[fmt].0, show(&self.buf), f.offset));
                    }
                    self.restart();
                    return Ok(());
                }
            }
        }
    }

    fn event(&mut self, ev: &Ev, stats: &mut Stats) -> Result<(), Violation> {
        match ev {
            Ev::Deliver(n) => {
                stats.add("fault.fragment", 1);
                self.deliver(*n, stats);
            }
            Ev::Stall => stats.add("fault.stall", 1),
            Ev::Restart => {
                stats.add(if self.buf.is_empty() { "fault.restart_idle" } else { "fault.restart_mid_message" }, 1);
                self.restart();
            }
            Ev::Cut => {
                stats.add(if self.buf.is_empty() { "fault.cut_idle" } else { "fault.cut_mid_message" }, 1);
                let (len, _) = visible(self.conn.fmt, &self.buf);
                // what is left is not a whole number of messages
                let _ = parse_all(self.conn.fmt, &self.buf[..len])?;
                self.restart();
            }
        }
        self.work(stats)
    }

    fn finish(&mut self, stats: &mut Stats) -> Result<(), Violation> {
        // faults have stopped: everything outstanding arrives
        for round in 0..self.conn.damage.len() + 3 {
            if self.durable >= self.stream.len() || self.misled {
                break;
            }
            if round > 0 {
                stats.add("probe.reconnect_to_finish", 1);
                self.restart();
            }
            self.deliver(usize::MAX, stats);
            self.work(stats)?;
        }
        if !self.misled {
            let want: Vec<&String> = self.sent.iter().map(|(_, s)| s).collect();
            if self.log.iter().collect::<Vec<_>>() != want {
                return err("lost-message", format!(
                    "{}: recovered {} of {} messages after the faults stopped", FORMATS[self.conn.fmt].0, self.log.len(), want.len()));
            }
        }
        // the whole stream, parsed to the end at once
        let whole = self.stream.clone();
        match parse_all(self.conn.fmt, &whole)? {
            Ok(v) if v.iter().eq(self.sent.iter().map(|(_, s)| s)) => {}
            other => {
                return err("stream", format!("{}: whole stream gave {:?}, sent {:?}", FORMATS[self.conn.fmt].0, other, self.sent))
            }
        }
        // and the stream as damaged, and cut
        let mut bad = whole.clone();
        for (pos, d) in &self.conn.damage {
            if *pos < bad.len() {
                match d {
                    Damage::Flip(x) => bad[*pos] ^= x,
                    Damage::Drop => {
                        bad.remove(*pos);
                    }
                    Damage::Insert(x) => bad.insert(*pos, *x),
                }
            }
        }
        let cut = bad.len() - bad.len() / 3;
        for data in [&bad[..], &bad[..cut]] {
            let (len, _) = visible(self.conn.fmt, data);
            let _ = parse_all(self.conn.fmt, &data[..len])?;
        }
        Ok(())
    }
}

fn run(case: &Case, stats: &mut Stats) -> Result<u64, Violation> {
    let mut clients: Vec<Client> = case.conns.iter().map(Client::new).collect();
    for (i, ev) in &case.events {
        if let Some(c) = clients.get_mut(*i) {
            c.event(ev, stats)?;
        }
    }
    let mut d = 0;
    for c in &mut clients {
        c.finish(stats)?;
        d = mix(&[d, c.digest, c.log.len() as u64]);
    }
    Ok(d)
}

fn generate(seed: u64, index: u64) -> Case {
    let mut r = Rng::new(mix(&[seed, index, 11]));
    let mut case = Case::default();
    let damaged = r.chance(45);
    let giant = match r.below(1000) {
        0 => 1 << r.range(15, 17),
        1 => 1 << r.range(12, 15),
        2 => 1 << r.range(8, 12),
        _ => 0,
    };
    for _ in 0..if giant > 0 { 1 } else { r.range(1, 3) } {
        let fmt = r.below(FORMATS.len());
        let mut conn = Conn { fmt, ..Conn::default() };
        for _ in 0..r.range(1, 5) {
            conn.msgs.push(gen(&mut r, fmt));
        }
        if giant > 0 {
            let n = giant + r.below(giant);
            let at = r.below(conn.msgs.len());
            conn.msgs[at] = formats::giant(&mut r, fmt, n);
        }
        let len: usize = conn.msgs.iter().map(|m| m.len()).sum();
        if damaged {
            for _ in 0..r.range(1, 3) {
                let d = match r.below(3) {
                    0 => Damage::Flip(1 << r.below(8)),
                    1 => Damage::Drop,
                    _ => Damage::Insert(*r.pick(&[b';', b'(', 0, 0xff, b'\n', b'1', 0xa5, b'"', 0xc3, b' '])),
                };
                conn.damage.push((r.below(len), d));
            }
        }
        case.conns.push(conn);
    }
    let faulty = r.chance(60);
    let small = if giant > 0 { giant } else { r.range(1, 20) };
    for (i, conn) in case.conns.iter().enumerate() {
        let ends: Vec<usize> = conn.msgs.iter().scan(0, |a, m| { *a += m.len(); Some(*a) }).collect();
        let len = *ends.last().unwrap();
        let mut at = 0;
        let mut steps = 0;
        while at < len && steps < if giant > 0 { 20 } else { 60 } {
            steps += 1;
            let ev = match r.weighted(&[10, 3, 2, 1, if faulty { 2 } else { 0 }, if faulty { 1 } else { 0 }]) {
                0 => Ev::Deliver(r.range(1, small)),
                1 => Ev::Deliver(1),
                2 => {
                    let next = ends.iter().find(|e| **e > at).unwrap();
                    let n = (next - at + r.below(3)).saturating_sub(1);
                    Ev::Deliver(n.max(1))
                }
                3 => Ev::Stall,
                4 => Ev::Restart,
                _ => Ev::Cut,
            };
            match ev {
                Ev::Deliver(n) => at += n,
                Ev::Restart | Ev::Cut => at = ends.iter().rev().find(|e| **e <= at).copied().unwrap_or(0),
                _ => {}
            }
            case.events.push((i, ev));
        }
    }
    // interleave the connections, keeping each one's order
    let mut per: Vec<Vec<Ev>> = vec![vec![]; case.conns.len()];
    for (i, e) in case.events.drain(..) {
        per[i].push(e);
    }
    for p in &mut per {
        p.reverse();
    }
    loop {
        let live: Vec<usize> = (0..per.len()).filter(|i| !per[*i].is_empty()).collect();
        if live.is_empty() {
            break;
        }
        let i = *r.pick(&live);
        let e = per[i].pop().unwrap();
        case.events.push((i, e));
    }
    case
}

// ------------------------------------------------------------------ text form

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn print(case: &Case) -> String {
    let mut s = String::new();
    for c in &case.conns {
        writeln!(s, "conn {}", FORMATS[c.fmt].0).unwrap();
        for m in &c.msgs {
            writeln!(s, "msg {} {}", hex(m), show(m)).unwrap();
        }
        for (p, d) in &c.damage {
            match d {
                Damage::Flip(x) => writeln!(s, "damage {} flip {}", p, x),
                Damage::Drop => writeln!(s, "damage {} drop 0", p),
                Damage::Insert(x) => writeln!(s, "damage {} insert {}", p, x),
            }
            .unwrap();
        }
    }
    for (i, e) in &case.events {
        match e {
            Ev::Deliver(n) => writeln!(s, "ev {} deliver {}", i, n),
            Ev::Stall => writeln!(s, "ev {} stall", i),
            Ev::Restart => writeln!(s, "ev {} restart", i),
            Ev::Cut => writeln!(s, "ev {} cut", i),
        }
        .unwrap();
    }
    s
}

fn read(text: &str) -> Case {
    let mut case = Case::default();
    for l in text.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "conn" => case.conns.push(Conn {
                fmt: FORMATS.iter().position(|f| f.0 == w[1]).expect("format"),
                ..Conn::default()
            }),
            "msg" => case.conns.last_mut().unwrap().msgs.push(unhex(w[1])),
            "damage" => {
                let x: u8 = w[3].parse().unwrap();
                let d = match w[2] {
                    "flip" => Damage::Flip(x),
                    "drop" => Damage::Drop,
                    _ => Damage::Insert(x),
                };
                case.conns.last_mut().unwrap().damage.push((w[1].parse().unwrap(), d));
            }
            "ev" => {
                let e = match w[2] {
                    "deliver" => Ev::Deliver(w[3].parse().unwrap()),
                    "stall" => Ev::Stall,
                    "restart" => Ev::Restart,
                    _ => Ev::Cut,
                };
                case.events.push((w[1].parse().unwrap(), e));
            }
            _ => {}
        }
    }
    case
}

fn shrink(case: Case, class: &str) -> Case {
    let fails = |c: &Case| matches!(run(c, &mut Stats::default()), Err(v) if v.0 == class);
    let mut case = case;
    let mut changed = true;
    let mut budget = 4000;
    let start = std::time::Instant::now();
    while changed && budget > 0 {
        changed = false;
        let mut cands: Vec<Box<dyn Fn(&Case) -> Option<Case>>> = vec![];
        let mut k = case.events.len();
        while k > 0 {
            for i in (0..case.events.len()).step_by(k) {
                cands.push(Box::new(move |c: &Case| {
                    let mut c = c.clone();
                    if i >= c.events.len() {
                        return None;
                    }
                    let to = (i + k).min(c.events.len());
                    c.events.drain(i..to);
                    Some(c)
                }));
            }
            k /= 2;
        }
        for i in 0..case.conns.len() {
            cands.push(Box::new(move |c: &Case| {
                let mut c = c.clone();
                if i >= c.conns.len() || c.conns.len() == 1 {
                    return None;
                }
                c.conns.remove(i);
                c.events.retain(|e| e.0 != i);
                for e in &mut c.events {
                    if e.0 > i {
                        e.0 -= 1;
                    }
                }
                Some(c)
            }));
            for j in 0..case.conns[i].msgs.len() {
                cands.push(Box::new(move |c: &Case| {
                    let mut c = c.clone();
                    if j >= c.conns.get(i)?.msgs.len() {
                        return None;
                    }
                    c.conns[i].msgs.remove(j);
                    Some(c)
                }));
            }
            for j in 0..case.conns[i].msgs.len() {
                let len = case.conns[i].msgs[j].len();
                let mut k = len / 2;
                while k > len / 64 && len > 100 {
                    for from in (0..len).step_by(k) {
                        cands.push(Box::new(move |c: &Case| {
                            let mut c = c.clone();
                            let m = c.conns.get_mut(i)?.msgs.get_mut(j)?;
                            let to = (from + k).min(m.len());
                            if from >= to {
                                return None;
                            }
                            m.drain(from..to);
                            // what no longer is a message is not sent
                            match ref_msg(c.conns[i].fmt, &c.conns[i].msgs[j]) {
                                Ok((_, n)) if n == c.conns[i].msgs[j].len() => Some(c),
                                _ => None,
                            }
                        }));
                    }
                    k /= 2;
                }
            }
            for j in 0..case.conns[i].damage.len() {
                cands.push(Box::new(move |c: &Case| {
                    let mut c = c.clone();
                    if j >= c.conns.get(i)?.damage.len() {
                        return None;
                    }
                    c.conns[i].damage.remove(j);
                    Some(c)
                }));
            }
        }
        for f in cands {
            budget -= 1;
            if budget <= 0 || start.elapsed().as_secs() > 40 {
                budget = 0;
                break;
            }
            if let Some(c) = f(&case) {
                if fails(&c) {
                    case = c;
                    changed = true;
                }
            }
        }
    }
    case
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().find_map(|a| a.strip_prefix(&format!("{}=", k)).map(|s| s.to_string()));
    let num = |k: &str| get(k).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
    match args[1].as_str() {
        "explore" => {
            let out = get("out").unwrap();
            let start = std::time::Instant::now();
            let mut stats = Stats::default();
            let mut digests = HashSet::new();
            let mut truncated = false;
            let mut samples = vec![];
            let mut viol = None;
            let mut i = num("from");
            while i < num("to") {
                if i / num("step") % 256 == 0 && start.elapsed().as_secs() > num("wall") {
                    truncated = true;
                    break;
                }
                let case = generate(num("seed"), i);
                stats.add("evaluations", 1);
                let long = case.conns.iter().map(|c| c.msgs.iter().map(|m| m.len()).sum()).max().unwrap_or(0);
                if long > 1000 {
                    stats.add("probe.long_message", 1);
                }
                if long > 65536 {
                    stats.add("probe.very_long_message", 1);
                }
                if samples.len() < 2 {
                    samples.push(print(&case));
                }
                match run(&case, &mut stats) {
                    Ok(d) => {
                        digests.insert(d);
                    }
                    Err(v) => {
                        let small = shrink(case, &v.0);
                        viol = Some(print(&small));
                        break;
                    }
                }
                i += num("step");
            }
            let mut j = String::from("{\"counters\":{");
            j.push_str(&stats.0.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
            write!(j, "}},\"truncated\":{},\"samples\":[", truncated).unwrap();
            j.push_str(&samples.iter().map(|s| format!("{:?}", s.lines().filter(|l| !l.starts_with("msg")).collect::<Vec<_>>().join("; "))).collect::<Vec<_>>().join(","));
            j.push_str("]}");
            std::fs::write(format!("{}.json", out), j).unwrap();
            let mut b = vec![];
            for d in &digests {
                b.extend(d.to_le_bytes());
            }
            std::fs::write(format!("{}.digests", out), b).unwrap();
            if let Some(v) = viol {
                std::fs::write(format!("{}.viol", out), v).unwrap();
                std::process::exit(10);
            }
        }
        "replay" => {
            let case = read(&std::fs::read_to_string(get("file").unwrap()).unwrap());
            match run(&case, &mut Stats::default()) {
                Ok(_) => eprintln!("no violation"),
                Err(v) => {
                    eprintln!("class {}\ndetail {}", v.0, v.1);
                    std::process::exit(10);
                }
            }
        }
        "case" => print!("{}", print(&generate(num("seed"), num("index")))),
        _ => std::process::exit(2),
    }
}
