
/// Several expansions in one process. Appended to a copy of peg-macros/lib.rs,
/// whose entry point is an ordinary function here.
mod sim_harness {
    use simlib::rng::{hash_bytes, mix, Rng};
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    use std::collections::{BTreeMap, HashSet};
    use std::fmt::Write as _;
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
    use std::sync::{Arc, Condvar, Mutex, MutexGuard};
    use std::time::{Duration, Instant};

    // ------------------------------------------------------------ the scheduler

    const MAX: usize = 4;
    const NOBODY: usize = usize::MAX;

    struct St {
        current: usize,
        alive: [bool; MAX],
        /// takes no turn while another thread can, from some decision on
        stalled: usize,
        before: u64,
        rng: Rng,
        gap: u64,
        switches: u64,
        digest: u64,
    }

    static SCHED: Mutex<Option<St>> = Mutex::new(None);
    static CVS: [Condvar; MAX] = [Condvar::new(), Condvar::new(), Condvar::new(), Condvar::new()];
    /// a thread waits for something other than its turn: let all go
    static FREE: AtomicBool = AtomicBool::new(false);
    static RANDOM: AtomicU64 = AtomicU64::new(0);
    static PROGRESS: AtomicU64 = AtomicU64::new(0);

    thread_local! {
        static ME: Cell<usize> = const { Cell::new(NOBODY) };
        static LEFT: Cell<u64> = const { Cell::new(0) };
        static POINTS: Cell<u64> = const { Cell::new(0) };
    }

    impl St {
        fn choose(&mut self) -> Option<usize> {
            let all = self.alive.iter().filter(|a| **a).count();
            if all == 0 {
                return None;
            }
            let skip = if all > 1 && self.before == 0 { self.stalled } else { NOBODY };
            self.before = self.before.saturating_sub(1);
            let n = (0..MAX).filter(|i| self.alive[*i] && *i != skip).count();
            let k = self.rng.below(n.max(1));
            (0..MAX).filter(|i| self.alive[*i] && *i != skip).nth(k)
        }
        fn pause(&mut self) -> u64 {
            self.rng.next() % self.gap.max(1)
        }
    }

    fn lock() -> MutexGuard<'static, Option<St>> {
        SCHED.lock().unwrap_or_else(|e| e.into_inner())
    }

    fn wait(mut g: MutexGuard<'static, Option<St>>, me: usize) {
        let mut seen = NOBODY as u64;
        loop {
            match g.as_ref() {
                Some(st) if st.current != me && !FREE.load(Ordering::Relaxed) => {
                    let now = st.switches.wrapping_add(st.digest);
                    let (h, t) = CVS[me]
                        .wait_timeout(g, Duration::from_secs(20))
                        .unwrap_or_else(|e| e.into_inner());
                    g = h;
                    if t.timed_out() {
                        if seen == now {
                            FREE.store(true, Ordering::Relaxed);
                            for c in &CVS {
                                c.notify_all();
                            }
                        }
                        seen = now;
                    }
                }
                _ => return,
            }
        }
    }

    /// A point where another thread may go on: every allocation.
    fn step() {
        let me = ME.with(|m| m.get());
        if me == NOBODY || FREE.load(Ordering::Relaxed) {
            return;
        }
        POINTS.with(|p| p.set(p.get() + 1));
        let left = LEFT.with(|l| l.get());
        if left > 0 {
            LEFT.with(|l| l.set(left - 1));
            return;
        }
        let mut g = lock();
        if let Some(st) = g.as_mut() {
            let next = st.choose().unwrap();
            let pause = st.pause();
            LEFT.with(|l| l.set(pause));
            st.digest = mix(&[st.digest, next as u64, pause]);
            if next != me {
                st.switches += 1;
                st.current = next;
                CVS[next].notify_one();
                wait(g, me);
            }
        }
    }

    fn finish(me: usize) {
        ME.with(|m| m.set(NOBODY));
        let mut g = lock();
        if let Some(st) = g.as_mut() {
            st.alive[me] = false;
            if let Some(next) = st.choose() {
                st.current = next;
                CVS[next].notify_one();
            }
        }
    }

    struct Alloc;
    unsafe impl GlobalAlloc for Alloc {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            step();
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            step();
            System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static ALLOC: Alloc = Alloc;

    /// Hash seeds come from the case.
    #[no_mangle]
    pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
        for i in 0..n {
            let k = RANDOM.fetch_add(1, Ordering::Relaxed);
            *buf.add(i) = (mix(&[k, 77]) >> 11) as u8;
        }
        n as isize
    }

    // ------------------------------------------------------------ cases

    #[derive(Clone)]
    struct Case {
        texts: Vec<Arc<str>>,
        /// per thread, the texts it expands in order
        jobs: Vec<Vec<usize>>,
        gap: u64,
        stalled: usize,
        sseed: u64,
    }

    impl Case {
        fn to_text(&self) -> String {
            let mut s = String::new();
            writeln!(s, "gap {}\nstalled {}\nsseed {}", self.gap, self.stalled as i64, self.sseed).unwrap();
            for j in &self.jobs {
                let l: Vec<String> = j.iter().map(|x| x.to_string()).collect();
                writeln!(s, "thread {}", l.join(" ")).unwrap();
            }
            let used: HashSet<usize> = self.jobs.iter().flatten().copied().collect();
            for (i, t) in self.texts.iter().enumerate() {
                if used.contains(&i) {
                    s.push_str(&format!("text {} ", i));
                    for b in t.bytes() {
                        write!(s, "{:02x}", b).unwrap();
                    }
                    s.push('\n');
                }
            }
            s
        }
        fn from_text(s: &str) -> Case {
            let mut c = Case {
                texts: vec![],
                jobs: vec![],
                gap: 1,
                stalled: NOBODY,
                sseed: 0,
            };
            for l in s.lines() {
                let (k, v) = l.split_once(' ').unwrap_or((l, ""));
                match k {
                    "gap" => c.gap = v.parse().unwrap(),
                    "stalled" => c.stalled = v.parse::<i64>().unwrap() as usize,
                    "sseed" => c.sseed = v.parse().unwrap(),
                    "thread" => c.jobs.push(v.split_whitespace().map(|x| x.parse().unwrap()).collect()),
                    "text" => {
                        let (i, h) = v.split_once(' ').unwrap();
                        let i: usize = i.parse().unwrap();
                        while c.texts.len() <= i {
                            c.texts.push(Arc::from(""));
                        }
                        let b: Vec<u8> = (0..h.len() / 2)
                            .map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap())
                            .collect();
                        c.texts[i] = Arc::from(String::from_utf8(b).unwrap());
                    }
                    _ => {}
                }
            }
            c
        }
    }

    fn make(texts: &[Arc<str>], seed: u64, idx: u64) -> Case {
        let mut r = Rng::new(mix(&[seed, 1919, idx]));
        let threads = 1 + r.below(3);
        let some = 1 + r.below(4);
        let mut pool: Vec<usize> = vec![];
        for _ in 0..some {
            let k = r.below(texts.len());
            pool.push(k);
            // neighbours in the list are variants of one grammar
            if r.chance(50) {
                pool.push((k + 1) % texts.len());
            }
        }
        let jobs = (0..threads)
            .map(|_| (0..1 + r.below(4)).map(|_| pool[r.below(pool.len())]).collect())
            .collect();
        Case {
            texts: texts.to_vec(),
            jobs,
            gap: [1, 4, 30, 30, 300, 300, 3000, 3000][r.below(8)],
            stalled: if r.chance(30) { r.below(threads) } else { NOBODY },
            sseed: r.next() >> 16,
        }
    }

    fn expand(text: &str) -> String {
        let r = std::panic::catch_unwind(|| match text.parse::<::proc_macro2::TokenStream>() {
            Ok(t) => crate::parser(t).to_string(),
            Err(_) => "not lexed".to_string(),
        });
        match r {
            Ok(s) => s,
            Err(p) => format!(
                "panic: {}",
                p.downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| p.downcast_ref::<String>().cloned())
                    .unwrap_or_default()
            ),
        }
    }

    fn digest(s: &str) -> String {
        let kind = if s.starts_with("panic") {
            "panic"
        } else if s == "not lexed" {
            "unlexed"
        } else if s.contains("compile_error") {
            "rejected"
        } else {
            "accepted"
        };
        format!("{:x} {} {}", hash_bytes(s.as_bytes()), s.len(), kind)
    }

    /// What the text expands to in a process of its own.
    struct Solo {
        known: BTreeMap<u64, String>,
        dir: String,
    }

    impl Solo {
        fn new() -> Solo {
            Solo {
                known: BTreeMap::new(),
                dir: std::env::temp_dir()
                    .join(format!("sim-solo-{}", std::process::id()))
                    .display()
                    .to_string(),
            }
        }
        fn of(&mut self, text: &str) -> String {
            let h = hash_bytes(text.as_bytes());
            if let Some(d) = self.known.get(&h) {
                return d.clone();
            }
            std::fs::write(&self.dir, text).unwrap();
            let out = std::process::Command::new(std::env::current_exe().unwrap())
                .arg("solo")
                .arg(&self.dir)
                .output()
                .unwrap();
            let _ = std::fs::remove_file(&self.dir);
            let d = String::from_utf8_lossy(&out.stdout).trim().to_string();
            self.known.insert(h, d.clone());
            d
        }
    }

    #[derive(Default)]
    struct Stats {
        n: BTreeMap<String, u64>,
        digests: HashSet<u64>,
        samples: Vec<String>,
    }
    impl Stats {
        fn add(&mut self, k: &str, v: u64) {
            if v > 0 {
                *self.n.entry(k.to_string()).or_insert(0) += v;
            }
        }
    }

    fn judge(c: &Case, solo: &mut Solo, stats: &mut Stats) -> Option<(String, String)> {
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        let n = c.jobs.len();
        RANDOM.store(c.sseed << 20, Ordering::Relaxed);
        FREE.store(false, Ordering::Relaxed);
        let mut alive = [false; MAX];
        for a in alive.iter_mut().take(n) {
            *a = true;
        }
        let mut st = St {
            current: NOBODY,
            alive,
            stalled: c.stalled,
            before: [0, 1, 5, 50, 500, 3000][(mix(&[c.sseed, 4]) % 6) as usize],
            rng: Rng::new(mix(&[c.sseed, 3])),
            gap: c.gap,
            switches: 0,
            digest: 1,
        };
        st.current = st.choose()?;
        *lock() = Some(st);
        let hs: Vec<_> = c
            .jobs
            .iter()
            .enumerate()
            .map(|(me, jobs)| {
                let (jobs, texts) = (jobs.clone(), c.texts.clone());
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn(move || {
                        wait(lock(), me);
                        let mut out = Vec::with_capacity(jobs.len());
                        ME.with(|m| m.set(me));
                        for j in &jobs {
                            let s = expand(&texts[*j]);
                            out.push((*j, s));
                        }
                        finish(me);
                        (out, POINTS.with(|p| p.get()))
                    })
                    .unwrap()
            })
            .collect();
        let mut results = vec![];
        let mut points = 0;
        for h in hs {
            match h.join() {
                Ok((o, p)) => {
                    results.push(o);
                    points += p;
                }
                Err(_) => return Some(("crash".into(), "an expanding thread died".into())),
            }
        }
        let st = lock().take().unwrap();
        let free = FREE.load(Ordering::Relaxed);
        stats.add("evaluations", 1);
        stats.add("steps", points);
        stats.add("thread_switches", st.switches);
        stats.add("not_scheduled", free as u64);
        stats.add("fault.stalled_thread", (c.stalled < n && n > 1) as u64);
        let mut all = vec![st.digest];
        let mut found = None;
        for (t, o) in results.iter().enumerate() {
            for (k, (j, s)) in o.iter().enumerate() {
                let d = digest(s);
                all.push(hash_bytes(d.as_bytes()));
                stats.add("expansions", 1);
                stats.add(&format!("outcome.{}", d.rsplit(' ').next().unwrap()), 1);
                let want = solo.of(&c.texts[*j]);
                if d != want && found.is_none() {
                    found = Some((
                        "interference".to_string(),
                        format!(
                            "expansion {} of thread {} (grammar text {}) among {} gave another result than alone: {} instead of {} (digest, length, kind)",
                            k + 1,
                            t + 1,
                            j,
                            results.iter().map(|o| o.len()).sum::<usize>(),
                            d,
                            want
                        ),
                    ));
                }
            }
        }
        if all.len() > 2 {
            stats.digests.insert(mix(&all));
        }
        if stats.samples.len() < 2 {
            stats.samples.push(format!(
                "{} threads expand {:?}, gap {}, stalled {}, {} switches at {} points",
                n, c.jobs, c.gap, c.stalled as i64, st.switches, points
            ));
        }
        found
    }

    fn shrink(c: &Case, class: &str, solo: &mut Solo) -> (Case, String) {
        let start = Instant::now();
        let mut stats = Stats::default();
        let mut best = c.clone();
        let mut det = String::new();
        loop {
            let mut cands = vec![];
            for t in 0..best.jobs.len() {
                if best.jobs.len() > 1 {
                    let mut d = best.clone();
                    d.jobs.remove(t);
                    cands.push(d);
                }
                for k in 0..best.jobs[t].len() {
                    if best.jobs[t].len() > 1 {
                        let mut d = best.clone();
                        d.jobs[t].remove(k);
                        cands.push(d);
                    }
                }
            }
            if best.stalled != NOBODY {
                let mut d = best.clone();
                d.stalled = NOBODY;
                cands.push(d);
            }
            if best.gap < 1_000_000 {
                let mut d = best.clone();
                d.gap *= 10;
                cands.push(d);
            }
            let mut better = false;
            for d in cands {
                if start.elapsed().as_secs() > 60 {
                    return (best, det);
                }
                if let Some((cl, t)) = judge(&d, solo, &mut stats) {
                    if cl == class {
                        best = d;
                        det = t;
                        better = true;
                        break;
                    }
                }
            }
            if !better {
                return (best, det);
            }
        }
    }

    fn json_str(s: &str) -> String {
        format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
    }

    extern "C" {
        fn clock() -> i64;
    }

    pub fn main() {
        std::panic::set_hook(Box::new(|_| {}));
        let args: Vec<String> = std::env::args().collect();
        let mut o: BTreeMap<String, String> = BTreeMap::new();
        for a in &args[2..] {
            if let Some((k, v)) = a.split_once('=') {
                o.insert(k.to_string(), v.to_string());
            }
        }
        let num = |k: &str| o[k].parse::<u64>().unwrap();
        if args[1] == "solo" {
            let text = std::fs::read_to_string(&args[2]).unwrap();
            let h = std::thread::Builder::new().stack_size(32 << 20).spawn(move || digest(&expand(&text))).unwrap();
            println!("{}", h.join().unwrap());
            return;
        }
        std::thread::spawn(|| {
            let mut last = (u64::MAX, 0i64);
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let p = PROGRESS.load(Ordering::Relaxed);
                let cpu = unsafe { clock() } / 1_000_000;
                if p != last.0 {
                    last = (p, cpu);
                } else if cpu - last.1 >= 60 {
                    std::process::exit(13);
                }
            }
        });
        let mut solo = Solo::new();
        let mut stats = Stats::default();
        if args[1] == "replay" {
            let c = Case::from_text(&std::fs::read_to_string(&o["file"]).unwrap());
            if let Some((class, det)) = judge(&c, &mut solo, &mut stats) {
                eprintln!("class {}\ndetail {}", class, det);
                std::process::exit(10);
            }
            return;
        }
        let mut names: Vec<_> = std::fs::read_dir(&o["texts"]).unwrap().map(|e| e.unwrap().path()).collect();
        names.sort();
        let texts: Vec<Arc<str>> = names
            .iter()
            .map(|p| Arc::from(std::fs::read_to_string(p).unwrap()))
            .filter(|t: &Arc<str>| t.parse::<::proc_macro2::TokenStream>().is_ok())
            .collect();
        if args[1] == "case" {
            print!("{}", make(&texts, num("seed"), num("index")).to_text());
            return;
        }
        let start = Instant::now();
        let mut i = num("from");
        let mut code = 0;
        let mut truncated = false;
        while i < num("to") {
            if start.elapsed().as_secs() >= num("wall") {
                truncated = true;
                break;
            }
            let c = make(&texts, num("seed"), i);
            std::fs::write(format!("{}.progress", o["out"]), i.to_string()).unwrap();
            if let Some((class, det)) = judge(&c, &mut solo, &mut stats) {
                let again = judge(&c, &mut solo, &mut Stats::default()).is_some();
                let (c, d2) = if again { shrink(&c, &class, &mut solo) } else { (c, String::new()) };
                let det = if d2.is_empty() { det } else { d2 };
                std::fs::write(
                    format!("{}.viol", o["out"]),
                    format!("class {}\ndetail {}\nindex {}\n{}", class, det, i, c.to_text()),
                )
                .unwrap();
                code = 10;
                break;
            }
            i += num("step");
        }
        let mut j = String::from("{\"counters\": {");
        for (k, (n, v)) in stats.n.iter().enumerate() {
            write!(j, "{}\"{}\": {}", if k > 0 { ", " } else { "" }, n, v).unwrap();
        }
        let samples: Vec<String> = stats.samples.iter().map(|s| json_str(s)).collect();
        write!(j, "}}, \"truncated\": {}, \"samples\": [{}]}}", truncated, samples.join(", ")).unwrap();
        std::fs::write(format!("{}.json", o["out"]), j).unwrap();
        let mut bytes = vec![];
        for d in stats.digests {
            bytes.extend(d.to_le_bytes());
        }
        std::fs::write(format!("{}.digests", o["out"]), bytes).unwrap();
        std::process::exit(code);
    }
}

fn main() {
    sim_harness::main()
}
