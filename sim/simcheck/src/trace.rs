//! The output stream of the process, as the trace feature sees it: `write` on
//! file descriptor 1 is answered by the simulator.
use simlib::rng::Rng;
use std::sync::Mutex;

pub struct Stream {
    pub on: bool,
    pub data: Vec<u8>,
    pub rng: Option<Rng>,
    pub short_pct: usize,
    pub eintr_pct: usize,
    pub shorts: u64,
    pub eintrs: u64,
    pub calls: u64,
    /// number of the write that is refused (0: none), whether all later ones
    /// are, too, and how (an error number, or 0: no byte is taken)
    pub refuse: Refuse,
    pub refused: u64,
}

#[derive(Clone, Copy, Default)]
pub struct Refuse {
    pub at: u64,
    pub sticky: bool,
    pub errno: i32,
}

static STREAM: Mutex<Stream> = Mutex::new(Stream {
    on: false,
    data: Vec::new(),
    rng: None,
    short_pct: 0,
    eintr_pct: 0,
    shorts: 0,
    eintrs: 0,
    calls: 0,
    refuse: Refuse {
        at: 0,
        sticky: false,
        errno: 0,
    },
    refused: 0,
});

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}

/// # Safety
/// Same contract as write(2).
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if fd == 1 {
        let mut s = STREAM.lock().unwrap();
        if s.on {
            s.calls += 1;
            let (short, eintr) = (s.short_pct, s.eintr_pct);
            let rf = s.refuse;
            if rf.at > 0 && (s.calls == rf.at || rf.sticky && s.calls > rf.at) {
                s.refused += 1;
                if rf.errno == 0 {
                    return 0;
                }
                *__errno_location() = rf.errno;
                return -1;
            }
            let mut take = n;
            if let Some(r) = s.rng.as_mut() {
                if r.chance(eintr) {
                    s.eintrs += 1;
                    *__errno_location() = 4;
                    return -1;
                }
                if n > 1 && r.chance(short) {
                    take = r.range(1, n - 1);
                    s.shorts += 1;
                }
            }
            s.data
                .extend_from_slice(std::slice::from_raw_parts(buf, take));
            return take as isize;
        }
    }
    syscall(1, fd, buf, n) as isize
}

/// Run `f` with standard output captured, delivered under the given faults.
pub fn capture<R>(
    seed: u64,
    short: usize,
    eintr: usize,
    refuse: Refuse,
    f: impl FnOnce() -> R,
) -> (R, Captured) {
    use std::io::Write;
    {
        let mut s = STREAM.lock().unwrap();
        s.data.clear();
        s.rng = Some(Rng::new(seed));
        s.short_pct = short;
        s.eintr_pct = eintr;
        s.shorts = 0;
        s.eintrs = 0;
        s.calls = 0;
        s.refuse = refuse;
        s.refused = 0;
        s.on = true;
    }
    let r = f();
    // the stream works again: what the process still holds may come now
    STREAM.lock().unwrap().refuse.at = 0;
    let _ = std::io::stdout().flush();
    let mut s = STREAM.lock().unwrap();
    s.on = false;
    (
        r,
        Captured {
            text: String::from_utf8_lossy(&s.data).into_owned(),
            shorts: s.shorts,
            eintrs: s.eintrs,
            calls: s.calls,
            refused: s.refused,
        },
    )
}

pub struct Captured {
    pub text: String,
    pub shorts: u64,
    pub eintrs: u64,
    pub calls: u64,
    pub refused: u64,
}
