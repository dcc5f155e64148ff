//! Generated-input search engine: choice-sequence generators, integrated shrinking, sharded workers.
//!
//! Every random decision of a case goes through `Src::draw`; a case is therefore a pure function of
//! its choice sequence, which is what gets shrunk and what a replay file stores.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD6E8FEB86659FD93));
    r.next() ^ b.rotate_left(17)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

enum Mode {
    Random(Rng),
    Replay(Vec<u32>),
}

pub struct Src {
    mode: Mode,
    pos: usize,
    pub log: Vec<u32>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { mode: Mode::Random(Rng::new(seed)), pos: 0, log: vec![] }
    }
    pub fn replay(v: Vec<u32>) -> Src {
        Src { mode: Mode::Replay(v), pos: 0, log: vec![] }
    }
    /// uniform in 0..n (n >= 1); 0 is the "simplest" value
    pub fn draw(&mut self, n: usize) -> usize {
        let n = n.max(1);
        let v = match &mut self.mode {
            Mode::Random(r) => (r.next() % n as u64) as usize,
            Mode::Replay(v) => {
                let x = v.get(self.pos).copied().unwrap_or(0) as usize;
                if x >= n { n - 1 } else { x }
            }
        };
        self.pos += 1;
        self.log.push(v as u32);
        v
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.draw(hi_incl - lo + 1)
    }
    /// true with probability num/den; false is simplest
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.draw(v.len());
        &v[i]
    }
    /// weighted choice; returns index
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let t: usize = w.iter().sum();
        let mut x = self.draw(t);
        for (i, a) in w.iter().enumerate() {
            if x < *a {
                return i;
            }
            x -= a;
        }
        w.len() - 1
    }
    /// geometric-ish length between lo and hi
    pub fn len(&mut self, lo: usize, hi: usize) -> usize {
        if hi <= lo {
            return lo;
        }
        // bias to small but regularly reach hi
        match self.draw(4) {
            0 => lo + self.draw((hi - lo) / 4 + 1),
            1 | 2 => lo + self.draw((hi - lo) / 2 + 1),
            _ => lo + self.draw(hi - lo + 1),
        }
    }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub skipped: u64,
    pub known: BTreeMap<String, u64>,
}
impl Stats {
    pub fn class(&mut self, c: &str) {
        if let Some(x) = self.classes.get_mut(c) {
            *x += 1;
        } else {
            self.classes.insert(c.to_string(), 1);
        }
    }
    pub fn class_if(&mut self, b: bool, c: &str) {
        if b {
            self.class(c)
        }
    }
    pub fn nontrivial(&mut self, key: &str) {
        self.nontrivial.insert(hash_str(key));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 6 {
            let s = f();
            if !self.samples.contains(&s) {
                self.samples.push(s)
            }
        }
    }
    pub fn known(&mut self, k: &str) {
        *self.known.entry(k.to_string()).or_insert(0) += 1;
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
}
pub type Check = Result<(), Fail>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return $crate::engine::fail(format!($($t)*)); } };
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if debug() {
            eprintln!("{}\n{}", info, std::backtrace::Backtrace::force_capture());
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub fn take_panic() -> (String, String) {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

pub enum Outcome {
    Pass,
    Fail(Fail),
    /// a panic raised by the harness itself: never a verdict on the code under test
    HarnessError(String),
}

/// Marker panics raised by harness instrumentation on purpose (step budgets).
pub const BUDGET: &str = "VH-BUDGET:";

pub fn is_harness_loc(loc: &str) -> bool {
    // harness sources are compiled with relative paths (src/...), the crate under test with /repo/...
    loc.starts_with("src/") || loc.contains("/verif/harness/")
}

pub type PropFn = fn(&mut Src, &mut Stats) -> Check;

pub fn run_one(f: PropFn, src: &mut Src, st: &mut Stats) -> Outcome {
    let r = catch_unwind(AssertUnwindSafe(|| f(src, st)));
    match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(e)) => Outcome::Fail(e),
        Err(_) => {
            let (msg, loc) = take_panic();
            if msg.starts_with(BUDGET) {
                Outcome::Fail(Fail { msg: format!("does not terminate within the step budget: {}", msg) })
            } else if is_harness_loc(&loc) {
                Outcome::HarnessError(format!("{} at {}", msg, loc))
            } else {
                Outcome::Fail(Fail { msg: format!("panic in code under test: {} at {}", msg, loc) })
            }
        }
    }
}

/// Run library code and turn a panic of the library into a Fail (harness panics propagate).
pub fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let (msg, loc) = PANIC.with(|p| p.borrow().clone()).unwrap_or_default();
            if msg.starts_with(BUDGET) {
                take_panic();
                return fail(format!("{}: does not terminate within the step budget: {}", what, msg));
            }
            if is_harness_loc(&loc) {
                std::panic::resume_unwind(p);
            }
            take_panic();
            fail(format!("{}: panic in code under test: {} at {}", what, msg, loc))
        }
    }
}

pub fn shrink(f: PropFn, start: Vec<u32>, max_runs: usize) -> (Vec<u32>, Fail, usize) {
    let mut runs = 0usize;
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(60);
    let mut try_case = |v: &Vec<u32>, runs: &mut usize| -> Option<(Vec<u32>, Fail)> {
        if *runs >= max_runs || std::time::Instant::now() > deadline {
            return None;
        }
        *runs += 1;
        let mut st = Stats::default();
        let mut s = Src::replay(v.clone());
        match run_one(f, &mut s, &mut st) {
            Outcome::Fail(e) => Some((s.log, e)),
            _ => None,
        }
    };
    let (mut best, mut bf) = match try_case(&start, &mut runs) {
        Some(x) => x,
        None => return (start, Fail { msg: "failure did not reproduce from its choice sequence".into() }, runs),
    };
    loop {
        let before = best.clone();
        // delete blocks
        for size in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i >= size {
                let at = i - size;
                if at + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(at..at + size);
                    let mut ok = false;
                    if let Some((l, e)) = try_case(&c, &mut runs) {
                        if better(&l, &best) {
                            best = l;
                            bf = e;
                            ok = true;
                        }
                    }
                    if !ok && at > 0 && best[at - 1] > 0 {
                        let mut c = best.clone();
                        c.drain(at..at + size);
                        c[at - 1] -= 1;
                        if let Some((l, e)) = try_case(&c, &mut runs) {
                            if better(&l, &best) {
                                best = l;
                                bf = e;
                            }
                        }
                    }
                }
                i = at.min(best.len());
                if size > 1 && i >= size {
                    // overlapping step for small blocks
                    i = i + size / 2;
                    if i >= at + size {
                        i = at;
                    }
                }
            }
        }
        // zero / lower values
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                for nv in [0, best[i] / 2, best[i] - 1] {
                    if i < best.len() && nv < best[i] {
                        let mut c = best.clone();
                        c[i] = nv;
                        if let Some((l, e)) = try_case(&c, &mut runs) {
                            if better(&l, &best) {
                                best = l;
                                bf = e;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            break;
        }
    }
    (best, bf, runs)
}

fn better(a: &Vec<u32>, b: &Vec<u32>) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || ((c as u32) >= 0x7f && (c as u32) < 0xa0) => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn debug() -> bool {
    static D: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *D.get_or_init(|| std::env::var_os("VH_DEBUG").is_some())
}
pub fn trace(f: impl FnOnce() -> String) {
    if debug() {
        eprintln!("{}", f());
    }
}

// ---- what recognizers print

thread_local! {
    static CONSOLE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// recognizers keep the listener that prints errors
pub fn console() -> bool {
    CONSOLE.with(|c| c.get())
}
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn memfd_create(name: *const std::ffi::c_char, flags: u32) -> i32;
}
/// Run `f` with the printing listeners in place and standard error going to a file; the text printed.
/// Only for single-threaded cases.
pub fn printed<T>(f: impl FnOnce() -> T) -> (T, String) {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            CONSOLE.with(|c| c.set(false));
        }
    }
    CONSOLE.with(|c| c.set(true));
    let _back = Back;
    captured(2, f)
}
/// Run `f` with standard output (1) or standard error (2) going to a file; the text printed.
pub fn captured<T>(fd: i32, f: impl FnOnce() -> T) -> (T, String) {
    use std::io::{Read, Seek, SeekFrom, Write};
    use std::os::fd::FromRawFd;
    struct Back(i32, i32);
    impl Drop for Back {
        fn drop(&mut self) {
            std::io::stdout().flush().ok();
            unsafe {
                dup2(self.1, self.0);
                close(self.1);
            }
        }
    }
    std::io::stdout().flush().ok();
    let (m, old) = unsafe { (memfd_create(c"vh".as_ptr(), 1), dup(fd)) };
    assert!(m >= 0 && old >= 0);
    let back = Back(fd, old);
    unsafe { dup2(m, fd) };
    let r = f();
    drop(back);
    let mut file = unsafe { std::fs::File::from_raw_fd(m) };
    let mut v = vec![];
    file.seek(SeekFrom::Start(0)).unwrap();
    file.read_to_end(&mut v).unwrap();
    (r, String::from_utf8_lossy(&v).into_owned())
}

// ---- points where a case may let other threads run, or start a nested recognizer

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Point {
    /// the recognizer is between two predictions or tokens
    Between,
    /// the recognizer is looking at its input
    Input,
    /// embedded action, parse listener or error listener
    Callback,
}
type Hook = std::rc::Rc<dyn Fn(Point)>;
thread_local! {
    static HOOKED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
}
#[inline]
pub fn point(p: Point) {
    if HOOKED.with(|h| h.get()) {
        let f = HOOK.with(|h| h.borrow().clone());
        if let Some(f) = f {
            f(p)
        }
    }
}
pub fn set_hook(f: Option<Hook>) {
    HOOKED.with(|h| h.set(f.is_some()));
    HOOK.with(|h| *h.borrow_mut() = f);
}
