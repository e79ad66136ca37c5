//! The generator: every random decision of a case is one draw from a tape of integers, which is
//! recorded as it is produced and can be replayed, mutated and shrunk.

use std::any::Any;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::collections::hash_map::DefaultHasher;
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind, panic_any};
use std::sync::atomic::{AtomicU64, Ordering};

/// SplitMix64.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut r = Rng(0x5EED);
    let mut h = 0u64;
    for p in parts {
        r.0 ^= *p;
        h = h.rotate_left(17) ^ r.next();
    }
    h
}

/// A property was violated by the code under test.
pub struct Violation(pub String);
/// The case left the domain of the property that is being checked.
pub struct Discard(pub String);

pub fn violate(msg: impl Into<String>) -> ! {
    panic_any(Violation(msg.into()))
}
pub fn discard(msg: impl Into<String>) -> ! {
    panic_any(Discard(msg.into()))
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($fmt:tt)*) => { if !($cond) { $crate::engine::violate(format!($($fmt)*)) } };
}

pub struct Ctx {
    rng: Option<Rng>,
    then: Option<Rng>,
    tape: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
    dump: Option<File>,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub pid: &'static str,
    pub thorough: bool,
    pub steps: u64,
    /// Where in the tape the steps start.
    pub marks: Vec<usize>,
}

impl Ctx {
    pub fn random(pid: &'static str, seed: u64) -> Self {
        Self::make(pid, Some(Rng(seed)), Vec::new())
    }
    pub fn replay(pid: &'static str, tape: Vec<u64>) -> Self {
        Self::make(pid, None, tape)
    }
    /// Draws from the tape as far as it goes, and at random from there on.
    pub fn led(pid: &'static str, tape: Vec<u64>, seed: u64) -> Self {
        let mut c = Self::make(pid, None, tape);
        c.then = Some(Rng(seed));
        c
    }
    fn make(pid: &'static str, rng: Option<Rng>, tape: Vec<u64>) -> Self {
        Ctx {
            rng,
            then: None,
            tape,
            pos: 0,
            rec: Vec::new(),
            dump: None,
            tracing: false,
            trace: Vec::new(),
            labels: BTreeMap::new(),
            nontrivial: false,
            pid,
            thorough: false,
            steps: 0,
            marks: Vec::new(),
        }
    }
    pub fn dump_to(&mut self, f: File) {
        self.dump = Some(f);
    }

    /// A number below `bound`. Zero is the simplest choice.
    pub fn draw(&mut self, bound: u64) -> u64 {
        assert!(bound > 0);
        let v = match &mut self.rng {
            Some(r) => r.next() % bound,
            None => {
                let v = self.tape.get(self.pos).copied();
                self.pos += 1;
                match (&mut self.then, v) {
                    (Some(_), Some(v)) if v < bound => v,
                    (Some(_), Some(u64::MAX)) => bound - 1,
                    (Some(_), Some(v)) => v % bound,
                    (Some(r), None) => r.next() % bound,
                    (None, v) => v.unwrap_or(0).min(bound - 1),
                }
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.dump {
            let _ = writeln!(f, "{v}");
        }
        v
    }
    pub fn below(&mut self, bound: usize) -> usize {
        self.draw(bound as u64) as usize
    }
    /// True with a chance of `num` in `den`.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // The largest draws mean `true`, so that shrinking towards zero switches things off.
        self.draw(den) >= den - num
    }
    pub fn flag(&mut self) -> bool {
        self.draw(2) == 1
    }
    /// Between `lo` and `hi`, both included.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, of: &'a [T]) -> &'a T {
        let i = self.below(of.len());
        &of[i]
    }
    /// Picks an index by weight; the first weights are the simplest.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.draw(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    /// A number of any size, biased to small and boundary values.
    pub fn bits(&mut self) -> u64 {
        match self.draw(6) {
            0 => self.draw(8),
            1 => self.draw(300),
            2 => {
                let s = self.draw(64);
                let d = self.draw(3);
                (1u64 << s).wrapping_add(d).wrapping_sub(1)
            }
            3 => {
                let s = self.draw(64);
                (1u64 << s).wrapping_neg().wrapping_sub(self.draw(2))
            }
            4 => u64::MAX - self.draw(4),
            _ => self.draw(u64::MAX),
        }
    }

    /// A step of the case starts here.
    pub fn step(&mut self) {
        self.steps += 1;
        self.marks.push(self.rec.len());
    }

    pub fn label(&mut self, l: &str) {
        if let Some(c) = self.labels.get_mut(l) {
            *c += 1;
        } else {
            self.labels.insert(l.to_string(), 1);
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            if TRACE_STDERR.load(Ordering::Relaxed) != 0 {
                eprintln!("  {s}");
            }
            self.trace.push(s);
        }
    }
    pub fn digest(&self) -> u64 {
        let mut h = DefaultHasher::new();
        self.rec.hash(&mut h);
        h.finish()
    }
}

pub static TRACE_STDERR: AtomicU64 = AtomicU64::new(0);

pub enum Outcome {
    Pass,
    Discarded(String),
    Violated(String),
}

thread_local! {
    static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            return;
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| p.set(Some(format!("{msg} ({at})"))));
        if std::env::var_os("NTCHECK_PANICS").is_some() {
            eprintln!("panic: {msg} ({at})\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}

pub fn panic_text(p: &(dyn Any + Send)) -> String {
    if let Some(v) = p.downcast_ref::<Violation>() {
        return v.0.clone();
    }
    LAST_PANIC.with(|l| l.take()).unwrap_or_else(|| {
        p.downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| p.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "unknown panic".into())
    })
}

/// Runs something that is expected to panic in some situations. Verdicts of the harness pass through.
pub fn catches<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<Violation>() || p.is::<Discard>() || p.is::<Boom>() {
                std::panic::resume_unwind(p);
            }
            Err(panic_text(&*p))
        }
    }
}

/// A hook or handler of the user's panics with this.
pub struct Boom;

/// Runs something which a panic of the user's code may end. Says whether one did.
pub fn catches_boom(f: impl FnOnce()) -> bool {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => false,
        Err(p) if p.is::<Boom>() => true,
        Err(p) => std::panic::resume_unwind(p),
    }
}

/// Runs something whose verdict does not matter.
pub fn catches_all(f: impl FnOnce()) -> Result<(), ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

pub type Check = fn(&mut Ctx);

/// The bytes which `getrandom` hands out: the hash seeds of a case depend on nothing but the case.
pub static HASH_SEED: AtomicU64 = AtomicU64::new(1);

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut r = Rng(HASH_SEED.load(Ordering::Relaxed));
    for i in 0..len {
        unsafe { *buf.add(i) = r.next() as u8 };
    }
    len as isize
}

/// Runs one case in a thread of its own.
pub fn run_case(check: Check, mut ctx: Ctx, hash_seed: u64) -> (Ctx, Outcome) {
    HASH_SEED.store(hash_seed, Ordering::Relaxed);
    let (tx, rx) = std::sync::mpsc::channel();
    let t = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let tid = std::fs::read_link("/proc/thread-self").ok();
            let _ = tx.send(Progress::Started(tid));
            let r = catch_unwind(AssertUnwindSafe(|| check(&mut ctx)));
            let o = match r {
                Ok(()) => Outcome::Pass,
                Err(p) => {
                    if let Some(d) = p.downcast_ref::<Discard>() {
                        Outcome::Discarded(d.0.clone())
                    } else if let Some(v) = p.downcast_ref::<Violation>() {
                        Outcome::Violated(v.0.clone())
                    } else {
                        Outcome::Violated(format!("unexpected panic: {}", panic_text(&*p)))
                    }
                }
            };
            let _ = tx.send(Progress::Done(SendBox(ctx), o));
        })
        .unwrap();
    let mut task: Option<std::path::PathBuf> = None;
    loop {
        match rx.recv_timeout(std::time::Duration::from_secs(5)) {
            Ok(Progress::Started(tid)) => task = tid,
            Ok(Progress::Done(c, o)) => {
                let _ = t.join();
                return (c.0, o);
            }
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                if task.as_deref().is_some_and(deadlocked) {
                    // The thread can never go on: its only other thread is this one, which holds nothing.
                    eprintln!("DEADLOCK");
                    std::process::exit(77);
                }
                if task.as_deref().is_some_and(|t| cpu_seconds(t) > cpu_limit()) {
                    eprintln!("HANG");
                    std::process::exit(78);
                }
            }
            Err(_) => return (Ctx::replay("?", vec![]), Outcome::Violated("the case's thread died".into())),
        }
    }
}

enum Progress {
    Started(Option<std::path::PathBuf>),
    Done(SendBox, Outcome),
}

/// How many seconds of processor time one case may take. The largest take a fraction of a second.
fn cpu_limit() -> u64 {
    std::env::var("NTCHECK_CPU").ok().and_then(|v| v.parse().ok()).unwrap_or(45)
}

fn cpu_seconds(task: &std::path::Path) -> u64 {
    let stat = std::fs::read_to_string(std::path::Path::new("/proc").join(task).join("stat")).unwrap_or_default();
    let fields: Vec<&str> = stat.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let ticks = |i: usize| fields.get(i).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
    (ticks(11) + ticks(12)) / 100
}

/// Whether the thread is asleep in an untimed futex wait each time it is looked at.
fn deadlocked(task: &std::path::Path) -> bool {
    for _ in 0..20 {
        let s = std::fs::read_to_string(std::path::Path::new("/proc").join(task).join("syscall")).unwrap_or_default();
        let f: Vec<&str> = s.split_whitespace().collect();
        // The fourth argument of futex is the timeout; a lock waits without one.
        if f.first() != Some(&"202") || f.get(4) != Some(&"0x0") {
            return false;
        }
        std::thread::sleep(std::time::Duration::from_millis(100));
    }
    true
}

struct SendBox(Ctx);
unsafe impl Send for SendBox {}

/// What this process prints to its standard output, kept in memory instead.
pub struct Printed(File);

impl Printed {
    /// Starts anew. What was printed before is gone.
    pub fn start() -> &'static Printed {
        unsafe extern "C" {
            fn memfd_create(name: *const std::ffi::c_char, flags: u32) -> i32;
            fn dup2(from: i32, to: i32) -> i32;
            fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
        }
        static PRINTED: std::sync::OnceLock<Printed> = std::sync::OnceLock::new();
        let p = PRINTED.get_or_init(|| unsafe {
            use std::os::fd::FromRawFd;
            let _ = std::io::stdout().flush();
            let fd = memfd_create(c"printed".as_ptr(), 0);
            assert!(fd >= 0, "memfd_create failed");
            const F_SETFL: i32 = 4;
            const O_APPEND: i32 = 0o2000;
            assert!(fcntl(fd, F_SETFL, O_APPEND) >= 0 && dup2(fd, 1) == 1, "stdout cannot be redirected");
            Printed(File::from_raw_fd(fd))
        });
        let _ = std::io::stdout().flush();
        p.0.set_len(0).unwrap();
        p
    }

    /// What was printed since `from`, which is moved on.
    pub fn since(&self, from: &mut u64) -> Vec<u8> {
        use std::os::unix::fs::FileExt;
        let _ = std::io::stdout().flush();
        let len = self.0.metadata().unwrap().len();
        let mut v = vec![0; (len - *from) as usize];
        self.0.read_exact_at(&mut v, *from).unwrap();
        *from = len;
        v
    }
}

/// Without line breaks and the terminal's colour codes.
pub fn plain_text(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut rest = s;
    while let Some(i) = rest.find(|c| c == '\n' || c == '\x1b') {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        let code = rest.strip_prefix("\x1b[").and_then(|r| {
            let r = r.trim_start_matches(|c: char| c.is_ascii_digit() || c == ';');
            r.strip_prefix('m')
        });
        rest = match code {
            Some(r) => r,
            None => {
                if rest.starts_with('\x1b') {
                    out.push('\x1b');
                }
                &rest[1..]
            }
        };
    }
    out.push_str(rest);
    out
}
