//! Simulation core: the choice tape (the only source of randomness), the event
//! log/hash, violations, fault counters, and the interposed OS entropy source.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex, MutexGuard};

/// splitmix64
#[must_use]
pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h = (h ^ u64::from(*b)).wrapping_mul(0x0100_0000_01b3);
    }
    h
}

// ---------------------------------------------------------------- entropy seam

thread_local! {
    static ENTROPY: Cell<u64> = const { Cell::new(0x5EED) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Seed what the OS entropy source returns on this thread. Must be called before
/// the first `RandomState` of the thread is created.
pub fn seed_entropy(seed: u64) {
    ENTROPY.with(|c| c.set(seed));
}

/// Interposes libc's `getrandom`, through which std seeds its hash maps.
///
/// # Safety
/// As libc's.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = ENTROPY.try_with(Cell::get).unwrap_or(1);
    for i in 0..len {
        if i % 8 == 0 {
            s = mix(s);
        }
        *buf.add(i) = (s >> (8 * (i % 8))) as u8;
    }
    let _ = ENTROPY.try_with(|c| c.set(mix(s)));
    isize::try_from(len).unwrap_or(0)
}

// ---------------------------------------------------------------- violations

#[derive(Debug, Clone)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}

pub type Res<T = ()> = Result<T, Viol>;

pub fn viol<T>(class: impl Into<String>, msg: impl Into<String>) -> Res<T> {
    Err(Viol {
        class: class.into(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)+) => {
        if !($cond) {
            return $crate::core::viol($class, format!($($arg)+));
        }
    };
}

// ---------------------------------------------------------------- tape and context

enum Src {
    Rng(u64),
    Fixed(Vec<u32>),
}

struct Inner {
    src: Src,
    pos: usize,
    rec: Vec<u32>,
    hash: u64,
    events: u64,
    verbose: bool,
    log: Vec<String>,
    counts: BTreeMap<&'static str, u64>,
    nontrivial: bool,
    quiet: u32,
    big: bool,
}

struct Locked<'a>(MutexGuard<'a, Inner>, #[allow(dead_code)] crate::sched::Inside);
impl std::ops::Deref for Locked<'_> {
    type Target = Inner;
    fn deref(&self) -> &Inner {
        &self.0
    }
}
impl std::ops::DerefMut for Locked<'_> {
    fn deref_mut(&mut self) -> &mut Inner {
        &mut self.0
    }
}

#[derive(Clone)]
pub struct Cx(Arc<Mutex<Inner>>);

pub struct Outcome {
    pub result: Res,
    pub tape: Vec<u32>,
    pub hash: u64,
    pub events: u64,
    pub log: Vec<String>,
    pub counts: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
}

impl Outcome {
    pub fn empty() -> Self {
        Outcome {
            result: Ok(()),
            tape: Vec::new(),
            hash: 0,
            events: 0,
            log: Vec::new(),
            counts: BTreeMap::new(),
            nontrivial: false,
        }
    }
}

const MAX_DRAWS: usize = 2_000_000;

impl Cx {
    fn new(src: Src, verbose: bool) -> Self {
        Self(Arc::new(Mutex::new(Inner {
            src,
            pos: 0,
            rec: Vec::new(),
            hash: 0xabcd,
            events: 0,
            verbose,
            log: Vec::new(),
            counts: BTreeMap::new(),
            nontrivial: false,
            quiet: 0,
            big: false,
        })))
    }
    /// A context of its own, drawing from `seed`; for work that must be repeated exactly.
    pub fn seeded(seed: u64) -> Self {
        Self::new(Src::Rng(mix(seed)), false)
    }
    fn lock(&self) -> Locked<'_> {
        let inside = crate::sched::Inside::enter();
        Locked(self.0.lock().unwrap_or_else(|e| e.into_inner()), inside)
    }
    /// What the run has come to.
    pub fn outcome(&self, result: Res) -> Outcome {
        let mut i = self.lock();
        Outcome {
            result,
            tape: std::mem::take(&mut i.rec),
            hash: i.hash,
            events: i.events,
            log: std::mem::take(&mut i.log),
            counts: std::mem::take(&mut i.counts),
            nontrivial: i.nontrivial,
        }
    }
    /// Draw a choice in `0..n`; 0 is always the simplest one.
    pub fn draw(&self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let n = n.min(u64::from(u32::MAX));
        let mut i = self.lock();
        if i.rec.len() >= MAX_DRAWS {
            return 0;
        }
        let v = match &mut i.src {
            Src::Rng(s) => {
                *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
                mix(*s) % n
            }
            Src::Fixed(_) => {
                let p = i.pos;
                i.pos += 1;
                match &i.src {
                    Src::Fixed(v) => v.get(p).map_or(0, |x| u64::from(*x) % n),
                    Src::Rng(_) => 0,
                }
            }
        };
        i.rec.push(v as u32);
        v
    }
    pub fn n(&self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    #[track_caller]
    pub fn range(&self, lo: usize, hi: usize) -> usize {
        assert!(lo <= hi, "{}", std::panic::Location::caller());
        lo + self.n(hi - lo + 1)
    }
    pub fn chance(&self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    /// Rarely, and once in a run at most: something much larger than usual.
    pub fn huge(&self, den: u64) -> bool {
        if self.lock().big || !self.chance(1, den) {
            return false;
        }
        self.lock().big = true;
        self.count("much larger than usual");
        true
    }
    /// Whether that has happened in this run.
    pub fn big(&self) -> bool {
        self.lock().big
    }
    pub fn coin(&self) -> bool {
        self.draw(2) == 1
    }
    pub fn u64(&self) -> u64 {
        (self.draw(1 << 31) << 33) ^ (self.draw(1 << 31) << 11) ^ self.draw(1 << 20)
    }
    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[self.n(xs.len())]
    }
    /// Record an event: it enters the hash that identifies the interleaving, and,
    /// when replaying verbosely, the text log. Never draws.
    pub fn ev(&self, code: &'static str, a: u64, b: u64) {
        let mut i = self.lock();
        if i.quiet > 0 {
            return;
        }
        i.events += 1;
        i.hash = mix(i.hash ^ fnv(code.as_bytes()) ^ a.rotate_left(17) ^ b.rotate_left(41));
        if i.verbose && i.log.len() < 4000 {
            let mut s = String::new();
            let _ = write!(s, "{code} {a} {b}");
            i.log.push(s);
        }
    }
    /// Text that enters the hash and, when verbose, the log.
    pub fn note(&self, f: impl FnOnce() -> String) {
        let s = f();
        let mut i = self.lock();
        i.events += 1;
        i.hash = mix(i.hash ^ fnv(s.as_bytes()));
        if i.verbose && i.log.len() < 4000 {
            i.log.push(s);
        }
    }
    pub fn quiet(&self, on: bool) {
        let mut i = self.lock();
        if on {
            i.quiet += 1;
        } else {
            i.quiet -= 1;
        }
    }
    pub fn count(&self, what: &'static str) {
        *self.lock().counts.entry(what).or_default() += 1;
    }
    pub fn nontrivial(&self) {
        self.lock().nontrivial = true;
    }
}

/// Run `f`, turning a panic into a violation.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let p = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            viol(
                format!("panic@{}", p.split(" :: ").next().unwrap_or("?")),
                format!("panicked in {what}: {p}"),
            )
        }
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _inside = crate::sched::Inside::enter();
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_owned())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{loc} :: {msg}")));
    }));
}

pub type RunFn = fn(&Cx) -> Res;

pub enum Input {
    Seed(u64),
    Tape(Vec<u32>),
}

/// One simulated run on a fresh thread (so its hash seeds are the simulator's).
pub fn run_one(f: RunFn, input: Input, verbose: bool) -> Outcome {
    run_with(f, input, verbose, |_| {})
}

pub fn run_with(f: RunFn, input: Input, verbose: bool, ready: impl FnOnce(&Cx)) -> Outcome {
    let src = match input {
        Input::Seed(s) => Src::Rng(mix(s)),
        Input::Tape(t) => Src::Fixed(t),
    };
    let cx = Cx::new(src, verbose);
    ready(&cx);
    let c2 = cx.clone();
    let result = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            seed_entropy(mix(c2.draw(1 << 30)));
            match guard("the simulated run", || f(&c2)) {
                Ok(r) => r,
                Err(v) => Err(v),
            }
        })
        .expect("spawn")
        .join();
    let result = match result {
        Ok(r) => r,
        Err(_) => viol("panic", "run thread panicked"),
    };
    cx.outcome(result)
}

/// Run `f` on a helper thread with its own entropy seed and give back its result.
pub fn on_thread<T: Send + 'static>(entropy: u64, f: impl FnOnce() -> T + Send + 'static) -> Res<T> {
    let r = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            seed_entropy(entropy);
            guard("helper process", f)
        })
        .expect("spawn")
        .join();
    match r {
        Ok(r) => r,
        Err(_) => viol("panic", "helper thread died"),
    }
}
