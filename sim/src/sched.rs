//! The thread scheduler, and running things in processes of their own.
//!
//! Simulated threads are real ones of which exactly one runs at any time. Control passes from
//! one to another, as drawn from the tape, only at seams: callbacks of the code under test
//! (read, write, format, serialize, deserialize), memory allocations, and waits for a lock
//! (futexes, interposed). Everything in between is a pure computation.

use crate::core::{self, Cx, Outcome, Viol};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::Write as _;
use std::sync::{Arc, Condvar, Mutex, MutexGuard, OnceLock};

// ---------------------------------------------------------------- thread state

thread_local! {
    /// the simulated thread this is, if any
    static ME: Cell<*const Me> = const { Cell::new(std::ptr::null()) };
    /// inside the simulator: nothing is a seam
    static INSIDE: Cell<u32> = const { Cell::new(0) };
    /// allocations left before the next switch, 0 for none
    static LEFT: Cell<u64> = const { Cell::new(0) };
}

struct Me {
    sched: Sched,
    id: usize,
}

pub struct Inside;
impl Inside {
    pub fn enter() -> Self {
        let _ = INSIDE.try_with(|c| c.set(c.get() + 1));
        Inside
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        let _ = INSIDE.try_with(|c| c.set(c.get().saturating_sub(1)));
    }
}

fn me() -> Option<&'static Me> {
    if INSIDE.try_with(Cell::get).unwrap_or(1) > 0 {
        return None;
    }
    let p = ME.try_with(Cell::get).unwrap_or(std::ptr::null());
    // SAFETY: leaked when the thread was set up
    unsafe { p.as_ref() }
}

// ---------------------------------------------------------------- allocation seam

pub struct SimAlloc;

fn alloc_point() {
    let left = LEFT.try_with(Cell::get).unwrap_or(0);
    if left == 0 {
        return;
    }
    if left > 1 {
        LEFT.with(|c| c.set(left - 1));
        return;
    }
    if let Some(me) = me() {
        LEFT.with(|c| c.set(0));
        let _in = Inside::enter();
        me.sched.cx.count("switched at an allocation");
        me.sched.pass(me.id, false);
        let left = me.sched.gap();
        LEFT.with(|c| c.set(left));
    }
}

// SAFETY: the system's allocator
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        alloc_point();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        alloc_point();
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        alloc_point();
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        alloc_point();
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;

// ---------------------------------------------------------------- lock seam

extern "C" {
    fn __errno_location() -> *mut i32;
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(code: i32) -> !;
}

const SYS_FUTEX: i64 = 202;

/// Interposes libc's `syscall`, through which std waits for locks: a simulated thread that has
/// to wait lets another one run instead, and then looks again.
///
/// # Safety
/// As libc's.
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == SYS_FUTEX && matches!(b & 0x7f, 0 | 9) {
        if let Some(me) = me() {
            let _in = Inside::enter();
            me.sched.cx.count("waited for a lock");
            me.sched.blocked(me.id);
            return 0;
        }
    }
    let mut r: i64 = n;
    std::arch::asm!(
        "syscall",
        inlateout("rax") r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
    );
    if r < 0 {
        *__errno_location() = -(r as i32);
        return -1;
    }
    r
}

// ---------------------------------------------------------------- scheduler

struct S {
    cur: usize,
    live: Vec<bool>,
    /// waits for locks since anything else happened
    waits: u32,
    /// switches that may still be made other than for want of a lock
    budget: u32,
}

struct SchedInner {
    m: Mutex<S>,
    cv: Condvar,
    scale: u64,
    cx: Cx,
}

#[derive(Clone)]
pub struct Sched {
    i: Arc<SchedInner>,
    cx: Cx,
}

impl Sched {
    /// `scale`: about how many allocations a thread makes between switches (0: no limit)
    pub fn new(cx: &Cx, threads: usize, scale: u64) -> Self {
        Sched {
            i: Arc::new(SchedInner {
                m: Mutex::new(S {
                    cur: usize::MAX,
                    live: vec![true; threads],
                    waits: 0,
                    budget: 2500,
                }),
                cv: Condvar::new(),
                scale,
                cx: cx.clone(),
            }),
            cx: cx.clone(),
        }
    }
    fn lock(&self) -> MutexGuard<'_, S> {
        self.i.m.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn gap(&self) -> u64 {
        if self.i.scale == 0 || self.lock().budget == 0 {
            0
        } else {
            1 + self.i.cx.draw(self.i.scale)
        }
    }

    /// Let a drawn thread go on.
    fn pass(&self, id: usize, other: bool) {
        let mut s = self.lock();
        if !other {
            s.waits = 0;
            if s.budget == 0 {
                return;
            }
            s.budget -= 1;
        }
        let ready: Vec<usize> = (0..s.live.len()).filter(|i| s.live[*i] && !(other && *i == id)).collect();
        if ready.is_empty() {
            return;
        }
        let next = ready[self.i.cx.n(ready.len())];
        self.i.cx.ev("run", next as u64, id as u64);
        if next == id {
            return;
        }
        self.i.cx.count("thread switched");
        s.cur = next;
        self.i.cv.notify_all();
        if s.live[id] {
            while s.cur != id {
                s = self.i.cv.wait(s).unwrap_or_else(|e| e.into_inner());
            }
        }
    }

    fn blocked(&self, id: usize) {
        let n = {
            let mut s = self.lock();
            s.waits += 1;
            s.waits
        };
        if n > 3000 {
            die("deadlock", "all threads wait for locks, or one waits for a lock it holds itself");
        }
        self.pass(id, true);
    }

    fn begin(&self, id: usize) {
        let _in = Inside::enter();
        let mut s = self.lock();
        while s.cur != id {
            s = self.i.cv.wait(s).unwrap_or_else(|e| e.into_inner());
        }
    }

    /// Run `f(i)` on each simulated thread.
    pub fn run<T: Send + 'static>(&self, n: usize, f: impl Fn(usize) -> T + Send + Sync + 'static) -> Vec<Option<T>> {
        let f = Arc::new(f);
        let hs: Vec<_> = (0..n)
            .map(|id| {
                let (s, f) = (self.clone(), f.clone());
                let entropy = self.cx.draw(1 << 30);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(move || {
                        core::seed_entropy(core::mix(entropy));
                        s.begin(id);
                        let m = Box::leak(Box::new(Me { sched: s.clone(), id }));
                        ME.with(|c| c.set(m));
                        let first = {
                            let _in = Inside::enter();
                            s.gap()
                        };
                        LEFT.with(|c| c.set(first));
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(id)));
                        LEFT.with(|c| c.set(0));
                        ME.with(|c| c.set(std::ptr::null()));
                        s.lock().live[id] = false;
                        s.pass(id, true);
                        r.ok()
                    })
                    .expect("spawn")
            })
            .collect();
        let first = self.cx.n(n);
        self.lock().cur = first;
        self.i.cv.notify_all();
        hs.into_iter().map(|h| h.join().ok().flatten()).collect()
    }
}

/// A callback of the code under test: perhaps let another thread run.
pub fn point() {
    if let Some(me) = me() {
        let _in = Inside::enter();
        me.sched.pass(me.id, false);
    }
}

// ---------------------------------------------------------------- processes

fn get(fd: i32) -> Vec<u8> {
    let mut v = Vec::new();
    let mut b = [0u8; 65536];
    loop {
        // SAFETY: buffer and length agree
        let n = unsafe { read(fd, b.as_mut_ptr(), b.len()) };
        if n > 0 {
            v.extend_from_slice(&b[..n as usize]);
        } else if n == 0 || std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
            return v;
        }
    }
}
fn put(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        // SAFETY: buffer and length agree
        let n = unsafe { write(fd, b.as_ptr(), b.len()) };
        if n > 0 {
            b = &b[n as usize..];
        } else if std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
            return;
        }
    }
}

/// Run `f` in a process of its own; `Err` with the reason if that process died.
pub fn in_process(limit_s: u32, f: impl FnOnce(i32) -> Vec<u8>) -> Result<Vec<u8>, &'static str> {
    let mut fds = [0i32; 2];
    // SAFETY: plain libc calls
    unsafe {
        if pipe(fds.as_mut_ptr()) != 0 {
            return Err("no pipe");
        }
        let pid = fork();
        if pid < 0 {
            close(fds[0]);
            close(fds[1]);
            return Err("no process");
        }
        if pid == 0 {
            close(fds[0]);
            alarm(limit_s);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(fds[1])));
            match r {
                Ok(v) => {
                    put(fds[1], &v);
                    _exit(0)
                }
                Err(_) => _exit(9),
            }
        }
        close(fds[1]);
        let v = get(fds[0]);
        close(fds[0]);
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {}
        match st {
            0 => Ok(v),
            14 => Err("hang"),
            _ => Err("crash"),
        }
    }
}

static CURRENT: OnceLock<(Cx, i32)> = OnceLock::new();

/// In a run with a process of its own: end it with this violation.
pub fn die(class: &str, msg: &str) -> ! {
    let _in = Inside::enter();
    if let Some((cx, fd)) = CURRENT.get() {
        let v = Viol {
            class: class.into(),
            msg: msg.into(),
        };
        put(*fd, pack(&cx.outcome(Err(v))).as_bytes());
        // SAFETY: plain libc call
        unsafe { _exit(0) }
    }
    std::process::abort()
}

fn line(x: &str) -> String {
    x.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
fn unline(x: &str) -> String {
    let mut o = String::new();
    let mut it = x.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn pack(out: &Outcome) -> String {
    let mut o = String::new();
    let _ = writeln!(o, "hash {}\nevents {}\nnontrivial {}", out.hash, out.events, u8::from(out.nontrivial));
    o.push_str("tape");
    for t in &out.tape {
        let _ = write!(o, " {t}");
    }
    o.push('\n');
    for l in &out.log {
        let _ = writeln!(o, "log {}", line(l));
    }
    for (k, v) in &out.counts {
        let _ = writeln!(o, "count {v} {k}");
    }
    if let Err(v) = &out.result {
        let _ = writeln!(o, "class {}\nmsg {}", line(&v.class), line(&v.msg));
    }
    o.push_str("end\n");
    o
}

fn intern(x: &str) -> &'static str {
    static NAMES: Mutex<Vec<&'static str>> = Mutex::new(Vec::new());
    let mut n = NAMES.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(f) = n.iter().find(|f| **f == x) {
        return f;
    }
    let s: &'static str = Box::leak(x.to_owned().into_boxed_str());
    n.push(s);
    s
}

fn unpack(text: &str) -> Option<Outcome> {
    let mut out = Outcome::empty();
    let mut class = None;
    for l in text.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "hash" => out.hash = v.parse().ok()?,
            "events" => out.events = v.parse().ok()?,
            "nontrivial" => out.nontrivial = v == "1",
            "tape" => out.tape = v.split(' ').filter_map(|x| x.parse().ok()).collect(),
            "log" => out.log.push(unline(v)),
            "count" => {
                let (n, w) = v.split_once(' ')?;
                out.counts.insert(intern(w), n.parse().ok()?);
            }
            "class" => class = Some(unline(v)),
            "msg" => {
                out.result = Err(Viol {
                    class: class.take().unwrap_or_default(),
                    msg: unline(v),
                });
            }
            "end" => return Some(out),
            _ => {}
        }
    }
    None
}

/// One simulated run in a process of its own.
pub fn run_apart(f: core::RunFn, input: core::Input, verbose: bool) -> Outcome {
    let r = in_process(100, |fd| {
        let out = core::run_with(f, input, verbose, |cx| {
            let _ = CURRENT.set((cx.clone(), fd));
        });
        pack(&out).into_bytes()
    });
    let why = match r {
        Ok(v) => match unpack(&String::from_utf8_lossy(&v)) {
            Some(o) => return o,
            None => "crash",
        },
        Err(e) => e,
    };
    let mut o = Outcome::empty();
    o.result = core::viol(why, format!("the process of the run ended with a {why}"));
    o
}
