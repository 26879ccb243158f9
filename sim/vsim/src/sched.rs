//! Who runs when, and what fails: the hook behind every token-server operation,
//! injected crashes, step limits, the allocator's seam and the thread scheduler.

use crate::tape::{mix, Tape};
use proc_macro2::sim::{self, Op};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

/// The end of one library call.
pub enum Out<R> {
    Ok(R),
    /// The library panicked.
    Panic(String),
    /// The simulator aborted the call.
    Crash,
    /// The call took more token operations than any bound allows.
    Steps,
}

impl<R> Out<R> {
    pub fn ok(self) -> Option<R> {
        match self {
            Out::Ok(r) => Some(r),
            _ => None,
        }
    }
    pub fn what(&self) -> String {
        match self {
            Out::Ok(_) => "returned".into(),
            Out::Panic(m) => {
                let m: String = m.chars().take(300).collect();
                format!("panicked: {m}")
            }
            Out::Crash => "aborted by the simulator".into(),
            Out::Steps => "did not end within the step limit".into(),
        }
    }
}

struct SimCrash;
struct SimSteps;

struct Ctx {
    depth: Cell<u32>,
    ops: Cell<u64>,
    prints: Cell<u64>,
    crash: Cell<u64>,
    limit: Cell<u64>,
    kinds: [Cell<u64>; 8],
    crash_kind: Cell<u8>,
    slot: Cell<usize>,
    left: Cell<u32>,
    busy: Cell<bool>,
}

const NO_SLOT: usize = usize::MAX;
const ZERO: Cell<u64> = Cell::new(0);

thread_local! {
    static CTX: Ctx = const { Ctx {
        depth: Cell::new(0), ops: Cell::new(0), prints: Cell::new(0), crash: Cell::new(0), limit: Cell::new(0),
        kinds: [ZERO; 8], crash_kind: Cell::new(0), slot: Cell::new(NO_SLOT), left: Cell::new(0),
        busy: Cell::new(false),
    } };
}

pub struct Called<R> {
    pub out: Out<R>,
    pub ops: u64,
    /// The kind of operation at which the call was aborted.
    pub crash_kind: Option<u8>,
}

fn hook(op: Op) {
    CTX.with(|c| {
        if c.depth.get() == 0 || c.busy.get() {
            return;
        }
        if let Op::Print = op {
            // counts as work, but is no place to be interrupted at
            c.prints.set(c.prints.get() + 1);
            return;
        }
        if let Op::Place = op {
            // no work and cannot fail, but another thread may run
            if c.slot.get() != NO_SLOT && !CALLS_ONLY.load(Relaxed) && !std::thread::panicking() {
                point(c);
            }
            return;
        }
        let n = c.ops.get() + 1;
        c.ops.set(n);
        let k = &c.kinds[op as usize];
        k.set(k.get() + 1);
        if std::thread::panicking() {
            return;
        }
        if n == c.crash.get() {
            c.crash_kind.set(op as u8);
            resume_unwind(Box::new(SimCrash));
        }
        if n > c.limit.get() {
            resume_unwind(Box::new(SimSteps));
        }
        if c.slot.get() != NO_SLOT && !CALLS_ONLY.load(Relaxed) {
            point(c);
        }
    })
}

static CALLS_ONLY: AtomicBool = AtomicBool::new(false);

/// Threads are switched between calls only.
pub fn calls_only(x: bool) {
    CALLS_ONLY.store(x, Relaxed);
}

/// Runs `f`, a call into the library, aborting it at its `crash`th token
/// operation (0: not at all) or after `limit` of them.
pub fn call<R>(crash: u64, limit: u64, f: impl FnOnce() -> R) -> Called<R> {
    let saved = CTX.with(|c| {
        let s = (c.ops.get(), c.crash.get(), c.limit.get(), c.crash_kind.get(), c.prints.get());
        c.ops.set(0);
        c.prints.set(0);
        c.crash.set(crash);
        c.limit.set(limit);
        c.crash_kind.set(255);
        c.depth.set(c.depth.get() + 1);
        s
    });
    sim::set_hook(Some(hook));
    let r = catch_unwind(AssertUnwindSafe(f));
    let (ops, kind) = CTX.with(|c| {
        let r = (c.ops.get() + c.prints.get(), c.crash_kind.get());
        c.ops.set(saved.0);
        c.prints.set(saved.4);
        c.crash.set(saved.1);
        c.limit.set(saved.2);
        c.crash_kind.set(saved.3);
        c.depth.set(c.depth.get() - 1);
        if c.depth.get() == 0 {
            sim::set_hook(None);
        }
        r
    });
    let out = match r {
        Ok(r) => Out::Ok(r),
        Err(p) => {
            let o = if p.is::<SimCrash>() {
                Out::Crash
            } else if p.is::<SimSteps>() {
                Out::Steps
            } else if let Some(s) = p.downcast_ref::<&str>() {
                Out::Panic(s.to_string())
            } else if let Some(s) = p.downcast_ref::<String>() {
                Out::Panic(s.clone())
            } else {
                Out::Panic("?".into())
            };
            o
        }
    };
    Called {
        out,
        ops,
        crash_kind: (kind != 255).then_some(kind),
    }
}

/// Runs simulator code from inside a library call (a callback) without it
/// counting as token operations or as a place to be preempted.
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let d = CTX.with(|c| c.depth.replace(0));
    let r = catch_unwind(AssertUnwindSafe(f));
    CTX.with(|c| c.depth.set(d));
    if d > 0 {
        sim::set_hook(Some(hook));
    }
    match r {
        Ok(r) => r,
        Err(p) => resume_unwind(p),
    }
}

pub fn in_call() -> bool {
    CTX.with(|c| c.depth.get() > 0)
}

pub const KIND: [&str; 8] = [
    "next-token", "fork", "open", "enter-group", "append", "wrap", "intern", "join",
];

/// The token operations of this thread and of ended ones so far, by kind.
pub fn kinds() -> [u64; 8] {
    CTX.with(|c| std::array::from_fn(|i| c.kinds[i].get() + ENDED[i].load(Relaxed)))
}

const NONE: AtomicU64 = AtomicU64::new(0);
/// Those of threads that have ended.
static ENDED: [AtomicU64; 8] = [NONE; 8];

// --- threads ---

struct Inner {
    turn: usize,
    live: Vec<bool>,
    tape: Tape,
    max_quantum: u32,
    next_left: u32,
    switches: u64,
    hash: u64,
}

pub struct Baton {
    inner: Mutex<Inner>,
    cvs: Vec<Condvar>,
    free: AtomicBool,
    progress: AtomicU64,
}

pub struct ThreadStats {
    pub switches: u64,
    pub hash: u64,
    pub rescued: bool,
    pub tape: Tape,
}

static BATON: Mutex<Option<Arc<Baton>>> = Mutex::new(None);
thread_local! {
    static MY_BATON: Cell<Option<&'static Baton>> = const { Cell::new(None) };
}

impl Baton {
    fn choose(&self, i: &mut Inner) -> Option<usize> {
        let live: Vec<usize> = (0..i.live.len()).filter(|x| i.live[*x]).collect();
        if live.is_empty() {
            return None;
        }
        let next = live[i.tape.below(live.len() as u32) as usize];
        i.next_left = 1 + i.tape.below(i.max_quantum);
        Some(next)
    }
    fn wait(&self, me: usize, mut g: std::sync::MutexGuard<Inner>, c: &Ctx) {
        let mut seen = self.progress.load(Relaxed);
        let mut still = 0;
        while g.turn != me && !self.free.load(Relaxed) {
            let (g2, t) = self.cvs[me].wait_timeout(g, Duration::from_millis(500)).unwrap();
            g = g2;
            if t.timed_out() {
                let now = self.progress.load(Relaxed);
                still = if now == seen { still + 1 } else { 0 };
                seen = now;
                if still >= 6 {
                    // the running thread waits for something a parked one holds
                    self.free.store(true, Relaxed);
                    for cv in &self.cvs {
                        cv.notify_all();
                    }
                }
            }
        }
        c.left.set(if self.free.load(Relaxed) { u32::MAX } else { g.next_left });
    }
    fn switch(&self, me: usize, c: &Ctx) {
        if self.free.load(Relaxed) {
            c.left.set(u32::MAX);
            return;
        }
        let mut g = self.inner.lock().unwrap();
        let next = self.choose(&mut g).unwrap();
        if next == me {
            c.left.set(g.next_left);
            return;
        }
        g.switches += 1;
        g.hash = mix(g.hash ^ (next as u64 + 1)).wrapping_add(CTX.with(|c| c.ops.get()));
        g.turn = next;
        self.cvs[next].notify_all();
        self.wait(me, g, c);
    }
}

#[inline]
fn point(c: &Ctx) {
    let left = c.left.get();
    if left > 1 {
        c.left.set(left - 1);
        if left & 15 == 0 {
            if let Some(b) = MY_BATON.with(|b| b.get()) {
                b.progress.fetch_add(1, Relaxed);
            }
        }
        return;
    }
    if c.busy.replace(true) {
        return;
    }
    if let Some(b) = MY_BATON.with(|b| b.get()) {
        b.progress.fetch_add(1, Relaxed);
        b.switch(c.slot.get(), c);
    }
    c.busy.set(false);
}

/// A place between library calls where another thread may be scheduled.
pub fn boundary() {
    CTX.with(|c| {
        if c.slot.get() != NO_SLOT {
            point(c);
        }
    })
}

/// Runs the bodies on a thread each; exactly one runs at any time and `tape`
/// decides which, at every token operation, allocation and call boundary.
pub fn run_threads<T: Send>(
    tape: Tape,
    max_quantum: u32,
    alloc_points: bool,
    bodies: Vec<Box<dyn FnOnce() -> T + Send + '_>>,
) -> (Vec<std::thread::Result<T>>, ThreadStats) {
    let n = bodies.len();
    let mut inner = Inner {
        turn: 0,
        live: vec![true; n],
        tape,
        max_quantum,
        next_left: 1,
        switches: 0,
        hash: 0,
    };
    let baton = Arc::new(Baton {
        inner: Mutex::new({
            let first = inner.tape.below(n as u32) as usize;
            inner.turn = first;
            inner
        }),
        cvs: (0..n).map(|_| Condvar::new()).collect(),
        free: AtomicBool::new(false),
        progress: AtomicU64::new(0),
    });
    *BATON.lock().unwrap() = Some(baton.clone());
    ALLOC_POINTS.store(alloc_points, Relaxed);
    let b: &Baton = Arc::as_ref(&baton);
    let results = std::thread::scope(|s| {
        let hs: Vec<_> = bodies
            .into_iter()
            .enumerate()
            .map(|(me, body)| {
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || {
                        // the baton outlives the scope
                        let b: &'static Baton = unsafe { &*(b as *const Baton) };
                        CTX.with(|c| {
                            c.busy.set(true);
                            let g = b.inner.lock().unwrap();
                            b.wait(me, g, c);
                            MY_BATON.with(|m| m.set(Some(b)));
                            c.slot.set(me);
                            c.busy.set(false);
                        });
                        let r = catch_unwind(AssertUnwindSafe(body));
                        CTX.with(|c| {
                            c.busy.set(true);
                            c.slot.set(NO_SLOT);
                            for (i, k) in c.kinds.iter().enumerate() {
                                ENDED[i].fetch_add(k.get(), Relaxed);
                            }
                            MY_BATON.with(|m| m.set(None));
                            let mut g = b.inner.lock().unwrap();
                            g.live[me] = false;
                            if !b.free.load(Relaxed) {
                                if let Some(next) = b.choose(&mut g) {
                                    g.turn = next;
                                    b.cvs[next].notify_all();
                                }
                            }
                            b.progress.fetch_add(1, Relaxed);
                            c.busy.set(false);
                        });
                        match r {
                            Ok(x) => x,
                            Err(p) => resume_unwind(p),
                        }
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    ALLOC_POINTS.store(false, Relaxed);
    *BATON.lock().unwrap() = None;
    let g = baton.inner.lock().unwrap();
    (
        results,
        ThreadStats {
            switches: g.switches,
            hash: g.hash,
            rescued: baton.free.load(Relaxed),
            tape: g.tape.clone(),
        },
    )
}

pub const STACK: usize = 16 << 20;

// --- memory ---

static LIVE: AtomicUsize = AtomicUsize::new(0);
static ALLOC_POINTS: AtomicBool = AtomicBool::new(false);
/// More live memory than any run needs.
pub const BUDGET: usize = 1500 << 20;
/// Exit status of a worker that ran out of its memory budget.
pub const EXIT_MEMORY: i32 = 86;

extern "C" {
    fn _exit(code: i32) -> !;
}

pub struct Alloc;

#[inline]
fn took(n: usize) {
    if LIVE.fetch_add(n, Relaxed) + n > BUDGET {
        unsafe { _exit(EXIT_MEMORY) }
    }
    if ALLOC_POINTS.load(Relaxed) {
        let _ = CTX.try_with(|c| {
            if c.slot.get() != NO_SLOT && c.depth.get() > 0 && !c.busy.get() {
                point(c);
            }
        });
    }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        took(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        took(n);
        LIVE.fetch_sub(l.size(), Relaxed);
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        took(l.size());
        System.alloc_zeroed(l)
    }
}

thread_local! {
    static PANICKED: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Where this thread panicked last, and with what.
pub fn panicked() -> String {
    PANICKED.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

pub fn silence() {
    std::panic::set_hook(Box::new(|info| {
        let busy = CTX.with(|c| c.busy.replace(true));
        let at = info.location().map(|l| l.to_string()).unwrap_or_default();
        if !in_call() && (at.contains("vsim/src") || at.starts_with("src/")) {
            eprintln!("harness: {info}");
        }
        let what = info.payload();
        let what = match what.downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => what.downcast_ref::<String>().cloned().unwrap_or_default(),
        };
        PANICKED.with(|p| *p.borrow_mut() = format!("{at}: {what}"));
        CTX.with(|c| c.busy.set(busy));
    }));
}
