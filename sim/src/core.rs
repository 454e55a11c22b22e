//! The simulator: one choice tape decides everything, simulated threads are coroutines,
//! and every synchronisation operation of fundsp is a scheduling point.

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::collections::BTreeMap;

// ---------------------------------------------------------------------------------------------
// Randomness and the tape.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9e37_79b9_7f4a_7c15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0xd6e8_feb8_6659_fd93) ^ b);
    r.next()
}

pub enum Draws {
    Generate(Rng),
    Replay,
}

pub struct Violation {
    pub class: String,
    pub message: String,
}

/// Which half of a live structure is dropped in the middle of a run.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Crash {
    None,
    Front,
    Back,
}

pub fn crash() -> Crash {
    with(|c| c.crash)
}

pub struct Ctx {
    pub source: Draws,
    pub tape: Vec<u64>,
    pub pos: usize,
    pub verbose: bool,
    pub trace: Vec<String>,
    pub log_hash: u64,
    pub sched_hash: u64,
    pub events: u64,
    pub points: u64,
    pub switches: u64,
    pub point_budget: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub violation: Option<Violation>,
    pub aborting: bool,
    pub sim_seconds: f64,
    /// Out of 16, how many draws keep the current task running at a scheduling point.
    pub stay: u64,
    pub task: usize,
    pub runnable: usize,
    pub yielders: Vec<*const Yielder<(), ()>>,
    pub names: Vec<String>,
    pub capacity: Option<usize>,
    /// Which half goes away in this run.
    pub crash: Crash,
    /// Whether and how the backend is inside other structures.
    pub nest: u8,
    pub spurious: bool,
    pub step: u64,
    pub nontrivial: bool,
    pub live: BTreeMap<u64, i64>,
    /// Identifier of the property under check.
    pub prop: &'static str,
}

pub const NO_TASK: usize = usize::MAX;

impl Ctx {
    pub fn new(source: Draws, tape: Vec<u64>, verbose: bool) -> Self {
        Ctx {
            source,
            tape,
            pos: 0,
            verbose,
            trace: vec![],
            log_hash: 0xcbf2_9ce4_8422_2325,
            sched_hash: 0xcbf2_9ce4_8422_2325,
            events: 0,
            points: 0,
            switches: 0,
            point_budget: 2_000_000,
            counters: BTreeMap::new(),
            violation: None,
            aborting: false,
            sim_seconds: 0.0,
            stay: 8,
            task: NO_TASK,
            runnable: 0,
            yielders: vec![],
            names: vec![],
            capacity: None,
            crash: Crash::None,
            nest: 0,
            spurious: false,
            step: 0,
            nontrivial: false,
            live: BTreeMap::new(),
            prop: "",
        }
    }
}

struct CtxCell(UnsafeCell<Option<Ctx>>);

thread_local! {
    static CTX: CtxCell = const { CtxCell(UnsafeCell::new(None)) };
}

/// Access the context. The closure must not suspend or run code under test.
pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    let _quiet = Quiet::new();
    CTX.with(|c| unsafe { f((*c.0.get()).as_mut().expect("no simulation running")) })
}

pub fn active() -> bool {
    CTX.with(|c| unsafe { (*c.0.get()).is_some() })
}

pub fn set_ctx(ctx: Option<Ctx>) -> Option<Ctx> {
    CTX.with(|c| unsafe { std::mem::replace(&mut *c.0.get(), ctx) })
}

/// Draw a number in 0..n. Zero is always the simplest choice.
pub fn choose(n: u64) -> u64 {
    with(|c| {
        if n <= 1 {
            return 0;
        }
        match &mut c.source {
            Draws::Generate(rng) => {
                let v = ((rng.next() as u128 * n as u128) >> 64) as u64;
                c.tape.push(v);
                c.pos += 1;
                v
            }
            Draws::Replay => {
                let v = c.tape.get(c.pos).copied().unwrap_or(0) % n;
                c.pos += 1;
                v
            }
        }
    })
}

/// True with probability `num / den`. The simplest choice is false.
pub fn chance(num: u64, den: u64) -> bool {
    choose(den) + num >= den
}

/// Number in lo..=hi.
pub fn range(lo: usize, hi: usize) -> usize {
    lo + choose((hi - lo + 1) as u64) as usize
}

pub fn pick<T: Clone>(items: &[T]) -> T {
    items[choose(items.len() as u64) as usize].clone()
}

/// Index drawn with the given weights.
pub fn weighted(weights: &[u64]) -> usize {
    let total: u64 = weights.iter().sum();
    let mut v = choose(total);
    for (i, w) in weights.iter().enumerate() {
        if v < *w {
            return i;
        }
        v -= w;
    }
    0
}

/// Float in 0..1 with 1/1024 resolution.
pub fn frac() -> f64 {
    choose(1024) as f64 / 1024.0
}

pub fn uniform(lo: f64, hi: f64) -> f64 {
    lo + (hi - lo) * frac()
}

pub fn count(name: &'static str) {
    with(|c| *c.counters.entry(name).or_insert(0) += 1);
}

pub fn count_n(name: &'static str, n: u64) {
    with(|c| *c.counters.entry(name).or_insert(0) += n);
}

pub fn nontrivial() {
    with(|c| c.nontrivial = true);
}

fn fold(h: u64, v: u64) -> u64 {
    (h.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95)
}

/// Add a word to the hash that tells schedules apart.
pub fn mark(v: u64) {
    with(|c| c.sched_hash = fold(c.sched_hash, v));
}

/// Add a word to the event log.
pub fn event(v: u64) {
    with(|c| {
        c.log_hash = fold(c.log_hash, v);
        c.events += 1;
    });
}

pub fn log_f32(x: &[f32]) {
    with(|c| {
        for v in x {
            c.log_hash = fold(c.log_hash, v.to_bits() as u64);
        }
        c.events += 1;
    });
}

pub fn verbose() -> bool {
    with(|c| c.verbose)
}

pub fn tracef(s: String) {
    with(|c| {
        let who = if c.task == NO_TASK {
            "-".to_string()
        } else {
            c.names[c.task].clone()
        };
        let step = c.points;
        c.trace.push(format!("{step:>6} {who:<10} {s}"));
        if c.trace.len() > 20_000 {
            c.trace.drain(0..10_000);
        }
    });
}

#[macro_export]
macro_rules! trace {
    ($($t:tt)*) => {
        if $crate::core::verbose() {
            let _q = $crate::core::Quiet::new();
            $crate::core::tracef(format!($($t)*));
        }
    };
}

pub struct SimAbort;
/// Payload that ends a run early without a violation.
pub struct SimDone;

/// Report a violation and abandon the run.
pub fn violate(class: &str, message: String) -> ! {
    let _q = Quiet::new();
    if let Some((id, _)) = class.split_once('/') {
        if with(|c| c.prop != id) {
            // The business of another check: this run can tell no more about its own property.
            count("run ended by a violation of another property");
            trace!("{class}: {message}");
            with(|c| c.aborting = true);
            std::mem::forget(_q);
            std::panic::resume_unwind(Box::new(SimDone));
        }
    }
    with(|c| {
        c.aborting = true;
        if c.violation.is_none() {
            c.violation = Some(Violation {
                class: class.to_string(),
                message,
            });
        }
    });
    std::mem::forget(_q);
    std::panic::resume_unwind(Box::new(SimAbort));
}

// ---------------------------------------------------------------------------------------------
// Allocation accounting.

thread_local! {
    static RT: Cell<bool> = const { Cell::new(false) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static FREES: Cell<u64> = const { Cell::new(0) };
    static POISON: Cell<u8> = const { Cell::new(0) };
    static BACKTRACE: Cell<bool> = const { Cell::new(false) };
}

/// While alive, allocations are the harness's and not counted.
pub struct Quiet;

impl Quiet {
    pub fn new() -> Quiet {
        QUIET.with(|q| q.set(q.get() + 1));
        Quiet
    }
}

impl Drop for Quiet {
    fn drop(&mut self) {
        QUIET.with(|q| q.set(q.get().wrapping_sub(1)));
    }
}

pub fn reset_alloc_state() {
    QUIET.with(|q| q.set(0));
    RT.with(|q| q.set(false));
    ALLOCS.with(|q| q.set(0));
    FREES.with(|q| q.set(0));
}

pub fn set_poison(b: u8) {
    POISON.with(|p| p.set(b));
}

pub fn set_backtrace(b: bool) {
    BACKTRACE.with(|p| p.set(b));
}

/// Whether the code now running is on the audio thread.
pub fn in_rt() -> bool {
    RT.with(|r| r.get())
}

/// Run `f` as the audio thread does, and return (allocations, deallocations) made by it.
pub fn realtime<R>(f: impl FnOnce() -> R) -> (R, u64, u64) {
    let a0 = ALLOCS.with(|a| a.get());
    let f0 = FREES.with(|a| a.get());
    let before = RT.with(|r| r.replace(true));
    let r = f();
    RT.with(|r| r.set(before));
    let a1 = ALLOCS.with(|a| a.get());
    let f1 = FREES.with(|a| a.get());
    (r, a1 - a0, f1 - f0)
}

pub struct Counting;

fn note(cell: &'static std::thread::LocalKey<Cell<u64>>, what: &str, size: usize) {
    let hit = RT.try_with(|r| r.get()).unwrap_or(false)
        && QUIET.try_with(|q| q.get() == 0).unwrap_or(false);
    if hit {
        let _ = cell.try_with(|a| a.set(a.get() + 1));
        if BACKTRACE.with(|b| b.get()) {
            let _q = Quiet::new();
            let bt = std::backtrace::Backtrace::force_capture().to_string();
            let lines: Vec<&str> = bt
                .lines()
                .filter(|l| l.contains("/repo/src/"))
                .take(6)
                .collect();
            tracef(format!("audio thread {what} of {size} bytes: {}", lines.join(" <- ")));
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        note(&ALLOCS, "allocation", layout.size());
        let p = System.alloc(layout);
        let poison = POISON.try_with(|p| p.get()).unwrap_or(0);
        if poison != 0 && !p.is_null() && layout.size() <= 1 << 16 {
            std::ptr::write_bytes(p, poison, layout.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        note(&FREES, "deallocation", layout.size());
        System.dealloc(p, layout)
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, n: usize) -> *mut u8 {
        note(&ALLOCS, "reallocation", n);
        System.realloc(p, layout, n)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        note(&ALLOCS, "allocation", layout.size());
        System.alloc_zeroed(layout)
    }
}

// ---------------------------------------------------------------------------------------------
// Scheduling.

pub struct TheHook;
pub static HOOK: TheHook = TheHook;

impl fundsp::sim::Hook for TheHook {
    fn point(&self, site: &'static str) {
        point(site);
    }
    fn capacity(&self, requested: usize) -> usize {
        if !active() {
            return requested;
        }
        with(|c| match c.capacity {
            Some(n) if requested > n && requested > 1 => n,
            _ => requested,
        })
    }
    fn flip(&self, site: &'static str) -> bool {
        if !active() || with(|c| !c.spurious || c.aborting || c.task == NO_TASK) {
            return false;
        }
        let r = chance(1, 6);
        if r {
            count("fault: spurious compare-exchange failure");
            trace!("{site} fails spuriously");
        }
        r
    }
}

fn site_code(site: &'static str) -> u64 {
    let mut h = 7u64;
    for b in site.bytes() {
        h = h.wrapping_mul(31).wrapping_add(b as u64);
    }
    h
}

/// A scheduling point.
pub fn point(site: &'static str) {
    if !active() {
        return;
    }
    let go = with(|c| {
        if c.aborting || c.task == NO_TASK {
            return false;
        }
        c.points += 1;
        c.sched_hash = fold(c.sched_hash, fold(c.task as u64, site_code(site)));
        true
    });
    if !go || std::thread::panicking() {
        return;
    }
    if with(|c| c.points > c.point_budget) {
        violate(
            "liveness",
            format!("no progress: more than {} synchronisation steps in one run", with(|c| c.point_budget)),
        );
    }
    if with(|c| c.runnable) > 1 {
        let stay = with(|c| c.stay);
        if choose(16) >= stay {
            suspend();
        }
    }
}

/// Always give the scheduler a chance to run another task.
pub fn yield_now() {
    if with(|c| c.task != NO_TASK && !c.aborting && c.runnable > 1) {
        suspend();
    }
}

fn suspend() {
    let y = with(|c| c.yielders[c.task]);
    let rt = RT.with(|r| r.replace(false));
    let quiet = QUIET.with(|q| q.replace(0));
    unsafe { (*y).suspend(()) };
    QUIET.with(|q| q.set(quiet));
    RT.with(|r| r.set(rt));
}

pub struct Sched {
    tasks: Vec<Option<Coroutine<(), (), (), DefaultStack>>>,
    weights: Vec<u64>,
}

impl Sched {
    pub fn new() -> Self {
        // Swarm: how eagerly tasks are preempted differs from run to run.
        let stay = [15, 8, 12, 4, 14][choose(5) as usize];
        with(|c| {
            c.stay = stay;
            c.names.clear();
            c.yielders.clear();
        });
        Sched { tasks: vec![], weights: vec![] }
    }

    pub fn spawn(&mut self, name: &str, f: impl FnOnce() + 'static) {
        let id = self.tasks.len();
        with(|c| {
            c.names.push(name.to_string());
            c.yielders.push(std::ptr::null());
        });
        let stack = DefaultStack::new(4 << 20).expect("stack");
        self.weights.push([1, 1, 3, 8][choose(4) as usize]);
        let co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
            with(|c| c.yielders[id] = y as *const _);
            f();
        });
        self.tasks.push(Some(co));
    }

    /// Run until every task has finished.
    pub fn run(mut self) {
        let mut last = NO_TASK;
        let mut until_reweigh = 0u64;
        loop {
            let live: Vec<usize> = (0..self.tasks.len()).filter(|i| self.tasks[*i].is_some()).collect();
            if live.is_empty() {
                break;
            }
            with(|c| c.runnable = live.len());
            if live.len() > 1 {
                if until_reweigh == 0 {
                    // Now and then change who is fast and who is stalled.
                    for w in self.weights.iter_mut() {
                        *w = [1, 1, 4, 16][choose(4) as usize];
                    }
                    until_reweigh = 20 + choose(100);
                } else {
                    until_reweigh -= 1;
                }
            }
            let id = if live.len() == 1 {
                live[0]
            } else {
                let w: Vec<u64> = live.iter().map(|i| self.weights[*i]).collect();
                live[weighted(&w)]
            };
            with(|c| {
                if id != last {
                    c.switches += 1;
                }
                c.task = id;
                c.step += 1;
                c.sched_hash = fold(c.sched_hash, 1 + id as u64);
            });
            last = id;
            let task = self.tasks[id].as_mut().unwrap();
            let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| task.resume(())));
            let result = match result {
                Ok(result) => result,
                Err(payload) => {
                    // Abandon the run: unwind all other tasks first.
                    with(|c| {
                        c.aborting = true;
                        c.task = NO_TASK;
                    });
                    RT.with(|r| r.set(false));
                    for t in self.tasks.iter_mut() {
                        drop(t.take());
                    }
                    std::panic::resume_unwind(payload);
                }
            };
            with(|c| c.task = NO_TASK);
            if let CoroutineResult::Return(()) = result {
                self.tasks[id] = None;
            }
        }
        with(|c| c.runnable = 0);
    }
}

/// Flush-to-zero and denormals-are-zero, as `prevent_denormals` sets them, in every run.
pub fn set_mxcsr() {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        let v: u32 = 0x9fc0;
        std::arch::asm!("ldmxcsr [{}]", in(reg) &v);
    }
}
