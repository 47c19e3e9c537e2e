#![allow(static_mut_refs, invalid_runtime_symbol_definitions)]
//! Deterministic simulation runtime (compiled without instrumentation).
pub mod alloc;
pub mod coord;
pub mod hooks;
pub mod json;
pub mod rng;
pub mod run;
pub mod sched;
pub mod sys;
pub mod tape;
pub mod vfs;
pub mod world;

use world::w;
pub use world::hash_step;

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub chunk: u64,
    pub f: fn(),
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

// ------------------------------------------------------------------ decisions
#[inline(never)]
pub fn d(n: u64) -> u64 {
    w().s.draw(n)
}
/// inclusive; the plainest value is `lo`
#[inline(never)]
pub fn range(lo: i64, hi: i64) -> i64 {
    lo + d((hi - lo + 1) as u64) as i64
}
/// true with probability num/den; the plainest answer is no
#[inline(never)]
pub fn chance(num: u64, den: u64) -> bool {
    let v = w().s.draw(den);
    v >= den - num
}
/// weighted choice; index 0 is the plainest
#[inline(never)]
pub fn pick(weights: &[u64]) -> usize {
    let t: u64 = weights.iter().sum();
    let mut v = w().s.draw(t);
    for (i, &x) in weights.iter().enumerate() {
        if v < x {
            return i;
        }
        v -= x;
    }
    0
}
#[inline(never)]
pub fn fault(n: u64) -> u64 {
    w().f.draw(n)
}
#[inline(never)]
pub fn fault_chance(num: u64, den: u64) -> bool {
    let v = w().f.draw(den);
    v >= den - num
}
#[inline(never)]
pub fn clock_draw(n: u64) -> u64 {
    w().c.draw(n)
}
#[inline(never)]
pub fn stat(k: &'static str, n: u64) {
    w().stat(k, n);
}
/// A line of the event log (part of the determinism hash; shown in replays).
#[inline(never)]
pub fn note(s: String) {
    w().line(s);
}
#[inline(never)]
pub fn tracing() -> bool {
    w().tracing
}
#[inline(never)]
pub fn mixlog(v: u64) {
    w().mixlog(v);
}
/// Contribute to the signature that tells executions apart.
#[inline(never)]
pub fn sig(v: u64) {
    let w = w();
    w.sig = world::hash_step(w.sig, v);
}
#[inline(never)]
pub fn nontrivial() {
    w().trivial = false;
}
#[inline(never)]
pub fn sample(s: String) {
    let w = w();
    if w.sample.is_none() {
        w.sample = Some(s);
    }
}
#[inline(never)]
pub fn entropy_seed() -> u64 {
    w().seed
}
// ------------------------------------------------------------------ clocks
#[inline(never)]
pub fn set_clocks(mono: u64, wall: i64) {
    let w = w();
    w.mono = mono;
    w.mono0 = mono;
    w.wall = wall;
}
#[inline(never)]
pub fn advance(ns: u64) {
    let w = w();
    w.mono += ns;
    w.wall = w.wall.wrapping_add(ns as i64);
}
#[inline(never)]
pub fn wall_jump(ns: i64) {
    let w = w();
    w.wall = w.wall.saturating_add(ns).max(0);
    w.stat("fault.wall_clock_jump", 1);
}
#[inline(never)]
pub fn mono() -> u64 {
    w().mono
}
#[inline(never)]
pub fn wall() -> i64 {
    w().wall
}
// ------------------------------------------------------------------ verdicts
#[inline(never)]
#[cold]
pub fn fail(class: &str, msg: String) -> ! {
    run::die(class, &msg)
}
#[macro_export]
macro_rules! check {
    ($c:expr, $class:expr, $($a:tt)*) => { if !($c) { $crate::fail($class, format!($($a)*)) } };
}
pub const BUDGET: u64 = 60_000_000;
#[inline(never)]
pub fn budget_begin(n: u64) -> u64 {
    unsafe {
        let old = sched::LIMIT;
        sched::LIMIT = sched::STEPS.saturating_add(n);
        old
    }
}
#[inline(never)]
pub fn budget_end(old: u64) {
    unsafe {
        sched::LIMIT = old;
    }
}
#[inline(never)]
pub fn steps() -> u64 {
    unsafe { sched::STEPS }
}
#[inline(never)]
pub fn last_panic() -> String {
    std::mem::take(&mut w().last_panic)
}
/// Call into the system under test: a panic or running out of steps is a violation.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> T {
    sut_budget(what, BUDGET, f)
}
pub fn sut_budget<T>(what: &str, budget: u64, f: impl FnOnce() -> T) -> T {
    run::enter_sut(what);
    let old = budget_begin(budget);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    budget_end(old);
    match r {
        Ok(v) => v,
        Err(_) => {
            let p = last_panic();
            run::die("panic", &format!("{what}: {p}"))
        }
    }
}
/// Call something that is allowed to take for ever: None when it was abandoned after `budget` steps.
pub fn try_budget<T: Send + 'static>(what: &str, budget: u64, f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    let slot = std::sync::Arc::new(std::sync::Mutex::new(None));
    let (put, name) = (slot.clone(), what.to_string());
    let t = threads_spawned();
    std::thread::spawn(move || {
        soft_begin(budget);
        run::enter_sut(&name);
        let r = f();
        soft_end();
        *put.lock().unwrap() = Some(r);
    });
    sched::await_end(t);
    soft_end();
    if let Some(p) = clear_thread_panics().first() {
        run::die("panic", &format!("{what}: {p}"));
    }
    let r = slot.lock().unwrap().take();
    r
}
/// As `try_budget`, except that a call whose input is `easy` has to end: it gets four times the budget.
pub fn try_easy<T: Send + 'static>(easy: bool, what: &str, budget: u64, f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    let r = try_budget(what, budget * if easy { 4 } else { 1 }, f);
    if easy {
        stat("calls_that_must_end", 1);
    }
    if easy && r.is_none() {
        fail("hang", format!("no end of an easy call within {} steps: {what}", budget * 4));
    }
    r
}
#[inline(never)]
fn soft_begin(budget: u64) {
    alloc::start(500);
    unsafe {
        sched::SOFT = w().cur;
        sched::LIMIT = sched::STEPS.saturating_add(budget);
    }
}
#[inline(never)]
fn soft_end() {
    alloc::start(1500);
    unsafe {
        sched::SOFT = usize::MAX;
        sched::LIMIT = 6_000_000_000;
    }
}
/// As `sut`, where a panic is one of the admissible outcomes.
pub fn sut_try<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    run::enter_sut(what);
    let old = budget_begin(BUDGET);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    budget_end(old);
    r.map_err(|_| last_panic())
}
/// Run harness code (a heavy oracle) without counting steps or preempting.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let old = budget_begin(u64::MAX);
    let (live, st) = unsafe { (std::mem::replace(&mut sched::LIVE, 1), sched::STEPS) };
    let r = f();
    unsafe {
        sched::LIVE = live;
        sched::STEPS = st;
    }
    budget_end(old);
    r
}
#[inline(never)]
pub fn with_fs<T>(f: impl FnOnce(&mut vfs::Fs) -> T) -> T {
    f(&mut w().fs)
}
#[inline(never)]
pub fn tid() -> usize {
    w().cur
}
#[inline(never)]
pub fn threads_spawned() -> usize {
    w().th.len()
}
#[inline(never)]
pub fn thread_state(t: usize) -> world::St {
    w().th[t].st
}
#[inline(never)]
pub fn clear_thread_panics() -> Vec<String> {
    std::mem::take(&mut w().thread_panics)
}
