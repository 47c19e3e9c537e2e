//! Seeded scheduler: real threads, exactly one of which holds the baton.
use crate::sys;
use crate::world::*;
use std::cell::Cell;
use std::sync::atomic::AtomicU32;

thread_local! { pub static SLOT: Cell<usize> = const { Cell::new(usize::MAX) } }

/// A run is in progress (only managed threads execute instrumented code then).
pub static mut RUNNING: bool = false;
pub static mut LIVE: usize = 0;
pub static mut GAP: i64 = 0;
pub static mut STEPS: u64 = 0;
pub static mut LIMIT: u64 = u64::MAX;
/// The thread that is merely abandoned when the step budget ends.
pub static mut SOFT: usize = usize::MAX;
pub const FOREVER: u64 = u64::MAX;
const MAX_DECISIONS: u64 = 30_000;

#[inline(always)]
pub fn managed() -> bool {
    unsafe { RUNNING && SLOT.with(|s| s.get()) != usize::MAX }
}

pub fn new_thread() -> usize {
    let w = w();
    let prio = if w.th.is_empty() { 0 } else { w.d.draw(1 << 16) };
    let slow = if w.th.is_empty() || w.mode != 1 { 0 } else { w.d.draw(8) };
    w.th.push(Th {
        word: Box::leak(Box::new(AtomicU32::new(0))),
        st: St::Run,
        woken: false,
        prio,
        slow,
        ran: 0,
        pthread: 0,
    });
    unsafe {
        LIVE += 1;
    }
    w.th.len() - 1
}

/// Configure the schedule of this run: 0 = run to block, 1 = weighted random (slow threads),
/// 2 = uniform random, 3 = priorities with change points.
pub fn setup() {
    let w = w();
    w.mode = w.d.draw(4);
    let k = w.d.draw(6);
    w.gap_mean = [4000, 40, 200, 1000, 20_000, 200_000][k as usize];
    w.spurious_left = if w.d.draw(3) == 1 { 30 } else { 0 };
    next_gap();
}
fn next_gap() {
    let w = w();
    if w.mode == 0 || w.decisions > MAX_DECISIONS {
        unsafe { GAP = if w.mode == 0 { 3_000_000 } else { 200_000 } };
        return;
    }
    let v = w.d.draw(2 * w.gap_mean);
    unsafe { GAP = if v == 0 { 1_000_000 } else { v as i64 } };
}

fn runnable(skip: usize) -> Vec<usize> {
    (0..w().th.len()).filter(|&i| i != skip && w().th[i].st == St::Run).collect()
}

fn switch_to(next: usize) {
    let w = w();
    let me = w.cur;
    if next == me {
        return;
    }
    w.cur = next;
    w.switches += 1;
    w.sched_hash = hash_step(w.sched_hash, next as u64);
    w.mixlog(0x5c00 + next as u64);
    if w.tracing {
        let s = unsafe { STEPS };
        w.lines.push(format!("    [sched] thread {me} -> thread {next} at step {s}"));
    }
    let my_word = w.th[me].word;
    let next_word = w.th[next].word;
    sys::unpark(next_word);
    sys::park(my_word);
}

/// Choose who continues. `cur_ok`: the current thread may continue.
fn choose(cur_ok: bool, yielding: bool) -> Option<usize> {
    let w = w();
    let me = w.cur;
    let mut others = runnable(me);
    if others.is_empty() {
        return if cur_ok { Some(me) } else { None };
    }
    w.decisions += 1;
    if w.decisions > MAX_DECISIONS {
        // no more recorded decisions: plain round robin
        return Some(*others.iter().find(|&&i| i > me).unwrap_or(&others[0]));
    }
    match w.mode {
        3 => {
            if yielding {
                let low = w.th.iter().map(|t| t.prio).min().unwrap_or(0);
                w.th[me].prio = low.saturating_sub(1);
            }
            let mut cands = others.clone();
            if cur_ok && !yielding {
                cands.push(me);
            }
            cands.sort_by_key(|&i| (std::cmp::Reverse(w.th[i].prio), i));
            Some(cands[0])
        }
        1 => {
            // slow threads are picked rarely
            if cur_ok && !yielding {
                others.insert(0, me);
            }
            let wt: Vec<u64> = others.iter().map(|&i| if w.th[i].slow == 1 { 1 } else { 24 }).collect();
            let tot: u64 = wt.iter().sum();
            let mut v = w.d.draw(tot);
            for (k, &i) in others.iter().enumerate() {
                if v < wt[k] {
                    return Some(i);
                }
                v -= wt[k];
            }
            Some(others[0])
        }
        _ => {
            if cur_ok && !yielding {
                others.insert(0, me);
            }
            let k = w.d.draw(others.len() as u64);
            Some(others[k as usize])
        }
    }
}

/// Called from instrumented code when the gap is used up.
#[inline(never)]
pub fn preempt() {
    if !managed() {
        return;
    }
    let w = w();
    if w.mode == 3 && w.decisions <= MAX_DECISIONS {
        // priority change point
        let low = w.th.iter().map(|t| t.prio).min().unwrap_or(0);
        let me = w.cur;
        if w.d.draw(2) == 1 {
            w.th[me].prio = low.saturating_sub(1);
        }
    }
    let forced = w.mode == 0 || w.decisions > MAX_DECISIONS;
    if let Some(n) = choose(true, forced) {
        next_gap();
        switch_to(n);
    } else {
        next_gap();
    }
}
/// A scheduling point at an intercepted call.
pub fn point() {
    if w().mode == 0 || unsafe { LIVE } < 2 {
        return;
    }
    if w().decisions > MAX_DECISIONS {
        return;
    }
    if let Some(n) = choose(true, false) {
        switch_to(n);
    }
}
pub fn yield_now() {
    if let Some(n) = choose(true, true) {
        switch_to(n);
    }
}

/// The current thread cannot continue: hand over the baton until someone makes it runnable.
pub fn block() {
    let me = w().cur;
    loop {
        if w().th[me].st == St::Run {
            return;
        }
        if let Some(n) = choose(false, false) {
            switch_to(n);
            return;
        }
        // nobody can run: simulated time passes until the earliest deadline
        let w = w();
        let mut best: Option<(u64, usize)> = None;
        for (i, t) in w.th.iter().enumerate() {
            let dl = match t.st {
                St::Futex { deadline, .. } if deadline != FOREVER => deadline,
                St::Sleep(d) => d,
                _ => continue,
            };
            if best.map_or(true, |(b, _)| dl < b) {
                best = Some((dl, i));
            }
        }
        match best {
            Some((dl, i)) => {
                if dl > w.mono {
                    let dt = dl - w.mono;
                    w.mono = dl;
                    w.wall = w.wall.wrapping_add(dt as i64);
                    w.stat("clock_auto_advance", 1);
                }
                w.th[i].woken = false;
                w.th[i].st = St::Run;
                w.mixlog(0xdead + i as u64);
            }
            None => {
                let states: Vec<String> = w.th.iter().enumerate().map(|(i, t)| format!("t{i}:{:?}", kind(&t.st))).collect();
                crate::run::die("deadlock", &format!("every thread is blocked and no timer is pending: {}", states.join(" ")));
            }
        }
    }
}
fn kind(s: &St) -> &'static str {
    match s {
        St::Run => "runnable",
        St::Futex { .. } => "waiting on a lock/channel",
        St::Join(_) => "joining",
        St::Sleep(_) => "sleeping",
        St::Done => "done",
        St::Frozen => "crashed",
    }
}

pub fn futex_wait(addr: usize, val: u32, deadline: u64, bits: u32) -> i64 {
    unsafe {
        if std::ptr::read_volatile(addr as *const u32) != val {
            return sys::err(libc::EAGAIN);
        }
    }
    let w = w();
    if w.spurious_left > 0 && w.d.draw(8) == 1 {
        w.spurious_left -= 1;
        w.stat("fault.spurious_wakeup", 1);
        point();
        return 0;
    }
    if deadline != FOREVER && deadline <= w.mono {
        return unsafe { sys::err(libc::ETIMEDOUT) };
    }
    w.seq += 1;
    let me = w.cur;
    let seq = w.seq;
    w.th[me].st = St::Futex { addr, bits, deadline, seq };
    w.th[me].woken = false;
    w.mixlog(0xf0);
    w.stat("futex_wait", 1);
    block();
    if crate::world::w().th[me].woken {
        0
    } else {
        unsafe { sys::err(libc::ETIMEDOUT) }
    }
}
pub fn futex_wake(addr: usize, n: u64, bits: u32) -> i64 {
    let w = w();
    let mut ws: Vec<(u64, usize)> = Vec::new();
    for (i, t) in w.th.iter().enumerate() {
        if let St::Futex { addr: a, bits: b, seq, .. } = t.st {
            if a == addr && b & bits != 0 {
                ws.push((seq, i));
            }
        }
    }
    ws.sort();
    let mut cnt = 0;
    while cnt < n && !ws.is_empty() {
        let k = w.d.draw(ws.len() as u64) as usize;
        let (_, i) = ws.remove(k);
        w.th[i].st = St::Run;
        w.th[i].woken = true;
        cnt += 1;
    }
    w.mixlog(0xf100 + cnt);
    if cnt > 0 {
        w.stat("futex_wake", cnt);
        point();
    }
    cnt as i64
}
pub fn sleep_until(t: u64) {
    let w = w();
    let me = w.cur;
    w.th[me].st = St::Sleep(t);
    w.stat("sleep", 1);
    block();
}
pub fn join(tid: usize) {
    let w = w();
    let me = w.cur;
    if w.th[tid].st != St::Done {
        w.th[me].st = St::Join(tid);
        block();
    }
}
/// Wait until a thread has finished or crashed.
pub fn await_end(tid: usize) {
    loop {
        match w().th[tid].st {
            St::Done | St::Frozen => return,
            _ => {
                let me = w().cur;
                w().th[me].st = St::Join(tid);
                block();
            }
        }
    }
}
fn leave(st: St) {
    let w = w();
    let me = w.cur;
    w.th[me].st = st;
    unsafe {
        LIVE -= 1;
    }
    for t in w.th.iter_mut() {
        if t.st == St::Join(me) {
            t.st = St::Run;
        }
    }
    w.mixlog(0xf200 + me as u64);
}
/// Last act of a managed thread other than the main one.
pub fn finish_thread() {
    leave(St::Done);
    let me = w().cur;
    hand_over(me);
}
/// hand the baton over without waiting to get it back
fn hand_over(me: usize) {
    loop {
        if let Some(n) = choose(false, false) {
            let w = w();
            w.cur = n;
            w.switches += 1;
            w.sched_hash = hash_step(w.sched_hash, n as u64);
            w.mixlog(0x5c00 + n as u64);
            if w.tracing {
                w.lines.push(format!("    [sched] thread {me} ended -> thread {n}"));
            }
            sys::unpark(w.th[n].word);
            return;
        }
        // others wait on timers, or a deadlock
        let w = w();
        let mut best: Option<(u64, usize)> = None;
        for (i, t) in w.th.iter().enumerate() {
            let dl = match t.st {
                St::Futex { deadline, .. } if deadline != FOREVER => deadline,
                St::Sleep(d) => d,
                _ => continue,
            };
            if best.map_or(true, |(b, _)| dl < b) {
                best = Some((dl, i));
            }
        }
        match best {
            Some((dl, i)) => {
                if dl > w.mono {
                    let dt = dl - w.mono;
                    w.mono = dl;
                    w.wall = w.wall.wrapping_add(dt as i64);
                }
                w.th[i].woken = false;
                w.th[i].st = St::Run;
            }
            None => {
                let states: Vec<String> = w.th.iter().enumerate().map(|(i, t)| format!("t{i}:{:?}", kind(&t.st))).collect();
                crate::run::die("deadlock", &format!("every remaining thread is blocked: {}", states.join(" ")));
            }
        }
    }
}
/// The simulated process owning this thread dies here; the thread never runs again.
pub fn freeze() -> ! {
    leave(St::Frozen);
    let me = w().cur;
    let word = w().th[me].word;
    hand_over(me);
    loop {
        sys::park(word);
    }
}
/// Let every remaining thread finish (called by the main thread at the end of a run).
pub fn drain() {
    let n = w().th.len();
    for i in 1..n {
        await_end(i);
    }
}
pub fn live_others() -> usize {
    w().th.iter().skip(1).filter(|t| !matches!(t.st, St::Done | St::Frozen)).count()
}
