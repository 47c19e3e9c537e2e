//! Execution of one run, and the ways it can end.
use crate::json::{self, J};
use crate::sched::{self, SLOT};
use crate::sys;
use crate::world::{w, World, W};
use crate::Prop;

/// index of the run being executed, for the violation record
pub static mut IDX: u64 = 0;
pub static mut SUT_NOW: [u8; 96] = [0; 96];
pub static mut DYING: bool = false;

#[inline(never)]
pub fn enter_sut(what: &str) {
    unsafe {
        let n = what.len().min(95);
        SUT_NOW[..n].copy_from_slice(&what.as_bytes()[..n]);
        SUT_NOW[n] = 0;
    }
}
fn sut_now() -> String {
    unsafe {
        let n = SUT_NOW.iter().position(|&x| x == 0).unwrap_or(0);
        String::from_utf8_lossy(&SUT_NOW[..n]).into_owned()
    }
}
fn tape(t: &crate::tape::Tape) -> J {
    let n = t.pos.min(t.vals.len());
    J::Arr(t.vals[..n].iter().map(|&v| json::n(v)).collect())
}
/// The run ends in a violation.
#[inline(never)]
#[cold]
pub fn die(class: &str, msg: &str) -> ! {
    unsafe {
        sched::RUNNING = false;
        if DYING {
            sys::exit_now(78);
        }
        DYING = true;
        crate::alloc::CAP.store(usize::MAX, std::sync::atomic::Ordering::Relaxed);
        let wd = w();
        let rec = J::Obj(vec![
            ("idx".into(), json::n(IDX)),
            ("seed".into(), json::n(wd.seed)),
            ("class".into(), json::s(class)),
            ("msg".into(), json::s(msg)),
            ("in".into(), json::s(&sut_now())),
            ("log".into(), json::n(wd.log)),
            ("steps".into(), json::n(sched::STEPS)),
            ("s".into(), tape(&wd.s)),
            ("d".into(), tape(&wd.d)),
            ("f".into(), tape(&wd.f)),
            ("c".into(), tape(&wd.c)),
        ]);
        let mut out = String::new();
        for l in &wd.lines {
            out.push_str("T ");
            out.push_str(&l.replace('\n', " | "));
            out.push('\n');
        }
        out.push_str("V ");
        rec.dump(&mut out);
        out.push('\n');
        sys::write_all(1, out.as_bytes());
        sys::exit_now(77)
    }
}
#[inline(never)]
#[cold]
pub fn harness_error(msg: &str) -> ! {
    sys::write_all(1, format!("H {msg}\n").as_bytes());
    sys::exit_now(70)
}
#[inline(never)]
#[cold]
pub fn limit_hit() {
    unsafe {
        if !sched::RUNNING {
            return;
        }
    }
    give_up();
    let s = sut_now();
    die("hang", &format!("no end within the step budget: {s}"))
}
/// Abandon the call that is under way, if it may be abandoned.
pub fn give_up() {
    unsafe {
        if sched::SOFT == w().cur && sched::managed() {
            sched::LIMIT = u64::MAX;
            w().stat("abandoned_calls", 1);
            sched::freeze();
        }
    }
}
extern "C" fn on_signal(n: i32) {
    unsafe {
        libc::alarm(5);
    }
    let s = sut_now();
    die("crash", &format!("signal {n} in {s}"))
}
pub fn install_signals() {
    unsafe {
        for n in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(n, &sa, std::ptr::null_mut());
        }
        std::panic::set_hook(Box::new(|info| {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let loc = info.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
            let text = format!("panicked at {loc}: {msg}");
            if sched::managed() {
                let wd = w();
                if wd.cur != 0 {
                    wd.thread_panics.push(text.clone());
                }
                if wd.tracing {
                    wd.lines.push(format!("    {text}"));
                }
                wd.last_panic = text;
            } else {
                sys::write_all(2, format!("{text}\n").as_bytes());
            }
        }));
    }
}
pub struct Out {
    pub w: Box<World>,
    pub steps: u64,
}
pub fn run_one(p: &'static Prop, seed: u64, idx: u64, tapes: Option<[Vec<u64>; 4]>, tracing: bool) -> Out {
    let mut world = Box::new(World::new(p.id, seed, tapes));
    world.tracing = tracing;
    unsafe {
        W = Box::into_raw(world);
        IDX = idx;
        sched::LIVE = 0;
        sched::GAP = i64::MAX;
        sched::STEPS = 0;
        sched::LIMIT = 6_000_000_000;
        SUT_NOW[0] = 0;
        sched::SOFT = usize::MAX;
    }
    crate::alloc::start(1500);
    let f = p.f;
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut alt = vec![0u8; 256 << 10];
            unsafe {
                let ss = libc::stack_t { ss_sp: alt.as_mut_ptr() as *mut _, ss_flags: 0, ss_size: alt.len() };
                let mut old: libc::stack_t = std::mem::zeroed();
                libc::sigaltstack(&ss, &mut old);
                let me = sched::new_thread();
                SLOT.with(|s| s.set(me));
                sched::setup();
                w().th[0].prio = w().d.draw(1 << 16);
                sched::RUNNING = true;
                let r = std::panic::catch_unwind(f);
                if r.is_err() {
                    let m = crate::last_panic();
                    die("oracle-panic", &format!("the harness could not make sense of what it was given: {m}"));
                }
                if sched::live_others() > 0 {
                    sched::drain();
                }
                let tp = std::mem::take(&mut w().thread_panics);
                if let Some(t) = tp.first() {
                    die("panic-in-thread", t);
                }
                sched::RUNNING = false;
                SLOT.with(|s| s.set(usize::MAX));
                libc::sigaltstack(&old, std::ptr::null_mut());
            }
            drop(alt);
        })
        .unwrap();
    let _ = h.join();
    unsafe {
        let world = Box::from_raw(W);
        W = std::ptr::null_mut();
        Out { w: world, steps: sched::STEPS }
    }
}
