//! Counting allocator: bounds the memory of a run.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
pub struct Counting;
#[global_allocator]
static A: Counting = Counting;
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
#[inline(never)]
fn over(n: usize) {
    if crate::sched::managed() {
        // an abandoned call keeps what it holds
        CAP.store(n + (1000 << 20), Relaxed);
        crate::run::give_up();
        CAP.store(usize::MAX, Relaxed);
        crate::run::die("memory", &format!("the run needs more than {} MB at once", n >> 20));
    }
}
/// The allowance of a run starts now; that of a call which may be abandoned is smaller.
pub fn start(mb: usize) {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    CAP.store(l + (mb << 20), Relaxed);
}
#[inline]
fn add(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
        if l > CAP.load(Relaxed) {
            over(l);
        }
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        let p = System.alloc(l);
        ledger::took(p, l);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ledger::gave(p, l) {
            return;
        }
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        let p = System.alloc_zeroed(l);
        ledger::took(p, l);
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ledger::busy() {
            let m = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(m);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
                self.dealloc(p, l);
            }
            return q;
        }
        if n > l.size() {
            add(n - l.size());
        } else {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

/// A ledger of what a foreign interface hands out: allocations made while recording are followed
/// until they are freed; freed memory is poisoned and kept, so that touching or freeing it again shows.
pub mod ledger {
    use super::*;
    use std::sync::atomic::{AtomicBool, AtomicU64};
    #[derive(Clone, Copy)]
    struct Entry {
        p: usize,
        size: usize,
        align: usize,
        freed: bool,
    }
    const N: usize = 1 << 15;
    struct Table(std::cell::UnsafeCell<[Entry; N]>);
    unsafe impl Sync for Table {}
    static TABLE: Table = Table(std::cell::UnsafeCell::new([Entry { p: 0, size: 0, align: 0, freed: false }; N]));
    static LOCK: AtomicBool = AtomicBool::new(false);
    static RECORDING: AtomicBool = AtomicBool::new(false);
    static USED: AtomicUsize = AtomicUsize::new(0);
    static OPEN: AtomicUsize = AtomicUsize::new(0);
    /// what went wrong first: kind, size and alignment as allocated, as freed
    static WRONG: [AtomicU64; 5] = [const { AtomicU64::new(0) }; 5];
    fn locked<R>(f: impl FnOnce(&mut [Entry; N]) -> R) -> R {
        while LOCK.compare_exchange(false, true, std::sync::atomic::Ordering::Acquire, Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let r = f(unsafe { &mut *TABLE.0.get() });
        LOCK.store(false, std::sync::atomic::Ordering::Release);
        r
    }
    fn find(t: &[Entry; N], p: usize) -> usize {
        let mut i = (p >> 4).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 49 & (N - 1);
        while t[i].p != 0 && t[i].p != p {
            i = (i + 1) & (N - 1);
        }
        i
    }
    #[inline]
    pub(super) fn took(p: *mut u8, l: Layout) {
        if RECORDING.load(Relaxed) && !p.is_null() && USED.load(Relaxed) < N / 2 {
            locked(|t| {
                let i = find(t, p as usize);
                t[i] = Entry { p: p as usize, size: l.size(), align: l.align(), freed: false };
            });
            USED.fetch_add(1, Relaxed);
            OPEN.fetch_add(1, Relaxed);
        }
    }
    fn wrong(kind: u64, e: Entry, l: Layout) {
        if WRONG[0].compare_exchange(0, kind, Relaxed, Relaxed).is_ok() {
            for (w, x) in WRONG[1..].iter().zip([e.size, e.align, l.size(), l.align()]) {
                w.store(x as u64, Relaxed);
            }
        }
    }
    /// true: the ledger keeps the memory
    #[inline]
    pub(super) fn gave(p: *mut u8, l: Layout) -> bool {
        if USED.load(Relaxed) == 0 {
            return false;
        }
        let hit = locked(|t| {
            let i = find(t, p as usize);
            let e = t[i];
            if e.p != 0 {
                t[i].freed = true;
            }
            e
        });
        if hit.p == 0 {
            return false;
        }
        if hit.freed {
            wrong(2, hit, l);
            return true;
        }
        OPEN.fetch_sub(1, Relaxed);
        if (hit.size, hit.align) != (l.size(), l.align()) {
            wrong(1, hit, l);
        }
        unsafe { std::ptr::write_bytes(p, 0xdd, hit.size) };
        true
    }
    #[inline]
    pub(super) fn busy() -> bool {
        RECORDING.load(Relaxed) || USED.load(Relaxed) > 0
    }
    pub fn record<R>(f: impl FnOnce() -> R) -> R {
        RECORDING.store(true, Relaxed);
        let r = f();
        RECORDING.store(false, Relaxed);
        r
    }
    /// allocations recorded and not freed
    pub fn open() -> usize {
        OPEN.load(Relaxed)
    }
    pub fn complaint() -> Option<String> {
        let w: Vec<u64> = WRONG.iter().map(|w| w.load(Relaxed)).collect();
        match w[0] {
            0 => None,
            1 => Some(format!("memory allocated with size {} and alignment {} is freed with size {} and alignment {}", w[1], w[2], w[3], w[4])),
            _ => Some(format!("memory of {} bytes is freed twice", w[1])),
        }
    }
    /// Forget everything and really free what was freed.
    pub fn reset() {
        RECORDING.store(false, Relaxed);
        if USED.load(Relaxed) > 0 {
            locked(|t| {
                for e in t.iter_mut() {
                    if e.p != 0 {
                        if e.freed {
                            LIVE.fetch_sub(e.size, Relaxed);
                            unsafe { System.dealloc(e.p as *mut u8, Layout::from_size_align_unchecked(e.size, e.align)) };
                        }
                        e.p = 0;
                    }
                }
            });
        }
        USED.store(0, Relaxed);
        OPEN.store(0, Relaxed);
        WRONG.iter().for_each(|w| w.store(0, Relaxed));
    }
}
