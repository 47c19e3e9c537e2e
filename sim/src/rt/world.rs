//! The simulated world of one run. Only the thread holding the baton touches it.
use crate::rng::{mix, Rng};
use crate::tape::Tape;
use crate::vfs::Fs;
use std::collections::BTreeMap;

pub struct Violation {
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Run,
    Futex { addr: usize, bits: u32, deadline: u64, seq: u64 },
    Join(usize),
    Sleep(u64),
    Done,
    Frozen,
}

pub struct Th {
    pub word: &'static std::sync::atomic::AtomicU32,
    pub st: St,
    pub woken: bool,
    pub prio: u64,
    pub slow: u64,
    pub ran: u64,
    pub pthread: u64,
}

pub struct World {
    pub prop: &'static str,
    pub seed: u64,
    pub s: Tape,
    pub d: Tape,
    pub f: Tape,
    pub c: Tape,
    pub entropy: Rng,
    pub entropy_reads: u64,
    pub mono: u64,
    pub wall: i64,
    pub mono0: u64,
    pub clock_frozen: bool,
    pub th: Vec<Th>,
    pub cur: usize,
    pub seq: u64,
    pub mode: u64,
    pub gap_mean: u64,
    pub decisions: u64,
    pub switches: u64,
    pub spurious: u64,
    pub spurious_left: u64,
    pub fs: Fs,
    pub stats: BTreeMap<&'static str, u64>,
    pub log: u64,
    pub sched_hash: u64,
    pub sig: u64,
    pub trivial: bool,
    pub tracing: bool,
    pub lines: Vec<String>,
    pub viol: Option<Violation>,
    pub last_panic: String,
    pub thread_panics: Vec<String>,
    pub expect_thread_panic: bool,
    pub sample: Option<String>,
}

pub static mut W: *mut World = std::ptr::null_mut();

#[inline(always)]
pub fn w() -> &'static mut World {
    unsafe { &mut *W }
}
pub fn hash_step(h: u64, v: u64) -> u64 {
    mix(h.rotate_left(5) ^ v)
}
pub fn hash_str(mut h: u64, s: &str) -> u64 {
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}
impl World {
    pub fn new(prop: &'static str, seed: u64, tapes: Option<[Vec<u64>; 4]>) -> World {
        let (s, d, f, c) = match tapes {
            None => (
                Tape::record(mix(seed ^ 0x51)),
                Tape::record(mix(seed ^ 0xd1)),
                Tape::record(mix(seed ^ 0xf1)),
                Tape::record(mix(seed ^ 0xc1)),
            ),
            Some([s, d, f, c]) => (Tape::replay(s), Tape::replay(d), Tape::replay(f), Tape::replay(c)),
        };
        World {
            prop,
            seed,
            s,
            d,
            f,
            c,
            entropy: Rng::new(mix(seed ^ 0xe1)),
            entropy_reads: 0,
            mono: 0,
            wall: 0,
            mono0: 0,
            clock_frozen: true,
            th: Vec::new(),
            cur: 0,
            seq: 0,
            mode: 0,
            gap_mean: 0,
            decisions: 0,
            switches: 0,
            spurious: 0,
            spurious_left: 0,
            fs: Fs::new(),
            stats: BTreeMap::new(),
            log: 0x1234,
            sched_hash: 0x99,
            sig: 0x77,
            trivial: true,
            tracing: false,
            lines: Vec::new(),
            viol: None,
            last_panic: String::new(),
            thread_panics: Vec::new(),
            expect_thread_panic: false,
            sample: None,
        }
    }
    #[inline(never)]
    pub fn mixlog(&mut self, v: u64) {
        self.log = hash_step(self.log, v);
    }
    #[inline(never)]
    pub fn line(&mut self, s: String) {
        self.log = hash_str(self.log, &s);
        if self.tracing {
            self.lines.push(s);
        }
    }
    #[inline(never)]
    pub fn stat(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_insert(0) += n;
    }
}
