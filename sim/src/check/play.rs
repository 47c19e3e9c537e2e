//! Drives a game: generates raw mouse events, injects event faults, checks the oracles.
use crate::board::*;
use crate::model::*;
use ms_toollib::{BaseVideo, GameBoardState, MinesweeperBoard, SafeBoard};
use simrt::*;
use std::collections::VecDeque;

pub type Ev = (&'static str, Pos);

/// What is driven.
pub trait Sut {
    fn step(&mut self, e: &str, p: Pos) -> Result<u8, ()>;
    fn vis(&self) -> B;
    fn ph(&self) -> Ph;
    fn cnt(&self) -> Cnt;
    /// does `step` return how useful the click was?
    fn rated(&self) -> bool {
        true
    }
}
pub fn phase(s: GameBoardState) -> Ph {
    match s {
        GameBoardState::Ready => Ph::Ready,
        GameBoardState::PreFlaging => Ph::Pre,
        GameBoardState::Playing => Ph::Playing,
        GameBoardState::Win => Ph::Win,
        GameBoardState::Loss => Ph::Loss,
        GameBoardState::Display => fail("phase", "a live game is in playback".into()),
    }
}
macro_rules! plain {
    ($t:ty) => {
        impl Sut for MinesweeperBoard<$t> {
            fn step(&mut self, e: &str, p: Pos) -> Result<u8, ()> {
                MinesweeperBoard::<$t>::step(self, e, p)
            }
            fn vis(&self) -> B {
                self.game_board.clone()
            }
            fn ph(&self) -> Ph {
                phase(self.game_board_state)
            }
            fn cnt(&self) -> Cnt {
                Cnt { left: self.left, right: self.right, double: self.double, ce: self.ce, flag: self.flag, solved: self.bbbv_solved }
            }
        }
    };
}
plain!(B);
plain!(SafeBoard);
/// A session; positions are cells, turned into pixels inside the cell.
pub struct Session {
    pub v: BaseVideo<SafeBoard>,
    pub pix: usize,
    /// always hits the middle of a cell
    pub steady: bool,
}
impl Session {
    pub fn px(&self, p: Pos) -> Pos {
        let (n, m) = (self.v.height, self.v.width);
        if p == (n, m) {
            (n * self.pix, m * self.pix)
        } else if self.steady {
            ((p.0 * self.pix + self.pix / 2).min(65535), (p.1 * self.pix + self.pix / 2).min(65535))
        } else {
            // the replay format holds 16-bit pointer coordinates
            ((p.0 * self.pix + d(self.pix as u64) as usize).min(65535), (p.1 * self.pix + d(self.pix as u64) as usize).min(65535))
        }
    }
}
impl Sut for Session {
    fn rated(&self) -> bool {
        false
    }
    fn step(&mut self, e: &str, p: Pos) -> Result<u8, ()> {
        let q = self.px(p);
        self.v.step(e, q)
    }
    fn vis(&self) -> B {
        self.v.get_game_board()
    }
    fn ph(&self) -> Ph {
        let a = phase(self.v.minesweeper_board.game_board_state);
        check!(phase(self.v.game_board_state) == a, "phase", "session and board disagree about the phase");
        a
    }
    fn cnt(&self) -> Cnt {
        Cnt {
            left: self.v.get_left(),
            right: self.v.get_right(),
            double: self.v.get_double(),
            ce: self.v.minesweeper_board.ce,
            flag: self.v.get_flag(),
            solved: self.v.minesweeper_board.bbbv_solved,
        }
    }
}
pub struct Player {
    pub queue: VecDeque<Ev>,
    pub style: usize,
    pub outside: u64,
    pub mv: u64,
    pub middle: bool,
    pub wild: u64,
    /// per event: one in `fault` is lost, repeated, delayed or thrown off the board
    pub fault: u64,
    pub careless: u64,
    pub exotic: bool,
    /// off-board events may lie very far out (a bare board is fed cells, not pixels)
    pub far: bool,
}
impl Player {
    pub fn draw(faulty: bool) -> Player {
        Player {
            queue: VecDeque::new(),
            style: pick(&[4, 3, 2, 2]),
            outside: [0, 0, 40, 12][d(4) as usize],
            mv: [0, 4, 2][d(3) as usize],
            middle: chance(1, 2),
            wild: [0, 8, 3, 1][pick(&[3, 3, 2, 1])],
            fault: if faulty { [30, 10, 4][d(3) as usize] } else { 0 },
            careless: [0, 100, 30, 8][d(4) as usize],
            exotic: false,
            far: false,
        }
    }
    fn cell(&self, md: &Model) -> Pos {
        (d(md.n as u64) as usize, d(md.m as u64) as usize)
    }
    fn any(&self, md: &Model) -> Pos {
        if self.outside > 0 && chance(1, self.outside) {
            if self.far && chance(1, 3) {
                self.beyond(self.cell(md))
            } else {
                (md.n, md.m)
            }
        } else {
            self.cell(md)
        }
    }
    /// off the board at a power of two from the cell p
    fn beyond(&self, p: Pos) -> Pos {
        stat("fault.event_far_off_board", 1);
        let w = [256usize, 65536, 1 << 24, 1 << 31][d(4) as usize];
        match d(4) {
            0 => (p.0 + w, p.1),
            1 => (p.0, p.1 + w),
            2 => (u32::MAX as usize, u32::MAX as usize),
            _ => (p.0 + w, p.1 + w),
        }
    }
    /// a cell satisfying f, if one is near a random start
    fn find(&self, md: &Model, f: impl Fn(Pos) -> bool) -> Option<Pos> {
        let k = md.n * md.m;
        let s = d(k as u64) as usize;
        for i in 0..k {
            let j = (s + i) % k;
            let p = (j / md.m, j % md.m);
            if f(p) {
                return Some(p);
            }
        }
        None
    }
    fn push(&mut self, e: &'static str, p: Pos) {
        self.queue.push_back((e, p));
    }
    fn left(&mut self, p: Pos) {
        self.push("lc", p);
        self.push("lr", p);
    }
    fn right(&mut self, p: Pos) {
        self.push("rc", p);
        self.push("rr", p);
    }
    fn chord(&mut self, md: &Model, p: Pos) {
        let k = pick(&[3, 3, 2, 2, 2, if self.middle && md.ph == Ph::Playing { 3 } else { 0 }, 1, 1]);
        let o = self.any(md);
        match k {
            0 => {
                for e in ["lc", "rc", "rr", "lr"] {
                    self.push(e, p)
                }
            }
            1 => {
                for e in ["rc", "lc", "lr", "rr"] {
                    self.push(e, p)
                }
            }
            2 => {
                for e in ["lc", "rc", "lr", "rr"] {
                    self.push(e, p)
                }
            }
            3 => {
                for e in ["rc", "lc", "rr", "lr"] {
                    self.push(e, p)
                }
            }
            4 => {
                // press elsewhere, slide, release on the cell; press the second button again
                self.push("rc", o);
                self.push("lc", p);
                self.push("lr", p);
                self.push("lc", p);
                self.push("rr", p);
                self.push("lr", o);
            }
            5 => {
                self.push("mc", p);
                self.push("mr", p);
            }
            6 => {
                self.push("lc", o);
                self.push("cc", p);
                self.push("rr", p);
                self.push("lr", p);
            }
            _ => {
                self.push("rc", p);
                self.push("cc", p);
                self.push("lr", p);
                self.push("rr", p);
            }
        }
    }
    fn plan(&mut self, md: &Model) {
        let held = md.l || md.r || md.mid;
        if held || (self.wild > 0 && chance(1, self.wild)) {
            // one legal raw event
            let all: Vec<&'static str> = ["lr", "rr", "mr", "lc", "rc", "mc", "cc"]
                .into_iter()
                .filter(|e| md.legal(e) && (!e.starts_with('m') || (md.ph == Ph::Playing && self.middle)))
                .collect();
            let e = all[d(all.len() as u64) as usize];
            let p = self.any(md);
            return self.push(e, p);
        }
        if md.ph == Ph::Ready || md.ph == Ph::Pre {
            match pick(&[6, if self.style == 2 { 6 } else { 1 }, 1, 1, 1]) {
                0 => {
                    // start, on a safe cell mostly
                    let p = if chance(1, 12) { Some(self.cell(md)) } else { self.find(md, |p| md.b[p.0][p.1] != -1 && md.vis[p.0][p.1] == 10) };
                    let p = p.unwrap_or((0, 0));
                    self.left(p)
                }
                1 => {
                    let p = self.cell(md);
                    self.right(p)
                }
                2 => match self.find(md, |p| md.vis[p.0][p.1] == 11) {
                    Some(p) => self.right(p),
                    None => {
                        let (a, b) = (self.cell(md), self.any(md));
                        self.push("lc", a);
                        self.push("lr", b)
                    }
                },
                3 => {
                    let p = self.cell(md);
                    self.chord(md, p)
                }
                _ => {
                    let p = self.cell(md);
                    self.push("mv", p)
                }
            }
            return;
        }
        if self.careless > 0 && chance(1, self.careless) {
            let p = self.cell(md);
            return match d(3) {
                0 => self.left(p),
                1 => self.chord(md, p),
                _ => self.right(p),
            };
        }
        // 0: opener, 1: flagger and chorder, 2: mix with useless clicks, 3: flags in openings
        let w: [u64; 7] = match self.style {
            0 => [10, 1, 1, 0, 1, 0, 0],
            1 => [4, 6, 10, 1, 1, 1, 0],
            2 => [6, 3, 4, 2, 3, 2, 1],
            _ => [6, 2, 5, 4, 1, 2, 2],
        };
        match pick(&w) {
            0 => {
                if let Some(p) = self.find(md, |p| md.b[p.0][p.1] != -1 && md.vis[p.0][p.1] == 10) {
                    self.left(p)
                } else if let Some(p) = self.find(md, |p| md.vis[p.0][p.1] == 11 && md.b[p.0][p.1] != -1) {
                    self.right(p)
                } else {
                    let p = self.cell(md);
                    self.push("mv", p)
                }
            }
            1 => {
                if let Some(p) = self.find(md, |p| md.b[p.0][p.1] == -1 && md.vis[p.0][p.1] == 10) {
                    self.right(p)
                }
            }
            2 => {
                let ok = |p: Pos| {
                    let x = md.vis[p.0][p.1];
                    if x == 0 || x > 8 {
                        return false;
                    }
                    let nb = near(p, md.n, md.m);
                    nb.iter().filter(|q| md.vis[q.0][q.1] == 11).count() as i32 == x && nb.iter().any(|q| md.vis[q.0][q.1] == 10)
                };
                if let Some(p) = self.find(md, ok) {
                    self.chord(md, p)
                }
            }
            3 => {
                // a flag on a safe cell (splits openings)
                if let Some(p) = self.find(md, |p| md.b[p.0][p.1] >= 0 && md.vis[p.0][p.1] == 10) {
                    self.right(p)
                }
            }
            4 => {
                let p = self.cell(md);
                match d(3) {
                    0 => {
                        if md.vis[p.0][p.1] < 10 {
                            self.left(p)
                        }
                    }
                    1 => {
                        if md.vis[p.0][p.1] < 10 {
                            self.chord(md, p)
                        }
                    }
                    _ => {
                        if md.vis[p.0][p.1] < 10 {
                            self.right(p)
                        }
                    }
                }
            }
            5 => {
                if let Some(p) = self.find(md, |p| md.vis[p.0][p.1] == 11) {
                    self.right(p)
                }
            }
            _ => {
                // left press, slide, release elsewhere or outside
                let (a, b) = (self.any(md), self.any(md));
                if !self.inside_mine(md, b) {
                    self.push("lc", a);
                    self.push("lr", b);
                }
            }
        }
    }
    fn inside_mine(&self, md: &Model, p: Pos) -> bool {
        md.inside(p) && md.b[p.0][p.1] == -1 && md.vis[p.0][p.1] == 10
    }
    /// Next raw event, and whether a fault disturbed the sequence.
    pub fn next(&mut self, md: &Model) -> (Ev, bool) {
        let mut tries = 0;
        while self.queue.is_empty() {
            self.plan(md);
            tries += 1;
            if tries > 20 {
                let p = self.cell(md);
                self.push("mv", p);
            }
        }
        if self.mv > 0 && chance(1, self.mv) {
            let p = self.any(md);
            return (("mv", p), false);
        }
        let e = self.queue.pop_front().unwrap();
        if self.exotic && chance(1, 12) {
            const X: [&str; 8] = ["l", "r", "m", "crl", "crr", "pf", "xx", ""];
            let p = self.any(md);
            stat("fault.unusual_event", 1);
            return ((X[d(8) as usize], p), true);
        }
        if self.fault > 0 && fault_chance(1, self.fault) {
            match fault(5) {
                0 => {
                    stat("fault.event_lost", 1);
                    let p = self.any(md);
                    return (("mv", p), true);
                }
                1 => {
                    stat("fault.event_duplicated", 1);
                    self.queue.push_front(e);
                    return (e, true);
                }
                2 => {
                    if let Some(x) = self.queue.pop_front() {
                        stat("fault.event_reordered", 1);
                        self.queue.push_front(e);
                        return (x, true);
                    }
                }
                3 => {
                    stat("fault.event_off_board", 1);
                    let p = match fault(if self.far { 6 } else { 4 }) {
                        4 | 5 => self.beyond(e.1),
                        0 => (md.n, e.1 .1),
                        1 => (e.1 .0, md.m),
                        2 => (md.n + 3, md.m + 7),
                        _ => (md.n, md.m),
                    };
                    return ((e.0, p), true);
                }
                _ => {
                    stat("fault.event_unrelated", 1);
                    const X: [&str; 7] = ["lc", "lr", "rc", "rr", "mc", "mr", "cc"];
                    let p = self.any(md);
                    self.queue.push_front(e);
                    return ((X[fault(7) as usize], p), true);
                }
            }
        }
        (e, false)
    }
}
#[derive(Clone, Copy)]
pub struct Want {
    pub c01: bool,
    pub c02: bool,
    pub c03: bool,
}
/// After an event: compare what the library shows with the model. Advances the model.
pub fn observe(md: &mut Model, s: &dyn Sut, e: Ev, r: Result<u8, ()>, disturbed: bool, w: Want) {
    let legal = md.legal(e.0);
    if disturbed || !legal {
        md.exact = false;
    }
    let before = md.clone();
    let (vis, ph, c) = (s.vis(), s.ph(), s.cnt());
    let what = || format!("{} at {:?} on {} shown {} (phase {:?}, {})", e.0, e.1, show(&md0(&before).b), show(&before.vis), before.ph, if before.exact { "clean" } else { "disturbed" });
    if md.exact {
        let x = md.step(e.0, e.1);
        if w.c01 {
            match x {
                None => check!(r.is_err(), "accepted", "{} was not refused", what()),
                Some(u) => match r {
                    Err(_) => fail("refused", format!("{} was refused", what())),
                    Ok(g) => {
                        if u != 255 && s.rated() {
                            check!(g == u, "usefulness", "{} was rated {} instead of {}", what(), g, u);
                        }
                    }
                },
            }
            check!(vis == md.vis, "board", "{} led to {} instead of {}", what(), show(&vis), show(&md.vis));
        }
        if x.is_none() || r.is_err() {
            md.exact = false;
        }
        if w.c02 {
            check!(ph == md.ph, "verdict", "{} led to phase {:?} instead of {:?}", what(), ph, md.ph);
        }
        if w.c03 {
            check!(c == md.c, "counters", "{}: counters {:?} instead of {:?} (before {:?})", what(), c, md.c, before.c);
        }
        if vis != md.vis || ph != md.ph || c != md.c {
            // another property's business: continue from what is shown
            md.exact = false;
        }
    } else {
        if r.is_err() && w.c01 {
            check!(vis == before.vis && ph == before.ph && c == before.c, "refused-effect", "{} was refused but had an effect", what());
        }
        let ex = md.explain(e.0, e.1, &vis);
        if w.c01 {
            // leaving the pre-game phase uncovers the last flag again
            check!(ex.is_some(), "board", "{} led to {}, which no click of that kind explains", what(), show(&vis));
            if before.over() {
                check!(vis == before.vis, "finished", "{} changed a finished game", what());
            }
            if matches!(before.ph, Ph::Ready) && ph == Ph::Ready {
                check!(vis == before.vis, "ready", "{} changed the board before the game", what());
            }
        }
        if w.c03 {
            if before.over() {
                check!(c == before.c, "finished-counters", "{} changed counters of a finished game: {:?} -> {:?}", what(), before.c, c);
            }
            let up = |a: usize, b: usize| b == a || b == a + 1;
            if ph != Ph::Ready {
                check!(up(before.c.left, c.left) && up(before.c.double, c.double), "counters", "{}: {:?} -> {:?}", what(), before.c, c);
                check!(up(before.c.ce, c.ce), "counters", "{}: ce {:?} -> {:?}", what(), before.c, c);
                check!(up(before.c.right, c.right) || c.right + 1 == before.c.right, "counters", "{}: {:?} -> {:?}", what(), before.c, c);
                if let Some((f, hit)) = ex {
                    match f {
                        Eff::Left if vis != before.vis => {
                            check!(c.left == before.c.left + 1, "counters", "{} opened a cell by a left click that was not counted", what());
                            check!(c.ce == before.c.ce + !hit as usize, "counters", "{}: ce {} -> {}", what(), before.c.ce, c.ce);
                        }
                        Eff::None if !matches!(before.ph, Ph::Ready | Ph::Pre) => {
                            check!(c.ce == before.c.ce, "counters", "{} did nothing but counts as effective", what());
                        }
                        _ => {}
                    }
                }
            } else {
                check!(c == Cnt::default(), "ready-counters", "{} leaves counters {:?} before the game", what(), c);
            }
        }
        md.track(e.0);
        md.vis = vis.clone();
        md.ph = ph;
        md.c = c.clone();
    }
    if w.c01 {
        invariants(md, &vis, ph, &what);
    }
    if w.c02 {
        let hit = vis.iter().flatten().any(|&x| x == 15);
        let all = Model::all_open(&md.b, &vis);
        check!((ph == Ph::Loss) == hit, "verdict", "{}: phase {:?} with{} a hit mine", what(), ph, if hit { "" } else { "out" });
        let started = vis.iter().flatten().any(|&x| x < 10);
        if started {
            check!((ph == Ph::Win) == (all && !hit), "verdict", "{}: phase {:?}, all safe cells open: {}", what(), ph, all);
        } else {
            check!(ph != Ph::Win, "verdict", "{}: won without opening", what());
        }
        if before.over() {
            check!(ph == before.ph, "verdict", "{} moved a finished game from {:?} to {:?}", what(), before.ph, ph);
        }
        if before.ph == Ph::Playing {
            check!(!matches!(ph, Ph::Ready | Ph::Pre), "verdict", "{} moved the game back to {:?}", what(), ph);
        }
    }
    if w.c03 {
        let f = vis.iter().flatten().filter(|&&x| x == 11 || x == 14).count();
        check!(c.flag == f, "flag", "{}: flag counter {} with {} flags on the board", what(), c.flag, f);
        let s = solved(&md.b, &vis);
        check!(c.solved == s, "solved-3bv", "{}: solved 3BV {} instead of {} on {}", what(), c.solved, s, show(&vis));
        let t = bbbv(&md.b);
        check!(c.solved <= t, "solved-3bv", "{}: solved 3BV {} of {}", what(), c.solved, t);
        if ph == Ph::Win {
            check!(c.solved == t, "solved-3bv", "{}: won with solved 3BV {} of {}", what(), c.solved, t);
        }
        for x in [c.left, c.right, c.double, c.ce, c.flag] {
            check!(x < 1 << 40, "wrap", "{}: a counter wrapped around: {:?}", what(), c);
        }
        if ph == Ph::Ready {
            check!(c == Cnt::default(), "ready-counters", "{} leaves counters {:?} before the game", what(), c);
        }
    }
}
fn md0(m: &Model) -> &Model {
    m
}
fn invariants(md: &Model, vis: &B, ph: Ph, what: &dyn Fn() -> String) {
    for i in 0..md.n {
        for j in 0..md.m {
            let (x, y) = (vis[i][j], md.b[i][j]);
            let ok = match x {
                0..=8 => x == y,
                10 | 11 => true,
                14 => ph == Ph::Loss && y != -1,
                15 => ph == Ph::Loss && y == -1,
                _ => false,
            };
            check!(ok, "lie", "{}: cell ({i},{j}) shows {x} over {y} in phase {:?}", what(), ph);
            if x == 11 && ph == Ph::Loss {
                check!(y == -1, "lie", "{}: wrong flag ({i},{j}) not marked after the loss", what());
            }
        }
    }
}
