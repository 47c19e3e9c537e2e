//! A live session under a simulated clock and a simulated player, with a full log of what happened.
use crate::board::*;
use crate::model::*;
use crate::play::*;
use ms_toollib::{BaseVideo, SafeBoard};
use simrt::*;

#[derive(Clone)]
pub struct Snap {
    pub e: &'static str,
    pub px: Pos,
    pub at: u64,
    pub vis: B,
    pub c: Cnt,
    pub mouse: usize,
    pub path: f64,
    pub ph: Ph,
    pub before: Ph,
}
pub struct Live {
    pub s: Session,
    pub md: Model,
    /// events since the session last left the Ready phase
    pub log: Vec<Snap>,
    pub first: u64,
    pub start: Option<(u64, i64)>,
    pub end: Option<(u64, i64)>,
    pub pl: Player,
    pub tick: Tick,
    pub swapped: bool,
}
/// How time passes between events.
#[derive(Clone, Copy)]
pub struct Tick {
    pub style: usize,
    pub stall: u64,
    pub wall: u64,
    /// total nanoseconds left
    pub left: u64,
    /// one event in so many comes hours later (0: none)
    pub leap: u64,
}
impl Tick {
    pub fn draw(faulty: bool) -> Tick {
        Tick {
            style: d(5) as usize,
            stall: if faulty { [0, 60, 15][d(3) as usize] } else { 0 },
            wall: if faulty { [0, 40, 8, 3][d(4) as usize] } else { 0 },
            left: 16_000_000_000_000,
            leap: 0,
        }
    }
    pub fn pass(&mut self) {
        let mut ns = match self.style {
            0 => clock_draw(40) * 1_000_000,
            1 => clock_draw(3_000_000),
            2 => clock_draw(30) * 500_000,
            3 => clock_draw(1_500) * 1_000,
            _ => clock_draw(400_000_000),
        };
        if self.stall > 0 && fault_chance(1, self.stall) {
            stat("fault.stall", 1);
            ns += (1 + fault(400)) * 1_700_000_000;
        }
        if self.leap > 0 && chance(1, self.leap) {
            ns += clock_draw(20_000_000_000_000);
        }
        let ns = ns.min(self.left);
        self.left -= ns;
        advance(ns);
        if self.wall > 0 && fault_chance(1, self.wall) {
            let k = [1_000i64, 1_000_000_000, 86_400_000_000_000, 5_000_000][fault(4) as usize];
            let x = (fault(2000) as i64 - 1000) * k;
            wall_jump(x);
        }
    }
}
pub const PIX: [usize; 6] = [16, 20, 1, 24, 32, 255];
pub fn clocks() {
    set_clocks(
        [1_000_000_000, 0, 987_654_321_000_000, 5][d(4) as usize] + clock_draw(2_000_000),
        [1_700_000_000_123_456_789, 951_782_400_000_000_000, 4_102_444_799_999_999_999][d(3) as usize],
    );
}
impl Live {
    pub fn new(b: &B, pix: usize, faulty: bool) -> Live {
        let v = sut("new_before_game", || BaseVideo::<SafeBoard>::new_before_game(b.clone(), pix as u8));
        Live::with(v, b, pix, faulty)
    }
    pub fn with(v: BaseVideo<SafeBoard>, b: &B, pix: usize, faulty: bool) -> Live {
        Live {
            s: Session { v, pix, steady: chance(1, 5) },
            md: Model::new(b),
            log: vec![],
            first: 0,
            start: None,
            end: None,
            pl: Player::draw(faulty),
            tick: Tick::draw(faulty),
            swapped: false,
        }
    }
    /// One event at the present moment.
    pub fn raw(&mut self, e: &'static str, px: Pos) -> Result<u8, ()> {
        let before = self.s.ph();
        let v = &mut self.s.v;
        let r = sut(e, || v.step(e, px));
        let ph = self.s.ph();
        if r.is_ok() && !matches!(before, Ph::Win | Ph::Loss) {
            if ph == Ph::Ready {
                self.log.clear();
                self.start = None;
            } else {
                if before == Ph::Ready {
                    self.log.clear();
                    self.start = None;
                    self.first = mono();
                }
                if matches!(before, Ph::Ready | Ph::Pre) && ph != Ph::Pre {
                    self.start = Some((mono(), wall()));
                }
                if matches!(ph, Ph::Win | Ph::Loss) {
                    self.end = Some((mono(), wall()));
                }
                let path = self.s.v.get_path();
                self.log.push(Snap { e, px, at: mono(), vis: self.s.vis(), c: self.s.cnt(), mouse: self.s.v.get_mouse_state(), path, ph, before });
            }
        }
        self.md.track(e);
        self.md.vis = self.s.vis();
        self.md.ph = ph;
        if tracing() {
            note(format!("+{} ns {} at {:?} -> {:?}; {:?} {}", mono() - self.first, e, px, r, ph, show(&self.md.vis)));
        }
        mixlog(hash_step(px.0 as u64 * 70_000 + px.1 as u64, r.map_or(9, |x| x as u64)));
        sig(hash(&self.md.vis));
        r
    }
    pub fn cell(&mut self, e: &'static str, p: Pos) -> Result<u8, ()> {
        let px = self.s.px(p);
        self.raw(e, px)
    }
    pub fn next(&mut self) -> Result<u8, ()> {
        self.tick.pass();
        let (e, _) = self.pl.next(&self.md);
        self.cell(e.0, e.1)
    }
    /// Play on until the game is over.
    pub fn finish(&mut self) {
        let lose = chance(1, 4);
        let (n, m) = (self.md.n, self.md.m);
        for e in ["lr", "rr", "lr", "rr"] {
            if !self.md.over() {
                let _ = self.cell(e, (n, m));
            }
        }
        self.pl.queue.clear();
        let mut guard = 0;
        let first = d((n * m) as u64) as usize;
        while !self.md.over() {
            guard += 1;
            if guard > 4 * n * m + 50 {
                fail("stuck", "the game does not end although every safe cell is clicked".into());
            }
            let k = n * m;
            let pick = |f: &dyn Fn(Pos) -> bool| (0..k).map(|i| (first + i) % k).map(|j| (j / m, j % m)).find(|&p| f(p));
            let md = &self.md;
            let any_mine = pick(&|p| md.b[p.0][p.1] == -1 && md.vis[p.0][p.1] == 10);
            let target = if lose && any_mine.is_some() && guard > 3 {
                any_mine
            } else {
                pick(&|p| md.b[p.0][p.1] != -1 && md.vis[p.0][p.1] == 10)
            };
            match target {
                Some(p) => {
                    for e in ["lc", "lr"] {
                        if !self.md.over() {
                            self.tick.pass();
                            let _ = self.cell(e, p);
                        }
                    }
                }
                None => {
                    let md = &self.md;
                    match pick(&|p| md.b[p.0][p.1] != -1 && md.vis[p.0][p.1] == 11) {
                        Some(p) => {
                            for e in ["rc", "rr"] {
                                self.tick.pass();
                                let _ = self.cell(e, p);
                            }
                        }
                        None => fail("stuck", "nothing is left to click and the game is not over".into()),
                    }
                }
            }
        }
        if self.log.len() >= 4 {
            nontrivial();
        }
    }
    /// A whole game.
    pub fn play(&mut self, n: usize) {
        for _ in 0..n {
            if self.md.over() {
                break;
            }
            let _ = self.next();
        }
        self.finish();
    }
    pub fn rtime_ms_expected(&self) -> u64 {
        let (a, b) = (self.start.unwrap().0, self.end.unwrap().0);
        b - a
    }
}
/// Elapsed nanoseconds rounded to milliseconds.
pub fn ms(ns: u64) -> f64 {
    ns as f64 / 1e6
}
pub fn to_ms(t: f64) -> i64 {
    (t * 1000.0).round() as i64
}
/// all numbers a session reports about its state, as text (NaN equals NaN)
pub fn report<T>(v: &mut BaseVideo<T>, poss: bool) -> Vec<(String, String)> {
    let mut r: Vec<(String, String)> = vec![];
    macro_rules! g {
        ($($f:ident)*) => { $( r.push((stringify!($f).into(), format!("{:?}", v.$f()))); )* };
    }
    g!(get_game_board get_left get_right get_double get_cl get_flag get_mouse_state get_path
       get_left_s get_right_s get_double_s get_cl_s get_flag_s get_rtime get_rtime_ms get_time
       get_etime get_bbbv_s get_bbbv_solved get_stnb get_rqp get_qg get_ce get_ce_s get_corr get_thrp get_ioe
       get_checksum get_raw_data get_video_start_time get_video_end_time get_pix_size);
    if poss {
        g!(get_x_y);
    }
    macro_rules! f {
        ($($f:ident)*) => { $( r.push((stringify!($f).into(), format!("{:?}", v.$f))); )* };
    }
    f!(software width height mine_num is_completed is_offical is_fair nf mode level cell_pixel_size game_board_state
       player_designator race_designator uniqueness_designator start_time end_time country device_uuid checksum
       current_time current_event_id);
    r
}
pub fn text(n: usize) -> Vec<u8> {
    let k = d(n as u64 + 1) as usize;
    let style = d(3);
    (0..k)
        .map(|_| match style {
            0 => 97 + d(26) as u8,
            1 => 1 + d(255) as u8,
            _ => [0xe5u8, 0x85, 0x83, 0xff, 0x01, b'5'][d(6) as usize],
        })
        .collect()
}
pub fn size_big() -> (usize, usize) {
    match pick(&[12, 2, 1, 1]) {
        0 => size(480),
        1 => (range(1, 2) as usize, range(2, 255) as usize),
        2 => (range(2, 255) as usize, range(1, 2) as usize),
        _ => (range(20, 44) as usize, range(20, 44) as usize),
    }
}
