//! C18: remarks the replay analyses write on events.
use crate::board::*;
use crate::c15::clean;
use crate::legacy::{Fmt, Game};
use crate::logic::*;
use crate::model::Ph;
use crate::replay::*;
use crate::session::*;
use ms_toollib::{AvfVideo, EvfVideo, GameBoard, MouseState, MvfVideo, RmvVideo};
use simrt::*;
use std::collections::HashMap;

pub const P: Prop = Prop {
    id: "C18",
    quick: 30_000,
    thorough: 2_000_000,
    chunk: 100,
    f: c18,
    rule: "a run is one replay: a game played on a live session (or, one in five, a game of an older format written by an independent encoder) by a simulated player that deduces, guesses rightly and wrongly, flags and chords in the style that the analyses look for, and moves the mouse in detours and outside the board; it is encoded, stored, read back and analysed; then a drawn sequence of analyses (orders, repetitions, unknown names) is interleaved with playback queries and seeks. Every remark is compared with its definition evaluated on the harness's own record of the game and exhaustive logic. Non-trivial: some remark was due. Distinct: by hash of events and analyses",
    real: "BaseVideo::analyse, analyse_for_features and all analyses, get_game_board_poss, set_current_time, set_current_event_id, GameBoard and the engines below it, evf encoder, all replay readers",
    stub: "player, disk (in-memory file system behind libc), clocks; writers of the older formats (independent encoders)",
};
const LIMIT: usize = 55;
const STEPS: u64 = 400_000_000;
const NAMES: [&str; 7] = ["high_risk_guess", "jump_judge", "needless_guess", "mouse_trace", "vision_transfer", "survive_poss", "super_fl_local"];

/// one event as it really happened
struct Ev {
    e: String,
    /// row, column pixel
    px: Pos,
    before: B,
    useful: u8,
    mouse: MouseState,
}
/// what is to be said of an event: the text with a number left out, the number's values and its digits
#[derive(Clone, Debug)]
struct Due {
    text: &'static str,
    v: Vec<f64>,
    /// within rounding of its threshold: either way is right
    edge: bool,
}
struct Pos18 {
    sure: (Vec<Pos>, Vec<Pos>),
    basic: (Vec<Pos>, Vec<Pos>),
    p: HashMap<Pos, f64>,
}
struct Truth {
    ev: Vec<Ev>,
    pix: usize,
    mines: usize,
    cache: HashMap<B, Option<std::rc::Rc<Pos18>>>,
}
impl Truth {
    fn cell(&self, i: usize) -> Pos {
        (self.ev[i].px.0 / self.pix, self.ev[i].px.1 / self.pix)
    }
    /// everything that follows from a position; None when that is out of reach
    fn at(&mut self, shown: &B) -> Option<std::rc::Rc<Pos18>> {
        let v = clean(shown);
        if let Some(x) = self.cache.get(&v) {
            return x.clone();
        }
        let mines = self.mines;
        let r = quiet(|| {
            let k = know(&v);
            let product: f64 = k.blocks.iter().map(|b| b.total.iter().filter(|&&x| x > 0.0).count() as f64).product();
            if !k.possible || k.biggest() > LIMIT || product > 3e4 {
                return None;
            }
            let p = k.chances(mines)?.0;
            Some((k.sure(), p, k.easy()))
        });
        let r = match r {
            None => None,
            Some((sure, p, easy)) => {
                let vv = v.clone();
                try_easy(easy, "GameBoard", STEPS, move || {
                    let mut g = GameBoard::new(mines);
                    g.set_game_board(&vv);
                    let s = g.get_basic_not_mine().clone();
                    (s, g.get_basic_is_mine().clone())
                })
                .map(|basic| std::rc::Rc::new(Pos18 { sure, basic, p }))
            }
        };
        self.cache.insert(v, r.clone());
        r
    }
    fn all_reachable(&mut self) -> bool {
        (0..self.ev.len()).all(|i| {
            let b = self.ev[i].before.clone();
            self.at(&b).is_some()
        })
    }
    fn due(&mut self, name: &str) -> HashMap<usize, Vec<Due>> {
        let mut r: HashMap<usize, Vec<Due>> = HashMap::new();
        let mut say = |i: usize, text: &'static str, v: Vec<f64>, edge: bool| r.entry(i).or_default().push(Due { text, v, edge });
        let n = self.ev.len();
        if n == 0 {
            return r;
        }
        let near1 = |a: f64, b: f64| (a - b).abs() < 1e-9;
        match name {
            "high_risk_guess" => {
                for i in 2..n {
                    if self.ev[i].useful >= 2 {
                        let k = self.at(&self.ev[i].before.clone()).unwrap();
                        let p = k.p.get(&self.cell(i)).copied().unwrap_or(0.0);
                        if p >= 0.51 - 1e-9 {
                            say(i, "error: 危险的猜雷(猜对概率#)", vec![1.0 - p], near1(p, 0.51));
                        }
                    }
                }
            }
            "jump_judge" => {
                for i in 2..n {
                    let c = self.cell(i);
                    if self.ev[i].useful >= 2 && self.ev[i].e == "lr" {
                        let k = self.at(&self.ev[i].before.clone()).unwrap();
                        if k.sure.0.contains(&c) && !k.basic.0.contains(&c) {
                            say(i, "feature: 高难度的判雷(左键)", vec![], false);
                        }
                    } else if self.ev[i].useful == 1 && self.ev[i].e == "rc" && self.ev[i].before[c.0][c.1] == 10 {
                        let k = self.at(&self.ev[i].before.clone()).unwrap();
                        if k.sure.1.contains(&c) && !k.basic.1.contains(&c) {
                            say(i, "feature: 高难度的判雷(标雷)", vec![], false);
                        }
                    }
                }
            }
            "needless_guess" => {
                for i in 2..n {
                    let c = self.cell(i);
                    if self.ev[i].useful >= 2 && self.ev[i].e == "lr" {
                        let k = self.at(&self.ev[i].before.clone()).unwrap();
                        let p = k.p.get(&c).copied().unwrap_or(0.0);
                        if p > 0.0 && !k.sure.0.contains(&c) && !k.sure.0.is_empty() {
                            say(i, "warning: 可以判雷时选择猜雷", vec![], false);
                        }
                    }
                }
            }
            "mouse_trace" => {
                let dist = |a: Pos, b: Pos| (a.0 as f64 - b.0 as f64).hypot(a.1 as f64 - b.1 as f64);
                let mut from = 0;
                let mut path = 0.0;
                for i in 0..n {
                    if i > 0 {
                        path += dist(self.ev[i].px, self.ev[i - 1].px);
                    }
                    if ["lr", "rr", "rc"].contains(&&self.ev[i].e[..]) {
                        let k = path / dist(self.ev[i].px, self.ev[from].px);
                        let v = vec![k * 100.0];
                        if near1(k, 7.0) || near1(k, 3.5) {
                            say(from, "?", v, true);
                        } else if k > 7.0 {
                            say(from, "error: 过于弯曲的鼠标轨迹(#%)", v, false);
                        } else if k > 3.5 {
                            say(from, "warning: 弯曲的鼠标轨迹(#%)", v, false);
                        }
                        from = i;
                        path = 0.0;
                    }
                }
            }
            "vision_transfer" => {
                let mut from = 0;
                for i in 0..n {
                    if self.ev[i].useful >= 2 {
                        let (a, b) = (self.ev[i].px, self.ev[from].px);
                        let far = a.0.abs_diff(b.0).pow(2) + a.1.abs_diff(b.1).pow(2) >= 112 * 112;
                        if far {
                            let k = self.at(&self.ev[i].before.clone()).unwrap();
                            let c = self.cell(from);
                            if k.sure.0.iter().any(|s| s.0.abs_diff(c.0) <= 3 && s.1.abs_diff(c.1) <= 3) {
                                say(from, "warning: 可以判雷时视野的转移", vec![], false);
                            }
                        }
                        from = i;
                    }
                }
            }
            "survive_poss" => {
                let mut v = vec![];
                for i in (0..n).filter(|&i| self.ev[i].e == "lr" && self.ev[i].useful > 0).skip(1).collect::<Vec<_>>() {
                    let k = self.at(&self.ev[i].before.clone()).unwrap();
                    let p = k.p.get(&self.cell(i)).copied().unwrap_or(0.0);
                    if p > 0.0 && p < 1.0 {
                        v.push(1.0 - p);
                    }
                }
                say(n - 1, "luck: #", v, false);
            }
            "super_fl_local" => self.fl(&mut say),
            _ => {}
        }
        r
    }
    /// A local run in flag style: right flags and chords that gain most where they are made, close to each other.
    fn fl(&self, say: &mut dyn FnMut(usize, &'static str, Vec<f64>, bool)) {
        // steps so far (Some), those since the last chord, whether long enough was seen
        struct Run {
            from: usize,
            steps: i64,
            flags: i64,
            long: bool,
        }
        let mut run: Option<Run> = None;
        let mut last = 0;
        for i in 1..self.ev.len() {
            let e = &self.ev[i];
            if e.e == "mv" {
                continue;
            }
            let (c, l) = (self.cell(i), self.cell(last));
            let mut end = false;
            let flag = e.e == "rc" && e.useful == 1 && e.before[c.0][c.1] == 10;
            if flag {
                match &mut run {
                    Some(r) => {
                        r.steps += 1;
                        r.flags += 1;
                    }
                    None => run = Some(Run { from: i, steps: 1, flags: 1, long: false }),
                }
            } else if e.useful == 3 {
                if good_chord(&e.before, c) {
                    if let Some(r) = &mut run {
                        r.steps += 1;
                        r.flags = 0;
                    }
                } else {
                    end = true;
                }
            } else {
                let held = &self.ev[last].mouse;
                end = e.e == "lr" && (*held == MouseState::DownUp || *held == MouseState::Chording) || e.e == "rr" && *held == MouseState::Chording;
            }
            // a jump ends a run of two or more steps
            let far = c.0.abs_diff(l.0).pow(2) + c.1.abs_diff(l.1).pow(2) > 16;
            if far && run.as_ref().map_or(false, |r| r.steps > 1) {
                end = true;
            }
            if let Some(r) = &mut run {
                if end {
                    if r.long {
                        say(r.from, "feature: 教科书式的FL局部(步数#)", vec![(r.steps - r.flags) as f64], false);
                    }
                    run = None;
                } else if r.steps - r.flags >= 5 {
                    r.long = true;
                }
            }
            last = i;
        }
    }
}
/// chording here opens something, and at least as much as on a cell beside it
fn good_chord(b: &B, p: Pos) -> bool {
    let (n, m) = (b.len(), b[0].len());
    let gain = |p: Pos| -> i64 {
        if !(1..=8).contains(&b[p.0][p.1]) {
            return -1;
        }
        let around = near(p, n, m);
        let f = around.iter().filter(|q| b[q.0][q.1] == 11).count();
        if f as i32 != b[p.0][p.1] {
            return -1;
        }
        around.iter().filter(|q| b[q.0][q.1] == 10).count() as i64
    };
    let g = gain(p);
    g > 0 && near(p, n, m).into_iter().filter(|q| q.0 == p.0 || q.1 == p.1).all(|q| gain(q) <= g)
}
/// "text", numbers
fn read_remark(s: &str) -> Option<(String, Vec<f64>, bool)> {
    let digits = |t: &str, n: usize| t == "inf" || t.split_once('.').map_or(n == 0 && t.bytes().all(|c| c.is_ascii_digit()), |x| x.1.len() == n);
    if let Some(x) = s.strip_prefix("luck: ") {
        if x == "1" {
            return Some(("luck: #".into(), vec![], true));
        }
        let (a, b) = x.split_once(" = ")?;
        let mut v = vec![];
        let mut ok = digits(b, 6);
        for f in a.split(" * ") {
            ok &= digits(f, 3);
            v.push(f.parse().ok()?);
        }
        v.push(b.parse().ok()?);
        return Some(("luck: #".into(), v, ok));
    }
    for (pre, post, n) in [("error: 危险的猜雷(猜对概率", ")", 3), ("error: 过于弯曲的鼠标轨迹(", "%)", 0), ("warning: 弯曲的鼠标轨迹(", "%)", 0), ("feature: 教科书式的FL局部(步数", ")", 0)] {
        if let Some(x) = s.strip_prefix(pre).and_then(|x| x.strip_suffix(post)) {
            return Some((format!("{pre}#{post}"), vec![x.parse().ok()?], digits(x, n)));
        }
    }
    Some((s.to_string(), vec![], true))
}
fn fits(r: &(String, Vec<f64>, bool), d: &Due) -> bool {
    if !r.2 {
        return false;
    }
    if d.text == "?" {
        return r.0.contains("弯曲的鼠标轨迹");
    }
    if r.0 != d.text {
        return false;
    }
    if d.text == "luck: #" {
        if d.v.is_empty() {
            return r.1.is_empty();
        }
        if r.1.len() != d.v.len() + 1 {
            return false;
        }
        let all: f64 = d.v.iter().product();
        return d.v.iter().zip(&r.1).all(|(a, b)| (a - b).abs() <= 0.000_501) && (all - r.1[d.v.len()]).abs() <= 5.1e-7;
    }
    if d.v.len() != r.1.len() {
        return false;
    }
    d.v.iter().zip(&r.1).all(|(a, b)| a == b || (a - b).abs() <= if d.text.contains("猜") { 0.000_501 } else { 0.5 + 1e-6 })
}
/// everything about a replay that the analyses have no business with
fn rest(v: &mut Old, what: &str) -> Vec<(String, String)> {
    let mut r = sut(what, || report(v, false));
    for (i, e) in v.video_action_state_recorder.iter().enumerate() {
        r.push((
            format!("event {i}"),
            format!(
                "{} {} {} {} {} {} {} {:?} {} {:?}",
                e.time, e.mouse, e.x, e.y, e.useful_level, e.prior_game_board_id, e.next_game_board_id, e.mouse_state as usize, e.path,
                (e.key_dynamic_params.left, e.key_dynamic_params.right, e.key_dynamic_params.double, e.key_dynamic_params.ce, e.key_dynamic_params.flag, e.key_dynamic_params.bbbv_solved)
            ),
        ));
    }
    for (i, g) in v.game_board_stream.iter().enumerate() {
        r.push((format!("board {i}"), show(&g.game_board)));
    }
    r.push(("board".into(), show(&v.board)));
    r
}
// ------------------------------------------------------------------ the player
fn away(l: &Live) -> Pos {
    let (h, w) = (l.md.n * l.s.pix, l.md.m * l.s.pix);
    match d(8) {
        0 => (h + d(300) as usize, d(w as u64 + 300) as usize),
        1 => (d(h as u64 + 300) as usize, w + d(300) as usize),
        _ => (d(h as u64) as usize, d(w as u64) as usize),
    }
}
fn spot(l: &Live, p: Pos) -> Pos {
    let q = l.s.pix;
    (p.0 * q + d(q as u64) as usize, p.1 * q + d(q as u64) as usize)
}
fn wander(l: &mut Live) {
    if l.log.is_empty() {
        return;
    }
    for _ in 0..[0, 0, 1, 2, 4][d(5) as usize] {
        l.tick.pass();
        let px = away(l);
        let _ = l.raw("mv", px);
    }
}
fn act(l: &mut Live, es: &[&'static str], p: Pos) {
    let mut px = spot(l, p);
    for e in es {
        if l.md.over() {
            return;
        }
        l.tick.pass();
        let _ = l.raw(e, px);
        if chance(1, 6) {
            px = spot(l, p);
        }
    }
}
fn covered(l: &Live) -> Vec<Pos> {
    (0..l.md.n * l.md.m).map(|i| (i / l.md.m, i % l.md.m)).filter(|p| l.md.vis[p.0][p.1] == 10).collect()
}
fn any<T: Copy>(v: &[T]) -> Option<T> {
    if v.is_empty() {
        None
    } else {
        Some(v[d(v.len() as u64) as usize])
    }
}
/// flag and chord around some place
fn local(l: &mut Live) {
    let (n, m) = (l.md.n, l.md.m);
    let cov = covered(l);
    let hot: Vec<Pos> = cov.iter().copied().filter(|p| l.md.b[p.0][p.1] == -1 && near(*p, n, m).iter().any(|q| l.md.vis[q.0][q.1] < 10)).collect();
    let Some(c) = any(&hot) else { return };
    for _ in 0..2 + d(6) {
        if l.md.over() {
            return;
        }
        let close = |p: &Pos| p.0.abs_diff(c.0) <= 2 && p.1.abs_diff(c.1) <= 3;
        let mines: Vec<Pos> = covered(l).into_iter().filter(|p| l.md.b[p.0][p.1] == -1 && close(p)).collect();
        let nums: Vec<Pos> = (0..n * m)
            .map(|i| (i / m, i % m))
            .filter(|p| {
                let x = l.md.vis[p.0][p.1];
                let ar = near(*p, n, m);
                close(p) && (1..=8).contains(&x) && ar.iter().filter(|q| l.md.vis[q.0][q.1] == 11).count() as i32 == x && ar.iter().any(|q| l.md.vis[q.0][q.1] == 10)
            })
            .collect();
        let chord: &[&'static str] = [&["lc", "rc", "rr", "lr"][..], &["rc", "lc", "lr", "rr"][..], &["lc", "rc", "lr", "rr"][..], &["cc", "rr", "lr"][..]][d(4) as usize];
        match (any(&mines), any(&nums)) {
            (_, Some(p)) if chance(1, 2) => act(l, chord, p),
            (Some(p), _) => act(l, &["rc", "rr"], p),
            (_, Some(p)) => act(l, chord, p),
            _ => return,
        }
        if chance(1, 6) {
            wander(l);
        }
    }
}
/// a click some cells away from the nearest cell known to be safe, then one far off
fn glance(l: &mut Live) {
    let far = |p: &Pos, q: Pos| p.0.abs_diff(q.0).max(p.1.abs_diff(q.1));
    let safe = |l: &Live| covered(l).into_iter().filter(|p| l.md.b[p.0][p.1] != -1).collect::<Vec<_>>();
    let Some(kn) = quiet(|| know_within(&clean(&l.md.vis), 20_000)) else { return };
    let sure = kn.sure().0;
    let want = [3, 3, 3, 4][d(4) as usize];
    let at: Vec<Pos> = safe(l).into_iter().filter(|p| sure.iter().map(|s| far(s, *p)).min() == Some(want)).collect();
    let Some(a) = any(&at) else { return };
    act(l, &["lc", "lr"], a);
    if l.md.over() {
        return;
    }
    let off: Vec<Pos> = safe(l).into_iter().filter(|p| far(p, a) * l.s.pix >= 100).collect();
    if let Some(b) = any(&off) {
        stat("glances", 1);
        act(l, &["lc", "lr"], b);
    }
}
fn play(l: &mut Live) {
    let (n, m) = (l.md.n, l.md.m);
    let style = d(4);
    if chance(1, 5) {
        for _ in 0..1 + d(3) {
            if let Some(p) = any(&covered(l)) {
                act(l, &["rc", "rr"], p);
            }
        }
        wander(l);
    }
    for _ in 0..range(2, 40) {
        if l.md.over() {
            return;
        }
        wander(l);
        let cov = covered(l);
        let safe: Vec<Pos> = cov.iter().copied().filter(|p| l.md.b[p.0][p.1] != -1).collect();
        let k = match style {
            0 => pick(&[6, 1, 1, 1, 1, 1, 0, 2]),
            1 => pick(&[1, 4, 1, 3, 1, 1, 1, 0]),
            2 => pick(&[2, 1, 1, 1, 6, 1, 0, 0]),
            _ => pick(&[1, 1, 3, 2, 1, 3, 1, 3]),
        };
        match k {
            // deduced cells
            0 => {
                let kn = quiet(|| know(&clean(&l.md.vis)));
                let (s, mi) = kn.sure();
                let s: Vec<Pos> = s.into_iter().filter(|p| l.md.vis[p.0][p.1] == 10).collect();
                let mi: Vec<Pos> = mi.into_iter().filter(|p| l.md.vis[p.0][p.1] == 10).collect();
                match (any(&s), any(&mi)) {
                    (_, Some(p)) if chance(1, 3) => act(l, &["rc", "rr"], p),
                    (Some(p), _) => act(l, &["lc", "lr"], p),
                    _ => {
                        if let Some(p) = any(&safe) {
                            act(l, &["lc", "lr"], p);
                        }
                    }
                }
            }
            // a lucky guess anywhere
            1 => {
                if let Some(p) = any(&safe) {
                    act(l, &["lc", "lr"], p);
                }
            }
            // a lucky guess next to what is open
            2 => {
                let f: Vec<Pos> = safe.iter().copied().filter(|p| near(*p, n, m).iter().any(|q| l.md.vis[q.0][q.1] < 10)).collect();
                if let Some(p) = any(&f) {
                    act(l, &["lc", "lr"], p);
                }
            }
            // flags, right or wrong, set or taken back
            3 => {
                let all: Vec<Pos> = (0..n * m).map(|i| (i / m, i % m)).filter(|p| l.md.vis[p.0][p.1] >= 10 && (l.md.b[p.0][p.1] == -1 || chance(1, 4))).collect();
                if let Some(p) = any(&all) {
                    act(l, &["rc", "rr"], p);
                }
            }
            4 => local(l),
            // clicks that do nothing
            5 => {
                let px = away(l);
                let es: &[&'static str] = [&["rc", "rr"][..], &["lc", "lr"][..], &["lc", "rc", "lr", "rr"][..]][d(3) as usize];
                let out = px.0 >= n * l.s.pix || px.1 >= m * l.s.pix;
                let c = (px.0 / l.s.pix, px.1 / l.s.pix);
                if (out || l.md.vis[c.0][c.1] < 10 || es[0] == "rc") && !(l.md.ph == Ph::Ready && out) {
                    for e in es {
                        if !l.md.over() {
                            l.tick.pass();
                            let _ = l.raw(e, px);
                        }
                    }
                }
            }
            // any click at all
            6 => {
                if let Some(p) = any(&cov) {
                    act(l, &["lc", "lr"], p);
                }
            }
            _ => glance(l),
        }
    }
    if !l.md.over() {
        l.finish();
    }
}
fn useful(v: &B, w: &B, e: &str, chord: bool) -> u8 {
    if v == w {
        0
    } else if e == "rc" || e == "pf" || e == "cc" {
        1
    } else if chord {
        3
    } else {
        2
    }
}
fn small() -> B {
    let (n, m) = match pick(&[5, 4, 3, 2, 2]) {
        0 => (range(2, 6) as usize, range(2, 6) as usize),
        1 => (range(4, 8) as usize, range(4, 9) as usize),
        2 => (8, 8),
        3 => (range(1, 2) as usize, range(3, 24) as usize),
        _ => [(12, 12), (9, 9), (10, 16), (16, 16)][d(4) as usize],
    };
    let cells = n * m;
    let k = match pick(&[5, 3, 1, 1]) {
        0 => cells * range(10, 24) as usize / 100,
        1 => cells * range(20, 45) as usize / 100,
        2 => range(0, 4) as usize,
        _ => cells * range(45, 90) as usize / 100,
    };
    board_with(n, m, k.min(cells - 1))
}
fn live() -> (Old, Truth) {
    let b = small();
    note(format!("board {}", show(&b)));
    let pix = [16, 16, 16, 20, 24, 1, 255, 32][d(8) as usize];
    clocks();
    let mut l = Live::new(&b, pix, chance(1, 2));
    play(&mut l);
    sut("generate_evf_v0_raw_data", || l.s.v.generate_evf_v0_raw_data());
    let raw = l.s.v.get_raw_data().unwrap_or_default();
    with_fs(|fs| fs.put("/simfs/x.evf", &raw));
    crate::c21::read_faults();
    let mut v = match read_evf("/simfs/x.evf") {
        Ok(v) => v,
        Err(e) => fail("refused", format!("the saved replay is refused: {e}")),
    };
    sut("analyse", || v.analyse());
    let blank = vec![vec![10; l.md.m]; l.md.n];
    let mut ev = vec![];
    for (i, s) in l.log.iter().enumerate() {
        let before = if i == 0 { blank.clone() } else { l.log[i - 1].vis.clone() };
        let dbl = if i == 0 { 0 } else { l.log[i - 1].c.double };
        let chord = s.c.double > dbl;
        let lost_by_left = s.ph == Ph::Loss && !chord;
        let u = if lost_by_left { 0 } else { useful(&before, &s.vis, s.e, chord) };
        ev.push(Ev { e: s.e.to_string(), px: s.px, before, useful: u, mouse: v.video_action_state_recorder[i].mouse_state });
    }
    let same = v.video_action_state_recorder.len() == ev.len();
    check!(same, "events", "the replay has {} events instead of {}", v.video_action_state_recorder.len(), ev.len());
    (v, Truth { ev, pix, mines: mines_of(&b), cache: HashMap::new() })
}
fn legacy() -> Option<(Old, Truth)> {
    let f = [Fmt::Avf, Fmt::Rmv, Fmt::Mvf, Fmt::Evf][d(4) as usize];
    let n = d(60) as usize;
    let g = Game::draw(f, n, 100);
    note(format!("{f:?} board {}", show(&g.b)));
    let (data, _) = g.encode();
    with_fs(|fs| fs.put("/simfs/x.old", &data));
    crate::c21::read_faults();
    macro_rules! go {
        ($t:ident) => {{
            let mut v = sut(stringify!($t), || $t::new("/simfs/x.old"));
            let r = sut("parse_video", || v.parse_video());
            if r.is_err() {
                return None;
            }
            v.data
        }};
    }
    let mut v = match f {
        Fmt::Avf => go!(AvfVideo),
        Fmt::Rmv => go!(RmvVideo),
        Fmt::Mvf => go!(MvfVideo),
        Fmt::Evf => go!(EvfVideo),
    };
    sut("analyse", || v.analyse());
    if v.video_action_state_recorder.is_empty() {
        stat("replays.without_events", 1);
        sut("analyse_for_features", || v.analyse_for_features(NAMES.to_vec()));
        return None;
    }
    // what is in these files is judged elsewhere (C21): here the replay's own record counts
    let ev = v
        .video_action_state_recorder
        .iter()
        .map(|e| Ev {
            e: e.mouse.clone(),
            px: (e.y as usize, e.x as usize),
            before: v.game_board_stream[e.prior_game_board_id].game_board.clone(),
            useful: e.useful_level,
            mouse: e.mouse_state,
        })
        .collect();
    stat("replays.older_formats", 1);
    let mines = mines_of(&g.b);
    Some((v, Truth { ev, pix: 16, mines, cache: HashMap::new() }))
}
fn c18() {
    let (mut v, mut t) = if chance(1, 5) {
        match legacy() {
            Some(x) => x,
            None => return,
        }
    } else {
        live()
    };
    for (i, e) in t.ev.iter().enumerate() {
        sig(hash_step(hash(&e.before), e.px.0 as u64 * 65536 + e.px.1 as u64));
        if tracing() {
            note(format!("event {i}: {} at {:?}, effect {}, before it {}", e.e, e.px, e.useful, show(&e.before)));
        }
    }
    let all = t.all_reachable();
    stat(if all { "replays.all_analyses" } else { "replays.mouse_analyses_only" }, 1);
    sample(format!("board {}, {} events", show(&v.board), t.ev.len()));
    let mut due: HashMap<usize, Vec<Due>> = HashMap::new();
    let mut ran = vec![];
    for _ in 0..1 + d(4) {
        // queries and seeks in between
        for _ in 0..d(3) {
            let id = d(t.ev.len() as u64) as usize;
            let r = sut("set_current_event_id", || v.set_current_event_id(id));
            check!(r.is_ok(), "seek", "event {id} refused");
            if all && chance(1, 2) {
                let ids: Vec<usize> = (0..=id).filter(|&i| t.ev[i].useful >= 2).collect();
                let shown = v.game_board_stream[v.video_action_state_recorder[id].next_game_board_id].game_board.clone();
                let b = if id + 1 < t.ev.len() { t.ev[id + 1].before.clone() } else { shown };
                let want = if ids.is_empty() { None } else { t.at(&b) };
                if !ids.is_empty() && want.is_none() {
                    continue;
                }
                let p = sut_budget("get_game_board_poss", STEPS, || v.get_game_board_poss());
                stat("playback_probability_queries", 1);
                match want {
                    Some(k) => crate::c15::compare_board("get_game_board_poss", &p, &k.p, &clean(&b), t.mines),
                    None => {
                        let x = t.mines as f64 / (b.len() * b[0].len()) as f64;
                        check!(p.iter().flatten().all(|&y| (x - y).abs() < 1e-9), "probability", "before the first opening get_game_board_poss is {p:?} instead of {x}");
                    }
                }
            }
        }
        let mut names: Vec<&'static str> = vec![];
        for _ in 0..1 + d(4) {
            let k = d(9) as usize;
            names.push(match k {
                0..=6 if all => NAMES[k],
                0..=6 => [NAMES[3], NAMES[6]][k % 2],
                7 => "mouse trace",
                _ => "",
            });
        }
        if chance(1, 3) {
            names = if all { NAMES.to_vec() } else { vec![NAMES[3], NAMES[6]] };
        }
        for x in &names {
            sig(x.len() as u64);
            stat(match *x {
                "" | "mouse trace" => "analysis.unknown_name",
                x => Box::leak(format!("analysis.{x}").into_boxed_str()),
            }, 1);
            for (i, w) in t.due(x) {
                due.entry(i).or_default().extend(w);
            }
        }
        ran.extend(names.iter().copied());
        note(format!("analyses {names:?}"));
        let before = rest(&mut v, "report");
        sut_budget("analyse_for_features", STEPS, || v.analyse_for_features(names.clone()));
        let after = rest(&mut v, "report");
        for (a, b) in before.iter().zip(&after) {
            check!(a == b, "changed", "{} was {} and is {} after {names:?}", a.0, a.1, b.1);
        }
        check!(before.len() == after.len(), "changed", "events or boards were added or lost by {names:?}");
        // the remarks
        for i in 0..t.ev.len() {
            let c = v.video_action_state_recorder[i].comments.clone();
            check!(c.is_empty() || c.ends_with(';'), "remark", "event {i} carries {c:?} after {ran:?}");
            let mut got = vec![];
            for s in c.split(';').filter(|s| !s.is_empty()) {
                match read_remark(s) {
                    Some(r) => got.push(r),
                    None => fail("remark", format!("event {i} carries an unreadable remark {s:?}")),
                }
            }
            let mut left: Vec<Due> = due.get(&i).cloned().unwrap_or_default();
            for g in got {
                match left.iter().position(|x| fits(&g, x)) {
                    Some(k) => {
                        left.remove(k);
                    }
                    None => fail("remark", format!("event {i} ({} at {:?}, before it {}) carries {:?} {:?}, which is not due after {ran:?}; due: {:?}", t.ev[i].e, t.ev[i].px, show(&t.ev[i].before), g.0, g.1, due.get(&i))),
                }
            }
            left.retain(|x| !x.edge);
            check!(left.is_empty(), "remark", "event {i} ({} at {:?}, before it {}) carries {c:?} and lacks {left:?} after {ran:?}", t.ev[i].e, t.ev[i].px, show(&t.ev[i].before));
        }
    }
    for w in due.values() {
        for x in w {
            if x.text != "luck: #" || !x.v.is_empty() {
                nontrivial();
            }
            stat(match x.text.split(['(', '#']).next().unwrap() {
                "error: 危险的猜雷" => "remark.high_risk_guess",
                "feature: 高难度的判雷" => "remark.jump_judge",
                "warning: 可以判雷时选择猜雷" => "remark.needless_guess",
                "error: 过于弯曲的鼠标轨迹" => "remark.mouse_trace_error",
                "warning: 弯曲的鼠标轨迹" => "remark.mouse_trace_warning",
                "warning: 可以判雷时视野的转移" => "remark.vision_transfer",
                "luck: " if !x.v.is_empty() => "remark.survive_poss",
                "luck: " => "remark.survive_poss_certain",
                "feature: 教科书式的FL局部" => "remark.super_fl_local",
                _ => "remark.other",
            }, 1);
        }
    }
}
