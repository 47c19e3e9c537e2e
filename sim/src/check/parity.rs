//! A binding and the library asked the same question.
use crate::board::*;
use crate::model::*;
use crate::play::*;
use crate::value::*;
use ms_toollib::*;
use simrt::*;

/// The library's own answer; a panic counts as a refusal.
pub fn core<T: To>(f: impl FnOnce() -> T) -> V {
    match sut_try("library", f) {
        Ok(x) => x.to(),
        Err(_) => V::Err,
    }
}
#[track_caller]
pub fn eq(what: &str, py: &V, rs: &V) {
    check!(py == rs, "differs", "{what}: the package says {}, the library {}", brief(py), brief(rs));
}
pub fn state(s: GameBoardState) -> i64 {
    match s {
        GameBoardState::Ready => 1,
        GameBoardState::Playing => 2,
        GameBoardState::Win => 3,
        GameBoardState::Loss => 4,
        GameBoardState::PreFlaging => 5,
        GameBoardState::Display => 6,
    }
}
pub fn mouse(s: MouseState) -> i64 {
    match s {
        MouseState::UpUp => 1,
        MouseState::UpDown => 2,
        MouseState::UpDownNotFlag => 3,
        MouseState::DownUp => 4,
        MouseState::Chording => 5,
        MouseState::ChordingNotFlag => 6,
        MouseState::DownUpAfterChording => 7,
        MouseState::Undefined => 8,
    }
}
pub const FEATURES: [&str; 8] = ["high_risk_guess", "jump_judge", "needless_guess", "mouse_trace", "vision_transfer", "survive_poss", "super_fl_local", "nonsense"];
/// another board that agrees with everything opened
pub fn other(md: &Model, s: &impl Sut) -> Option<B> {
    if md.ph != Ph::Playing {
        return None;
    }
    let vis = s.vis();
    let mut mines: Vec<Vec<bool>> = md.b.iter().map(|r| r.iter().map(|&x| x == -1).collect()).collect();
    for _ in 0..1 + d(3) {
        let p = (d(md.n as u64) as usize, d(md.m as u64) as usize);
        if vis[p.0][p.1] >= 10 {
            mines[p.0][p.1] = !mines[p.0][p.1];
        }
    }
    let nb = numbers(&mines);
    let ok = (0..md.n).all(|i| (0..md.m).all(|j| vis[i][j] >= 10 || nb[i][j] == vis[i][j]));
    if ok && nb != md.b && !Model::all_open(&nb, &vis) {
        Some(nb)
    } else {
        None
    }
}
pub trait Feed: Sized {
    fn feed(s: &mut MinesweeperBoard<Self>, b: Vec<(&str, Pos)>) -> Result<(), ()>;
}
impl Feed for B {
    fn feed(s: &mut MinesweeperBoard<B>, b: Vec<(&str, Pos)>) -> Result<(), ()> {
        s.step_flow(b)
    }
}
impl Feed for SafeBoard {
    fn feed(s: &mut MinesweeperBoard<SafeBoard>, b: Vec<(&str, Pos)>) -> Result<(), ()> {
        s.step_flow(b)
    }
}
