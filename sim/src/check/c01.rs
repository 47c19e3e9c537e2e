//! C01, C02, C03: the board state machine.
use crate::board::*;
use crate::model::*;
use crate::play::*;
use ms_toollib::{BaseVideo, MinesweeperBoard, SafeBoard};
use simrt::*;

const REAL: &str = "MinesweeperBoard<Vec<Vec<i32>>>, MinesweeperBoard<SafeBoard>, BaseVideo<SafeBoard> session, utils::refresh_board, safe_board; std clocks and entropy reads of the library go through the simulator";
const STUB: &str = "player, mouse hardware and event transport (loss, duplication, reordering, off-board delivery), clock, entropy";
const RULE: &str = "a run is one game (up to 600 mouse events) on a drawn board through a drawn front end (board or session), with event faults in part of the runs; every event is followed by all oracles. Non-trivial: the game started and at least 8 events were handled. Distinct: by hash of board, events and resulting boards";
pub const P1: Prop = Prop { id: "C01", quick: 160000, thorough: 4000000, chunk: 400, f: c01, rule: RULE, real: REAL, stub: STUB };
pub const P2: Prop = Prop { id: "C02", quick: 160000, thorough: 4000000, chunk: 400, f: c02, rule: RULE, real: REAL, stub: STUB };
pub const P3: Prop = Prop { id: "C03", quick: 160000, thorough: 4000000, chunk: 400, f: c03, rule: RULE, real: REAL, stub: STUB };
fn c01() {
    if chance(1, 10) {
        return flow();
    }
    game(Want { c01: true, c02: false, c03: false })
}
fn c02() {
    if chance(1, 4) {
        return swap();
    }
    game(Want { c01: false, c02: true, c03: false })
}
fn c03() {
    game(Want { c01: false, c02: false, c03: true })
}
pub fn drive(md: &mut Model, s: &mut dyn Sut, pl: &mut Player, n: usize, w: Want) -> usize {
    let mut after = 0;
    for i in 0..n {
        let (e, disturbed) = pl.next(md);
        advance(clock_draw(40_000_000));
        let r = sut(e.0, || s.step(e.0, e.1));
        mixlog(hash_step(e.1 .0 as u64 * 1000 + e.1 .1 as u64, r.map_or(99, |x| x as u64)));
        if tracing() {
            note(format!("event {i}: {} at {:?}{} -> {:?}; shown {}", e.0, e.1, if disturbed { " (disturbed)" } else { "" }, r, show(&s.vis())));
        }
        observe(md, s, e, r, disturbed, w);
        sig(hash(&md.vis));
        if i >= 8 && md.vis.iter().flatten().any(|&x| x < 10) {
            nontrivial();
        }
        match md.ph {
            Ph::Win => stat("state.win_events", 1),
            Ph::Loss => stat("state.loss_events", 1),
            Ph::Pre => stat("state.preflag_events", 1),
            Ph::Ready => stat("state.ready_events", 1),
            Ph::Playing => stat("state.playing_events", 1),
        }
        if md.over() {
            after += 1;
            if after > 6 {
                return i;
            }
        }
    }
    n
}
fn game(w: Want) {
    let b = board(if chance(1, 6) { 480 } else { 90 });
    let mut md = Model::new(&b);
    let faulty = chance(1, 3);
    let mut pl = Player::draw(faulty);
    pl.far = chance(1, 3);
    pl.exotic = faulty && chance(1, 3);
    let n = if b.len() * b[0].len() > 100 { 300 } else { 30 + d(150) as usize };
    note(format!("board {}", show(&b)));
    sig(hash(&b));
    sample(format!("board {} style {} faults 1/{}", show(&b), pl.style, pl.fault));
    match pick(&[3, 2, 3]) {
        0 => {
            let mut s = sut("new", || MinesweeperBoard::<B>::new(b.clone()));
            drive(&mut md, &mut s, &mut pl, n, w);
            // the board can be reused
            if chance(1, 4) {
                sut("reset", || s.reset());
                s.board = b.clone();
                let mut md = Model::new(&b);
                pl.queue.clear();
                stat("runs_after_reset", 1);
                drive(&mut md, &mut s, &mut pl, n / 2, w);
            }
        }
        1 => {
            let mut s = sut("new", || MinesweeperBoard::<SafeBoard>::new(SafeBoard::new(b.clone())));
            drive(&mut md, &mut s, &mut pl, n, w);
        }
        _ => {
            set_clocks(1_000_000_000_000, 1_700_000_000_000_000_000);
            let pix = [16, 20, 1, 31, 255][d(5) as usize];
            let v = sut("new_before_game", || BaseVideo::<SafeBoard>::new_before_game(b.clone(), pix as u8));
            let mut s = Session { v, pix, steady: false };
            drive(&mut md, &mut s, &mut pl, n, w);
        }
    }
}
/// Events given in batches do what they do one by one; a batch ends at the first refused event.
fn flow() {
    let b = board(90);
    let mut md = Model::new(&b);
    let mut pl = Player::draw(chance(1, 2));
    pl.far = chance(1, 3);
    pl.exotic = chance(1, 4);
    let mut one = sut("new", || MinesweeperBoard::<B>::new(b.clone()));
    let mut all = sut("new", || MinesweeperBoard::<B>::new(b.clone()));
    note(format!("board {}", show(&b)));
    sample(format!("board {} in batches", show(&b)));
    sig(hash(&b));
    let w = Want { c01: true, c02: false, c03: false };
    let mut after = 0;
    for _ in 0..2 + d(20) {
        let mut batch = vec![];
        let mut refused = false;
        for _ in 0..d(12) {
            let (e, disturbed) = pl.next(&md);
            let r = sut(e.0, || one.step(e.0, e.1));
            if !refused {
                batch.push((e.0, e.1));
            }
            observe(&mut md, &one, e, r, disturbed, w);
            if r.is_err() {
                refused = true;
                stat("refused_in_batch", 1);
                // what follows a refused event is not delivered
                break;
            }
            after += md.over() as usize;
        }
        if tracing() {
            note(format!("batch {batch:?}; shown {}", show(&one.game_board)));
        }
        // what was not delivered is lost
        let extra = refused && chance(1, 2);
        if extra {
            let p = (d(md.n as u64) as usize, d(md.m as u64) as usize);
            batch.push(("lc", p));
            batch.push(("lr", p));
        }
        let k = batch.len();
        let r = sut("step_flow", || all.step_flow(batch));
        check!(r.is_err() == refused, "batch", "a batch of {k} events answers {r:?}, one by one an event was {}", if refused { "refused" } else { "not refused" });
        check!(all.game_board == one.game_board, "batch", "a batch leads to {} instead of {}", show(&all.game_board), show(&one.game_board));
        let f = |s: &MinesweeperBoard<B>| (s.left, s.right, s.double, s.ce, s.flag, s.bbbv_solved, s.game_board_state, s.mouse_state);
        check!(f(&all) == f(&one), "batch", "after a batch left, right, double, ce, flag, 3BV, state, mouse are {:?} instead of {:?}", f(&all), f(&one));
        sig(hash(&md.vis));
        stat("batches", 1);
        if after > 6 {
            break;
        }
        if md.vis.iter().flatten().any(|&x| x < 10) {
            nontrivial();
        }
    }
}
/// C02 with the board swapped during the game, consistently with the cells already opened.
fn swap() {
    let b = board(60);
    let (n, m) = (b.len(), b[0].len());
    let mut md = Model::new(&b);
    let mut pl = Player::draw(false);
    pl.careless = 0;
    let v = sut("new_before_game", || BaseVideo::<SafeBoard>::new_before_game(b.clone(), 16));
    let mut s = Session { v, pix: 16, steady: false };
    note(format!("board {}", show(&b)));
    sig(hash(&b));
    let mut after = 0;
    for i in 0..(20 + d(150)) {
        if !md.over() && chance(1, 12) {
            // move a mine between covered cells so that every opened number stays true
            let nb = other_board(&md);
            if let Some(nb) = nb {
                let r = sut("set_board", || s.v.set_board(nb.clone()));
                check!(r.is_ok(), "verdict", "board swap refused while the game runs");
                note(format!("swap to {}", show(&nb)));
                stat("board_swaps", 1);
                md.b = nb;
                nontrivial();
            }
        }
        let (e, dis) = pl.next(&md);
        let r = sut(e.0, || s.step(e.0, e.1));
        if tracing() {
            note(format!("event {i}: {} at {:?} -> {:?}; shown {}", e.0, e.1, r, show(&s.vis())));
        }
        // effective clicks of swapped boards are not claimed
        let w = Want { c01: false, c02: true, c03: false };
        observe(&mut md, &s, e, r, dis, w);
        md.c = s.cnt();
        sig(hash(&md.vis));
        if md.over() {
            after += 1;
            if after > 4 {
                break;
            }
        }
    }
    let _ = (n, m);
}
pub fn other_board(md: &Model) -> Option<B> {
    let mut mines: Vec<Vec<bool>> = md.b.iter().map(|r| r.iter().map(|&x| x == -1).collect()).collect();
    let cov: Vec<Pos> = (0..md.n).flat_map(|i| (0..md.m).map(move |j| (i, j))).filter(|p| md.vis[p.0][p.1] >= 10).collect();
    let border = |p: Pos| near(p, md.n, md.m).iter().any(|q| md.vis[q.0][q.1] < 10);
    let free: Vec<Pos> = cov.iter().cloned().filter(|&p| !border(p)).collect();
    let mut done = false;
    for _ in 0..(1 + d(3)) {
        match d(3) {
            0 => {
                // move a mine among cells that no opened number sees
                if free.len() >= 2 {
                    let a = free[d(free.len() as u64) as usize];
                    let b = free[d(free.len() as u64) as usize];
                    if mines[a.0][a.1] != mines[b.0][b.1] {
                        let t = mines[a.0][a.1];
                        mines[a.0][a.1] = mines[b.0][b.1];
                        mines[b.0][b.1] = t;
                        done = true;
                    }
                }
            }
            1 => {
                if let Some(&a) = free.get(d(free.len().max(1) as u64) as usize) {
                    mines[a.0][a.1] = !mines[a.0][a.1];
                    done = true;
                }
            }
            _ => {
                // exchange two covered cells seen by exactly the same opened numbers
                let k = cov.len().max(1) as u64;
                if cov.len() >= 2 {
                    let (a, b) = (cov[d(k) as usize], cov[d(k) as usize]);
                    let seen = |p: Pos| {
                        let mut v: Vec<Pos> = near(p, md.n, md.m).into_iter().filter(|q| md.vis[q.0][q.1] < 10).collect();
                        v.sort();
                        v
                    };
                    if seen(a) == seen(b) {
                        let t = mines[a.0][a.1];
                        mines[a.0][a.1] = mines[b.0][b.1];
                        mines[b.0][b.1] = t;
                        done = true;
                    }
                }
            }
        }
    }
    if !done || mines.iter().flatten().all(|&x| x) {
        return None;
    }
    let nb = numbers(&mines);
    // the opened cells must stay true
    for i in 0..md.n {
        for j in 0..md.m {
            if md.vis[i][j] < 10 && nb[i][j] != md.vis[i][j] {
                return None;
            }
        }
    }
    // a win that needs no further click would depend on when it is looked for
    if Model::all_open(&nb, &md.vis) {
        return None;
    }
    Some(nb)
}
