//! C14: the protected board behaves as the plain one.
use crate::board::*;
use crate::model::*;
use crate::play::*;
use ms_toollib::*;
use simrt::*;
use std::sync::{Arc, Mutex};

pub const P: Prop = Prop {
    id: "C14",
    quick: 60_000,
    thorough: 2_000_000,
    chunk: 100,
    f: c14,
    rule: "a run is a history of constructions, clones, replacements, reads, partial and full iterations over up to five protected boards and rows, checked against plain copies, with clones and shared boards read from several threads under a drawn schedule; in part of the runs a game is played on both kinds of board in lockstep. Non-trivial: at least 8 operations on a board of at least 4 cells. Distinct: by hash of contents and operations",
    real: "SafeBoard, SafeBoardRow, MinesweeperBoard over both kinds, cal_bbbv, cal_op, cal_isl, cal_cell_nums, refresh_board, rand::thread_rng, std::thread",
    stub: "entropy source, thread scheduler",
};
struct E {
    s: SafeBoard,
    b: B,
    /// rows already taken by iterating over the board itself
    at: usize,
}
fn content() -> B {
    if chance(1, 2) {
        return board(if chance(1, 10) { 480 } else { 60 });
    }
    let (n, m) = (range(1, 5) as usize, range(1, 7) as usize);
    match d(3) {
        // anything a cell can show
        0 => (0..n).map(|_| (0..m).map(|_| range(-3, 16) as i32).collect()).collect(),
        1 => {
            let x = range(-3, 16) as i32;
            vec![vec![x; m]; n]
        }
        _ => (0..n).map(|i| (0..m).map(|j| ((i * m + j) % 20) as i32 - 3).collect()).collect(),
    }
}
fn same(what: &str, got: &B, want: &B) {
    check!(got == want, "content", "{what}: {got:?} instead of {want:?}");
}
fn row_of(r: &SafeBoardRow, k: usize) -> Vec<i32> {
    let mut v = vec![];
    for j in 0..k {
        v.push(r[j]);
    }
    v
}
fn read(s: &SafeBoard, b: &B, how: u64, what: &str) {
    let (n, m) = (b.len(), b[0].len());
    match how {
        0 => {
            let v = sut("into_vec_vec", || s.into_vec_vec());
            same(&format!("{what} into_vec_vec"), &v, b);
        }
        1 => {
            let v: B = sut("index", || (0..n).map(|i| row_of(&s[i], m)).collect());
            same(&format!("{what} by index"), &v, b);
        }
        2 => {
            let v: B = sut("into_vec", || (0..n).map(|i| s[i].into_vec()).collect());
            same(&format!("{what} rows into_vec"), &v, b);
        }
        3 => {
            let v: B = sut("cells", || (0..n).map(|i| s[i].clone().collect()).collect());
            same(&format!("{what} iterating cells"), &v, b);
        }
        _ => {
            let (i, j) = (d(n as u64) as usize, d(m as u64) as usize);
            let x = sut("index", || s[i][j]);
            check!(x == b[i][j], "content", "{what} [{i}][{j}]: {x} instead of {}", b[i][j]);
        }
    }
}
fn c14() {
    match pick(&[4, 1, 2]) {
        0 => history(),
        1 => shared(),
        _ => lockstep(),
    }
}
fn history() {
    let mut pool: Vec<E> = vec![];
    let n = 6 + d(30);
    for t in 0..n {
        let op = if pool.is_empty() { 0 } else { pick(&[3, 3, 3, 8, 4, 2, 3, 4, 1]) };
        let k = if pool.is_empty() { 0 } else { d(pool.len() as u64) as usize };
        sig(op as u64 * 10 + k as u64);
        let what = format!("operation {t}");
        match op {
            0 => {
                let b = content();
                note(format!("{what}: new {b:?}"));
                sample(format!("{n} operations, first board {b:?}"));
                sig(hash(&b));
                if n >= 8 && b.len() * b[0].len() >= 4 {
                    nontrivial();
                }
                let s = sut("new", || SafeBoard::new(b.clone()));
                pool.push(E { s, b, at: 0 });
                if pool.len() > 5 {
                    let x = d(5) as usize;
                    pool.remove(x);
                }
            }
            1 => {
                note(format!("{what}: clone board {k}"));
                let s = sut("clone", || pool[k].s.clone());
                let e = E { s, b: pool[k].b.clone(), at: pool[k].at };
                pool.push(e);
                if pool.len() > 5 {
                    let x = d(5) as usize;
                    pool.remove(x);
                }
            }
            2 => {
                let b = content();
                note(format!("{what}: board {k} set to {b:?}"));
                sig(hash(&b));
                let e = &mut pool[k];
                sut("set", || e.s.set(b.clone()));
                e.b = b;
                e.at = 0;
            }
            3 => {
                let how = d(5);
                note(format!("{what}: read board {k} ({how})"));
                read(&pool[k].s, &pool[k].b, how, &what);
            }
            4 => {
                // some rows, from where the board's cursor stands
                let c = d(4);
                let e = &mut pool[k];
                note(format!("{what}: take {c} rows of board {k}"));
                for _ in 0..c {
                    let r = sut("next row", || e.s.next());
                    check!(r.is_some() == (e.at < e.b.len()), "iteration", "{what}: row {} of {}: {}", e.at, e.b.len(), r.is_some());
                    if let Some(r) = r {
                        let v: Vec<i32> = sut("cells", || r.collect());
                        check!(v == e.b[e.at], "content", "{what}: row {} is {v:?} instead of {:?}", e.at, e.b[e.at]);
                        e.at += 1;
                    }
                }
            }
            5 => {
                note(format!("{what}: iterate over a clone of board {k}"));
                let e = &pool[k];
                let v: B = sut("iterate", || e.s.clone().map(|r| r.collect()).collect());
                check!(v[..] == e.b[e.at..], "content", "{what}: rows {v:?} instead of {:?}", &e.b[e.at..]);
            }
            6 => {
                // a row read to and fro
                let i = d(pool[k].b.len() as u64) as usize;
                let want = pool[k].b[i].clone();
                note(format!("{what}: row {i} of board {k}"));
                let mut r = sut("row", || pool[k].s[i].clone());
                let mut at = 0;
                for _ in 0..d(12) {
                    match d(4) {
                        0 | 1 => {
                            let x = sut("next cell", || r.next());
                            check!(x == want.get(at).copied(), "content", "{what}: cell {at} of row {i} is {x:?} in {want:?}");
                            at = (at + 1).min(want.len());
                        }
                        2 => {
                            let j = d(want.len() as u64) as usize;
                            let x = sut("index", || r[j]);
                            check!(x == want[j], "content", "{what}: [{i}][{j}] is {x} instead of {}", want[j]);
                        }
                        _ => {
                            let v = sut("into_vec", || r.into_vec());
                            check!(v == want, "content", "{what}: into_vec gives {v:?} for {want:?}");
                            let c = sut("len", || r.clone().count());
                            check!(c == want.len() - at, "iteration", "{what}: {c} cells left after {at} of {}", want.len());
                        }
                    }
                }
            }
            7 => functions(&pool[k].s, &pool[k].b, &what),
            _ => {
                // a single row on its own
                let v: Vec<i32> = (0..d(25)).map(|_| range(-3, 16) as i32).collect();
                let r = sut("row", || SafeBoardRow::new(v.clone()));
                let x = sut("into_vec", || r.into_vec());
                check!(x == v, "content", "{what}: a row of {v:?} reads {x:?}");
                let x: Vec<i32> = sut("cells", || r.collect());
                check!(x == v, "content", "{what}: a row of {v:?} iterates as {x:?}");
            }
        }
    }
    for (k, e) in pool.iter().enumerate() {
        read(&e.s, &e.b, d(4), &format!("at the end, board {k}"));
    }
}
/// functions that take either kind; only meaningful on real boards
fn functions(s: &SafeBoard, b: &B, what: &str) {
    let mines: Vec<Vec<bool>> = b.iter().map(|r| r.iter().map(|&x| x == -1).collect()).collect();
    if &numbers(&mines) != b {
        return;
    }
    let got = sut("metrics", || (cal_bbbv(s), cal_op(s), cal_isl(s), cal_cell_nums(s)));
    let want = sut("metrics", || (cal_bbbv(b), cal_op(b), cal_isl(b), cal_cell_nums(b)));
    check!(got == want, "functions", "{what}: metrics {got:?} on the protected board, {want:?} on {}", show(b));
    let (n, m) = (b.len(), b[0].len());
    let mut x = vec![vec![10; m]; n];
    for _ in 0..d(6) {
        x[d(n as u64) as usize][d(m as u64) as usize] = 11;
    }
    let mut y = x.clone();
    for _ in 0..3 {
        let p: Vec<Pos> = (0..1 + d(3)).map(|_| (d(n as u64) as usize, d(m as u64) as usize)).collect();
        sut("refresh_board", || refresh_board(s, &mut x, p.clone()));
        sut("refresh_board", || refresh_board(b, &mut y, p.clone()));
        check!(x == y, "functions", "{what}: opening {p:?} shows {} instead of {} on {}", show(&x), show(&y), show(b));
    }
    stat("function_comparisons", 1);
}
/// one board shared by, and cloned into, several threads
fn shared() {
    let b = content();
    let (n, m) = (b.len(), b[0].len());
    note(format!("shared board {b:?}"));
    sample(format!("shared board {b:?}"));
    sig(hash(&b));
    if n * m >= 4 {
        nontrivial();
    }
    let s = Arc::new(sut("new", || SafeBoard::new(b.clone())));
    let out: Arc<Mutex<Vec<(usize, B)>>> = Arc::new(Mutex::new(vec![]));
    let k = 2 + d(3) as usize;
    for t in 0..k {
        let (s, out) = (s.clone(), out.clone());
        let how = d(4);
        std::thread::spawn(move || {
            let v: B = match how {
                0 => s.into_vec_vec(),
                1 => (0..n).map(|i| row_of(&s[i], m)).collect(),
                2 => (*s).clone().map(|r| r.collect()).collect(),
                _ => SafeBoard::new((*s).clone().into_vec_vec()).into_vec_vec(),
            };
            out.lock().unwrap().push((t, v));
        });
    }
    sut("wait for the readers", sched::drain);
    let out = out.lock().unwrap();
    check!(out.len() == k, "lost", "{} of {k} readers ended", out.len());
    for (t, v) in out.iter() {
        same(&format!("thread {t}"), v, &b);
    }
    stat("threaded_reads", k as u64);
}
/// the same game on both kinds
fn lockstep() {
    let b = board(if chance(1, 10) { 480 } else { 60 });
    note(format!("board {}", show(&b)));
    sample(format!("lockstep game on {}", show(&b)));
    sig(hash(&b));
    let mut md = Model::new(&b);
    let faulty = chance(1, 3);
    let mut pl = Player::draw(faulty);
    pl.far = chance(1, 3);
    let mut x = sut("new", || MinesweeperBoard::<B>::new(b.clone()));
    let mut y = sut("new", || MinesweeperBoard::<SafeBoard>::new(SafeBoard::new(b.clone())));
    let mut after = 0;
    for i in 0..20 + d(80) {
        let (e, dis) = pl.next(&md);
        let r = sut(e.0, || x.step(e.0, e.1));
        let q = sut(e.0, || y.step(e.0, e.1));
        check!(r == q, "game", "event {i} ({} at {:?}): {q:?} on the protected board, {r:?} on the plain one", e.0, e.1);
        check!(x.vis() == y.vis(), "game", "event {i} ({} at {:?}): shown {} instead of {}", e.0, e.1, show(&y.vis()), show(&x.vis()));
        check!(x.ph() == y.ph(), "game", "event {i} ({} at {:?}): phase {:?} instead of {:?}", e.0, e.1, y.ph(), x.ph());
        check!(x.cnt() == y.cnt(), "game", "event {i} ({} at {:?}): counters {:?} instead of {:?}", e.0, e.1, y.cnt(), x.cnt());
        let _ = dis;
        md.vis = x.vis();
        md.ph = x.ph();
        if i >= 8 {
            nontrivial();
        }
        if md.over() {
            after += 1;
            if after > 4 {
                break;
            }
        }
    }
    sig(hash(&md.vis));
    stat("lockstep_games", 1);
}
