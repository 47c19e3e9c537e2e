//! C11: mine laying. C12: no-guess generation. C13: 3BV sampling.
use crate::board::*;
use crate::logic::*;
use ms_toollib::*;
use simrt::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

const RULE_T: &str = "Non-trivial: the board holds a mine and has a second legal arrangement. Distinct: by hash of geometry and boards produced";
pub const P11: Prop = Prop {
    id: "C11",
    quick: 60_000,
    thorough: 900_000,
    chunk: 50,
    f: c11,
    rule: "a run lays boards of one drawn geometry, mine count, start cell and rule under one outcome of the simulated entropy source: legality of each; for small geometries a goodness-of-fit test over all legal arrangements, for large ones over cells and pairs; some runs lay from several threads under a drawn schedule",
    real: "laymine, laymine_op, rand::thread_rng, std::thread",
    stub: "entropy source (getrandom), thread scheduler",
};
pub const P12: Prop = Prop {
    id: "C12",
    quick: 24_000,
    thorough: 400_000,
    chunk: 20,
    f: c12,
    rule: "a run calls one generator (threaded, filtering, adjusting) or the no-guess test on a drawn geometry, density, start and attempt limit, under a drawn schedule with stalls for the threaded one; boards and verdicts are judged by exhaustive logic",
    real: "laymine_solvable_thread, laymine_solvable, laymine_solvable_adjust, is_solvable, mpsc, Mutex, std::thread, rand",
    stub: "thread scheduler, entropy source",
};
pub const P13: Prop = Prop {
    id: "C13",
    quick: 900,
    thorough: 60_000,
    chunk: 5,
    f: c13,
    rule: "a run draws a sample size and start cell, samples under a drawn schedule of the 16 workers, checks the total, the possible range, independence of the workers and the distribution against boards drawn by the harness, and compares the fast expert 3BV with the definition",
    real: "sample_3BVs_exp, cal_bbbv_exp, rand::thread_rng, std::thread",
    stub: "thread scheduler, entropy source",
};
fn legal(b: &B, h: usize, w: usize, k: usize, s: Pos, op: bool, what: &str) {
    check!(b.len() == h && b.iter().all(|r| r.len() == w), "shape", "{what} returned {}x{}", b.len(), b.first().map_or(0, |r| r.len()));
    let mines: Vec<Vec<bool>> = b.iter().map(|r| r.iter().map(|&x| x == -1).collect()).collect();
    check!(mines_of(b) == k, "mines", "{what} laid {} mines: {}", mines_of(b), show(b));
    check!(&numbers(&mines) == b, "numbers", "{what} returned wrong numbers: {}", show(b));
    check!(b[s.0][s.1] != -1, "start", "{what} laid a mine on the start cell: {}", show(b));
    if op {
        check!(b[s.0][s.1] == 0, "opening", "{what} laid a mine next to the start cell: {}", show(b));
    }
}
fn shape() -> (usize, usize) {
    let (h, w) = match pick(&[4, 3, 2, 2, 1]) {
        0 => (range(1, 4) as usize, range(1, 5) as usize),
        1 => (range(1, 9) as usize, range(1, 9) as usize),
        2 => (1, range(2, 40) as usize),
        3 => (range(2, 40) as usize, 1),
        _ => [(8, 8), (16, 16), (16, 30), (30, 16), (24, 30)][d(5) as usize],
    };
    if h * w < 2 {
        (1, 2)
    } else {
        (h, w)
    }
}
fn start_in(h: usize, w: usize) -> Pos {
    match d(4) {
        0 => (0, w - 1),
        1 => (h - 1, 0),
        _ => (d(h as u64) as usize, d(w as u64) as usize),
    }
}
fn lay(h: usize, w: usize, k: usize, s: Pos, op: bool) -> B {
    if op {
        laymine_op(h, w, k, s.0, s.1)
    } else {
        laymine(h, w, k, s.0, s.1)
    }
}
fn c11() {
    let (h, w) = shape();
    let s = start_in(h, w);
    let op = chance(1, 2);
    let prot = if op { near(s, h, w).len() + 1 } else { 1 };
    let room = h * w - prot;
    let k = match d(5) {
        0 => room,
        1 => 0,
        2 => room.min(1),
        _ => d(room as u64 + 1) as usize,
    };
    let what = format!("{}({h}, {w}, {k}, {}, {})", if op { "laymine_op" } else { "laymine" }, s.0, s.1);
    note(what.clone());
    sample(what.clone());
    sig(((h * 64 + w) * 64 + s.0) as u64 * 64 + s.1 as u64);
    sig(k as u64);
    if k > 0 && k < room {
        nontrivial();
    }
    if chance(1, 4) {
        // several threads, each with its own generator
        let out: Arc<Mutex<Vec<(usize, B)>>> = Arc::new(Mutex::new(vec![]));
        let n = 2 + d(4) as usize;
        let each = 1 + d(3) as usize;
        for t in 0..n {
            let out = out.clone();
            std::thread::spawn(move || {
                for _ in 0..each {
                    let b = lay(h, w, k, s, op);
                    out.lock().unwrap().push((t, b));
                }
            });
        }
        sut("wait for the generators", sched::drain);
        let out = out.lock().unwrap();
        check!(out.len() == n * each, "lost", "{what}: {} of {} boards were produced", out.len(), n * each);
        for (_, b) in out.iter() {
            legal(b, h, w, k, s, op, &what);
            sig(hash(b));
        }
        // with this many arrangements two equal boards are not a coincidence
        if binom(room, k) > 1e30 {
            for i in 0..out.len() {
                for j in 0..i {
                    check!(out[i].1 != out[j].1, "copies", "{what}: threads {} and {} produced the same board", out[j].0, out[i].0);
                }
            }
            stat("independence_tests", 1);
        }
        return;
    }
    let ways = binom(room, k);
    if ways <= 60.0 && chance(1, 3) {
        // every arrangement equally likely
        let n = (ways as usize * 40).max(400);
        let mut seen: BTreeMap<u64, (usize, B)> = BTreeMap::new();
        sut(&what, || {
            for _ in 0..n {
                let b = lay(h, w, k, s, op);
                let e = seen.entry(hash(&b)).or_insert_with(|| (0, b));
                e.0 += 1;
            }
        });
        for (_, b) in seen.values() {
            legal(b, h, w, k, s, op, &what);
        }
        let m = n as f64 / ways;
        let missing = ways - seen.len() as f64;
        let chi: f64 = seen.values().map(|x| (x.0 as f64 - m).powi(2) / m).sum::<f64>() + missing * m;
        let df = ways - 1.0;
        // far beyond any quantile a correct generator reaches
        let lim = df + 9.0 * (2.0 * df).sqrt() + 60.0;
        check!(chi <= lim, "bias", "{what}: {n} boards over {ways} arrangements, {missing} never appear, chi-square {chi:.1} exceeds {lim:.1}");
        stat("arrangement_tests", 1);
        for k in seen.keys().take(3) {
            sig(*k);
        }
        return;
    }
    let n = if h * w > 100 { 60 } else { 150 };
    let n = if chance(1, 3) { n } else { 3 };
    let mut hits = vec![vec![0usize; w]; h];
    let mut pair = [0usize; 2];
    for t in 0..n {
        let b = sut(&what, || lay(h, w, k, s, op));
        legal(&b, h, w, k, s, op, &what);
        if t < 2 {
            sig(hash(&b));
        }
        for i in 0..h {
            for j in 0..w {
                if b[i][j] == -1 {
                    hits[i][j] += 1;
                    pair[0] += (j + 1 < w && b[i][j + 1] == -1) as usize;
                    pair[1] += (i + 1 < h && b[i + 1][j] == -1) as usize;
                }
            }
        }
    }
    if n < 10 || k == 0 || k == room {
        return;
    }
    let p = k as f64 / room as f64;
    let sd = (n as f64 * p * (1.0 - p)).sqrt();
    for i in 0..h {
        for j in 0..w {
            if (i, j) == s || (op && near(s, h, w).contains(&(i, j))) {
                continue;
            }
            let z = (hits[i][j] as f64 - n as f64 * p).abs();
            check!(z <= 8.0 * sd + 8.0, "bias", "{what}: cell ({i},{j}) is a mine in {} of {n} boards, expected {:.1}", hits[i][j], n as f64 * p);
        }
    }
    let pp = p * (k as f64 - 1.0) / (room as f64 - 1.0).max(1.0);
    let free = |i: usize, j: usize| (i, j) != s && !(op && near(s, h, w).contains(&(i, j)));
    let mut np = [0usize; 2];
    for i in 0..h {
        for j in 0..w {
            np[0] += (j + 1 < w && free(i, j) && free(i, j + 1)) as usize;
            np[1] += (i + 1 < h && free(i, j) && free(i + 1, j)) as usize;
        }
    }
    for x in 0..2 {
        let e = n as f64 * np[x] as f64 * pp;
        // pairs share cells, so the spread is a few times that of independent ones
        let lim = 12.0 * 3.0 * e.sqrt() + 30.0;
        check!((pair[x] as f64 - e).abs() <= lim, "bias", "{what}: {} neighbouring mine pairs in {n} boards, expected {e:.0} +- {lim:.0}", pair[x]);
    }
    stat("marginal_tests", 1);
}
// ------------------------------------------------------------------ C12
fn c12() {
    match pick(&[5, 2, 2, 3]) {
        0 => threaded(),
        1 => filtering(),
        2 => adjusting(),
        _ => test_only(),
    }
}
/// geometry, mines, start of a no-guess request
fn request(max: i64, dense: bool) -> (usize, usize, usize, Pos) {
    let (h, w) = match pick(&[4, 3, 1, 1]) {
        0 => (range(3, 6.min(max)) as usize, range(3, 6.min(max)) as usize),
        1 => (range(5, max) as usize, range(5, max) as usize),
        2 => (range(1, 2) as usize, range(3, max) as usize),
        _ => (range(3, max) as usize, range(1, 2) as usize),
    };
    let s = start_in(h, w);
    let room = h * w - near(s, h, w).len() - 1;
    let k = match pick(&[4, 2, 1]) {
        0 => room * range(5, if dense { 45 } else { 25 }) as usize / 100,
        1 => d(4) as usize,
        _ => room,
    };
    (h, w, k.min(room), s)
}
fn judge(b: &B, ok: bool, h: usize, w: usize, k: usize, s: Pos, what: &str) {
    legal(b, h, w, k, s, true, what);
    sig(hash(b));
    sig(ok as u64);
    stat(if ok { "success_reported" } else { "failure_reported" }, 1);
    if ok {
        let (good, big) = quiet(|| closure(b, s));
        let _ = big;
        check!(good, "not-solvable", "{what} reported success for {}, which logic alone does not clear", show(b));
    }
}
fn threaded() {
    let (h, w, k, s) = request(8, false);
    let max = [0usize, 1, 7, 8, 20, 60, 400, 5][d(8) as usize];
    let what = format!("laymine_solvable_thread({h}, {w}, {k}, {}, {}, {max})", s.0, s.1);
    note(what.clone());
    sample(what.clone());
    nontrivial();
    let before = threads_spawned();
    let (b, ok) = sut_budget(&what, 4_000_000_000, || laymine_solvable_thread(h, w, k, s.0, s.1, max));
    check!(threads_spawned() > before, "threads", "{what} used no thread");
    check!(sched::live_others() == 0, "leak", "{what} left {} threads running", sched::live_others());
    let p = clear_thread_panics();
    check!(p.is_empty(), "panic", "{what}: a worker panicked: {}", p[0]);
    judge(&b, ok, h, w, k, s, &what);
    if max == 0 {
        check!(!ok, "verdict", "{what} reported success without an attempt");
        return;
    }
    // how likely is one attempt to succeed?
    let n = 40;
    let good = quiet(|| (0..n).filter(|_| closure(&random_op(h, w, k, s), s).0).count());
    if good == n {
        if certain(h, w, k, s) || max >= 60 {
            check!(ok, "verdict", "{what} reported failure although every attempt succeeds");
            stat("certain_successes", 1);
        }
    } else if good * 2 >= n && max >= 400 {
        // less than 2^-100 for a generator that loses nothing
        check!(ok, "verdict", "{what} reported failure although at least half of the attempts succeed");
        stat("near_certain_successes", 1);
    }
}
fn random_op(h: usize, w: usize, k: usize, s: Pos) -> B {
    let prot = near(s, h, w);
    let mut free: Vec<Pos> = (0..h * w).map(|i| (i / w, i % w)).filter(|p| *p != s && !prot.contains(p)).collect();
    let mut mines = vec![vec![false; w]; h];
    for i in 0..k {
        let j = i + d((free.len() - i) as u64) as usize;
        free.swap(i, j);
        mines[free[i].0][free[i].1] = true;
    }
    numbers(&mines)
}
/// every legal board can be cleared by logic
fn certain(h: usize, w: usize, k: usize, s: Pos) -> bool {
    let prot = near(s, h, w);
    let free: Vec<Pos> = (0..h * w).map(|i| (i / w, i % w)).filter(|p| *p != s && !prot.contains(p)).collect();
    if k == 0 || k == free.len() {
        return true;
    }
    let with = |c: &[Pos]| {
        let mut m = vec![vec![false; w]; h];
        for p in c {
            m[p.0][p.1] = true;
        }
        closure(&numbers(&m), s).0
    };
    match k {
        1 => quiet(|| free.iter().all(|&p| with(&[p]))),
        2 if free.len() <= 12 => quiet(|| (0..free.len()).all(|i| (0..i).all(|j| with(&[free[i], free[j]])))),
        _ => false,
    }
}
/// filtering favours no board: every arrangement that can be cleared is equally likely
fn fair() {
    let (h, w) = (range(2, 6) as usize, range(3, 6) as usize);
    let s = start_in(h, w);
    let prot = near(s, h, w);
    let free: Vec<Pos> = (0..h * w).map(|i| (i / w, i % w)).filter(|p| *p != s && !prot.contains(p)).collect();
    let k = 1 + d(3) as usize;
    let ways = binom(free.len(), k);
    if k > free.len() || !(2.0..=80.0).contains(&ways) {
        return filtering_one();
    }
    let mut all: BTreeMap<u64, usize> = BTreeMap::new();
    let mut c: Vec<usize> = (0..k).collect();
    quiet(|| loop {
        let mut m = vec![vec![false; w]; h];
        for &i in &c {
            m[free[i].0][free[i].1] = true;
        }
        let b = numbers(&m);
        if closure(&b, s).0 {
            all.insert(hash(&b), 0);
        }
        let Some(i) = (0..k).rev().find(|&i| c[i] < free.len() - k + i) else { break };
        c[i] += 1;
        for j in i + 1..k {
            c[j] = c[j - 1] + 1;
        }
    });
    let good = all.len() as f64;
    let what = format!("laymine_solvable({h}, {w}, {k}, {}, {}, ..)", s.0, s.1);
    note(what.clone());
    sample(what.clone());
    if good < 2.0 || good / ways < 0.05 {
        return;
    }
    nontrivial();
    let n = all.len() * 30;
    let max = 1 + d(2) as usize * 1000;
    let mut ok = 0.0;
    let mut lost = 0.0;
    for _ in 0..n {
        let (b, r) = sut(&what, || laymine_solvable(h, w, k, s.0, s.1, max));
        legal(&b, h, w, k, s, true, &what);
        if !r {
            lost += 1.0;
            continue;
        }
        match all.get_mut(&hash(&b)) {
            Some(x) => *x += 1,
            None => fail("not-solvable", format!("{what} reported success for {}, which logic alone does not clear", show(&b))),
        }
        ok += 1.0;
    }
    // far beyond any quantile a correct generator reaches
    if max > 1 {
        check!(lost == 0.0, "verdict", "{what} reported failure {lost} times in {n} although one attempt in {:.1} succeeds", ways / good);
    } else {
        let (m, v) = (n as f64 * good / ways, n as f64 * good / ways * (1.0 - good / ways));
        check!((ok - m).abs() <= 9.0 * v.sqrt() + 3.0, "fair", "{what}: {ok} of {n} attempts succeeded instead of about {m:.0}");
    }
    let m: f64 = ok / good;
    if m >= 10.0 {
        let chi: f64 = all.values().map(|&x| (x as f64 - m).powi(2) / m).sum();
        let df = good - 1.0;
        check!(chi <= df + 9.0 * (2.0 * df).sqrt() + 60.0, "fair", "{what}: the {good} boards that can be cleared came {:?} times", all.values().collect::<Vec<_>>());
        stat("fairness_tests", 1);
    }
}
fn filtering() {
    if chance(1, 4) {
        fair()
    } else {
        filtering_one()
    }
}
fn filtering_one() {
    let (h, w, k, s) = request(9, false);
    let max = [0usize, 1, 5, 30, 200][d(5) as usize];
    let what = format!("laymine_solvable({h}, {w}, {k}, {}, {}, {max})", s.0, s.1);
    note(what.clone());
    sample(what.clone());
    nontrivial();
    let (b, ok) = sut_budget(&what, 4_000_000_000, || laymine_solvable(h, w, k, s.0, s.1, max));
    judge(&b, ok, h, w, k, s, &what);
    if max == 0 {
        check!(!ok, "verdict", "{what} reported success without an attempt");
    } else if certain(h, w, k, s) {
        check!(ok, "verdict", "{what} reported failure although every attempt succeeds");
    }
}
fn adjusting() {
    let (h, w, mut k, s) = request(9, true);
    let prot = near(s, h, w).len() + 1;
    if chance(1, 8) {
        k = h * w - 1 - d(prot as u64) as usize;
    }
    let what = format!("laymine_solvable_adjust({h}, {w}, {k}, {}, {})", s.0, s.1);
    note(what.clone());
    sample(what.clone());
    let Some((b, ok)) = try_budget(&what, 40_000_000, move || laymine_solvable_adjust(h, w, k, s.0, s.1)) else {
        // no time limit is promised for this one
        stat("adjust_given_up", 1);
        return;
    };
    nontrivial();
    let crowded = k + prot > h * w;
    if crowded {
        legal(&b, h, w, k, s, false, &what);
        check!(ok == (h * w == k + 1), "verdict", "{what} reported {ok} for {}", show(&b));
        return;
    }
    judge(&b, ok, h, w, k, s, &what);
    if k + prot == h * w {
        check!(ok, "verdict", "{what} reported failure although the first click wins");
    }
}
/// the look for dead structures: true only of boards no opening clears, whichever way the board is turned
fn structures() {
    let (h, w) = (range(5, 8) as usize, range(5, 8) as usize);
    let mut m = vec![vec![false; w]; h];
    for _ in 0..d(6) {
        m[d(h as u64) as usize][d(w as u64) as usize] = true;
    }
    // mines drawn densely in a few small windows at the border
    for _ in 0..1 + d(2) {
        let t: &[&str] = [
            &["XX", "?.", "?.", "XX"][..],
            &["..X", "??X", "..X"][..],
            &["XX", ".X", "XX"][..],
            &["..X", "??.", "??.", "..X"][..],
            &["X..X", ".??.", ".??.", "X..X"][..],
            &["XXX", ".?.", ".?.", "XXX"][..],
            &["XXX", "X.X", "XXX"][..],
            &["??X", "..X"][..],
            &[".X", "XX"][..],
            &[".?.", "??.", "..X"][..],
            &["????", "????", "????", "????"][..],
        ][d(11) as usize];
        let mut t: Vec<Vec<bool>> = t.iter().map(|x| x.bytes().map(|y| y == b'X' || y == b'?' && chance(1, 2)).collect()).collect();
        if chance(1, 2) {
            // one cell off
            let (i, j) = (d(t.len() as u64) as usize, d(t[0].len() as u64) as usize);
            t[i][j] = !t[i][j];
        }
        if chance(1, 2) {
            t.reverse();
        }
        if chance(1, 2) {
            t.iter_mut().for_each(|r| r.reverse());
        }
        if chance(1, 2) {
            t = (0..t[0].len()).map(|j| t.iter().map(|r| r[j]).collect()).collect();
        }
        let (a, z) = (t.len(), t[0].len());
        let (r, c) = (if chance(1, 3) { d((h - a) as u64 + 1) as usize } else { [0, h - a][d(2) as usize] }, if chance(1, 3) { d((w - z) as u64 + 1) as usize } else { [0, w - z][d(2) as usize] });
        for i in 0..a {
            for j in 0..z {
                m[r + i][c + j] = t[i][j];
            }
        }
    }
    for _ in 0..d(3) {
        let p = (d(h as u64) as usize, d(w as u64) as usize);
        m[p.0][p.1] = !m[p.0][p.1];
    }
    let b = numbers(&m);
    let what = format!("unsolvable_structure({})", show(&b));
    note(what.clone());
    sample(what.clone());
    sig(hash(&b));
    nontrivial();
    let r = sut(&what, || unsolvable_structure(&b));
    stat(if r { "dead_structures" } else { "no_dead_structure" }, 1);
    let mut t = b.clone();
    for i in 0..8 {
        t = if i == 4 { t.iter().map(|r| r.iter().rev().copied().collect()).collect() } else { (0..t[0].len()).map(|j| t.iter().rev().map(|r| r[j]).collect()).collect() };
        let x = sut(&what, || unsolvable_structure(&t));
        check!(x == r, "orientation", "{what} says {r}, but {x} when the board is turned to {}", show(&t));
    }
    if r {
        let mut done: Vec<Pos> = vec![];
        for i in 0..h * w {
            let s = (i / w, i % w);
            if b[s.0][s.1] == 0 && !done.contains(&s) {
                let mut vis = vec![vec![10; w]; h];
                open(&b, &mut vis, &[s]);
                done.extend((0..h * w).map(|i| (i / w, i % w)).filter(|p| vis[p.0][p.1] == 0));
                let (good, big) = quiet(|| closure(&b, s));
                check!(!good || big > 55, "structure", "{what} says the board is dead, but logic alone clears it from {s:?}");
            }
        }
    }
}
fn test_only() {
    if chance(1, 3) {
        return structures();
    }
    let (h, w, k, s) = request(10, true);
    let b = if chance(1, 6) { hard(h, w, k, s) } else { random_op(h, w, k, s) };
    let what = format!("is_solvable({}, {}, {})", show(&b), s.0, s.1);
    note(what.clone());
    sample(what.clone());
    sig(hash(&b));
    nontrivial();
    let r = sut(&what, || is_solvable(&b, s.0, s.1));
    let (good, big) = quiet(|| closure(&b, s));
    if big > 55 {
        stat("front_too_large", 1);
        return;
    }
    stat(if good { "solvable" } else { "not_solvable" }, 1);
    check!(r == good, "no-guess-test", "{what} says {r}");
}
/// a board close to the border between solvable and not: mines moved until the verdict flips
fn hard(h: usize, w: usize, k: usize, s: Pos) -> B {
    let mut b = random_op(h, w, k, s);
    let want = quiet(|| closure(&b, s).0);
    let prot = near(s, h, w);
    for _ in 0..6 {
        let mut m: Vec<Vec<bool>> = b.iter().map(|r| r.iter().map(|&x| x == -1).collect()).collect();
        let (a, z) = ((d(h as u64) as usize, d(w as u64) as usize), (d(h as u64) as usize, d(w as u64) as usize));
        if z == s || a == s || prot.contains(&z) || prot.contains(&a) {
            continue;
        }
        let t = m[a.0][a.1];
        m[a.0][a.1] = m[z.0][z.1];
        m[z.0][z.1] = t;
        b = numbers(&m);
        if quiet(|| closure(&b, s).0) != want {
            break;
        }
    }
    b
}
// ------------------------------------------------------------------ C13
fn c13() {
    let s = (d(16) as usize, d(30) as usize);
    let big = chance(1, 30);
    let n = if big { 16 * 2000 } else { [0usize, 1, 15, 16, 17, 33, 64, 160][d(8) as usize] };
    let what = format!("sample_3BVs_exp({}, {}, {n})", s.0, s.1);
    note(what.clone());
    sample(what.clone());
    if n >= 16 {
        nontrivial();
    }
    let r = sut_budget(&what, 4_000_000_000, || sample_3BVs_exp(s.0, s.1, n));
    check!(sched::live_others() == 0, "leak", "{what} left {} threads running", sched::live_others());
    let total: usize = r.iter().sum();
    check!(total == 16 * (n / 16), "lost", "{what} returned {total} samples");
    for (i, &c) in r.iter().enumerate() {
        if c > 0 {
            sig((i * 1000 + c) as u64);
            check!((40..=330).contains(&i), "range", "{what} returned a 3BV of {i}");
        }
    }
    if n < 64 {
        return;
    }
    // workers that repeat each other produce only multiples of 16
    check!(r.iter().any(|c| c % 16 != 0), "copies", "{what}: every count is a multiple of 16");
    let m: f64 = r.iter().enumerate().map(|(i, &c)| (i * c) as f64).sum::<f64>() / total as f64;
    let v: f64 = r.iter().enumerate().map(|(i, &c)| (i as f64 - m).powi(2) * c as f64).sum::<f64>() / total as f64;
    // boards drawn here with the start cell safe
    let k = if big { 20_000 } else { 300 };
    let mut own = vec![0usize; 400];
    let seed = d(u64::MAX >> 1);
    quiet(|| {
        let mut g = Own(seed | 1);
        for _ in 0..k {
            own[bbbv(&g.board(s)).min(399)] += 1;
        }
    });
    let a: f64 = own.iter().enumerate().map(|(i, &c)| (i * c) as f64).sum::<f64>() / k as f64;
    let var: f64 = own.iter().enumerate().map(|(i, &c)| (i as f64 - a).powi(2) * c as f64).sum::<f64>() / k as f64;
    let sd = (var.max(100.0) / k as f64 + var.max(100.0) / total as f64).sqrt();
    let lim = if big { 6.5 } else { 9.0 };
    check!((m - a).abs() <= lim * sd, "bias", "{what}: mean 3BV {m:.2}, boards drawn here have {a:.2} +- {sd:.2}");
    if big {
        // the whole distribution, and its spread
        let (mut x, mut y, mut gap) = (0.0, 0.0, 0f64);
        for i in 0..382 {
            x += r[i] as f64 / total as f64;
            y += own[i] as f64 / k as f64;
            gap = gap.max((x - y).abs());
        }
        let lim = 4.7 * (1.0 / k as f64 + 1.0 / total as f64).sqrt();
        check!(gap <= lim, "bias", "{what}: the distribution of 3BV is off by {gap:.4} (limit {lim:.4})");
        check!((v / var).ln().abs() < 0.12, "bias", "{what}: variance {v:.1}, boards drawn here have {var:.1}");
        stat("large_distribution_tests", 1);
    } else {
        check!(v < var * 6.0 && v > var / 6.0, "bias", "{what}: variance {v:.1}, boards drawn here have {var:.1}");
    }
    stat("distribution_tests", 1);
}
struct Own(u64);
impl Own {
    fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^= z >> 31;
        ((z as u128 * n as u128) >> 64) as usize
    }
    fn board(&mut self, s: Pos) -> B {
        let mut mines = vec![vec![false; 30]; 16];
        let mut left = 99;
        while left > 0 {
            let (i, j) = (self.below(16), self.below(30));
            if (i, j) != s && !mines[i][j] {
                mines[i][j] = true;
                left -= 1;
            }
        }
        numbers(&mines)
    }
}
