//! C29: the equation systems the engines work on.
use crate::board::*;
use crate::c15::Game;
use ms_toollib::{cal_table_minenum_recursion, combine, enuOneStep, refresh_matrix, refresh_matrixs, refresh_matrixses};
use simrt::*;
use std::collections::{BTreeMap, BTreeSet};

pub const P: Prop = Prop {
    id: "C29",
    quick: 30_000,
    thorough: 1_500_000,
    chunk: 100,
    f: run,
    rule: "a run is one game played through the real board with right and wrong flags; at several positions, with a drawn part of the mines and safe cells marked, the systems of equations built from the position are compared with the visible numbers, their splitting with the regions they touch, and the tables of arrangements of their blocks with plain enumeration. Non-trivial: a position with two or more equations that share a cell. Distinct: by hash of positions",
    real: "MinesweeperBoard (to reach the positions), refresh_matrix, refresh_matrixs, refresh_matrixses, combine, cal_table_minenum_recursion, enuOneStep",
    stub: "player",
};
/// covered cells around a number, and the mines among them
type Eq = (Vec<Pos>, i32);
fn equations(v: &B) -> Vec<Eq> {
    let (h, w) = (v.len(), v[0].len());
    let mut e = vec![];
    for r in 0..h {
        for c in 0..w {
            if v[r][c] > 8 {
                continue;
            }
            let n = near((r, c), h, w);
            let mut x: Vec<Pos> = n.iter().filter(|p| v[p.0][p.1] == 10).copied().collect();
            if !x.is_empty() {
                x.sort();
                e.push((x, v[r][c] - n.iter().filter(|p| v[p.0][p.1] == 11).count() as i32));
            }
        }
    }
    e.sort();
    e
}
fn read(what: &str, a: &[Vec<i32>], x: &[Pos], b: &[i32], v: &B) -> Vec<Eq> {
    check!(a.len() == b.len() && a.iter().all(|r| r.len() == x.len()), "shape", "{what}: {} rows, {} cells, {} numbers at {}", a.len(), x.len(), b.len(), show(v));
    let s: BTreeSet<Pos> = x.iter().copied().collect();
    check!(s.len() == x.len(), "cells", "{what} lists a cell twice: {x:?} at {}", show(v));
    let mut e: Vec<Eq> = vec![];
    for (r, n) in a.iter().zip(b) {
        check!(r.iter().all(|y| *y == 0 || *y == 1), "coefficient", "{what} has a row {r:?} at {}", show(v));
        let mut c: Vec<Pos> = x.iter().zip(r).filter(|y| *y.1 == 1).map(|y| *y.0).collect();
        c.sort();
        e.push((c, *n));
    }
    let used: BTreeSet<Pos> = e.iter().flat_map(|x| x.0.iter().copied()).collect();
    check!(used == s, "cells", "{what} lists cells {:?} that no number touches at {}", s.difference(&used).collect::<Vec<_>>(), show(v));
    e.sort();
    e
}
fn same(what: &str, got: &[Eq], want: &[Eq], v: &B) {
    if got != want {
        let x: Vec<_> = got.iter().filter(|e| !want.contains(e)).take(3).collect();
        let y: Vec<_> = want.iter().filter(|e| !got.contains(e)).take(3).collect();
        fail("equations", format!("{what} has {} equations instead of {}; wrong {x:?}, missing {y:?} at {}", got.len(), want.len(), show(v)));
    }
}
/// cells that hang together through equations
fn parts(e: &[Eq]) -> BTreeSet<Vec<Pos>> {
    let mut p: Vec<BTreeSet<Pos>> = vec![];
    for (c, _) in e {
        let mut n: BTreeSet<Pos> = c.iter().copied().collect();
        p.retain(|q| {
            let hit = c.iter().any(|x| q.contains(x));
            if hit {
                n.extend(q.iter().copied());
            }
            !hit
        });
        p.push(n);
    }
    p.into_iter().map(|s| s.into_iter().collect()).collect()
}
/// number of the region of a covered cell: covered cells are linked by touching or by a common number
fn regions(v: &B, e: &[Eq]) -> BTreeMap<Pos, usize> {
    let (h, w) = (v.len(), v[0].len());
    let mut id = BTreeMap::new();
    for i in 0..h * w {
        let p = (i / w, i % w);
        if v[p.0][p.1] != 10 || id.contains_key(&p) {
            continue;
        }
        let mut todo = vec![p];
        while let Some(q) = todo.pop() {
            if id.insert(q, i).is_none() {
                todo.extend(near(q, h, w).into_iter().filter(|x| v[x.0][x.1] == 10));
            }
        }
    }
    for (c, _) in e {
        let to = id[&c[0]];
        for p in c {
            let from = id[p];
            for x in id.values_mut().filter(|x| **x == from) {
                *x = to;
            }
        }
    }
    id
}
/// arrangements by number of mines: how many, and in how many each cell is a mine
fn count(e: &[Eq], x: &[Pos]) -> BTreeMap<usize, (usize, Vec<usize>)> {
    let rows: Vec<(Vec<usize>, i32)> = e.iter().map(|(c, n)| (c.iter().map(|p| x.iter().position(|q| q == p).unwrap()).collect(), *n)).collect();
    let mut out = BTreeMap::new();
    let mut m = vec![false; x.len()];
    fn go(i: usize, m: &mut Vec<bool>, rows: &[(Vec<usize>, i32)], out: &mut BTreeMap<usize, (usize, Vec<usize>)>) {
        for (c, n) in rows {
            let set = c.iter().filter(|&&j| j < i && m[j]).count() as i32;
            let left = c.iter().filter(|&&j| j >= i).count() as i32;
            if set > *n || set + left < *n {
                return;
            }
        }
        if i == m.len() {
            let k = m.iter().filter(|x| **x).count();
            let e = out.entry(k).or_insert_with(|| (0, vec![0; m.len()]));
            e.0 += 1;
            for j in 0..m.len() {
                e.1[j] += m[j] as usize;
            }
            return;
        }
        for y in [false, true] {
            m[i] = y;
            go(i + 1, m, rows, out);
        }
        m[i] = false;
    }
    go(0, &mut m, &rows, &mut out);
    out
}
fn block(a: &Vec<Vec<i32>>, x: &Vec<Pos>, b: &Vec<i32>, v: &B) {
    let (sa, sx, rel) = sut("combine", || combine(a, x));
    // cells that no equation tells apart are one
    let col = |j: usize| a.iter().map(|r| r[j]).collect::<Vec<_>>();
    let mut want: BTreeMap<Vec<i32>, Vec<usize>> = BTreeMap::new();
    for j in 0..x.len() {
        want.entry(col(j)).or_default().push(j);
    }
    let mut w: Vec<Vec<usize>> = want.into_values().collect();
    let mut g: Vec<Vec<usize>> = rel.iter().map(|c| { let mut c = c.clone(); c.sort(); c }).collect();
    w.sort();
    g.sort();
    check!(w == g, "combine", "combine joins {rel:?} instead of {w:?} of {x:?} at {}", show(v));
    check!(sx.len() == rel.len() && sx.iter().zip(&rel).all(|(p, c)| c.iter().any(|&j| x[j] == *p)), "combine", "combine names {sx:?} for {rel:?} of {x:?} at {}", show(v));
    for (r, row) in sa.iter().enumerate() {
        let want: Vec<i32> = rel.iter().map(|c| c.iter().map(|&j| a[r][j]).sum()).collect();
        check!(row == &want, "combine", "combine makes row {r} {row:?} instead of {want:?} at {}", show(v));
    }
    check!(sa.len() == a.len(), "combine", "combine returns {} rows of {} at {}", sa.len(), a.len(), show(v));
    if x.len() > 17 {
        stat("blocks_not_enumerated", 1);
        return;
    }
    let e = quiet(|| read("block", a, x, b, v));
    let want = quiet(|| count(&e, x));
    let r = sut("cal_table_minenum_recursion", || cal_table_minenum_recursion(&sa, &sx, b, &rel));
    let Ok((t, per)) = r else {
        fail("table", format!("cal_table_minenum_recursion refuses {e:?}: {r:?} at {}", show(v)));
    };
    stat("blocks_enumerated", 1);
    check!(t[0].len() == t[1].len() && per.len() == t[0].len(), "table", "cal_table_minenum_recursion returns {t:?} with {} rows at {}", per.len(), show(v));
    let mut seen = 0;
    for i in 0..t[0].len() {
        let none = (0, vec![0; x.len()]);
        let (n, c) = want.get(&t[0][i]).unwrap_or(&none);
        seen += (*n > 0) as usize;
        check!(t[1][i] == *n, "table", "{} arrangements with {} mines of {e:?} instead of {n} at {}", t[1][i], t[0][i], show(v));
        let w: Vec<usize> = rel.iter().map(|r| c[r[0]]).collect();
        check!(per[i] == w, "table", "with {} mines the cells {sx:?} of {e:?} are mines in {:?} arrangements instead of {w:?} at {}", t[0][i], per[i], show(v));
    }
    if want.values().map(|x| x.0).sum::<usize>() <= 300 && chance(1, 4) {
        one_by_one(a, b, &want, v);
    }
    check!(seen == want.len(), "table", "{t:?} leaves out numbers of mines of {:?} at {}", want.keys().collect::<Vec<_>>(), show(v));
    check!(t[0].windows(2).all(|x| x[0] < x[1]), "table", "the numbers of mines are {:?} at {}", t[0], show(v));
    check!(t[1].first() != Some(&0) && t[1].last() != Some(&0), "table", "the table {t:?} begins or ends with an impossible number of mines at {}", show(v));
}
/// arrangements laid out one equation after another, in any order of the equations
fn one_by_one(a: &[Vec<i32>], b: &[i32], want: &BTreeMap<usize, (usize, Vec<usize>)>, v: &B) {
    let mut order: Vec<usize> = (0..a.len()).collect();
    for i in 0..order.len() {
        let j = i + d((order.len() - i) as u64) as usize;
        order.swap(i, j);
    }
    let n = a[0].len();
    let mut t = vec![vec![2usize; n]];
    let mut used: Vec<usize> = vec![];
    for (k, &i) in order.iter().enumerate() {
        let ids: Vec<usize> = (0..n).filter(|&j| a[i][j] == 1).collect();
        let (old, id2) = (t.clone(), ids.clone());
        t = sut("enuOneStep", || enuOneStep(t, id2, b[i]));
        used.push(i);
        let set: BTreeSet<&Vec<usize>> = t.iter().collect();
        check!(set.len() == t.len(), "layout", "enuOneStep lists an arrangement twice: equation {ids:?} = {} on {old:?} gives {t:?} at {}", b[i], show(v));
        for r in &t {
            check!(r.len() == n && r.iter().all(|x| *x <= 2), "layout", "enuOneStep makes a row {r:?} at {}", show(v));
            for &u in &used {
                let c: Vec<usize> = (0..n).filter(|&j| a[u][j] == 1).map(|j| r[j]).collect();
                check!(!c.contains(&2) && c.iter().sum::<usize>() as i32 == b[u], "layout", "enuOneStep: row {r:?} breaks equation {u} ({:?} = {}) at {}", a[u], b[u], show(v));
            }
            let known: Vec<usize> = (0..n).filter(|&j| used.iter().any(|&u| a[u][j] == 1)).collect();
            check!((0..n).all(|j| known.contains(&j) == (r[j] != 2)), "layout", "enuOneStep: row {r:?} settles other cells than {known:?} at {}", show(v));
        }
        if t.is_empty() || t.len() > 600 && k + 1 < order.len() {
            check!(!t.is_empty(), "layout", "enuOneStep leaves no arrangement after equation {ids:?} = {} on {old:?} at {}", b[i], show(v));
            return;
        }
    }
    let total: usize = want.values().map(|x| x.0).sum();
    check!(t.len() == total, "layout", "enuOneStep lays out {} arrangements instead of {total} at {}", t.len(), show(v));
    stat("blocks_laid_out", 1);
}
fn look(v: &B) {
    note(format!("position {}", show(v)));
    sig(hash(v));
    let want = equations(v);
    if want.iter().enumerate().any(|(i, a)| want[..i].iter().any(|b| a.0.iter().any(|p| b.0.contains(p)))) {
        nontrivial();
    }
    let (a, x, b) = sut("refresh_matrix", || refresh_matrix(v));
    same("refresh_matrix", &read("refresh_matrix", &a, &x, &b, v), &want, v);
    let (a, x, b, inner, marked) = sut("refresh_matrixs", || refresh_matrixs(v));
    check!(a.len() == x.len() && b.len() == x.len(), "shape", "refresh_matrixs returns {} matrices, {} cell lists, {} numbers at {}", a.len(), x.len(), b.len(), show(v));
    let mut all = vec![];
    let mut cells = BTreeSet::new();
    for i in 0..a.len() {
        let e = read("refresh_matrixs", &a[i], &x[i], &b[i], v);
        all.extend(e);
        let mut c = x[i].clone();
        c.sort();
        cells.insert(c);
    }
    all.sort();
    same("refresh_matrixs", &all, &want, v);
    let split = parts(&want);
    check!(cells == split && a.len() == split.len(), "blocks", "refresh_matrixs splits the cells into {cells:?} instead of {split:?} at {}", show(v));
    let (h, w) = (v.len(), v[0].len());
    let m = v.iter().flatten().filter(|&&q| q == 11).count();
    let n = (0..h * w).filter(|i| v[i / w][i % w] == 10 && near((i / w, i % w), h, w).iter().all(|q| v[q.0][q.1] >= 10)).count();
    check!((inner, marked) == (n, m), "rest", "refresh_matrixs counts {inner} untouched cells and {marked} marked mines instead of {n} and {m} at {}", show(v));
    let (aa, xx, bb) = sut("refresh_matrixses", || refresh_matrixses(v));
    let reg = regions(v, &want);
    let mut all = vec![];
    let mut seen = BTreeSet::new();
    let mut cells = BTreeSet::new();
    check!(aa.len() == xx.len() && bb.len() == xx.len(), "shape", "refresh_matrixses returns {} matrices, {} cell lists, {} numbers at {}", aa.len(), xx.len(), bb.len(), show(v));
    for i in 0..aa.len() {
        check!(aa[i].len() == xx[i].len() && bb[i].len() == xx[i].len(), "shape", "refresh_matrixses returns {} matrices, {} cell lists, {} numbers in region {i} at {}", aa[i].len(), xx[i].len(), bb[i].len(), show(v));
        let mut ids = BTreeSet::new();
        for j in 0..aa[i].len() {
            all.extend(read("refresh_matrixses", &aa[i][j], &xx[i][j], &bb[i][j], v));
            ids.extend(xx[i][j].iter().map(|p| reg[p]));
            let mut c = xx[i][j].clone();
            c.sort();
            cells.insert(c);
        }
        if !aa[i].is_empty() {
            check!(ids.len() == 1, "regions", "refresh_matrixses puts cells of {} regions together: {:?} at {}", ids.len(), xx[i], show(v));
            check!(ids.iter().all(|r| seen.insert(*r)), "regions", "refresh_matrixses splits a region: {:?} at {}", xx[i], show(v));
        }
    }
    all.sort();
    same("refresh_matrixses", &all, &want, v);
    check!(cells == split, "blocks", "refresh_matrixses splits the cells into {cells:?} instead of {split:?} at {}", show(v));
    for i in 0..a.len() {
        block(&a[i], &x[i], &b[i], v);
    }
}
fn run() {
    let mut g = Game::draw();
    sample(format!("board {}", show(&g.b)));
    for _ in 0..1 + d(4) {
        g.advance();
        if g.over() {
            return;
        }
        let clean = g.clean();
        look(&clean);
        let mut v = clean.clone();
        let (fl, sf) = (1 + d(4), d(3));
        for (r, row) in v.iter_mut().enumerate() {
            for (c, x) in row.iter_mut().enumerate() {
                if *x == 10 && chance(if g.b[r][c] == -1 { fl } else { sf }, 5) {
                    *x = if g.b[r][c] == -1 { 11 } else { 12 };
                }
            }
        }
        look(&v);
    }
}
