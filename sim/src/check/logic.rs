//! What follows from the visible numbers: exact enumeration, independent of the library.
//! Opened cells are 0..=8; everything else is unknown, flags included.
use crate::board::*;
use std::collections::HashMap;

pub struct Block {
    pub cells: Vec<Pos>,
    /// number of arrangements by mine count
    pub total: Vec<f64>,
    /// per cell: arrangements by mine count in which it is a mine / is safe
    pub mine: Vec<Vec<f64>>,
    pub safe: Vec<Vec<f64>>,
}
pub struct Know {
    pub blocks: Vec<Block>,
    pub interior: Vec<Pos>,
    /// some arrangement agrees with the numbers
    pub possible: bool,
}
pub fn binom(n: usize, k: usize) -> f64 {
    if k > n {
        return 0.0;
    }
    let k = k.min(n - k);
    let mut r = 1.0;
    for i in 0..k {
        r = (r * (n - i) as f64 / (i + 1) as f64).round_if();
    }
    r
}
trait RoundIf {
    fn round_if(self) -> f64;
}
impl RoundIf for f64 {
    fn round_if(self) -> f64 {
        if self < 9e15 {
            self.round()
        } else {
            self
        }
    }
}
/// Blocks of unknown cells linked by common numbers, as the visible board shows them.
pub fn blocks_of(vis: &B) -> (Vec<Vec<Pos>>, Vec<Pos>) {
    let (n, m) = (vis.len(), vis[0].len());
    let open = |p: Pos| (0..=8).contains(&vis[p.0][p.1]);
    let mut id: HashMap<Pos, usize> = HashMap::new();
    let mut blocks = vec![];
    let mut interior = vec![];
    for i in 0..n {
        for j in 0..m {
            let p = (i, j);
            if open(p) || id.contains_key(&p) {
                continue;
            }
            if !near(p, n, m).iter().any(|&q| open(q)) {
                interior.push(p);
                continue;
            }
            let k = blocks.len();
            let mut cells = vec![];
            let mut st = vec![p];
            id.insert(p, k);
            while let Some(c) = st.pop() {
                cells.push(c);
                for q in near(c, n, m) {
                    if open(q) {
                        for r in near(q, n, m) {
                            if !open(r) && !id.contains_key(&r) {
                                id.insert(r, k);
                                st.push(r);
                            }
                        }
                    }
                }
            }
            cells.sort();
            blocks.push(cells);
        }
    }
    (blocks, interior)
}
fn add(a: &mut Vec<f64>, at: usize, x: f64) {
    if a.len() <= at {
        a.resize(at + 1, 0.0);
    }
    a[at] += x;
}
fn solve_block(vis: &B, cells: &[Pos]) -> Block {
    solve_block_within(vis, cells, usize::MAX).unwrap()
}
/// None if it takes more than `most` states
fn solve_block_within(vis: &B, cells: &[Pos], most: usize) -> Option<Block> {
    let (n, m) = (vis.len(), vis[0].len());
    let open = |p: Pos| (0..=8).contains(&vis[p.0][p.1]);
    let mut nums: Vec<Pos> = vec![];
    for &c in cells {
        for q in near(c, n, m) {
            if open(q) {
                nums.push(q);
            }
        }
    }
    nums.sort();
    nums.dedup();
    // cells with the same numbers around them
    let mut groups: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    let mut of: HashMap<Vec<usize>, usize> = HashMap::new();
    for (i, &c) in cells.iter().enumerate() {
        let key: Vec<usize> = (0..nums.len()).filter(|&k| near(c, n, m).contains(&nums[k])).collect();
        let g = *of.entry(key.clone()).or_insert_with(|| {
            groups.push((key, vec![]));
            groups.len() - 1
        });
        groups[g].1.push(i);
    }
    // an order that keeps few numbers pending
    let t = groups.len();
    let mut order = vec![];
    let mut used = vec![false; t];
    let mut touched = vec![false; nums.len()];
    let mut left: Vec<usize> = (0..nums.len()).map(|k| groups.iter().filter(|g| g.0.contains(&k)).count()).collect();
    for _ in 0..t {
        let best = (0..t)
            .filter(|&g| !used[g])
            .min_by_key(|&g| {
                let fresh = groups[g].0.iter().filter(|&&k| !touched[k]).count() as i64;
                let done = groups[g].0.iter().filter(|&&k| left[k] == 1).count() as i64;
                let linked = groups[g].0.iter().any(|&k| touched[k]);
                (order.len() > 0 && !linked, fresh - 2 * done, g)
            })
            .unwrap();
        used[best] = true;
        for &k in &groups[best].0 {
            touched[k] = true;
            left[k] -= 1;
        }
        order.push(best);
    }
    let mut last = vec![0usize; nums.len()];
    for (s, &g) in order.iter().enumerate() {
        for &k in &groups[g].0 {
            last[k] = s;
        }
    }
    type Layer = HashMap<Vec<i8>, Vec<f64>>;
    let start: Vec<i8> = nums.iter().map(|q| vis[q.0][q.1] as i8).collect();
    let step = |s: usize, st: &Vec<i8>, k: usize| -> Option<Vec<i8>> {
        let mut v = st.clone();
        for &c in &groups[order[s]].0 {
            v[c] -= k as i8;
            if v[c] < 0 || (last[c] == s && v[c] != 0) {
                return None;
            }
        }
        Some(v)
    };
    let mut pending = 0;
    let mut fwd: Vec<Layer> = vec![HashMap::from([(start, vec![1.0])])];
    for s in 0..t {
        let size = groups[order[s]].1.len();
        let mut next: Layer = HashMap::new();
        for (st, w) in &fwd[s] {
            for k in 0..=size {
                if let Some(v) = step(s, st, k) {
                    let e = next.entry(v).or_default();
                    for (a, x) in w.iter().enumerate() {
                        add(e, a + k, x * binom(size, k));
                    }
                }
            }
        }
        pending += next.len();
        if pending > most {
            return None;
        }
        fwd.push(next);
    }
    let mut bwd: Layer = fwd[t].keys().map(|k| (k.clone(), vec![1.0])).collect();
    let mut total = vec![];
    let mut mine = vec![vec![]; cells.len()];
    let mut safe = vec![vec![]; cells.len()];
    for w in fwd[t].values() {
        for (a, x) in w.iter().enumerate() {
            add(&mut total, a, *x);
        }
    }
    for s in (0..t).rev() {
        let g = &groups[order[s]];
        let size = g.1.len();
        let (mut mi, mut sa) = (vec![], vec![]);
        let mut prev: Layer = HashMap::new();
        for (st, w) in &fwd[s] {
            for k in 0..=size {
                let Some(v) = step(s, st, k) else { continue };
                let Some(bw) = bwd.get(&v) else { continue };
                let e = prev.entry(st.clone()).or_default();
                for (b, y) in bw.iter().enumerate() {
                    if *y == 0.0 {
                        continue;
                    }
                    add(e, b + k, y * binom(size, k));
                    for (a, x) in w.iter().enumerate() {
                        if *x == 0.0 {
                            continue;
                        }
                        if k > 0 {
                            add(&mut mi, a + k + b, x * y * binom(size - 1, k - 1));
                        }
                        if k < size {
                            add(&mut sa, a + k + b, x * y * binom(size - 1, k));
                        }
                    }
                }
            }
        }
        bwd = prev;
        for &c in &g.1 {
            mine[c] = mi.clone();
            safe[c] = sa.clone();
        }
    }
    Some(Block { cells: cells.to_vec(), total, mine, safe })
}
pub fn know(vis: &B) -> Know {
    know_within(vis, usize::MAX).unwrap()
}
/// As `know`; None if a front is too tangled.
pub fn know_within(vis: &B, most: usize) -> Option<Know> {
    let (n, m) = (vis.len(), vis[0].len());
    let (bl, interior) = blocks_of(vis);
    let mut blocks: Vec<Block> = vec![];
    for c in &bl {
        blocks.push(solve_block_within(vis, c, most)?);
    }
    let mut possible = blocks.iter().all(|b| b.total.iter().any(|&x| x > 0.0));
    for i in 0..n {
        for j in 0..m {
            // a number without unknown neighbours must be zero
            let x = vis[i][j];
            if (1..=8).contains(&x) && near((i, j), n, m).iter().all(|q| (0..=8).contains(&vis[q.0][q.1])) {
                possible = false;
            }
        }
    }
    Some(Know { blocks, interior, possible })
}
fn none(v: &[f64]) -> bool {
    v.iter().all(|&x| x == 0.0)
}
impl Know {
    /// the same with the numbers at fronts over `limit` cells unread
    pub fn without(&self, limit: usize) -> Know {
        let mut k = Know { blocks: vec![], interior: self.interior.clone(), possible: self.possible };
        for b in &self.blocks {
            if b.cells.len() > limit {
                k.interior.extend(&b.cells);
            } else {
                k.blocks.push(Block { cells: b.cells.clone(), total: b.total.clone(), mine: b.mine.clone(), safe: b.safe.clone() });
            }
        }
        k
    }
    pub fn biggest(&self) -> usize {
        self.blocks.iter().map(|b| b.cells.len()).max().unwrap_or(0)
    }
    /// Small enough for any sensible method to get through it quickly.
    pub fn easy(&self) -> bool {
        let options = |b: &Block| b.total.iter().filter(|&&x| x > 0.0).count() as f64;
        let sum: f64 = self.blocks.iter().map(|b| b.total.iter().sum::<f64>()).sum();
        self.biggest() <= 14 && sum <= 2000.0 && self.blocks.iter().map(options).product::<f64>() <= 500.0
    }
    /// Cells safe, and cells that are mines, in every arrangement that agrees with the numbers.
    pub fn sure(&self) -> (Vec<Pos>, Vec<Pos>) {
        let (mut s, mut m) = (vec![], vec![]);
        for b in &self.blocks {
            for (i, &c) in b.cells.iter().enumerate() {
                if none(&b.mine[i]) {
                    s.push(c);
                }
                if none(&b.safe[i]) {
                    m.push(c);
                }
            }
        }
        s.sort();
        m.sort();
        (s, m)
    }
    /// Smallest and largest number of mines among the unknown cells.
    pub fn range(&self) -> (usize, usize) {
        let mut lo = 0;
        let mut hi = self.interior.len();
        for b in &self.blocks {
            lo += b.total.iter().position(|&x| x > 0.0).unwrap_or(0);
            hi += b.total.iter().rposition(|&x| x > 0.0).unwrap_or(0);
        }
        (lo, hi)
    }
    /// Probability of each unknown cell being a mine when `left` mines are among the unknown cells,
    /// and that of an interior cell. None if that number is impossible.
    pub fn chances(&self, left: usize) -> Option<(HashMap<Pos, f64>, Option<f64>)> {
        let ni = self.interior.len();
        let (lo, hi) = self.range();
        if left < lo || left > hi {
            return None;
        }
        // Only ratios matter: every block is scaled to a largest entry of 1, and instead of
        // C(ni, k) the ratio to the largest such term is used, so nothing overflows on any board.
        let top = |v: &[f64]| v.iter().cloned().fold(0.0, f64::max);
        let unit = |v: &[f64], by: f64| -> Vec<f64> { v.iter().map(|x| x / by).collect() };
        let tops: Vec<f64> = self.blocks.iter().map(|b| top(&b.total)).collect();
        if tops.iter().any(|&t| !(t > 0.0)) {
            return None;
        }
        let mul = |a: &[f64], b: &[f64]| -> Vec<f64> {
            let v = times(a, b);
            let t = top(&v);
            if t > 1e100 { unit(&v, t) } else { v }
        };
        // before[i]: the blocks before i; after[i]: the blocks from i on
        let mut before = vec![vec![1.0]];
        for (b, t) in self.blocks.iter().zip(&tops) {
            let v = mul(before.last().unwrap(), &unit(&b.total, *t));
            before.push(v);
        }
        let mut after = vec![vec![1.0]];
        for (b, t) in self.blocks.iter().zip(&tops).rev() {
            let v = mul(after.last().unwrap(), &unit(&b.total, *t));
            after.push(v);
        }
        after.reverse();
        let whole = before.last().unwrap().clone();
        let peak = whole
            .iter()
            .enumerate()
            .filter(|x| *x.1 > 0.0 && x.0 <= left && left - x.0 <= ni)
            .map(|x| (left - x.0, x.1.ln() + ln_binom(ni, left - x.0)))
            .max_by(|p, q| p.1.total_cmp(&q.1))?
            .0;
        let rel = exact_ratios(ni, peak);
        let weigh = |v: &[f64]| -> f64 {
            v.iter().enumerate().filter(|x| *x.1 > 0.0 && x.0 <= left && left - x.0 <= ni).map(|(a, x)| x * rel[left - a]).sum()
        };
        let mut r = HashMap::new();
        for (i, b) in self.blocks.iter().enumerate() {
            let rest = times(&before[i], &after[i + 1]);
            let all = weigh(&times(&rest, &b.total));
            if !(all > 0.0) {
                return None;
            }
            for (k, &c) in b.cells.iter().enumerate() {
                r.insert(c, weigh(&times(&rest, &b.mine[k])) / all);
            }
        }
        let all = weigh(&whole);
        if !(all > 0.0) {
            return None;
        }
        let inner = if ni > 0 {
            // C(ni-1, k-1) = C(ni, k) * k / ni
            let x: f64 = whole
                .iter()
                .enumerate()
                .filter(|x| *x.1 > 0.0 && x.0 <= left && left - x.0 <= ni)
                .map(|(a, x)| x * rel[left - a] * (left - a) as f64 / ni as f64)
                .sum();
            Some(x / all)
        } else {
            None
        };
        for &c in &self.interior {
            r.insert(c, inner.unwrap());
        }
        Some((r, inner))
    }
}
fn ln_binom(n: usize, k: usize) -> f64 {
    (1..=k.min(n - k)).map(|i| ((n - i + 1) as f64 / i as f64).ln()).sum()
}
/// C(n, k) / C(n, peak) for every k: products of exact ratios, going out from the peak.
fn exact_ratios(n: usize, peak: usize) -> Vec<f64> {
    let mut r = vec![0.0; n + 1];
    r[peak] = 1.0;
    for k in peak + 1..=n {
        r[k] = r[k - 1] * (n - k + 1) as f64 / k as f64;
    }
    for k in (0..peak).rev() {
        r[k] = r[k + 1] * (k + 1) as f64 / (n - k) as f64;
    }
    r
}
pub fn times(a: &[f64], b: &[f64]) -> Vec<f64> {
    let mut v = vec![0.0; (a.len() + b.len()).saturating_sub(1)];
    for (i, x) in a.iter().enumerate() {
        if *x != 0.0 {
            for (j, y) in b.iter().enumerate() {
                v[i + j] += x * y;
            }
        }
    }
    v
}
/// Probability that every cell of `free` is safe.
pub fn all_safe(vis: &B, left: usize, free: &[Pos]) -> f64 {
    // count arrangements with those cells forced safe, by treating them as opened without a number
    let k = know(vis);
    let whole = ln_count(&k, left);
    let mut v = vis.clone();
    for c in free {
        v[c.0][c.1] = FREE;
    }
    let f = know_free(&v);
    if !f.possible {
        return 0.0;
    }
    (ln_count(&f, left) - whole).exp()
}
pub const FREE: i32 = -7;
/// logarithm of the number of arrangements with `left` mines
fn ln_count(k: &Know, left: usize) -> f64 {
    let (mut v, mut ln) = (vec![1.0], 0.0);
    for b in &k.blocks {
        v = times(&v, &b.total);
        let top = v.iter().cloned().fold(0.0, f64::max);
        if top > 0.0 {
            v.iter_mut().for_each(|x| *x /= top);
            ln += top.ln();
        }
    }
    let ni = k.interior.len();
    let terms: Vec<f64> = v
        .iter()
        .enumerate()
        .filter(|x| *x.1 > 0.0 && x.0 <= left && left - x.0 <= ni)
        .map(|(a, x)| x.ln() + ln_binom(ni, left - a))
        .collect();
    let most = terms.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    if terms.is_empty() { most } else { ln + most + terms.iter().map(|t| (t - most).exp()).sum::<f64>().ln() }
}
/// As `know`, where cells marked FREE are known to be safe and carry no number.
fn know_free(vis: &B) -> Know {
    let (n, m) = (vis.len(), vis[0].len());
    let open = |p: Pos| (0..=8).contains(&vis[p.0][p.1]);
    let unknown = |p: Pos| !open(p) && vis[p.0][p.1] != FREE;
    let mut seen: HashMap<Pos, ()> = HashMap::new();
    let mut blocks = vec![];
    let mut interior = vec![];
    let mut possible = true;
    for i in 0..n {
        for j in 0..m {
            let p = (i, j);
            if open(p) && vis[i][j] > 0 && !near(p, n, m).iter().any(|&q| unknown(q)) {
                possible = false;
            }
            if !unknown(p) || seen.contains_key(&p) {
                continue;
            }
            if !near(p, n, m).iter().any(|&q| open(q)) {
                interior.push(p);
                continue;
            }
            let mut cells = vec![];
            let mut st = vec![p];
            seen.insert(p, ());
            while let Some(c) = st.pop() {
                cells.push(c);
                for q in near(c, n, m) {
                    if open(q) {
                        for r in near(q, n, m) {
                            if unknown(r) && !seen.contains_key(&r) {
                                seen.insert(r, ());
                                st.push(r);
                            }
                        }
                    }
                }
            }
            cells.sort();
            let b = solve_block(vis, &cells);
            if !b.total.iter().any(|&x| x > 0.0) {
                possible = false;
            }
            blocks.push(b);
        }
    }
    Know { blocks, interior, possible }
}
/// Open from the start cell whatever logic alone shows to be safe. Returns whether that clears the
/// board, and the largest front met on the way.
pub fn closure(b: &B, start: Pos) -> (bool, usize) {
    let (n, m) = (b.len(), b[0].len());
    let mut vis = vec![vec![10; m]; n];
    if b[start.0][start.1] == -1 {
        return (false, 0);
    }
    open(b, &mut vis, &[start]);
    let mut big = 0;
    loop {
        if (0..n).all(|i| (0..m).all(|j| b[i][j] == -1 || vis[i][j] < 10)) {
            return (true, big);
        }
        let k = know(&vis);
        big = big.max(k.biggest());
        let (s, _) = k.sure();
        if s.is_empty() {
            return (false, big);
        }
        open(b, &mut vis, &s);
    }
}
