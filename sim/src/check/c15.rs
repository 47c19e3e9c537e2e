//! C15 deductions, C16 probabilities, C20 referees: at positions met in games, against exhaustive logic.
use crate::board::*;
use crate::logic::*;
use crate::play::Sut;
use ms_toollib::*;
use simrt::*;
use std::collections::HashMap;

const REAL: &str = "MinesweeperBoard (to reach the positions), refresh_matrixs, refresh_matrixses, solve_direct, solve_minus, solve_enumerate, mark_board, cal_possibility and relatives, GameBoard, is_able_to_solve, is_guess_while_needless";
const STUB: &str = "player";
const RULE: &str = "a run is one game on a drawn board, played through the real board by a player that opens deduced cells, takes lucky guesses and flags rightly or wrongly; at several positions every query is asked in a drawn order, repeatedly, and of reused objects, and compared with exhaustive logic over all arrangements. Non-trivial: some position had a front of at least 4 cells. Distinct: by hash of positions and queries";
pub const P15: Prop = Prop { id: "C15", quick: 40_000, thorough: 1_500_000, chunk: 100, f: c15, rule: RULE, real: REAL, stub: STUB };
pub const P16: Prop = Prop { id: "C16", quick: 30_000, thorough: 1_200_000, chunk: 100, f: c16, rule: RULE, real: REAL, stub: STUB };
pub const P20: Prop = Prop { id: "C20", quick: 20_000, thorough: 1_200_000, chunk: 100, f: c20, rule: RULE, real: REAL, stub: STUB };

/// the enumeration limit of the library
const LIMIT: usize = 55;
const STEPS: u64 = 150_000_000;

pub struct Game {
    pub b: B,
    pub g: MinesweeperBoard<B>,
    style: usize,
}
impl Game {
    /// fronts longer than the enumeration limit
    fn draw_large() -> Game {
        let (n, m) = [(16, 30), (20, 20), (12, 40), (5, 60), (3, 80)][d(5) as usize];
        let k = n * m * range(12, 24) as usize / 100;
        let b = board_with(n, m, k);
        note(format!("board {}", show(&b)));
        let g = sut("new", || MinesweeperBoard::<B>::new(b.clone()));
        let mut g = Game { b, g, style: pick(&[1, 2, 2, 1]) };
        for _ in 0..range(10, 90) {
            if !g.over() {
                let p = g.some(|p| g.covered(p) && g.b[p.0][p.1] > 0);
                p.map(|p| g.click(p));
            }
        }
        g
    }
    /// boards on which the number of arrangements is beyond f64
    fn draw_huge() -> Game {
        let (n, m) = (range(36, 99) as usize, range(36, 99) as usize);
        let k = n * m * range(5, 60) as usize / 100;
        let b = board_with(n, m, k);
        note(format!("board {}", show(&b)));
        let g = sut("new", || MinesweeperBoard::<B>::new(b.clone()));
        Game { b, g, style: 4 }
    }
    pub fn draw() -> Game {
        let (n, m) = match pick(&[5, 4, 3, 2, 2]) {
            0 => (range(2, 6) as usize, range(2, 6) as usize),
            1 => (range(4, 8) as usize, range(4, 9) as usize),
            2 => (8, 8),
            3 => (range(1, 2) as usize, range(3, 24) as usize),
            _ => [(16, 16), (16, 30), (9, 9), (12, 20)][d(4) as usize],
        };
        let cells = n * m;
        let k = match pick(&[5, 3, 2, 1]) {
            0 => cells * range(10, 24) as usize / 100,
            1 => cells * range(20, 45) as usize / 100,
            2 => range(0, 4) as usize,
            _ => cells * range(45, 90) as usize / 100,
        };
        let b = board_with(n, m, k.min(cells - 1));
        note(format!("board {}", show(&b)));
        let g = sut("new", || MinesweeperBoard::<B>::new(b.clone()));
        Game { b, g, style: pick(&[3, 2, 2, 1]) }
    }
    fn ev(&mut self, e: &str, p: Pos) {
        let _ = sut(e, || self.g.step(e, p));
    }
    fn covered(&self, p: Pos) -> bool {
        self.g.game_board[p.0][p.1] >= 10
    }
    fn unflag(&mut self, p: Pos) {
        if self.g.game_board[p.0][p.1] == 11 {
            self.ev("rc", p);
            self.ev("rr", p);
        }
    }
    fn click(&mut self, p: Pos) {
        self.unflag(p);
        self.ev("lc", p);
        self.ev("lr", p);
    }
    fn some(&self, f: impl Fn(Pos) -> bool) -> Option<Pos> {
        let (n, m) = (self.b.len(), self.b[0].len());
        let s = d((n * m) as u64) as usize;
        (0..n * m).map(|i| ((s + i) % (n * m) / m, (s + i) % (n * m) % m)).find(|&p| f(p))
    }
    pub fn over(&self) -> bool {
        matches!(self.g.game_board_state, GameBoardState::Win | GameBoardState::Loss)
    }
    /// play on to the next position worth looking at
    pub fn advance(&mut self) {
        for _ in 0..1 + d(4) {
            if self.over() {
                return;
            }
            match self.style {
                // by logic, guessing when it ends
                0 => {
                    let s = quiet(|| know_within(&self.clean(), 60_000)).map_or(vec![], |k| k.sure().0);
                    if s.is_empty() {
                        let p = self.some(|p| self.covered(p) && self.b[p.0][p.1] != -1);
                        p.map(|p| self.click(p));
                    } else {
                        for _ in 0..1 + d(3) {
                            let p = s[d(s.len() as u64) as usize];
                            self.click(p);
                        }
                    }
                }
                // scattered clicks make many fronts
                1 => {
                    let p = self.some(|p| self.covered(p) && self.b[p.0][p.1] != -1);
                    p.map(|p| self.click(p));
                }
                // numbers first: long fronts, closed regions
                2 => {
                    let p = self
                        .some(|p| self.covered(p) && self.b[p.0][p.1] > 0)
                        .or_else(|| self.some(|p| self.covered(p) && self.b[p.0][p.1] != -1));
                    p.map(|p| self.click(p));
                }
                // few numbers
                4 => {
                    let p = self.some(|p| self.covered(p) && self.b[p.0][p.1] > 0);
                    p.map(|p| self.click(p));
                }
                // dense numbers only
                _ => {
                    let p = self
                        .some(|p| self.covered(p) && self.b[p.0][p.1] > 1)
                        .or_else(|| self.some(|p| self.covered(p) && self.b[p.0][p.1] != -1));
                    p.map(|p| self.click(p));
                }
            }
        }
        for _ in 0..d(3) {
            if self.over() {
                return;
            }
            let right = chance(2, 3);
            let p = self.some(|p| self.g.game_board[p.0][p.1] == 10 && (self.b[p.0][p.1] == -1) == right);
            if let Some(p) = p {
                self.ev("rc", p);
                self.ev("rr", p);
            }
        }
    }
    /// as shown, with the player's flags
    pub fn shown(&self) -> B {
        self.g.vis()
    }
    pub fn clean(&self) -> B {
        clean(&self.g.game_board)
    }
}
pub fn clean(v: &B) -> B {
    v.iter().map(|r| r.iter().map(|&x| x.min(10)).collect()).collect()
}
fn sorted(v: &[Pos]) -> Vec<Pos> {
    let mut v = v.to_vec();
    v.sort();
    v.dedup();
    v
}
fn subset(what: &str, v: &[Pos], of: &[Pos], vis: &B) {
    for p in v {
        check!(of.contains(p), "unsound", "{what} names {p:?} at {}", show(vis));
    }
}
fn equal(what: &str, v: &[Pos], of: &[Pos], vis: &B) {
    subset(what, v, of, vis);
    for p in of {
        check!(v.contains(p), "incomplete", "{what} misses {p:?} at {}", show(vis));
    }
}
/// positions of one game, with what follows from them
fn positions(f: &mut dyn FnMut(&Game, &B, &Know)) {
    positions_on(chance(1, 12).then(Game::draw_large), f)
}
fn positions_on(special: Option<Game>, f: &mut dyn FnMut(&Game, &B, &Know)) {
    let large = special.is_some();
    let mut g = special.unwrap_or_else(Game::draw);
    if !large && chance(1, 8) {
        // nothing opened yet
        let v = g.clean();
        f(&g, &v, &know(&v));
    }
    for _ in 0..1 + d(6) {
        g.advance();
        if g.g.game_board_state == GameBoardState::Loss {
            return;
        }
        let v = g.clean();
        let Some(k) = quiet(|| know_within(&v, 60_000)) else {
            stat("front_too_tangled", 1);
            return;
        };
        check!(k.possible, "oracle", "no arrangement agrees with {}", show(&v));
        stat("positions", 1);
        let big = k.biggest();
        stat(match big {
            0..=3 => "positions.front_0_3",
            4..=9 => "positions.front_4_9",
            10..=19 => "positions.front_10_19",
            20..=LIMIT => "positions.front_20_55",
            _ => "positions.front_over_55",
        }, 1);
        if big >= 4 {
            nontrivial();
            sample(format!("board {} at {}", show(&g.b), show(&g.shown())));
        }
        sig(hash(&g.shown()));
        if tracing() {
            note(format!("position {}", show(&g.shown())));
        }
        f(&g, &v, &k);
        if g.over() {
            return;
        }
    }
}
type Two = (Vec<Pos>, Vec<Pos>);
// ------------------------------------------------------------------ C15
struct Ded {
    direct: Two,
    direct_board: B,
    minus: Two,
    minus_board: B,
    rest: Two,
    all: Two,
    only_enum: Two,
    minus_first: Two,
    marked: Result<B, usize>,
}
fn deduce(v: &B) -> Ded {
    let mut b1 = v.clone();
    let (mut a, mut x, mut b, _, _) = refresh_matrixs(&b1);
    let direct = solve_direct(&mut a, &mut x, &mut b, &mut b1).unwrap();
    let direct_board = b1.clone();
    let minus = solve_minus(&mut a, &mut x, &mut b, &mut b1).unwrap();
    let minus_board = b1.clone();
    let rest = solve_enumerate(&a, &x, &b);
    let mut b2 = v.clone();
    let (mut a, mut x, mut b, _, _) = refresh_matrixs(&b2);
    let all = get_all_not_and_is_mine_on_board(&mut a, &mut x, &mut b, &mut b2);
    let (a, x, b, _, _) = refresh_matrixs(v);
    let only_enum = solve_enumerate(&a, &x, &b);
    let mut b3 = v.clone();
    let (mut a, mut x, mut b, _, _) = refresh_matrixs(&b3);
    let minus_first = solve_minus(&mut a, &mut x, &mut b, &mut b3).unwrap();
    let mut b4 = v.clone();
    let marked = mark_board(&mut b4).map(|_| b4);
    Ded { direct, direct_board, minus, minus_board, rest, all, only_enum, minus_first, marked }
}
fn marks(what: &str, v: &B, got: &B, safe: &[Pos], mine: &[Pos]) {
    let mut w = v.clone();
    for p in safe {
        w[p.0][p.1] = 12;
    }
    for p in mine {
        w[p.0][p.1] = 11;
    }
    check!(got == &w, "marks", "{what} left {got:?} for deduced {safe:?} {mine:?} at {}", show(v));
}
fn join(a: &Two, b: &Two) -> Two {
    (sorted(&[&a.0[..], &b.0[..]].concat()), sorted(&[&a.1[..], &b.1[..]].concat()))
}
/// what one number, or two that share a covered cell, say by themselves
fn by_one_or_two(v: &B) -> (Two, Two) {
    let (h, w) = (v.len(), v[0].len());
    let mut nums: Vec<(Vec<Pos>, i32)> = vec![];
    for r in 0..h {
        for c in 0..w {
            if v[r][c] < 9 {
                let n: Vec<Pos> = near((r, c), h, w).into_iter().filter(|p| v[p.0][p.1] == 10).collect();
                if !n.is_empty() {
                    nums.push((n, v[r][c]));
                }
            }
        }
    }
    let (mut one, mut two): (Two, Two) = Default::default();
    for (a, n) in &nums {
        if *n == 0 {
            one.0.extend(a);
        } else if *n == a.len() as i32 {
            one.1.extend(a);
        }
        for (b, m) in &nums {
            if a.iter().any(|p| b.contains(p)) {
                let rest: Vec<Pos> = a.iter().filter(|p| !b.contains(p)).copied().collect();
                if rest.len() as i32 == n - m {
                    two.0.extend(b.iter().filter(|p| !a.contains(p)));
                    two.1.extend(rest);
                }
            }
        }
    }
    (one, two)
}
fn c15() {
    let mut old: Option<GameBoard> = None;
    positions(&mut |g, v, k| {
        let (s, m) = k.sure();
        let mines = mines_of(&g.b);
        // a front over the limit need not be enumerated: what is found must hold all the same
        let long = k.biggest() > LIMIT;
        let equal = if long { subset } else { equal };
        let vv = v.clone();
        let Some(r) = try_easy(k.easy(), "deduce", STEPS, move || deduce(&vv)) else {
            stat("abandoned_positions", 1);
            return;
        };
        stat("deducible_cells", (s.len() + m.len()) as u64);
        let d1 = join(&r.direct, &(vec![], vec![]));
        subset("solve_direct (safe)", &d1.0, &s, v);
        subset("solve_direct (mine)", &d1.1, &m, v);
        marks("solve_direct", v, &r.direct_board, &d1.0, &d1.1);
        // the cheap engines find what one number, or a pair of numbers, says by itself
        let (one, two) = by_one_or_two(v);
        subset("what single numbers say (safe), against solve_direct:", &one.0, &d1.0, v);
        subset("what single numbers say (mine), against solve_direct:", &one.1, &d1.1, v);
        subset("what pairs of numbers say (safe), against solve_minus:", &two.0, &r.minus_first.0, v);
        subset("what pairs of numbers say (mine), against solve_minus:", &two.1, &r.minus_first.1, v);
        let d2 = join(&r.direct, &r.minus);
        subset("solve_minus (safe)", &d2.0, &s, v);
        subset("solve_minus (mine)", &d2.1, &m, v);
        marks("solve_minus", v, &r.minus_board, &d2.0, &d2.1);
        let d3 = join(&d2, &r.rest);
        equal("the three engines (safe)", &d3.0, &s, v);
        equal("the three engines (mine)", &d3.1, &m, v);
        equal("get_all_not_and_is_mine_on_board (safe)", &r.all.0, &s, v);
        equal("get_all_not_and_is_mine_on_board (mine)", &r.all.1, &m, v);
        equal("solve_enumerate (safe)", &r.only_enum.0, &s, v);
        equal("solve_enumerate (mine)", &r.only_enum.1, &m, v);
        subset("solve_minus at once (safe)", &r.minus_first.0, &s, v);
        subset("solve_minus at once (mine)", &r.minus_first.1, &m, v);
        match r.marked {
            Err(e) => fail("error", format!("mark_board refuses {} ({e})", show(v))),
            Ok(b) => {
                let x: Vec<Pos> = cells(&b, 12);
                let y: Vec<Pos> = cells(&b, 11);
                subset("mark_board (safe)", &x, &s, v);
                subset("mark_board (mine)", &y, &m, v);
                marks("mark_board", v, &b, &x, &y);
            }
        }
        // the caching object, with the player's flags, asked in any order
        let shown = g.shown();
        let product: f64 = k.blocks.iter().map(|b| b.total.iter().filter(|&&x| x > 0.0).count() as f64).product();
        let chances = if product < 5e4 && mines > 0 && !long { quiet(|| k.chances(mines)) } else { None };
        let mut first: Option<[Vec<Pos>; 4]> = None;
        for round in 0..2 {
            let mut q: Vec<u8> = (0..4).collect();
            if chances.is_some() {
                q.push(4);
            }
            for i in 0..q.len() {
                let j = i + d((q.len() - i) as u64) as usize;
                q.swap(i, j);
            }
            for _ in 0..d(4) {
                q.push(q[d(q.len() as u64) as usize]);
            }
            let reuse = old.is_some() && chance(1, 2);
            let ob = if reuse { old.take() } else { None };
            let (sh, qq) = (shown.clone(), q.clone());
            let Some((gb, ans, poss)) = try_easy(k.easy(), "GameBoard", STEPS, move || ask(ob, mines, sh, qq)) else {
                stat("abandoned_positions", 1);
                return;
            };
            let what = format!("a {} GameBoard asked for {q:?}", if reuse { "reused" } else { "new" });
            let now = [0u8, 1, 2, 3].map(|i| sorted(&ans.iter().find(|x| x.0 == i).unwrap().1));
            for (i, a) in &ans {
                check!(sorted(a) == now[*i as usize], "order", "{what} changes answer {i} at {}", show(&shown));
            }
            subset(&format!("{what}: basic safe"), &now[0], &s, v);
            subset(&format!("{what}: basic mine"), &now[1], &m, v);
            equal(&format!("{what}: safe"), &sorted(&[&now[0][..], &now[2][..]].concat()), &s, v);
            equal(&format!("{what}: mine"), &sorted(&[&now[1][..], &now[3][..]].concat()), &m, v);
            if let Some(f) = &first {
                check!(f == &now, "order", "{what} answers {now:?}, another order gave {f:?} at {}", show(&shown));
            }
            for p in &poss {
                compare_board(&format!("{what}: get_poss"), p, &chances.as_ref().unwrap().0, v, mines);
            }
            stat("gameboard_histories", 1);
            first = Some(now);
            if round == 0 || chance(1, 2) {
                old = Some(gb);
            }
        }
    });
}
fn cells(b: &B, x: i32) -> Vec<Pos> {
    (0..b.len()).flat_map(|i| (0..b[0].len()).map(move |j| (i, j))).filter(|p| b[p.0][p.1] == x).collect()
}
fn ask(old: Option<GameBoard>, mines: usize, shown: B, q: Vec<u8>) -> (GameBoard, Vec<(u8, Vec<Pos>)>, Vec<Vec<Vec<f64>>>) {
    let mut gb = old.unwrap_or_else(|| GameBoard::new(mines));
    gb.set_game_board(&shown);
    let (mut ans, mut poss) = (vec![], vec![]);
    for i in q {
        match i {
            0 => ans.push((0, gb.get_basic_not_mine().clone())),
            1 => ans.push((1, gb.get_basic_is_mine().clone())),
            2 => ans.push((2, gb.get_enum_not_mine().clone())),
            3 => ans.push((3, gb.get_enum_is_mine().clone())),
            _ => poss.push(gb.get_poss().clone()),
        }
    }
    (gb, ans, poss)
}
// ------------------------------------------------------------------ C16
const TOL: f64 = 1e-8;
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= TOL
}
pub fn compare_board(what: &str, got: &Vec<Vec<f64>>, want: &HashMap<Pos, f64>, v: &B, k: usize) {
    check!(got.len() == v.len() && got.iter().all(|r| r.len() == v[0].len()), "shape", "{what}: wrong shape");
    for i in 0..v.len() {
        for j in 0..v[0].len() {
            let w = if v[i][j] < 10 { 0.0 } else { want[&(i, j)] };
            check!(close(got[i][j], w), "probability", "{what}: ({i},{j}) is {} instead of {w} with {k} mines at {}", got[i][j], show(v));
        }
    }
}
struct Pr {
    list: Result<(Vec<(Pos, f64)>, f64, [usize; 3], usize), usize>,
    board: Result<(Vec<Vec<f64>>, [usize; 3]), usize>,
    marked: Result<(Vec<Vec<f64>>, [usize; 3]), usize>,
    op: Vec<f64>,
    mb: B,
}
fn c16() {
    let special = match pick(&[21, 2, 1]) {
        0 => None,
        1 => Some(Game::draw_large()),
        _ => {
            stat("huge_boards", 1);
            Some(Game::draw_huge())
        }
    };
    positions_on(special, &mut |g, v, kn| {
        let exact = kn;
        let long = exact.biggest() > LIMIT;
        // a front over the limit gets the average: its cells count as interior, its numbers as unread
        let loose = exact.without(LIMIT);
        let kn = &loose;
        let (lo, hi) = kn.range();
        let product: f64 = kn.blocks.iter().map(|b| b.total.iter().filter(|&&x| x > 0.0).count() as f64).product();
        if product > 3e4 {
            stat("too_many_fronts", 1);
            return;
        }
        // the game's own number of mines, or any possible other one, as a count or as a share
        let mut k = mines_of(&g.b);
        if chance(1, 2) {
            k = lo + d((hi - lo + 1) as u64) as usize;
        }
        let cells_n = v.len() * v[0].len();
        let mut arg = k as f64;
        if chance(1, 4) || k == 0 {
            arg = d(1000) as f64 / 1000.0;
            k = ((cells_n as f64 * arg) as usize).max(lo).min(hi);
            stat("share_given", 1);
        }
        let Some((want, inner)) = quiet(|| kn.chances(k)) else {
            // gaps in the possible totals
            stat("impossible_total", 1);
            return;
        };
        let cov: Vec<Pos> = cells(v, 10);
        let mut pick_cells: Vec<[usize; 2]> = vec![];
        for _ in 0..d(4) {
            let p = if cov.is_empty() || chance(1, 6) { (d(v.len() as u64) as usize, d(v[0].len() as u64) as usize) } else { cov[d(cov.len() as u64) as usize] };
            pick_cells.push([p.0, p.1]);
        }
        // marks the player could have deduced
        let (s, m) = exact.sure();
        let full = chance(1, 2);
        let part: Vec<(Pos, i32)> = s.iter().map(|&p| (p, 12)).chain(m.iter().map(|&p| (p, 11))).filter(|_| !full && chance(1, 2)).collect();
        let (vv, pc) = (v.clone(), pick_cells.clone());
        let easy = exact.easy();
        let what = format!("with {arg} at {}", show(v));
        let Some(r) = try_easy(easy, &what, STEPS, move || {
            let list = cal_possibility(&vv, arg);
            let board = cal_possibility_onboard(&vv, arg);
            let mut mb = vv.clone();
            if full {
                let _ = mark_board(&mut mb);
            } else {
                for (p, x) in part {
                    mb[p.0][p.1] = x;
                }
            }
            let marked = cal_possibility_onboard(&mb, arg);
            let op = cal_is_op_possibility_cells(&vv, arg, &pc);
            Pr { list, board, marked, op, mb }
        }) else {
            stat("abandoned_positions", 1);
            return;
        };
        let (list, p_in, range, need) = match r.list {
            Ok(x) => x,
            Err(e) => fail("error", format!("cal_possibility refuses ({e}) {what}")),
        };
        let mut seen = HashMap::new();
        for (p, x) in list {
            check!(seen.insert(p, x).is_none(), "shape", "cal_possibility names {p:?} twice {what}");
            check!(want.contains_key(&p) && !exact.interior.contains(&p), "shape", "cal_possibility names {p:?} {what}");
            check!(close(x, want[&p]), "probability", "cal_possibility: {p:?} is {x} instead of {} {what}", want[&p]);
        }
        for b in &kn.blocks {
            for p in &b.cells {
                check!(seen.contains_key(p), "shape", "cal_possibility misses {p:?} {what}");
            }
        }
        match inner {
            Some(w) => check!(close(p_in, w), "probability", "cal_possibility: interior {p_in} instead of {w} {what}"),
            None => check!(p_in.is_nan(), "probability", "cal_possibility: interior {p_in} although there is none {what}"),
        }
        check!(need == exact.biggest(), "length", "cal_possibility needs length {need} instead of {} {what}", exact.biggest());
        let real = exact.range();
        check!(if long { range[0] <= real.0 && range[1] == k && range[2] >= real.1 } else { range == [lo, k, hi] }, "range", "cal_possibility reports the range {range:?} instead of {:?} {what}", [lo, k, hi]);
        match r.board {
            Ok((b, rg)) => {
                compare_board(&format!("cal_possibility_onboard({arg})"), &b, &want, v, k);
                check!(rg == range, "range", "cal_possibility_onboard reports {rg:?} instead of {range:?} {what}");
            }
            Err(e) => fail("error", format!("cal_possibility_onboard refuses ({e}) {what}")),
        }
        match r.marked {
            Ok((b, rg)) if long => {
                let sum: f64 = b.iter().flatten().sum();
                check!(b.iter().flatten().all(|x| (-TOL..=1.0 + TOL).contains(x)) && (sum - rg[1] as f64).abs() < 1e-3 && (arg < 1.0 || rg[1] == k), "probability", "marked as {}: {b:?} adds up to {sum} {what}", show(&r.mb));
                stat("over_long_comparisons", 1);
            }
            Err(_) if long => stat("over_long_refused", 1),
            Ok((b, rg)) => {
                compare_board(&format!("marked as {}, cal_possibility_onboard({arg})", show(&r.mb)), &b, &want, v, k);
                check!(rg == range, "range", "marked as {}: range {rg:?} instead of {range:?} {what}", show(&r.mb));
                stat("marked_comparisons", 1);
            }
            Err(e) => fail("error", format!("marked as {}: refused ({e}) {what}", show(&r.mb))),
        }
        for (i, c) in pick_cells.iter().enumerate() {
            let p = (c[0], c[1]);
            if long {
                check!((-TOL..=1.0 + TOL).contains(&r.op[i]), "opening", "cal_is_op_possibility_cells: {p:?} opens with {} {what}", r.op[i]);
                continue;
            }
            let w = if v[p.0][p.1] < 10 {
                0.0
            } else {
                let mut fr: Vec<Pos> = near(p, v.len(), v[0].len()).into_iter().filter(|q| v[q.0][q.1] >= 10).collect();
                fr.push(p);
                quiet(|| all_safe(v, k, &fr))
            };
            check!(close(r.op[i], w), "opening", "cal_is_op_possibility_cells: {p:?} opens with {} instead of {w} {what}", r.op[i]);
            stat("opening_comparisons", 1);
        }
    });
}
// ------------------------------------------------------------------ C20
/// The front of a cell: covered cells linked to it through covered cells and common numbers.
fn front(v: &B, p: Pos) -> Vec<Pos> {
    let (n, m) = (v.len(), v[0].len());
    let mut seen = vec![p];
    let mut st = vec![p];
    while let Some(c) = st.pop() {
        for q in near(c, n, m) {
            let more = if v[q.0][q.1] >= 10 { vec![q] } else { near(q, n, m).into_iter().filter(|r| v[r.0][r.1] >= 10).collect() };
            for r in more {
                if !seen.contains(&r) {
                    seen.push(r);
                    st.push(r);
                }
            }
        }
    }
    seen
}
/// what a chord would open; None where none is legal
fn chord_gain(v: &B, p: Pos) -> Option<usize> {
    let x = v[p.0][p.1];
    let n = near(p, v.len(), v[0].len());
    let of = |y: i32| n.iter().filter(|q| v[q.0][q.1] == y).count();
    ((1..=8).contains(&x) && of(11) == x as usize).then(|| of(10))
}
fn chords(g: &Game, v: &B) {
    let mut v = v.clone();
    let often = 1 + d(4);
    for (r, row) in v.iter_mut().enumerate() {
        for (c, x) in row.iter_mut().enumerate() {
            if *x == 10 && g.b[r][c] == -1 && chance(often, 4) {
                *x = 11;
            }
        }
    }
    let (h, w) = (v.len(), v[0].len());
    for i in 0..h * w {
        let p = (i / w, i % w);
        let Some(gain) = chord_gain(&v, p) else { continue };
        let best = [(-1, 0), (1, 0), (0, -1), (0, 1)]
            .iter()
            .filter_map(|d| Some((p.0.checked_add_signed(d.0)?, p.1.checked_add_signed(d.1)?)))
            .filter(|q| q.0 < h && q.1 < w)
            .filter_map(|q| chord_gain(&v, q))
            .max()
            .unwrap_or(0);
        let good = sut("is_good_chording", || is_good_chording(&v, p));
        stat(if gain == 0 { "chord.void" } else if gain < best { "chord.second_best" } else { "chord.good" }, 1);
        check!(good == (gain > 0 && gain >= best), "chord", "is_good_chording({p:?}) says {good}: it opens {gain}, a chord beside it {best}, at {}", show(&v));
    }
}
fn c20() {
    positions(&mut |g, v, k| {
        let (n, m) = (v.len(), v[0].len());
        let (s, mi) = k.sure();
        chords(g, v);
        for _ in 0..4 {
            // flags have no say
            let mut shown = g.shown();
            for _ in 0..d(4) {
                let p = (d(n as u64) as usize, d(m as u64) as usize);
                if shown[p.0][p.1] >= 10 {
                    shown[p.0][p.1] = [11, 10][d(2) as usize];
                }
            }
            let p = match d(4) {
                0 if !s.is_empty() => s[d(s.len() as u64) as usize],
                1 if !mi.is_empty() => mi[d(mi.len() as u64) as usize],
                2 => g.some(|p| v[p.0][p.1] >= 10 && !s.contains(&p) && !mi.contains(&p)).unwrap_or((0, 0)),
                _ => (d(n as u64) as usize, d(m as u64) as usize),
            };
            sig((p.0 * m + p.1) as u64);
            let sh = shown.clone();
            let Some((able, kind)) = try_easy(k.easy(), "referees", STEPS, move || {
                let able = is_able_to_solve(&mut sh.clone(), &p);
                (able, is_guess_while_needless(&mut sh.clone(), &p))
            }) else {
                stat("abandoned_positions", 1);
                return;
            };
            let covered = v[p.0][p.1] >= 10;
            let want = if !covered {
                5
            } else if s.contains(&p) {
                1
            } else if mi.contains(&p) {
                4
            } else if front(v, p).iter().any(|q| s.contains(q)) {
                3
            } else {
                2
            };
            stat(["", "verdict.correct", "verdict.necessary_guess", "verdict.needless_guess", "verdict.sure_mine", "verdict.opened"][want as usize], 1);
            if k.biggest() > LIMIT {
                // less may be deduced then, but nothing wrong
                let fits = match kind {
                    3 => covered && front(v, p).iter().any(|q| s.contains(q)),
                    2 => covered,
                    x => x == want,
                };
                check!(fits && (!able || s.contains(&p) || mi.contains(&p)), "verdict", "is_guess_while_needless({p:?}) says {kind}, is_able_to_solve {able}, the truth is {want} at {}", show(&shown));
                continue;
            }
            check!(kind == want, "verdict", "is_guess_while_needless({p:?}) says {kind} instead of {want} at {}", show(&shown));
            if covered {
                let w = s.contains(&p) || mi.contains(&p);
                check!(able == w, "verdict", "is_able_to_solve({p:?}) says {able} at {}", show(&shown));
            }
        }
    });
}
