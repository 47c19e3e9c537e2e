//! C28: the C interface.
use crate::board::*;
use crate::c15::Game;
use ms_toollib::cal_possibility_onboard as rs_possibility;
use simrt::alloc::ledger;
use simrt::*;

pub const P: Prop = Prop {
    id: "C28",
    quick: 60_000,
    thorough: 2_000_000,
    chunk: 100,
    f: run,
    rule: "a run is a drawn history of up to 16 calls through the C header: boards laid, positions of simulated games evaluated, boards counted, boards given back in any order or kept, with every allocation on a ledger; answers are compared with the library's and with the definitions, boards held are compared again after every call. Non-trivial: at least two boards were held at once. Distinct: by hash of calls and answers",
    real: "c/src/lib.rs compiled from its source, called by its C symbols; laymine, cal3BV, cal_possibility_onboard behind it",
    stub: "the C program, the allocator (ledger of sizes and alignments, poisoned and kept after free), entropy source",
};
// as in ms_toollib.h
#[repr(C)]
#[derive(Clone, Copy)]
struct Row {
    cells: *mut i32,
    n_column: usize,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Board {
    rows: *mut Row,
    n_row: usize,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct RowPoss {
    cells_poss: *mut f64,
    n_column: usize,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct BoardPoss {
    rows_poss: *mut RowPoss,
    n_row: usize,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct BoardPossReturn {
    board_poss: BoardPoss,
    min_mine_num: usize,
    mine_num: usize,
    max_mine_num: usize,
}
#[allow(clashing_extern_declarations)]
extern "C" {
    fn free_board(b: Board);
    fn free_board_poss(b: BoardPossReturn);
    fn cal3BV(b: Board) -> usize;
    fn laymine(row: usize, column: usize, mines: usize, x0: usize, y0: usize) -> Board;
    fn cal_possibility_onboard(b: Board, mine_num: f64) -> BoardPossReturn;
}
/// A board in the memory of the C program.
struct Mine {
    rows: Vec<Row>,
    cells: Vec<Vec<i32>>,
}
impl Mine {
    fn new(b: &B) -> Mine {
        let mut cells = b.clone();
        let rows = cells.iter_mut().map(|r| Row { cells: r.as_mut_ptr(), n_column: r.len() }).collect();
        Mine { rows, cells }
    }
    fn c(&mut self) -> Board {
        Board { rows: self.rows.as_mut_ptr(), n_row: self.rows.len() }
    }
}
fn take(b: Board) -> B {
    (0..b.n_row)
        .map(|i| unsafe {
            let r = *b.rows.add(i);
            std::slice::from_raw_parts(r.cells, r.n_column).to_vec()
        })
        .collect()
}
fn take_poss(b: &BoardPoss) -> Vec<Vec<u64>> {
    (0..b.n_row)
        .map(|i| unsafe {
            let r = *b.rows_poss.add(i);
            std::slice::from_raw_parts(r.cells_poss, r.n_column).iter().map(|x| x.to_bits()).collect()
        })
        .collect()
}
#[derive(Clone)]
enum Held {
    B(Board, B),
    P(BoardPossReturn, Vec<Vec<u64>>),
}
fn whole(h: &[Held], when: &str) {
    for (i, x) in h.iter().enumerate() {
        let ok = match x {
            Held::B(c, b) => &take(*c) == b,
            Held::P(c, b) => &take_poss(&c.board_poss) == b,
        };
        check!(ok, "damaged", "after {when} the board held as number {i} is not what it was");
    }
    if let Some(c) = ledger::complaint() {
        fail("memory", format!("in {when}: {c}"));
    }
}
fn run() {
    ledger::reset();
    // what the library keeps for itself from the first call on (generator state) is no leak
    quiet(|| {
        ms_toollib::laymine(2, 2, 1, 0, 0);
        let _ = rs_possibility(&vec![vec![1, 10, 10]], 1.0);
    });
    let mut held: Vec<Held> = vec![];
    let mut most = 0;
    let n = 2 + d(15);
    for _ in 0..n {
        match pick(&[4, 4, 2, 5]) {
            0 => {
                let (h, w) = (1 + d(12) as usize, 1 + d(12) as usize);
                let (h, w) = if h * w < 2 { (2, 1) } else { (h, w) };
                let k = d((h * w) as u64) as usize;
                let s = (d(h as u64) as usize, d(w as u64) as usize);
                let what = format!("laymine({h}, {w}, {k}, {}, {})", s.0, s.1);
                note(what.clone());
                let c = sut(&what, || ledger::record(|| unsafe { laymine(h, w, k, s.0, s.1) }));
                check!(c.n_row == h, "shape", "{what} returned {} rows", c.n_row);
                let b = take(c);
                check!(b.iter().all(|r| r.len() == w), "shape", "{what} returned rows of {:?} cells", b.iter().map(|r| r.len()).collect::<Vec<_>>());
                let mines: Vec<Vec<bool>> = b.iter().map(|r| r.iter().map(|&x| x == -1).collect()).collect();
                check!(mines_of(&b) == k && numbers(&mines) == b && b[s.0][s.1] != -1, "board", "{what} returned {}", show(&b));
                sig(hash(&b));
                held.push(Held::B(c, b));
                whole(&held, &what);
            }
            1 => {
                let mut g = quiet(Game::draw);
                quiet(|| {
                    for _ in 0..1 + d(3) {
                        g.advance();
                    }
                });
                let k = mines_of(&g.b);
                let mut v = g.clean();
                if g.over() || v.len() * v[0].len() > 150 {
                    continue;
                }
                // flags and cells known to be safe, as the library's engines mark them
                if chance(1, 2) {
                    let (fl, sf) = (d(3), d(3));
                    for (r, row) in v.iter_mut().enumerate() {
                        for (c, x) in row.iter_mut().enumerate() {
                            if *x == 10 && chance(if g.b[r][c] == -1 { fl } else { sf }, 4) {
                                *x = if g.b[r][c] == -1 { 11 } else { 12 };
                            }
                        }
                    }
                }
                let arg = if chance(1, 4) { k as f64 / (v.len() * v[0].len()) as f64 } else { k as f64 };
                let v2 = v.clone();
                let Some(Ok((p, r))) = try_easy(quiet(|| crate::logic::know(&crate::c15::clean(&v)).easy()), "cal_possibility_onboard", 100_000_000, move || rs_possibility(&v2, arg)) else {
                    stat("abandoned_positions", 1);
                    continue;
                };
                let what = format!("cal_possibility_onboard({}, {arg})", show(&v));
                note(what.clone());
                let mut m = Mine::new(&v);
                let c = sut(&what, || ledger::record(|| unsafe { cal_possibility_onboard(m.c(), arg) }));
                check!(m.cells == v, "input", "{what} changes the board it is given");
                check!([c.min_mine_num, c.mine_num, c.max_mine_num] == r, "range", "{what} reports {:?} instead of {r:?}", [c.min_mine_num, c.mine_num, c.max_mine_num]);
                let got = take_poss(&c.board_poss);
                let want: Vec<Vec<u64>> = p.iter().map(|r| r.iter().map(|x| x.to_bits()).collect()).collect();
                check!(got == want, "probability", "{what} answers {:?} instead of {p:?}", got.iter().map(|r| r.iter().map(|x| f64::from_bits(*x)).collect::<Vec<_>>()).collect::<Vec<_>>());
                sig(hash_step(got.len() as u64, got.iter().flatten().fold(0, |a, x| hash_step(a, *x))));
                v.clear();
                held.push(Held::P(c, got));
                whole(&held, &what);
            }
            2 => {
                // its own boards, or one it was given
                let given = held.iter().rev().find_map(|h| match h {
                    Held::B(c, b) if chance(1, 2) => Some((*c, b.clone())),
                    _ => None,
                });
                let mut m;
                let (c, b) = match given {
                    Some(x) => x,
                    None => {
                        let b = board(120);
                        m = Mine::new(&b);
                        (m.c(), b)
                    }
                };
                let what = format!("cal3BV({})", show(&b));
                note(what.clone());
                let before = ledger::open();
                let x = sut(&what, || ledger::record(|| unsafe { cal3BV(c) }));
                check!(x == bbbv(&b), "3bv", "{what} answers {x} instead of {}", bbbv(&b));
                check!(ledger::open() == before, "leak", "{what} keeps {} allocations", ledger::open() as i64 - before as i64);
                check!(take(c) == b, "input", "{what} changes the board it is given");
                sig(x as u64);
                whole(&held, &what);
            }
            _ => {
                if held.is_empty() {
                    continue;
                }
                let h = held.swap_remove(d(held.len() as u64) as usize);
                give_back(h);
                whole(&held, "giving back a board");
            }
        }
        most = most.max(held.len());
    }
    sample(format!("{n} calls, up to {most} boards held at once"));
    if most >= 2 {
        nontrivial();
    }
    while !held.is_empty() {
        let h = held.swap_remove(d(held.len() as u64) as usize);
        give_back(h);
        whole(&held, "giving back a board");
    }
    check!(ledger::open() == 0, "leak", "{} allocations are left after every board was given back", ledger::open());
    stat("boards_given_back", most as u64);
    ledger::reset();
}
fn give_back(h: Held) {
    match h {
        Held::B(c, b) => {
            note(format!("free_board of {}x{}", b.len(), b[0].len()));
            sut("free_board", || unsafe { free_board(c) });
        }
        Held::P(c, b) => {
            note(format!("free_board_poss of {}x{}", b.len(), b[0].len()));
            sut("free_board_poss", || unsafe { free_board_poss(c) });
        }
    }
}
