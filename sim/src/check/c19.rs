//! C19: statistics of boards.
use crate::board::*;
use ms_toollib::*;
use simrt::*;

pub const P: Prop = Prop {
    id: "C19",
    quick: 120_000,
    thorough: 4_000_000,
    chunk: 400,
    f: c19,
    rule: "a run takes one drawn board (from random to patterns of large openings and islands), asks the free functions on the plain and the protected board, then asks a Board object, and clones of it, for a drawn sequence of up to 30 statistics with repetitions. Non-trivial: the board has at least 4 cells and a mine. Distinct: by hash of board and query sequence",
    real: "Board, cal_bbbv, cal_op, cal_isl, cal_cell_nums, SafeBoard",
    stub: "entropy source",
};
fn shape() -> B {
    match pick(&[100, 40, 40, 20, 2]) {
        0 => board(480),
        1 => {
            // walls of mines cut the board into many openings
            let (n, m) = (range(3, 16) as usize, range(3, 24) as usize);
            let (a, b) = (range(3, 6) as usize, range(3, 6) as usize);
            let mut x: Vec<Vec<bool>> = (0..n).map(|i| (0..m).map(|j| i % a == a - 1 || j % b == b - 1).collect()).collect();
            for _ in 0..d(6) {
                let (i, j) = (d(n as u64) as usize, d(m as u64) as usize);
                x[i][j] = !x[i][j];
            }
            numbers(&x)
        }
        2 => {
            // spaced mines: islands of numbers, single zeros
            let (n, m) = (range(2, 16) as usize, range(2, 24) as usize);
            let (a, b) = (range(1, 4) as usize, range(1, 4) as usize);
            let mut x: Vec<Vec<bool>> = (0..n).map(|i| (0..m).map(|j| i % a == 0 && j % b == 0).collect()).collect();
            for _ in 0..d(12) {
                let (i, j) = (d(n as u64) as usize, d(m as u64) as usize);
                x[i][j] = !x[i][j];
            }
            numbers(&x)
        }
        4 => {
            // boards as large as the replay formats hold: nearly empty, or long snakes of zeros
            let (n, m) = (range(60, 255) as usize, range(60, 255) as usize);
            if chance(1, 2) {
                let k = d(40) as usize;
                board_with(n, m, k)
            } else {
                let a = range(4, 8) as usize;
                let x: Vec<Vec<bool>> = (0..n).map(|i| (0..m).map(|j| i % a == a - 1 && if (i / a) % 2 == 0 { j + 3 < m } else { j >= 3 }).collect()).collect();
                numbers(&x)
            }
        }
        _ => {
            // any density, all mines and none included
            let (n, m) = (range(1, 20) as usize, range(1, 20) as usize);
            let k = d((n * m + 1) as u64) as usize;
            board_with(n, m, k)
        }
    }
}
fn c19() {
    let b = shape();
    let (n, m) = (b.len(), b[0].len());
    note(format!("board {}", show(&b)));
    sample(format!("board {}", show(&b)));
    sig(hash(&b));
    if n * m >= 4 && mines_of(&b) > 0 {
        nontrivial();
    }
    let op = openings(&b).1;
    let mut want = vec![bbbv(&b), op, islands(&b)];
    for x in 0..9 {
        want.push(b.iter().flatten().filter(|&&y| y == x).count());
    }
    let names = ["3BV", "openings", "islands", "cell0", "cell1", "cell2", "cell3", "cell4", "cell5", "cell6", "cell7", "cell8"];
    let nums = |what: &str, a: usize, o: usize, i: usize, c: Vec<usize>| {
        let mut got = vec![a, o, i];
        got.extend(c);
        for x in 0..12 {
            check!(got[x] == want[x], "statistic", "{what}: {} is {} instead of {} for {}", names[x], got[x], want[x], show(&b));
        }
    };
    let big = n * m > 1000;
    let r = if big {
        // as a caller's worker thread, with the stack such a thread has by default
        let b = b.clone();
        std::thread::spawn(move || sut("plain, on a thread of its own", || (cal_bbbv(&b), cal_op(&b), cal_isl(&b), cal_cell_nums(&b)))).join().unwrap()
    } else {
        sut("plain", || (cal_bbbv(&b), cal_op(&b), cal_isl(&b), cal_cell_nums(&b)))
    };
    nums("plain", r.0, r.1, r.2, r.3.iter().map(|&x| x as usize).collect());
    let s = sut("protect", || SafeBoard::new(b.clone()));
    let r = sut("protected", || (cal_bbbv(&s), cal_op(&s), cal_isl(&s), cal_cell_nums(&s)));
    nums("protected", r.0, r.1, r.2, r.3.iter().map(|&x| x as usize).collect());
    let mut x = sut("Board", || Board::new(b.clone()));
    let mut asked: Vec<usize> = vec![];
    for _ in 0..if big { 3 } else { 3 + d(28) } {
        if chance(1, 10) {
            x = sut("clone", || x.clone());
        }
        let q = d(12) as usize;
        let v = sut("statistic", || match q {
            0 => x.get_bbbv(),
            1 => x.get_op(),
            2 => x.get_isl(),
            3 => x.get_cell0(),
            4 => x.get_cell1(),
            5 => x.get_cell2(),
            6 => x.get_cell3(),
            7 => x.get_cell4(),
            8 => x.get_cell5(),
            9 => x.get_cell6(),
            10 => x.get_cell7(),
            _ => x.get_cell8(),
        });
        sig(q as u64);
        asked.push(q);
        check!(v == want[q], "cached", "Board asked for {asked:?}: {} is {v} instead of {} for {}", names[q], want[q], show(&b));
        check!(x.board == b, "cached", "Board changed its board");
    }
}
