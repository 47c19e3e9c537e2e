//! Boards and the definitions of minesweeper, written independently of the library.
use simrt::*;
pub type B = Vec<Vec<i32>>;
pub type Pos = (usize, usize);

pub fn near(p: Pos, n: usize, m: usize) -> Vec<Pos> {
    let mut v = Vec::with_capacity(8);
    for i in p.0.saturating_sub(1)..(p.0 + 2).min(n) {
        for j in p.1.saturating_sub(1)..(p.1 + 2).min(m) {
            if (i, j) != p {
                v.push((i, j));
            }
        }
    }
    v
}
pub fn numbers(mines: &[Vec<bool>]) -> B {
    let (n, m) = (mines.len(), mines[0].len());
    let mut b = vec![vec![0; m]; n];
    for i in 0..n {
        for j in 0..m {
            b[i][j] = if mines[i][j] { -1 } else { near((i, j), n, m).iter().filter(|p| mines[p.0][p.1]).count() as i32 };
        }
    }
    b
}
pub fn mines_of(b: &B) -> usize {
    b.iter().flatten().filter(|&&x| x == -1).count()
}
/// (row, column, mines)
pub fn size(max_cells: usize) -> (usize, usize) {
    let (n, mut m) = match pick(&[5, 4, 2, 1, 1, 1]) {
        0 => (range(1, 6) as usize, range(1, 6) as usize),
        1 => (range(4, 9) as usize, range(4, 9) as usize),
        2 => (8, 8),
        3 => (16, 16),
        4 => (16, 30),
        _ => (range(1, 3) as usize, range(1, 30) as usize),
    };
    if n * m < 2 {
        m = 2;
    }
    if n * m > max_cells {
        return size_small(max_cells);
    }
    (n, m)
}
fn size_small(max_cells: usize) -> (usize, usize) {
    let n = range(1, 6) as usize;
    (n, (range(2, 8) as usize).min(max_cells / n).max(1))
}
/// 3 beginner, 4 intermediate, 5 expert, 6 custom
pub fn level_of(b: &B) -> u8 {
    match (b.len(), b[0].len(), mines_of(b)) {
        (8, 8, 10) => 3,
        (16, 16, 40) => 4,
        (16, 30, 99) => 5,
        _ => 6,
    }
}
pub fn board_of(n: usize, m: usize) -> B {
    let cells = n * m;
    match (n, m) {
        (8, 8) if chance(1, 2) => return board_with(n, m, 10),
        (16, 16) if chance(1, 2) => return board_with(n, m, 40),
        (16, 30) if chance(1, 2) => return board_with(n, m, 99),
        _ => {}
    }
    let k = match pick(&[6, 3, 2, 1]) {
        0 => cells * range(8, 22) as usize / 100,
        1 => cells * range(2, 10) as usize / 100,
        2 => cells * range(20, 60) as usize / 100,
        _ => range(0, (cells - 1).min(3) as i64) as usize,
    }
    .min(cells - 1);
    board_with(n, m, k)
}
pub fn board_with(n: usize, m: usize, k: usize) -> B {
    let cells = n * m;
    let mut idx: Vec<usize> = (0..cells).collect();
    let mut mines = vec![vec![false; m]; n];
    for i in 0..k {
        let j = i + d((cells - i) as u64) as usize;
        idx.swap(i, j);
        mines[idx[i] / m][idx[i] % m] = true;
    }
    numbers(&mines)
}
pub fn board(max_cells: usize) -> B {
    let (n, m) = size(max_cells);
    board_of(n, m)
}
/// Openings: 8-connected sets of zero cells. Returns the label of each zero cell and their number.
pub fn openings(b: &B) -> (Vec<Vec<usize>>, usize) {
    let (n, m) = (b.len(), b[0].len());
    let mut lab = vec![vec![usize::MAX; m]; n];
    let mut k = 0;
    for i in 0..n {
        for j in 0..m {
            if b[i][j] == 0 && lab[i][j] == usize::MAX {
                let mut st = vec![(i, j)];
                lab[i][j] = k;
                while let Some(p) = st.pop() {
                    for q in near(p, n, m) {
                        if b[q.0][q.1] == 0 && lab[q.0][q.1] == usize::MAX {
                            lab[q.0][q.1] = k;
                            st.push(q);
                        }
                    }
                }
                k += 1;
            }
        }
    }
    (lab, k)
}
pub fn isolated(b: &B, p: Pos) -> bool {
    b[p.0][p.1] > 0 && near(p, b.len(), b[0].len()).iter().all(|q| b[q.0][q.1] != 0)
}
pub fn bbbv(b: &B) -> usize {
    let (n, m) = (b.len(), b[0].len());
    let mut k = openings(b).1;
    for i in 0..n {
        for j in 0..m {
            k += isolated(b, (i, j)) as usize;
        }
    }
    k
}
/// islands: 8-connected sets of numbers that border no opening
pub fn islands(b: &B) -> usize {
    let (n, m) = (b.len(), b[0].len());
    let mut seen = vec![vec![false; m]; n];
    let mut k = 0;
    for i in 0..n {
        for j in 0..m {
            if isolated(b, (i, j)) && !seen[i][j] {
                k += 1;
                let mut st = vec![(i, j)];
                seen[i][j] = true;
                while let Some(p) = st.pop() {
                    for q in near(p, n, m) {
                        if isolated(b, q) && !seen[q.0][q.1] {
                            seen[q.0][q.1] = true;
                            st.push(q);
                        }
                    }
                }
            }
        }
    }
    k
}
/// 3BV already solved on a visible board.
pub fn solved(b: &B, vis: &B) -> usize {
    let (n, m) = (b.len(), b[0].len());
    let (lab, k) = openings(b);
    let mut done = vec![true; k];
    let mut r = 0;
    for i in 0..n {
        for j in 0..m {
            if b[i][j] == 0 {
                if vis[i][j] != 0 {
                    done[lab[i][j]] = false;
                }
            } else if vis[i][j] < 10 && isolated(b, (i, j)) {
                r += 1;
            }
        }
    }
    r + done.iter().filter(|&&x| x).count()
}
/// Open the given covered cells by the rules (flood from zeros over covered cells without a flag).
/// Returns whether a mine was hit; then wrong flags are marked.
pub fn open(b: &B, vis: &mut B, cells: &[Pos]) -> bool {
    let (n, m) = (b.len(), b[0].len());
    let mut hit = false;
    let mut st: Vec<Pos> = cells.to_vec();
    while let Some(p) = st.pop() {
        if vis[p.0][p.1] != 10 {
            continue;
        }
        match b[p.0][p.1] {
            -1 => {
                vis[p.0][p.1] = 15;
                hit = true;
            }
            0 => {
                vis[p.0][p.1] = 0;
                for q in near(p, n, m) {
                    if vis[q.0][q.1] == 10 {
                        st.push(q);
                    }
                }
            }
            x => vis[p.0][p.1] = x,
        }
    }
    if hit {
        for i in 0..n {
            for j in 0..m {
                if vis[i][j] == 11 && b[i][j] != -1 {
                    vis[i][j] = 14;
                }
            }
        }
    }
    hit
}
pub fn show(b: &B) -> String {
    b.iter()
        .map(|r| {
            r.iter()
                .map(|&x| match x {
                    -1 => "*".into(),
                    10 => ".".into(),
                    11 => "F".into(),
                    14 => "X".into(),
                    15 => "#".into(),
                    x => format!("{x}"),
                })
                .collect::<Vec<String>>()
                .join("")
        })
        .collect::<Vec<_>>()
        .join("/")
}
pub fn hash(b: &B) -> u64 {
    let mut h = b.len() as u64;
    for r in b {
        for &x in r {
            h = hash_step(h, x as u64);
        }
    }
    h
}
