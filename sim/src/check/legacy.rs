//! Games as other programs store them: independent writers of the avf, rmv, mvf (0.97) and evf formats.
use crate::board::*;
use crate::model::*;
use crate::play::Player;
use simrt::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fmt {
    Avf,
    Rmv,
    Mvf,
    Evf,
}
pub struct Entry {
    pub e: &'static str,
    /// row, column pixel
    pub px: Pos,
    pub ms: u64,
    pub md: Model,
}
pub struct Game {
    pub f: Fmt,
    pub b: B,
    pub log: Vec<Entry>,
    pub player: Vec<u8>,
    pub country: Vec<u8>,
    pub start: Vec<u8>,
    pub end: Vec<u8>,
    pub bbbv: usize,
    /// final time in milliseconds
    pub rtime: u64,
    pub level: u8,
    pub mode: u16,
    pub nf: bool,
    pub pf: Vec<Pos>,
    pub old: bool,
}
const PIX: usize = 16;
fn label(n: usize, no: &[u8]) -> Vec<u8> {
    (0..d(n as u64 + 1)).map(|_| 32 + d(224) as u8).filter(|x| !no.contains(x)).collect()
}
fn stamp() -> Vec<u8> {
    format!("{}.{}.{}.{}.{:02}.{:02}.{:04}", 1 + d(28), 1 + d(12), 2000 + d(90), d(24), d(60), d(60), d(10000)).into_bytes()
}
impl Game {
    /// A game that format f can hold, of about n events.
    pub fn draw(f: Fmt, n: usize, max_cells: usize) -> Game {
        let level_board = |md: (usize, usize, usize)| board_with(md.0, md.1, md.2);
        let mut level = 6;
        let (mut h, mut w) = size(max_cells);
        if h > 31 || w > 31 {
            (h, w) = (5, 7);
        }
        let b;
        if max_cells >= 480 && chance(1, 3) {
            level = 3 + d(3) as u8;
            b = level_board([(8, 8, 10), (16, 16, 40), (16, 30, 99)][level as usize - 3]);
        } else {
            b = board_of(h, w);
        }
        let (h, w) = (b.len(), b[0].len());
        let mut md = Model::new(&b);
        let mut pl = Player::draw(false);
        let mut log: Vec<Entry> = vec![];
        let grain = if f == Fmt::Rmv || f == Fmt::Evf { 1 } else { 10 };
        let style = d(4);
        let mut ms = 0u64;
        let mut pf = vec![];
        let cell_px = |p: Pos| if p == (h, w) { (h * PIX, w * PIX) } else { (p.0 * PIX + d(16) as usize, p.1 * PIX + d(16) as usize) };
        let mut put = |md: &mut Model, e: &'static str, px: Pos, ms: u64| {
            let p = (px.0 / PIX, px.1 / PIX);
            let p = if p.0 >= h || p.1 >= w { (h, w) } else { p };
            if e == "pf" {
                md.vis[p.0][p.1] = 11;
                md.ph = Ph::Pre;
                md.c.right += 1;
                md.c.flag += 1;
                if md.b[p.0][p.1] == -1 {
                    md.c.ce += 1;
                    md.flagged.insert(p);
                }
            } else {
                md.step(e, p);
                md.track(e);
            }
            // an mvf record without any change is no event
            if f == Fmt::Mvf && e == "mv" && log.last().map_or(false, |x: &Entry| x.px == px) {
                return;
            }
            log.push(Entry { e, px, ms, md: md.clone() });
        };
        if f == Fmt::Rmv {
            if chance(1, 3) {
                for _ in 0..d(5) {
                    let p = (d(h as u64) as usize, d(w as u64) as usize);
                    if md.vis[p.0][p.1] == 10 {
                        pf.push(p);
                        put(&mut md, "pf", (p.0 * PIX, p.1 * PIX), 0);
                    }
                }
            }
            // the first press is left out of the file: same place and time as the next event
            let k = h * w;
            let s = d(k as u64) as usize;
            let p = (0..k).map(|i| ((s + i) % k / w, (s + i) % k % w)).find(|&p| md.vis[p.0][p.1] == 10 && (b[p.0][p.1] != -1 || k < 4)).unwrap_or((0, 0));
            let px = cell_px(p);
            ms = d(3000);
            put(&mut md, "lc", px, ms);
            let e = if chance(1, 4) { "mv" } else { "lr" };
            put(&mut md, e, px, ms);
        }
        let limit = if f == Fmt::Mvf { 1_000_000 } else { 16_000_000 };
        // avf readers find the event stream by its first record: at most a second after the start
        let mut begun = f != Fmt::Avf;
        let mut tick = |ms: &mut u64| {
            if !begun {
                begun = true;
                *ms = d(100) * 10;
                return;
            }
            *ms += grain
                * match style {
                    0 => d(30),
                    1 => d(2),
                    2 => d(3) * d(40),
                    _ => d(3000 / grain),
                };
            *ms = (*ms).min(limit);
        };
        let mut prev = None;
        for _ in 0..n {
            if md.over() && !chance(1, 2) {
                break;
            }
            let ((e, p), _) = pl.next(&md);
            let e = if e == "cc" {
                if md.l {
                    "rc"
                } else {
                    "lc"
                }
            } else {
                e
            };
            if !md.legal(e) {
                continue;
            }
            // several buttons at once
            let at_once = f == Fmt::Mvf && prev.is_some() && chance(1, 4);
            let px = match prev {
                Some(x) if at_once => x,
                _ => cell_px(p),
            };
            let mut probe = md.clone();
            let c = (px.0 / PIX, px.1 / PIX);
            if probe.step(e, if c.0 >= h || c.1 >= w { (h, w) } else { c }).is_none() {
                continue;
            }
            if f == Fmt::Avf && e == "mv" && ms == 0 && px.1 > 255 {
                continue;
            }
            if !at_once {
                tick(&mut ms);
            }
            put(&mut md, e, px, ms);
            prev = Some(px);
        }
        if chance(4, 5) {
            // bring it to an end
            for (held, e) in [(md.l, "lr"), (md.r, "rr")] {
                if held && !md.over() {
                    put(&mut md, e, (h * PIX, w * PIX), ms);
                }
            }
            let lose = chance(1, 5);
            for k in 0..2 * h * w {
                if md.over() {
                    break;
                }
                let q = |f: &dyn Fn(Pos) -> bool| (0..h * w).map(|i| (i / w, i % w)).find(|&p| f(p));
                let mine = q(&|p| b[p.0][p.1] == -1 && md.vis[p.0][p.1] == 10);
                let t = match mine {
                    Some(p) if lose && k > 2 => Some((p, "lc", "lr")),
                    _ => q(&|p| b[p.0][p.1] != -1 && md.vis[p.0][p.1] == 10).map(|p| (p, "lc", "lr")),
                };
                let t = t.or_else(|| q(&|p| b[p.0][p.1] != -1 && md.vis[p.0][p.1] == 11).map(|p| (p, "rc", "rr")));
                let Some((p, a, z)) = t else { break };
                for e in [a, z] {
                    if !md.over() {
                        tick(&mut ms);
                        let px = cell_px(p);
                        put(&mut md, e, px, ms);
                    }
                }
            }
        }
        if md.ph == Ph::Ready && !md.l && !md.r {
            put(&mut md, "lc", (0, 0), ms);
        }
        let rtime = match f {
            Fmt::Rmv => log.last().unwrap().ms,
            Fmt::Mvf => (d(65536) * 1000 + d(100) * 10).min(65_535_990),
            _ => d(9_000_000),
        };
        let old = f == Fmt::Rmv && chance(1, 3);
        if f != Fmt::Avf {
            level = [3, 4, 5, 6][d(4) as usize];
        }
        let bbbv = bbbv(&b);
        Game {
            f,
            log,
            player: label(20, b"\r"),
            country: label(3, b""),
            start: if f == Fmt::Rmv { (0..10).map(|_| 48 + d(10) as u8).collect() } else { stamp() },
            end: stamp(),
            bbbv: if old { 0 } else { bbbv },
            rtime,
            level,
            mode: match f {
                Fmt::Rmv => d(5) as u16,
                Fmt::Mvf => d(4) as u16,
                _ => 0,
            },
            nf: chance(1, 2),
            pf,
            old,
            b,
        }
    }
    fn mines(&self) -> Vec<Pos> {
        let mut v = vec![];
        for (i, r) in self.b.iter().enumerate() {
            for (j, &x) in r.iter().enumerate() {
                if x == -1 {
                    v.push((i, j));
                }
            }
        }
        for i in (1..v.len()).rev() {
            v.swap(i, d(i as u64 + 1) as usize);
        }
        v
    }
    /// The file and the offset just past its event stream.
    pub fn encode(&self) -> (Vec<u8>, usize) {
        match self.f {
            Fmt::Avf => self.avf(),
            Fmt::Rmv => self.rmv(),
            Fmt::Mvf => self.mvf(),
            Fmt::Evf => self.evf(),
        }
    }
    fn avf(&self) -> (Vec<u8>, usize) {
        let (h, w) = (self.b.len(), self.b[0].len());
        let mut o = vec![d(256) as u8, 0, d(256) as u8, 1, d(256) as u8, self.level];
        let mines = self.mines();
        if self.level == 6 {
            o.extend([w as u8 - 1, h as u8 - 1]);
            o.extend((mines.len() as u16).to_be_bytes());
        }
        for p in &mines {
            o.extend([p.0 as u8 + 1, p.1 as u8 + 1]);
        }
        for _ in 0..d(5) {
            o.push([0, 17, b'|', 90, 33][d(5) as usize]);
        }
        o.extend(format!("[{}|", d(4)).bytes());
        o.extend(&self.start);
        o.push(b'|');
        o.extend(&self.end);
        o.push(b'|');
        match d(3) {
            1 => o.push(b'|'),
            2 => o.extend(b"x|"),
            _ => {}
        }
        let t = self.rtime + 1000;
        let c = if chance(1, 3) { ',' } else { '.' };
        o.extend(format!("B{}T{}{}{:03}]", self.bbbv, t / 1000, c, t % 1000).bytes());
        for _ in 0..1 + d(4) {
            o.push(2 + d(200) as u8);
        }
        for e in &self.log {
            let k = match e.e {
                "mv" => 1,
                "lc" => 3,
                "lr" => [5, 21][d(2) as usize],
                "rc" => 9,
                "rr" => [17, 145][d(2) as usize],
                "mc" => 33,
                "mr" => [65, 193][d(2) as usize],
                _ => unreachable!(),
            };
            let (s, c) = (e.ms / 1000 + 1, e.ms / 10 % 100);
            o.extend([k, (e.px.1 >> 8) as u8, s as u8, e.px.1 as u8, c as u8, (e.px.0 >> 8) as u8, (s >> 8) as u8, e.px.0 as u8]);
        }
        o.extend([d(256) as u8, d(256) as u8, 0, d(256) as u8, d(256) as u8, d(256) as u8, 0, d(256) as u8]);
        let end = o.len();
        o.extend(b"\rRealTime: 9.38\rSkin: ab\r");
        o.extend(&self.player);
        o.push(b'\r');
        o.extend(b"Arbiter 0.52.3");
        (o, end)
    }
    fn junk(o: &mut Vec<u8>, n: usize) {
        for _ in 0..n {
            o.push(d(256) as u8);
        }
    }
    fn rmv(&self) -> (Vec<u8>, usize) {
        let (h, w) = (self.b.len(), self.b[0].len());
        let mut o = b"*rmv".to_vec();
        let u16 = |o: &mut Vec<u8>, x: usize| o.extend((x as u16).to_be_bytes());
        u16(&mut o, 1);
        Game::junk(&mut o, 4);
        let rs = if self.old { [3, 35, 10][d(3) as usize] } else { 36 + [0, 1, 30, 300][d(4) as usize] };
        let vs = d(30) as usize;
        u16(&mut o, rs);
        u16(&mut o, vs);
        Game::junk(&mut o, 4);
        u16(&mut o, if self.pf.is_empty() { 0 } else { 2 + 2 * self.pf.len() });
        let ps = 4 + [0, 0, 5, 1][d(4) as usize];
        u16(&mut o, ps);
        Game::junk(&mut o, 7);
        if self.old {
            Game::junk(&mut o, rs - 3);
        } else {
            Game::junk(&mut o, rs - 32);
            o.extend(if chance(1, 2) { format!("{:3}", self.bbbv) } else { format!("{:<3}", self.bbbv) }.bytes().take(3));
            Game::junk(&mut o, 16);
            o.extend(&self.start);
        }
        Game::junk(&mut o, vs + 2);
        let k = if self.country.is_empty() { 1 + d(2) as usize } else { 3 + d(2) as usize };
        u16(&mut o, k);
        for i in 0..k {
            let s: Vec<u8> = match i {
                0 => self.player.clone(),
                2 => self.country.clone(),
                _ => label(6, b""),
            };
            o.push(s.len() as u8);
            o.extend(s);
        }
        Game::junk(&mut o, 4);
        o.extend([w as u8, h as u8]);
        let mines = self.mines();
        u16(&mut o, mines.len());
        for p in &mines {
            o.extend([p.1 as u8, p.0 as u8]);
        }
        if !self.pf.is_empty() {
            u16(&mut o, self.pf.len());
            for p in &self.pf {
                o.extend([p.1 as u8, p.0 as u8]);
            }
        }
        Game::junk(&mut o, 1);
        o.extend([self.nf as u8, self.mode as u8, self.level - 3]);
        Game::junk(&mut o, ps - 4);
        let mut first = true;
        for e in &self.log {
            if e.e == "pf" {
                continue;
            }
            if first {
                first = false;
                continue;
            }
            match d(12) {
                0 => {
                    o.push(0);
                    Game::junk(&mut o, 4);
                }
                1 => {
                    o.push([9, 14, 18, 27][d(4) as usize]);
                    Game::junk(&mut o, 2);
                }
                _ => {}
            }
            o.push(match e.e {
                "mv" => 1,
                "lc" => 2,
                "lr" => 3,
                "rc" => 4,
                "rr" => 5,
                "mc" => 6,
                "mr" => 7,
                _ => unreachable!(),
            });
            let t = e.ms as u32;
            o.extend([(t >> 16) as u8, (t >> 8) as u8, t as u8, d(256) as u8]);
            let (mut x, mut y) = (e.px.1 as u16, e.px.0 as u16);
            if e.px == (h * PIX, w * PIX) {
                // anywhere outside the board
                match d(4) {
                    0 => x = (w * PIX) as u16 + d(100) as u16,
                    1 => y = (h * PIX) as u16 + d(100) as u16,
                    2 => (x, y) = (0u16.wrapping_sub(1 + d(12) as u16), d(10) as u16),
                    _ => (x, y) = (d(10) as u16, 0u16.wrapping_sub(1 + d(56) as u16)),
                }
            }
            u16(&mut o, x.wrapping_add(12) as usize);
            u16(&mut o, y.wrapping_add(56) as usize);
        }
        o.push(15 + d(3) as u8);
        let end = o.len();
        let k = d(10) as usize;
        Game::junk(&mut o, k);
        (o, end)
    }
    fn mvf(&self) -> (Vec<u8>, usize) {
        let (h, w) = (self.b.len(), self.b[0].len());
        let mut o = vec![0x11, 0x4d];
        Game::junk(&mut o, 25);
        o.push(b'5');
        Game::junk(&mut o, 46);
        o.extend([1 + d(12) as u8, 1 + d(28) as u8]);
        o.extend((2000 + d(30) as u16).to_be_bytes());
        o.extend([d(24) as u8, d(60) as u8, d(60) as u8]);
        // mode as read: 0 classic, 3 density, 1 upk, 2 cheat
        o.extend([self.level - 2, [1, 3, 4, 2][self.mode as usize]]);
        o.extend(((self.rtime / 1000) as u16).to_be_bytes());
        o.push((self.rtime / 10 % 100) as u8);
        o.extend((self.bbbv as u16).to_be_bytes());
        Game::junk(&mut o, 9);
        o.extend([w as u8, h as u8]);
        let mines = self.mines();
        o.extend((mines.len() as u16).to_be_bytes());
        for p in &mines {
            o.extend([p.1 as u8 + 1, p.0 as u8 + 1]);
        }
        o.push(self.player.len() as u8);
        o.extend(&self.player);
        let key = d(65536) as u16;
        o.extend(key.to_be_bytes());
        let pos = places(key);
        // changes at one place and time may share a record, if a reader can tell their order
        let rank = |e: &Entry| ["mv", "lc", "rc", "mc", "lr", "rr", "mr"].iter().position(|x| *x == e.e).unwrap_or(9);
        let button = |e: &Entry| e.e.as_bytes()[0];
        let mut join = vec![false; self.log.len()];
        let mut start = 1;
        for i in 2..self.log.len() {
            let (x, y) = (&self.log[i - 1], &self.log[i]);
            let once = self.log[start..i].iter().all(|z| button(z) != button(y));
            if x.px == y.px && x.ms == y.ms && rank(x) < rank(y) && once && chance(3, 4) {
                join[i] = true;
            } else {
                start = i;
            }
        }
        let n = join.iter().filter(|j| !**j).count();
        o.extend(&(n as u32).to_be_bytes()[1..]);
        let (mut l, mut r, mut m) = (false, false, false);
        for (i, e) in self.log.iter().enumerate() {
            match e.e {
                "lc" => l = true,
                "lr" => l = false,
                "rc" => r = true,
                "rr" => r = false,
                "mc" => m = true,
                "mr" => m = false,
                _ => {}
            }
            if join.get(i + 1) == Some(&true) {
                continue;
            }
            let (s, c) = (e.ms / 1000, e.ms / 10 % 100);
            let v = r as u64 | (m as u64) << 1 | (l as u64) << 2 | (e.px.0 as u64) << 3 | (e.px.1 as u64) << 12 | c << 21 | s << 28;
            let mut rec = [0u8; 5];
            for i in 0..40 {
                // the two top bits are unused
                let bit = if i < 38 { v >> i & 1 } else { d(2) };
                rec[pos[i] / 8] |= (bit as u8) << (pos[i] % 8);
            }
            o.extend(rec);
        }
        let end = o.len();
        let k = d(6) as usize;
        Game::junk(&mut o, k);
        (o, end)
    }
    fn evf(&self) -> (Vec<u8>, usize) {
        let (h, w) = (self.b.len(), self.b[0].len());
        let mut o = vec![0, (d(8) as u8) << 5, h as u8, w as u8];
        o.extend((mines_of(&self.b) as u16).to_be_bytes());
        o.push(PIX as u8);
        o.extend(self.mode.to_be_bytes());
        o.extend((self.bbbv as u16).to_be_bytes());
        o.extend(&(self.rtime as u32).to_be_bytes()[1..]);
        for s in [&b"x"[..], &self.player, b"", b"u", &self.start, &self.end, &self.country, b""] {
            o.extend(s);
            o.push(0);
        }
        let mut acc = 0u8;
        for i in 0..h * w {
            acc |= ((self.b[i / w][i % w] == -1) as u8) << (7 - i % 8);
            if i % 8 == 7 || i + 1 == h * w {
                o.push(acc);
                acc = 0;
            }
        }
        for e in &self.log {
            o.push(match e.e {
                "mv" => 1,
                "lc" => 2,
                "lr" => 3,
                "rc" => 4,
                "rr" => 5,
                "mc" => 6,
                "mr" => 7,
                "pf" => 8,
                _ => 9,
            });
            o.extend(&(e.ms as u32).to_be_bytes()[1..]);
            o.extend((e.px.1 as u16).to_be_bytes());
            o.extend((e.px.0 as u16).to_be_bytes());
        }
        if chance(1, 2) {
            o.push(0);
            Game::junk(&mut o, 32);
        } else {
            o.push(255);
        }
        let end = o.len();
        (o, end)
    }
}
/// Where the 40 bits of an mvf record are kept for a given key.
fn places(key: u16) -> Vec<usize> {
    let lead = key as f64;
    let n1 = lead.sqrt();
    let n2 = (lead + 1000.0).sqrt();
    let n3 = (n1 + 1000.0).sqrt();
    let mut s: Vec<u8> = vec![];
    for v in [(n3 + 1000.0).cos(), n2.sqrt().sin(), n3.cos(), (n1.sqrt() + 1000.0).sin(), (n2 + 1000.0).sqrt().cos()] {
        let t = format!("{:08}", (v * 1e8).abs().round() as u64);
        s.extend(t.bytes().take(8));
    }
    let mut v = vec![];
    for c in b'0'..=b'9' {
        for (j, &x) in s.iter().enumerate() {
            if x == c {
                v.push(j);
            }
        }
    }
    v
}
