//! Reference model of a game on a fixed board: exact for event sequences a working mouse can
//! produce, and a set of admissible effects for every other sequence.
use crate::board::*;
use std::collections::HashSet;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ph {
    Ready,
    Pre,
    Playing,
    Win,
    Loss,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Cnt {
    pub left: usize,
    pub right: usize,
    pub double: usize,
    pub ce: usize,
    pub flag: usize,
    pub solved: usize,
}
#[derive(Clone)]
pub struct Model {
    pub b: B,
    pub n: usize,
    pub m: usize,
    pub vis: B,
    pub ph: Ph,
    pub l: bool,
    pub r: bool,
    pub mid: bool,
    /// a chord happened since the left button went down
    chorded: bool,
    /// the held right press was counted on an opened cell and no chord followed yet
    rpend: bool,
    pub c: Cnt,
    pub flagged: HashSet<Pos>,
    /// the sequence so far is one a working mouse can produce and the board handles exactly
    pub exact: bool,
    pub left_outside: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Eff {
    None,
    Left,
    Chord,
    Toggle,
}
impl Model {
    pub fn new(b: &B) -> Model {
        let (n, m) = (b.len(), b[0].len());
        Model {
            b: b.clone(),
            n,
            m,
            vis: vec![vec![10; m]; n],
            ph: Ph::Ready,
            l: false,
            r: false,
            mid: false,
            chorded: false,
            rpend: false,
            c: Cnt::default(),
            flagged: HashSet::new(),
            exact: true,
            left_outside: false,
        }
    }
    pub fn inside(&self, p: Pos) -> bool {
        p.0 < self.n && p.1 < self.m
    }
    pub fn over(&self) -> bool {
        matches!(self.ph, Ph::Win | Ph::Loss)
    }
    fn flags(&self) -> usize {
        self.vis.iter().flatten().filter(|&&x| x == 11).count()
    }
    pub fn all_open(b: &B, vis: &B) -> bool {
        b.iter().flatten().zip(vis.iter().flatten()).all(|(x, y)| *x == -1 || *y < 10)
    }
    fn verdict(&mut self, hit: bool) {
        if hit {
            self.ph = Ph::Loss;
        } else if Model::all_open(&self.b, &self.vis) {
            self.ph = Ph::Win;
        }
    }
    pub fn left_effect(b: &B, vis: &B, p: Pos) -> (B, bool, bool) {
        let mut v = vis.clone();
        if v[p.0][p.1] != 10 {
            return (v, false, false);
        }
        let hit = open(b, &mut v, &[p]);
        (v, hit, true)
    }
    pub fn chord_effect(b: &B, vis: &B, p: Pos) -> (B, bool, bool) {
        let mut v = vis.clone();
        let x = v[p.0][p.1];
        if x == 0 || x > 8 {
            return (v, false, false);
        }
        let nb = near(p, b.len(), b[0].len());
        let f = nb.iter().filter(|q| vis[q.0][q.1] == 11).count() as i32;
        let cov: Vec<Pos> = nb.into_iter().filter(|q| vis[q.0][q.1] == 10).collect();
        if f != x || cov.is_empty() {
            return (v, false, false);
        }
        let hit = open(b, &mut v, &cov);
        (v, hit, true)
    }
    fn left_click(&mut self, p: Pos) -> u8 {
        self.c.left += 1;
        let (v, hit, did) = Model::left_effect(&self.b, &self.vis, p);
        if !did {
            return 0;
        }
        self.vis = v;
        if !hit {
            self.c.ce += 1;
        }
        self.verdict(hit);
        if hit {
            0
        } else {
            2
        }
    }
    fn chord(&mut self, p: Pos) -> u8 {
        if !self.inside(p) {
            return 0;
        }
        self.c.double += 1;
        let (v, hit, did) = Model::chord_effect(&self.b, &self.vis, p);
        if !did {
            return 0;
        }
        self.vis = v;
        self.c.ce += 1;
        self.verdict(hit);
        3
    }
    fn toggle(&mut self, p: Pos) -> u8 {
        self.c.right += 1;
        match self.vis[p.0][p.1] {
            10 => {
                self.vis[p.0][p.1] = 11;
                if self.b[p.0][p.1] == -1 && self.flagged.insert(p) {
                    self.c.ce += 1;
                }
                1
            }
            11 => {
                self.vis[p.0][p.1] = 10;
                1
            }
            _ => 0,
        }
    }
    fn to_ready(&mut self) {
        self.ph = Ph::Ready;
        self.c = Cnt::default();
        self.flagged.clear();
        for r in self.vis.iter_mut() {
            for x in r.iter_mut() {
                *x = 10;
            }
        }
    }
    /// Apply an event. None: the event must be refused. Otherwise the expected usefulness (or 255
    /// when no claim is made about it).
    pub fn step(&mut self, e: &str, p: Pos) -> Option<u8> {
        let r = self.step_(e, p);
        self.c.flag = self.vis.iter().flatten().filter(|&&x| x == 11 || x == 14).count();
        self.c.solved = solved(&self.b, &self.vis);
        r
    }
    fn step_(&mut self, e: &str, p: Pos) -> Option<u8> {
        if self.over() {
            return Some(0);
        }
        let ins = self.inside(p);
        match e {
            "mv" => Some(0),
            "mc" | "mr" if self.ph != Ph::Playing => None,
            "mc" => {
                self.mid = true;
                Some(0)
            }
            "mr" => {
                self.mid = false;
                Some(if ins { self.chord(p) } else { 0 })
            }
            "lc" => {
                if self.r {
                    // chording begins
                    self.l = true;
                    self.chorded = false;
                    return Some(0);
                }
                self.l = true;
                self.chorded = false;
                self.left_outside = !ins;
                if self.ph == Ph::Ready && ins {
                    self.ph = Ph::Pre;
                }
                Some(0)
            }
            "rc" => {
                if self.l {
                    // chording begins; before the game a lone press is taken back
                    if self.ph == Ph::Ready && self.left_outside && !self.chorded && !self.r {
                        return None;
                    }
                    if self.ph == Ph::Pre && self.flags() == 0 && !self.chorded && ins {
                        self.to_ready();
                    }
                    self.r = true;
                    self.rpend = false;
                    return Some(0);
                }
                self.r = true;
                self.rpend = false;
                if !ins {
                    return Some(0);
                }
                match self.ph {
                    Ph::Playing => {
                        let opened = self.vis[p.0][p.1] < 10;
                        self.rpend = opened;
                        Some(self.toggle(p))
                    }
                    _ => {
                        if self.vis[p.0][p.1] == 11 && self.flags() == 1 {
                            self.to_ready();
                            return Some(1);
                        }
                        self.ph = Ph::Pre;
                        Some(self.toggle(p))
                    }
                }
            }
            "cc" => {
                // both buttons are down; which one came second is not told
                if self.l == self.r {
                    return Some(0);
                }
                if self.l && self.ph == Ph::Pre && self.flags() == 0 && !self.chorded && ins {
                    self.to_ready();
                }
                if self.r {
                    self.chorded = false;
                } else {
                    self.rpend = false;
                }
                self.l = true;
                self.r = true;
                Some(0)
            }
            "lr" => {
                self.l = false;
                if self.r {
                    if self.rpend {
                        self.c.right -= 1;
                        self.rpend = false;
                    }
                    return Some(match self.ph {
                        Ph::Ready => 0,
                        _ => self.chord(p),
                    });
                }
                if self.chorded {
                    self.chorded = false;
                    return Some(0);
                }
                match self.ph {
                    Ph::Ready => Some(0),
                    Ph::Pre => {
                        if !ins {
                            if self.flags() == 0 {
                                self.to_ready();
                            }
                            return Some(0);
                        }
                        if self.vis[p.0][p.1] == 10 {
                            self.ph = Ph::Playing;
                            Some(self.left_click(p))
                        } else {
                            Some(0)
                        }
                    }
                    _ => Some(if ins { self.left_click(p) } else { 0 }),
                }
            }
            "rr" => {
                self.r = false;
                if self.l {
                    self.chorded = true;
                    if self.rpend {
                        self.c.right -= 1;
                        self.rpend = false;
                    }
                    return Some(match self.ph {
                        Ph::Ready => 0,
                        _ => self.chord(p),
                    });
                }
                self.rpend = false;
                Some(0)
            }
            _ => Some(255),
        }
    }
    /// Follow the buttons only.
    pub fn track(&mut self, e: &str) {
        match e {
            "lc" => self.l = true,
            "lr" | "crl" => self.l = false,
            "rc" => self.r = true,
            "rr" | "crr" => self.r = false,
            "mc" => self.mid = true,
            "mr" => self.mid = false,
            "cc" => {
                self.l = true;
                self.r = true;
            }
            _ => {}
        }
    }
    /// can a working mouse produce this event now?
    pub fn legal(&self, e: &str) -> bool {
        match e {
            "mv" => true,
            "lc" => !self.l,
            "lr" => self.l,
            "rc" => !self.r,
            "rr" => self.r,
            "mc" => !self.mid,
            "mr" => self.mid,
            "cc" => self.l != self.r,
            _ => false,
        }
    }
    pub fn admissible(e: &str) -> &'static [Eff] {
        match e {
            "lr" | "l" => &[Eff::None, Eff::Left, Eff::Chord],
            "rr" | "mr" | "m" | "crl" | "crr" => &[Eff::None, Eff::Chord],
            "r" => &[Eff::None, Eff::Chord, Eff::Toggle],
            "rc" | "pf" => &[Eff::None, Eff::Toggle],
            _ => &[Eff::None],
        }
    }
    /// Which admissible effect of event e at p leads from self.vis to v?
    pub fn explain(&self, e: &str, p: Pos, v: &B) -> Option<(Eff, bool)> {
        for &f in Model::admissible(e) {
            if f != Eff::None && !self.inside(p) {
                continue;
            }
            let (x, hit) = match f {
                Eff::None => (self.vis.clone(), false),
                Eff::Left => {
                    let t = Model::left_effect(&self.b, &self.vis, p);
                    (t.0, t.1)
                }
                Eff::Chord => {
                    let t = Model::chord_effect(&self.b, &self.vis, p);
                    (t.0, t.1)
                }
                Eff::Toggle => {
                    let mut t = self.vis.clone();
                    let c = &mut t[p.0][p.1];
                    if *c == 10 {
                        *c = 11
                    } else if *c == 11 {
                        *c = 10
                    }
                    (t, false)
                }
            };
            if &x == v {
                return Some((f, hit));
            }
        }
        None
    }
}
