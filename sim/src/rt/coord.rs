//! Command line: worker processes, search, confirmation, shrinking, replay files, evidence.
use crate::json::{self, n, s, J};
use crate::rng::mix;
use crate::run;
use crate::world::hash_str;
use crate::Prop;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    mix(hash_str(mix(seed), prop) ^ mix(idx.wrapping_mul(0x9E37)))
}
fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, dflt: u64) -> u64 {
    arg(name).and_then(|x| x.parse().ok()).unwrap_or(dflt)
}

pub fn main(props: &'static [Prop]) {
    unsafe {
        crate::hooks::init();
    }
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).cloned().unwrap_or_default();
    let code = match cmd.as_str() {
        "list" => {
            for p in props {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
            0
        }
        "worker" => worker(find(props, &arg("--prop").unwrap())),
        "exec" => exec(props),
        "replay" => replay(props),
        "run" => Coord::new(find(props, &arg("--prop").unwrap())).run(),
        _ => {
            eprintln!("usage: simcheck list | run --prop ID [--tier T] [--seed N] | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
fn find(props: &'static [Prop], id: &str) -> &'static Prop {
    match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}

// ------------------------------------------------------------------ worker
fn worker(p: &'static Prop) -> i32 {
    run::install_signals();
    let (seed, from, to) = (num("--seed", 1), num("--from", 0), num("--to", 0));
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut simtime = 0u64;
    let stdout = 1;
    for idx in from..to {
        crate::sys::write_all(stdout, format!("B {idx}\n").as_bytes());
        let o = run::run_one(p, run_seed(seed, p.id, idx), idx, None, false);
        let w = &o.w;
        for (k, v) in &w.stats {
            *stats.entry(k.to_string()).or_insert(0) += v;
            if k.starts_with("fault.") {
                *stats.entry(format!("runs_with.{k}")).or_insert(0) += 1;
            }
        }
        *stats.entry("decisions.scenario".into()).or_insert(0) += w.s.pos as u64;
        *stats.entry("decisions.schedule".into()).or_insert(0) += w.d.pos as u64;
        *stats.entry("decisions.fault".into()).or_insert(0) += w.f.pos as u64;
        *stats.entry("context_switches".into()).or_insert(0) += w.switches;
        *stats.entry("edges_executed".into()).or_insert(0) += o.steps;
        if w.th.len() > 1 {
            *stats.entry("runs_multithreaded".into()).or_insert(0) += 1;
        }
        simtime += w.mono.saturating_sub(w.mono0) / 1000;
        let mut line = format!("E {idx} {:x} {:x} {} {:x} {}\n", w.log, w.sig, w.trivial as u8, w.sched_hash, w.switches);
        if idx < 3 || idx == from {
            if let Some(m) = &w.sample {
                line.push_str(&format!("M run {idx} (seed {}): {}\n", w.seed, m.replace('\n', " ")));
            }
        }
        crate::sys::write_all(stdout, line.as_bytes());
    }
    let mut out = String::new();
    for (k, v) in stats {
        out.push_str(&format!("S {k} {v}\n"));
    }
    out.push_str(&format!("S sim_time_us {simtime}\nG "));
    unsafe {
        let ng = (crate::hooks::NGUARDS as usize + 1).min(crate::hooks::NCOV);
        for c in crate::hooks::COV[..ng].chunks(4) {
            let mut v = 0;
            for (i, &b) in c.iter().enumerate() {
                v |= b << i;
            }
            out.push(char::from_digit(v as u32, 16).unwrap());
        }
    }
    out.push_str("\nZ\n");
    crate::sys::write_all(stdout, out.as_bytes());
    // leaked (crashed) simulated threads must not keep the process alive
    crate::sys::exit_now(0)
}
/// One run from recorded tapes (or from a seed), in this process; prints the record.
fn exec(props: &'static [Prop]) -> i32 {
    run::install_signals();
    let p = find(props, &arg("--prop").unwrap());
    let file = arg("--file");
    let (seed, idx, tapes) = match &file {
        Some(f) => {
            let Some(j) = std::fs::read_to_string(f).ok().and_then(|t| json::parse(&t)) else {
                println!("H cannot read {f}");
                return 70;
            };
            let tp = load_tapes(&j);
            (j.get("run_seed").map(|x| x.u64()).unwrap_or(0), j.get("run").map(|x| x.u64()).unwrap_or(0), tp)
        }
        None => {
            let idx = num("--idx", 0);
            (run_seed(num("--seed", 1), p.id, idx), idx, None)
        }
    };
    let tracing = std::env::args().any(|x| x == "--trace");
    let o = run::run_one(p, seed, idx, tapes, tracing);
    let mut out = String::new();
    for l in &o.w.lines {
        out.push_str(&format!("T {}\n", l.replace('\n', " | ")));
    }
    out.push_str(&format!("OK {:x} steps {}\n", o.w.log, o.steps));
    crate::sys::write_all(1, out.as_bytes());
    crate::sys::exit_now(0)
}
fn load_tapes(j: &J) -> Option<[Vec<u64>; 4]> {
    let t = j.get("tapes")?;
    let g = |k: &str| t.get(k).map(|x| x.arr().iter().map(|v| v.u64()).collect::<Vec<u64>>());
    Some([g("scenario")?, g("schedule")?, g("fault")?, g("clock")?])
}
fn me() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}
/// Result of running one execution in a fresh process.
struct Res {
    viol: Option<J>,
    trace: Vec<String>,
    text: String,
}
fn finish(mut c: Child, timeout: Duration) -> (String, Option<i32>, bool) {
    let mut out = c.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = out.read_to_end(&mut b);
        let _ = tx.send(b);
    });
    let (b, timed) = match rx.recv_timeout(timeout) {
        Ok(b) => (b, false),
        Err(_) => {
            let _ = c.kill();
            (rx.recv_timeout(Duration::from_secs(5)).unwrap_or_default(), true)
        }
    };
    let code = c.wait().ok().and_then(|x| x.code());
    (String::from_utf8_lossy(&b).into_owned(), code, timed)
}
fn fresh(p: &Prop, args: &[String], trace: bool) -> Res {
    let mut c = Command::new(me());
    c.arg("exec").arg("--prop").arg(p.id).args(args).stdout(Stdio::piped()).stderr(Stdio::null());
    if trace {
        c.arg("--trace");
    }
    let (text, code, timed) = finish(c.spawn().unwrap(), Duration::from_secs(STALL));
    let mut r = Res { viol: None, trace: vec![], text: text.clone() };
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("T ") {
            r.trace.push(x.to_string());
        }
        if let Some(x) = l.strip_prefix("V ") {
            r.viol = json::parse(x);
        }
    }
    if r.viol.is_none() && (timed || (code != Some(0) && code != Some(70))) {
        let class = if timed { "hang" } else { "crash" };
        r.viol = Some(J::Obj(vec![("class".into(), s(class)), ("msg".into(), s(&format!("the process ended with {code:?}")))]));
    }
    r
}
const STALL: u64 = 150;
/// The process died or stood still (as opposed to a property found broken).
fn is_death(v: &J) -> bool {
    let (class, msg) = (v.get("class").unwrap().str(), v.get("msg").unwrap().str());
    class == "crash" || class == "hang" && msg.contains("real time")
}

fn replay(props: &'static [Prop]) -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let Some(f) = a.get(2) else { return 2 };
    let Some(j) = std::fs::read_to_string(f).ok().and_then(|t| json::parse(&t)) else {
        eprintln!("cannot read {f}");
        return 2;
    };
    let p = find(props, &j.get("property").map(|x| x.str()).unwrap_or_default());
    if let Some(h) = j.get("history") {
        // the violation needs the runs before it in the same process
        let (seed, from, to) = (h.get("seed").unwrap().u64(), h.get("from").unwrap().u64(), h.get("to").unwrap().u64());
        let mut c = Command::new(me());
        c.args(["worker", "--prop", p.id, "--seed", &seed.to_string(), "--from", &from.to_string(), "--to", &to.to_string()]);
        c.stdout(Stdio::piped()).stderr(Stdio::null());
        let (text, _, _) = finish(c.spawn().unwrap(), Duration::from_secs(900));
        for l in text.lines() {
            if let Some(x) = l.strip_prefix("V ") {
                println!("{x}");
                println!("VIOLATION property={} replay={}", p.id, f);
                return 1;
            }
        }
        println!("no violation");
        return 0;
    }
    let r = fresh(p, &["--file".into(), f.clone()], true);
    for l in &r.trace {
        println!("{l}");
    }
    match r.viol {
        Some(v) => {
            println!("class: {}", v.get("class").unwrap().str());
            println!("message: {}", v.get("msg").unwrap().str());
            println!("VIOLATION property={} replay={}", p.id, f);
            1
        }
        None => {
            println!("no violation: {}", r.text.lines().last().unwrap_or(""));
            0
        }
    }
}

// ------------------------------------------------------------------ coordinator
struct Coord {
    p: &'static Prop,
    tier: String,
    seed: u64,
    t0: Instant,
    started: u64,
    stats: BTreeMap<String, u64>,
    sigs: HashSet<u64>,
    all_sigs: HashSet<u64>,
    scheds: HashSet<u64>,
    logs: BTreeMap<u64, String>,
    nontrivial: u64,
    samples: Vec<String>,
    cov: Vec<u8>,
    viols: Vec<(u64, J, (u64, u64))>,
    harness: Vec<String>,
    skipped: u64,
}
enum Msg {
    Line(usize, String),
    End(usize),
}
struct Slot {
    child: Child,
    range: (u64, u64),
    cur: Option<u64>,
    done: bool,
    dead_viol: bool,
    last: Instant,
    recheck: bool,
}
impl Coord {
    fn new(p: &'static Prop) -> Coord {
        let tier = arg("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
        let tier = if tier == "thorough" { tier } else { "quick".to_string() };
        let seed = arg("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|x| x.trim().parse().ok()).unwrap_or(1);
        Coord {
            p,
            tier,
            seed,
            t0: Instant::now(),
            started: 0,
            stats: BTreeMap::new(),
            sigs: HashSet::new(),
            all_sigs: HashSet::new(),
            scheds: HashSet::new(),
            logs: BTreeMap::new(),
            nontrivial: 0,
            samples: vec![],
            cov: vec![],
            viols: vec![],
            harness: vec![],
            skipped: 0,
        }
    }
    fn spawn(&self, slot: usize, r: (u64, u64), tx: &mpsc::Sender<Msg>, recheck: bool) -> Slot {
        let mut c = Command::new(me());
        c.args(["worker", "--prop", self.p.id, "--seed", &self.seed.to_string(), "--from", &r.0.to_string(), "--to", &r.1.to_string()]);
        c.stdout(Stdio::piped()).stderr(Stdio::null());
        let mut child = c.spawn().expect("spawn worker");
        let out = child.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            let mut rd = BufReader::new(out);
            let mut l = Vec::new();
            loop {
                l.clear();
                match rd.read_until(b'\n', &mut l) {
                    Ok(0) | Err(_) => break,
                    Ok(_) => {
                        let _ = tx.send(Msg::Line(slot, String::from_utf8_lossy(&l).trim_end().to_string()));
                    }
                }
            }
            let _ = tx.send(Msg::End(slot));
        });
        Slot { child, range: r, cur: None, done: false, dead_viol: false, last: Instant::now(), recheck }
    }
    fn line(&mut self, sl: &mut Slot, l: &str) {
        sl.last = Instant::now();
        let (k, rest) = l.split_at(l.len().min(1));
        let rest = rest.trim_start();
        match k {
            "B" => sl.cur = rest.parse().ok(),
            "E" => {
                sl.cur = None;
                let f: Vec<&str> = rest.split(' ').collect();
                if f.len() < 6 {
                    return;
                }
                let idx: u64 = f[0].parse().unwrap_or(0);
                if sl.recheck {
                    *self.stats.entry("determinism.rechecked".into()).or_insert(0) += 1;
                    if self.logs.get(&idx).map(|x| x.as_str()) != Some(f[1]) {
                        *self.stats.entry("determinism.diverged".into()).or_insert(0) += 1;
                        eprintln!("run {idx} took another course when repeated alone");
                    }
                    return;
                }
                self.started += 1;
                if idx % 7 == 0 {
                    self.logs.insert(idx, f[1].to_string());
                }
                let sg = u64::from_str_radix(f[2], 16).unwrap_or(0);
                self.all_sigs.insert(sg);
                if f[3] == "0" {
                    self.nontrivial += 1;
                    self.sigs.insert(sg);
                }
                if f[5] != "0" {
                    self.scheds.insert(u64::from_str_radix(f[4], 16).unwrap_or(0));
                }
            }
            "M" if !sl.recheck => {
                if self.samples.len() < 6 {
                    self.samples.push(rest.chars().take(1500).collect());
                }
            }
            "S" if !sl.recheck => {
                if let Some((a, b)) = rest.split_once(' ') {
                    *self.stats.entry(a.to_string()).or_insert(0) += b.parse::<u64>().unwrap_or(0);
                }
            }
            "G" if !sl.recheck => {
                let b = rest.as_bytes();
                if self.cov.len() < b.len() {
                    self.cov.resize(b.len(), 0);
                }
                for (i, c) in b.iter().enumerate() {
                    self.cov[i] |= (*c as char).to_digit(16).unwrap_or(0) as u8;
                }
            }
            "H" => self.harness.push(rest.to_string()),
            "V" => {
                if let Some(j) = json::parse(rest) {
                    sl.dead_viol = true;
                    self.viols.push((j.get("idx").map(|x| x.u64()).unwrap_or(0), j, sl.range));
                }
            }
            "Z" => sl.done = true,
            _ => {}
        }
    }
    fn run(mut self) -> i32 {
        let total = num("--runs", if self.tier == "thorough" { self.p.thorough } else { self.p.quick });
        let cap = num("--cap", if self.tier == "thorough" { 780 } else { 240 });
        let jobs = num("--jobs", 8) as usize;
        let chunk = self.p.chunk.max(1).min(total.div_ceil(jobs as u64).max(1));
        let (tx, rx) = mpsc::channel();
        let mut slots: Vec<Option<Slot>> = (0..jobs).map(|_| None).collect();
        let mut next = 0u64;
        let mut stop = false;
        let mut rechecks: Vec<(u64, u64)> = vec![];
        let mut phase2 = false;
        let mut confirmed: HashSet<u64> = HashSet::new();
        let (mut lost, mut again): (Vec<u64>, Vec<(u64, u64)>) = (vec![], vec![]);
        loop {
            if self.t0.elapsed().as_secs() > cap && !stop {
                stop = true;
                self.skipped = total - next.min(total);
            }
            // a process that died or stood still counts only if it does so again
            if let Some(k) = self.viols.iter().position(|v| !confirmed.contains(&v.0) && is_death(&v.1)) {
                let (idx, j, range) = self.viols[k].clone();
                if lost.len() < 3 && !self.dies_again(idx, &j, range) {
                    eprintln!("run {idx} ended with \"{}\" and did not when repeated: not counted", j.get("msg").unwrap().str());
                    *self.stats.entry("deaths.not_repeatable".into()).or_insert(0) += 1;
                    self.viols.remove(k);
                    lost.push(idx);
                    again.push((idx, range.1));
                } else {
                    confirmed.insert(idx);
                }
            }
            if !self.viols.is_empty() || !self.harness.is_empty() {
                stop = true;
            }
            for i in 0..jobs {
                if slots[i].is_none() && !stop && !phase2 && !again.is_empty() {
                    let r = again.pop().unwrap();
                    slots[i] = Some(self.spawn(i, r, &tx, false));
                } else if slots[i].is_none() && !stop && next < total {
                    let r = (next, (next + chunk).min(total));
                    next = r.1;
                    slots[i] = Some(self.spawn(i, r, &tx, false));
                } else if slots[i].is_none() && phase2 && self.viols.is_empty() {
                    if let Some(r) = rechecks.pop() {
                        slots[i] = Some(self.spawn(i, r, &tx, true));
                    }
                }
            }
            if slots.iter().all(|x| x.is_none()) {
                if !phase2 && self.viols.is_empty() && self.harness.is_empty() && !std::env::args().any(|x| x == "--no-recheck") {
                    // determinism self-check: some runs again, one per process
                    phase2 = true;
                    let keys: Vec<u64> = self.logs.keys().cloned().collect();
                    let m = keys.len().min(std::env::var("SIM_RECHECKS").ok().and_then(|x| x.parse().ok()).unwrap_or(24));
                    for k in 0..m {
                        let idx = keys[k * keys.len() / m];
                        rechecks.push((idx, idx + 1));
                    }
                    stop = true;
                    if !rechecks.is_empty() {
                        continue;
                    }
                }
                break;
            }
            match rx.recv_timeout(Duration::from_millis(500)) {
                Ok(Msg::Line(i, l)) => {
                    if let Some(mut sl) = slots[i].take() {
                        self.line(&mut sl, &l);
                        slots[i] = Some(sl);
                    }
                }
                Ok(Msg::End(i)) => {
                    if let Some(mut sl) = slots[i].take() {
                        let st = sl.child.wait();
                        if !sl.done && !sl.dead_viol && self.harness.is_empty() {
                            let code = format!("{:?}", st.map(|x| x.to_string()));
                            match sl.cur {
                                Some(idx) => {
                                    let j = J::Obj(vec![
                                        ("idx".into(), n(idx)),
                                        ("seed".into(), n(run_seed(self.seed, self.p.id, idx))),
                                        ("class".into(), s("crash")),
                                        ("msg".into(), s(&format!("the process died: {code}"))),
                                    ]);
                                    self.viols.push((idx, j, sl.range));
                                }
                                None => self.harness.push(format!("worker died outside a run: {code}")),
                            }
                        }
                    }
                }
                Err(_) => {}
            }
            for x in slots.iter_mut().flatten() {
                if x.last.elapsed().as_secs() > STALL && !x.dead_viol {
                    if let Some(idx) = x.cur {
                        let _ = x.child.kill();
                        x.dead_viol = true;
                        let j = J::Obj(vec![
                            ("idx".into(), n(idx)),
                            ("seed".into(), n(run_seed(self.seed, self.p.id, idx))),
                            ("class".into(), s("hang")),
                            ("msg".into(), s("no progress in real time")),
                        ]);
                        self.viols.push((idx, j, x.range));
                    } else {
                        let _ = x.child.kill();
                    }
                }
            }
        }
        for x in slots.iter_mut().flatten() {
            let _ = x.child.kill();
        }
        let mut code = 0;
        let mut nviol = 0;
        if !self.viols.is_empty() {
            self.viols.sort_by_key(|x| x.0);
            let known = known(self.p.id);
            let mut reported = false;
            for k in 0..self.viols.len() {
                let (idx, j, r) = (self.viols[k].0, self.viols[k].1.clone(), self.viols[k].2);
                let text = format!("{} {}", j.get("class").unwrap().str(), j.get("msg").unwrap().str());
                if let Some(x) = known.iter().find(|x| text.contains(x.as_str())) {
                    println!("KNOWN-FINDING: property={} {}", self.p.id, x);
                    continue;
                }
                if reported {
                    continue;
                }
                reported = true;
                nviol += 1;
                let path = self.report(idx, &j, r);
                println!("VIOLATION property={} replay={}", self.p.id, path);
                code = 1;
            }
        }
        if code == 0 && !self.harness.is_empty() {
            eprintln!("harness error: {}", self.harness[0]);
            code = 2;
        }
        self.evidence(nviol);
        println!(
            "property={} tier={} seed={} runs={} distinct={} wall={:.1}s exit={}",
            self.p.id,
            self.tier,
            self.seed,
            self.started,
            self.sigs.len(),
            self.t0.elapsed().as_secs_f64(),
            code
        );
        code
    }
    /// Does the run die again, alone or after the runs before it in the same process?
    fn dies_again(&self, idx: u64, v: &J, range: (u64, u64)) -> bool {
        let class = v.get("class").unwrap().str();
        if fresh(self.p, &["--seed".into(), self.seed.to_string(), "--idx".into(), idx.to_string()], false).viol.is_some() {
            return true;
        }
        if class == "hang" {
            return false;
        }
        let mut c = Command::new(me());
        c.args(["worker", "--prop", self.p.id, "--seed", &self.seed.to_string(), "--from", &range.0.to_string(), "--to", &(idx + 1).to_string()]);
        c.stdout(Stdio::piped()).stderr(Stdio::null());
        let (text, code, timed) = finish(c.spawn().unwrap(), Duration::from_secs(STALL));
        timed || code != Some(0) || text.lines().any(|l| l.starts_with("V "))
    }
    fn file(&self, v: &J, idx: u64, trace: &[String], extra: Vec<(String, J)>) -> J {
        let seed = run_seed(self.seed, self.p.id, idx);
        let mut o = vec![
            ("property".into(), s(self.p.id)),
            ("class".into(), v.get("class").cloned().unwrap_or(J::Null)),
            ("message".into(), v.get("msg").cloned().unwrap_or(J::Null)),
            ("verif_seed".into(), n(self.seed)),
            ("run".into(), n(idx)),
            ("run_seed".into(), n(seed)),
        ];
        o.extend(extra);
        if let (Some(a), Some(b), Some(c), Some(d)) = (v.get("s"), v.get("d"), v.get("f"), v.get("c")) {
            o.push((
                "tapes".into(),
                J::Obj(vec![("scenario".into(), a.clone()), ("schedule".into(), b.clone()), ("fault".into(), c.clone()), ("clock".into(), d.clone())]),
            ));
        }
        if !trace.is_empty() {
            o.push(("trace".into(), J::Arr(trace.iter().take(4000).map(|x| s(x)).collect())));
        }
        J::Obj(o)
    }
    fn report(&mut self, idx: u64, v: &J, range: (u64, u64)) -> String {
        let dir = "/verif/replays";
        let _ = std::fs::create_dir_all(dir);
        let path = format!("{dir}/{}-{}-{}.json", self.p.id, self.seed, idx);
        let tmp = format!("{dir}/.{}-{}.tmp", self.p.id, std::process::id());
        let class = v.get("class").unwrap().str();
        println!("violation in run {idx}: [{}] {}", class, v.get("msg").unwrap().str());
        let write = |f: &str, j: &J| {
            let _ = std::fs::write(f, j.text());
        };
        // confirm in a fresh process
        let first = fresh(self.p, &["--seed".into(), self.seed.to_string(), "--idx".into(), idx.to_string()], false);
        let same = first.viol.as_ref().map(|x| x.get("class").unwrap().str()) == Some(class.clone());
        if !same {
            let h = J::Obj(vec![("seed".into(), n(self.seed)), ("from".into(), n(range.0)), ("to".into(), n(idx + 1))]);
            write(&path, &self.file(v, idx, &[], vec![("history".into(), h)]));
            return path;
        }
        let mut best = first.viol.clone().unwrap();
        if best.get("s").is_none() {
            write(&path, &self.file(&best, idx, &[], vec![]));
            return path;
        }
        // shrink
        let keys = ["s", "d", "f", "c"];
        let mut tapes: Vec<Vec<u64>> = keys.iter().map(|k| best.get(k).unwrap().arr().iter().map(|x| x.u64()).collect()).collect();
        let orig: usize = tapes.iter().map(|t| t.len()).sum();
        let end = Instant::now() + Duration::from_secs(num("--shrink", 40));
        let mut tries = 0u64;
        let this = &*self;
        let mut attempt = |t: &Vec<Vec<u64>>, best: &mut J| -> Option<Vec<Vec<u64>>> {
            tries += 1;
            let mut j = J::Obj(vec![]);
            if let J::Obj(o) = &mut j {
                for (i, k) in keys.iter().enumerate() {
                    o.push((k.to_string(), J::Arr(t[i].iter().map(|&x| n(x)).collect())));
                }
            }
            write(&tmp, &this.file(&j, idx, &[], vec![]));
            let r = fresh(this.p, &["--file".into(), tmp.clone()], false);
            let v = r.viol?;
            if v.get("class")?.str() != class || v.get("s").is_none() {
                return None;
            }
            let nt: Vec<Vec<u64>> = keys.iter().map(|k| v.get(k).unwrap().arr().iter().map(|x| x.u64()).collect()).collect();
            *best = v;
            Some(nt)
        };
        // the tape form must reproduce it
        let mut ok = false;
        if let Some(nt) = attempt(&tapes, &mut best) {
            tapes = nt;
            ok = true;
        }
        if ok {
            let weight = |t: &Vec<Vec<u64>>| -> (usize, u128) { (t.iter().map(|x| x.len()).sum(), t.iter().flatten().map(|&x| x as u128).sum()) };
            'outer: loop {
                let before = weight(&tapes);
                for k in 0..4 {
                    if !tapes[k].is_empty() {
                        let mut t = tapes.clone();
                        t[k].clear();
                        if let Some(nt) = attempt(&t, &mut best) {
                            tapes = nt;
                        }
                    }
                    let mut size = tapes[k].len() / 2;
                    while size >= 1 {
                        let mut pos = 0;
                        while pos < tapes[k].len() {
                            if Instant::now() > end {
                                break 'outer;
                            }
                            let e = (pos + size).min(tapes[k].len());
                            let mut t = tapes.clone();
                            t[k].drain(pos..e);
                            if let Some(nt) = attempt(&t, &mut best) {
                                if weight(&nt) < weight(&tapes) {
                                    tapes = nt;
                                    continue;
                                }
                            }
                            if tapes[k][pos..e.min(tapes[k].len())].iter().any(|&x| x != 0) {
                                let mut t = tapes.clone();
                                for x in &mut t[k][pos..e] {
                                    *x = 0;
                                }
                                if let Some(nt) = attempt(&t, &mut best) {
                                    if weight(&nt) < weight(&tapes) {
                                        tapes = nt;
                                    }
                                }
                            }
                            pos += size;
                        }
                        size /= 2;
                    }
                    for pos in 0..tapes[k].len() {
                        for f in [|x: u64| x / 2, |x: u64| x - 1] {
                            if Instant::now() > end {
                                break 'outer;
                            }
                            if pos < tapes[k].len() && tapes[k][pos] > 1 {
                                let mut t = tapes.clone();
                                t[k][pos] = f(t[k][pos]);
                                if let Some(nt) = attempt(&t, &mut best) {
                                    if weight(&nt) < weight(&tapes) {
                                        tapes = nt;
                                    }
                                }
                            }
                        }
                    }
                }
                if weight(&tapes) >= before {
                    break;
                }
            }
        }
        let _ = std::fs::remove_file(&tmp);
        let left: usize = tapes.iter().map(|t| t.len()).sum();
        // final form, with its trace
        let extra = vec![("decisions_before_shrinking".into(), n(orig as u64)), ("decisions".into(), n(left as u64)), ("shrink_attempts".into(), n(tries))];
        let mut j = J::Obj(vec![("class".into(), s(&class)), ("msg".into(), best.get("msg").cloned().unwrap())]);
        if ok {
            if let J::Obj(o) = &mut j {
                for (i, k) in keys.iter().enumerate() {
                    o.push((k.to_string(), J::Arr(tapes[i].iter().map(|&x| n(x)).collect())));
                }
            }
        }
        write(&path, &self.file(&j, idx, &[], extra.clone()));
        let r = fresh(self.p, &["--file".into(), path.clone()], true);
        write(&path, &self.file(&j, idx, &r.trace, extra));
        println!("minimised from {orig} to {left} decisions: {}", best.get("msg").unwrap().str());
        path
    }
    fn evidence(&self, nviol: u64) {
        let wall = self.t0.elapsed().as_secs_f64();
        let mut faults = vec![];
        let mut probes = vec![];
        for (k, v) in &self.stats {
            if let Some(x) = k.strip_prefix("fault.") {
                faults.push((x.to_string(), n(*v)));
            } else {
                probes.push((k.clone(), n(*v)));
            }
        }
        let edges: u32 = self.cov.iter().map(|x| x.count_ones()).sum();
        let cov = J::Obj(vec![
            ("evaluations".into(), n(self.started)),
            ("distinct_nontrivial".into(), n(self.sigs.len() as u64)),
            ("nontrivial_runs".into(), n(self.nontrivial)),
            ("rule".into(), s(self.p.rule)),
            ("samples".into(), J::Arr(self.samples.iter().map(|x| s(x)).collect())),
            ("runs_per_hour".into(), n((self.started as f64 / wall.max(0.001) * 3600.0) as u64)),
            ("seeds".into(), s(&format!("run seed = hash(VERIF_SEED={}, {}, run index 0..{})", self.seed, self.p.id, self.started))),
            ("runs_skipped_by_wall_cap".into(), n(self.skipped)),
            ("simulated_seconds".into(), J::Num(*self.stats.get("sim_time_us").unwrap_or(&0) as f64 / 1e6)),
            ("faults_injected".into(), J::Obj(faults)),
            ("distinct_interleavings".into(), n(self.scheds.len() as u64)),
            ("code_edges_reached".into(), n(edges as u64)),
            ("counters".into(), J::Obj(probes)),
            ("real_components".into(), s(self.p.real)),
            ("stub_components".into(), s(self.p.stub)),
        ]);
        let j = J::Obj(vec![
            ("property".into(), s(self.p.id)),
            ("tier".into(), s(&self.tier)),
            ("seed".into(), n(self.seed)),
            ("level".into(), s("exploration")),
            ("coverage".into(), cov),
            (
                "assumptions".into(),
                J::Arr(vec![
                    s("the simulator's model of threads (sequentially consistent, pre-empted at instrumented edges and system calls), clocks, entropy and files stands for the real ones"),
                    s("sampling: a clean batch is evidence, not proof"),
                ]),
            ),
            ("wall_s".into(), J::Num(wall)),
            ("violations".into(), n(nviol)),
        ]);
        let _ = std::fs::create_dir_all("/verif/evidence");
        let f = format!("/verif/evidence/{}.json", self.p.id);
        let mut fh = std::fs::File::create(&f).expect("evidence file");
        let _ = fh.write_all(j.text().as_bytes());
    }
}
/// Lines "known: property=<id> <text>" of the committed file: text must occur in "class message".
fn known(id: &str) -> Vec<String> {
    let t = std::fs::read_to_string("/verif/known_findings.txt").unwrap_or_default();
    let pre = format!("known: property={id} ");
    t.lines().filter_map(|l| l.strip_prefix(&pre)).map(|x| x.to_string()).collect()
}
