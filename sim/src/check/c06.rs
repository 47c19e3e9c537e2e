//! C06: saving replays.
use crate::board::*;
use crate::replay::*;
use crate::session::*;
use simrt::*;
use std::sync::Arc;
pub const P: Prop = Prop {
    id: "C06",
    quick: 300_000,
    thorough: 8_000_000,
    chunk: 200,
    f: run,
    rule: "a run saves one to four replays, each from its own simulated thread, under one name on a simulated disk that may already hold files of that series (with gaps), with drawn interleavings and faults (short writes, interrupts, I/O errors on open and write, full disk, no descriptors, saver crash, power loss). Non-trivial: a file was written. Distinct: by hash of schedule-dependent outcome (names, sizes, verdicts) and contents",
    real: "BaseVideo::save_to_evf_file, std::fs and std::thread",
    stub: "disk (in-memory file system behind libc), thread scheduling",
};
fn name_of(base: &str, k: usize) -> String {
    if k == 1 {
        format!("{base}.evf")
    } else {
        format!("{base}({k}).evf")
    }
}
fn run() {
    let base = ["/simfs/a", "/simfs/replays/nf 60.5_(2)", "/simfs/录像", "/simfs/x.evf"][d(4) as usize].to_string();
    with_fs(|fs| {
        fs.put("/simfs/other.evf", b"other");
        if base.contains("replays") {
            fs.put("/simfs/replays/", b"");
        }
    });
    // what each saver has to store
    let n = 1 + pick(&[3, 4, 2, 2]);
    let mut raws: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        let mut r = if i == 0 && chance(1, 3) {
            clocks();
            let b = board(30);
            let mut l = Live::new(&b, 16, false);
            l.play(5);
            l.s.v.generate_evf_v0_raw_data();
            l.s.v.get_raw_data().unwrap()
        } else {
            let k = [0, 1, 40, 300, 5000][d(5) as usize] + d(30) as usize;
            (0..k).map(|j| (j as u64 * 31 + d(4) * 7) as u8).collect()
        };
        r.push(i as u8);
        raws.push(r);
    }
    let videos: Vec<Old> = raws
        .iter()
        .enumerate()
        .map(|(i, r)| {
            let f = format!("/simfs/source{i}");
            with_fs(|fs| fs.put(&f, r));
            let v = Old::new_with_file(&f);
            with_fs(|fs| fs.remove(&f));
            v
        })
        .collect();
    // files already there
    let taken: Vec<usize> = match pick(&[3, 2, 2, 2]) {
        0 => vec![],
        1 => vec![1],
        2 => (1..=1 + d(5) as usize).collect(),
        _ => (1..8).filter(|_| chance(1, 2)).collect(),
    };
    for &k in &taken {
        with_fs(|fs| fs.put(&name_of(&base, k), format!("old {k}").as_bytes()));
    }
    let before = with_fs(|fs| fs.list());
    let class = pick(&[3, 3, 3, 2]);
    let (mut hard, mut crash) = (false, false);
    with_fs(|fs| {
        fs.guard_existing = true;
        if class >= 1 {
            fs.cfg.short_write = [0, 2, 4][fault(3) as usize];
            fs.cfg.eintr = [0, 3, 8][fault(3) as usize];
        }
        if class == 2 {
            hard = true;
            match fault(5) {
                0 => fs.cfg.eio_write = 2,
                1 => fs.cfg.eio_open = 2,
                2 => fs.cfg.emfile = 2,
                3 => fs.cfg.space = Some(fault(400)),
                _ => {
                    fs.cfg.eio_write = 6;
                    fs.cfg.eio_open = 8;
                    fs.cfg.short_write = 2;
                }
            }
        }
        if class == 3 {
            crash = true;
            fs.cfg.crash = [2, 4][fault(2) as usize];
        }
    });
    note(format!("{n} savers of {base}, taken {taken:?}, sizes {:?}", raws.iter().map(|r| r.len()).collect::<Vec<_>>()));
    sample(format!("{n} savers of {base}, taken {taken:?}, fault class {class}"));
    let base2 = Arc::new(base.clone());
    let first_tid = threads_spawned();
    let mut slots = vec![];
    if n == 1 && chance(1, 2) && !crash {
        let v = &videos[0];
        let r = sut_try("save_to_evf_file", || v.save_to_evf_file(&base));
        slots.push(r.is_ok());
    } else {
        let hs: Vec<_> = videos
            .into_iter()
            .map(|v| {
                let b = base2.clone();
                in_thread(move || v.save_to_evf_file(&b))
            })
            .collect();
        sched::drain();
        for h in hs {
            slots.push(h.lock().unwrap_or_else(|e| e.into_inner()).take().is_some());
        }
    }
    clear_thread_panics();
    let _ = first_tid;
    with_fs(|fs| {
        fs.cfg = Default::default();
        check!(fs.mutated_existing.is_empty(), "destroyed", "a file that existed was changed: {}", fs.mutated_existing.join(", "));
    });
    if crash {
        with_fs(|fs| fs.power_loss());
    }
    let after = with_fs(|fs| fs.list());
    for f in &before {
        check!(after.contains(f), "destroyed", "{f} is gone");
    }
    for &k in &taken {
        let c = with_fs(|fs| fs.get(&name_of(&base, k)).map(|x| x.to_vec())).unwrap_or_default();
        check!(c == format!("old {k}").as_bytes(), "destroyed", "{} no longer holds what it held", name_of(&base, k));
    }
    let new: Vec<&String> = after.iter().filter(|f| !before.contains(f)).collect();
    // names: NAME.evf, NAME(2).evf, ... without leaving out a free one
    let mut ks: Vec<usize> = vec![];
    for f in &new {
        let k = (1..200).find(|&k| &name_of(&base, k) == *f);
        match k {
            Some(k) => ks.push(k),
            None => check!(crash, "name", "a file {f} appeared"),
        }
    }
    let top = ks.iter().cloned().max().unwrap_or(0);
    for k in 1..top {
        check!(taken.contains(&k) || ks.contains(&k), "name", "{} was used although {} is free", name_of(&base, top), name_of(&base, k));
    }
    check!(new.len() <= n, "name", "{} savers made {} files", n, new.len());
    // contents
    let contents: Vec<Vec<u8>> = new.iter().map(|f| with_fs(|fs| fs.get(f).unwrap_or_default().to_vec())).collect();
    for (i, ok) in slots.iter().enumerate() {
        let full = contents.iter().filter(|c| **c == raws[i]).count();
        if *ok && !crash {
            check!(full == 1, "lost", "saver {i} reported success and {} files hold its {} bytes (found sizes {:?})", full, raws[i].len(), contents.iter().map(|c| c.len()).collect::<Vec<_>>());
            stat("saved", 1);
        }
        if !*ok {
            stat("failed_visibly", 1);
        }
        if !hard && !crash {
            check!(*ok, "failed", "saver {i} failed although the disk reported no error");
        }
    }
    for (f, c) in new.iter().zip(&contents) {
        check!(raws.iter().any(|r| r.starts_with(c)), "content", "{f} holds bytes nobody saved");
    }
    for (f, c) in new.iter().zip(&contents) {
        mixlog(hash_step(f.len() as u64, c.len() as u64));
        sig(hash_step(f.len() as u64 * 1000 + c.len() as u64, *c.last().unwrap_or(&0) as u64));
    }
    for ok in &slots {
        sig(*ok as u64);
    }
    if !new.is_empty() {
        nontrivial();
    }
}
