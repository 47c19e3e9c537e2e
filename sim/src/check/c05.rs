//! C05: replay round trip and torn files. C06: saving. C09: reproduction. C08: playback.
use crate::board::*;
use crate::model::*;
use crate::replay::*;
use crate::session::*;
use simrt::*;
use std::collections::{BTreeMap, HashMap};

pub const P5: Prop = Prop {
    id: "C05",
    quick: 60000,
    thorough: 1800000,
    chunk: 60,
    f: c05,
    rule: "a run is one finished live game with drawn labels and checksum history, encoded, saved to the simulated disk under drawn short writes, interrupts, crashes of the saver and power loss, read back under short reads, then cut at drawn lengths (all lengths for small files). Non-trivial: at least 4 events recorded. Distinct: by hash of boards reached",
    real: "BaseVideo session, generate_evf_v0_raw_data, set_checksum, save_to_evf_file, EvfVideo::new, parse_video, std::fs",
    stub: "disk (in-memory file system behind libc), clock, player",
};
pub const P8: Prop = Prop {
    id: "C08",
    quick: 200000,
    thorough: 6000000,
    chunk: 60,
    f: c08,
    rule: "a run plays one replay: a live game is recorded, encoded, parsed, analysed, then sought 60 times by time and event in drawn order, with repeats and out-of-range targets; after each seek everything shown is compared with the live session after the last event not later than the time sought. Non-trivial: at least 4 events. Distinct: by hash of boards reached",
    real: "BaseVideo playback (set_current_time, set_current_event_id, getters), EvfVideo, analyse",
    stub: "clock, player, disk",
};
pub const P9: Prop = Prop {
    id: "C09",
    quick: 150000,
    thorough: 4500000,
    chunk: 100,
    f: c09,
    rule: "a run is one live game under drawn timing and event faults, encoded, parsed and analysed; every event and every final indicator is compared between the live session, the replay and the definitions. Non-trivial: at least 4 events. Distinct: by hash of boards reached",
    real: "BaseVideo session, EVF codec, BaseVideo::analyse, indicator getters",
    stub: "clock, player, disk",
};
fn game(max_cells: usize, n: usize, faulty: bool) -> Live {
    clocks();
    let (h, w) = if max_cells > 480 { size_big() } else { size(max_cells) };
    let b = board_of(h, w);
    let mut pix = PIX[d(6) as usize];
    if chance(1, 3) {
        pix = 16;
    }
    let mut l = Live::new(&b, pix, faulty);
    note(format!("board {} cell size {pix}", show(&b)));
    sample(format!("board {}x{} {}, cell size {pix}, ticks {}", h, w, if h * w < 100 { show(&b) } else { String::new() }, l.tick.style));
    if chance(1, 3) {
        let v = &mut l.s.v;
        let r = sut("set_board", || v.set_board(b.clone()));
        check!(r.is_ok(), "board", "set_board refused before the game");
    }
    l.play(n);
    l
}
/// A game the format has no room for (more than 255 rows or columns, 2^24 ms or more) is not
/// written as something else: encoding it fails, or it reads back as it was.
fn beyond() {
    clocks();
    let long = chance(1, 2);
    let (h, w) = if long {
        size(60)
    } else {
        let (a, b) = (range(1, 3) as usize, [255, 256, 257, 300, 511, 512, 513][d(7) as usize]);
        if chance(1, 2) { (a, b) } else { (b, a) }
    };
    let b = board_of(h, w);
    let mut l = Live::new(&b, 16, chance(1, 3));
    if long {
        // 2^24 ms are 16777.216 s; some games end just below
        l.tick.left = [16_777_215_000_000, 16_777_216_000_000, 16_778_000_000_000, 40_000_000_000_000, 5_000_000_000_000_000][d(5) as usize];
        l.tick.style = 4;
        if chance(1, 2) {
            l.tick.leap = 1 + d(8);
        }
    }
    note(format!("board {} of {h}x{w}, up to {} ns", show(&b), l.tick.left));
    let n = d(30) as usize;
    l.play(n);
    let last = l.log.last().map_or(0, |s| s.at) - l.first;
    let fits = h <= 255 && w <= 255 && last < 16_777_215_000_000;
    let v = &mut l.s.v;
    let r = sut_try("generate_evf_v0_raw_data", || v.generate_evf_v0_raw_data());
    match r {
        Err(e) => {
            check!(!fits, "refused", "a {h}x{w} game of {last} ns cannot be encoded: {e}");
            stat("fault.beyond_format", 1);
            return;
        }
        Ok(()) => {
            let raw = v.get_raw_data().unwrap_or_default();
            with_fs(|fs| fs.put("/simfs/b.evf", &raw));
            let p = match read_evf("/simfs/b.evf") {
                Ok(p) => p,
                Err(e) => fail("refused", format!("an encoded {h}x{w} game of {last} ns is refused: {e}")),
            };
            let meta = Meta::get(&l.s.v);
            same(&l, &p, None, &meta);
            stat("near_the_format", 1);
        }
    }
}
fn c05() {
    if chance(1, 40) {
        return beyond();
    }
    let faulty = chance(1, 3);
    let n = d(60) as usize;
    let mut l = game(2000, n, faulty);
    let meta = if chance(1, 8) { Meta::default() } else { Meta::draw() };
    check!(meta.set(&mut l.s.v), "metadata", "a label was refused after the game");
    let csum = encode(&mut l.s.v);
    let raw = l.s.v.get_raw_data().unwrap_or_default();
    // write it to the simulated disk
    let crash = fault_chance(1, 5);
    with_fs(|fs| {
        fs.cfg.short_write = [0, 2, 3][fault(3) as usize];
        fs.cfg.eintr = [0, 3][fault(2) as usize];
        if crash {
            fs.cfg.crash = 2;
            fs.cfg.short_write = 2;
        }
    });
    if crash {
        let mut l2 = l;
        let h = in_thread(move || {
            l2.s.v.save_to_evf_file("/simfs/a");
            l2
        });
        await_all();
        let done = h.lock().unwrap_or_else(|e| e.into_inner()).take();
        with_fs(|fs| {
            fs.cfg = Default::default();
            fs.power_loss();
        });
        clear_thread_panics();
        match done {
            Some(x) => l = x,
            None => {
                // the saver died: the file is absent or holds some prefix
                stat("saver_died", 1);
                let Some(data) = with_fs(|fs| fs.get("/simfs/a.evf").map(|x| x.to_vec())) else { return };
                check!(raw.starts_with(&data), "torn", "a crashed saver left bytes it was not asked to write");
                if data.len() < raw.len() {
                    let r = read_evf("/simfs/a.evf");
                    check!(r.is_err(), "torn", "the first {} of {} bytes are accepted as a replay", data.len(), raw.len());
                    stat("torn_files", 1);
                }
                return;
            }
        }
        let data = with_fs(|fs| fs.get("/simfs/a.evf").map(|x| x.to_vec())).unwrap_or_default();
        if data.len() < raw.len() {
            let r = read_evf("/simfs/a.evf");
            check!(r.is_err(), "torn", "the first {} of {} bytes are accepted as a replay", data.len(), raw.len());
            stat("torn_files", 1);
            return;
        }
    } else {
        let v = &mut l.s.v;
        sut("save_to_evf_file", || v.save_to_evf_file("/simfs/a"));
    }
    let data = with_fs(|fs| fs.get("/simfs/a.evf").map(|x| x.to_vec()));
    check!(data.as_deref() == Some(&raw[..]), "saved", "the file on the disk is not what was encoded");
    with_fs(|fs| {
        fs.cfg = Default::default();
        fs.cfg.short_read = [0, 2][fault(2) as usize];
        fs.cfg.eintr = [0, 3][fault(2) as usize];
    });
    let p = match read_evf("/simfs/a.evf") {
        Ok(p) => p,
        Err(e) => fail("refused", format!("a complete replay is refused: {e}")),
    };
    same(&l, &p, csum, &meta);
    with_fs(|fs| fs.cfg = Default::default());
    // a torn copy
    let cuts: Vec<usize> = if raw.len() < 220 {
        (0..raw.len()).collect()
    } else {
        (0..24).map(|i| if i < 8 { raw.len() - 1 - d(40) as usize } else { d(raw.len() as u64) as usize }).collect()
    };
    for c in cuts {
        with_fs(|fs| fs.put("/simfs/torn.evf", &raw[..c]));
        let r = read_evf("/simfs/torn.evf");
        check!(r.is_err(), "torn", "the first {} of {} bytes are accepted as a replay", c, raw.len());
        stat("fault.torn_write", 1);
    }
}
pub fn await_all() {
    sched::drain();
}
/// Record a game and bring its replay to playback.
pub fn playback(l: &mut Live) -> Old {
    let v = &mut l.s.v;
    sut("generate_evf_v0_raw_data", || v.generate_evf_v0_raw_data());
    let raw = v.get_raw_data().unwrap();
    with_fs(|fs| fs.put("/simfs/p.evf", &raw));
    let mut p = match read_evf("/simfs/p.evf") {
        Ok(p) => p,
        Err(e) => fail("refused", format!("a complete replay is refused: {e}")),
    };
    sut("analyse", || p.analyse());
    p
}
/// What playback must show after event i. A losing left click is rated as having no effect, so the
/// board shown stays the one before it.
fn shown(l: &Live, i: usize) -> &B {
    let s = &l.log[i];
    if s.ph == Ph::Loss && s.before != Ph::Loss && i > 0 && s.e == "lr" {
        let chord = l.log[i - 1].c.double + 1 == s.c.double;
        if !chord {
            return &l.log[i - 1].vis;
        }
    }
    &s.vis
}
fn covered(l: &Live) -> B {
    vec![vec![10; l.md.m]; l.md.n]
}
fn same_event(l: &Live, p: &mut Old, i: usize, how: &str) {
    let s = &l.log[i];
    let b = sut("get_game_board", || p.get_game_board());
    let c0;
    let want = if i == 0 && s.ph == Ph::Loss {
        c0 = covered(l);
        &c0
    } else {
        shown(l, i)
    };
    check!(&b == want, "board", "{how}: event {i} ({}) shows {} instead of {}", s.e, show(&b), show(want));
    let c = (p.get_left(), p.get_right(), p.get_double(), p.get_cl(), p.get_flag());
    let w = (s.c.left, s.c.right, s.c.double, s.c.left + s.c.right + s.c.double, s.c.flag);
    check!(c == w, "counters", "{how}: event {i} ({}) has left, right, double, clicks, flags {:?} instead of {:?}", s.e, c, w);
    check!(p.get_ce() == Ok(s.c.ce), "counters", "{how}: event {i} ({}) has ce {:?} instead of {}", s.e, p.get_ce(), s.c.ce);
    check!(p.get_bbbv_solved() == Ok(s.c.solved), "counters", "{how}: event {i} ({}) has solved 3BV {:?} instead of {}", s.e, p.get_bbbv_solved(), s.c.solved);
    check!(p.get_mouse_state() == s.mouse, "mouse", "{how}: event {i} ({}) has mouse state {} instead of {}", s.e, p.get_mouse_state(), s.mouse);
}
fn inside(l: &Live, px: Pos) -> bool {
    px.0 < l.md.n * l.s.pix && px.1 < l.md.m * l.s.pix
}
fn c08() {
    let faulty = chance(1, 3);
    let n = d(70) as usize;
    let mut l = game(120, n, faulty);
    let mut p = playback(&mut l);
    let k = p.video_action_state_recorder.len();
    check!(k == l.log.len(), "events", "the replay has {} events, the game had {}", k, l.log.len());
    let times: Vec<i64> = p.video_action_state_recorder.iter().map(|e| to_ms(e.time)).collect();
    let t0 = p.get_video_start_time().unwrap_or(f64::NAN);
    let t1 = p.get_video_end_time().unwrap_or(f64::NAN);
    // time zero is the first opening click
    let open = l.log.iter().position(|s| !matches!(s.ph, Ph::Pre | Ph::Ready)).unwrap();
    let z = times[open];
    check!(to_ms(t0) == -z, "range", "playback starts at {} although the first opening click came {} ms after the first event", t0, z);
    check!(to_ms(t1) == times[k - 1] - z, "range", "playback ends at {}, {} ms after the first opening click", t1, times[k - 1] - z);
    let mut scale = 1.0;
    if chance(1, 2) {
        let q = 1 + d(64) as u8;
        sut("set_video_playing_pix_size", || p.set_video_playing_pix_size(q));
        scale = q as f64 / l.s.pix as f64;
    }
    let mut seen: HashMap<u64, usize> = HashMap::new();
    let mut prev = None;
    for _ in 0..60 {
        let i;
        let how;
        match pick(&[5, 2, 2, 2, 1]) {
            0 | 4 => {
                // a time that is not on the millisecond grid
                let span = times[k - 1] + 2000;
                let t_ms = d(span as u64 + 1) as i64 - 1000;
                let frac = [0.3, 0.5, 0.72][d(3) as usize];
                let t = (t_ms as f64 + frac - z as f64) / 1000.0;
                how = format!("seek to {t}");
                note(how.clone());
                sut("set_current_time", || p.set_current_time(t));
                i = times.iter().rposition(|&x| x <= t_ms).unwrap_or(0);
                let c = t.max(t0).min(t1);
                check!((p.current_time - c).abs() < 1e-9, "clamp", "{how}: current time is {} instead of {}", p.current_time, c);
                if chance(1, 3) {
                    sut("set_current_time", || p.set_current_time(t));
                }
            }
            1 => {
                // exactly the time of an event: the event shown has that time, up to float rounding
                let j = d(k as u64) as usize;
                let t = (times[j] - z) as f64 / 1000.0;
                how = format!("seek to {t}, the time of event {j}");
                note(how.clone());
                sut("set_current_time", || p.set_current_time(t));
                let id = p.current_event_id;
                let last = times.iter().rposition(|&x| x <= times[j]).unwrap();
                let below = times.iter().rposition(|&x| x < times[j]).unwrap_or(last);
                check!(id == last || id == below, "seek", "{how}: event {id} is shown");
                let h = *seen.entry(t.to_bits()).or_insert(id);
                check!(h == id, "history", "{how} shows event {id}, it showed event {h} before");
                i = id;
            }
            2 => {
                let j = d(k as u64) as usize;
                how = format!("jump to event {j}");
                note(how.clone());
                let r = sut("set_current_event_id", || p.set_current_event_id(j));
                check!(r.is_ok(), "refused", "{how} was refused");
                check!(to_ms(p.current_time) == times[j] - z, "clamp", "{how}: current time is {}", p.current_time);
                i = j;
                if chance(1, 2) {
                    // the time now shown leads to the last event of that time
                    let t = p.current_time;
                    sut("set_current_time", || p.set_current_time(t));
                    let last = times.iter().rposition(|&x| x <= times[j]).unwrap();
                    let below = times.iter().rposition(|&x| x < times[j]).unwrap_or(last);
                    let id = p.current_event_id;
                    check!(id == last || id == below, "seek", "{how}, then seek to its own time {t}: event {id} is shown");
                    let h = *seen.entry(t.to_bits()).or_insert(id);
                    check!(h == id, "history", "{how}, then seek to {t} shows event {id}, it showed event {h} before");
                    same_event(&l, &mut p, id, &how);
                    prev = Some(id);
                    continue;
                }
            }
            _ => {
                let j = k + [0, 1, 1000, usize::MAX - k][d(4) as usize];
                how = format!("jump to event {j} of {k}");
                let before = (p.current_event_id, p.current_time);
                let r = sut("set_current_event_id", || p.set_current_event_id(j));
                check!(r.is_err(), "range", "{how} was not refused");
                check!((p.current_event_id, p.current_time) == before, "range", "{how} was refused but moved the position");
                stat("refused_jumps", 1);
                continue;
            }
        }
        check!(p.current_event_id == i, "seek", "{how}: event {} is shown instead of {} (shown before: {:?})", p.current_event_id, i, prev);
        prev = Some(i);
        same_event(&l, &mut p, i, &how);
        // the pointer: at the last event on the board
        let (x, y) = sut("get_x_y", || p.get_x_y()).unwrap_or((u16::MAX, u16::MAX));
        if let Some(j) = (0..=i).rev().find(|&j| inside(&l, l.log[j].px)) {
            let px = l.log[j].px;
            let edge = (j..=i).any(|q| !inside(&l, l.log[q].px) && l.log[q].px.1 < l.md.m * l.s.pix);
            if !edge {
                let want = ((px.1 as f64 * scale) as u16, (px.0 as f64 * scale) as u16);
                check!((x, y) == want, "pointer", "{how}: pointer at {:?} instead of {:?}", (x, y), want);
            }
        }
        let pr = l.log[i].path;
        let _ = pr;
        if l.md.n * l.md.m <= 60 && chance(1, 6) {
            let a = sut_try("get_game_board_poss", || p.get_game_board_poss());
            if let Ok(a) = a {
                check!(a.len() == l.md.n && a.iter().all(|r| r.len() == l.md.m), "poss-shape", "the probabilities shown have another shape than the board");
            }
        }
    }
    stat("seeks", 60);
    sig(k as u64);
}
fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-6 * (1e-3 + a.abs().max(b.abs())) || (a.is_nan() && b.is_nan())
}
fn c09() {
    let faulty = chance(1, 3);
    let n = d(90) as usize;
    let mut l = game(480, n, faulty);
    let mut p = playback(&mut l);
    let k = p.video_action_state_recorder.len();
    check!(k == l.log.len(), "events", "the replay has {} events, the game had {}", k, l.log.len());
    // event by event
    let open = l.log.iter().position(|s| !matches!(s.ph, Ph::Pre | Ph::Ready)).unwrap();
    for i in 0..k {
        let r = p.set_current_event_id(i);
        check!(r.is_ok(), "refused", "event {i} was refused");
        same_event(&l, &mut p, i, "replay");
        // the live session recorded the same
        let v = &l.s.v;
        let (a, b) = (&v.video_action_state_recorder[i], &p.video_action_state_recorder[i]);
        let (x, y) = (&a.key_dynamic_params, &b.key_dynamic_params);
        check!(
            (x.left, x.right, x.double, x.ce, x.flag, x.bbbv_solved) == (y.left, y.right, y.double, y.ce, y.flag, y.bbbv_solved),
            "recorded",
            "event {i}: the live recording has other counters than the replay"
        );
        check!(a.useful_level == b.useful_level, "recorded", "event {i} ({}): usefulness {} live, {} in the replay", a.mouse, a.useful_level, b.useful_level);
        check!(a.mouse_state == b.mouse_state, "recorded", "event {i}: mouse state {:?} live, {:?} in the replay", a.mouse_state, b.mouse_state);
        for (ids, what) in [((a.prior_game_board_id, b.prior_game_board_id), "before"), ((a.next_game_board_id, b.next_game_board_id), "after")] {
            let (f, g) = (&v.game_board_stream[ids.0].game_board, &p.game_board_stream[ids.1].game_board);
            check!(f == g, "recorded", "event {i}: board {what} it: {} live, {} in the replay", show(f), show(g));
        }
        // mouse travel: from each event on the board to the next one on it
        if i > open && inside(&l, l.log[i].px) {
            let j = (open..i).rev().find(|&j| inside(&l, l.log[j].px)).unwrap();
            let (u, w) = (l.log[i].px, l.log[j].px);
            let dist = ((u.0 as f64 - w.0 as f64).powi(2) + (u.1 as f64 - w.1 as f64).powi(2)).sqrt() * 16.0 / l.s.pix as f64;
            let da = l.log[i].path - l.log[j].path;
            let db = p.video_action_state_recorder[i].path - p.video_action_state_recorder[j].path;
            check!(close(da, dist), "path", "events {j} to {i}: the live path grows by {} instead of {}", da, dist);
            check!(close(db, dist), "path", "events {j} to {i}: the replay path grows by {} instead of {}", db, dist);
            check!(close(p.get_path(), p.video_action_state_recorder[i].path), "path", "event {i}: path shown {}", p.get_path());
            if j + 1 < i {
                stat("excursion", 1);
            }
        }
    }
    // the end
    let won = l.md.ph == Ph::Win;
    check!(p.is_completed == won && l.s.v.is_completed == won, "verdict", "completed: {} live, {} in the replay, of a game {}", l.s.v.is_completed, p.is_completed, if won { "won" } else { "lost" });
    let b3 = bbbv(&l.md.b);
    let (_, op) = openings(&l.md.b);
    let mut cells = [0usize; 9];
    for &x in l.md.b.iter().flatten() {
        if x >= 0 {
            cells[x as usize] += 1;
        }
    }
    for (s, who) in [(&l.s.v.static_params, "live"), (&p.static_params, "replay")] {
        let c = [s.cell0, s.cell1, s.cell2, s.cell3, s.cell4, s.cell5, s.cell6, s.cell7, s.cell8];
        check!((s.bbbv, s.op, s.isl) == (b3, op, islands(&l.md.b)) && c == cells, "statistics", "{who}: 3BV {} openings {} islands {} cells {:?} of {}", s.bbbv, s.op, s.isl, c, show(&l.md.b));
    }
    let rt = l.s.v.get_rtime().unwrap();
    let end = p.get_video_end_time().unwrap();
    check!(close(end, rt) || (end - rt).abs() < 1e-6, "duration", "the replay ends at {} s, the game took {}", end, rt);
    check!(p.get_rtime() == Ok(rt), "duration", "the replay's final time is {:?}, the game's {}", p.get_rtime(), rt);
    // by a seek beyond the end, and by event
    let by_time = chance(1, 2);
    if by_time {
        sut("set_current_time", || p.set_current_time(rt + 5.0));
    } else {
        let _ = p.set_current_event_id(k - 1);
    }
    check!((p.get_time() - rt).abs() < 1e-6, "duration", "at the end playback shows {} s instead of {}", p.get_time(), rt);
    if rt >= 0.001 {
        let c = l.log[k - 1].c.clone();
        let (cl, ce, sv) = ((c.left + c.right + c.double) as f64, c.ce as f64, c.solved as f64);
        let fb = b3 as f64;
        let mut want: BTreeMap<&str, f64> = BTreeMap::new();
        want.insert("left", c.left as f64);
        want.insert("right", c.right as f64);
        want.insert("double", c.double as f64);
        want.insert("cl", cl);
        want.insert("flag", c.flag as f64);
        want.insert("left_s", c.left as f64 / rt);
        want.insert("right_s", c.right as f64 / rt);
        want.insert("double_s", c.double as f64 / rt);
        want.insert("cl_s", cl / rt);
        want.insert("flag_s", c.flag as f64 / rt);
        want.insert("ce", ce);
        want.insert("ce_s", ce / rt);
        want.insert("bbbv_solved", sv);
        want.insert("bbbv_s", sv / rt);
        if sv > 0.0 {
            want.insert("etime", rt / sv * fb);
            want.insert("rqp", rt * rt / sv);
            want.insert("qg", rt.powf(1.7) / sv);
        }
        if cl > 0.0 {
            want.insert("ioe", sv / cl);
            want.insert("corr", ce / cl);
        }
        if ce > 0.0 {
            want.insert("thrp", sv / ce);
        }
        let k = match (l.md.n, l.md.m, mines_of(&l.md.b)) {
            (8, 8, 10) => 47.299,
            (16, 16, 40) => 153.73,
            (16, 30, 99) => 435.001,
            _ => 0.0,
        };
        want.insert("stnb", if k == 0.0 { 0.0 } else { k * fb / rt.powf(1.7) * (sv / fb).sqrt() });
        for (who, got) in [("the live session", indicators(&mut l.s.v)), ("the replay", indicators(&mut p))] {
            for (name, w) in &want {
                let g = got[name];
                check!(close(g, *w), "indicator", "{name} is {g} in {who} instead of {w} (3BV {b3}, {c:?}, {rt} s)");
            }
        }
    } else {
        stat("games_of_zero_time", 1);
    }
}
fn indicators<T>(v: &mut ms_toollib::BaseVideo<T>) -> BTreeMap<&'static str, f64> {
    let e = |r: Result<f64, ()>| r.unwrap_or(f64::NEG_INFINITY);
    let u = |r: Result<usize, ()>| r.map_or(f64::NEG_INFINITY, |x| x as f64);
    sut("indicators", || {
        BTreeMap::from([
            ("left", v.get_left() as f64),
            ("right", v.get_right() as f64),
            ("double", v.get_double() as f64),
            ("cl", v.get_cl() as f64),
            ("flag", v.get_flag() as f64),
            ("left_s", v.get_left_s()),
            ("right_s", v.get_right_s()),
            ("double_s", v.get_double_s()),
            ("cl_s", v.get_cl_s()),
            ("flag_s", v.get_flag_s()),
            ("ce", u(v.get_ce())),
            ("ce_s", e(v.get_ce_s())),
            ("bbbv_solved", u(v.get_bbbv_solved())),
            ("bbbv_s", e(v.get_bbbv_s())),
            ("etime", e(v.get_etime())),
            ("rqp", e(v.get_rqp())),
            ("qg", e(v.get_qg())),
            ("ioe", e(v.get_ioe())),
            ("corr", e(v.get_corr())),
            ("thrp", e(v.get_thrp())),
            ("stnb", e(v.get_stnb())),
        ])
    })
}
