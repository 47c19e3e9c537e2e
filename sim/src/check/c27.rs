//! C27: conversion to evf keeps the replay.
use crate::board::*;
use crate::c21::*;
use crate::legacy::*;
use crate::replay::*;
use simrt::*;

pub const P: Prop = Prop {
    id: "C27",
    quick: 100_000,
    thorough: 3_000_000,
    chunk: 100,
    f: c27,
    rule: "a run is one simulated game written in one of the four formats by an independent encoder, read under short and interrupted reads, at times analysed and played, written as evf under short and interrupted writes next to files already there, read again and compared: board, events, metadata, checksum, and after analysis the board and the counters at every drawn event; writing it again gives the same bytes. Non-trivial: at least 4 events. Distinct: by hash of format, board and events",
    real: "AvfVideo, RmvVideo, MvfVideo, EvfVideo (new, parse_video), BaseVideo (analyse, playback, generate_evf_v0_raw_data, get_raw_data, save_to_evf_file), std::fs",
    stub: "disk (in-memory file system behind libc), the programs that write these formats (independent encoders)",
};
fn write_faults() {
    with_fs(|fs| {
        fs.cfg = Default::default();
        fs.cfg.short_write = [0, 2, 1][fault(3) as usize];
        fs.cfg.short_read = [0, 2, 1][fault(3) as usize];
        fs.cfg.eintr = [0, 3][fault(2) as usize];
    });
}
fn counters(p: &Old) -> [usize; 6] {
    [p.get_left(), p.get_right(), p.get_double(), p.get_flag(), p.get_ce().unwrap_or(usize::MAX), p.get_bbbv_solved().unwrap_or(usize::MAX)]
}
/// What a replay says about itself, in a form to compare.
fn about(p: &Old) -> Vec<(&'static str, String)> {
    let t = |v: &Vec<u8>| format!("{:?}", String::from_utf8_lossy(v)) + &format!("{v:02x?}");
    vec![
        ("board", show(&p.board)),
        ("size", format!("{}x{} with {} mines", p.height, p.width, p.mine_num)),
        ("cell size", p.cell_pixel_size.to_string()),
        ("software", t(&p.software)),
        ("player", t(&p.player_designator)),
        ("race", t(&p.race_designator)),
        ("uniqueness", t(&p.uniqueness_designator)),
        ("start", t(&p.start_time)),
        ("end", t(&p.end_time)),
        ("country", t(&p.country)),
        ("device", t(&p.device_uuid)),
        ("mode", p.mode.to_string()),
        ("3bv", p.static_params.bbbv.to_string()),
        ("final time", format!("{:?} ms", p.get_rtime_ms())),
        ("final time in seconds", format!("{:?}", p.get_rtime().map(|t| (t * 1e9).round() / 1e9))),
        ("completed", p.is_completed.to_string()),
        ("official", p.is_offical.to_string()),
        ("fair", p.is_fair.to_string()),
        ("checksum", format!("{:02x?}", p.get_checksum())),
    ]
}
fn same_replay(what: &str, a: &[(&'static str, String)], p: &Old, ev: &[(String, u64, u16, u16)]) {
    for ((k, x), (_, y)) in a.iter().zip(about(p)) {
        check!(x == &y, "metadata", "{what}: {k} is {y} instead of {x}");
    }
    let pe = &p.video_action_state_recorder;
    check!(pe.len() == ev.len(), "events", "{what}: {} events instead of {}", pe.len(), ev.len());
    for (i, (x, y)) in pe.iter().zip(ev).enumerate() {
        check!((&x.mouse, ms(x.time), x.x, x.y) == (&y.0, y.1, y.2, y.3), "events", "{what}: event {i} is {} at {} ms ({}, {}) instead of {:?}", x.mouse, ms(x.time), x.x, x.y, y);
    }
}
fn ms(t: f64) -> u64 {
    (t * 1000.0).round() as u64
}
fn c27() {
    let f = [Fmt::Avf, Fmt::Rmv, Fmt::Mvf, Fmt::Evf][d(4) as usize];
    let n = d(50) as usize;
    let g = Game::draw(f, n, if chance(1, 6) { 480 } else { 100 });
    let (data, _) = g.encode();
    if g.rtime >= 1 << 24 {
        // evf has 24 bits for a time
        return;
    }
    note(format!("{f:?} board {} level {} rtime {} ms, {} bytes", show(&g.b), g.level, g.rtime, data.len()));
    for e in &g.log {
        sig(hash_step(e.ms, e.px.0 as u64 * 65536 + e.px.1 as u64));
    }
    sig(hash(&g.b) ^ f as u64);
    sample(format!("{f:?}, board {}x{}, {} events, {} bytes", g.b.len(), g.b[0].len(), g.log.len(), data.len()));
    if g.log.len() >= 4 {
        nontrivial();
    }
    with_fs(|fs| fs.put("/simfs/x.old", &data));
    read_faults();
    let (r, mut p) = open_as(f, "/simfs/x.old", BUDGET);
    if r.is_err() {
        // C21
        return;
    }
    let analysed = chance(2, 3);
    let len = p.video_action_state_recorder.len();
    if analysed {
        sut("analyse", || p.analyse());
        for _ in 0..d(3) {
            let i = d(len as u64) as usize;
            let _ = sut("set_current_event_id", || p.set_current_event_id(i));
        }
    }
    let before = about(&p);
    let ev: Vec<_> = p.video_action_state_recorder.iter().map(|e| (e.mouse.clone(), ms(e.time), e.x, e.y)).collect();
    let sum = p.get_checksum();
    let at = analysed.then(|| (p.current_event_id, counters(&p), sut("get_game_board", || p.get_game_board())));
    sut("generate_evf_v0_raw_data", || p.generate_evf_v0_raw_data());
    same_replay("the replay that was written", &before, &p, &ev);
    if let Some(x) = at {
        let y = (p.current_event_id, counters(&p), sut("get_game_board", || p.get_game_board()));
        check!(x == y, "side-effect", "writing the replay moves it from {x:?} to {y:?}");
    }
    let raw = sut("get_raw_data", || p.get_raw_data()).unwrap_or_default();
    // next to earlier files of that name
    let earlier = d(3);
    for k in 0..earlier {
        let name = if k == 0 { "/simfs/c.evf".to_string() } else { format!("/simfs/c({}).evf", k + 1) };
        with_fs(|fs| fs.put(&name, b"kept"));
    }
    write_faults();
    sut("save_to_evf_file", || p.save_to_evf_file("/simfs/c"));
    for k in 0..earlier {
        let name = if k == 0 { "/simfs/c.evf".to_string() } else { format!("/simfs/c({}).evf", k + 1) };
        check!(with_fs(|fs| fs.get(&name).map(|x| x.to_vec())).as_deref() == Some(&b"kept"[..]), "overwritten", "{name} was there before and is changed");
    }
    let name = if earlier == 0 { "/simfs/c.evf".to_string() } else { format!("/simfs/c({}).evf", earlier + 1) };
    let on_disk = with_fs(|fs| fs.get(&name).map(|x| x.to_vec()));
    check!(on_disk.as_deref() == Some(&raw[..]), "file", "{name} holds {:?} bytes instead of the {} generated", on_disk.map(|x| x.len()), raw.len());
    write_faults();
    let (r, mut q) = open_as(Fmt::Evf, &name, BUDGET);
    check!(r.is_ok(), "refused", "the converted replay is refused: {r:?}");
    same_replay("the converted replay", &before, &q, &ev);
    check!(q.get_checksum() == sum, "metadata", "the checksum changes");
    let lv = level_of(&g.b);
    check!(q.level == lv, "metadata", "the converted replay has level {} with board {}x{}, {} mines", q.level, q.height, q.width, q.mine_num);
    // converting what was converted changes nothing
    let again = {
        let (_, mut q) = open_as(Fmt::Evf, &name, BUDGET);
        sut("generate_evf_v0_raw_data", || q.generate_evf_v0_raw_data());
        sut("get_raw_data", || q.get_raw_data()).unwrap_or_default()
    };
    let diff = again.iter().zip(&raw).position(|(a, b)| a != b).unwrap_or(again.len().min(raw.len()));
    check!(again == raw, "again", "converting it again gives {} bytes instead of {}, from byte {diff}", again.len(), raw.len());
    if !analysed || len == 0 {
        return;
    }
    sut("analyse", || q.analyse());
    check!(q.is_completed == p.is_completed, "result", "completed={} after analysis instead of {}", q.is_completed, p.is_completed);
    for _ in 0..8 {
        let i = d(len as u64) as usize;
        let (a, b) = (sut("set_current_event_id", || p.set_current_event_id(i)), sut("set_current_event_id", || q.set_current_event_id(i)));
        check!(a == b, "playback", "event {i}: {b:?} instead of {a:?}");
        let (a, b) = (sut("get_game_board", || p.get_game_board()), sut("get_game_board", || q.get_game_board()));
        check!(a == b, "playback", "event {i} shows {} instead of {}", show(&b), show(&a));
        let (a, b) = (counters(&p), counters(&q));
        check!(a == b, "playback", "event {i} has counters {b:?} instead of {a:?}");
        let (a, b) = (&p.video_action_state_recorder[i], &q.video_action_state_recorder[i]);
        check!((a.path - b.path).abs() < 1e-6, "playback", "event {i} has path {} instead of {}", b.path, a.path);
        check!((a.useful_level, a.mouse_state) == (b.useful_level, b.mouse_state), "playback", "event {i} has useful level {} and mouse state {:?} instead of {} and {:?}", b.useful_level, b.mouse_state, a.useful_level, a.mouse_state);
    }
}
