//! C21: replays of the older formats. C07: hostile files.
use crate::board::*;
use crate::legacy::*;
use crate::model::*;
use crate::replay::Old;
use ms_toollib::{AvfVideo, EvfVideo, MvfVideo, RmvVideo};
use simrt::*;
use std::sync::atomic::Ordering::Relaxed;

pub const P21: Prop = Prop {
    id: "C21",
    quick: 100_000,
    thorough: 3_000_000,
    chunk: 100,
    f: c21,
    rule: "a run is one game played by a simulated player on the reference model, written as avf, rmv or mvf by an independent encoder, read under short and interrupted reads, compared field by field, analysed and played back event by event, then cut at drawn offsets before the end of the event stream. Non-trivial: at least 4 events. Distinct: by hash of format, board and events",
    real: "AvfVideo, RmvVideo, MvfVideo (new, parse_video), BaseVideo::analyse and playback, std::fs",
    stub: "disk (in-memory file system behind libc), the programs that write these formats (independent encoders)",
};
pub const P7: Prop = Prop {
    id: "C07",
    quick: 400_000,
    thorough: 12_000_000,
    chunk: 200,
    f: c07,
    rule: "a run feeds one byte string to one of the four readers: a valid file with 0 to 12 drawn edits (bytes overwritten with boundary values, inserted, deleted, duplicated, cut, numbers replaced), or arbitrary bytes, at times followed by up to 200 kB of noise; read once cleanly and once under short and interrupted reads, with a limit on work and memory proportional to the size. Non-trivial: an edit was made. Distinct: by hash of the bytes",
    real: "AvfVideo, RmvVideo, MvfVideo, EvfVideo (new, parse_video), std::fs",
    stub: "disk (in-memory file system behind libc)",
};
pub fn open_as(f: Fmt, path: &str, budget: u64) -> (Result<(), String>, Old) {
    macro_rules! go {
        ($t:ident) => {{
            let mut v = sut(stringify!($t), || $t::new(path));
            let r = sut_budget(concat!(stringify!($t), "::parse_video"), budget, || v.parse_video());
            (r.map_err(|e| format!("{e:?}")), v.data)
        }};
    }
    match f {
        Fmt::Avf => go!(AvfVideo),
        Fmt::Rmv => go!(RmvVideo),
        Fmt::Mvf => go!(MvfVideo),
        Fmt::Evf => go!(EvfVideo),
    }
}
pub fn read_faults() {
    with_fs(|fs| {
        fs.cfg = Default::default();
        fs.cfg.short_read = [0, 2, 1][fault(3) as usize];
        fs.cfg.eintr = [0, 3][fault(2) as usize];
    });
}
fn c21() {
    let f = [Fmt::Avf, Fmt::Rmv, Fmt::Mvf][d(3) as usize];
    let big = chance(1, 6);
    let n = d(60) as usize;
    let g = Game::draw(f, n, if big { 480 } else { 120 });
    let (data, end) = g.encode();
    note(format!("{f:?} board {} level {} 3bv {} rtime {} ms, {} bytes", show(&g.b), g.level, g.bbbv, g.rtime, data.len()));
    for e in &g.log {
        if tracing() {
            note(format!("{} ms {} at {:?} -> {:?} {}", e.ms, e.e, e.px, e.md.ph, show(&e.md.vis)));
        }
        sig(hash_step(e.ms, e.px.0 as u64 * 65536 + e.px.1 as u64));
    }
    sig(hash(&g.b));
    sample(format!("{f:?}, board {}x{}, {} events, {} bytes", g.b.len(), g.b[0].len(), g.log.len(), data.len()));
    if g.log.len() >= 4 {
        nontrivial();
    }
    with_fs(|fs| fs.put("/simfs/x.old", &data));
    read_faults();
    let (r, mut p) = open_as(f, "/simfs/x.old", BUDGET);
    check!(r.is_ok(), "refused", "a well-formed {f:?} file is refused: {r:?}");
    let (h, w) = (g.b.len(), g.b[0].len());
    check!((p.height, p.width) == (h, w), "board", "read {}x{} instead of {h}x{w}", p.height, p.width);
    check!(p.board == g.b, "board", "read board {} instead of {}", show(&p.board), show(&g.b));
    check!(p.mine_num == mines_of(&g.b), "board", "read {} mines", p.mine_num);
    check!(p.player_designator == g.player, "metadata", "read player {:?} instead of {:?}", p.player_designator, g.player);
    check!(p.level == g.level, "metadata", "read level {} instead of {}", p.level, g.level);
    check!(p.mode == g.mode, "metadata", "read mode {} instead of {}", p.mode, g.mode);
    check!(p.static_params.bbbv == g.bbbv, "metadata", "read 3BV {} instead of {}", p.static_params.bbbv, g.bbbv);
    check!(p.get_rtime().map(|t| (t * 1000.0).round() as u64) == Ok(g.rtime), "metadata", "read final time {:?} instead of {} ms", p.get_rtime(), g.rtime);
    check!(p.get_rtime_ms().map(|t| t as u64) == Ok(g.rtime), "metadata", "read final time {:?} ms instead of {}", p.get_rtime_ms(), g.rtime);
    match f {
        Fmt::Avf => {
            check!(p.start_time == g.start && p.end_time == g.end, "metadata", "read stamps {:?} {:?} instead of {:?} {:?}", p.start_time, p.end_time, g.start, g.end);
        }
        Fmt::Rmv => {
            check!(p.country == g.country, "metadata", "read country {:?} instead of {:?}", p.country, g.country);
            check!(p.nf == g.nf, "metadata", "read nf {}", p.nf);
            if !g.old {
                check!(p.start_time == g.start, "metadata", "read start {:?} instead of {:?}", p.start_time, g.start);
            }
        }
        _ => {}
    }
    // events; an mvf reader may show a move that does not move
    let ev = &p.video_action_state_recorder;
    let mut map = vec![];
    let mut k = 0;
    for (i, x) in ev.iter().enumerate() {
        let px = (x.y as usize, x.x as usize);
        let y = g.log.get(k);
        let hit = y.map_or(false, |y| y.e == x.mouse && y.px == px && (x.time * 1000.0 - y.ms as f64).abs() < 1e-6);
        if hit {
            map.push(k);
            k += 1;
        } else if f == Fmt::Mvf && x.mouse == "mv" && i > 0 && k < g.log.len() && g.log[k].px == px && (x.time * 1000.0 - g.log[k].ms as f64).abs() < 1e-6 {
            map.push(usize::MAX);
        } else {
            fail("events", format!("event {i} read as {} at {px:?} at {} s instead of {:?}", x.mouse, x.time, y.map(|y| (y.e, y.px, y.ms))));
        }
    }
    let lost = &g.log[k..];
    check!(lost.is_empty(), "events", "{} of {} events are missing, from {}", lost.len(), g.log.len(), lost.first().map_or("", |e| e.e));
    if k == 0 {
        return;
    }
    sut("analyse", || p.analyse());
    let last = &g.log[g.log.len() - 1].md;
    check!(p.is_completed == (last.ph == Ph::Win), "result", "completed={} of a game that ended {:?}", p.is_completed, last.ph);
    let mut at = None;
    for (i, &m) in map.iter().enumerate() {
        if m != usize::MAX {
            at = Some(m);
        }
        if i + 1 < map.len() && !chance(1, 3) {
            continue;
        }
        let r = sut("set_current_event_id", || p.set_current_event_id(i));
        check!(r.is_ok(), "playback", "event {i} refused");
        let Some(k) = at else { continue };
        let e = &g.log[k];
        let lost_by_left = k > 0 && e.md.ph == Ph::Loss && g.log[k - 1].md.ph != Ph::Loss && e.e == "lr" && e.md.c.double == g.log[k - 1].md.c.double;
        let want = if lost_by_left { &g.log[k - 1].md.vis } else { &e.md.vis };
        // once lost by a left click the board shown stays without the mine
        let stays = e.md.ph == Ph::Loss && !lost_by_left;
        let b = sut("get_game_board", || p.get_game_board());
        let ok = &b == want || (stays && before_loss(&g, k).map_or(false, |v| v == &b));
        check!(ok, "playback", "event {i} ({}) shows {} instead of {}", e.e, show(&b), show(want));
        let c = (p.get_left(), p.get_right(), p.get_double(), p.get_flag(), p.get_ce().unwrap_or(usize::MAX), p.get_bbbv_solved().unwrap_or(usize::MAX));
        let x = &e.md.c;
        check!(c == (x.left, x.right, x.double, x.flag, x.ce, x.solved), "playback", "event {i} ({}) has counters {:?} instead of {:?}", e.e, c, x);
    }
    // cut before the end of the event stream
    with_fs(|fs| fs.cfg = Default::default());
    for _ in 0..6 {
        let c = match d(3) {
            0 => end - 1 - d(end.min(20) as u64) as usize,
            1 => d(end as u64) as usize,
            _ => end - 1,
        };
        with_fs(|fs| fs.put("/simfs/cut.old", &data[..c]));
        let (r, _) = open_as(f, "/simfs/cut.old", BUDGET);
        check!(r.is_err(), "torn", "the first {c} of {} bytes (event stream ends at {end}) are accepted", data.len());
        stat("fault.torn_write", 1);
    }
}
fn before_loss(g: &Game, k: usize) -> Option<&B> {
    let i = g.log[..=k].iter().position(|e| e.md.ph == Ph::Loss)?;
    if i > 0 {
        Some(&g.log[i - 1].md.vis)
    } else {
        None
    }
}
fn boundary() -> u8 {
    match d(4) {
        0 => [0u8, 1, 2, 3, 4, 5, 8, 15, 16, 17, 27, 28, 31, 34, 35, 36, 99, 127, 128, 254, 255][d(21) as usize],
        1 => 255,
        2 => 0,
        _ => d(256) as u8,
    }
}
fn c07() {
    let f = [Fmt::Avf, Fmt::Rmv, Fmt::Mvf, Fmt::Evf][d(4) as usize];
    let mut data = if chance(1, 12) {
        let n = d(400) as usize;
        let mut v: Vec<u8> = (0..n).map(|_| boundary()).collect();
        match f {
            Fmt::Rmv => v.splice(0..0, *b"*rmv\0\x01").for_each(drop),
            Fmt::Mvf => v.splice(0..0, [0x11, 0x4d]).for_each(drop),
            _ => {}
        }
        if f == Fmt::Mvf && v.len() > 27 {
            v[27] = b'5';
        }
        v
    } else {
        let n = d(25) as usize;
        Game::draw(if chance(1, 40) { [Fmt::Avf, Fmt::Rmv, Fmt::Mvf, Fmt::Evf][d(4) as usize] } else { f }, n, 40).encode().0
    };
    let edits = d(13);
    for _ in 0..edits {
        let len = data.len();
        if len == 0 {
            break;
        }
        // headers are where lengths live
        let at = |n: usize| if chance(1, 2) { d(n.min(120) as u64) as usize } else { d(n as u64) as usize };
        match pick(&[10, 2, 3, 2, 2, 2, 2]) {
            0 => {
                let i = at(len);
                data[i] = boundary();
            }
            1 => {
                let i = at(len);
                let x = boundary();
                data.insert(i, x);
            }
            2 => {
                let i = at(len);
                let k = (1 + d(8) as usize).min(len - i);
                data.drain(i..i + k);
            }
            3 => {
                let i = at(len);
                let k = (1 + d(30) as usize).min(len - i);
                let c = data[i..i + k].to_vec();
                data.splice(i..i, c).for_each(drop);
            }
            4 => {
                let i = at(len);
                data.truncate(i);
            }
            5 => {
                let i = at(len);
                let x = boundary();
                data[i] = x;
                if i + 1 < len {
                    data[i + 1] = boundary();
                }
            }
            _ => {
                // numbers written as text
                if let Some(i) = data.iter().rposition(|&x| x == b'T' || x == b'B') {
                    let mut j = i + 1;
                    while j < data.len() && (data[j].is_ascii_digit() || data[j] == b'.' || data[j] == b',') {
                        j += 1;
                    }
                    let s: &[u8] = [&b""[..], b"nan", b"inf", b"-5", b"1e999", b"99999999999999999999999", b"0", b"-0.5", b"1.2.3", b"4294967295"][d(10) as usize];
                    data.splice(i + 1..j, s.iter().copied()).for_each(drop);
                }
            }
        }
        stat("fault.file_damaged", 1);
        nontrivial();
    }
    if chance(1, 60) {
        let n = 20_000 + d(180_000) as usize;
        let x = [0u8, 1, 65, 255, 2][d(5) as usize];
        let y = d(256) as u8;
        let at = if chance(1, 2) { data.len() } else { d(data.len() as u64 + 1) as usize };
        let fill: Vec<u8> = (0..n).map(|i| if i % 7 == 0 { y } else { x }).collect();
        data.splice(at..at, fill).for_each(drop);
    }
    for c in data.chunks(8).take(200) {
        let mut v = 0u64;
        for &b in c {
            v = v << 8 | b as u64;
        }
        sig(v);
    }
    note(format!("{f:?}: {} bytes {}", data.len(), data.iter().take(600).map(|b| format!("{b:02x}")).collect::<Vec<_>>().join("")));
    sample(format!("{f:?}, {} bytes, {edits} edits", data.len()));
    with_fs(|fs| fs.put("/simfs/bad", &data));
    let work = 30_000_000 + 600 * data.len() as u64;
    let live = alloc::LIVE.load(Relaxed);
    alloc::PEAK.store(live, Relaxed);
    let (r, p) = open_as(f, "/simfs/bad", work);
    let used = alloc::PEAK.load(Relaxed) - live;
    check!(used <= (64 << 20) + 3000 * data.len(), "memory", "reading {} bytes took {} MB", data.len(), used >> 20);
    stat(if r.is_ok() { "accepted" } else { "refused" }, 1);
    read_faults();
    let (r2, p2) = open_as(f, "/simfs/bad", work);
    check!(r == r2, "read-faults", "short or interrupted reads change the result from {r:?} to {r2:?}");
    if r.is_ok() {
        let a = |p: &Old| (p.board.clone(), p.player_designator.clone(), p.video_action_state_recorder.iter().map(|e| (e.mouse.clone(), e.time.to_bits(), e.x, e.y)).collect::<Vec<_>>());
        check!(a(&p) == a(&p2), "read-faults", "short or interrupted reads change what is read");
    }
}
