//! C04: game time.
use crate::board::*;
use crate::model::*;
use crate::session::*;
use simrt::*;
pub const P: Prop = Prop {
    id: "C04",
    quick: 500_000,
    thorough: 12_000_000,
    chunk: 200,
    f: run,
    rule: "a run is one session playing one to three games (reset in between) under a drawn clock: event gaps from nanoseconds to minutes, stalls, wall-clock jumps, event faults; all time getters are read after every event and between events. Non-trivial: a game of at least 4 recorded events was finished. Distinct: by hash of the resulting boards",
    real: "BaseVideo<SafeBoard> session, MinesweeperBoard, time_ms_between",
    stub: "monotonic and wall clock, player, event transport",
};
fn near_ms(got_ms: f64, ns: u64) -> bool {
    // rounded to the nearest millisecond, of a time truncated to microseconds
    (got_ms - ms(ns)).abs() <= 0.5012
}
fn live_times(l: &mut Live, last: &mut f64) {
    let v = &mut l.s.v;
    let now = mono();
    let t = sut("get_time", || v.get_time());
    match l.md.ph {
        Ph::Ready => check!(t == 0.0, "display", "the display shows {} before the game", t),
        Ph::Pre => check!((t * 1000.0 - ms(now - l.first)).abs() <= 1.0, "display", "the display shows {} s, {} ms after the first event", t, ms(now - l.first)),
        Ph::Playing => {
            let ns = now - l.start.unwrap().0;
            check!((t * 1000.0 - ms(ns)).abs() <= 1.0012, "display", "the display shows {} s, {} ms after the first opening click", t, ms(ns));
            check!(t >= *last, "display", "the display went back from {} to {}", last, t);
            *last = t;
            if t > 0.0 {
                let r = sut("rates", || (v.get_left_s(), v.get_right_s(), v.get_double_s(), v.get_cl_s(), v.get_flag_s()));
                let k = (v.get_left(), v.get_right(), v.get_double(), v.get_cl(), v.get_flag());
                for (name, x, k) in [("left", r.0, k.0), ("right", r.1, k.1), ("double", r.2, k.2), ("clicks", r.3, k.3), ("flags", r.4, k.4)] {
                    check!((x * t - k as f64).abs() < 1e-6 * (1.0 + k as f64), "rate", "{}/s is {} with {} after {} s", name, x, k, t);
                }
            }
        }
        Ph::Win | Ph::Loss => {}
    }
}
fn stamp(x: &[u8]) -> String {
    String::from_utf8_lossy(x).into_owned()
}
fn after_step(l: &mut Live, last: &mut f64, before: usize) {
    let rec = &l.s.v.video_action_state_recorder;
    if !l.md.over() || l.log.len() != before {
        check!(rec.len() == l.log.len(), "recorded", "{} events are recorded, {} were accepted since the game began", rec.len(), l.log.len());
    }
    if let (Some(r), Some(s)) = (rec.last(), l.log.last()) {
        let ns = s.at - l.first;
        check!(near_ms(r.time * 1000.0, ns), "event-time", "event {} is stamped {} s, {} ms after the first one", rec.len() - 1, r.time, ms(ns));
        check!(((r.time * 1000.0) - (r.time * 1000.0).round()).abs() < 1e-6, "event-time", "event time {} is not in whole milliseconds", r.time);
        if rec.len() > 1 {
            check!(rec[rec.len() - 2].time <= r.time, "event-time", "event times decrease: {} {}", rec[rec.len() - 2].time, r.time);
        } else {
            check!(r.time == 0.0, "event-time", "the first event is stamped {}", r.time);
        }
    }
    if l.md.ph == Ph::Playing && l.log.len() > before && matches!(l.log.last().unwrap().before, Ph::Ready | Ph::Pre) {
        *last = 0.0;
        let w = l.start.unwrap().1 / 1000;
        check!(stamp(&l.s.v.start_time) == w.to_string(), "start-stamp", "start stamp {} at wall clock {} us", stamp(&l.s.v.start_time), w);
    }
}
fn finished(l: &mut Live) {
    let ns = l.rtime_ms_expected();
    let v = &mut l.s.v;
    let t = v.get_rtime();
    let tm = v.get_rtime_ms();
    let (t, tm) = match (t, tm) {
        (Ok(a), Ok(b)) => (a, b),
        _ => fail("final-time", "a finished game has no final time".into()),
    };
    check!((tm as f64 - ms(ns)).abs() <= 1.0012, "final-time", "final time {} ms, the game took {} ms", tm, ms(ns));
    check!(to_ms(t) == tm as i64 && (t - tm as f64 / 1000.0).abs() < 1e-9, "final-time", "final time {} s and {} ms", t, tm);
    let rec = &v.video_action_state_recorder;
    let k = l.log.iter().position(|s| !matches!(s.ph, Ph::Pre | Ph::Ready)).unwrap();
    let a = to_ms(rec[k].time);
    let z = to_ms(rec[rec.len() - 1].time);
    check!(z - a == tm as i64, "final-time", "final time {} ms, but the recording lasts from {} to {} ms", tm, a, z);
    let shown = sut("get_time", || v.get_time());
    check!(shown == t, "display", "the display shows {} after a game of {} s", shown, t);
    let (w0, w1) = (l.start.unwrap().1 / 1000, l.end.unwrap().1 / 1000);
    check!(stamp(&v.start_time) == w0.to_string(), "start-stamp", "start stamp {} at wall clock {} us", stamp(&v.start_time), w0);
    check!(stamp(&v.end_time) == w1.to_string(), "end-stamp", "end stamp {} at wall clock {} us", stamp(&v.end_time), w1);
    if tm > 0 {
        let r = (v.get_left_s(), v.get_right_s(), v.get_double_s(), v.get_cl_s(), v.get_flag_s());
        let k = (v.get_left(), v.get_right(), v.get_double(), v.get_cl(), v.get_flag());
        for (name, x, k) in [("left", r.0, k.0), ("right", r.1, k.1), ("double", r.2, k.2), ("clicks", r.3, k.3), ("flags", r.4, k.4)] {
            check!((x * t - k as f64).abs() < 1e-6 * (1.0 + k as f64), "rate", "{}/s is {} with {} after {} s", name, x, k, t);
        }
    }
}
fn run() {
    clocks();
    let b = board(if chance(1, 10) { 256 } else { 60 });
    let pix = PIX[d(6) as usize];
    let faulty = chance(1, 2);
    let mut l = Live::new(&b, pix, faulty);
    note(format!("board {}", show(&b)));
    sample(format!("board {} ticks {} stalls 1/{} wall jumps 1/{}", show(&b), l.tick.style, l.tick.stall, l.tick.wall));
    let games = 1 + d(3) as usize;
    for g in 0..games {
        let n = d(60) as usize;
        let mut last = 0.0f64;
        let quit = g + 1 < games && chance(1, 4);
        let instant = chance(1, 5);
        for i in 0..n {
            if l.md.over() || (instant && i > 3) {
                break;
            }
            let before = if l.md.ph == Ph::Ready { 0 } else { l.log.len() };
            let _ = l.next();
            after_step(&mut l, &mut last, before);
            live_times(&mut l, &mut last);
            if chance(1, 3) {
                l.tick.pass();
                live_times(&mut l, &mut last);
            }
        }
        if !quit {
            l.finish();
            after_step(&mut l, &mut last, usize::MAX);
            finished(&mut l);
            stat("games_finished", 1);
            if l.rtime_ms_expected() == 0 {
                stat("games_of_zero_time", 1);
            }
            // nothing moves afterwards, whatever the clocks do
            let keep = l.s.v.get_time();
            for _ in 0..d(4) {
                let _ = l.next();
                check!(l.s.v.get_time() == keep && l.s.v.get_rtime() == Ok(keep), "final-time", "the final time changed from {} to {}", keep, l.s.v.get_time());
            }
            finished(&mut l);
        } else {
            stat("games_abandoned", 1);
        }
        if g + 1 < games {
            let b = board(60);
            let (n, m) = (b.len(), b[0].len());
            let v = &mut l.s.v;
            sut("reset", || v.reset(n, m, pix as u8));
            check!(v.get_time() == 0.0, "display", "the display shows {} after a reset", v.get_time());
            l.tick.pass();
            let v = &mut l.s.v;
            let r = sut("set_board", || v.set_board(b.clone()));
            check!(r.is_ok(), "reset", "the board was refused after a reset");
            note(format!("reset; board {}", show(&b)));
            l.md = Model::new(&b);
            l.log.clear();
            l.start = None;
            l.end = None;
            l.pl.queue.clear();
            stat("resets", 1);
        }
    }
}
