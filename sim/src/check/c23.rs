//! C23: the audit verdict of a replay. C24: what the end-of-game display helpers touch.
use crate::board::*;
use crate::c21::open_as;
use crate::c05::*;
use crate::legacy::*;
use crate::model::*;
use crate::play::*;
use crate::replay::*;
use crate::session::*;
use simrt::*;

pub const P23: Prop = Prop {
    id: "C23",
    quick: 150_000,
    thorough: 4_500_000,
    chunk: 100,
    f: c23,
    rule: "a run is one replay, of a live game with drawn software, checksum, fairness and wall clock (around the ban instant of one program), or of one of the older formats, at times damaged but still readable; it is analysed and audited at several playback positions, after other analyses and queries. Non-trivial: the replay has at least 4 events. Distinct: by hash of the boards reached",
    real: "BaseVideo::is_valid, analyse, playback, the four readers, the evf encoder",
    stub: "clock, player, disk, the programs that write the older formats",
};
pub const P24: Prop = Prop {
    id: "C24",
    quick: 300_000,
    thorough: 9_000_000,
    chunk: 200,
    f: c24,
    rule: "a run is one to three games of one session under event faults; the display helpers are called at drawn moments in every phase, in drawn order and repeatedly, and the session is compared before and after. Non-trivial: at least 4 events recorded. Distinct: by hash of boards reached",
    real: "BaseVideo session, win_then_flag_all_mine, loss_then_open_all_mine, reset, encoder",
    stub: "clock, player, event transport",
};
/// 2023-04-24 00:00 in Beijing, the last second at which Viennasweeper was allowed
const BAN: u64 = 1_682_265_600;
fn verdict(p: &Old) -> (u8, &'static str) {
    let soft = String::from_utf8_lossy(&p.software).into_owned();
    match soft.as_str() {
        "Arbiter" => {}
        "Viennasweeper" => {
            let s = &p.start_time;
            if s.len() < 10 || !s[..10].iter().all(|c| c.is_ascii_digit()) {
                return (3, "it does not say when it was played");
            }
            let t: u64 = String::from_utf8_lossy(&s[..10]).parse().unwrap();
            if t > BAN {
                return (1, "the program was banned by then");
            }
        }
        "元3.1.7" | "元3.2" => {
            if p.checksum.iter().all(|&x| x == p.checksum[0]) {
                return (1, "its checksum is a dummy");
            }
            if !p.is_fair {
                return (1, "it is marked as unfair");
            }
        }
        _ => return (1, "the program is not an accepted one"),
    }
    if p.video_action_state_recorder.len() < 10 * p.static_params.bbbv {
        return (3, "it has fewer than ten events per 3BV");
    }
    if p.is_completed {
        (0, "it was won and nothing speaks against it")
    } else {
        (1, "it was not won")
    }
}
fn audit(p: &mut Old, what: &str, other: bool) {
    let (want, why) = verdict(p);
    let got = sut("is_valid", || p.is_valid());
    check!(got == want, "verdict", "{what}: the audit says {got} instead of {want}: {why}; software {:?}, start {:?}, fair {}, {} events, 3BV {}, completed {}", String::from_utf8_lossy(&p.software), String::from_utf8_lossy(&p.start_time), p.is_fair, p.video_action_state_recorder.len(), p.static_params.bbbv, p.is_completed);
    stat(["verdict_valid", "verdict_invalid", "", "verdict_uncertain"][want.min(3) as usize], 1);
    let k = p.video_action_state_recorder.len();
    for _ in 0..2 {
        match d(if other { 4 } else { 2 }) {
            0 => {
                let t = d(40_000) as f64 / 1000.0 - 5.0;
                sut("set_current_time", || p.set_current_time(t));
            }
            1 => {
                let _ = p.set_current_event_id(d(k as u64 + 1) as usize);
            }
            2 => sut("analyse_for_features", || p.analyse_for_features(vec!["jump_judge", "mouse_trace", "vision_transfer"])),
            _ => {
                let _ = p.get_x_y();
                let _ = p.get_game_board();
            }
        }
        let again = sut("is_valid", || p.is_valid());
        check!(again == want, "position", "{what}: the audit says {again} after it said {want}: playback moved or was queried in between");
    }
}
const SOFT: [&str; 9] = ["Arbiter", "Viennasweeper", "元3.2", "元3.1.7", "元3.2.1", "", "arbiter", "0.97 beta", "元3.1"];
fn c23() {
    if chance(1, 2) {
        let faulty = chance(1, 4);
        // many events per 3BV take a long game on a small board
        let n = if chance(1, 2) { 60 + d(240) as usize } else { d(60) as usize };
        let mut l = audit_game(n, faulty);
        let mut meta = if chance(1, 4) { Meta::draw() } else { Meta::default() };
        meta.software = SOFT[pick(&[3, 3, 3, 3, 1, 1, 1, 1, 1])].as_bytes().to_vec();
        meta.fair = !chance(1, 3);
        check!(meta.set(&mut l.s.v), "metadata", "a label was refused after the game");
        let mut c = [0u8; 32];
        match d(4) {
            0 => c = [d(256) as u8; 32],
            1 => c[d(32) as usize] = 1 + d(255) as u8,
            _ => c = sum(),
        }
        if chance(5, 6) {
            let r = sut("set_checksum", || l.s.v.set_checksum(c));
            check!(r.is_ok(), "checksum", "set_checksum refused after the game");
        }
        let mut p = playback(&mut l);
        let live = sut("is_valid", || l.s.v.is_valid());
        let (want, why) = verdict(&p);
        check!(live == want, "verdict", "the audit of the finished session says {live}, its replay deserves {want}: {why}");
        audit(&mut p, "replay of a live game", true);
    } else {
        let f = [Fmt::Avf, Fmt::Rmv, Fmt::Mvf, Fmt::Evf][pick(&[3, 4, 1, 1])];
        let n = if chance(1, 2) { 60 + d(240) as usize } else { d(60) as usize };
        let g = Game::draw(f, n, if chance(1, 2) { 12 } else { 60 });
        let (mut data, _) = g.encode();
        sig(hash(&g.b));
        if g.log.len() >= 4 {
            nontrivial();
        }
        let hurt = fault_chance(1, 3);
        if hurt {
            for _ in 0..1 + fault(3) {
                let i = fault(data.len() as u64) as usize;
                data[i] = fault(256) as u8;
                stat("fault.file_damaged", 1);
            }
        }
        if f == Fmt::Rmv && !g.old && chance(1, 2) {
            // the same game at another time
            if let Some(i) = data.windows(g.start.len().max(1)).position(|w| w == &g.start[..]) {
                let s: Vec<u8> = match d(5) {
                    0 => BAN.to_string().into_bytes(),
                    1 => (BAN + 1).to_string().into_bytes(),
                    2 => (BAN - d(3)).to_string().into_bytes(),
                    3 => (1_000_000_000 + d(1_200_000_000)).to_string().into_bytes(),
                    _ => (0..10).map(|_| if chance(1, 5) { d(256) as u8 } else { 48 + d(10) as u8 }).collect(),
                };
                if s.len() == g.start.len() {
                    data[i..i + s.len()].copy_from_slice(&s);
                }
            }
        }
        note(format!("{f:?} board {} {} events", show(&g.b), g.log.len()));
        with_fs(|fs| fs.put("/simfs/x.old", &data));
        let (r, mut p) = open_as(f, "/simfs/x.old", BUDGET);
        if !hurt {
            check!(r.is_ok(), "refused", "a well-formed {f:?} file is refused: {r:?}");
        }
        if r.is_err() || p.video_action_state_recorder.is_empty() {
            return;
        }
        if hurt {
            // what a damaged file describes need not be a game; the audit asks for an analysed one
            let mut q = Some(p);
            let ok = sut_try("analyse", || {
                let mut p = q.take().unwrap();
                p.analyse();
                p
            });
            match ok {
                Ok(x) => p = x,
                Err(_) => return,
            }
            stat("damaged_and_analysed", 1);
        } else {
            sut("analyse", || p.analyse());
        }
        audit(&mut p, "replay of another program", !hurt);
    }
}
fn audit_game(n: usize, faulty: bool) -> Live {
    clocks();
    if chance(1, 2) {
        let at = match d(4) {
            0 => BAN as i64 * 1_000_000_000 + 999_999_999,
            1 => BAN as i64 * 1_000_000_000 - d(5_000_000_000) as i64,
            2 => (BAN as i64 + 1) * 1_000_000_000 + d(1_000_000_000) as i64,
            _ => 1_400_000_000_000_000_000 + d(400_000_000) as i64 * 1_000_000_000,
        };
        set_clocks(1_000_000_000, at);
    }
    let b = board(if chance(1, 2) { 12 } else { 40 });
    note(format!("board {}", show(&b)));
    let mut l = Live::new(&b, 16, faulty);
    if chance(1, 2) {
        // moves with no button pressed fill the record
        l.pl.style = 1;
    }
    for _ in 0..n {
        if l.md.over() {
            break;
        }
        if chance(1, 2) {
            let p = (d(b.len() as u64) as usize, d(b[0].len() as u64) as usize);
            l.tick.pass();
            let _ = l.cell("mv", p);
        } else {
            let _ = l.next();
        }
    }
    l.finish();
    l
}
/// everything a session tells about itself except the board it shows
fn rest(l: &mut Live) -> Vec<(String, String)> {
    let mut r = report(&mut l.s.v, false);
    r.retain(|x| x.0 != "get_game_board");
    let ev = format!("{:?}", l.s.v.video_action_state_recorder.iter().map(|e| (e.mouse.clone(), e.time.to_bits(), e.x, e.y, e.useful_level, e.comments.clone())).collect::<Vec<_>>());
    r.push(("events".into(), ev));
    r.push(("board".into(), show(&l.s.v.minesweeper_board.board.into_vec_vec())));
    r
}
/// Call the helpers as drawn; what is shown changes as specified and nothing else does.
fn helpers(l: &mut Live) {
    for _ in 0..1 + d(3) {
        let old = l.s.vis();
        let before = rest(l);
        let win = chance(1, 2);
        let v = &mut l.s.v;
        if win {
            sut("win_then_flag_all_mine", || v.win_then_flag_all_mine());
        } else {
            sut("loss_then_open_all_mine", || v.loss_then_open_all_mine());
        }
        let name = if win { "win_then_flag_all_mine" } else { "loss_then_open_all_mine" };
        let mut want = old.clone();
        match (l.md.ph, win) {
            (Ph::Win, true) => want.iter_mut().flatten().for_each(|x| {
                if *x == 10 {
                    *x = 11
                }
            }),
            (Ph::Loss, false) => {
                for i in 0..l.md.n {
                    for j in 0..l.md.m {
                        if want[i][j] == 10 && l.md.b[i][j] == -1 {
                            want[i][j] = 16;
                        }
                    }
                }
            }
            _ => {}
        }
        let got = l.s.vis();
        check!(got == want, "shown", "{name} in {:?} turns {} into {} instead of {}", l.md.ph, show(&old), show(&got), show(&want));
        let after = rest(l);
        for (a, b) in before.iter().zip(after.iter()) {
            check!(a == b, "side-effect", "{name} in {:?} changes {} from {} to {}", l.md.ph, a.0, a.1, b.1);
        }
        if got != old {
            stat("display_changed", 1);
            if l.md.ph == Ph::Win {
                // now every mine is flagged and nothing else
                for i in 0..l.md.n {
                    for j in 0..l.md.m {
                        check!((got[i][j] == 11) == (l.md.b[i][j] == -1), "shown", "after a won game {} is shown for {}", show(&got), show(&l.md.b));
                    }
                }
            }
        }
        l.md.vis = got;
        stat("helper_calls", 1);
    }
}
fn c24() {
    clocks();
    let faulty = chance(1, 3);
    let b = board(if chance(1, 8) { 200 } else { 60 });
    let pix = PIX[d(6) as usize];
    let mut l = Live::new(&b, pix, faulty);
    note(format!("board {}", show(&b)));
    sample(format!("board {}", show(&b)));
    let games = 1 + d(3);
    for g in 0..games {
        let n = d(60) as usize;
        for _ in 0..n {
            if l.md.over() {
                break;
            }
            let _ = l.next();
            if chance(1, 6) {
                helpers(&mut l);
            }
        }
        let quit = g + 1 < games && chance(1, 4);
        let mut raw = None;
        if !quit {
            l.finish();
            if chance(1, 2) {
                // encoding before or after must not differ
                let v = &mut l.s.v;
                sut("generate_evf_v0_raw_data", || v.generate_evf_v0_raw_data());
                raw = l.s.v.get_raw_data().ok();
            }
            helpers(&mut l);
            if let Some(raw) = raw {
                with_fs(|fs| fs.put("/simfs/e.evf", &raw));
                let p = match read_evf("/simfs/e.evf") {
                    Ok(p) => p,
                    Err(e) => fail("encoded", format!("the replay is refused: {e}")),
                };
                check!(p.board == l.md.b, "encoded", "the replay holds {} instead of {}", show(&p.board), show(&l.md.b));
                check!(p.is_completed == (l.md.ph == Ph::Win), "encoded", "the replay says completed={}", p.is_completed);
                check!(p.video_action_state_recorder.len() == l.log.len(), "encoded", "the replay has {} events instead of {}", p.video_action_state_recorder.len(), l.log.len());
            } else {
                let v = &mut l.s.v;
                sut("generate_evf_v0_raw_data", || v.generate_evf_v0_raw_data());
                let raw = l.s.v.get_raw_data().unwrap_or_default();
                with_fs(|fs| fs.put("/simfs/e.evf", &raw));
                let ok = read_evf("/simfs/e.evf").map(|p| (p.board == l.md.b, p.is_completed == (l.md.ph == Ph::Win), p.video_action_state_recorder.len() == l.log.len()));
                check!(ok == Ok((true, true, true)), "encoded", "encoded after the display was changed, board, result and events read back: {ok:?}");
            }
            // a finished game stays finished
            let ph = l.md.ph;
            l.pl.queue.clear();
            for _ in 0..d(5) {
                let _ = l.next();
                check!(l.md.ph == ph, "finished", "the game went from {ph:?} to {:?}", l.md.ph);
            }
        }
        if g + 1 < games {
            let (n, m) = (b.len(), b[0].len());
            let v = &mut l.s.v;
            sut("reset", || v.reset(n, m, pix as u8));
            let shown = l.s.vis();
            check!(shown.iter().flatten().all(|&x| x == 10), "reset", "after a reset {} is shown", show(&shown));
            let v = &mut l.s.v;
            let r = sut("set_board", || v.set_board(b.clone()));
            check!(r.is_ok(), "reset", "the board was refused after a reset");
            l.md = Model::new(&b);
            l.log.clear();
            l.start = None;
            l.end = None;
            l.pl.queue.clear();
            stat("resets", 1);
        }
    }
}
