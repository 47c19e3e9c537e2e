//! C10: a reset or reused session against a fresh one. C17: what each phase accepts.
use crate::board::*;
use crate::model::*;
use crate::play::*;
use crate::replay::*;
use crate::session::*;
use ms_toollib::{BaseVideo, GameBoardState, MinesweeperBoard, SafeBoard};
use simrt::*;

pub const P10: Prop = Prop {
    id: "C10",
    quick: 70000,
    thorough: 2000000,
    chunk: 100,
    f: c10,
    rule: "a run plays up to three games in one session (abandoned or finished, with labels and checksums set), resets it, then drives it and a fresh session in lockstep with the same board, events and clock, comparing everything reported after every event and the encoded replay at the end; or the same for the bare board. Non-trivial: at least 4 events in lockstep. Distinct: by hash of boards reached",
    real: "BaseVideo::reset, set_board, new_before_game, MinesweeperBoard::reset, all getters, EVF encoder",
    stub: "clock, player, event transport",
};
pub const P17: Prop = Prop {
    id: "C17",
    quick: 100000,
    thorough: 3000000,
    chunk: 100,
    f: c17,
    rule: "a run walks a session through drawn phases (ready, pre-game flags, playing, won or lost, reset, playback of its replay) and at drawn moments calls drawn operations, comparing acceptance with the phase table and everything reported before and after. Non-trivial: at least 4 operations in at least two phases. Distinct: by hash of phases, operations and boards",
    real: "BaseVideo setters, getters, set_board, EVF codec",
    stub: "clock, player",
};
fn compare<T, U>(a: &mut BaseVideo<T>, b: &mut BaseVideo<U>, when: &str) {
    let (ra, rb) = sut("getters", || (report(a, false), report(b, false)));
    for ((n, x), (_, y)) in ra.iter().zip(&rb) {
        // the level is derived from the board, which both were given
        check!(x == y, "leak", "{when}: {n} is {x} in the reused session and {y} in a fresh one");
    }
    let (ea, eb) = (&a.video_action_state_recorder, &b.video_action_state_recorder);
    check!(ea.len() == eb.len(), "leak", "{when}: {} events recorded in the reused session, {} in a fresh one", ea.len(), eb.len());
    if let (Some(x), Some(y)) = (ea.last(), eb.last()) {
        check!(
            x.time == y.time && x.mouse == y.mouse && (x.x, x.y) == (y.x, y.y) && x.useful_level == y.useful_level && x.mouse_state == y.mouse_state && x.path == y.path && x.comments == y.comments,
            "leak",
            "{when}: the last recorded event differs"
        );
        check!((x.prior_game_board_id, x.next_game_board_id) == (y.prior_game_board_id, y.next_game_board_id), "leak", "{when}: the last recorded event refers to other boards");
    }
    check!(a.game_board_stream.len() == b.game_board_stream.len(), "leak", "{when}: {} boards recorded in the reused session, {} in a fresh one", a.game_board_stream.len(), b.game_board_stream.len());
    if let (Some(x), Some(y)) = (a.game_board_stream.last(), b.game_board_stream.last()) {
        check!(x.game_board == y.game_board, "leak", "{when}: the last recorded board differs");
    }
}
fn c10() {
    match pick(&[12, 3, 2]) {
        0 => {}
        1 => return bare(),
        _ => return recycled(),
    }
    clocks();
    let faulty = chance(1, 2);
    let pix = PIX[d(6) as usize];
    let b0 = board(if chance(1, 12) { 256 } else { 50 });
    let mut l = Live::new(&b0, pix, faulty);
    note(format!("board {}", show(&b0)));
    let labels = chance(1, 2);
    let meta = Meta::draw();
    let games = 1 + d(2);
    let mut cur = b0;
    for g in 0..games {
        let n = d(50) as usize;
        for _ in 0..n {
            if l.md.over() {
                break;
            }
            let _ = l.next();
            if chance(1, 80) {
                let _ = l.s.v.set_rtime(7.25);
            }
            if chance(1, 40) && !l.md.over() {
                // another board in the middle
                if let Some(nb) = crate::c01::other_board(&l.md) {
                    let _ = l.s.v.set_board(nb.clone());
                    l.md.b = nb;
                }
            }
        }
        if chance(1, 2) {
            l.finish();
            if chance(1, 2) {
                meta.set(&mut l.s.v);
                encode(&mut l.s.v);
            }
            if chance(1, 6) {
                l.s.v.win_then_flag_all_mine();
                l.s.v.loss_then_open_all_mine();
            }
        } else {
            stat("games_abandoned", 1);
        }
        // reset: same size or another one, same board or another one
        let b = match d(3) {
            0 => cur.clone(),
            1 => board_of(cur.len(), cur[0].len()),
            _ => board(50),
        };
        l.tick.pass();
        let (n, m) = (b.len(), b[0].len());
        let v = &mut l.s.v;
        sut("reset", || v.reset(n, m, pix as u8));
        note(format!("reset {g}; board {}", show(&b)));
        l.md = Model::new(&b);
        l.log.clear();
        l.pl.queue.clear();
        cur = b.clone();
        if g + 1 < games {
            let r = v.set_board(b);
            check!(r.is_ok(), "reset", "the board was refused after a reset");
        }
    }
    let b = cur;
    let (n, m) = (b.len(), b[0].len());
    let zero = vec![vec![0; m]; n];
    let mut f = sut("new_before_game", || BaseVideo::<SafeBoard>::new_before_game(zero.clone(), pix as u8));
    // labels stay over a reset, by design; give the fresh session the ones the reused one shows
    f.software = l.s.v.software.clone();
    f.player_designator = l.s.v.player_designator.clone();
    f.race_designator = l.s.v.race_designator.clone();
    f.uniqueness_designator = l.s.v.uniqueness_designator.clone();
    f.country = l.s.v.country.clone();
    f.device_uuid = l.s.v.device_uuid.clone();
    f.mode = l.s.v.mode;
    f.nf = l.s.v.nf;
    compare(&mut l.s.v, &mut f, "after the reset");
    if chance(1, 8) {
        let (x, y) = (l.s.v.set_rtime(1.5), f.set_rtime(1.5));
        check!(x == y, "leak", "set_rtime: {x:?} in the reused session, {y:?} in a fresh one");
        compare(&mut l.s.v, &mut f, "after set_rtime");
    }
    let late = chance(1, 3);
    if !late {
        let (v, f) = (&mut l.s.v, &mut f);
        check!(v.set_board(b.clone()).is_ok() && f.set_board(b.clone()).is_ok(), "reset", "the board was refused");
        compare(v, f, "after set_board");
    }
    let mut fs = Session { v: f, pix, steady: l.s.steady };
    let mut set = !late;
    let k = 5 + d(60) as usize;
    let mut over = 0;
    for i in 0..k + 400 {
        if l.md.over() {
            over += 1;
            if over > 2 {
                break;
            }
        }
        l.tick.pass();
        if !set && (i > 6 || chance(1, 4)) {
            // the board arrives later, before the first opening click
            let (v, f) = (&mut l.s.v, &mut fs.v);
            let (x, y) = (v.set_board(b.clone()), f.set_board(b.clone()));
            check!(x == y, "leak", "set_board: {:?} in the reused session, {:?} in a fresh one", x, y);
            set = true;
        }
        let (e, _) = if i < k || l.md.over() {
            l.pl.next(&l.md)
        } else {
            // head for the end
            l.pl.style = 0;
            l.pl.careless = 0;
            l.pl.wild = 0;
            l.pl.fault = 0;
            l.pl.next(&l.md)
        };
        if !set && e.0 == "lr" {
            continue;
        }
        let px = l.s.px(e.1);
        let r = l.raw(e.0, px);
        let f = &mut fs.v;
        let q = sut(e.0, || f.step(e.0, px));
        check!(r == q, "leak", "{} at {:?}: {:?} in the reused session, {:?} in a fresh one", e.0, px, r, q);
        compare(&mut l.s.v, &mut fs.v, &format!("after event {i}, {} at {:?}", e.0, px));
        if i == 4 {
            nontrivial();
        }
        if chance(1, 4) {
            l.tick.pass();
            compare(&mut l.s.v, &mut fs.v, "later");
        }
    }
    if l.md.over() {
        stat("encodings_compared", 1);
        let (v, f) = (&mut l.s.v, &mut fs.v);
        if labels {
            let m = Meta::draw();
            m.set(v);
            m.set(f);
        }
        sut("encode", || {
            v.generate_evf_v0_raw_data();
            f.generate_evf_v0_raw_data();
        });
        compare(v, f, "after encoding");
        if chance(1, 2) {
            let c = sum();
            let (x, y) = (sut("set_checksum", || v.set_checksum(c)), sut("set_checksum", || f.set_checksum(c)));
            check!(x == y, "leak", "set_checksum: {:?} in the reused session, {:?} in a fresh one", x, y);
            compare(v, f, "after set_checksum");
        }
    }
}
/// The session of a replay that was read, and perhaps played, is reset and played on.
fn recycled() {
    clocks();
    let faulty = chance(1, 2);
    let mut l = {
        let (h, w) = size(40);
        let b = board_of(h, w);
        let mut l = Live::new(&b, PIX[d(6) as usize], faulty);
        l.play(d(30) as usize);
        l
    };
    if chance(1, 2) {
        Meta::draw().set(&mut l.s.v);
    }
    encode(&mut l.s.v);
    let raw = l.s.v.get_raw_data().unwrap_or_default();
    with_fs(|fs| fs.put("/simfs/r.evf", &raw));
    let mut v = match read_evf("/simfs/r.evf") {
        Ok(p) => p,
        Err(e) => fail("refused", format!("a complete replay is refused: {e}")),
    };
    let (h, w) = size(40);
    let pix = PIX[d(6) as usize];
    if chance(3, 4) {
        sut("analyse", || v.analyse());
        for _ in 0..d(4) {
            let (k, i) = (v.video_action_state_recorder.len() as u64, d(3));
            sut("playback", || match i {
                0 => v.set_current_time(d(20_000) as f64 / 1000.0),
                1 => drop(v.set_current_event_id(d(k) as usize)),
                _ => v.set_video_playing_pix_size(1 + d(50) as u8),
            });
        }
        if chance(1, 4) {
            sut("analyse_for_features", || v.analyse_for_features(vec!["jump_judge", "needless_guess"]));
        }
    }
    l.tick.pass();
    sut("reset", || v.reset(h, w, pix as u8));
    note(format!("a replay's session is reset to {h}x{w}, cell size {pix}"));
    let mut f = sut("new_before_game", || BaseVideo::<SafeBoard>::new_before_game(vec![vec![0; w]; h], pix as u8));
    macro_rules! labels {
        ($($n:ident)*) => { $( f.$n = v.$n.clone(); )* };
    }
    labels!(software player_designator race_designator uniqueness_designator country device_uuid mode nf);
    compare(&mut v, &mut f, "after the reset of a replay's session");
    check!(v.board == vec![vec![0; w]; h], "leak", "after the reset of a replay's session its board is {}", show(&v.board));
    if chance(1, 8) {
        let (x, y) = (v.set_rtime(1.5), f.set_rtime(1.5));
        check!(x == y, "leak", "set_rtime: {x:?} in a replay's session reset, {y:?} in a fresh one");
        compare(&mut v, &mut f, "after set_rtime");
    }
    // an empty board: flags set and removed, then any opening wins
    let mut md = Model::new(&vec![vec![0; w]; h]);
    let mut pl = Player::draw(faulty);
    for i in 0..d(30) {
        l.tick.pass();
        let (e, _) = pl.next(&md);
        let px = (e.1 .0 * pix + pix / 2, e.1 .1 * pix + pix / 2);
        let (r, q) = (sut(e.0, || v.step(e.0, px)), sut(e.0, || f.step(e.0, px)));
        check!(r == q, "leak", "{} at {px:?}: {r:?} in a replay's session reset, {q:?} in a fresh one", e.0);
        compare(&mut v, &mut f, &format!("after event {i} of a replay's session, {} at {px:?}", e.0));
        sig(hash(&v.get_game_board()));
        md.track(e.0);
        md.vis = v.get_game_board();
        md.ph = phase(v.game_board_state);
        if i == 4 {
            nontrivial();
        }
        if md.over() {
            stat("encodings_compared", 1);
            if chance(1, 2) {
                let m = Meta::draw();
                m.set(&mut v);
                m.set(&mut f);
            }
            sut("encode", || {
                v.generate_evf_v0_raw_data();
                f.generate_evf_v0_raw_data();
            });
            compare(&mut v, &mut f, "after encoding");
            break;
        }
    }
    stat("replay_sessions_reset", 1);
}
/// The bare board.
fn bare() {
    let b0 = board(50);
    let mut s = sut("new", || MinesweeperBoard::<B>::new(b0.clone()));
    let mut md = Model::new(&b0);
    let mut pl = Player::draw(chance(1, 2));
    pl.exotic = chance(1, 3);
    let none = crate::play::Want { c01: false, c02: false, c03: false };
    let (mut bb, mut games) = (b0, 1 + d(2));
    loop {
        crate::c01::drive(&mut md, &mut s, &mut pl, d(50) as usize, none);
        sut("reset", || s.reset());
        games -= 1;
        if games == 0 {
            break;
        }
        s.board = bb.clone();
        md = Model::new(&bb);
        pl.queue.clear();
    }
    bb = board_of(bb.len(), bb[0].len());
    s.board = bb.clone();
    let mut f = MinesweeperBoard::<B>::new(bb.clone());
    let mut md = Model::new(&bb);
    pl.queue.clear();
    note(format!("reset; board {}", show(&bb)));
    for i in 0..60 {
        let (e, _) = pl.next(&md);
        let (x, y) = (sut(e.0, || s.step(e.0, e.1)), sut(e.0, || f.step(e.0, e.1)));
        check!(x == y, "leak", "event {i}, {} at {:?}: {:?} on the reused board, {:?} on a fresh one", e.0, e.1, x, y);
        let g = |s: &MinesweeperBoard<B>| (s.game_board.clone(), s.left, s.right, s.double, s.ce, s.flag, s.bbbv_solved, s.mouse_state, s.game_board_state);
        let (x, y) = (g(&s), g(&f));
        check!(x == y, "leak", "event {i}, {} at {:?}: {:?} on the reused board, {:?} on a fresh one", e.0, e.1, x, y);
        md.track(e.0);
        md.vis = s.game_board.clone();
        md.ph = phase(s.game_board_state);
        mixlog(hash(&md.vis));
        sig(hash(&md.vis));
        if i == 4 {
            nontrivial();
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Phase {
    Ready,
    Pre,
    Playing,
    Over,
    Play,
}
fn phase_of<T>(v: &BaseVideo<T>) -> Phase {
    match v.game_board_state {
        GameBoardState::Ready => Phase::Ready,
        GameBoardState::PreFlaging => Phase::Pre,
        GameBoardState::Playing => Phase::Playing,
        GameBoardState::Win | GameBoardState::Loss => Phase::Over,
        GameBoardState::Display => Phase::Play,
    }
}
/// One drawn setter. Returns its name, whether it was accepted, whether the phase allows it, and the
/// names of the reported items it is meant to change.
fn setter<T>(v: &mut BaseVideo<T>, ph: Phase, checksum_ok: bool) -> (String, bool, bool, &'static [&'static str]) {
    let over = ph == Phase::Over;
    let t = text(12);
    macro_rules! bytes {
        ($f:ident, $field:ident, $ok:expr) => {{
            let r = sut(stringify!($f), || v.$f(t.clone()));
            if r.is_ok() {
                check!(v.$field == t, "effect", "{} was accepted and had no effect", stringify!($f));
            }
            (stringify!($f).to_string(), r.is_ok(), $ok, &[stringify!($field)])
        }};
    }
    match d(14) {
        0 => bytes!(set_software, software, over || ph == Phase::Ready),
        1 => bytes!(set_player_designator, player_designator, over),
        2 => bytes!(set_race_designator, race_designator, over),
        3 => bytes!(set_uniqueness_designator, uniqueness_designator, over),
        4 => bytes!(set_country, country, over),
        5 => bytes!(set_device_uuid, device_uuid, over),
        6 => {
            let x = v.start_time.clone();
            let r = v.set_start_time(t.clone());
            if r.is_ok() {
                check!(v.start_time == t, "effect", "set_start_time was accepted and had no effect");
            } else {
                check!(v.start_time == x, "effect", "set_start_time was refused and had an effect");
            }
            ("set_start_time".into(), r.is_ok(), over, &["start_time"])
        }
        7 => bytes!(set_end_time, end_time, over),
        8 => {
            let x = d(70000) as u16;
            let r = v.set_mode(x);
            check!(r.is_err() || v.mode == x, "effect", "set_mode was accepted and had no effect");
            ("set_mode".into(), r.is_ok(), over, &["mode"])
        }
        9 => {
            let x = !v.is_offical;
            let r = v.set_is_offical(x);
            check!(r.is_err() || v.is_offical == x, "effect", "set_is_offical was accepted and had no effect");
            ("set_is_offical".into(), r.is_ok(), over, &["is_offical"])
        }
        10 => {
            let x = !v.is_fair;
            let r = v.set_is_fair(x);
            check!(r.is_err() || v.is_fair == x, "effect", "set_is_fair was accepted and had no effect");
            ("set_is_fair".into(), r.is_ok(), over, &["is_fair"])
        }
        11 => {
            let x = v.cell_pixel_size;
            let r = v.set_pix_size(x);
            ("set_pix_size".into(), r.is_ok(), over || ph == Phase::Ready, &[])
        }
        12 if checksum_ok || !over => {
            let c = sum();
            let r = sut("set_checksum", || v.set_checksum(c));
            check!(r.is_err() || v.get_checksum() == Ok(c), "effect", "set_checksum was accepted and had no effect");
            ("set_checksum".into(), r.is_ok(), over, &["checksum", "get_checksum", "get_raw_data"])
        }
        13 => {
            let r = v.set_rtime(1.25);
            ("set_rtime".into(), r.is_ok(), false, &[])
        }
        _ => {
            let r = sut("set_current_event_id", || v.set_current_event_id(0));
            ("set_current_event_id".into(), r.is_ok(), ph == Phase::Play, &["current_event_id", "current_time"])
        }
    }
}
fn queries<T>(v: &mut BaseVideo<T>, ph: Phase) {
    let done = matches!(ph, Phase::Over | Phase::Play);
    let play = ph == Phase::Play;
    macro_rules! q {
        ($ok:expr; $($f:ident)*) => { $( {
            let r = sut(stringify!($f), || v.$f().is_ok());
            check!(r == $ok, "query", "{} is {} in phase {:?}", stringify!($f), if r { "answered" } else { "refused" }, ph);
        } )* };
    }
    q!(done; get_rtime get_rtime_ms get_raw_data get_checksum get_etime get_bbbv_s get_bbbv_solved get_stnb get_rqp get_qg
       get_ce get_ce_s get_corr get_thrp get_ioe get_op_solved get_isl_solved);
    q!(play; get_video_start_time get_video_end_time get_pix_size get_x_y);
}
fn unchanged(a: &[(String, String)], b: &[(String, String)], except: &[&str], what: &str) {
    for ((n, x), (_, y)) in a.iter().zip(b) {
        if !except.contains(&n.as_str()) {
            check!(x == y, "effect", "{what} changed {n} from {x} to {y}");
        }
    }
}
fn poke<T>(v: &mut BaseVideo<T>, checksum_ok: bool) {
    let ph = phase_of(v);
    if chance(1, 3) {
        queries(v, ph);
    }
    let a = report(v, false);
    let (name, got, want, fields) = setter(v, ph, checksum_ok);
    note(format!("{name} in phase {ph:?}: {}", if got { "accepted" } else { "refused" }));
    check!(got == want, "acceptance", "{name} was {} in phase {ph:?}", if got { "accepted" } else { "refused" });
    let b = report(v, false);
    unchanged(&a, &b, if got { fields } else { &[] }, &format!("{name} ({} in phase {ph:?})", if got { "accepted" } else { "refused" }));
    stat(if got { "operations_accepted" } else { "operations_refused" }, 1);
    sig(hash_step(name.len() as u64, ph as u64));
}
/// boards of the standard sizes, with the standard number of mines or nearly
fn levels() {
    let (n, m, k) = [(8, 8, 10), (16, 16, 40), (16, 30, 99)][d(3) as usize];
    let (n, m) = [(n, m), (n, m), (m, n), (n, m + 1), (n + 1, m)][d(5) as usize];
    let mut v = sut("new_before_game", || BaseVideo::<SafeBoard>::new_before_game(board_of(n, m), 16));
    for _ in 0..1 + d(3) {
        if chance(1, 2) {
            sut("reset", || v.reset(n, m, 16));
        }
        let b = board_with(n, m, k - 1 + pick(&[1, 4, 1]));
        let r = sut("set_board", || v.set_board(b.clone()));
        check!(r.is_ok(), "acceptance", "set_board was refused before the game");
        check!((v.level, v.mine_num, v.height, v.width) == (level_of(&b), mines_of(&b), n, m), "effect", "after set_board the session says level {}, {} mines, {}x{} with {}", v.level, v.mine_num, v.height, v.width, show(&b));
        stat("standard_boards", 1);
    }
}
fn c17() {
    clocks();
    if chance(1, 8) {
        levels();
    }
    let b = board(50);
    let pix = PIX[d(6) as usize];
    let mut l = Live::new(&b, pix, chance(1, 3));
    note(format!("board {}", show(&b)));
    sample(format!("board {}", show(&b)));
    let dense = [2, 5, 12][d(3) as usize];
    let n = d(50);
    let mut i = 0;
    loop {
        if chance(1, dense) {
            poke(&mut l.s.v, true);
        }
        if chance(1, 12) {
            swap(&mut l);
        }
        if l.md.over() || i >= n {
            break;
        }
        i += 1;
        let _ = l.next();
    }
    if chance(1, 8) {
        // leave the game where it is and start again
        let v = &mut l.s.v;
        v.reset(b.len(), b[0].len(), pix as u8);
        check!(phase_of(v) == Phase::Ready, "phase", "after a reset the phase is {:?}", phase_of(v));
        let _ = v.set_board(b.clone());
        poke(v, true);
        l.md = Model::new(&b);
        l.log.clear();
        l.pl.queue.clear();
    }
    l.finish();
    for _ in 0..(2 + d(12)) {
        let v = &mut l.s.v;
        if chance(1, 4) {
            sut("encode", || v.generate_evf_v0_raw_data());
        }
        poke(v, true);
        if chance(1, 8) {
            swap(&mut l);
        }
        if chance(1, 8) {
            // a finished game takes no further event
            let a = report(&mut l.s.v, false);
            let _ = l.next();
            let z = report(&mut l.s.v, false);
            unchanged(&a, &z, &[], "an event after the game");
        }
    }
    // what was accepted survives into the replay
    let v = &mut l.s.v;
    sut("encode", || v.generate_evf_v0_raw_data());
    let raw = v.get_raw_data().unwrap_or_default();
    with_fs(|fs| fs.put("/simfs/p.evf", &raw));
    let mut p = match read_evf("/simfs/p.evf") {
        Ok(p) => p,
        Err(e) => fail("encoded", format!("the replay is refused: {e}")),
    };
    check!(Meta::get(&p) == Meta::get(&l.s.v), "encoded", "the replay says {:?}, the session {:?}", Meta::get(&p), Meta::get(&l.s.v));
    check!(p.start_time == l.s.v.start_time && p.end_time == l.s.v.end_time, "encoded", "the replay has other stamps than the session");
    check!(Ok(p.checksum) == l.s.v.get_checksum(), "encoded", "the replay has another checksum than the session");
    sut("analyse", || p.analyse());
    for _ in 0..3 {
        poke(&mut p, false);
        queries(&mut p, Phase::Play);
    }
}
/// set_board: right or wrong size, in any phase.
fn swap(l: &mut Live) {
    let ph = phase_of(&l.s.v);
    let (n, m) = (l.md.n, l.md.m);
    let v = &mut l.s.v;
    let a = report(v, false);
    let wrong = chance(1, 2);
    let nb = if wrong {
        let (n2, m2) = if chance(1, 2) || n == m { (n + 1, m) } else { (m, n) };
        board_of(n2, m2)
    } else if ph == Phase::Playing || ph == Phase::Over {
        // keep every opened cell true
        l.md.b.clone()
    } else {
        board_of(n, m)
    };
    let r = sut("set_board", || v.set_board(nb.clone()));
    let want = !wrong && ph != Phase::Over;
    check!(r.is_ok() == want, "acceptance", "set_board with a board of {} size was {} in phase {ph:?}", if wrong { "another" } else { "the same" }, if r.is_ok() { "accepted" } else { "refused" });
    let z = report(v, false);
    unchanged(&a, &z, if want { &["mine_num", "level"] } else { &[] }, "set_board");
    if want {
        check!(v.mine_num == mines_of(&nb), "effect", "set_board was accepted, the session counts {} mines instead of {}", v.mine_num, mines_of(&nb));
        check!(v.level == level_of(&nb), "effect", "set_board was accepted, the session has level {} with {}", v.level, show(&nb));
        l.md.b = nb;
        stat("boards_accepted", 1);
    } else {
        stat("boards_refused", 1);
    }
}
