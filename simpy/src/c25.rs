//! C25: the Python package answers as the library does, for every history of calls.
use crate::board::*;
use crate::legacy::*;
use crate::model::*;
use crate::parity::*;
use crate::play::*;
use crate::py::*;
use crate::replay::Meta;
use crate::session::*;
use crate::value::*;
use ms_toollib::*;
use simrt::*;

pub const P: Prop = Prop {
    id: "C25",
    quick: 40_000,
    thorough: 500_000,
    chunk: 100,
    f: run,
    rule: "a run drives one class of the Python package, or its functions at the positions of one game, in lockstep with the library: live sessions under drawn clocks and event faults with metadata changes, seeks, resets, board swaps and saving at drawn moments; readers of all four formats on whole and damaged files with analyses and seek histories; boards fed one event at a time or in batches. After every few calls everything the object tells is compared. Non-trivial: at least 8 calls were compared. Distinct: by hash of the calls",
    real: "the Python extension module (compiled from /repo/python_package) inside a real embedded CPython, the whole library below it, std::fs",
    stub: "clock, disk, player, event transport, programs that write the older formats",
};
macro_rules! cmp {
    ($o:expr, $what:expr; $($n:literal: $e:expr),* $(,)?) => {
        { $( eq(&format!("{}: {}", $what, $n), &attr($o, $n), &core(|| $e)); )* }
    };
}
fn common<T>(o: &Obj, v: &mut BaseVideo<T>, what: &str) {
    cmp!(o, what;
        "raw_data": v.get_raw_data(), "time": v.get_time(), "software": v.software.clone(), "row": v.height, "column": v.width,
        "level": v.level, "mode": v.mode, "is_completed": v.is_completed, "is_offical": v.is_offical, "is_fair": v.is_fair,
        "mine_num": v.mine_num, "player_designator": v.player_designator.clone(), "race_designator": v.race_designator.clone(),
        "uniqueness_designator": v.uniqueness_designator.clone(), "country": v.country.clone(), "bbbv": v.static_params.bbbv,
        "start_time": v.start_time.clone(), "end_time": v.end_time.clone(), "op": v.static_params.op, "isl": v.static_params.isl,
        "hizi": v.static_params.hizi, "cell0": v.static_params.cell0, "cell1": v.static_params.cell1, "cell2": v.static_params.cell2,
        "cell3": v.static_params.cell3, "cell4": v.static_params.cell4, "cell5": v.static_params.cell5, "cell6": v.static_params.cell6,
        "cell7": v.static_params.cell7, "cell8": v.static_params.cell8, "rtime": v.get_rtime(), "rtime_ms": v.get_rtime_ms(),
        "etime": v.get_etime(), "video_start_time": v.get_video_start_time(), "video_end_time": v.get_video_end_time(),
        "bbbv_s": v.get_bbbv_s(), "stnb": v.get_stnb(), "rqp": v.get_rqp(), "left": v.get_left(), "right": v.get_right(),
        "double": v.get_double(), "cl": v.get_cl(), "flag": v.get_flag(), "bbbv_solved": v.get_bbbv_solved(), "ce": v.get_ce(),
        "left_s": v.get_left_s(), "right_s": v.get_right_s(), "double_s": v.get_double_s(), "cl_s": v.get_cl_s(), "flag_s": v.get_flag_s(),
        "path": v.get_path(), "ce_s": v.get_ce_s(), "ioe": v.get_ioe(), "thrp": v.get_thrp(), "corr": v.get_corr(),
        "events_len": v.video_action_state_recorder.len(), "current_event_id": v.current_event_id, "game_board": v.get_game_board(),
        "mouse_state": v.get_mouse_state(), "checksum": v.get_checksum(),
    );
    stat("attributes_compared", 55);
}
fn event<T>(o: &Obj, v: &mut BaseVideo<T>, i: usize, deep: bool) {
    macro_rules! ev { ($n:literal, $e:expr) => { eq(&format!("{}({i})", $n), &ask(o, $n, (i,)), &core(|| $e)) } }
    ev!("events_time", v.video_action_state_recorder[i].time);
    ev!("events_mouse", v.video_action_state_recorder[i].mouse.clone());
    ev!("events_x", v.video_action_state_recorder[i].x);
    ev!("events_y", v.video_action_state_recorder[i].y);
    ev!("events_useful_level", v.video_action_state_recorder[i].useful_level);
    ev!("events_comments", v.video_action_state_recorder[i].comments.clone());
    ev!("events_mouse_state", mouse(v.video_action_state_recorder[i].mouse_state));
    if deep {
        let g = sut_try("library", || v.game_board_stream[v.video_action_state_recorder[i].prior_game_board_id].clone());
        let h = o.call("events_prior_game_board", (i,));
        check!(g.is_ok() == h.is_ok(), "differs", "events_prior_game_board({i}): Python answers {}, the library {}", h.is_ok(), g.is_ok());
        if let (Ok(mut g), Ok(h)) = (g, h) {
            gameboard(&h, &mut g);
        }
    }
    stat("events_compared", 1);
}
fn gameboard(h: &Obj, g: &mut GameBoard) {
    for _ in 0..1 + d(4) {
        match d(5) {
            0 => cmp!(h, "GameBoard"; "poss": g.get_poss().to_vec()),
            1 => cmp!(h, "GameBoard"; "basic_not_mine": g.get_basic_not_mine().to_vec()),
            2 => cmp!(h, "GameBoard"; "basic_is_mine": g.get_basic_is_mine().to_vec()),
            3 => cmp!(h, "GameBoard"; "enum_not_mine": g.get_enum_not_mine().to_vec()),
            _ => cmp!(h, "GameBoard"; "enum_is_mine": g.get_enum_is_mine().to_vec()),
        }
    }
}
fn new(class: &str, a: impl pyo3::IntoPy<pyo3::Py<pyo3::types::PyTuple>>) -> Obj {
    match Obj::module().call(class, a) {
        Ok(o) => o,
        Err(e) => fail("differs", format!("{class} cannot be made: {e}")),
    }
}
fn same(what: &str, p: &Result<Obj, String>, r: bool) {
    check!(p.is_ok() == r, "differs", "{what}: Python {}, the library {} it", match p {
        Ok(_) => "accepts it".to_string(),
        Err(e) => format!("raises {e}"),
    }, if r { "accepts" } else { "refuses" });
}
fn live() {
    clocks();
    let faulty = chance(1, 2);
    let b = board(60);
    let pix = PIX[d(6) as usize];
    note(format!("session on {}", show(&b)));
    sample(format!("session on {}", show(&b)));
    let mut l = Live::new(&b, pix, faulty);
    l.pl.exotic = chance(1, 4);
    let mut b = b;
    let o = new("BaseVideo", (b.clone(), pix as u8));
    let mut games = 0;
    let mut k = 0;
    let style = d(4);
    for _ in 0..20 + d(120) {
        k += 1;
        if l.md.over() && chance(1, 3) {
            games += 1;
            if games > 2 {
                break;
            }
            let (n, m) = if chance(1, 2) { (b.len(), b[0].len()) } else { size(60) };
            if (n, m) != (b.len(), b[0].len()) {
                b = board_of(n, m);
            }
            note(format!("reset to {n}x{m}"));
            let v = &mut l.s.v;
            sut("reset", || v.reset(n, m, pix as u8));
            same("reset", &o.call("reset", (n, m, pix as u8)), true);
            let v = &mut l.s.v;
            let r = sut("set_board", || v.set_board(b.clone()));
            same("set_board", &o.put("set_board", b.clone()), r.is_ok());
            let (pl, tick) = (Player::draw(faulty), l.tick);
            let v = std::mem::replace(&mut l.s.v, BaseVideo::<SafeBoard>::new_before_game(vec![vec![0; 2]; 2], 16));
            l = Live::with(v, &b, pix, faulty);
            l.pl = pl;
            l.tick = tick;
        }
        if chance(1, 6) {
            poke(&mut l, &o);
        }
        l.tick.pass();
        let (e, _) = if l.md.ph != Ph::Playing || style != 0 || chance(4, 5) {
            l.pl.next(&l.md)
        } else {
            // get on with it
            let md = &l.md;
            let s = (0..md.n).flat_map(|i| (0..md.m).map(move |j| (i, j))).find(|&(i, j)| md.b[i][j] != -1 && md.vis[i][j] == 10);
            let p = s.unwrap_or((0, 0));
            l.pl.queue.clear();
            l.pl.queue.push_back(("lr", p));
            (("lc", p), false)
        };
        let px = l.s.px(e.1);
        if (px.0 > 65535 || px.1 > 65535) && l.md.inside(e.1) {
            continue;
        }
        // what the library refuses by aborting is not driven further
        let r = l.raw(e.0, px);
        let p = o.call("step", (e.0, px));
        same(&format!("step {} at {px:?}", e.0), &p, r.is_ok());
        eq("game_board_state", &attr(&o, "game_board_state"), &V::I(state(l.s.v.game_board_state)));
        if chance(1, 4) {
            common(&o, &mut l.s.v, "after an event");
        }
        if let Some(i) = l.s.v.video_action_state_recorder.len().checked_sub(1) {
            event(&o, &mut l.s.v, i, false);
        }
    }
    common(&o, &mut l.s.v, "at the end");
    if k >= 8 {
        nontrivial();
    }
    if l.md.over() {
        // save both
        let v = &mut l.s.v;
        sut("generate_evf_v0_raw_data", || v.generate_evf_v0_raw_data());
        same("generate_evf_v0_raw_data", &o.call("generate_evf_v0_raw_data", ()), true);
        if chance(1, 2) {
            let c = crate::replay::sum();
            let r = sut("set_checksum", || l.s.v.set_checksum(c));
            same("set_checksum", &o.put("set_checksum", c), r.is_ok());
        }
        common(&o, &mut l.s.v, "encoded");
        l.s.v.save_to_evf_file("/simfs/rs");
        same("save_to_evf_file", &o.call("save_to_evf_file", ("/simfs/py",)), true);
        let (a, b) = with_fs(|fs| (fs.get("/simfs/rs.evf").map(|x| x.to_vec()), fs.get("/simfs/py.evf").map(|x| x.to_vec())));
        check!(a.is_some() && a == b, "differs", "the replays saved differ");
        stat("replays_saved", 1);
        with_fs(|fs| {
            let x = fs.get("/simfs/rs.evf").unwrap().to_vec();
            fs.put("/simfs/in.x", &x)
        });
        reader(Fmt::Evf, !l.pl.exotic);
    }
}
/// operations that are not mouse events
fn poke(l: &mut Live, o: &Obj) {
    let v = &mut l.s.v;
    let m = Meta::draw();
    macro_rules! set {
        ($n:literal, $f:ident, $x:expr) => {{
            let x = $x;
            note(format!("{} {:?}", $n, x));
            let r = sut($n, || v.$f(x.clone()));
            same($n, &o.put($n, x), r.is_ok());
        }};
    }
    match d(16) {
        14 => {
            // a game that is not a replay has no playback to scale
            let q = 1 + d(60) as u8;
            let r = sut_try("set_video_playing_pix_size", || v.set_video_playing_pix_size(q));
            same("set_video_playing_pix_size", &o.put("set_video_playing_pix_size", q), r.is_ok());
        }
        0 => set!("set_software", set_software, m.software),
        1 => set!("set_player_designator", set_player_designator, m.player),
        2 => set!("set_race_designator", set_race_designator, m.race),
        3 => set!("set_uniqueness_designator", set_uniqueness_designator, m.unique),
        4 => set!("set_country", set_country, m.country),
        5 => set!("set_device_uuid", set_device_uuid, m.uuid),
        6 => set!("set_mode", set_mode, m.mode),
        7 => set!("set_is_offical", set_is_offical, m.offical),
        8 => set!("set_is_fair", set_is_fair, m.fair),
        9 => {
            sut("win_then_flag_all_mine", || v.win_then_flag_all_mine());
            same("win_then_flag_all_mine", &o.call("win_then_flag_all_mine", ()), true);
        }
        10 => {
            sut("loss_then_open_all_mine", || v.loss_then_open_all_mine());
            same("loss_then_open_all_mine", &o.call("loss_then_open_all_mine", ()), true);
        }
        11 => {
            let i = d(30) as usize;
            let r = sut("set_current_event_id", || v.set_current_event_id(i));
            same(&format!("current_event_id = {i}"), &o.put("set_current_event_id", i), r.is_ok());
        }
        12 => {
            // the size of a cell may be refused without a word
            let q = 1 + d(255) as u8;
            if l.md.ph == Ph::Ready {
                return;
            }
            // and once the game is over, it spoils the record: its events keep the old scale
            if sut("set_pix_size", || v.set_pix_size(q)).is_ok() {
                l.pl.exotic = true;
            }
            same("set_pix_size", &o.put("set_pix_size", q), true);
        }
        13 => {
            eq("board", &o.get("board").map_or(V::Err, |x| ask(&x, "into_vec_vec", ())), &v.minesweeper_board.board.into_vec_vec().to());
            let b = v.minesweeper_board.board.into_vec_vec();
            let r = sut("set_board", || v.set_board(b.clone()));
            same("set_board", &o.put("set_board", b), r.is_ok());
        }
        _ => eq("x_y", &attr(o, "x_y"), &core(|| v.get_x_y())),
    }
    l.md.vis = l.s.vis();
    l.md.ph = l.s.ph();
    if chance(1, 2) {
        common(o, &mut l.s.v, "after an operation");
    }
}
fn reader(f: Fmt, whole: bool) {
    macro_rules! go {
        ($t:ident) => {{
            let mut v = sut(stringify!($t), || $t::new("/simfs/in.x"));
            let r = sut_try("parse_video", || v.parse_video());
            let o = new(stringify!($t), ("/simfs/in.x",));
            let r = match r {
                Ok(r) => r,
                Err(_) => return,
            };
            same("parse_video", &o.call("parse_video", ()), r.is_ok());
            if whole {
                check!(r.is_ok(), "refused", "a well-formed {} file is refused: {:?}", stringify!($t), r.err());
            }
            if r.is_err() || v.data.video_action_state_recorder.is_empty() {
                return;
            }
            play(&o, &mut v.data, whole)
        }};
    }
    match f {
        Fmt::Avf => go!(AvfVideo),
        Fmt::Rmv => go!(RmvVideo),
        Fmt::Mvf => go!(MvfVideo),
        Fmt::Evf => go!(EvfVideo),
    }
}
fn play(o: &Obj, v: &mut BaseVideo<B>, whole: bool) {
    let ok = sut_try("analyse", || v.analyse());
    same("analyse", &o.call("analyse", ()), ok.is_ok());
    if ok.is_err() {
        check!(!whole, "unanalysed", "a well-formed replay cannot be analysed");
        return;
    }
    let k = v.video_action_state_recorder.len();
    let small = v.height * v.width <= 64;
    for j in 0..12 {
        let how = match d(6) {
            0 | 1 => {
                let t = d(60_000) as f64 / 1000.0 - 3.0;
                sut("set_current_time", || v.set_current_time(t));
                same("set_current_time", &o.put("set_current_time", t), true);
                format!("after a seek to {t}")
            }
            2 | 3 => {
                let i = if chance(1, 8) { k + d(3) as usize } else { d(k as u64) as usize };
                let r = sut("set_current_event_id", || v.set_current_event_id(i));
                same(&format!("current_event_id = {i} of {k}"), &o.put("set_current_event_id", i), r.is_ok());
                format!("after a jump to event {i} of {k}")
            }
            4 => {
                let q = 1 + d(60) as u8;
                sut("set_video_playing_pix_size", || v.set_video_playing_pix_size(q));
                same("set_video_playing_pix_size", &o.put("set_video_playing_pix_size", q), true);
                "after scaling".into()
            }
            _ if small && whole => {
                let c: Vec<&str> = (0..1 + d(4)).map(|_| FEATURES[d(8) as usize]).collect();
                let r = sut_try("analyse_for_features", || v.analyse_for_features(c.clone()));
                same(&format!("analyse_for_features {c:?}"), &o.call("analyse_for_features", (c.clone(),)), r.is_ok());
                format!("after analysing {c:?}")
            }
            _ => "still".into(),
        };
        note(how.clone());
        if j % 3 == 2 || chance(1, 4) {
            common(o, v, &how);
            eq("game_board_state", &attr(o, "game_board_state"), &V::I(1));
            eq(&format!("{how}: x_y"), &attr(o, "x_y"), &core(|| v.get_x_y()));
        } else {
            // the few that move
            cmp!(o, how; "time": v.get_time(), "game_board": v.get_game_board(), "left": v.get_left(), "current_event_id": v.current_event_id, "path": v.get_path());
        }
        if small && chance(1, 6) {
            cmp!(o, how; "game_board_poss": v.get_game_board_poss());
        }
        let i = d(k as u64 + 1) as usize;
        event(o, v, i, small && chance(1, 4));
    }
    nontrivial();
    if chance(1, 3) {
        let r = sut_try("generate_evf_v0_raw_data", || v.generate_evf_v0_raw_data());
        same("generate_evf_v0_raw_data", &o.call("generate_evf_v0_raw_data", ()), r.is_ok());
        if r.is_ok() {
            cmp!(o, "encoded again"; "raw_data": v.get_raw_data());
            v.save_to_evf_file("/simfs/rs2");
            same("save_to_evf_file", &o.call("save_to_evf_file", ("/simfs/py2",)), true);
            let (a, b) = with_fs(|fs| (fs.get("/simfs/rs2.evf").map(|x| x.to_vec()), fs.get("/simfs/py2.evf").map(|x| x.to_vec())));
            check!(a.is_some() && a == b, "differs", "the replays saved differ");
        }
    }
}
fn files() {
    clocks();
    let f = [Fmt::Avf, Fmt::Rmv, Fmt::Mvf, Fmt::Evf][d(4) as usize];
    let n = d(50) as usize;
    let g = Game::draw(f, n, 60);
    let (mut data, _) = g.encode();
    let hurt = fault_chance(1, 3);
    if hurt {
        for _ in 0..1 + fault(4) {
            let i = fault(data.len() as u64) as usize;
            match fault(3) {
                0 => data[i] = fault(256) as u8,
                1 => data.truncate(i.max(1)),
                _ => {
                    data.remove(i);
                    if data.is_empty() {
                        data.push(0);
                    }
                }
            }
            stat("fault.file_damaged", 1);
        }
    }
    sig(hash(&g.b));
    note(format!("{f:?} {} bytes, board {}, {} events", data.len(), show(&g.b), g.log.len()));
    sample(format!("{f:?} {} bytes, board {}", data.len(), show(&g.b)));
    with_fs(|fs| fs.put("/simfs/in.x", &data));
    reader(f, !hurt && !g.log.is_empty());
}
fn boards() {
    let b = board(90);
    note(format!("board {}", show(&b)));
    sample(format!("bare board {}", show(&b)));
    let safe = chance(1, 2);
    if safe {
        let s = sut("new", || MinesweeperBoard::<SafeBoard>::new(SafeBoard::new(b.clone())));
        bare(s, &new("SafeMinesweeperBoard", (b.clone(),)), &b, "SafeMinesweeperBoard", |s| s.board.into_vec_vec(), None, |s, b| s.replace_board(SafeBoard::new(b)));
    } else {
        let s = sut("new", || MinesweeperBoard::<B>::new(b.clone()));
        bare(s, &new("MinesweeperBoard", (b.clone(),)), &b, "MinesweeperBoard", |s| s.board.clone(), Some(|s| s.reset()), |s, b| s.replace_board(b));
    }
}
fn bare<T>(mut s: MinesweeperBoard<T>, o: &Obj, b: &B, what: &str, plain: fn(&MinesweeperBoard<T>) -> B, reset: Option<fn(&mut MinesweeperBoard<T>)>, swap: fn(&mut MinesweeperBoard<T>, B))
where
    MinesweeperBoard<T>: Sut,
    T: std::ops::Index<usize> + Feed,
{
    let mut md = Model::new(b);
    let mut pl = Player::draw(chance(1, 2));
    pl.far = chance(1, 3);
    pl.exotic = chance(1, 4);
    let mut sum = 0u64;
    for k in 0..10 + d(120) {
        match pick(&[20, 4, 1, 2]) {
            1 => {
                let batch: Vec<(&str, Pos)> = (0..d(6)).map(|_| pl.next(&md).0).collect();
                let r = sut("step_flow", || Feed::feed(&mut s, batch.clone()));
                same(&format!("step_flow {batch:?}"), &o.call("step_flow", (batch.clone(),)), r.is_ok());
            }
            2 if reset.is_some() => {
                sut("reset", || reset.unwrap()(&mut s));
                same("reset", &o.call("reset", ()), true);
                md = Model::new(&plain(&s));
                pl.queue.clear();
                note("reset".into());
            }
            3 => {
                if let Some(nb) = other(&md, &s) {
                    sut("replace_board", || swap(&mut s, nb.clone()));
                    same("set_board", &o.put("set_board", nb.clone()), true);
                    note(format!("board replaced by {}", show(&nb)));
                    md.b = nb;
                    stat("board_swaps", 1);
                }
            }
            _ => {
                let (e, _) = pl.next(&md);
                let r = sut(e.0, || Sut::step(&mut s, e.0, e.1));
                same(&format!("step {} at {:?}", e.0, e.1), &o.call("step", (e.0, e.1)), r.is_ok());
                md.track(e.0);
                sum = hash_step(sum, e.1 .0 as u64 * 999 + e.1 .1 as u64);
            }
        }
        md.vis = s.vis();
        md.ph = s.ph();
        cmp!(o, what; "game_board": s.vis(), "left": s.left, "right": s.right, "double": s.double, "ce": s.ce, "flag": s.flag,
            "bbbv_solved": s.bbbv_solved, "row": s.row, "column": s.column, "game_board_state": state(s.game_board_state), "mouse_state": mouse(s.mouse_state));
        if chance(1, 5) {
            cmp!(o, what; "board": plain(&s));
        }
        if md.n * md.m <= 40 && chance(1, 10) {
            let k = mines_of(&md.b) as f64;
            let vis = s.vis();
            eq("get_game_board_2", &ask(o, "get_game_board_2", (k,)), &core(|| state_of(&vis, k)));
        }
        if k >= 8 {
            nontrivial();
        }
    }
    sig(sum);
}
/// the state for reinforcement learning: the board, and the probabilities with every mark removed
fn state_of(vis: &B, k: f64) -> Vec<Vec<Vec<f64>>> {
    let a = vis.iter().map(|r| r.iter().map(|&x| if x == 10 { -1.0 } else if x == 11 { -2.0 } else { x as f64 }).collect()).collect();
    let mut g: B = vis.iter().map(|r| r.iter().map(|&x| x.min(10)).collect()).collect();
    let _ = mark_board(&mut g);
    let (p, _) = cal_possibility_onboard(&g, k).unwrap();
    vec![a, p]
}
/// functions at the positions of a game
fn functions() {
    let m = Obj::module();
    let mut g = crate::c15::Game::draw();
    let b = g.b.clone();
    let big = b.len() * b[0].len() > 100;
    eq("cal_bbbv", &ask(&m, "cal_bbbv", (b.clone(),)), &core(|| cal_bbbv(&b)));
    eq("cal_op", &ask(&m, "cal_op", (b.clone(),)), &core(|| cal_op(&b)));
    eq("unsolvable_structure", &ask(&m, "unsolvable_structure", (b.clone(),)), &core(|| unsolvable_structure(&b)));
    let p = (d(b.len() as u64) as usize, d(b[0].len() as u64) as usize);
    eq("is_solvable", &ask(&m, "is_solvable", (b.clone(), p.0, p.1)), &core(|| is_solvable(&b, p.0, p.1)));
    for _ in 0..if big { 3 } else { 6 } {
        g.advance();
        let shown = g.g.game_board.clone();
        sig(hash(&shown));
        note(format!("position {}", show(&shown)));
        let v: B = if chance(1, 2) { crate::c15::clean(&shown) } else { shown.clone() };
        let k = mines_of(&b) as f64;
        let k = if chance(1, 5) { k + d(5) as f64 - 2.0 } else { k };
        let p = (d(b.len() as u64) as usize, d(b[0].len() as u64) as usize);
        for _ in 0..4 {
            match d(13) {
                11 => {
                    let (a, _, b) = refresh_matrix(&v);
                    let mut t = vec![vec![2usize; a.first().map_or(1, |r| r.len())]];
                    for i in 0..a.len().min(3) {
                        let ids: Vec<usize> = (0..a[i].len()).filter(|&j| a[i][j] == 1).collect();
                        let want = enuOneStep(t.clone(), ids.clone(), b[i]);
                        eq("enuOneStep", &ask(&m, "enuOneStep", (t, ids, b[i])), &core(|| want.clone()));
                        t = want;
                        if t.is_empty() {
                            break;
                        }
                    }
                }
                0 => eq("refresh_matrix", &ask(&m, "refresh_matrix", (v.clone(),)), &core(|| refresh_matrix(&v))),
                1 => eq("refresh_matrixs", &ask(&m, "refresh_matrixs", (v.clone(),)), &core(|| refresh_matrixs(&v))),
                2 => {
                    let mut w = v.clone();
                    eq("mark_board", &ask(&m, "mark_board", (v.clone(),)), &core(|| {
                        let _ = mark_board(&mut w);
                        w
                    }))
                }
                3 => {
                    let mut w = v.clone();
                    let want = core(|| match mark_board(&mut w) {
                        Ok(_) => cal_possibility(&w, k).map_err(|_| ()),
                        Err(_) => Err(()),
                    });
                    eq("cal_possibility", &ask(&m, "cal_possibility", (v.clone(), k)), &want)
                }
                4 => {
                    let mut w = v.clone();
                    let want = core(|| match mark_board(&mut w) {
                        Ok(_) => cal_possibility_onboard(&w, k).map_err(|_| ()),
                        Err(_) => Err(()),
                    });
                    eq("cal_possibility_onboard", &ask(&m, "cal_possibility_onboard", (v.clone(), k)), &want)
                }
                5 => {
                    let mut w = v.clone();
                    eq(&format!("is_guess_while_needless {p:?}"), &ask(&m, "is_guess_while_needless", (v.clone(), p)), &core(|| is_guess_while_needless(&mut w, &p)))
                }
                6 => {
                    let mut w = v.clone();
                    eq(&format!("is_able_to_solve {p:?}"), &ask(&m, "is_able_to_solve", (v.clone(), p)), &core(|| is_able_to_solve(&mut w, &p)))
                }
                7 => {
                    let want = core(|| {
                        let (a, x, b, _, _) = refresh_matrixs(&v);
                        solve_enumerate(&a, &x, &b)
                    });
                    eq("solve_enumerate", &ask(&m, "solve_enumerate", (v.clone(),)), &want)
                }
                8 => {
                    let mut w = v.clone();
                    let want = core(|| {
                        let (mut a, mut x, mut b, _, _) = refresh_matrixs(&w);
                        let (n, i) = get_all_not_and_is_mine_on_board(&mut a, &mut x, &mut b, &mut w);
                        (w, n, i)
                    });
                    eq("get_all_not_and_is_mine_on_board", &ask(&m, "get_all_not_and_is_mine_on_board", (v.clone(),)), &want)
                }
                9 | 10 => {
                    let (a, x, bb, _, _) = refresh_matrixs(&v);
                    let direct = chance(1, 2);
                    let (mut a2, mut x2, mut b2, mut w) = (a.clone(), x.clone(), bb.clone(), v.clone());
                    let want = core(|| {
                        let r = if direct { solve_direct(&mut a2, &mut x2, &mut b2, &mut w) } else { solve_minus(&mut a2, &mut x2, &mut b2, &mut w) };
                        r.map(|(n, i)| (a2, x2, b2, w, n, i)).map_err(|_| ())
                    });
                    let n = if direct { "solve_direct" } else { "solve_minus" };
                    eq(n, &ask(&m, n, (a, x, bb, v.clone())), &want)
                }
                _ => {
                    let c: Vec<Pos> = (0..1 + d(3)).map(|_| (d(b.len() as u64) as usize, d(b[0].len() as u64) as usize)).collect();
                    let mut w = v.clone();
                    let want = core(|| {
                        refresh_board(&b, &mut w, c.clone());
                        w
                    });
                    eq("refresh_board", &ask(&m, "refresh_board", (b.clone(), v.clone(), c)), &want)
                }
            }
            stat("functions_compared", 1);
        }
        if !big && chance(1, 2) {
            let k = mines_of(&b);
            let o = new("GameBoard", (k,));
            let mut r = GameBoard::new(k);
            for _ in 0..1 + d(2) {
                r.set_game_board(&v);
                same("game_board", &o.put("set_game_board", v.clone()), true);
                gameboard(&o, &mut r);
            }
        }
        nontrivial();
        if g.over() {
            break;
        }
    }
}
/// generators: the answer is random, its lawfulness is not
fn generators() {
    let m = Obj::module();
    let (n, w) = size(80);
    let p = (d(n as u64) as usize, d(w as u64) as usize);
    let room = n * w - near(p, n, w).len() - 1;
    let k = d(room as u64 + 1) as usize;
    let k = if chance(2, 3) { k / 3 } else { k };
    let legal = |what: &str, b: &V, op: bool| -> Option<B> {
        let V::L(r) = b else { fail("differs", format!("{what} answers {}", brief(b))) };
        let b: B = r.iter().map(|r| if let V::L(r) = r { r.iter().map(|x| if let V::I(x) = x { *x as i32 } else { 99 }).collect() } else { vec![] }).collect();
        check!(b.len() == n && b.iter().all(|r| r.len() == w), "generated", "{what}: a board of another size: {}", show(&b));
        let mines: Vec<Vec<bool>> = b.iter().map(|r| r.iter().map(|&x| x == -1).collect()).collect();
        check!(b == numbers(&mines) && mines_of(&b) == k, "generated", "{what}: {} has wrong numbers or not {k} mines", show(&b));
        let v = b[p.0][p.1];
        check!(v != -1 && (!op || v == 0), "generated", "{what}: the start {p:?} shows {v} in {}", show(&b));
        Some(b)
    };
    note(format!("{n}x{w}, {k} mines, start {p:?}"));
    sample(format!("generators, {n}x{w}, {k} mines"));
    sig(hash_step(n as u64 * 100 + w as u64, k as u64 * 1000 + p.0 as u64 * 50 + p.1 as u64));
    let a = (n, w, k, p.0, p.1);
    legal("laymine", &ask(&m, "laymine", a), false);
    legal("laymine_op", &ask(&m, "laymine_op", a), true);
    let b = (n, w, k, p.0, p.1, 1 + d(20) as usize);
    for (f, r) in [("laymine_solvable", ask(&m, "laymine_solvable", b)), ("laymine_solvable_thread", if chance(1, 3) { ask(&m, "laymine_solvable_thread", b) } else { V::Nothing })] {
        if r == V::Nothing {
            continue;
        }
        let V::L(x) = &r else { fail("differs", format!("{f} answers {}", brief(&r))) };
        let bd = legal(f, &x[0], true).unwrap();
        let ok = core(|| is_solvable(&bd, p.0, p.1));
        check!(x[1] == V::I(0) || ok == V::I(1), "generated", "{f} claims success for {} from {p:?}", show(&bd));
    }
    if n * w <= 30 && k <= 4 {
        let V::L(x) = &ask(&m, "laymine_solvable_adjust", a) else { fail("differs", "laymine_solvable_adjust answers no pair".into()) };
        let bd = legal("laymine_solvable_adjust", &x[0], true);
        if let (Some(bd), true) = (bd, x[1] != V::I(0)) {
            let ok = core(|| is_solvable(&bd, p.0, p.1));
            check!(ok == V::I(1), "generated", "laymine_solvable_adjust claims success for {} from {p:?}", show(&bd));
        }
        stat("boards_adjusted", 1);
    }
    if chance(1, 30) {
        let k = d(40) as usize;
        let V::L(x) = ask(&m, "sample_3BVs_exp", (0usize, 0usize, k)) else { fail("differs", "sample_3BVs_exp answers nothing".into()) };
        let s: i64 = x.iter().map(|x| if let V::I(i) = x { *i } else { 0 }).sum();
        check!(s as usize == 16 * (k / 16) && x.len() == 382, "differs", "sample_3BVs_exp of {k} counts {s} boards in {} classes", x.len());
    }
    nontrivial();
}
fn small() {
    let b = board(90);
    note(format!("board {}", show(&b)));
    sig(hash(&b));
    let o = new("Board", (b.clone(),));
    let mut r = Board::new(b.clone());
    for _ in 0..4 + d(10) {
        match d(12) {
            0 => cmp!(&o, "Board"; "bbbv": r.get_bbbv()),
            1 => cmp!(&o, "Board"; "op": r.get_op()),
            2 => cmp!(&o, "Board"; "isl": r.get_isl()),
            3 => cmp!(&o, "Board"; "cell0": r.get_cell0()),
            4 => cmp!(&o, "Board"; "cell1": r.get_cell1()),
            5 => cmp!(&o, "Board"; "cell2": r.get_cell2()),
            6 => cmp!(&o, "Board"; "cell3": r.get_cell3()),
            7 => cmp!(&o, "Board"; "cell4": r.get_cell4()),
            8 => cmp!(&o, "Board"; "cell5": r.get_cell5()),
            9 => cmp!(&o, "Board"; "cell6": r.get_cell6()),
            10 => cmp!(&o, "Board"; "cell7": r.get_cell7()),
            _ => cmp!(&o, "Board"; "cell8": r.get_cell8()),
        }
    }
    let s = new("SafeBoard", (b.clone(),));
    let mut cur = b;
    for _ in 0..3 + d(6) {
        match d(4) {
            0 => eq("into_vec_vec", &ask(&s, "into_vec_vec", ()), &cur.to()),
            1 => {
                let nb = board(90);
                same("set", &s.call("set", (nb.clone(),)), true);
                cur = nb;
            }
            _ => {
                let p = (d(cur.len() as u64) as usize, d(cur[0].len() as u64) as usize);
                let x = s.item(p.0).and_then(|r| r.item(p.1)).map_or(V::Err, |x| x.v());
                eq(&format!("SafeBoard[{}][{}]", p.0, p.1), &x, &V::I(cur[p.0][p.1] as i64));
            }
        }
    }
    nontrivial();
}
fn run() {
    // one Python thread state for the run
    pyo3::Python::with_gil(|_| go())
}
fn go() {
    match pick(&[6, 6, 4, 3, 1, 1]) {
        0 => live(),
        1 => files(),
        2 => boards(),
        3 => functions(),
        4 => generators(),
        _ => small(),
    }
}
