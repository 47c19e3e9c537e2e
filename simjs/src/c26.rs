//! C26: the JavaScript package answers as the library does, for every history of calls.
use crate::board::*;
use crate::legacy::*;
use crate::logic::binom;
use crate::model::*;
use crate::parity::*;
use crate::play::*;
use crate::session::*;
use crate::value::*;
use ms_toollib::*;
use ms_wasm::*;
use simrt::*;
use std::collections::BTreeMap;

pub const P: Prop = Prop {
    id: "C26",
    quick: 60_000,
    thorough: 3_000_000,
    chunk: 100,
    f: run,
    rule: "a run drives one class of the JavaScript package, or its functions at the positions of one game, in lockstep with the library: readers of all four formats on whole and damaged files (live sessions recorded under drawn clocks and event faults among them) with seek histories; boards fed one event at a time or in batches, with boards put in during the game; solvers at positions reached by play; mine laying under one outcome of the entropy source, judged for legality and distribution. Non-trivial: at least 8 calls were compared, or a board laid. Distinct: by hash of the calls",
    real: "the sources of /repo/wasm, the whole library as built for it (feature js), serde_json",
    stub: "the JavaScript engine (the package runs as native code), clock, disk, player, entropy source, programs that write the older formats",
};
/// What the package answered, as the library's answers are kept: a panic is an exception there.
fn js(f: impl FnOnce() -> V) -> V {
    match sut_try("package", f) {
        Ok(x) => x,
        Err(_) => V::Err,
    }
}
fn done(f: impl FnOnce()) -> bool {
    sut_try("package", f).is_ok()
}
fn same(what: &str, js: bool, rs: bool) {
    check!(js == rs, "differs", "{what}: JavaScript {}, the library {} it", if js { "accepts it" } else { "raises an exception" }, if rs { "accepts" } else { "refuses" });
}
macro_rules! cmp {
    ($o:expr, $what:expr; $($n:literal: $e:expr),* $(,)?) => {
        { $( eq(&format!("{}: {}", $what, $n), &js(|| $o.ask($n)), &core(|| $e)); )* }
    };
}
fn common(o: &mut dyn Video, v: &mut BaseVideo<B>, what: &str) {
    cmp!(o, what;
        "raw_data": v.get_raw_data(), "software": v.software.clone(), "row": v.height, "column": v.width,
        "level": v.level, "mode": v.mode, "is_completed": v.is_completed, "is_offical": v.is_offical, "is_fair": v.is_fair,
        "mine_num": v.mine_num, "player_designator": v.player_designator.clone(), "race_designator": v.race_designator.clone(),
        "uniqueness_designator": v.uniqueness_designator.clone(), "country": v.country.clone(), "device_uuid": v.device_uuid.clone(),
        "bbbv": v.static_params.bbbv, "start_time": v.start_time.clone(), "end_time": v.end_time.clone(), "op": v.static_params.op,
        "isl": v.static_params.isl, "hizi": v.static_params.hizi, "cell0": v.static_params.cell0, "cell1": v.static_params.cell1,
        "cell2": v.static_params.cell2, "cell3": v.static_params.cell3, "cell4": v.static_params.cell4, "cell5": v.static_params.cell5,
        "cell6": v.static_params.cell6, "cell7": v.static_params.cell7, "cell8": v.static_params.cell8, "rtime": v.get_rtime(),
        "rtime_ms": v.get_rtime_ms(), "etime": v.get_etime(), "video_start_time": v.get_video_start_time(),
        "video_end_time": v.get_video_end_time(), "bbbv_s": v.get_bbbv_s(), "stnb": v.get_stnb(), "rqp": v.get_rqp(), "left": v.get_left(),
        "right": v.get_right(), "double": v.get_double(), "cl": v.get_cl(), "flag": v.get_flag(), "bbbv_solved": v.get_bbbv_solved(),
        "ce": v.get_ce(), "left_s": v.get_left_s(), "right_s": v.get_right_s(), "double_s": v.get_double_s(), "cl_s": v.get_cl_s(),
        "flag_s": v.get_flag_s(), "path": v.get_path(), "ce_s": v.get_ce_s(), "ioe": v.get_ioe(), "thrp": v.get_thrp(), "corr": v.get_corr(),
        "events_len": v.video_action_state_recorder.len(), "current_event_id": v.current_event_id,
        "game_board_state": state(v.game_board_state), "checksum": v.get_checksum(), "pix_size": v.get_pix_size(),
    );
    stat("attributes_compared", 59);
}
fn moving(o: &mut dyn Video, v: &mut BaseVideo<B>, what: &str) {
    cmp!(o, what; "game_board": v.get_game_board(), "left": v.get_left(), "current_event_id": v.current_event_id, "path": v.get_path(),
        "mouse_state": mouse(v.video_action_state_recorder[v.current_event_id].mouse_state), "x_y": v.get_x_y(), "bbbv_solved": v.get_bbbv_solved(),
        "etime": v.get_etime());
    stat("attributes_compared", 8);
}
fn reader(f: Fmt, data: &[u8], whole: bool) {
    with_fs(|fs| fs.put("/simfs/in.x", data));
    macro_rules! go {
        ($t:ident, $k:expr) => {{
            let mut v = sut(stringify!($t), || $t::new("/simfs/in.x"));
            let r = sut_try("parse_video", || v.parse_video());
            let mut o = sut("new", || ms_wasm::board::open::open($k, data.to_vec(), "in.x"));
            let r = match r {
                Ok(r) => r,
                Err(_) => return,
            };
            same("parse_video", done(|| o.parse()), r.is_ok());
            if whole {
                check!(r.is_ok(), "refused", "a well-formed {} file is refused: {:?}", stringify!($t), r.err());
            }
            if r.is_err() || v.data.video_action_state_recorder.is_empty() {
                return;
            }
            play(&mut *o, &mut v.data, whole)
        }};
    }
    match f {
        Fmt::Avf => go!(AvfVideo, 0),
        Fmt::Rmv => go!(RmvVideo, 1),
        Fmt::Mvf => go!(MvfVideo, 2),
        Fmt::Evf => go!(EvfVideo, 3),
    }
}
fn play(o: &mut dyn Video, v: &mut BaseVideo<B>, whole: bool) {
    if chance(1, 4) {
        common(o, v, "before the analysis");
    }
    let ok = sut_try("analyse", || v.analyse());
    same("analyse", done(|| o.analyse()), ok.is_ok());
    if ok.is_err() {
        check!(!whole, "unanalysed", "a well-formed replay cannot be analysed");
        return;
    }
    let k = v.video_action_state_recorder.len();
    let small = v.height * v.width <= 64;
    for j in 0..12 {
        let how = match d(5) {
            0 | 1 => {
                let t = d(60_000) as f64 / 1000.0 - 3.0;
                sut("set_current_time", || v.set_current_time(t));
                same("set_current_time", done(|| o.seek(t)), true);
                format!("after a seek to {t}")
            }
            2 | 3 => {
                let i = if chance(1, 8) { k + d(3) as usize } else { d(k as u64) as usize };
                let r = sut("set_current_event_id", || v.set_current_event_id(i));
                same(&format!("current_event_id = {i} of {k}"), done(|| o.jump(i)), r.is_ok());
                format!("after a jump to event {i} of {k}")
            }
            _ => {
                let a = core(|| v.is_valid());
                let b = match sut_try("is_valid", || o.is_valid()) {
                    Ok(x) => x.to(),
                    Err(_) => V::Err,
                };
                eq("is_valid", &b, &a);
                "after an audit".into()
            }
        };
        note(how.clone());
        moving(o, v, &how);
        if j % 4 == 3 {
            common(o, v, &how);
        }
        if small && chance(1, 6) {
            cmp!(o, how; "game_board_poss": v.get_game_board_poss());
        }
        let i = d(k as u64 + 1) as usize;
        macro_rules! ev { ($($n:literal, $e:expr);*) => { $( eq(&format!("{}({i})", $n), &js(|| o.event($n, i)), &core(|| $e)); )* } }
        ev!("events_time", v.video_action_state_recorder[i].time;
            "events_mouse", v.video_action_state_recorder[i].mouse.clone();
            "events_x", v.video_action_state_recorder[i].x;
            "events_y", v.video_action_state_recorder[i].y;
            "events_useful_level", v.video_action_state_recorder[i].useful_level;
            "events_mouse_state", mouse(v.video_action_state_recorder[i].mouse_state));
        stat("events_compared", 1);
    }
    nontrivial();
}
/// a replay recorded by a live session
fn live() {
    clocks();
    let faulty = chance(1, 3);
    let b = board(60);
    let pix = PIX[d(6) as usize];
    let mut l = Live::new(&b, pix, faulty);
    note(format!("session on {}", show(&b)));
    sample(format!("replay of a session on {}", show(&b)));
    for _ in 0..d(80) {
        if l.md.over() {
            break;
        }
        let _ = l.next();
    }
    l.finish();
    let m = if chance(1, 2) { crate::replay::Meta::draw() } else { Default::default() };
    if !m.set(&mut l.s.v) {
        return;
    }
    let v = &mut l.s.v;
    if chance(1, 2) {
        let _ = v.set_checksum(crate::replay::sum());
    }
    sut("generate_evf_v0_raw_data", || v.generate_evf_v0_raw_data());
    let raw = v.get_raw_data().unwrap_or_default();
    sig(hash(&b));
    sig(raw.len() as u64);
    reader(Fmt::Evf, &raw, true);
}
fn files() {
    clocks();
    let f = [Fmt::Avf, Fmt::Rmv, Fmt::Mvf, Fmt::Evf][d(4) as usize];
    let n = d(50) as usize;
    let g = Game::draw(f, n, 60);
    let (mut data, _) = g.encode();
    let hurt = fault_chance(1, 3);
    if hurt {
        for _ in 0..1 + fault(4) {
            let i = fault(data.len() as u64) as usize;
            match fault(3) {
                0 => data[i] = fault(256) as u8,
                1 => data.truncate(i.max(1)),
                _ => {
                    data.remove(i);
                    if data.is_empty() {
                        data.push(0);
                    }
                }
            }
            stat("fault.file_damaged", 1);
        }
    }
    sig(hash(&g.b));
    note(format!("{f:?} {} bytes, board {}, {} events", data.len(), show(&g.b), g.log.len()));
    sample(format!("{f:?} {} bytes, board {}", data.len(), show(&g.b)));
    reader(f, &data, !hurt && !g.log.is_empty());
}
fn text<T: To>(x: &[T]) -> String {
    fn go(v: &V) -> String {
        match v {
            V::L(a) => format!("[{}]", a.iter().map(go).collect::<Vec<_>>().join(if a.len() % 2 == 0 { "," } else { " , " })),
            V::I(i) => i.to_string(),
            V::S(s) => format!("\"{s}\""),
            _ => "null".into(),
        }
    }
    go(&V::L(x.iter().map(|x| x.to()).collect()))
}
fn boards() {
    let b = board(90);
    note(format!("board {}", show(&b)));
    sample(format!("bare board {}", show(&b)));
    let mut s = sut("new", || MinesweeperBoard::<B>::new(b.clone()));
    let mut o = sut("new", || ms_wasm::board::MinesweeperBoard::new(&text(&b)));
    let mut md = Model::new(&b);
    let mut pl = Player::draw(chance(1, 2));
    pl.far = chance(1, 3);
    pl.exotic = chance(1, 4);
    let mut sum = 0u64;
    for k in 0..10 + d(120) {
        match pick(&[20, 4, 2, 1]) {
            1 => {
                let batch: Vec<(&str, Pos)> = (0..d(6)).map(|_| pl.next(&md).0).collect();
                let r = sut("step_flow", || s.step_flow(batch.clone()));
                let t = text(&batch.iter().map(|x| (x.0.to_string(), x.1 .0, x.1 .1)).collect::<Vec<_>>());
                same(&format!("step_flow {batch:?}"), done(|| o.step_flow(&t)), r.is_ok());
            }
            2 => {
                if let Some(nb) = other(&md, &s) {
                    sut("replace_board", || s.replace_board(nb.clone()));
                    same("set_board", done(|| o.set_board(&text(&nb))), true);
                    note(format!("board replaced by {}", show(&nb)));
                    md.b = nb;
                    stat("board_swaps", 1);
                }
            }
            3 => {
                // a page may change what is shown once the game is over
                if md.over() {
                    let mut v = s.vis();
                    for x in v.iter_mut().flatten() {
                        if *x == 10 && chance(1, 2) {
                            *x = 11;
                        }
                    }
                    s.game_board = v.clone();
                    same("set_game_board", done(|| o.set_game_board(&text(&v))), true);
                }
            }
            _ => {
                let (e, _) = pl.next(&md);
                let r = sut(e.0, || s.step(e.0, e.1));
                same(&format!("step {} at {:?}", e.0, e.1), done(|| o.step(e.0, e.1 .0 as u32, e.1 .1 as u32)), r.is_ok());
                md.track(e.0);
                sum = hash_step(sum, e.1 .0 as u64 * 999 + e.1 .1 as u64);
            }
        }
        md.vis = s.vis();
        md.ph = s.ph();
        macro_rules! m { ($($n:ident: $e:expr),*) => { $( eq(stringify!($n), &js(|| o.$n().to()), &core(|| $e)); )* } }
        m!(get_left: s.left, get_right: s.right, get_double: s.double, get_ce: s.ce, get_flag: s.flag, get_bbbv_solved: s.bbbv_solved,
            get_row: s.row, get_column: s.column, get_game_board_state: state(s.game_board_state), get_mouse_state: mouse(s.mouse_state));
        eq("get_game_board", &js(|| json(&o.get_game_board())), &core(|| s.vis()));
        if chance(1, 5) {
            eq("get_board", &js(|| json(&o.get_board())), &core(|| s.board.clone()));
        }
        if k >= 8 {
            nontrivial();
        }
    }
    sig(sum);
}
fn functions() {
    let mut g = crate::c15::Game::draw();
    let b = g.b.clone();
    let big = b.len() * b[0].len() > 100;
    let t = text(&b);
    eq("cal_bbbv", &js(|| api::cal_bbbv(&t).to()), &core(|| cal_bbbv(&b)));
    eq("cal_op", &js(|| api::cal_op(&t).to()), &core(|| cal_op(&b)));
    for _ in 0..if big { 2 } else { 6 } {
        g.advance();
        let shown = g.g.game_board.clone();
        sig(hash(&shown));
        note(format!("position {}", show(&shown)));
        let v: B = if chance(1, 2) { crate::c15::clean(&shown) } else { shown.clone() };
        let k = mines_of(&b) as i32;
        let k = if chance(1, 5) { k + d(5) as i32 - 2 } else { k };
        let mut w = v.clone();
        let want = core(|| {
            let _ = mark_board(&mut w);
            match cal_possibility_onboard(&w, k as f64) {
                Ok(x) => x,
                Err(_) => (vec![], [0, 0, 0]),
            }
        });
        eq("cal_possibility_onboard", &js(|| json(&api::cal_possibility_onboard(&text(&v), k))), &want);
        stat("functions_compared", 1);
        nontrivial();
        if g.over() {
            break;
        }
    }
}
fn to_board(what: &str, v: V) -> B {
    let V::L(r) = &v else { fail("generated", format!("{what} answers {}", brief(&v))) };
    r.iter().map(|r| if let V::L(r) = r { r.iter().map(|x| if let V::I(x) = x { *x as i32 } else { 99 }).collect() } else { vec![] }).collect()
}
/// mine laying has its own shuffle and its own random numbers here
fn generators() {
    let (h, w) = match pick(&[4, 3, 1, 1]) {
        0 => (range(1, 4) as usize, range(1, 5) as usize),
        1 => (range(1, 9) as usize, range(1, 9) as usize),
        2 => (1, range(2, 40) as usize),
        _ => [(8, 8), (16, 16), (16, 30), (30, 16)][d(4) as usize],
    };
    let (h, w) = if h * w < 2 { (2, 1) } else { (h, w) };
    let s = (d(h as u64) as usize, d(w as u64) as usize);
    let op = chance(1, 2);
    let free = |i: usize, j: usize| (i, j) != s && !(op && near(s, h, w).contains(&(i, j)));
    let room = (0..h).flat_map(|i| (0..w).map(move |j| (i, j))).filter(|p| free(p.0, p.1)).count();
    let k = match d(4) {
        0 => room.min(1),
        1 => room,
        _ => d(room as u64 + 1) as usize,
    };
    let what = format!("{}({h}, {w}, {k}, {}, {})", if op { "laymine_op_number" } else { "laymine_number" }, s.0, s.1);
    note(what.clone());
    sample(what.clone());
    sig(hash_step(((h * 64 + w) * 64 + s.0) as u64 * 64 + s.1 as u64, k as u64));
    let legal = |b: &B, op: bool| {
        check!(b.len() == h && b.iter().all(|r| r.len() == w), "generated", "{what} returned {}", show(b));
        let mines: Vec<Vec<bool>> = b.iter().map(|r| r.iter().map(|&x| x == -1).collect()).collect();
        check!(&numbers(&mines) == b && mines_of(b) == k, "generated", "{what}: wrong numbers or mines: {}", show(b));
        check!(b[s.0][s.1] != -1 && (!op || b[s.0][s.1] == 0), "generated", "{what}: the start shows {} in {}", b[s.0][s.1], show(b));
    };
    let (a0, a1, a2, a3, a4) = (h as i32, w as i32, k as i32, s.0 as i32, s.1 as i32);
    let lay = || {
        let t = sut(&what, || if op { api::laymine_op_number(a0, a1, a2, a3, a4) } else { api::laymine_number(a0, a1, a2, a3, a4) });
        let b = to_board(&what, json(&t));
        legal(&b, op);
        b
    };
    if k > 0 && k < room {
        nontrivial();
    }
    if chance(1, 4) && room > 3 {
        // without guessing
        let k3 = (k / 3).min(h * w - 1 - near(s, h, w).len());
        let tries = 1 + d(20) as i32;
        let t = sut("laymine_solvable", || api::laymine_solvable(a0, a1, k3 as i32, a3, a4, tries));
        let V::L(x) = json(&t) else { fail("generated", format!("laymine_solvable answers {t}")) };
        let b = to_board("laymine_solvable", x[0].clone());
        let mines: Vec<Vec<bool>> = b.iter().map(|r| r.iter().map(|&x| x == -1).collect()).collect();
        check!(b.len() == h && b[0].len() == w && numbers(&mines) == b && mines_of(&b) == k3 && b[s.0][s.1] == 0, "generated", "laymine_solvable({h}, {w}, {k3}, {s:?}) returns {}", show(&b));
        let ok = core(|| is_solvable(&b, s.0, s.1));
        check!(x[1] != V::I(1) || ok == V::I(1), "generated", "laymine_solvable claims success for {} from {s:?}", show(&b));
        stat("no_guess_boards", 1);
        return;
    }
    let ways = binom(room, k);
    if ways <= 60.0 {
        let n = (ways as usize * 40).max(400);
        let mut seen: BTreeMap<u64, usize> = BTreeMap::new();
        for _ in 0..n {
            *seen.entry(hash(&lay())).or_insert(0) += 1;
        }
        let m = n as f64 / ways;
        let missing = ways - seen.len() as f64;
        let chi: f64 = seen.values().map(|&x| (x as f64 - m).powi(2) / m).sum::<f64>() + missing * m;
        let df = ways - 1.0;
        let lim = df + 9.0 * (2.0 * df).sqrt() + 60.0;
        check!(chi <= lim, "bias", "{what}: {n} boards over {ways} arrangements, {missing} never appear, chi-square {chi:.1} exceeds {lim:.1}");
        stat("arrangement_tests", 1);
        return;
    }
    let n = if chance(1, 3) { 150 } else { 3 };
    let mut hits = vec![vec![0usize; w]; h];
    let mut last = 0;
    for t in 0..n {
        let b = lay();
        if t < 2 {
            sig(hash(&b));
        }
        check!(ways < 1e30 || hash(&b) != last, "bias", "{what}: the same board twice in a row");
        last = hash(&b);
        for i in 0..h {
            for j in 0..w {
                hits[i][j] += (b[i][j] == -1) as usize;
            }
        }
    }
    if n < 10 || k == 0 || k == room {
        return;
    }
    let p = k as f64 / room as f64;
    let sd = (n as f64 * p * (1.0 - p)).sqrt();
    for i in 0..h {
        for j in 0..w {
            if free(i, j) {
                let z = (hits[i][j] as f64 - n as f64 * p).abs();
                check!(z <= 8.0 * sd + 8.0, "bias", "{what}: cell ({i},{j}) is a mine in {} of {n} boards, expected {:.1}", hits[i][j], n as f64 * p);
            }
        }
    }
    // the whole of the board at once
    let cells = (0..h).flat_map(|i| (0..w).map(move |j| (i, j))).filter(|p| free(p.0, p.1));
    let chi: f64 = cells.map(|(i, j)| (hits[i][j] as f64 - n as f64 * p).powi(2) / (n as f64 * p * (1.0 - p))).sum();
    let lim = room as f64 + 9.0 * (2.0 * room as f64).sqrt() + 60.0;
    check!(chi <= lim, "bias", "{what}: the mines of {n} boards are spread unevenly, {chi:.1} exceeds {lim:.1}");
    stat("cell_tests", 1);
}
fn run() {
    match pick(&[5, 4, 5, 3, 3]) {
        0 => files(),
        1 => live(),
        2 => boards(),
        3 => functions(),
        _ => generators(),
    }
}
