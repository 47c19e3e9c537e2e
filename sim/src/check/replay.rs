//! Encoding, storing, reading back and playing replays.
use crate::board::*;
use crate::session::*;
use ms_toollib::{BaseVideo, EvfVideo, SafeBoard};
use simrt::*;
use std::sync::{Arc, Mutex};

pub type Old = BaseVideo<B>;
#[derive(Clone, Default, Debug, PartialEq)]
pub struct Meta {
    pub software: Vec<u8>,
    pub player: Vec<u8>,
    pub race: Vec<u8>,
    pub unique: Vec<u8>,
    pub country: Vec<u8>,
    pub uuid: Vec<u8>,
    pub mode: u16,
    pub offical: bool,
    pub fair: bool,
}
impl Meta {
    pub fn draw() -> Meta {
        Meta {
            software: text(12),
            player: text(20),
            race: text(10),
            unique: text(10),
            country: text(3),
            uuid: text(32),
            mode: [0, 5, 6, 10, 255, 256, 65535, 4][d(8) as usize],
            offical: chance(1, 2),
            fair: chance(1, 2),
        }
    }
    pub fn set<T>(&self, v: &mut BaseVideo<T>) -> bool {
        v.set_software(self.software.clone()).is_ok()
            & v.set_player_designator(self.player.clone()).is_ok()
            & v.set_race_designator(self.race.clone()).is_ok()
            & v.set_uniqueness_designator(self.unique.clone()).is_ok()
            & v.set_country(self.country.clone()).is_ok()
            & v.set_device_uuid(self.uuid.clone()).is_ok()
            & v.set_mode(self.mode).is_ok()
            & v.set_is_offical(self.offical).is_ok()
            & v.set_is_fair(self.fair).is_ok()
    }
    pub fn get<T>(v: &BaseVideo<T>) -> Meta {
        Meta {
            software: v.software.clone(),
            player: v.player_designator.clone(),
            race: v.race_designator.clone(),
            unique: v.uniqueness_designator.clone(),
            country: v.country.clone(),
            uuid: v.device_uuid.clone(),
            mode: v.mode,
            offical: v.is_offical,
            fair: v.is_fair,
        }
    }
}
pub fn sum() -> [u8; 32] {
    let mut c = [0u8; 32];
    let k = d(4);
    for (i, x) in c.iter_mut().enumerate() {
        *x = match k {
            0 => 7 * i as u8 + 1,
            1 => d(256) as u8,
            2 => 0,
            _ => 255 - i as u8,
        };
    }
    c
}
/// Encode, setting the checksum never, once or several times, before or after. Returns the last one set.
pub fn encode(v: &mut BaseVideo<SafeBoard>) -> Option<[u8; 32]> {
    let mut last = None;
    let plan: &[u8] = match d(7) {
        0 => &[1],
        1 => &[0, 1],
        2 => &[1, 0],
        3 => &[1, 0, 0],
        4 => &[0, 0, 1, 0],
        5 => &[1, 0, 1],
        _ => &[1, 0, 1, 0, 1],
    };
    for &s in plan {
        if s == 1 {
            sut("generate_evf_v0_raw_data", || v.generate_evf_v0_raw_data());
        } else {
            let c = sum();
            let r = sut("set_checksum", || v.set_checksum(c));
            check!(r.is_ok(), "checksum", "set_checksum refused after the game");
            last = Some(c);
        }
    }
    note(format!("encoded (1: encode, 0: set checksum): {plan:?}"));
    last
}
/// Load and parse a file of the simulated disk; Err holds the reported reason or the panic text.
pub fn read_evf(path: &str) -> Result<Old, String> {
    let p = path.to_string();
    let mut v = sut("EvfVideo::new", || EvfVideo::new(&p));
    let r = sut("parse_video", || v.parse_video());
    match r {
        Ok(()) => Ok(v.data),
        Err(e) => Err(format!("{e:?}")),
    }
}
/// Run `f` in its own simulated thread (so that faults can kill it). None: it died or panicked.
pub fn in_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Arc<Mutex<Option<T>>> {
    let slot = Arc::new(Mutex::new(None));
    let s = slot.clone();
    std::thread::spawn(move || {
        let x = f();
        *s.lock().unwrap_or_else(|e| e.into_inner()) = Some(x);
    });
    slot
}
/// Compare a parsed replay with the finished session it came from.
pub fn same(l: &Live, p: &Old, csum: Option<[u8; 32]>, meta: &Meta) {
    let v = &l.s.v;
    check!(p.height == l.md.n && p.width == l.md.m, "board", "read back {}x{} instead of {}x{}", p.height, p.width, l.md.n, l.md.m);
    check!(p.board == l.md.b, "board", "read back board {} instead of {}", show(&p.board), show(&l.md.b));
    check!(p.mine_num == mines_of(&l.md.b), "board", "read back {} mines", p.mine_num);
    check!(p.cell_pixel_size as usize == l.s.pix, "metadata", "read back cell size {}", p.cell_pixel_size);
    check!(&Meta::get(p) == meta, "metadata", "read back {:?} instead of {:?}", Meta::get(p), meta);
    let won = l.md.ph == crate::model::Ph::Win;
    check!(p.is_completed == won, "metadata", "read back completed={} of a game {}", p.is_completed, if won { "won" } else { "lost" });
    check!(p.start_time == v.start_time && p.end_time == v.end_time, "metadata", "read back other start or end stamps");
    check!(p.static_params.bbbv == bbbv(&l.md.b), "3bv", "read back 3BV {} instead of {}", p.static_params.bbbv, bbbv(&l.md.b));
    let (a, b) = (v.get_rtime_ms().unwrap_or(u32::MAX), p.get_rtime_ms().unwrap_or(u32::MAX - 1));
    check!(a == b, "final-time", "read back final time {} ms instead of {}", b, a);
    check!(p.get_rtime() == v.get_rtime(), "final-time", "read back final time {:?} instead of {:?}", p.get_rtime(), v.get_rtime());
    let want = csum.unwrap_or([0; 32]);
    check!(p.checksum == want, "checksum", "read back checksum {:02x?} instead of {:02x?}", p.checksum, want);
    check!(v.get_checksum() == Ok(want), "checksum", "the session reports checksum {:02x?} instead of {:02x?}", v.get_checksum(), want);
    let (pe, ve) = (&p.video_action_state_recorder, &l.log);
    check!(pe.len() == ve.len(), "events", "read back {} events instead of {}", pe.len(), ve.len());
    for (i, (x, y)) in pe.iter().zip(ve.iter()).enumerate() {
        check!(x.mouse == y.e, "events", "event {i} reads back as {} instead of {}", x.mouse, y.e);
        check!((x.y as usize, x.x as usize) == y.px, "events", "event {i} reads back at ({}, {}) instead of {:?}", x.y, x.x, y.px);
        let t = v.video_action_state_recorder[i].time;
        check!(to_ms(x.time) == to_ms(t) && (x.time - t).abs() < 1e-9, "events", "event {i} reads back at {} s instead of {}", x.time, t);
    }
}
