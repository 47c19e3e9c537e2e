//! The sources of /repo/wasm with a door: its replay classes are private, so the file is included
//! in a module that also holds the wrappers.
#![allow(dead_code, unused_imports, unused_must_use)]
#[path = "/repo/wasm/src/transfor.rs"]
mod transfor;
#[path = "../../sim/src/check/value.rs"]
pub mod value;
#[path = "/repo/wasm/src/lib.rs"]
pub mod api;

pub trait Video {
    fn ask(&mut self, what: &str) -> value::V;
    fn event(&mut self, what: &str, i: usize) -> value::V;
    fn parse(&mut self);
    fn analyse(&mut self);
    fn seek(&mut self, t: f64);
    fn jump(&mut self, i: usize);
    fn is_valid(&mut self) -> u8;
}
pub mod board {
    include!("/repo/wasm/src/board.rs");
    pub mod open {
        use super::*;
        use crate::value::*;
        macro_rules! list {
            ($s:ident, $w:ident; $($n:literal $f:ident)*) => { match $w { $($n => $s.$f().to(),)* _ => unreachable!("{}", $w) } };
        }
        macro_rules! door {
            ($($t:ident)*) => { $(
                impl crate::Video for $t {
                    fn ask(&mut self, w: &str) -> V {
                        if w == "x_y" {
                            let p = self.get_x_y();
                            return (p.0, p.1).to();
                        }
                        if w == "game_board" {
                            return crate::json(&self.get_game_board());
                        }
                        if w == "game_board_poss" {
                            return crate::json(&self.get_game_board_poss());
                        }
                        list!(self, w; "raw_data" get_raw_data "software" get_software "row" get_row "column" get_column "level" get_level "mode" get_mode
                            "is_completed" get_is_completed "is_offical" get_is_offical "is_fair" get_is_fair "mine_num" get_mine_num
                            "player_designator" get_player_designator "race_designator" get_race_designator "uniqueness_designator" get_uniqueness_designator
                            "country" get_country "device_uuid" get_device_uuid "bbbv" get_bbbv "start_time" get_start_time "end_time" get_end_time
                            "op" get_op "isl" get_isl "hizi" get_hizi "cell0" get_cell0 "cell1" get_cell1 "cell2" get_cell2 "cell3" get_cell3 "cell4" get_cell4
                            "cell5" get_cell5 "cell6" get_cell6 "cell7" get_cell7 "cell8" get_cell8 "rtime" get_rtime "rtime_ms" get_rtime_ms "etime" get_etime
                            "video_start_time" get_video_start_time "video_end_time" get_video_end_time "bbbv_s" get_bbbv_s "stnb" get_stnb "rqp" get_rqp
                            "left" get_left "right" get_right "double" get_double "cl" get_cl "flag" get_flag "bbbv_solved" get_bbbv_solved "ce" get_ce
                            "left_s" get_left_s "right_s" get_right_s "double_s" get_double_s "cl_s" get_cl_s "flag_s" get_flag_s "path" get_path "ce_s" get_ce_s
                            "ioe" get_ioe "thrp" get_thrp "corr" get_corr "events_len" get_events_len "current_event_id" get_current_event_id
                            "mouse_state" get_mouse_state "game_board_state" get_game_board_state "checksum" get_checksum "pix_size" get_pix_size)
                    }
                    fn event(&mut self, w: &str, i: usize) -> V {
                        match w {
                            "events_time" => self.events_time(i).to(),
                            "events_mouse" => self.events_mouse(i).to(),
                            "events_x" => self.events_x(i).to(),
                            "events_y" => self.events_y(i).to(),
                            "events_useful_level" => self.events_useful_level(i).to(),
                            "events_mouse_state" => self.events_mouse_state(i).to(),
                            _ => unreachable!("{w}"),
                        }
                    }
                    fn parse(&mut self) {
                        self.parse_video();
                    }
                    fn analyse(&mut self) {
                        $t::analyse(self);
                    }
                    fn seek(&mut self, t: f64) {
                        self.set_current_time(t);
                    }
                    fn jump(&mut self, i: usize) {
                        self.set_current_event_id(i);
                    }
                    fn is_valid(&mut self) -> u8 {
                        $t::is_valid(self)
                    }
                }
            )* };
        }
        door!(AvfVideo EvfVideo MvfVideo RmvVideo);
        pub fn open(format: usize, data: Vec<u8>, name: &str) -> Box<dyn crate::Video> {
            let d = data.into_boxed_slice();
            match format {
                0 => Box::new(AvfVideo::new(d, name)),
                1 => Box::new(RmvVideo::new(d, name)),
                2 => Box::new(MvfVideo::new(d, name)),
                _ => Box::new(EvfVideo::new(d, name)),
            }
        }
    }
}
/// The value a JSON text stands for.
pub fn json(s: &str) -> value::V {
    fn go(x: &serde_json::Value) -> value::V {
        use value::*;
        match x {
            serde_json::Value::Null => V::F(1),
            serde_json::Value::Bool(b) => V::I(*b as i64),
            serde_json::Value::Number(n) => match n.as_i64() {
                Some(i) => V::I(i),
                None => n.as_f64().unwrap().to(),
            },
            serde_json::Value::String(s) => V::S(s.clone()),
            serde_json::Value::Array(a) => V::L(a.iter().map(go).collect()),
            serde_json::Value::Object(_) => V::Nothing,
        }
    }
    go(&serde_json::from_str(s).expect("not JSON"))
}
