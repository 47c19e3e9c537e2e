//! The Python package under the simulator: an embedded interpreter imports the extension module
//! compiled from /repo/python_package and is driven in lockstep with the Rust library.
#[path = "../../sim/src/check/board.rs"]
#[allow(dead_code)]
mod board;
#[path = "../../sim/src/check/c15.rs"]
#[allow(dead_code)]
mod c15;
#[path = "../../sim/src/check/legacy.rs"]
#[allow(dead_code)]
mod legacy;
#[path = "../../sim/src/check/logic.rs"]
#[allow(dead_code)]
mod logic;
#[path = "../../sim/src/check/model.rs"]
#[allow(dead_code)]
mod model;
#[path = "../../sim/src/check/parity.rs"]
#[allow(dead_code)]
mod parity;
#[path = "../../sim/src/check/value.rs"]
#[allow(dead_code)]
mod value;
#[path = "../../sim/src/check/play.rs"]
#[allow(dead_code)]
mod play;
mod py;
#[path = "../../sim/src/check/replay.rs"]
#[allow(dead_code)]
mod replay;
#[path = "../../sim/src/check/session.rs"]
#[allow(dead_code)]
mod session;
mod c25;
use ms_py as _;
static PROPS: &[simrt::Prop] = &[c25::P];
fn main() {
    let cmd = std::env::args().nth(1).unwrap_or_default();
    if cmd == "worker" || cmd == "exec" || cmd == "replay" {
        std::env::set_var("PYTHONMALLOC", "malloc");
        std::env::set_var("PYTHONHASHSEED", "0");
        py::init();
    }
    simrt::coord::main(PROPS)
}
