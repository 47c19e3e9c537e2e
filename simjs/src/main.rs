//! The JavaScript package under the simulator: the sources of /repo/wasm compiled for this machine
//! on top of the library as built for it (feature js), driven in lockstep with the library.
#[path = "../../sim/src/check/board.rs"]
#[allow(dead_code)]
mod board;
#[path = "../../sim/src/check/c15.rs"]
#[allow(dead_code)]
mod c15;
#[path = "../../sim/src/check/legacy.rs"]
#[allow(dead_code)]
mod legacy;
#[path = "../../sim/src/check/logic.rs"]
#[allow(dead_code)]
mod logic;
#[path = "../../sim/src/check/model.rs"]
#[allow(dead_code)]
mod model;
#[path = "../../sim/src/check/parity.rs"]
#[allow(dead_code)]
mod parity;
#[path = "../../sim/src/check/play.rs"]
#[allow(dead_code)]
mod play;
#[path = "../../sim/src/check/replay.rs"]
#[allow(dead_code)]
mod replay;
#[path = "../../sim/src/check/session.rs"]
#[allow(dead_code)]
mod session;
pub use ms_wasm::value;
mod c26;
static PROPS: &[simrt::Prop] = &[c26::P];
fn main() {
    simrt::coord::main(PROPS)
}
