//! The scenario on the C interface, apart from the others because it compiles c/src/lib.rs.
#![allow(dead_code, unused)]
mod board;
mod c15;
mod c28;
mod logic;
mod model;
mod play;
#[path = "/repo/c/src/lib.rs"]
#[allow(warnings)]
mod c_interface;
static PROPS: &[simrt::Prop] = &[c28::P];
fn main() {
    simrt::coord::main(PROPS)
}
