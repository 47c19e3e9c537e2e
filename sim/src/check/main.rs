mod board;
mod c01;
mod c04;
mod c05;
mod c06;
mod c10;
mod c11;
mod c14;
mod c15;
mod c18;
mod c19;
mod c21;
mod c23;
mod c27;
mod c29;
mod legacy;
mod logic;
mod model;
mod play;
mod replay;
mod session;
mod smoke;
static PROPS: &[simrt::Prop] = &[c01::P1, c01::P2, c01::P3, c04::P, c05::P5, c05::P8, c05::P9, c06::P, c10::P10, c10::P17, c11::P11, c11::P12, c11::P13, c14::P, c15::P15, c15::P16, c18::P, c19::P, c15::P20, c21::P7, c21::P21, c23::P23, c23::P24, c27::P, c29::P, smoke::P];
fn main() {
    simrt::coord::main(PROPS)
}
