pub mod util;
pub mod hostile;
pub mod p01;
pub mod p02;
pub mod p03;
pub mod p04;
pub mod p05;
pub mod p06;
pub mod p07;
pub mod p08;
pub mod p09;
pub mod p10;
pub mod p11;
pub mod p12;
pub mod p13;
pub mod p14;
pub mod p15;
pub mod p16;
pub mod p17;
pub mod p18;
pub mod p19;
pub mod p20;
pub mod p21;
pub mod p22;
pub mod p23;

use crate::Scen;
pub fn all() -> Vec<(&'static str, Vec<Scen>)> {
    vec![
        ("P01", p01::scens()),
        ("P02", p02::scens()),
        ("P03", p03::scens()),
        ("P04", p04::scens()),
        ("P05", p05::scens()),
        ("P06", p06::scens()),
        ("P07", p07::scens()),
        ("P08", p08::scens()),
        ("P09", p09::scens()),
        ("P10", p10::scens()),
        ("P11", p11::scens()),
        ("P12", p12::scens()),
        ("P13", p13::scens()),
        ("P14", p14::scens()),
        ("P15", p15::scens()),
        ("P16", p16::scens()),
        ("P17", p17::scens()),
        ("P18", p18::scens()),
        ("P19", p19::scens()),
        ("P20", p20::scens()),
        ("P21", p21::scens()),
        ("P22", p22::scens()),
        ("P23", p23::scens()),
    ]
}
pub fn get(p: &str) -> Vec<Scen> { all().into_iter().find(|x| x.0 == p).map(|x| x.1).unwrap_or_default() }
