use crate::engine::Prop;
pub mod p01;
pub mod p02;
pub mod p03;
pub mod p04;
pub mod p05;
pub mod p06;
pub mod p07;
pub mod p08;
pub mod p09;
pub mod p10;
pub mod p11;
pub mod p12;
pub mod p13;
pub mod p14;
pub mod p15;
pub mod p16;
pub mod p17;
pub mod p18;
pub mod p19;
pub mod p20;
pub mod p21;
pub mod p22;
pub mod p23;
pub mod p24;
pub mod p25;
pub mod p26;
pub mod p27;
pub static ALL: &[&Prop] =
    &[&p01::PROP, &p02::PROP, &p03::PROP, &p04::PROP, &p05::PROP, &p06::PROP, &p07::PROP, &p08::PROP, &p09::PROP, &p10::PROP, &p11::PROP, &p12::PROP, &p13::PROP, &p14::PROP, &p15::PROP, &p16::PROP, &p17::PROP, &p18::PROP, &p19::PROP, &p20::PROP, &p21::PROP, &p22::PROP, &p23::PROP, &p24::PROP, &p25::PROP, &p26::PROP, &p27::PROP];
pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id).copied()
}
