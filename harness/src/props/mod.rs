use crate::engine::{Ctx, Meta};
pub mod rules;
pub mod irc;
pub mod world;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c10;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c26;
pub mod c27;
pub mod c29;
pub mod c30;
pub mod c31;

pub type Check = fn(&mut Ctx);
pub static ALL: &[(Meta, Check)] = &[
    (c01::META, c01::run),
    (c02::META, c02::run),
    (c03::META, c03::run),
    (c04::META, c04::run),
    (c05::META, c05::run),
    (c06::META, c06::run),
    (c07::META, c07::run),
    (c08::META, c08::run),
    (c10::META, c10::run),
    (c13::META, c13::run),
    (c14::META, c14::run),
    (c15::META, c15::run),
    (c16::META, c16::run),
    (c17::META, c17::run),
    (c18::META, c18::run),
    (c19::META, c19::run),
    (c20::META, c20::run),
    (c21::META, c21::run),
    (c22::META, c22::run),
    (c23::META, c23::run),
    (c24::META, c24::run),
    (c25::META, c25::run),
    (c26::META, c26::run),
    (c27::META, c27::run),
    (c29::META, c29::run),
    (c30::META, c30::run),
    (c31::META, c31::run),
];

pub fn find(id: &str) -> Option<(&'static Meta, Check)> {
    ALL.iter().find(|m| m.0.id == id).map(|m| (&m.0, m.1))
}
