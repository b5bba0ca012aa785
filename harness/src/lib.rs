#![allow(warnings)]
pub mod nd;
pub mod model;
#[cfg(not(kani))]
pub mod cases;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c05_deep;
pub mod c06;
pub mod c06_deep;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c12_nat;
pub mod c13;
pub mod c14;
pub mod c14_nat;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c20_deep;
pub mod c21;
pub mod c21_deep;

#[cfg(not(kani))]
pub fn all() -> Vec<(&'static str, fn())> {
    let mut v = vec![];
    v.extend_from_slice(c01::LIST);
    v.extend_from_slice(c02::LIST);
    v.extend_from_slice(c03::LIST);
    v.extend_from_slice(c04::LIST);
    v.extend_from_slice(c05::LIST);
    v.extend_from_slice(c05_deep::LIST);
    v.extend_from_slice(c06::LIST);
    v.extend_from_slice(c06_deep::LIST);
    v.extend_from_slice(c07::LIST);
    v.extend_from_slice(c08::LIST);
    v.extend_from_slice(c09::LIST);
    v.extend_from_slice(c10::LIST);
    v.extend_from_slice(c11::LIST);
    v.extend_from_slice(c12::LIST);
    v.extend_from_slice(c12_nat::LIST);
    v.extend_from_slice(c13::LIST);
    v.extend_from_slice(c14::LIST);
    v.extend_from_slice(c14_nat::LIST);
    v.extend_from_slice(c15::LIST);
    v.extend_from_slice(c16::LIST);
    v.extend_from_slice(c17::LIST);
    v.extend_from_slice(c18::LIST);
    v.extend_from_slice(c19::LIST);
    v.extend_from_slice(c20::LIST);
    v.extend_from_slice(c20_deep::LIST);
    v.extend_from_slice(c21::LIST);
    v.extend_from_slice(c21_deep::LIST);
    v
}
