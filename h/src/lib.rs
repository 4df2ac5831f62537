#![allow(unused_imports, dead_code, clippy::all)]
#[macro_use]
pub mod sym;
pub mod util;
pub mod tmpl;
#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c02")]
pub mod c02;
#[cfg(feature = "c03")]
pub mod c03;
#[cfg(feature = "c04")]
pub mod c04;
#[cfg(feature = "c05")]
pub mod c05;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(feature = "c07")]
pub mod c07;
#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c11")]
pub mod c11;
#[cfg(feature = "c12")]
pub mod c12;
#[cfg(feature = "c13")]
pub mod c13;
#[cfg(feature = "c14")]
pub mod c14;
#[cfg(feature = "c15")]
pub mod c15;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(feature = "c17")]
pub mod c17;
#[cfg(feature = "c18")]
pub mod c18;
#[cfg(feature = "c19")]
pub mod c19;
#[cfg(feature = "c20")]
pub mod c20;
#[cfg(feature = "c21")]
pub mod c21;
#[cfg(feature = "c22")]
pub mod c22;
#[cfg(feature = "c23")]
pub mod c23;
#[cfg(feature = "c24")]
pub mod c24;
#[cfg(feature = "c25")]
pub mod c25;
#[cfg(feature = "c26")]
pub mod c26;
#[cfg(feature = "c27")]
pub mod c27;
#[cfg(feature = "c28")]
pub mod c28;
#[cfg(feature = "c29")]
pub mod c29;
#[cfg(feature = "c30")]
pub mod c30;
#[cfg(feature = "c31")]
pub mod c31;
#[cfg(feature = "c32")]
pub mod c32;
#[cfg(feature = "c33")]
pub mod c33;
#[cfg(feature = "c34")]
pub mod c34;
#[cfg(feature = "c35")]
pub mod c35;
#[cfg(feature = "c36")]
pub mod c36;
#[cfg(feature = "c37")]
pub mod c37;
#[cfg(feature = "c38")]
pub mod c38;

pub fn all() -> Vec<(&'static str, fn())> {
    #[allow(unused_mut)]
    let mut v: Vec<(&'static str, fn())> = vec![];
    #[cfg(feature = "c01")]
    v.extend_from_slice(c01::ALL);
    #[cfg(feature = "c02")]
    v.extend_from_slice(c02::ALL);
    #[cfg(feature = "c03")]
    v.extend_from_slice(c03::ALL);
    #[cfg(feature = "c04")]
    v.extend_from_slice(c04::ALL);
    #[cfg(feature = "c05")]
    v.extend_from_slice(c05::ALL);
    #[cfg(feature = "c06")]
    v.extend_from_slice(c06::ALL);
    #[cfg(feature = "c07")]
    v.extend_from_slice(c07::ALL);
    #[cfg(feature = "c08")]
    v.extend_from_slice(c08::ALL);
    #[cfg(feature = "c09")]
    v.extend_from_slice(c09::ALL);
    #[cfg(feature = "c10")]
    v.extend_from_slice(c10::ALL);
    #[cfg(feature = "c11")]
    v.extend_from_slice(c11::ALL);
    #[cfg(feature = "c12")]
    v.extend_from_slice(c12::ALL);
    #[cfg(feature = "c13")]
    v.extend_from_slice(c13::ALL);
    #[cfg(feature = "c14")]
    v.extend_from_slice(c14::ALL);
    #[cfg(feature = "c15")]
    v.extend_from_slice(c15::ALL);
    #[cfg(feature = "c16")]
    v.extend_from_slice(c16::ALL);
    #[cfg(feature = "c17")]
    v.extend_from_slice(c17::ALL);
    #[cfg(feature = "c18")]
    v.extend_from_slice(c18::ALL);
    #[cfg(feature = "c19")]
    v.extend_from_slice(c19::ALL);
    #[cfg(feature = "c20")]
    v.extend_from_slice(c20::ALL);
    #[cfg(feature = "c21")]
    v.extend_from_slice(c21::ALL);
    #[cfg(feature = "c22")]
    v.extend_from_slice(c22::ALL);
    #[cfg(feature = "c23")]
    v.extend_from_slice(c23::ALL);
    #[cfg(feature = "c24")]
    v.extend_from_slice(c24::ALL);
    #[cfg(feature = "c25")]
    v.extend_from_slice(c25::ALL);
    #[cfg(feature = "c26")]
    v.extend_from_slice(c26::ALL);
    #[cfg(feature = "c27")]
    v.extend_from_slice(c27::ALL);
    #[cfg(feature = "c28")]
    v.extend_from_slice(c28::ALL);
    #[cfg(feature = "c29")]
    v.extend_from_slice(c29::ALL);
    #[cfg(feature = "c30")]
    v.extend_from_slice(c30::ALL);
    #[cfg(feature = "c31")]
    v.extend_from_slice(c31::ALL);
    #[cfg(feature = "c32")]
    v.extend_from_slice(c32::ALL);
    #[cfg(feature = "c33")]
    v.extend_from_slice(c33::ALL);
    #[cfg(feature = "c34")]
    v.extend_from_slice(c34::ALL);
    #[cfg(feature = "c35")]
    v.extend_from_slice(c35::ALL);
    #[cfg(feature = "c36")]
    v.extend_from_slice(c36::ALL);
    #[cfg(feature = "c37")]
    v.extend_from_slice(c37::ALL);
    #[cfg(feature = "c38")]
    v.extend_from_slice(c38::ALL);
    v
}
