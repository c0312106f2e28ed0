#![allow(warnings)]
#[macro_use]
pub mod sym;
pub mod jm;
pub mod other;
pub mod c01;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c07;
pub mod c08;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod pm;
pub mod p01;
pub mod p05;
pub mod p09;
