//! every other harness, in both build profiles
#[path = "c01.rs"] pub mod m01;
#[path = "c04.rs"] pub mod m04;
#[path = "c06.rs"] pub mod m06;
#[path = "c07.rs"] pub mod m07;
#[path = "c08.rs"] pub mod m08;
#[path = "c09.rs"] pub mod m09;
#[path = "flt9.rs"] pub mod m09f;
#[path = "c10.rs"] pub mod m10;
#[path = "c11.rs"] pub mod m11;
#[path = "c12.rs"] pub mod m12;
#[path = "c13.rs"] pub mod m13;
#[path = "c14.rs"] pub mod m14;
#[path = "c15.rs"] pub mod m15;
#[path = "c16.rs"] pub mod m16;
#[path = "c17.rs"] pub mod m17;
#[path = "c18.rs"] pub mod m18;
#[path = "c19.rs"] pub mod m19;
#[path = "c20.rs"] pub mod m20;
#[path = "c21.rs"] pub mod m21;
#[path = "c23.rs"] pub mod m23;
#[path = "c24.rs"] pub mod m24;
