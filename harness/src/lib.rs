//! Harnesses: each `h_*` function is executed symbolically (and replayed natively).
#![allow(dead_code, unused_imports, unused_macros, improper_ctypes, static_mut_refs, deprecated, unused_must_use, unused_variables, unused_parens, unused_braces, non_snake_case, non_camel_case_types, unreachable_code)]
#[macro_use]
pub mod pre;
#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c02")]
pub mod c02;
#[cfg(feature = "c03")]
pub mod c03;
#[cfg(feature = "c04")]
pub mod c04;
#[cfg(feature = "c05")]
pub mod c05;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(feature = "c07")]
pub mod c07;
#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c09")]
pub mod flt9;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c11")]
pub mod c11;
#[cfg(feature = "c12")]
pub mod c12;
#[cfg(feature = "c13")]
pub mod c13;
#[cfg(feature = "c14")]
pub mod c14;
#[cfg(feature = "c14")]
pub mod wide14;
#[cfg(feature = "c14")]
pub mod g14;
#[cfg(feature = "c14")]
pub mod len14;
#[cfg(feature = "c15")]
pub mod c15;
#[cfg(feature = "c15")]
pub mod g15;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(feature = "c16")]
pub mod wide16;
#[cfg(feature = "c16")]
pub mod g16;
#[cfg(feature = "c17")]
pub mod c17;
#[cfg(feature = "c17")]
pub mod wide17;
#[cfg(feature = "c17")]
pub mod g17;
#[cfg(feature = "c18")]
pub mod c18;
#[cfg(feature = "c18")]
pub mod wide18;
#[cfg(feature = "c18")]
pub mod g18;
#[cfg(feature = "c18")]
pub mod near18;
#[cfg(feature = "c19")]
pub mod c19;
#[cfg(feature = "c19")]
pub mod wide19;
#[cfg(feature = "c19")]
pub mod g19;
#[cfg(feature = "c20")]
pub mod c20;
#[cfg(feature = "c20")]
pub mod g20;
#[cfg(feature = "c21")]
pub mod c21;
#[cfg(feature = "c21")]
pub mod wide21;
#[cfg(feature = "c21")]
pub mod only21;
#[cfg(feature = "c21")]
pub mod g21;
#[cfg(feature = "c22")]
pub mod c22;
#[cfg(feature = "c22")]
pub mod wide22;
#[cfg(feature = "c23")]
pub mod c23;
#[cfg(feature = "c23")]
pub mod wide23;
#[cfg(feature = "c23")]
pub mod g23;
#[cfg(feature = "c24")]
pub mod c24;
#[cfg(feature = "c24")]
pub mod wide24;
#[cfg(feature = "c25")]
pub mod c25;
#[cfg(feature = "c26")]
pub mod c26;
#[cfg(feature = "c27")]
pub mod c27;
#[cfg(feature = "c28")]
pub mod c28;
#[cfg(feature = "c29")]
pub mod c29;
#[cfg(feature = "c29")]
pub mod wide29;
#[cfg(feature = "c29")]
pub mod g29;
#[cfg(feature = "c29")]
pub mod only29;
#[cfg(feature = "c29")]
#[path = "../../build/gen/names.rs"]
pub mod names;
