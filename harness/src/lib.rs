#![allow(dead_code, unused_macros, unused_imports, clippy::all)]
extern crate alloc;

#[cfg(not(kani))]
#[macro_use]
pub mod shim;
#[cfg(not(kani))]
pub use shim::kani;

#[macro_use]
pub mod util;

#[cfg(feature = "c01")]
mod c01;
#[cfg(any(feature = "c06", feature = "c07"))]
#[macro_use]
mod strs;
#[cfg(any(feature = "c02", feature = "c03", feature = "c04"))]
#[macro_use]
mod ints;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c06")]
mod c06;
#[cfg(feature = "c07")]
mod c07;

#[cfg(any(feature = "c08", feature = "c09"))]
#[macro_use]
mod basen;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c09")]
mod c09;

#[cfg(any(feature = "c10", feature = "c11", feature = "c12"))]
#[macro_use]
mod hexid;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "c12")]
mod c12;

#[cfg(feature = "c14")]
mod c14;
#[cfg(feature = "c15")]
pub mod c15;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(feature = "idn")]
mod idn;
#[cfg(feature = "net")]
mod ipmodel;
#[cfg(feature = "net")]
mod net;
#[cfg(feature = "c13")]
mod c13;
#[cfg(feature = "c27")]
mod c27;
#[cfg(feature = "c17")]
mod c17;
#[cfg(any(feature = "c18", feature = "c19", feature = "c20", feature = "c21"))]
#[macro_use]
mod mail;
#[cfg(feature = "c18")]
mod c18;
#[cfg(feature = "c19")]
mod c19;
#[cfg(feature = "c20")]
mod c20;
#[cfg(feature = "c21")]
mod c21;

#[cfg(any(feature = "c22", feature = "c23"))]
pub mod nope;
#[cfg(feature = "c23")]
mod c23;
#[cfg(feature = "c22")]
mod c22;
#[cfg(feature = "c24")]
mod c24;
#[cfg(feature = "c30")]
mod c30;
#[cfg(feature = "c26")]
mod c26;
