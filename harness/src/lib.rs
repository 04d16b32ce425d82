//! Lemmas about the public interface of icalendar. They are never executed: their MIR, and the
//! MIR of everything they reach in the library, is what the analysis interprets abstractly.
//! The functions of `v` are its primitives: unknown values, assumptions and obligations.
#![allow(deprecated, unused_imports, dead_code, clippy::all)]

pub mod v {
    use chrono::{DateTime, Duration, NaiveDate, NaiveDateTime, Utc};
    /// any text of a character class, with a length in bytes: "class{lo,hi}"
    #[inline(never)] pub fn text(_id: &'static str, _class: &'static str) -> String { loop {} }
    #[inline(never)] pub fn ch(_id: &'static str, _class: &'static str) -> char { loop {} }
    #[inline(never)] pub fn u32(_id: &'static str, _lo: i64, _hi: i64) -> u32 { loop {} }
    #[inline(never)] pub fn u8(_id: &'static str, _lo: i64, _hi: i64) -> u8 { loop {} }
    #[inline(never)] pub fn any(_id: &'static str) -> bool { loop {} }
    /// any number below n, each considered on its own
    #[inline(never)] pub fn pick(_id: &'static str, _n: usize) -> usize { loop {} }
    /// any date (years 0 to 9999), and times to the second
    #[inline(never)] pub fn date(_id: &'static str) -> NaiveDate { loop {} }
    #[inline(never)] pub fn ndt(_id: &'static str) -> NaiveDateTime { loop {} }
    /// with a fraction of a second
    #[inline(never)] pub fn ndt_ns(_id: &'static str) -> NaiveDateTime { loop {} }
    #[inline(never)] pub fn utc(_id: &'static str) -> DateTime<Utc> { loop {} }
    /// any whole number of seconds
    #[inline(never)] pub fn dur(_id: &'static str, _lo: i64, _hi: i64) -> Duration { loop {} }
    #[inline(never)] pub fn tz(_id: &'static str) -> chrono_tz::Tz { loop {} }
    #[inline(never)] pub fn assume(_c: bool) { loop {} }
    #[inline(never)] pub fn check(_id: &'static str, _c: bool) { loop {} }
    /// what has been printed to standard output
    #[inline(never)] pub fn printed() -> String { loop {} }
    #[inline(never)] pub fn show<T>(_id: &'static str, _c: &T) { loop {} }
}

/// one of several constants
macro_rules! each { ($($(#[$m:meta])* $name:ident => $body:block)*) => { $( $(#[$m])* pub fn $name() $body )* } }

pub mod util;
#[cfg(feature = "c01")] pub mod c01;
#[cfg(feature = "c02")] pub mod c02;
#[cfg(feature = "c03")] pub mod c03;
#[cfg(feature = "c04")] pub mod c04;
#[cfg(feature = "c05")] pub mod c05;
#[cfg(feature = "c06")] pub mod c06;
#[cfg(feature = "c07")] pub mod c07;
#[cfg(feature = "c08")] pub mod c08;
#[cfg(feature = "c09")] pub mod c09;
#[cfg(feature = "c10")] pub mod c10;
#[cfg(feature = "c11")] pub mod c11;
#[cfg(feature = "c12")] pub mod c12;
#[cfg(feature = "c13")] pub mod c13;
#[cfg(feature = "c14")] pub mod c14;
#[cfg(feature = "c15")] pub mod c15;
#[cfg(feature = "c16")] pub mod c16;
#[cfg(feature = "c17")] pub mod c17;
#[cfg(feature = "c18")] pub mod c18;
#[cfg(feature = "c19")] pub mod c19;
#[cfg(feature = "c20")] pub mod c20;
#[cfg(feature = "c21")] pub mod c21;
#[cfg(feature = "c22")] pub mod c22;
#[cfg(feature = "c23")] pub mod c23;
#[cfg(feature = "c24")] pub mod c24;
#[cfg(feature = "c25")] pub mod c25;
#[cfg(feature = "c26")] pub mod c26;
#[cfg(feature = "c27")] pub mod c27;
#[cfg(feature = "c28")] pub mod c28;
#[cfg(feature = "c29")] pub mod c29;
#[cfg(feature = "c32")] pub mod c32;
#[cfg(feature = "c33")] pub mod c33;
#[cfg(feature = "c34")] pub mod c34;
#[cfg(feature = "c35")] pub mod c35;
#[cfg(feature = "c36")] pub mod c36;
#[cfg(feature = "c37")] pub mod c37;
#[cfg(feature = "c38")] pub mod c38;
