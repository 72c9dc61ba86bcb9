// Shared by the native and the Kani runs: what the specification functions are written with.
#![allow(unused)]
use core::fmt;

pub struct Wd<F>(pub F);
impl<F: Fn(&mut fmt::Formatter) -> fmt::Result> fmt::Display for Wd<F> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        (self.0)(f)
    }
}

pub fn conv<T: core::str::FromStr>(s: &str) -> Option<T> {
    T::from_str(s).ok()
}
pub fn conv_any<T: core::str::FromStr>(s: &str) -> Option<T> {
    T::from_str(s).ok()
}
pub fn deep_ok<T: core::str::FromStr>(s: &str) -> bool {
    T::from_str(s).is_ok()
}
pub fn conv_with<T, F: parse_display::FromStrFormat<T>>(w: &F, s: &str) -> Option<T> {
    w.parse(s).ok()
}
/// Specification of what `new = expr` may return.
pub trait SpecInto<T> {
    fn spec_into(self) -> Option<T>;
}
impl<T> SpecInto<T> for Plain<T> {
    fn spec_into(self) -> Option<T> {
        Some(self.0)
    }
}
pub struct Plain<T>(pub T);
impl<T> SpecInto<T> for Option<T> {
    fn spec_into(self) -> Option<T> {
        self
    }
}
impl<T, E> SpecInto<T> for Result<T, E> {
    fn spec_into(self) -> Option<T> {
        self.ok()
    }
}
pub fn spec_into<T>(x: impl SpecInto<T>) -> Option<T> {
    x.spec_into()
}

pub trait Gen: Sized {
    fn gen(r: &mut R) -> Self;
}
impl<T: Gen> Gen for Option<T> {
    fn gen(r: &mut R) -> Self {
        if r.flag() {
            None
        } else {
            Some(T::gen(r))
        }
    }
}

pub use super::rt::*;

#[derive(PartialEq, Debug, Clone, Default)]
pub struct M {
    pub x: K,
    pub y: K,
}
impl Gen for M {
    fn gen(r: &mut R) -> Self {
        M { x: K::gen(r), y: K::gen(r) }
    }
}
#[derive(PartialEq, Debug, Clone, Default)]
pub struct MT(pub K, pub K);
impl Gen for MT {
    fn gen(r: &mut R) -> Self {
        MT(K::gen(r), K::gen(r))
    }
}
#[derive(PartialEq, Debug, Clone, Default)]
pub struct MM {
    pub m: M,
    pub z: K,
}
impl Gen for MM {
    fn gen(r: &mut R) -> Self {
        MM { m: M::gen(r), z: K::gen(r) }
    }
}
#[derive(PartialEq, Debug, Clone, Default)]
pub struct MQ {
    pub p: M,
    pub q: M,
}
impl Gen for MQ {
    fn gen(r: &mut R) -> Self {
        MQ { p: M::gen(r), q: M::gen(r) }
    }
}
#[derive(PartialEq, Debug, Clone, Default)]
pub struct MR {
    pub r#type: K,
    pub a: K,
}
impl Gen for MR {
    fn gen(r: &mut R) -> Self {
        MR { r#type: K::gen(r), a: K::gen(r) }
    }
}
