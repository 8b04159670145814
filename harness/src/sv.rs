//! Interface between a harness and whoever runs it: the symbolic engine gives these calls their symbolic meaning
//! (an input is every value of its range, a check is an assertion over all of them); the native replayer runs the
//! same harness on one concrete input vector.
use skillratings::Outcomes;

#[cfg(not(feature = "native"))]
mod raw {
    extern "Rust" {
        pub fn sv_f64(id: u32, lo: f64, hi: f64) -> f64;
        pub fn sv_int(id: u32, lo: u64, hi: u64) -> u64;
        pub fn sv_param(i: u32) -> u64;
        pub fn sv_assume(c: bool);
        pub fn sv_fork(v: u64) -> u64;
        pub fn sv_check(id: u32, c: bool);
        pub fn sv_close(id: u32, a: f64, b: f64);
        pub fn sv_le(id: u32, a: f64, b: f64);
        pub fn sv_fin(id: u32, a: f64);
        pub fn sv_cut(a: f64) -> f64;
    }
}
#[cfg(feature = "native")]
mod raw {
    pub use crate::native::*;
}

/// a real input in lo..=hi
#[inline(always)]
pub fn f(id: u32, lo: f64, hi: f64) -> f64 {
    #[allow(unused_unsafe)]
    unsafe { raw::sv_f64(id, lo, hi) }
}
/// an integer input in lo..=hi
#[inline(always)]
pub fn int(id: u32, lo: u64, hi: u64) -> u64 {
    #[allow(unused_unsafe)]
    unsafe { raw::sv_int(id, lo, hi) }
}
/// an integer input, made concrete by case distinction
#[inline(always)]
pub fn pick(id: u32, lo: u64, hi: u64) -> usize {
    #[allow(unused_unsafe)]
    unsafe { raw::sv_fork(raw::sv_int(id, lo, hi)) as usize }
}
/// a condition, decided by case distinction
#[inline(always)]
pub fn split(c: bool) -> bool {
    #[allow(unused_unsafe)]
    unsafe { raw::sv_fork(c as u64) == 1 }
}
#[inline(always)]
pub fn param(i: u32) -> usize {
    #[allow(unused_unsafe)]
    unsafe { raw::sv_param(i) as usize }
}
#[inline(always)]
pub fn flag(id: u32) -> bool {
    int(id, 0, 1) == 1
}
#[inline(always)]
pub fn assume(c: bool) {
    #[allow(unused_unsafe)]
    unsafe { raw::sv_assume(c) }
}
#[inline(always)]
pub fn check(id: u32, c: bool) {
    #[allow(unused_unsafe)]
    unsafe { raw::sv_check(id, c) }
}
/// a == b (over the reals; up to rounding on replay)
#[inline(always)]
pub fn close(id: u32, a: f64, b: f64) {
    #[allow(unused_unsafe)]
    unsafe { raw::sv_close(id, a, b) }
}
/// a <= b
#[inline(always)]
pub fn le(id: u32, a: f64, b: f64) {
    #[allow(unused_unsafe)]
    unsafe { raw::sv_le(id, a, b) }
}
/// finite, not NaN
#[inline(always)]
pub fn fin(id: u32, a: f64) {
    #[allow(unused_unsafe)]
    unsafe { raw::sv_fin(id, a) }
}
/// the value itself; the engine first tries to decide what follows for an arbitrary value in its place
#[inline(always)]
pub fn cut(a: f64) -> f64 {
    #[allow(unused_unsafe)]
    unsafe { raw::sv_cut(a) }
}
/// win, draw or loss as a symbolic value
#[inline(always)]
pub fn outcome(id: u32) -> Outcomes {
    match int(id, 0, 2) {
        0 => Outcomes::WIN,
        1 => Outcomes::DRAW,
        _ => Outcomes::LOSS,
    }
}
/// win, draw or loss, one path each
#[inline(always)]
pub fn outcome_fork(id: u32) -> Outcomes {
    match pick(id, 0, 2) {
        0 => Outcomes::WIN,
        1 => Outcomes::DRAW,
        _ => Outcomes::LOSS,
    }
}
pub fn score(o: Outcomes) -> f64 {
    match o {
        Outcomes::WIN => 1.0,
        Outcomes::DRAW => 0.5,
        Outcomes::LOSS => 0.0,
    }
}
pub fn flip(o: Outcomes) -> Outcomes {
    match o {
        Outcomes::WIN => Outcomes::LOSS,
        Outcomes::DRAW => Outcomes::DRAW,
        Outcomes::LOSS => Outcomes::WIN,
    }
}

#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $( $(#[$m])* #[no_mangle] pub fn $name() $body )*
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($name), $name) ),* ];
    };
}
