//! Concrete implementation of the harness interface, for replay.
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Default)]
pub struct State {
    pub params: Vec<u64>,
    pub vals: HashMap<String, f64>,
    pub log: Vec<(char, u32, bool, f64, f64)>,
    pub missing: bool,
}
thread_local! { pub static ST: RefCell<State> = RefCell::new(State::default()); }

pub struct Skip;

pub fn sv_f64(id: u32, lo: f64, hi: f64) -> f64 {
    if lo == hi { return lo; }
    get(format!("x{id}"), lo, hi)
}
pub fn sv_int(id: u32, lo: u64, hi: u64) -> u64 {
    if lo == hi { return lo; }
    get(format!("n{id}"), lo as f64, hi as f64) as u64
}
fn get(k: String, lo: f64, hi: f64) -> f64 {
    let v = ST.with(|s| {
        let mut s = s.borrow_mut();
        match s.vals.get(&k) {
            Some(v) => *v,
            None => { s.missing = true; if lo <= 0.0 && hi >= 0.0 { 0.0 } else { lo } }
        }
    });
    if !(lo <= v && v <= hi) { std::panic::panic_any(Skip) }
    v
}
pub fn sv_param(i: u32) -> u64 {
    ST.with(|s| s.borrow().params.get(i as usize).copied().unwrap_or(0))
}
pub fn sv_assume(c: bool) {
    if !c { std::panic::panic_any(Skip) }
}
pub fn sv_fork(v: u64) -> u64 { v }
fn log(k: char, id: u32, ok: bool, a: f64, b: f64) {
    ST.with(|s| s.borrow_mut().log.push((k, id, ok, a, b)));
}
pub fn sv_check(id: u32, c: bool) {
    log('c', id, c, if c { 1.0 } else { 0.0 }, 1.0);
}
fn tol(a: f64, b: f64) -> f64 {
    1e-9 * a.abs().max(b.abs()).max(1.0)
}
pub fn sv_close(id: u32, a: f64, b: f64) {
    log('e', id, (a == b) || (a - b).abs() <= tol(a, b), a, b);
}
pub fn sv_le(id: u32, a: f64, b: f64) {
    log('l', id, a <= b + tol(a, b) && !a.is_nan() && !b.is_nan(), a, b);
}
pub fn sv_cut(a: f64) -> f64 { a }
pub fn sv_fin(id: u32, a: f64) {
    log('f', id, a.is_finite(), a, 0.0);
}
