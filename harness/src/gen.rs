//! Symbolic ratings and results (ids i..i+9 belong to entity i)
#![allow(dead_code)]
use crate::sv::*;
use skillratings::{
    dwz::DWZRating, glicko::{GlickoConfig, GlickoRating}, glicko2::{Glicko2Config, Glicko2Rating}, glicko_boost::{GlickoBoostConfig, GlickoBoostRating},
    sticko::{StickoConfig, StickoRating}, egf::{EGFConfig, EGFRating}, elo::{EloConfig, EloRating}, fifa::{FifaConfig, FifaRating}, ingo::IngoRating, uscf::{USCFConfig, USCFRating}, weng_lin::{WengLinConfig, WengLinRating}, trueskill::{TrueSkillConfig, TrueSkillRating},
    Outcomes,
};

pub const LN10: f64 = std::f64::consts::LN_10;

pub fn elo_r(i: u32) -> EloRating { EloRating { rating: f(i, -10000.0, 10000.0) } }
pub fn elo_c(i: u32) -> EloConfig { EloConfig { k: f(i, 0.0, 1000.0) } }
pub fn fifa_r(i: u32) -> FifaRating { FifaRating { rating: f(i, -10000.0, 10000.0) } }
pub fn fifa_c(i: u32) -> FifaConfig { FifaConfig { importance: f(i, 0.0, 1000.0), knockout: flag(i + 1), penalties: flag(i + 2) } }
/// flags by case distinction
pub fn fifa_cf(i: u32) -> FifaConfig { FifaConfig { importance: f(i, 0.0, 1000.0), knockout: pick(i + 1, 0, 1) == 1, penalties: pick(i + 2, 0, 1) == 1 } }
pub fn ingo_r(i: u32) -> IngoRating { IngoRating { rating: f(i, -1000.0, 1000.0), age: int(i + 1, 0, 130) as usize } }
pub fn egf_r(i: u32) -> EGFRating { EGFRating { rating: f(i, -900.0, 3200.0) } }
pub fn egf_c(i: u32) -> EGFConfig { EGFConfig { handicap: f(i, -9.0, 9.0) } }
pub fn dwz_r(i: u32) -> DWZRating { DWZRating { rating: f(i, 0.0, 4000.0), index: int(i + 1, 1, 200) as usize, age: int(i + 2, 0, 130) as usize } }
pub fn uscf_r(i: u32) -> USCFRating { USCFRating { rating: f(i, 100.0, 3500.0), games: int(i + 1, 0, 5000) as usize } }
pub fn uscf_c(i: u32) -> USCFConfig { USCFConfig { t: f(i, 0.0, 100.0) } }

/// n entities with an outcome each: entity ids base + 10*j, outcome id +9
pub fn results<T>(base: u32, n: usize, g: impl Fn(u32) -> T) -> Vec<(T, Outcomes)> {
    (0..n as u32).map(|j| (g(base + 10 * j), outcome(base + 10 * j + 9))).collect()
}
/// a long list of results against three opponents (the last game against the third); the first, middle and last outcomes are symbolic
pub fn long_results<T: Copy>(base: u32, n: usize, g: impl Fn(u32) -> T) -> Vec<(T, Outcomes)> {
    let os = [g(base), g(base + 10), g(base + 20)];
    let x = [outcome(base + 9), outcome(base + 19), outcome(base + 29)];
    (0..n).map(|j| (os[if j + 1 == n { 2 } else { j % 2 }],
        if j == 0 { x[0] } else if j + 1 == n { x[2] } else if j == n / 2 { x[1] } else { [Outcomes::LOSS, Outcomes::WIN, Outcomes::DRAW, Outcomes::WIN][j % 4] })).collect()
}
pub fn results_fork<T>(base: u32, n: usize, g: impl Fn(u32) -> T) -> Vec<(T, Outcomes)> {
    (0..n as u32).map(|j| (g(base + 10 * j), outcome_fork(base + 10 * j + 9))).collect()
}

/// expected score of the Elo family: 1 / (1 + 10^((opponent - own) / scale))
pub fn logistic10(own: f64, opp: f64, scale: f64) -> f64 {
    1.0 / (1.0 + ((opp - own) / scale * LN10).exp())
}

pub fn gl_r(i: u32) -> GlickoRating { GlickoRating { rating: f(i, 0.0, 4000.0), deviation: f(i + 1, 1.0, 350.0) } }
pub fn gl_c(i: u32) -> GlickoConfig { GlickoConfig { c: f(i, 0.0, 400.0) } }
pub fn g2_r(i: u32) -> Glicko2Rating { Glicko2Rating { rating: f(i, 0.0, 4000.0), deviation: f(i + 1, 1.0, 350.0), volatility: f(i + 2, 0.01, 0.5) } }
pub fn g2_c(i: u32) -> Glicko2Config { Glicko2Config { tau: f(i, 0.2, 1.5), convergence_tolerance: f(i + 1, 0.000_001, 4.0) } }
pub fn gb_r(i: u32) -> GlickoBoostRating { GlickoBoostRating { rating: f(i, 0.0, 4000.0), deviation: f(i + 1, 1.0, 350.0) } }
pub fn gb_c(i: u32) -> GlickoBoostConfig {
    GlickoBoostConfig {
        eta: f(i, -200.0, 200.0), k: f(i + 1, 0.0, 5.0), b: (f(i + 2, 0.0, 1.0), f(i + 3, 0.0, 100.0)),
        alpha: (f(i + 4, 0.0, 7.0), f(i + 5, -0.01, 0.01), f(i + 6, -0.001, 0.001), f(i + 7, -0.1, 0.1), f(i + 8, -0.01, 0.01)),
    }
}
pub fn st_r(i: u32) -> StickoRating { StickoRating { rating: f(i, 0.0, 4000.0), deviation: f(i + 1, 1.0, 350.0) } }
pub fn st_c(i: u32) -> StickoConfig { StickoConfig { h: f(i, 0.0, 1000.0), beta: f(i + 1, -1.0, 1.0), lambda: f(i + 2, 0.0, 100.0), gamma: f(i + 3, -200.0, 200.0), c: f(i + 4, 0.0, 400.0) } }

/// the Glicko g function: 1 / sqrt(1 + 3 q^2 RD^2 / pi^2), q = ln 10 / 400
pub fn gl_g(rd: f64) -> f64 {
    let x = LN10 / 400.0 * rd / std::f64::consts::PI;
    1.0 / (1.0 + 3.0 * x * x).sqrt()
}
/// E = 1 / (1 + 10^(-g d / 400))
pub fn gl_e(g: f64, d: f64) -> f64 { 1.0 / (1.0 + (-(g * d) * (LN10 / 400.0)).exp()) }
/// new deviation before a period: min(350, sqrt(RD^2 + c^2))
pub fn gl_pre(rd: f64, c: f64) -> f64 { (rd * rd + c * c).sqrt().min(350.0) }

pub fn wl_r(i: u32) -> WengLinRating { WengLinRating { rating: f(i, -200.0, 200.0), uncertainty: f(i + 1, 0.01, 50.0) } }
pub fn wl_c(i: u32) -> WengLinConfig { WengLinConfig { beta: f(i, 1.0, 50.0), uncertainty_tolerance: f(i + 1, 0.0, 1.0) } }
pub fn wl_team(base: u32, n: usize) -> Vec<WengLinRating> { (0..n as u32).map(|j| wl_r(base + 10 * j)).collect() }
/// team sizes from a parameter given in decimal digits: 213 = teams of 2, 1 and 3
pub fn shape(mut d: usize) -> Vec<usize> {
    let mut v = Vec::new();
    while d > 0 { v.push(d % 10); d /= 10; }
    v.reverse();
    v
}

pub fn ts_r(i: u32) -> TrueSkillRating { TrueSkillRating { rating: f(i, -100.0, 100.0), uncertainty: f(i + 1, 0.5, 50.0) } }
/// draw probabilities: one of a few values (d = 1..), or any (d = 0)
pub const DRAWS: [f64; 12] = [0.1, 0.25, 0.01, 0.02, 0.5, 0.05, 0.15, 0.2, 0.3, 0.75, 0.9, 0.95];
pub fn ts_c(i: u32, d: usize) -> TrueSkillConfig {
    let p = if d == 0 { f(i, 0.01, 0.95) } else { DRAWS[d - 1] };
    let beta = f(i + 1, 0.5, 50.0);
    TrueSkillConfig { draw_probability: p, beta, dynamics_factor: beta * f(i + 2, 0.0, 1.0) }
}
pub fn ts_team(base: u32, n: usize) -> Vec<TrueSkillRating> { (0..n as u32).map(|j| ts_r(base + 10 * j)).collect() }

/// complementary error function, Chebyshev fit of Numerical Recipes (erfcc)
pub fn erfc(x: f64) -> f64 {
    let z = if x < 0.0 { -x } else { x };
    let t = 1.0 / (1.0 + 0.5 * z);
    let p = -1.26551223 + t * (1.00002368 + t * (0.37409196 + t * (0.09678418 + t * (-0.18628806 + t * (0.27886807 + t * (-1.13520398 + t * (1.48851587 + t * (-0.82215223 + t * 0.17087277))))))));
    let r = t * (p - z * z).exp();
    if x < 0.0 { 2.0 - r } else { r }
}
pub fn phi(x: f64) -> f64 { 0.5 * erfc(-x / std::f64::consts::SQRT_2) }
pub fn dens(x: f64) -> f64 { (-(x * x) / 2.0).exp() / (2.0 * std::f64::consts::PI).sqrt() }
/// quantile of the standard normal for (1 + p) / 2 >= 0.5: rational start, two Halley steps
pub fn quantile_half(p: f64) -> f64 {
    let y = 2.0 - (1.0 + p);
    let t = (-2.0 * (y / 2.0).ln()).sqrt();
    let mut x = -std::f64::consts::FRAC_1_SQRT_2 * ((2.30753 + t * 0.27061) / (1.0 + t * (0.99229 + t * 0.04481)) - t);
    for _ in 0..2 {
        let e = erfc(x) - y;
        x += e / (std::f64::consts::FRAC_2_SQRT_PI * (-(x * x)).exp() - x * e);
    }
    std::f64::consts::SQRT_2 * x
}
const TINY: f64 = 2.222_758_749e-162;
/// additive and multiplicative correction of the truncated normal: (v, w), non-draw
pub fn vw_win(t: f64, e: f64) -> (f64, f64) {
    let n = phi(t - e);
    if n < TINY { return (e - t, if t < 0.0 { 1.0 } else { 0.0 }); }
    let v = dens(t - e) / n;
    (v, v * (v + t - e))
}
/// draw
pub fn vw_draw(t: f64, e: f64) -> (f64, f64) {
    let a = t.abs();
    let n = phi(e - a) - phi(-e - a);
    if n < TINY { return (if t < 0.0 { -t - e } else { -t + e }, 1.0); }
    let x = (dens(-e - a) - dens(e - a)) / n;
    let v = if t < 0.0 { -x } else { x };
    (v, v * v + ((e - a) * dens(e - a) + (e + a) * dens(e + a)) / n)
}
