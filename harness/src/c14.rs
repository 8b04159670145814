//! Expected scores: complementary, symmetric, in [0,1], favourites first, monotone, lists pairwise, teams adding up
use crate::{gen::*, sv::*};
use skillratings::*;

/// (e1, e2) for (a, b), and e for (b, a)
fn both(e: (f64, f64), r: (f64, f64)) {
    close(1, e.0 + e.1, 1.0);
    close(2, e.0, r.1);
}
fn unit(e: (f64, f64)) {
    le(3, 0.0, e.0); le(3, e.0, 1.0);
    le(4, 0.0, e.1); le(4, e.1, 1.0);
}
/// the higher rated is the favourite; equal ratings are even
fn fav(x: f64, y: f64, e: (f64, f64)) {
    if x >= y { le(5, 0.5, e.0); }
    if x <= y { le(6, e.0, 0.5); }
}
/// the same up to the accuracy of the approximated normal distribution function (1e-7)
fn approx(x: f64, y: f64, e: (f64, f64), r: (f64, f64)) {
    close(1, e.0 + e.1, 1.0);
    unit(e);
    if x > y { le(5, 0.5 - 1e-6, e.0); close(2, e.0, r.1); }
    if x < y { le(6, e.0, 0.5 + 1e-6); close(2, e.0, r.1); }
}
/// a higher rating never has a lower expected score
fn mono(lo: f64, hi: f64) { le(7, lo, hi); }
fn list(es: &[f64], n: usize, one: impl Fn(usize) -> f64) {
    check(8, es.len() == n);
    for i in 0..n { close(10 + i as u32, es[i], one(i)); }
}
fn multi(es: &[f64], n: usize) {
    check(30, es.len() == n);
    let mut s = 0.0;
    for &e in es { le(31, 0.0, e); le(32, e, 1.0); s += e; }
    close(33, s, 1.0);
}

harnesses! {
fn c14_elo() {
    let (a, b) = (elo_r(0), elo_r(10));
    let e = elo::expected_score(&a, &b);
    both(e, elo::expected_score(&b, &a));
    unit(e);
    fav(a.rating, b.rating, e);
    let a2 = elo::EloRating { rating: a.rating + f(5, 0.0, 1000.0) };
    mono(e.0, elo::expected_score(&a2, &b).0);
}
fn c14_elo_list() {
    let n = param(0);
    let a = elo_r(0);
    let ops: Vec<_> = (0..n as u32).map(|j| elo_r(100 + 10 * j)).collect();
    list(&elo::expected_score_rating_period(&a, &ops), n, |i| elo::expected_score(&a, &ops[i]).0);
}
fn c14_fifa() {
    let (a, b) = (fifa_r(0), fifa_r(10));
    let e = fifa::expected_score(&a, &b);
    both(e, fifa::expected_score(&b, &a));
    unit(e);
    fav(a.rating, b.rating, e);
    let a2 = fifa::FifaRating { rating: a.rating + f(5, 0.0, 1000.0) };
    mono(e.0, fifa::expected_score(&a2, &b).0);
}
fn c14_fifa_list() {
    let n = param(0);
    let a = fifa_r(0);
    let ops: Vec<_> = (0..n as u32).map(|j| fifa_r(100 + 10 * j)).collect();
    list(&fifa::expected_score_rating_period(&a, &ops), n, |i| fifa::expected_score(&a, &ops[i]).0);
}
fn c14_dwz() {
    let (a, b) = (dwz_r(0), dwz_r(10));
    let e = dwz::expected_score(&a, &b);
    both(e, dwz::expected_score(&b, &a));
    unit(e);
    fav(a.rating, b.rating, e);
    let a2 = dwz::DWZRating { rating: a.rating + f(5, 0.0, 1000.0), ..a };
    mono(e.0, dwz::expected_score(&a2, &b).0);
}
fn c14_dwz_list() {
    let n = param(0);
    let a = dwz_r(0);
    let ops: Vec<_> = (0..n as u32).map(|j| dwz_r(100 + 10 * j)).collect();
    list(&dwz::expected_score_rating_period(&a, &ops), n, |i| dwz::expected_score(&a, &ops[i]).0);
}
fn c14_uscf() {
    let (a, b) = (uscf_r(0), uscf_r(10));
    let e = uscf::expected_score(&a, &b);
    both(e, uscf::expected_score(&b, &a));
    unit(e);
    fav(a.rating, b.rating, e);
    let a2 = uscf::USCFRating { rating: a.rating + f(5, 0.0, 1000.0), ..a };
    mono(e.0, uscf::expected_score(&a2, &b).0);
}
fn c14_uscf_list() {
    let n = param(0);
    let a = uscf_r(0);
    let ops: Vec<_> = (0..n as u32).map(|j| uscf_r(100 + 10 * j)).collect();
    list(&uscf::expected_score_rating_period(&a, &ops), n, |i| uscf::expected_score(&a, &ops[i]).0);
}
/// Ingo: the lower rating is the stronger one, and the scale is linear (not limited to [0,1])
fn c14_ingo() {
    let (a, b) = (ingo_r(0), ingo_r(10));
    let e = ingo::expected_score(&a, &b);
    both(e, ingo::expected_score(&b, &a));
    fav(b.rating, a.rating, e);
    let a2 = ingo::IngoRating { rating: a.rating - f(5, 0.0, 1000.0), ..a };
    mono(e.0, ingo::expected_score(&a2, &b).0);
}
fn c14_ingo_list() {
    let n = param(0);
    let a = ingo_r(0);
    let ops: Vec<_> = (0..n as u32).map(|j| ingo_r(100 + 10 * j)).collect();
    list(&ingo::expected_score_rating_period(&a, &ops), n, |i| ingo::expected_score(&a, &ops[i]).0);
}
fn c14_egf() {
    let (a, b) = (egf_r(0), egf_r(10));
    let even = egf::EGFConfig { handicap: 0.0 };
    let e = egf::expected_score(&a, &b, &even);
    both(e, egf::expected_score(&b, &a, &even));
    unit(e);
    fav(a.rating, b.rating, e);
    // a handicap is the other player's negative handicap, and only ever helps who has it
    let c = egf_c(20);
    assume(c.handicap != 0.0);
    let back = egf::EGFConfig { handicap: -c.handicap };
    assume(a.rating + 900.0 <= 3200.0 && b.rating + 900.0 <= 3200.0);
    let h = egf::expected_score(&a, &b, &c);
    close(20, h.0 + h.1, 1.0);
    close(21, h.0, egf::expected_score(&b, &a, &back).1);
    le(22, 0.0, h.0); le(22, h.0, 1.0);
}
fn c14_egf_list() {
    let n = param(0);
    let a = egf_r(0);
    let ops: Vec<_> = (0..n as u32).map(|j| (egf_r(100 + 10 * j), egf_c(105 + 10 * j))).collect();
    for o in &ops { assume(o.1.handicap.abs() * 100.0 + 50.0 + a.rating <= 3250.0 && o.1.handicap.abs() * 100.0 + 50.0 + o.0.rating <= 3250.0); }
    list(&egf::expected_score_rating_period(&a, &ops), n, |i| egf::expected_score(&a, &ops[i].0, &ops[i].1).0);
}
fn c14_glicko() {
    let (a, b) = (gl_r(0), gl_r(10));
    let e = glicko::expected_score(&a, &b);
    both(e, glicko::expected_score(&b, &a));
    unit(e);
    fav(a.rating, b.rating, e);
    let a2 = glicko::GlickoRating { rating: a.rating + f(5, 0.0, 1000.0), ..a };
    mono(e.0, glicko::expected_score(&a2, &b).0);
}
fn c14_glicko_list() {
    let n = param(0);
    let a = gl_r(0);
    let ops: Vec<_> = (0..n as u32).map(|j| gl_r(100 + 10 * j)).collect();
    list(&glicko::expected_score_rating_period(&a, &ops), n, |i| glicko::expected_score(&a, &ops[i]).0);
}
fn c14_glicko2() {
    let (a, b) = (g2_r(0), g2_r(10));
    let e = glicko2::expected_score(&a, &b);
    both(e, glicko2::expected_score(&b, &a));
    unit(e);
    fav(a.rating, b.rating, e);
    let a2 = glicko2::Glicko2Rating { rating: a.rating + f(5, 0.0, 1000.0), ..a };
    mono(e.0, glicko2::expected_score(&a2, &b).0);
}
fn c14_glicko2_list() {
    let n = param(0);
    let a = g2_r(0);
    let ops: Vec<_> = (0..n as u32).map(|j| g2_r(100 + 10 * j)).collect();
    list(&glicko2::expected_score_rating_period(&a, &ops), n, |i| glicko2::expected_score(&a, &ops[i]).0);
}
/// player one has the white pieces: eta (gamma) is their advantage, the second player's view is the complement
fn c14_boost() {
    let (a, b, c) = (gb_r(0), gb_r(10), gb_c(20));
    let e = glicko_boost::expected_score(&a, &b, &c);
    close(1, e.0 + e.1, 1.0);
    unit(e);
    fav(a.rating + c.eta, b.rating, e);
    let a2 = glicko_boost::GlickoBoostRating { rating: a.rating + f(5, 0.0, 1000.0), ..a };
    mono(e.0, glicko_boost::expected_score(&a2, &b, &c).0);
}
fn c14_boost_list() {
    let n = param(0);
    let (a, c) = (gb_r(0), gb_c(20));
    let ops: Vec<_> = (0..n as u32).map(|j| (gb_r(100 + 10 * j), true)).collect();
    list(&glicko_boost::expected_score_rating_period(&a, &ops, &c), n, |i| glicko_boost::expected_score(&a, &ops[i].0, &c).0);
}
fn c14_sticko() {
    let (a, b, c) = (st_r(0), st_r(10), st_c(20));
    let e = sticko::expected_score(&a, &b, &c);
    close(1, e.0 + e.1, 1.0);
    unit(e);
    fav(a.rating + c.gamma, b.rating, e);
    let a2 = sticko::StickoRating { rating: a.rating + f(5, 0.0, 1000.0), ..a };
    mono(e.0, sticko::expected_score(&a2, &b, &c).0);
}
fn c14_sticko_list() {
    let n = param(0);
    let (a, c) = (st_r(0), st_c(20));
    let ops: Vec<_> = (0..n as u32).map(|j| (st_r(100 + 10 * j), flag(105 + 10 * j))).collect();
    list(&sticko::expected_score_rating_period(&a, &ops, &c), n, |i| {
        let w = sticko::expected_score(&a, &ops[i].0, &c).0;
        let bl = sticko::expected_score(&ops[i].0, &a, &c).1;
        if ops[i].1 { w } else { bl }
    });
}
fn c14_weng() {
    let (a, b, c) = (wl_r(0), wl_r(10), wl_c(20));
    let e = weng_lin::expected_score(&a, &b, &c);
    both(e, weng_lin::expected_score(&b, &a, &c));
    unit(e);
    fav(a.rating, b.rating, e);
    let a2 = weng_lin::WengLinRating { rating: a.rating + f(5, 0.0, 100.0), ..a };
    mono(e.0, weng_lin::expected_score(&a2, &b, &c).0);
}
fn c14_weng_list() {
    let n = param(0);
    let (a, c) = (wl_r(0), wl_c(20));
    let ops: Vec<_> = (0..n as u32).map(|j| wl_r(100 + 10 * j)).collect();
    list(&weng_lin::expected_score_rating_period(&a, &ops, &c), n, |i| weng_lin::expected_score(&a, &ops[i], &c).0);
}
fn c14_weng_teams() {
    let (n, m, c) = (param(0), param(1), wl_c(20));
    let (a, b) = (wl_team(100, n), wl_team(200, m));
    let e = weng_lin::expected_score_two_teams(&a, &b, &c);
    both(e, weng_lin::expected_score_two_teams(&b, &a, &c));
    unit(e);
    let (mut x, mut y) = (0.0, 0.0);
    for p in &a { x += p.rating; }
    for p in &b { y += p.rating; }
    fav(x, y, e);
}
fn c14_weng_multi() {
    let (sh, c) = (shape(param(0)), wl_c(20));
    let ts: Vec<Vec<_>> = sh.iter().enumerate().map(|(i, &k)| wl_team(100 * (i as u32 + 1), k)).collect();
    let rf: Vec<&[_]> = ts.iter().map(|t| &t[..]).collect();
    multi(&weng_lin::expected_score_multi_team(&rf, &c), sh.len());
}
fn c14_ts() {
    let (a, b, c) = (ts_r(0), ts_r(10), ts_c(20, 1));
    let e = trueskill::expected_score(&a, &b, &c);
    approx(a.rating, b.rating, e, trueskill::expected_score(&b, &a, &c));
    let even = trueskill::expected_score(&a, &trueskill::TrueSkillRating { rating: a.rating, ..b }, &c);
    le(9, 0.5 - 1e-6, even.0);
    le(9, even.0, 0.5 + 1e-6);
}
fn c14_ts_list() {
    let n = param(0);
    let (a, c) = (ts_r(0), ts_c(20, 1));
    let ops: Vec<_> = (0..n as u32).map(|j| ts_r(100 + 10 * j)).collect();
    list(&trueskill::expected_score_rating_period(&a, &ops, &c), n, |i| trueskill::expected_score(&a, &ops[i], &c).0);
}
fn c14_ts_teams() {
    let (n, m, c) = (param(0), param(1), ts_c(20, 1));
    let (a, b) = (ts_team(100, n), ts_team(200, m));
    let e = trueskill::expected_score_two_teams(&a, &b, &c);

    let (mut x, mut y) = (0.0, 0.0);
    for p in &a { x += p.rating; }
    for p in &b { y += p.rating; }
    approx(x, y, e, trueskill::expected_score_two_teams(&b, &a, &c));
}
fn c14_ts_multi() {
    let (sh, c) = (shape(param(0)), ts_c(20, 1));
    let ts: Vec<Vec<_>> = sh.iter().enumerate().map(|(i, &k)| ts_team(100 * (i as u32 + 1), k)).collect();
    let rf: Vec<&[_]> = ts.iter().map(|t| &t[..]).collect();
    multi(&trueskill::expected_score_multi_team(&rf, &c), sh.len());
}
}
