//! Both points of view agree: exchanging the players (and the outcome) exchanges the results, and what does not
//! belong in a calculation (the opponent's volatility, index, age, number of games) does not change it
use crate::{gen::*, sv::*};
use skillratings::*;

/// results of (a, b, o) and of (b, a, flipped o)
fn swapped(id: u32, x: (f64, f64), y: (f64, f64)) {
    close(id, x.0, y.1);
    close(id + 1, x.1, y.0);
}

harnesses! {
fn c16_elo() {
    let (a, b, o, c) = (elo_r(0), elo_r(10), outcome(9), elo_c(20));
    let (x, y) = (elo::elo(&a, &b, &o, &c), elo::elo(&b, &a, &flip(o), &c));
    swapped(1, (x.0.rating, x.1.rating), (y.0.rating, y.1.rating));
}
fn c16_fifa() {
    let (a, b, o, c) = (fifa_r(0), fifa_r(10), outcome(9), fifa_c(20));
    let (x, y) = (fifa::fifa(&a, &b, &o, &c), fifa::fifa(&b, &a, &flip(o), &c));
    swapped(1, (x.0.rating, x.1.rating), (y.0.rating, y.1.rating));
}
fn c16_ingo() {
    let (a, b, o) = (ingo_r(0), ingo_r(10), outcome(9));
    let (x, y) = (ingo::ingo(&a, &b, &o), ingo::ingo(&b, &a, &flip(o)));
    swapped(1, (x.0.rating, x.1.rating), (y.0.rating, y.1.rating));
    check(3, x.0.age == y.1.age && x.1.age == y.0.age);
    let b2 = ingo::IngoRating { age: int(40, 0, 130) as usize, ..b };
    close(4, x.0.rating, ingo::ingo(&a, &b2, &o).0.rating);
}
/// a handicap of one player is the negative handicap of the other
fn c16_egf() {
    let (a, b, o, c) = (egf_r(0), egf_r(10), outcome(9), egf_c(20));
    let d = egf::EGFConfig { handicap: -c.handicap };
    assume(c.handicap.abs() * 100.0 + 50.0 + a.rating <= 3250.0 && c.handicap.abs() * 100.0 + 50.0 + b.rating <= 3250.0);
    let (x, y) = (egf::egf(&a, &b, &o, &c), egf::egf(&b, &a, &flip(o), &d));
    swapped(1, (x.0.rating, x.1.rating), (y.0.rating, y.1.rating));
}
fn c16_dwz() {
    let (a, b, o) = (dwz_r(0), dwz_r(10), outcome(9));
    let (x, y) = (dwz::dwz(&a, &b, &o), dwz::dwz(&b, &a, &flip(o)));
    swapped(1, (x.0.rating, x.1.rating), (y.0.rating, y.1.rating));
    check(3, x.0.age == y.1.age && x.1.age == y.0.age && x.0.index == y.1.index && x.1.index == y.0.index);
}
fn c16_dwz_opponent() {
    let (a, b, o) = (dwz_r(0), dwz_r(10), outcome(9));
    let b2 = dwz::DWZRating { age: int(40, 0, 130) as usize, index: int(41, 1, 200) as usize, ..b };
    close(4, dwz::dwz_rating_period(&a, &[(b, o)]).rating, dwz::dwz_rating_period(&a, &[(b2, o)]).rating);
}
fn c16_uscf() {
    let (a, b, o, c) = (uscf_r(0), uscf_r(10), outcome(9), uscf_c(20));
    let (x, y) = (uscf::uscf(&a, &b, &o, &c), uscf::uscf(&b, &a, &flip(o), &c));
    swapped(1, (x.0.rating, x.1.rating), (y.0.rating, y.1.rating));
    check(3, x.0.games == y.1.games && x.1.games == y.0.games);
}
fn c16_uscf_opponent() {
    let (a, b, o, c) = (uscf_r(0), uscf_r(10), outcome(9), uscf_c(20));
    let b2 = uscf::USCFRating { games: int(40, 0, 5000) as usize, ..b };
    close(4, uscf::uscf(&a, &b, &o, &c).0.rating, uscf::uscf(&a, &b2, &o, &c).0.rating);
    close(5, uscf::uscf(&b, &a, &o, &c).1.rating, uscf::uscf(&b2, &a, &o, &c).1.rating);
}
fn c16_glicko() {
    let (a, b, o, c) = (gl_r(0), gl_r(10), outcome(9), gl_c(20));
    let (x, y) = (glicko::glicko(&a, &b, &o, &c), glicko::glicko(&b, &a, &flip(o), &c));
    swapped(1, (x.0.rating, x.1.rating), (y.0.rating, y.1.rating));
    swapped(3, (x.0.deviation, x.1.deviation), (y.0.deviation, y.1.deviation));
}
fn c16_glicko2() {
    let (a, b, o, c) = (g2_r(0), g2_r(10), [Outcomes::WIN, Outcomes::DRAW, Outcomes::LOSS][param(0)], g2_c(20));
    let (x, y) = (glicko2::glicko2(&a, &b, &o, &c), glicko2::glicko2(&b, &a, &flip(o), &c));
    swapped(1, (x.0.rating, x.1.rating), (y.0.rating, y.1.rating));
    swapped(3, (x.0.deviation, x.1.deviation), (y.0.deviation, y.1.deviation));
    swapped(5, (x.0.volatility, x.1.volatility), (y.0.volatility, y.1.volatility));
}
fn c16_glicko2_opponent() {
    let (a, b, o, c) = (g2_r(0), g2_r(10), [Outcomes::WIN, Outcomes::DRAW, Outcomes::LOSS][param(0)], g2_c(20));
    let b2 = glicko2::Glicko2Rating { volatility: f(40, 0.01, 0.5), ..b };
    let (x, y) = (glicko2::glicko2_rating_period(&a, &[(b, o)], &c), glicko2::glicko2_rating_period(&a, &[(b2, o)], &c));
    close(1, x.rating, y.rating);
    close(2, x.deviation, y.deviation);
    close(3, x.volatility, y.volatility);
}
/// without an advantage for white the colours do not matter; with one, the black player's game is the same in the period function
fn c16_boost() {
    let (a, b, o) = (gb_r(0), gb_r(10), outcome_fork(9));
    let c = glicko_boost::GlickoBoostConfig { eta: 0.0, ..gb_c(20) };
    let (x, y) = (glicko_boost::glicko_boost(&a, &b, &o, &c), glicko_boost::glicko_boost(&b, &a, &flip(o), &c));
    swapped(1, (x.0.rating, x.1.rating), (y.0.rating, y.1.rating));
    swapped(3, (x.0.deviation, x.1.deviation), (y.0.deviation, y.1.deviation));
}
fn c16_sticko() {
    let (a, b, o) = (st_r(0), st_r(10), outcome(9));
    let c = sticko::StickoConfig { gamma: 0.0, ..st_c(20) };
    let (x, y) = (sticko::sticko(&a, &b, &o, &c), sticko::sticko(&b, &a, &flip(o), &c));
    swapped(1, (x.0.rating, x.1.rating), (y.0.rating, y.1.rating));
    swapped(3, (x.0.deviation, x.1.deviation), (y.0.deviation, y.1.deviation));
}
/// an advantage is the other player's disadvantage
fn c16_sticko_colour() {
    let (a, b, o, c) = (st_r(0), st_r(10), outcome(9), st_c(20));
    let d = sticko::StickoConfig { gamma: -c.gamma, ..c };
    let (x, y) = (sticko::sticko(&a, &b, &o, &c), sticko::sticko(&b, &a, &flip(o), &d));
    swapped(1, (x.0.rating, x.1.rating), (y.0.rating, y.1.rating));
    swapped(3, (x.0.deviation, x.1.deviation), (y.0.deviation, y.1.deviation));
}
fn c16_boost_colour() {
    let (a, b, o, c) = (gb_r(0), gb_r(10), outcome_fork(9), gb_c(20));
    let d = glicko_boost::GlickoBoostConfig { eta: -c.eta, ..c };
    let (x, y) = (glicko_boost::glicko_boost(&a, &b, &o, &c), glicko_boost::glicko_boost(&b, &a, &flip(o), &d));
    swapped(1, (x.0.rating, x.1.rating), (y.0.rating, y.1.rating));
    swapped(3, (x.0.deviation, x.1.deviation), (y.0.deviation, y.1.deviation));
}
fn c16_weng() {
    let (a, b, o, c) = (wl_r(0), wl_r(10), outcome(9), wl_c(20));
    let (x, y) = (weng_lin::weng_lin(&a, &b, &o, &c), weng_lin::weng_lin(&b, &a, &flip(o), &c));
    swapped(1, (x.0.rating, x.1.rating), (y.0.rating, y.1.rating));
    swapped(3, (x.0.uncertainty, x.1.uncertainty), (y.0.uncertainty, y.1.uncertainty));
}
fn c16_weng_teams() {
    let (n, m, o, c) = (param(0), param(1), outcome(9), wl_c(20));
    let (a, b) = (wl_team(100, n), wl_team(200, m));
    let (x, y) = (weng_lin::weng_lin_two_teams(&a, &b, &o, &c), weng_lin::weng_lin_two_teams(&b, &a, &flip(o), &c));
    check(5, x.0.len() == n && y.1.len() == n && x.1.len() == m && y.0.len() == m);
    for i in 0..n { close(1, x.0[i].rating, y.1[i].rating); close(3, x.0[i].uncertainty, y.1[i].uncertainty); }
    for i in 0..m { close(2, x.1[i].rating, y.0[i].rating); close(4, x.1[i].uncertainty, y.0[i].uncertainty); }
}
fn c16_ts() {
    let (a, b, o, c) = (ts_r(0), ts_r(10), outcome_fork(9), ts_c(20, 1));
    assume(if param(0) == 0 { a.rating > b.rating } else { a.rating < b.rating });
    let (x, y) = (trueskill::trueskill(&a, &b, &o, &c), trueskill::trueskill(&b, &a, &flip(o), &c));
    swapped(1, (x.0.rating, x.1.rating), (y.0.rating, y.1.rating));
    swapped(3, (x.0.uncertainty, x.1.uncertainty), (y.0.uncertainty, y.1.uncertainty));
}
fn c16_ts_teams() {
    let (n, m, o, c) = (param(0), param(1), outcome_fork(9), ts_c(20, 1));
    let (a, b) = (ts_team(100, n), ts_team(200, m));
    let (mut p, mut q) = (0.0, 0.0);
    for x in &a { p += x.rating; }
    for x in &b { q += x.rating; }
    assume(if param(2) == 0 { p > q } else { p < q });
    let (x, y) = (trueskill::trueskill_two_teams(&a, &b, &o, &c), trueskill::trueskill_two_teams(&b, &a, &flip(o), &c));
    check(5, x.0.len() == n && y.1.len() == n && x.1.len() == m && y.0.len() == m);
    for i in 0..n { close(1, x.0[i].rating, y.1[i].rating); close(3, x.0[i].uncertainty, y.1[i].uncertainty); }
    for i in 0..m { close(2, x.1[i].rating, y.0[i].rating); close(4, x.1[i].uncertainty, y.0[i].uncertainty); }
}
/// match quality and expected scores do not depend on who is named first
fn c16_ts_quality() {
    let (n, m, c) = (param(0), param(1), ts_c(20, 1));
    let (a, b) = (ts_team(100, n), ts_team(200, m));
    close(1, trueskill::match_quality_two_teams(&a, &b, &c), trueskill::match_quality_two_teams(&b, &a, &c));
    if n == 1 && m == 1 { close(2, trueskill::match_quality(&a[0], &b[0], &c), trueskill::match_quality(&b[0], &a[0], &c)); }
}
}
