//! The trait interface gives what the functions give
use crate::{gen::*, sv::*};
use skillratings::*;

const OUT: [Outcomes; 3] = [Outcomes::WIN, Outcomes::DRAW, Outcomes::LOSS];

harnesses! {
fn c19_elo() {
    let (a, b, o) = (elo_r(0), elo_r(10), outcome(9));
    let c = elo_c(20);
    let s = <elo::Elo as RatingSystem>::new(c);
    let (x, y) = (RatingSystem::rate(&s, &a, &b, &o), elo::elo(&a, &b, &o, &c));
    close(1, x.0.rating, y.0.rating); close(5, x.1.rating, y.1.rating);
}
fn c19_elo_expected() {
    let (a, b) = (elo_r(0), elo_r(10));
    let c = elo_c(20);
    let s = <elo::Elo as RatingSystem>::new(c);
    let (x, y) = (RatingSystem::expected_score(&s, &a, &b), elo::expected_score(&a, &b));
    close(9, x.0, y.0); close(10, x.1, y.1);
}
fn c19_elo_period() {
    let (n, a) = (param(0), elo_r(0));
    let c = elo_c(20);
    let v: Vec<_> = (0..n as u32).map(|j| (elo_r(100 + 10 * j), outcome(109 + 10 * j))).collect();
    let s = <elo::Elo as RatingPeriodSystem>::new(c);
    let (x, y) = (RatingPeriodSystem::rate(&s, &a, &v), elo::elo_rating_period(&a, &v, &c));
    close(1, x.rating, y.rating);
}
fn c19_elo_list() {
    let (n, a) = (param(0), elo_r(0));
    let c = elo_c(20);
    let v: Vec<_> = (0..n as u32).map(|j| elo_r(100 + 10 * j)).collect();
    let s = <elo::Elo as RatingPeriodSystem>::new(c);
    let (x, y) = (RatingPeriodSystem::expected_score(&s, &a, &v), elo::expected_score_rating_period(&a, &v));
    check(1, x.len() == n && y.len() == n);
    for i in 0..n { close(2, x[i], y[i]); }
}
fn c19_fifa() {
    let (a, b, o) = (fifa_r(0), fifa_r(10), outcome(9));
    let c = fifa_cf(20);
    let s = <fifa::Fifa as RatingSystem>::new(c);
    let (x, y) = (RatingSystem::rate(&s, &a, &b, &o), fifa::fifa(&a, &b, &o, &c));
    close(1, x.0.rating, y.0.rating); close(5, x.1.rating, y.1.rating);
}
fn c19_fifa_expected() {
    let (a, b) = (fifa_r(0), fifa_r(10));
    let c = fifa_cf(20);
    let s = <fifa::Fifa as RatingSystem>::new(c);
    let (x, y) = (RatingSystem::expected_score(&s, &a, &b), fifa::expected_score(&a, &b));
    close(9, x.0, y.0); close(10, x.1, y.1);
}
fn c19_fifa_period() {
    let (n, a) = (param(0), fifa_r(0));
    let c = fifa_cf(20);
    let v: Vec<_> = (0..n as u32).map(|j| (fifa_r(100 + 10 * j), outcome_fork(109 + 10 * j))).collect();
    let s = <fifa::Fifa as RatingPeriodSystem>::new(c);
    let w: Vec<_> = v.iter().map(|q| (q.0, q.1, c)).collect();
    let (x, y) = (RatingPeriodSystem::rate(&s, &a, &v), fifa::fifa_rating_period(&a, &w));
    close(1, x.rating, y.rating);
}
fn c19_fifa_list() {
    let (n, a) = (param(0), fifa_r(0));
    let c = fifa_cf(20);
    let v: Vec<_> = (0..n as u32).map(|j| fifa_r(100 + 10 * j)).collect();
    let s = <fifa::Fifa as RatingPeriodSystem>::new(c);
    let (x, y) = (RatingPeriodSystem::expected_score(&s, &a, &v), fifa::expected_score_rating_period(&a, &v));
    check(1, x.len() == n && y.len() == n);
    for i in 0..n { close(2, x[i], y[i]); }
}
fn c19_ingo() {
    let (a, b, o) = (ingo_r(0), ingo_r(10), outcome(9));
    let s = <ingo::Ingo as RatingSystem>::new(());
    let (x, y) = (RatingSystem::rate(&s, &a, &b, &o), ingo::ingo(&a, &b, &o));
    close(1, x.0.rating, y.0.rating); close(5, x.1.rating, y.1.rating);
    check(2, x.0.age == y.0.age); check(6, x.1.age == y.1.age);
}
fn c19_ingo_expected() {
    let (a, b) = (ingo_r(0), ingo_r(10));
    let s = <ingo::Ingo as RatingSystem>::new(());
    let (x, y) = (RatingSystem::expected_score(&s, &a, &b), ingo::expected_score(&a, &b));
    close(9, x.0, y.0); close(10, x.1, y.1);
}
fn c19_ingo_period() {
    let (n, a) = (param(0), ingo_r(0));
    let v: Vec<_> = (0..n as u32).map(|j| (ingo_r(100 + 10 * j), outcome(109 + 10 * j))).collect();
    let s = <ingo::Ingo as RatingPeriodSystem>::new(());
    let (x, y) = (RatingPeriodSystem::rate(&s, &a, &v), ingo::ingo_rating_period(&a, &v));
    close(1, x.rating, y.rating);
    check(2, x.age == y.age);
}
fn c19_ingo_list() {
    let (n, a) = (param(0), ingo_r(0));
    let v: Vec<_> = (0..n as u32).map(|j| ingo_r(100 + 10 * j)).collect();
    let s = <ingo::Ingo as RatingPeriodSystem>::new(());
    let (x, y) = (RatingPeriodSystem::expected_score(&s, &a, &v), ingo::expected_score_rating_period(&a, &v));
    check(1, x.len() == n && y.len() == n);
    for i in 0..n { close(2, x[i], y[i]); }
}
fn c19_egf() {
    let (a, b, o) = (egf_r(0), egf_r(10), outcome(9));
    let c = egf_c(20);
    assume(c.handicap.abs() * 100.0 + 50.0 + a.rating <= 3250.0 && c.handicap.abs() * 100.0 + 50.0 + b.rating <= 3250.0);
    let s = <egf::EGF as RatingSystem>::new(c);
    let (x, y) = (RatingSystem::rate(&s, &a, &b, &o), egf::egf(&a, &b, &o, &c));
    close(1, x.0.rating, y.0.rating); close(5, x.1.rating, y.1.rating);
}
fn c19_egf_expected() {
    let (a, b) = (egf_r(0), egf_r(10));
    let c = egf_c(20);
    assume(c.handicap.abs() * 100.0 + 50.0 + a.rating <= 3250.0 && c.handicap.abs() * 100.0 + 50.0 + b.rating <= 3250.0);
    let s = <egf::EGF as RatingSystem>::new(c);
    let (x, y) = (RatingSystem::expected_score(&s, &a, &b), egf::expected_score(&a, &b, &c));
    close(9, x.0, y.0); close(10, x.1, y.1);
}
fn c19_egf_period() {
    let (n, a) = (param(0), egf_r(0));
    let c = egf_c(20);
    let v: Vec<_> = (0..n as u32).map(|j| (egf_r(100 + 10 * j), outcome(109 + 10 * j))).collect();
    for q in &v { assume(c.handicap.abs() * 100.0 + 50.0 + a.rating <= 3250.0 && c.handicap.abs() * 100.0 + 50.0 + q.0.rating <= 3250.0); }
    let s = <egf::EGF as RatingPeriodSystem>::new(c);
    let w: Vec<_> = v.iter().map(|q| (q.0, q.1, c)).collect();
    let (x, y) = (RatingPeriodSystem::rate(&s, &a, &v), egf::egf_rating_period(&a, &w));
    close(1, x.rating, y.rating);
}
fn c19_egf_list() {
    let (n, a) = (param(0), egf_r(0));
    let c = egf_c(20);
    let v: Vec<_> = (0..n as u32).map(|j| egf_r(100 + 10 * j)).collect();
    for q in &v { assume(c.handicap.abs() * 100.0 + 50.0 + a.rating <= 3250.0 && c.handicap.abs() * 100.0 + 50.0 + q.rating <= 3250.0); }
    let s = <egf::EGF as RatingPeriodSystem>::new(c);
    let w: Vec<_> = v.iter().map(|q| (*q, c)).collect();
    let (x, y) = (RatingPeriodSystem::expected_score(&s, &a, &v), egf::expected_score_rating_period(&a, &w));
    check(1, x.len() == n && y.len() == n);
    for i in 0..n { close(2, x[i], y[i]); }
}
fn c19_dwz() {
    let (a, b, o) = (dwz_r(0), dwz_r(10), outcome(9));
    let s = <dwz::DWZ as RatingSystem>::new(());
    let (x, y) = (RatingSystem::rate(&s, &a, &b, &o), dwz::dwz(&a, &b, &o));
    close(1, x.0.rating, y.0.rating); close(5, x.1.rating, y.1.rating);
    check(2, x.0.age == y.0.age); check(6, x.1.age == y.1.age);
    check(3, x.0.index == y.0.index); check(7, x.1.index == y.1.index);
}
fn c19_dwz_expected() {
    let (a, b) = (dwz_r(0), dwz_r(10));
    let s = <dwz::DWZ as RatingSystem>::new(());
    let (x, y) = (RatingSystem::expected_score(&s, &a, &b), dwz::expected_score(&a, &b));
    close(9, x.0, y.0); close(10, x.1, y.1);
}
fn c19_dwz_period() {
    let (n, a) = (param(0), dwz_r(0));
    let v: Vec<_> = (0..n as u32).map(|j| (dwz_r(100 + 10 * j), outcome(109 + 10 * j))).collect();
    let s = <dwz::DWZ as RatingPeriodSystem>::new(());
    let (x, y) = (RatingPeriodSystem::rate(&s, &a, &v), dwz::dwz_rating_period(&a, &v));
    close(1, x.rating, y.rating);
    check(2, x.age == y.age);
    check(3, x.index == y.index);
}
fn c19_dwz_list() {
    let (n, a) = (param(0), dwz_r(0));
    let v: Vec<_> = (0..n as u32).map(|j| dwz_r(100 + 10 * j)).collect();
    let s = <dwz::DWZ as RatingPeriodSystem>::new(());
    let (x, y) = (RatingPeriodSystem::expected_score(&s, &a, &v), dwz::expected_score_rating_period(&a, &v));
    check(1, x.len() == n && y.len() == n);
    for i in 0..n { close(2, x[i], y[i]); }
}
fn c19_uscf() {
    let (a, b, o) = (uscf_r(0), uscf_r(10), outcome(9));
    let c = uscf_c(20);
    let s = <uscf::USCF as RatingSystem>::new(c);
    let (x, y) = (RatingSystem::rate(&s, &a, &b, &o), uscf::uscf(&a, &b, &o, &c));
    close(1, x.0.rating, y.0.rating); close(5, x.1.rating, y.1.rating);
    check(2, x.0.games == y.0.games); check(6, x.1.games == y.1.games);
}
fn c19_uscf_expected() {
    let (a, b) = (uscf_r(0), uscf_r(10));
    let c = uscf_c(20);
    let s = <uscf::USCF as RatingSystem>::new(c);
    let (x, y) = (RatingSystem::expected_score(&s, &a, &b), uscf::expected_score(&a, &b));
    close(9, x.0, y.0); close(10, x.1, y.1);
}
fn c19_uscf_period() {
    let (n, a) = (param(0), uscf_r(0));
    let c = uscf_c(20);
    let v: Vec<_> = (0..n as u32).map(|j| (uscf_r(100 + 10 * j), outcome(109 + 10 * j))).collect();
    let s = <uscf::USCF as RatingPeriodSystem>::new(c);
    let (x, y) = (RatingPeriodSystem::rate(&s, &a, &v), uscf::uscf_rating_period(&a, &v, &c));
    close(1, x.rating, y.rating);
    check(2, x.games == y.games);
}
fn c19_uscf_list() {
    let (n, a) = (param(0), uscf_r(0));
    let c = uscf_c(20);
    let v: Vec<_> = (0..n as u32).map(|j| uscf_r(100 + 10 * j)).collect();
    let s = <uscf::USCF as RatingPeriodSystem>::new(c);
    let (x, y) = (RatingPeriodSystem::expected_score(&s, &a, &v), uscf::expected_score_rating_period(&a, &v));
    check(1, x.len() == n && y.len() == n);
    for i in 0..n { close(2, x[i], y[i]); }
}
fn c19_glicko() {
    let (a, b, o) = (gl_r(0), gl_r(10), outcome(9));
    let c = gl_c(20);
    let s = <glicko::Glicko as RatingSystem>::new(c);
    let (x, y) = (RatingSystem::rate(&s, &a, &b, &o), glicko::glicko(&a, &b, &o, &c));
    close(1, x.0.rating, y.0.rating); close(5, x.1.rating, y.1.rating);
    close(2, x.0.deviation, y.0.deviation); close(6, x.1.deviation, y.1.deviation);
}
fn c19_glicko_expected() {
    let (a, b) = (gl_r(0), gl_r(10));
    let c = gl_c(20);
    let s = <glicko::Glicko as RatingSystem>::new(c);
    let (x, y) = (RatingSystem::expected_score(&s, &a, &b), glicko::expected_score(&a, &b));
    close(9, x.0, y.0); close(10, x.1, y.1);
}
fn c19_glicko_period() {
    let (n, a) = (param(0), gl_r(0));
    let c = gl_c(20);
    let v: Vec<_> = (0..n as u32).map(|j| (gl_r(100 + 10 * j), outcome(109 + 10 * j))).collect();
    let s = <glicko::Glicko as RatingPeriodSystem>::new(c);
    let (x, y) = (RatingPeriodSystem::rate(&s, &a, &v), glicko::glicko_rating_period(&a, &v, &c));
    close(1, x.rating, y.rating);
    close(2, x.deviation, y.deviation);
}
fn c19_glicko_list() {
    let (n, a) = (param(0), gl_r(0));
    let c = gl_c(20);
    let v: Vec<_> = (0..n as u32).map(|j| gl_r(100 + 10 * j)).collect();
    let s = <glicko::Glicko as RatingPeriodSystem>::new(c);
    let (x, y) = (RatingPeriodSystem::expected_score(&s, &a, &v), glicko::expected_score_rating_period(&a, &v));
    check(1, x.len() == n && y.len() == n);
    for i in 0..n { close(2, x[i], y[i]); }
}
fn c19_glicko2() {
    let (a, b, o) = (g2_r(0), g2_r(10), OUT[param(0)]);
    let c = g2_c(20);
    let s = <glicko2::Glicko2 as RatingSystem>::new(c);
    let (x, y) = (RatingSystem::rate(&s, &a, &b, &o), glicko2::glicko2(&a, &b, &o, &c));
    close(1, x.0.rating, y.0.rating); close(5, x.1.rating, y.1.rating);
    close(2, x.0.deviation, y.0.deviation); close(6, x.1.deviation, y.1.deviation);
    close(3, x.0.volatility, y.0.volatility); close(7, x.1.volatility, y.1.volatility);
}
fn c19_glicko2_expected() {
    let (a, b) = (g2_r(0), g2_r(10));
    let c = g2_c(20);
    let s = <glicko2::Glicko2 as RatingSystem>::new(c);
    let (x, y) = (RatingSystem::expected_score(&s, &a, &b), glicko2::expected_score(&a, &b));
    close(9, x.0, y.0); close(10, x.1, y.1);
}
fn c19_glicko2_period() {
    let (n, a) = (param(0), g2_r(0));
    let c = g2_c(20);
    let v: Vec<_> = (0..n as u32).map(|j| (g2_r(100 + 10 * j), outcome(109 + 10 * j))).collect();
    let s = <glicko2::Glicko2 as RatingPeriodSystem>::new(c);
    let (x, y) = (RatingPeriodSystem::rate(&s, &a, &v), glicko2::glicko2_rating_period(&a, &v, &c));
    close(1, x.rating, y.rating);
    close(2, x.deviation, y.deviation);
    close(3, x.volatility, y.volatility);
}
fn c19_glicko2_list() {
    let (n, a) = (param(0), g2_r(0));
    let c = g2_c(20);
    let v: Vec<_> = (0..n as u32).map(|j| g2_r(100 + 10 * j)).collect();
    let s = <glicko2::Glicko2 as RatingPeriodSystem>::new(c);
    let (x, y) = (RatingPeriodSystem::expected_score(&s, &a, &v), glicko2::expected_score_rating_period(&a, &v));
    check(1, x.len() == n && y.len() == n);
    for i in 0..n { close(2, x[i], y[i]); }
}
fn c19_boost() {
    let (a, b, o) = (gb_r(0), gb_r(10), outcome(9));
    let c = gb_c(20);
    let s = <glicko_boost::GlickoBoost as RatingSystem>::new(c);
    let (x, y) = (RatingSystem::rate(&s, &a, &b, &o), glicko_boost::glicko_boost(&a, &b, &o, &c));
    close(1, x.0.rating, y.0.rating); close(5, x.1.rating, y.1.rating);
    close(2, x.0.deviation, y.0.deviation); close(6, x.1.deviation, y.1.deviation);
}
fn c19_boost_expected() {
    let (a, b) = (gb_r(0), gb_r(10));
    let c = gb_c(20);
    let s = <glicko_boost::GlickoBoost as RatingSystem>::new(c);
    let (x, y) = (RatingSystem::expected_score(&s, &a, &b), glicko_boost::expected_score(&a, &b, &c));
    close(9, x.0, y.0); close(10, x.1, y.1);
}
fn c19_boost_period() {
    let (n, a) = (param(0), gb_r(0));
    let c = gb_c(20);
    let v: Vec<_> = (0..n as u32).map(|j| (gb_r(100 + 10 * j), outcome(109 + 10 * j))).collect();
    let s = <glicko_boost::GlickoBoost as RatingPeriodSystem>::new(c);
    let w: Vec<_> = v.iter().map(|q| (q.0, q.1, true)).collect();
    let (x, y) = (RatingPeriodSystem::rate(&s, &a, &v), glicko_boost::glicko_boost_rating_period(&a, &w, &c));
    close(1, x.rating, y.rating);
    close(2, x.deviation, y.deviation);
}
fn c19_boost_list() {
    let (n, a) = (param(0), gb_r(0));
    let c = gb_c(20);
    let v: Vec<_> = (0..n as u32).map(|j| gb_r(100 + 10 * j)).collect();
    let s = <glicko_boost::GlickoBoost as RatingPeriodSystem>::new(c);
    let w: Vec<_> = v.iter().map(|q| (*q, true)).collect();
    let (x, y) = (RatingPeriodSystem::expected_score(&s, &a, &v), glicko_boost::expected_score_rating_period(&a, &w, &c));
    check(1, x.len() == n && y.len() == n);
    for i in 0..n { close(2, x[i], y[i]); }
}
fn c19_sticko() {
    let (a, b, o) = (st_r(0), st_r(10), outcome(9));
    let c = st_c(20);
    let s = <sticko::Sticko as RatingSystem>::new(c);
    let (x, y) = (RatingSystem::rate(&s, &a, &b, &o), sticko::sticko(&a, &b, &o, &c));
    close(1, x.0.rating, y.0.rating); close(5, x.1.rating, y.1.rating);
    close(2, x.0.deviation, y.0.deviation); close(6, x.1.deviation, y.1.deviation);
}
fn c19_sticko_expected() {
    let (a, b) = (st_r(0), st_r(10));
    let c = st_c(20);
    let s = <sticko::Sticko as RatingSystem>::new(c);
    let (x, y) = (RatingSystem::expected_score(&s, &a, &b), sticko::expected_score(&a, &b, &c));
    close(9, x.0, y.0); close(10, x.1, y.1);
}
fn c19_sticko_period() {
    let (n, a) = (param(0), st_r(0));
    let c = st_c(20);
    let v: Vec<_> = (0..n as u32).map(|j| (st_r(100 + 10 * j), outcome(109 + 10 * j))).collect();
    let s = <sticko::Sticko as RatingPeriodSystem>::new(c);
    let w: Vec<_> = v.iter().map(|q| (q.0, q.1, true)).collect();
    let (x, y) = (RatingPeriodSystem::rate(&s, &a, &v), sticko::sticko_rating_period(&a, &w, &c));
    close(1, x.rating, y.rating);
    close(2, x.deviation, y.deviation);
}
fn c19_sticko_list() {
    let (n, a) = (param(0), st_r(0));
    let c = st_c(20);
    let v: Vec<_> = (0..n as u32).map(|j| st_r(100 + 10 * j)).collect();
    let s = <sticko::Sticko as RatingPeriodSystem>::new(c);
    let w: Vec<_> = v.iter().map(|q| (*q, true)).collect();
    let (x, y) = (RatingPeriodSystem::expected_score(&s, &a, &v), sticko::expected_score_rating_period(&a, &w, &c));
    check(1, x.len() == n && y.len() == n);
    for i in 0..n { close(2, x[i], y[i]); }
}
fn c19_weng() {
    let (a, b, o) = (wl_r(0), wl_r(10), outcome(9));
    let c = wl_c(20);
    let s = <weng_lin::WengLin as RatingSystem>::new(c);
    let (x, y) = (RatingSystem::rate(&s, &a, &b, &o), weng_lin::weng_lin(&a, &b, &o, &c));
    close(1, x.0.rating, y.0.rating); close(5, x.1.rating, y.1.rating);
    close(2, x.0.uncertainty, y.0.uncertainty); close(6, x.1.uncertainty, y.1.uncertainty);
}
fn c19_weng_expected() {
    let (a, b) = (wl_r(0), wl_r(10));
    let c = wl_c(20);
    let s = <weng_lin::WengLin as RatingSystem>::new(c);
    let (x, y) = (RatingSystem::expected_score(&s, &a, &b), weng_lin::expected_score(&a, &b, &c));
    close(9, x.0, y.0); close(10, x.1, y.1);
}
fn c19_weng_period() {
    let (n, a) = (param(0), wl_r(0));
    let c = wl_c(20);
    let v: Vec<_> = (0..n as u32).map(|j| (wl_r(100 + 10 * j), outcome(109 + 10 * j))).collect();
    let s = <weng_lin::WengLin as RatingPeriodSystem>::new(c);
    let (x, y) = (RatingPeriodSystem::rate(&s, &a, &v), weng_lin::weng_lin_rating_period(&a, &v, &c));
    close(1, x.rating, y.rating);
    close(2, x.uncertainty, y.uncertainty);
}
fn c19_weng_list() {
    let (n, a) = (param(0), wl_r(0));
    let c = wl_c(20);
    let v: Vec<_> = (0..n as u32).map(|j| wl_r(100 + 10 * j)).collect();
    let s = <weng_lin::WengLin as RatingPeriodSystem>::new(c);
    let (x, y) = (RatingPeriodSystem::expected_score(&s, &a, &v), weng_lin::expected_score_rating_period(&a, &v, &c));
    check(1, x.len() == n && y.len() == n);
    for i in 0..n { close(2, x[i], y[i]); }
}
fn c19_ts() {
    let (a, b, o) = (ts_r(0), ts_r(10), OUT[param(0)]);
    let c = ts_c(20, param(1));
    let s = <trueskill::TrueSkill as RatingSystem>::new(c);
    let (x, y) = (RatingSystem::rate(&s, &a, &b, &o), trueskill::trueskill(&a, &b, &o, &c));
    close(1, x.0.rating, y.0.rating); close(5, x.1.rating, y.1.rating);
    close(2, x.0.uncertainty, y.0.uncertainty); close(6, x.1.uncertainty, y.1.uncertainty);
}
fn c19_ts_expected() {
    let (a, b) = (ts_r(0), ts_r(10));
    let c = ts_c(20, param(1));
    let s = <trueskill::TrueSkill as RatingSystem>::new(c);
    let (x, y) = (RatingSystem::expected_score(&s, &a, &b), trueskill::expected_score(&a, &b, &c));
    close(9, x.0, y.0); close(10, x.1, y.1);
}
fn c19_ts_period() {
    let (n, a) = (param(0), ts_r(0));
    let c = ts_c(20, param(1));
    let v: Vec<_> = (0..n as u32).map(|j| (ts_r(100 + 10 * j), outcome_fork(109 + 10 * j))).collect();
    let s = <trueskill::TrueSkill as RatingPeriodSystem>::new(c);
    let (x, y) = (RatingPeriodSystem::rate(&s, &a, &v), trueskill::trueskill_rating_period(&a, &v, &c));
    close(1, x.rating, y.rating);
    close(2, x.uncertainty, y.uncertainty);
}
fn c19_ts_list() {
    let (n, a) = (param(0), ts_r(0));
    let c = ts_c(20, param(1));
    let v: Vec<_> = (0..n as u32).map(|j| ts_r(100 + 10 * j)).collect();
    let s = <trueskill::TrueSkill as RatingPeriodSystem>::new(c);
    let (x, y) = (RatingPeriodSystem::expected_score(&s, &a, &v), trueskill::expected_score_rating_period(&a, &v, &c));
    check(1, x.len() == n && y.len() == n);
    for i in 0..n { close(2, x[i], y[i]); }
}
fn c19_weng_teams() {
    let (n, m, o, c) = (param(0), param(1), outcome(9), wl_c(20));
    let (a, b) = (wl_team(100, n), wl_team(200, m));
    let s = <weng_lin::WengLin as TeamRatingSystem>::new(c);
    let (x, y) = (TeamRatingSystem::rate(&s, &a, &b, &o), weng_lin::weng_lin_two_teams(&a, &b, &o, &c));
    check(1, x.0.len() == n && y.0.len() == n && x.1.len() == m && y.1.len() == m);
    for i in 0..n { close(2, x.0[i].rating, y.0[i].rating); close(3, x.0[i].uncertainty, y.0[i].uncertainty); }
    for i in 0..m { close(4, x.1[i].rating, y.1[i].rating); close(5, x.1[i].uncertainty, y.1[i].uncertainty); }
    let (x, y) = (TeamRatingSystem::expected_score(&s, &a, &b), weng_lin::expected_score_two_teams(&a, &b, &c));
    if n > 0 && m > 0 { close(6, x.0, y.0); close(7, x.1, y.1); }
}
fn c19_weng_multi_list() {
    let (sh, c) = (shape(param(0)), wl_c(20));
    let ts: Vec<Vec<_>> = sh.iter().enumerate().map(|(i, &k)| wl_team(100 * (i as u32 + 1), k)).collect();
    let rf: Vec<&[_]> = ts.iter().map(|t| &t[..]).collect();
    let s = <weng_lin::WengLin as MultiTeamRatingSystem>::new(c);
    let (x, y) = (MultiTeamRatingSystem::expected_score(&s, &rf), weng_lin::expected_score_multi_team(&rf, &c));
    check(1, x.len() == sh.len() && y.len() == sh.len());
    for i in 0..sh.len() { close(2, x[i], y[i]); }
}
fn c19_ts_teams() {
    let (n, m, o, c) = (param(0), param(1), outcome_fork(9), ts_c(20, 1));
    let (a, b) = (ts_team(100, n), ts_team(200, m));
    let s = <trueskill::TrueSkill as TeamRatingSystem>::new(c);
    let (x, y) = (TeamRatingSystem::rate(&s, &a, &b, &o), trueskill::trueskill_two_teams(&a, &b, &o, &c));
    check(1, x.0.len() == n && y.0.len() == n && x.1.len() == m && y.1.len() == m);
    for i in 0..n { close(2, x.0[i].rating, y.0[i].rating); close(3, x.0[i].uncertainty, y.0[i].uncertainty); }
    for i in 0..m { close(4, x.1[i].rating, y.1[i].rating); close(5, x.1[i].uncertainty, y.1[i].uncertainty); }
    let (x, y) = (TeamRatingSystem::expected_score(&s, &a, &b), trueskill::expected_score_two_teams(&a, &b, &c));
    if n > 0 && m > 0 { close(6, x.0, y.0); close(7, x.1, y.1); }
}
fn c19_ts_multi_list() {
    let (sh, c) = (shape(param(0)), ts_c(20, 1));
    let ts: Vec<Vec<_>> = sh.iter().enumerate().map(|(i, &k)| ts_team(100 * (i as u32 + 1), k)).collect();
    let rf: Vec<&[_]> = ts.iter().map(|t| &t[..]).collect();
    let s = <trueskill::TrueSkill as MultiTeamRatingSystem>::new(c);
    let (x, y) = (MultiTeamRatingSystem::expected_score(&s, &rf), trueskill::expected_score_multi_team(&rf, &c));
    check(1, x.len() == sh.len() && y.len() == sh.len());
    for i in 0..sh.len() { close(2, x[i], y[i]); }
}
fn c19_weng_multi() {
    let (sh, c) = (shape(param(0)), wl_c(20));
    let ts: Vec<Vec<_>> = sh.iter().enumerate().map(|(i, &k)| wl_team(100 * (i as u32 + 1), k)).collect();
    let rf: Vec<(&[_], MultiTeamOutcome)> = ts.iter().enumerate().map(|(i, t)| (&t[..], MultiTeamOutcome::new(pick(i as u32, 1, 2)))).collect();
    let s = <weng_lin::WengLin as MultiTeamRatingSystem>::new(c);
    let (x, y) = (MultiTeamRatingSystem::rate(&s, &rf), weng_lin::weng_lin_multi_team(&rf, &c));
    check(1, x.len() == sh.len() && y.len() == sh.len());
    for i in 0..sh.len() {
        check(2, x[i].len() == sh[i] && y[i].len() == sh[i]);
        for j in 0..sh[i] { close(3, x[i][j].rating, y[i][j].rating); close(4, x[i][j].uncertainty, y[i][j].uncertainty); }
    }
}
}
