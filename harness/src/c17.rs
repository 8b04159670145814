//! Rating periods: one result is a single game, no result changes nothing but what time changes, order within a period
//! does not matter where all games count from the start of the period, and sequential periods can be split anywhere
use crate::{gen::*, sv::*};
use skillratings::*;

/// the list in two other orders: reversed, and rotated
fn orders<T: Clone>(v: &[T]) -> [Vec<T>; 2] {
    let mut r = v.to_vec();
    let mut q = v.to_vec();
    for i in 0..v.len() { r[i] = v[v.len() - 1 - i].clone(); q[i] = v[(i + 1) % v.len()].clone(); }
    [r, q]
}
const OUT: [Outcomes; 3] = [Outcomes::WIN, Outcomes::DRAW, Outcomes::LOSS];

harnesses! {
fn c17_elo() {
    let (a, b, o, c) = (elo_r(0), elo_r(10), outcome(9), elo_c(20));
    let x = elo::elo(&a, &b, &o, &c);
    let p = elo::elo_rating_period(&a, &[(b, o)], &c);
    let q = elo::elo_rating_period(&b, &[(a, flip(o))], &c);
    close(1, x.0.rating, p.rating);
    close(11, x.1.rating, q.rating);
}
fn c17_fifa() {
    let (a, b, o, c) = (fifa_r(0), fifa_r(10), outcome(9), fifa_c(20));
    let x = fifa::fifa(&a, &b, &o, &c);
    close(1, x.0.rating, fifa::fifa_rating_period(&a, &[(b, o, c)]).rating);
    close(11, x.1.rating, fifa::fifa_rating_period(&b, &[(a, flip(o), c)]).rating);
}
fn c17_ingo() {
    let (a, b, o) = (ingo_r(0), ingo_r(10), outcome(9));
    let x = ingo::ingo(&a, &b, &o);
    let (p, q) = (ingo::ingo_rating_period(&a, &[(b, o)]), ingo::ingo_rating_period(&b, &[(a, flip(o))]));
    close(1, x.0.rating, p.rating);
    close(11, x.1.rating, q.rating);
    check(2, x.0.age == p.age && x.1.age == q.age);
}
/// a handicap in a period belongs to the player the period is for
fn c17_egf() {
    let (a, b, o, c) = (egf_r(0), egf_r(10), outcome(9), egf_c(20));
    assume(c.handicap.abs() * 100.0 + 50.0 + a.rating <= 3250.0 && c.handicap.abs() * 100.0 + 50.0 + b.rating <= 3250.0);
    let x = egf::egf(&a, &b, &o, &c);
    close(1, x.0.rating, egf::egf_rating_period(&a, &[(b, o, c)]).rating);
}
fn c17_dwz() {
    let (a, b, o) = (dwz_r(0), dwz_r(10), outcome(9));
    let x = dwz::dwz(&a, &b, &o);
    let p = dwz::dwz_rating_period(&a, &[(b, o)]);
    let q = dwz::dwz_rating_period(&b, &[(a, flip(o))]);
    close(1, x.0.rating, p.rating);
    close(11, x.1.rating, q.rating);
    check(2, x.0.index == p.index);
    check(12, x.1.index == q.index);
    check(3, x.0.age == p.age);
    check(13, x.1.age == q.age);
}
fn c17_uscf() {
    let (a, b, o, c) = (uscf_r(0), uscf_r(10), outcome(9), uscf_c(20));
    let x = uscf::uscf(&a, &b, &o, &c);
    let p = uscf::uscf_rating_period(&a, &[(b, o)], &c);
    let q = uscf::uscf_rating_period(&b, &[(a, flip(o))], &c);
    close(1, x.0.rating, p.rating);
    close(11, x.1.rating, q.rating);
    check(2, x.0.games == p.games);
    check(12, x.1.games == q.games);
}
fn c17_glicko() {
    let (a, b, o, c) = (gl_r(0), gl_r(10), outcome(9), gl_c(20));
    let x = glicko::glicko(&a, &b, &o, &c);
    let p = glicko::glicko_rating_period(&a, &[(b, o)], &c);
    let q = glicko::glicko_rating_period(&b, &[(a, flip(o))], &c);
    close(1, x.0.rating, p.rating);
    close(11, x.1.rating, q.rating);
    close(2, x.0.deviation, p.deviation);
    close(12, x.1.deviation, q.deviation);
}
fn c17_glicko2() {
    let (a, b, o, c) = (g2_r(0), g2_r(10), OUT[param(0)], g2_c(20));
    let x = glicko2::glicko2(&a, &b, &o, &c);
    let p = glicko2::glicko2_rating_period(&a, &[(b, o)], &c);
    let q = glicko2::glicko2_rating_period(&b, &[(a, flip(o))], &c);
    close(1, x.0.rating, p.rating);
    close(11, x.1.rating, q.rating);
    close(2, x.0.deviation, p.deviation);
    close(12, x.1.deviation, q.deviation);
    close(3, x.0.volatility, p.volatility);
    close(13, x.1.volatility, q.volatility);
}
fn c17_boost() {
    let (a, b, o, c) = (gb_r(0), gb_r(10), outcome_fork(9), gb_c(20));
    let x = glicko_boost::glicko_boost(&a, &b, &o, &c);
    let p = glicko_boost::glicko_boost_rating_period(&a, &[(b, o, true)], &c);
    let q = glicko_boost::glicko_boost_rating_period(&b, &[(a, flip(o), false)], &c);
    close(1, x.0.rating, p.rating);
    close(11, x.1.rating, q.rating);
    close(2, x.0.deviation, p.deviation);
    close(12, x.1.deviation, q.deviation);
}
fn c17_sticko() {
    let (a, b, o, c) = (st_r(0), st_r(10), outcome(9), st_c(20));
    let x = sticko::sticko(&a, &b, &o, &c);
    let p = sticko::sticko_rating_period(&a, &[(b, o, true)], &c);
    let q = sticko::sticko_rating_period(&b, &[(a, flip(o), false)], &c);
    close(1, x.0.rating, p.rating);
    close(11, x.1.rating, q.rating);
    close(2, x.0.deviation, p.deviation);
    close(12, x.1.deviation, q.deviation);
}
fn c17_weng() {
    let (a, b, o, c) = (wl_r(0), wl_r(10), outcome(9), wl_c(20));
    let x = weng_lin::weng_lin(&a, &b, &o, &c);
    let p = weng_lin::weng_lin_rating_period(&a, &[(b, o)], &c);
    let q = weng_lin::weng_lin_rating_period(&b, &[(a, flip(o))], &c);
    close(1, x.0.rating, p.rating);
    close(11, x.1.rating, q.rating);
    close(2, x.0.uncertainty, p.uncertainty);
    close(12, x.1.uncertainty, q.uncertainty);
}
fn c17_ts() {
    let (a, b, o, c) = (ts_r(0), ts_r(10), outcome_fork(9), ts_c(20, 1));
    let x = trueskill::trueskill(&a, &b, &o, &c);
    let p = trueskill::trueskill_rating_period(&a, &[(b, o)], &c);
    close(1, x.0.rating, p.rating);
    close(2, x.0.uncertainty, p.uncertainty);
}
fn c17_elo_empty() { let a = elo_r(0); close(1, elo::elo_rating_period(&a, &[], &elo_c(20)).rating, a.rating); }
fn c17_fifa_empty() { let a = fifa_r(0); close(1, fifa::fifa_rating_period(&a, &[]).rating, a.rating); }
fn c17_ingo_empty() { let a = ingo_r(0); let x = ingo::ingo_rating_period(&a, &[]); close(1, x.rating, a.rating); check(2, x.age == a.age); }
fn c17_egf_empty() { let a = egf_r(0); close(1, egf::egf_rating_period(&a, &[]).rating, a.rating); }
fn c17_dwz_empty() { let a = dwz_r(0); let x = dwz::dwz_rating_period(&a, &[]); close(1, x.rating, a.rating); check(2, x.age == a.age); }
fn c17_uscf_empty() { let a = uscf_r(0); let x = uscf::uscf_rating_period(&a, &[], &uscf_c(20)); close(1, x.rating, a.rating); check(2, x.games == a.games); }
fn c17_glicko_empty() {
    let (a, c) = (gl_r(0), gl_c(20));
    let (x, d) = (glicko::glicko_rating_period(&a, &[], &c), glicko::decay_deviation(&a, &c));
    close(1, x.rating, a.rating); close(2, x.deviation, d.deviation); close(3, d.rating, a.rating);
}
fn c17_glicko2_empty() {
    let (a, c) = (g2_r(0), g2_c(20));
    let (x, d) = (glicko2::glicko2_rating_period(&a, &[], &c), glicko2::decay_deviation(&a));
    close(1, x.rating, a.rating); close(2, x.deviation, d.deviation); close(3, d.rating, a.rating); close(4, x.volatility, a.volatility); close(5, d.volatility, a.volatility);
}
fn c17_boost_empty() {
    let (a, c) = (gb_r(0), gb_c(20));
    let (x, d) = (glicko_boost::glicko_boost_rating_period(&a, &[], &c), glicko_boost::decay_deviation(&a, &c));
    close(1, x.rating, a.rating); close(2, x.deviation, d.deviation); close(3, d.rating, a.rating);
}
fn c17_sticko_empty() {
    let (a, c) = (st_r(0), st_c(20));
    let (x, d) = (sticko::sticko_rating_period(&a, &[], &c), sticko::decay_deviation(&a, &c));
    close(1, x.rating, a.rating); close(2, x.deviation, d.deviation); close(3, d.rating, a.rating);
}
fn c17_weng_empty() { let a = wl_r(0); let x = weng_lin::weng_lin_rating_period(&a, &[], &wl_c(20)); close(1, x.rating, a.rating); close(2, x.uncertainty, a.uncertainty); }
fn c17_ts_empty() { let a = ts_r(0); let x = trueskill::trueskill_rating_period(&a, &[], &ts_c(20, 1)); close(1, x.rating, a.rating); close(2, x.uncertainty, a.uncertainty); }
fn c17_ingo_order() {
    let (n, a) = (param(0), ingo_r(0));
    let v: Vec<_> = (0..n as u32).map(|j| (ingo_r(100 + 10 * j), outcome(109 + 10 * j))).collect();
    let x = ingo::ingo_rating_period(&a, &v);
    for w in orders(&v) {
        let y = ingo::ingo_rating_period(&a, &w);
        close(1, x.rating, y.rating);
        check(2, x.age == y.age);
    }
}
fn c17_dwz_order() {
    let (n, a) = (param(0), dwz_r(0));
    let v: Vec<_> = (0..n as u32).map(|j| (dwz_r(100 + 10 * j), outcome(109 + 10 * j))).collect();
    let x = dwz::dwz_rating_period(&a, &v);
    for w in orders(&v) {
        let y = dwz::dwz_rating_period(&a, &w);
        close(1, x.rating, y.rating);
        check(2, x.index == y.index);
        check(3, x.age == y.age);
    }
}
fn c17_uscf_order() {
    let (n, a) = (param(0), uscf_r(0));
    let c = uscf_c(20);
    let v: Vec<_> = (0..n as u32).map(|j| (uscf_r(100 + 10 * j), outcome(109 + 10 * j))).collect();
    let x = uscf::uscf_rating_period(&a, &v, &c);
    for w in orders(&v) {
        let y = uscf::uscf_rating_period(&a, &w, &c);
        close(1, x.rating, y.rating);
        check(2, x.games == y.games);
    }
}
fn c17_glicko_order() {
    let (n, a) = (param(0), gl_r(0));
    let c = gl_c(20);
    let v: Vec<_> = (0..n as u32).map(|j| (gl_r(100 + 10 * j), outcome(109 + 10 * j))).collect();
    let x = glicko::glicko_rating_period(&a, &v, &c);
    for w in orders(&v) {
        let y = glicko::glicko_rating_period(&a, &w, &c);
        close(1, x.rating, y.rating);
        close(2, x.deviation, y.deviation);
    }
}
fn c17_glicko2_order() {
    let (n, a) = (param(0), g2_r(0));
    let c = g2_c(20);
    let v: Vec<_> = (0..n as u32).map(|j| (g2_r(100 + 10 * j), outcome(109 + 10 * j))).collect();
    let x = glicko2::glicko2_rating_period(&a, &v, &c);
    for w in orders(&v) {
        let y = glicko2::glicko2_rating_period(&a, &w, &c);
        close(1, x.rating, y.rating);
        close(2, x.deviation, y.deviation);
        close(3, x.volatility, y.volatility);
    }
}
fn c17_boost_order() {
    let (n, a) = (param(0), gb_r(0));
    let c = gb_c(20);
    let v: Vec<_> = (0..n as u32).map(|j| (gb_r(100 + 10 * j), outcome(109 + 10 * j), flag(108 + 10 * j))).collect();
    let x = glicko_boost::glicko_boost_rating_period(&a, &v, &c);
    for w in orders(&v) {
        let y = glicko_boost::glicko_boost_rating_period(&a, &w, &c);
        close(1, x.rating, y.rating);
        close(2, x.deviation, y.deviation);
    }
}
fn c17_sticko_order() {
    let (n, a) = (param(0), st_r(0));
    let c = st_c(20);
    let v: Vec<_> = (0..n as u32).map(|j| (st_r(100 + 10 * j), outcome(109 + 10 * j), flag(108 + 10 * j))).collect();
    let x = sticko::sticko_rating_period(&a, &v, &c);
    for w in orders(&v) {
        let y = sticko::sticko_rating_period(&a, &w, &c);
        close(1, x.rating, y.rating);
        close(2, x.deviation, y.deviation);
    }
}
/// away from the floor
fn c17_egf_order() {
    let (n, a) = (param(0), egf_r(0));
    assume(a.rating >= -500.0);
    let v: Vec<_> = (0..n as u32).map(|j| (egf_r(100 + 10 * j), outcome(109 + 10 * j), egf_c(101 + 10 * j))).collect();
    for o in &v { assume(o.2.handicap.abs() * 100.0 + 50.0 + a.rating <= 3250.0 && o.2.handicap.abs() * 100.0 + 50.0 + o.0.rating <= 3250.0); }
    let x = egf::egf_rating_period(&a, &v);
    for w in orders(&v) { close(1, x.rating, egf::egf_rating_period(&a, &w).rating); }
}
fn c17_elo_split() {
    let (n, m, a) = (param(0) as u32, param(1) as u32, elo_r(0));
    let c = elo_c(20);
    let g = |j: u32| (elo_r(100 + 10 * j), outcome(109 + 10 * j));
    let (v, w): (Vec<_>, Vec<_>) = ((0..n).map(g).collect(), (n..n + m).map(g).collect());
    let y = elo::elo_rating_period(&a, &v, &c);
    cut(y.rating);
    let y = elo::elo_rating_period(&y, &w, &c);
    let x = elo::elo_rating_period(&a, &(0..n + m).map(g).collect::<Vec<_>>(), &c);
    close(1, x.rating, y.rating);
}
fn c17_fifa_split() {
    let (n, m, a) = (param(0) as u32, param(1) as u32, fifa_r(0));
    let g = |j: u32| (fifa_r(100 + 10 * j), outcome(109 + 10 * j), fifa_c(101 + 10 * j));
    let (v, w): (Vec<_>, Vec<_>) = ((0..n).map(g).collect(), (n..n + m).map(g).collect());
    let y = fifa::fifa_rating_period(&a, &v);
    cut(y.rating);
    let y = fifa::fifa_rating_period(&y, &w);
    let x = fifa::fifa_rating_period(&a, &(0..n + m).map(g).collect::<Vec<_>>());
    close(1, x.rating, y.rating);
}
fn c17_weng_split() {
    let (n, m, a) = (param(0) as u32, param(1) as u32, wl_r(0));
    let c = wl_c(20);
    let g = |j: u32| (wl_r(100 + 10 * j), outcome(109 + 10 * j));
    let (v, w): (Vec<_>, Vec<_>) = ((0..n).map(g).collect(), (n..n + m).map(g).collect());
    let y = weng_lin::weng_lin_rating_period(&a, &v, &c);
    cut(y.rating);
    cut(y.uncertainty);
    let y = weng_lin::weng_lin_rating_period(&y, &w, &c);
    let x = weng_lin::weng_lin_rating_period(&a, &(0..n + m).map(g).collect::<Vec<_>>(), &c);
    close(1, x.rating, y.rating);
    close(2, x.uncertainty, y.uncertainty);
}
fn c17_ts_split() {
    let (n, m, a) = (param(0) as u32, param(1) as u32, ts_r(0));
    let c = ts_c(20, 1);
    let g = |j: u32| (ts_r(100 + 10 * j), outcome_fork(109 + 10 * j));
    let (v, w): (Vec<_>, Vec<_>) = ((0..n).map(g).collect(), (n..n + m).map(g).collect());
    let y = trueskill::trueskill_rating_period(&a, &v, &c);
    cut(y.rating);
    cut(y.uncertainty);
    let y = trueskill::trueskill_rating_period(&y, &w, &c);
    let x = trueskill::trueskill_rating_period(&a, &(0..n + m).map(g).collect::<Vec<_>>(), &c);
    close(1, x.rating, y.rating);
    close(2, x.uncertainty, y.uncertainty);
}
}
