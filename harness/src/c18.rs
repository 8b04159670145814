//! Uncertainties: bounds, what games and inactivity do to them
use crate::{gen::*, sv::*};
use skillratings::*;

fn list<T>(n: usize, g: impl Fn(u32) -> T) -> Vec<T> { (0..n as u32).map(|j| g(100 + 10 * j)).collect() }
/// 0 < d <= 350
fn shrinks(id: u32, x: f64, old: f64) { le(id, 0.0, x); le(id + 1, x * x / (old * old), 1.0); }
fn bound(id: u32, d: f64) { check(id, d > 0.0); le(id + 1, d, 350.0); }

harnesses! {
fn c18_glicko() {
    let (n, a, c) = (param(0), gl_r(0), gl_c(20));
    let v = list(n, |i| (gl_r(i), outcome(i + 9)));
    let pre = gl_pre(a.deviation, c.c);
    let x = glicko::glicko_rating_period(&a, &v, &c);
    bound(1, x.deviation);
    le(3, x.deviation, pre);
    // one game more: the deviation is no larger; another result: the same
    if n > 0 {
        let y = glicko::glicko_rating_period(&a, &v[..n - 1], &c);
        le(4, 1.0 / (y.deviation * y.deviation), 1.0 / (x.deviation * x.deviation));
        let mut w = v.clone();
        w[n - 1].1 = flip(w[n - 1].1);
        close(5, x.deviation, glicko::glicko_rating_period(&a, &w, &c).deviation);
    }
}
fn c18_glicko_pair() {
    let (a, b, o, c) = (gl_r(0), gl_r(10), outcome(9), gl_c(20));
    let (x, y) = glicko::glicko(&a, &b, &o, &c);
    bound(1, x.deviation); bound(3, y.deviation);
    le(5, x.deviation, gl_pre(a.deviation, c.c)); le(6, y.deviation, gl_pre(b.deviation, c.c));
}
fn c18_glicko_decay() {
    let (a, c) = (gl_r(0), gl_c(20));
    let mut p = a;
    for _ in 0..param(0) {
        let q = glicko::decay_deviation(&p, &c);
        bound(1, q.deviation); le(3, p.deviation, q.deviation); close(4, q.rating, p.rating);
        p = q;
    }
}
fn c18_boost() {
    let (n, a, c) = (param(0), gb_r(0), gb_c(20));
    let v = list(n, |i| (gb_r(i), outcome(i + 9), flag(i + 8)));
    let x = glicko_boost::glicko_boost_rating_period(&a, &v, &c);
    bound(1, x.deviation);
}
fn c18_boost_pair() {
    let (a, b, o, c) = (gb_r(0), gb_r(10), outcome(9), gb_c(20));
    let (x, y) = glicko_boost::glicko_boost(&a, &b, &o, &c);
    bound(1, x.deviation); bound(3, y.deviation);
}
fn c18_boost_decay() {
    let (a, c) = (gb_r(0), gb_c(20));
    let mut p = a;
    for _ in 0..param(0) {
        let q = glicko_boost::decay_deviation(&p, &c);
        bound(1, q.deviation); le(3, p.deviation, q.deviation); close(4, q.rating, p.rating);
        p = q;
    }
}
fn c18_sticko() {
    let (n, a, c) = (param(0), st_r(0), st_c(20));
    let v = list(n, |i| (st_r(i), outcome(i + 9), flag(i + 8)));
    let x = sticko::sticko_rating_period(&a, &v, &c);
    bound(1, x.deviation);
}
fn c18_sticko_pair() {
    let (a, b, o, c) = (st_r(0), st_r(10), outcome(9), st_c(20));
    let (x, y) = sticko::sticko(&a, &b, &o, &c);
    bound(1, x.deviation); bound(3, y.deviation);
}
fn c18_sticko_decay() {
    let (a, c) = (st_r(0), st_c(20));
    let mut p = a;
    for _ in 0..param(0) {
        let q = sticko::decay_deviation(&p, &c);
        bound(1, q.deviation); le(3, p.deviation, q.deviation); close(4, q.rating, p.rating);
        p = q;
    }
}
fn c18_glicko2() {
    let (n, a, c) = (param(0), g2_r(0), g2_c(20));
    let v = list(n, |i| (g2_r(i), outcome(i + 9)));
    let x = glicko2::glicko2_rating_period(&a, &v, &c);
    check(1, x.deviation > 0.0);
}
fn c18_glicko2_decay() {
    let a = g2_r(0);
    let mut p = a;
    for _ in 0..param(0) {
        let q = glicko2::decay_deviation(&p);
        bound(1, q.deviation); le(3, p.deviation, q.deviation); close(4, q.rating, p.rating); close(5, q.volatility, p.volatility);
        p = q;
    }
}
fn c18_weng() {
    let (n, a, c) = (param(0), wl_r(0), wl_c(20));
    let v = list(n, |i| (wl_r(i), outcome(i + 9)));
    let x = weng_lin::weng_lin_rating_period(&a, &v, &c);
    le(1, x.uncertainty, a.uncertainty);
    le(2, 0.0, x.uncertainty);
    if n > 0 { le(3, x.uncertainty, weng_lin::weng_lin_rating_period(&a, &v[..n - 1], &c).uncertainty); }
}
fn c18_weng_teams() {
    let (n, m, o, c) = (param(0), param(1), outcome(9), wl_c(20));
    let (a, b) = (wl_team(100, n), wl_team(200, m));
    let (x, y) = weng_lin::weng_lin_two_teams(&a, &b, &o, &c);
    for i in 0..n { shrinks(1, x[i].uncertainty, a[i].uncertainty); le(5, a[i].uncertainty * a[i].uncertainty * c.uncertainty_tolerance, x[i].uncertainty * x[i].uncertainty); }
    for i in 0..m { shrinks(3, y[i].uncertainty, b[i].uncertainty); }
}
fn c18_weng_multi() {
    let (sh, c) = (shape(param(0)), wl_c(20));
    let ts: Vec<Vec<_>> = sh.iter().enumerate().map(|(i, &k)| wl_team(100 * (i as u32 + 1), k)).collect();
    let rf: Vec<(&[_], MultiTeamOutcome)> = ts.iter().enumerate().map(|(i, t)| (&t[..], MultiTeamOutcome::new(pick(i as u32, 1, 2)))).collect();
    let x = weng_lin::weng_lin_multi_team(&rf, &c);
    for i in 0..sh.len() { for j in 0..sh[i] { shrinks(1, x[i][j].uncertainty, ts[i][j].uncertainty); } }
}
}
