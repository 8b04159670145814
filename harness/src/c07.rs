//! Glicko
use crate::{gen::*, sv::*};
use skillratings::{glicko::*, Outcomes};

/// r' and RD' after the games (rating, deviation, score) of one period
fn update(p: &GlickoRating, games: &[(GlickoRating, f64)], c: f64) -> (f64, f64) {
    let q = LN10 / 400.0;
    let rd = gl_pre(p.deviation, c);
    let (mut info, mut sum) = (0.0, 0.0);
    for (o, s) in games {
        let g = gl_g(o.deviation);
        let e = gl_e(g, p.rating - o.rating);
        info += q * q * g * g * e * (1.0 - e);
        sum += g * (s - e);
    }
    let v = 1.0 / (1.0 / (rd * rd) + info);
    (p.rating + q * v * sum, v.sqrt())
}

harnesses! {
fn c07_pair() {
    let (a, b, o, c) = (gl_r(0), gl_r(10), outcome(20), gl_c(30));
    let (x, y) = glicko(&a, &b, &o, &c);
    let (r, d) = update(&a, &[(b, score(o))], c.c);
    close(1, x.rating, r);
    close(2, x.deviation, d);
    let (r, d) = update(&b, &[(a, 1.0 - score(o))], c.c);
    close(3, y.rating, r);
    close(4, y.deviation, d);
}
fn c07_period() {
    let n = param(0);
    let (p, c) = (gl_r(0), gl_c(10));
    let rs = results(20, n, gl_r);
    let got = glicko_rating_period(&p, &rs, &c);
    if n == 0 {
        close(1, got.rating, p.rating);
        close(2, got.deviation, gl_pre(p.deviation, c.c));
        return;
    }
    let games: Vec<_> = rs.iter().map(|(o, s)| (*o, score(*s))).collect();
    let (r, d) = update(&p, &games, c.c);
    close(3, got.rating, r);
    close(4, got.deviation, d);
}
/// many games against one opponent: the sums are repeated additions
fn c07_long() {
    let n = param(0);
    let (p, c) = (gl_r(0), gl_c(10));
    let rs = long_results(20, n, gl_r);
    let got = glicko_rating_period(&p, &rs, &c);
    let games: Vec<_> = rs.iter().map(|(o, s)| (*o, score(*s))).collect();
    let (r, d) = update(&p, &games, c.c);
    close(3, got.rating, r);
    close(4, got.deviation, d);
}
fn c07_expected() {
    let (a, b) = (gl_r(0), gl_r(10));
    let (e1, e2) = expected_score(&a, &b);
    let e = gl_e(gl_g((a.deviation * a.deviation + b.deviation * b.deviation).sqrt()), a.rating - b.rating);
    close(1, e1, e);
    close(2, e2, 1.0 - e);
    let es = expected_score_rating_period(&a, &[b, a]);
    check(3, es.len() == 2);
    close(4, es[0], e);
    close(5, es[1], 0.5);
    let c = gl_c(30);
    let d = decay_deviation(&a, &c);
    close(6, d.rating, a.rating);
    close(7, d.deviation, gl_pre(a.deviation, c.c));
    let (lo, hi) = confidence_interval(&a);
    close(8, lo, a.rating - 1.96 * a.deviation);
    close(9, hi, a.rating + 1.96 * a.deviation);
}
}
