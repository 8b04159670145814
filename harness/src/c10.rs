//! Sticko
use crate::{gen::*, sv::*};
use skillratings::{glicko::{glicko, glicko_rating_period, GlickoConfig, GlickoRating}, sticko::*, Outcomes};

fn update(p: &StickoRating, games: &[(StickoRating, f64, bool)], c: &StickoConfig) -> (f64, f64) {
    let q = LN10 / 400.0;
    let rd = gl_pre(p.deviation, c.c);
    let n = games.len() as f64;
    let (mut info, mut sum, mut avg) = (0.0, 0.0, 0.0);
    for (o, s, white) in games {
        let g = gl_g(o.deviation);
        let e = gl_e(g, p.rating + if *white { c.gamma } else { -c.gamma } - o.rating);
        info += q * q * g * g * e * (1.0 - e);
        sum += g * (s - e + c.beta);
        avg += o.rating / n;
    }
    let r = p.rating + q / (1.0 / (rd * rd) + info) * sum + c.lambda / 100.0 * (avg - p.rating);
    let d = 1.0 / (1.0 / (rd * rd + c.h * n) + info).sqrt();
    (r, d.min(350.0))
}
fn gl(s: &StickoRating) -> GlickoRating { GlickoRating { rating: s.rating, deviation: s.deviation } }

harnesses! {
fn c10_pair() {
    let (a, b, o, c) = (st_r(0), st_r(10), outcome(20), st_c(30));
    let (x, y) = sticko(&a, &b, &o, &c);
    let (r, d) = update(&a, &[(b, score(o), true)], &c);
    close(1, x.rating, r);
    close(2, x.deviation, d);
    let (r, d) = update(&b, &[(a, 1.0 - score(o), false)], &c);
    close(3, y.rating, r);
    close(4, y.deviation, d);
}
fn c10_period() {
    let n = param(0);
    let (p, c) = (st_r(0), st_c(10));
    let rs: Vec<(StickoRating, Outcomes, bool)> = (0..n as u32).map(|j| (st_r(20 + 10 * j), outcome(29 + 10 * j), flag(28 + 10 * j))).collect();
    let got = sticko_rating_period(&p, &rs, &c);
    if n == 0 {
        close(1, got.rating, p.rating);
        close(2, got.deviation, gl_pre(p.deviation, c.c));
        return;
    }
    let games: Vec<_> = rs.iter().map(|(o, s, w)| (*o, score(*s), *w)).collect();
    let (r, d) = update(&p, &games, &c);
    close(3, got.rating, r);
    close(4, got.deviation, d);
}
fn c10_expected() {
    let (a, b, c, w) = (st_r(0), st_r(10), st_c(30), flag(40));
    let (e1, e2) = expected_score(&a, &b, &c);
    let g = gl_g((a.deviation * a.deviation + b.deviation * b.deviation).sqrt());
    close(1, e1, gl_e(g, a.rating + c.gamma - b.rating));
    close(2, e1 + e2, 1.0);
    let es = expected_score_rating_period(&a, &[(b, w)], &c);
    check(3, es.len() == 1);
    close(4, es[0], gl_e(g, a.rating + if w { c.gamma } else { -c.gamma } - b.rating));
    let d = decay_deviation(&a, &c);
    close(6, d.rating, a.rating);
    close(7, d.deviation, gl_pre(a.deviation, c.c));
    let (lo, hi) = confidence_interval(&a);
    close(8, lo, a.rating - 1.96 * a.deviation);
    close(9, hi, a.rating + 1.96 * a.deviation);
}
/// all additional parameters at zero: plain Glicko
fn c10_glicko() {
    let n = param(0);
    let (a, b, o) = (st_r(0), st_r(10), outcome(20));
    let c = StickoConfig { h: 0.0, beta: 0.0, lambda: 0.0, gamma: 0.0, c: f(30, 0.0, 400.0) };
    let k = GlickoConfig { c: c.c };
    let (x, y) = sticko(&a, &b, &o, &c);
    let (u, v) = glicko(&gl(&a), &gl(&b), &o, &k);
    close(1, x.rating, u.rating);
    close(2, x.deviation, u.deviation);
    close(3, y.rating, v.rating);
    close(4, y.deviation, v.deviation);
    let rs: Vec<(StickoRating, Outcomes, bool)> = (0..n as u32).map(|j| (st_r(50 + 10 * j), outcome(59 + 10 * j), flag(58 + 10 * j))).collect();
    let gs: Vec<(GlickoRating, Outcomes)> = rs.iter().map(|r| (gl(&r.0), r.1)).collect();
    let x = sticko_rating_period(&a, &rs, &c);
    let u = glicko_rating_period(&gl(&a), &gs, &k);
    close(5, x.rating, u.rating);
    close(6, x.deviation, u.deviation);
}
fn c10_long() {
    let n = param(0);
    let (p, c) = (st_r(0), st_c(10));
    let w = flag(60);
    let rs: Vec<(StickoRating, Outcomes, bool)> = long_results(20, n, st_r).into_iter().enumerate().map(|(j, (r, o))| (r, o, if j + 1 == n { w } else { j % 3 == 0 })).collect();
    let got = sticko_rating_period(&p, &rs, &c);
    let games: Vec<_> = rs.iter().map(|(o, s, w)| (*o, score(*s), *w)).collect();
    let (r, d) = update(&p, &games, &c);
    close(3, got.rating, r);
    close(4, got.deviation, d);
}
}
