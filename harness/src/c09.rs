//! Glicko-Boost
use crate::{gen::*, sv::*};
use skillratings::{glicko_boost::*, Outcomes};

fn inflate(r: f64, d: f64, c: &GlickoBoostConfig) -> f64 {
    let t = r / 1000.0;
    let a = c.alpha;
    (d * d + (a.0 + a.1 * d + a.2 * d * t + a.3 * t + a.4 * t * t).exp()).sqrt().min(350.0)
}
/// (r', RD' within the period, RD' after the inflation)
fn update(p: &GlickoBoostRating, games: &[(GlickoBoostRating, f64, bool)], c: &GlickoBoostConfig) -> (f64, f64) {
    let q = LN10 / 400.0;
    let (mut info, mut sum) = (0.0, 0.0);
    for (o, s, white) in games {
        let g = gl_g(o.deviation);
        let adv = if *white { c.eta } else { -c.eta };
        let e = gl_e(g, p.rating + adv - o.rating);
        info += g * g * e * (1.0 - e);
        sum += g * (s - e);
    }
    let z = sum / info.sqrt();
    let after = |rd: f64| 1.0 / (1.0 / (rd * rd) + q * q * info).sqrt();
    let mut d = after(p.deviation);
    if c.k != 0.0 && z > c.k { d = after((1.0 + (z - c.k) * c.b.0) * d + c.b.1); }
    let d = d.min(350.0);
    let r = p.rating + d * d * q * sum;
    (r, inflate(r, d, c))
}

harnesses! {
fn c09_pair() {
    let (a, b, o, c) = (gb_r(0), gb_r(10), outcome_fork(20), gb_c(30));
    let (x, y) = glicko_boost(&a, &b, &o, &c);
    let (r, d) = update(&a, &[(b, score(o), true)], &c);
    close(1, x.rating, r);
    close(2, x.deviation, d);
    let (r, d) = update(&b, &[(a, 1.0 - score(o), false)], &c);
    close(3, y.rating, r);
    close(4, y.deviation, d);
}
fn c09_period() {
    let n = param(0);
    let (p, c) = (gb_r(0), gb_c(10));
    let rs: Vec<(GlickoBoostRating, Outcomes, bool)> = (0..n as u32).map(|j| (gb_r(20 + 10 * j), outcome(29 + 10 * j), flag(28 + 10 * j))).collect();
    let got = glicko_boost_rating_period(&p, &rs, &c);
    if n == 0 {
        close(1, got.rating, p.rating);
        close(2, got.deviation, inflate(p.rating, p.deviation, &c));
        return;
    }
    let games: Vec<_> = rs.iter().map(|(o, s, w)| (*o, score(*s), *w)).collect();
    let (r, d) = update(&p, &games, &c);
    close(3, got.rating, r);
    close(4, got.deviation, d);
}
fn c09_expected() {
    let (a, b, c) = (gb_r(0), gb_r(10), gb_c(30));
    let (e1, e2) = expected_score(&a, &b, &c);
    let g = gl_g((a.deviation * a.deviation + b.deviation * b.deviation).sqrt());
    close(1, e1, gl_e(g, a.rating + c.eta - b.rating));
    close(2, e1 + e2, 1.0);
    let es = expected_score_rating_period(&a, &[(b, true)], &c);
    check(3, es.len() == 1);
    close(4, es[0], e1);
    let d = decay_deviation(&a, &c);
    close(6, d.rating, a.rating);
    close(7, d.deviation, inflate(a.rating, a.deviation, &c));
    let (lo, hi) = confidence_interval(&a);
    close(8, lo, a.rating - 1.96 * a.deviation);
    close(9, hi, a.rating + 1.96 * a.deviation);
}
/// with the black pieces the advantage counts against the player
fn c09_black() {
    let (a, b, c) = (gb_r(0), gb_r(10), gb_c(30));
    let g = gl_g((a.deviation * a.deviation + b.deviation * b.deviation).sqrt());
    let es = expected_score_rating_period(&a, &[(b, false)], &c);
    check(1, es.len() == 1);
    let (black, white) = (gl_e(g, a.rating - c.eta - b.rating), gl_e(g, a.rating + c.eta - b.rating));
    close(2, es[0], black);
    // the recorded finding is that the value is white's; any other value is something else
    check(3, (es[0] - black).abs() <= 1e-9 || (es[0] - white).abs() <= 1e-9);
}
fn c09_long() {
    let n = param(0);
    let (p, c) = (gb_r(0), gb_c(10));
    let w = flag(60);
    let rs: Vec<(GlickoBoostRating, Outcomes, bool)> = long_results(20, n, gb_r).into_iter().enumerate().map(|(j, (r, o))| (r, o, if j + 1 == n { w } else { j % 3 == 0 })).collect();
    let got = glicko_boost_rating_period(&p, &rs, &c);
    let games: Vec<_> = rs.iter().map(|(o, s, w)| (*o, score(*s), *w)).collect();
    let (r, d) = update(&p, &games, &c);
    close(3, got.rating, r);
    close(4, got.deviation, d);
}
}
