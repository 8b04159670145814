//! Glicko-2
use crate::{gen::*, sv::*};
use skillratings::{glicko2::*, Outcomes};

const S: f64 = 173.7178;
fn g(phi: f64) -> f64 { 1.0 / (1.0 + 3.0 * phi * phi / (std::f64::consts::PI * std::f64::consts::PI)).sqrt() }
fn e(mu: f64, muj: f64, gj: f64) -> f64 { 1.0 / (1.0 + (-gj * (mu - muj)).exp()) }

/// v and sum of g (s - E)
fn sums(p: &Glicko2Rating, games: &[(Glicko2Rating, f64)]) -> (f64, f64) {
    let mu = (p.rating - 1500.0) / S;
    let (mut info, mut sum) = (0.0, 0.0);
    for (o, s) in games {
        let gj = g(o.deviation / S);
        let ej = e(mu, (o.rating - 1500.0) / S, gj);
        info += gj * gj * ej * (1.0 - ej);
        sum += gj * (s - ej);
    }
    (1.0 / info, sum)
}
/// mu', phi' from the new volatility (steps 6 to 8 of Glickman's description)
fn step8(p: &Glicko2Rating, games: &[(Glicko2Rating, f64)], vol: f64) -> (f64, f64) {
    let (v, sum) = sums(p, games);
    let phi = p.deviation / S;
    let pre = phi * phi + vol * vol;
    let v2 = 1.0 / (1.0 / pre + 1.0 / v);
    ((p.rating - 1500.0) / S + v2 * sum, v2.sqrt())
}
/// step 5: the Illinois iteration
fn volatility(p: &Glicko2Rating, games: &[(Glicko2Rating, f64)], tau: f64, eps: f64) -> f64 {
    let (v, sum) = sums(p, games);
    let phi2 = (p.deviation / S) * (p.deviation / S);
    let d2 = (v * sum) * (v * sum);
    let alpha = (p.volatility * p.volatility).ln();
    let fx = |x: f64| {
        let ex = x.exp();
        ex * (d2 - phi2 - v - ex) / (2.0 * (phi2 + v + ex) * (phi2 + v + ex)) - (x - alpha) / (tau * tau)
    };
    let mut a = alpha;
    let mut b;
    if d2 > phi2 + v {
        b = (d2 - phi2 - v).ln();
    } else {
        let mut k = 1.0;
        while fx(alpha - k * tau) < 0.0 { k += 1.0; }
        b = alpha - k * tau;
    }
    let (mut fa, mut fb) = (fx(a), fx(b));
    while (b - a).abs() > eps {
        let c = a + (a - b) * fa / (fb - fa);
        let fc = fx(c);
        if fc * fb <= 0.0 { a = b; fa = fb; } else { fa /= 2.0; }
        b = c;
        fb = fc;
    }
    (a / 2.0).exp()
}

harnesses! {
/// rating and deviation of a 1v1 match follow from the new volatility
fn c08_pair() {
    let (a, b, o, c) = (g2_r(0), g2_r(10), outcome(20), g2_c(30));
    let (x, y) = glicko2(&a, &b, &o, &c);
    let (m, d) = step8(&a, &[(b, score(o))], x.volatility);
    close(1, x.rating, m * S + 1500.0);
    close(2, x.deviation, d * S);
    let (m, d) = step8(&b, &[(a, 1.0 - score(o))], y.volatility);
    close(3, y.rating, m * S + 1500.0);
    close(4, y.deviation, d * S);
    close(5, x.volatility, volatility(&a, &[(b, score(o))], c.tau, c.convergence_tolerance));
    close(6, y.volatility, volatility(&b, &[(a, 1.0 - score(o))], c.tau, c.convergence_tolerance));
}
fn c08_period() {
    let n = param(0);
    let (p, c) = (g2_r(0), g2_c(10));
    let rs = results(20, n, g2_r);
    let got = glicko2_rating_period(&p, &rs, &c);
    if n == 0 {
        close(1, got.rating, p.rating);
        close(2, got.volatility, p.volatility);
        close(3, got.deviation, ((p.deviation / S) * (p.deviation / S) + p.volatility * p.volatility).sqrt().min(350.0 / S) * S);
        return;
    }
    let games: Vec<_> = rs.iter().map(|(o, s)| (*o, score(*s))).collect();
    let (m, d) = step8(&p, &games, got.volatility);
    close(4, got.rating, m * S + 1500.0);
    close(5, got.deviation, d * S);
    close(6, got.volatility, volatility(&p, &games, c.tau, c.convergence_tolerance));
}
fn c08_expected() {
    let (a, b) = (g2_r(0), g2_r(10));
    let (e1, e2) = expected_score(&a, &b);
    let phi = ((a.deviation / S) * (a.deviation / S) + (b.deviation / S) * (b.deviation / S)).sqrt();
    let ex = e(a.rating / S, b.rating / S, g(phi));
    close(1, e1, ex);
    close(2, e2, 1.0 - ex);
    let es = expected_score_rating_period(&a, &[b, a]);
    check(3, es.len() == 2);
    close(4, es[0], ex);
    close(5, es[1], 0.5);
    let d = decay_deviation(&a);
    close(6, d.rating, a.rating);
    close(7, d.volatility, a.volatility);
    close(8, d.deviation, (a.deviation * a.deviation + S * S * a.volatility * a.volatility).sqrt().min(350.0));
    let (lo, hi) = confidence_interval(&a);
    close(9, lo, a.rating - 1.96 * a.deviation);
    close(10, hi, a.rating + 1.96 * a.deviation);
}
fn c08_long() {
    let n = param(0);
    let (p, c) = (g2_r(0), g2_c(10));
    let o = g2_r(20);
    let rs: Vec<_> = long_results(20, n, g2_r).into_iter().map(|(_, s)| (o, s)).collect();
    let got = glicko2_rating_period(&p, &rs, &c);
    let games: Vec<_> = rs.iter().map(|(o, s)| (*o, score(*s))).collect();
    let (m, d) = step8(&p, &games, got.volatility);
    close(4, got.rating, m * S + 1500.0);
    close(5, got.deviation, d * S);
    close(6, got.volatility, volatility(&p, &games, c.tau, c.convergence_tolerance));
}
}
#[allow(dead_code)]
fn _o(_: Outcomes) {}
