//! EGF: R' = max(-900, R + con (S - Se) + bonus)
use crate::{gen::*, sv::*};
use skillratings::{egf::*, Outcomes};

fn con(r: f64) -> f64 { ((3300.0 - r) / 200.0).powf(1.6) }
fn bonus(r: f64) -> f64 { (1.0 + ((2300.0 - r) / 80.0).exp()).ln() / 5.0 }
fn hrat(h: f64) -> f64 { if h == 0.0 { 0.0 } else { 100.0 * (h - 0.5) } }
fn beta(r: f64) -> f64 { -7.0 * (3300.0 - r).ln() }
/// handicap < 0: stones for the first player, > 0: for the second
fn effective(a: f64, b: f64, h: f64) -> (f64, f64) {
    if h < 0.0 { (a + hrat(-h), b) } else { (a, b + hrat(h)) }
}
fn expect(a: f64, b: f64, h: f64) -> f64 {
    let (a, b) = effective(a, b, h);
    1.0 / (1.0 + (beta(b) - beta(a)).exp())
}
fn change(a: f64, b: f64, s: f64, h: f64) -> f64 { con(a) * (s - expect(a, b, h)) + bonus(a) }
fn in_domain(a: f64, b: f64, h: f64) -> bool {
    let (a, b) = effective(a, b, h);
    a <= 3299.0 && b <= 3299.0
}

harnesses! {
fn c04_pair() {
    let (a, b, o, c) = (egf_r(0), egf_r(10), outcome(20), egf_c(30));
    assume(in_domain(a.rating, b.rating, c.handicap));
    let (x, y) = egf(&a, &b, &o, &c);
    let s = score(o);
    let e = expect(a.rating, b.rating, c.handicap);
    let n1 = con(a.rating) * (s - e) + a.rating + bonus(a.rating);
    let n2 = con(b.rating) * ((1.0 - s) - (1.0 - e)) + b.rating + bonus(b.rating);
    close(1, x.rating, n1.max(-900.0));
    close(2, y.rating, n2.max(-900.0));
    le(3, -900.0, x.rating);
    le(4, -900.0, y.rating);
}
fn c04_expected() {
    let (a, b, c) = (egf_r(0), egf_r(10), egf_c(30));
    assume(in_domain(a.rating, b.rating, c.handicap));
    let (e1, e2) = expected_score(&a, &b, &c);
    close(1, e1, expect(a.rating, b.rating, c.handicap));
    close(2, e1 + e2, 1.0);
    let es = expected_score_rating_period(&a, &[(b, c)]);
    check(3, es.len() == 1);
    close(4, es[0], e1);
}
fn c04_period() {
    let n = param(0);
    let p = egf_r(0);
    let rs: Vec<(EGFRating, Outcomes, EGFConfig)> = (0..n as u32).map(|j| (egf_r(20 + 10 * j), outcome(29 + 10 * j), egf_c(22 + 10 * j))).collect();
    for (o, _, c) in &rs { assume(in_domain(p.rating, o.rating, c.handicap)); }
    let got = egf_rating_period(&p, &rs);
    le(1, -900.0, got.rating);
    // ratings are not updated between the games of a period; away from the floor the changes add up
    let mut sum = 0.0;
    let mut floor = false;
    for (o, s, c) in &rs {
        let d = change(p.rating, o.rating, score(*s), c.handicap);
        if p.rating + d < -900.0 { floor = true; }
        sum += d;
    }
    if !floor { close(2, got.rating, (p.rating + sum).max(-900.0)); }
}
fn c04_long() {
    let n = param(0);
    let p = egf_r(0);
    let c = egf_c(50);
    let mut rs: Vec<(EGFRating, Outcomes, EGFConfig)> = long_results(20, n, egf_r).into_iter().map(|(r, o)| (r, o, EGFConfig { handicap: 0.0 })).collect();
    rs[n - 1].2 = c;
    assume(in_domain(p.rating, rs[n - 1].0.rating, c.handicap));
    let mut sum = 0.0;
    for (o, s, c) in &rs {
        let d = change(p.rating, o.rating, score(*s), c.handicap);
        assume(p.rating + d >= -900.0);
        sum += d;
    }
    assume(p.rating + sum >= -900.0);
    close(2, egf_rating_period(&p, &rs).rating, p.rating + sum);
}
}
