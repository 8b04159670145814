//! Elo: R' = R + K (S - E), E = 1 / (1 + 10^((Rb - Ra) / 400))
use crate::{gen::*, sv::*};
use skillratings::elo::*;

fn step(r: f64, opp: f64, s: f64, k: f64) -> f64 { r + k * (s - logistic10(r, opp, 400.0)) }

harnesses! {
fn c01_pair() {
    let (a, b, o, c) = (elo_r(0), elo_r(10), outcome(20), elo_c(30));
    let (x, y) = elo(&a, &b, &o, &c);
    let s = score(o);
    close(1, x.rating, step(a.rating, b.rating, s, c.k));
    close(2, y.rating, step(b.rating, a.rating, 1.0 - s, c.k));
    close(3, x.rating + y.rating, a.rating + b.rating);
    let (e1, e2) = expected_score(&a, &b);
    close(4, e1, logistic10(a.rating, b.rating, 400.0));
    close(5, e2, logistic10(b.rating, a.rating, 400.0));
    close(6, elo(&a, &b, &o, &EloConfig::new()).0.rating, step(a.rating, b.rating, s, 32.0));
}
fn c01_period() {
    let n = param(0);
    let (p, c) = (elo_r(0), elo_c(10));
    let rs = results(20, n, elo_r);
    let got = elo_rating_period(&p, &rs, &c);
    if n == 0 { close(1, got.rating, p.rating); return; }
    // one more result = the period so far, then one game
    let before = elo_rating_period(&p, &rs[..n - 1], &c);
    let (o, s) = rs[n - 1];
    close(2, got.rating, step(before.rating, o.rating, score(s), c.k));
    close(3, got.rating, elo(&before, &o, &s, &c).0.rating);
    let ops: Vec<EloRating> = rs.iter().map(|r| r.0).collect();
    let es = expected_score_rating_period(&p, &ops);
    check(4, es.len() == n);
    for i in 0..n { close(10 + i as u32, es[i], logistic10(p.rating, ops[i].rating, 400.0)); }
}
}
