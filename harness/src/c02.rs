//! FIFA: P' = P + I (W - We), We = 1 / (10^(-dr/600) + 1); shoot-out: winner 0.75, loser 0.5; knockout: no points lost
use crate::{gen::*, sv::*};
use skillratings::{fifa::*, Outcomes};

fn points(o: Outcomes, c: &FifaConfig) -> f64 {
    if c.penalties { if o == Outcomes::WIN { 0.75 } else { 0.5 } } else { score(o) }
}
fn step(r: f64, opp: f64, o: Outcomes, c: &FifaConfig) -> f64 {
    let d = c.importance * (points(o, c) - logistic10(r, opp, 600.0));
    if c.knockout && d < 0.0 { r } else { r + d }
}

harnesses! {
/// many matches outside knockout rounds
fn c02_long() {
    let n = param(0);
    let p = fifa_r(0);
    let rs: Vec<(FifaRating, Outcomes, FifaConfig)> = (0..n as u32)
        .map(|j| (fifa_r(20 + 10 * j), outcome(29 + 10 * j), FifaConfig { importance: f(22 + 10 * j, 0.0, 1000.0), knockout: false, penalties: false })).collect();
    let got = fifa_rating_period(&p, &rs);
    let before = fifa_rating_period(&p, &rs[..n - 1]);
    let (o, s, c) = rs[n - 1];
    close(2, got.rating, step(before.rating, o.rating, s, &c));
}
fn c02_pair() {
    let (a, b, o, c) = (fifa_r(0), fifa_r(10), outcome(20), fifa_c(30));
    let (x, y) = fifa(&a, &b, &o, &c);
    close(1, x.rating, step(a.rating, b.rating, o, &c));
    close(2, y.rating, step(b.rating, a.rating, flip(o), &c));
    if c.knockout { le(3, a.rating, x.rating); le(4, b.rating, y.rating); }
    if !c.knockout && !c.penalties { close(5, x.rating + y.rating, a.rating + b.rating); }
    let (e1, e2) = expected_score(&a, &b);
    close(6, e1, logistic10(a.rating, b.rating, 600.0));
    close(7, e2, logistic10(b.rating, a.rating, 600.0));
    let d = FifaConfig::new();
    close(8, fifa(&a, &b, &o, &d).0.rating, a.rating + 10.0 * (score(o) - logistic10(a.rating, b.rating, 600.0)));
}
fn c02_period() {
    let n = param(0);
    let p = fifa_r(0);
    let rs: Vec<(FifaRating, Outcomes, FifaConfig)> = (0..n as u32).map(|j| (fifa_r(20 + 10 * j), outcome(29 + 10 * j), fifa_c(22 + 10 * j))).collect();
    let got = fifa_rating_period(&p, &rs);
    if n == 0 { close(1, got.rating, p.rating); return; }
    let before = fifa_rating_period(&p, &rs[..n - 1]);
    let (o, s, c) = rs[n - 1];
    close(2, got.rating, step(before.rating, o.rating, s, &c));
    close(3, got.rating, fifa(&before, &o, &s, &c).0.rating);
    let ops: Vec<FifaRating> = rs.iter().map(|r| r.0).collect();
    let es = expected_score_rating_period(&p, &ops);
    check(4, es.len() == n);
    for i in 0..n { close(10 + i as u32, es[i], logistic10(p.rating, ops[i].rating, 600.0)); }
}
}
