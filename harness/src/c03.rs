//! Ingo: R' = (D R + n P) / (D + n), P = mean opponent - (100 mean score - 50); D by age
use crate::{gen::*, sv::*};
use skillratings::ingo::*;

fn dev(age: usize) -> f64 { if age <= 20 { 10.0 } else if age <= 25 { 15.0 } else { 20.0 } }

harnesses! {
fn c03_pair() {
    let (a, b, o) = (ingo_r(0), ingo_r(10), outcome(20));
    let (x, y) = ingo(&a, &b, &o);
    let s = score(o);
    let (da, db) = (dev(a.age), dev(b.age));
    close(1, x.rating, (da * a.rating + (b.rating - (100.0 * s - 50.0))) / (da + 1.0));
    close(2, y.rating, (db * b.rating + (a.rating - (100.0 * (1.0 - s) - 50.0))) / (db + 1.0));
    check(3, x.age == a.age);
    check(4, y.age == b.age);
    let (e1, e2) = expected_score(&a, &b);
    close(5, e1, 0.5 + (b.rating - a.rating) / 100.0);
    close(6, e1 + e2, 1.0);
}
fn c03_period() {
    let n = param(0);
    let p = ingo_r(0);
    let rs = results(20, n, ingo_r);
    let got = ingo_rating_period(&p, &rs);
    let d = dev(p.age);
    let mut perf = 0.0;
    for (o, s) in &rs { perf += o.rating - (100.0 * score(*s) - 50.0); }
    close(1, got.rating, (d * p.rating + perf) / (d + n as f64));
    check(2, got.age == p.age);
    let ops: Vec<IngoRating> = rs.iter().map(|r| r.0).collect();
    let es = expected_score_rating_period(&p, &ops);
    check(3, es.len() == n);
    for i in 0..n { close(10 + i as u32, es[i], 0.5 + (ops[i].rating - p.rating) / 100.0); }
}
}
