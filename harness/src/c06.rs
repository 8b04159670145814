//! USCF
use crate::{gen::*, sv::*};
use skillratings::{uscf::*, Outcomes};

fn eff(r: f64, games: usize) -> f64 {
    let n = if r < 2355.0 { 50.0 / (0.662 + 0.00000739 * (2569.0 - r) * (2569.0 - r)).sqrt() } else { 50.0 };
    let g = if (games as f64) < 50.0 { games as f64 } else { 50.0 };
    if g < n { g } else { n }
}
fn fl(r: f64) -> f64 { if r < 100.0 { 100.0 } else { r } }
fn regular(p: &USCFRating, n: usize, s: f64, e: f64, t: f64) -> f64 {
    let k = 800.0 / (eff(p.rating, p.games) + n as f64);
    let c = k * (s - e);
    let m = if n > 4 { 4.0 } else { n as f64 };
    let b = t * m.sqrt();
    if n >= 3 && c > b { p.rating + c + (c - b) } else { p.rating + c }
}

harnesses! {
fn c06_pair() {
    let (a, b, o, c) = (uscf_r(0), uscf_r(10), outcome_fork(20), uscf_c(30));
    let (x, y) = uscf(&a, &b, &o, &c);
    let s = score(o);
    let (ga, gb) = (a.games as f64, b.games as f64);
    let w = 2.0 * s - 1.0;
    let (e1, e2) = expected_score(&a, &b);
    close(1, e1, logistic10(a.rating, b.rating, 400.0));
    close(2, e1 + e2, 1.0);
    if a.games <= 8 { close(3, x.rating, fl((ga * a.rating + b.rating + 400.0 * w) / (ga + 1.0))); }
    else { close(4, x.rating, fl(regular(&a, 1, s, logistic10(a.rating, b.rating, 400.0), c.t))); }
    if b.games <= 8 { close(5, y.rating, fl((gb * b.rating + a.rating - 400.0 * w) / (gb + 1.0))); }
    else { close(6, y.rating, fl(regular(&b, 1, 1.0 - s, logistic10(b.rating, a.rating, 400.0), c.t))); }
    check(7, x.games == a.games + 1 && y.games == b.games + 1);
    le(8, 100.0, x.rating);
    le(9, 100.0, y.rating);
}
fn c06_period() {
    let n = param(0);
    let (p, c) = (uscf_r(0), uscf_c(10));
    let rs = if n <= 2 { results(20, n, uscf_r) } else { results_w(20, n) };
    let got = uscf_rating_period(&p, &rs, &c);
    if n == 0 { close(1, got.rating, p.rating); check(2, got.games == p.games); return; }
    check(3, got.games == p.games + n);
    le(4, 100.0, got.rating);
    if p.games <= 8 {
        let mut sum = p.games as f64 * p.rating;
        for (o, s) in &rs { sum += o.rating + 400.0 * (2.0 * score(*s) - 1.0); }
        close(5, got.rating, fl(sum / (p.games + n) as f64));
    } else {
        let (mut s, mut e) = (0.0, 0.0);
        for (o, r) in &rs { s += score(*r); e += logistic10(p.rating, o.rating, 400.0); }
        close(6, got.rating, fl(regular(&p, n, s, e, c.t)));
    }
}
fn c06_long() {
    let n = param(0);
    let (p, c) = (uscf_r(0), uscf_c(10));
    let rs = long_results(20, n, uscf_r);
    let got = uscf_rating_period(&p, &rs, &c);
    check(3, got.games == p.games + n);
    if p.games <= 8 {
        let mut sum = p.games as f64 * p.rating;
        for (o, s) in &rs { sum += o.rating + 400.0 * (2.0 * score(*s) - 1.0); }
        close(5, got.rating, fl(sum / (p.games + n) as f64));
    } else {
        let (mut s, mut e) = (0.0, 0.0);
        for (o, r) in &rs { s += score(*r); e += logistic10(p.rating, o.rating, 400.0); }
        close(6, got.rating, fl(regular(&p, n, s, e, c.t)));
    }
}
fn c06_expected() {
    let n = param(0);
    let p = uscf_r(0);
    let ops: Vec<USCFRating> = (0..n as u32).map(|j| uscf_r(20 + 10 * j)).collect();
    let es = expected_score_rating_period(&p, &ops);
    check(1, es.len() == n);
    for i in 0..n { close(10 + i as u32, es[i], logistic10(p.rating, ops[i].rating, 400.0)); }
}
}
/// outcomes given by their counts: w wins, d draws, then losses
fn results_w(base: u32, n: usize) -> Vec<(USCFRating, Outcomes)> {
    let w = pick(base + 9, 0, n as u64);
    let d = pick(base + 19, 0, n as u64);
    assume(w + d <= n);
    (0..n).map(|i| (uscf_r(base + 10 * i as u32), if i < w { Outcomes::WIN } else if i < w + d { Outcomes::DRAW } else { Outcomes::LOSS })).collect()
}
