//! Weng-Lin (Bradley-Terry full pair model)
use crate::{gen::*, sv::*};
use skillratings::{weng_lin::*, MultiTeamOutcome};

fn cc(s1: f64, s2: f64, c: &WengLinConfig) -> f64 { (2.0 * c.beta * c.beta + s1 + s2).sqrt() }
fn prob(a: f64, b: f64, c: f64) -> f64 { 1.0 / (1.0 + ((b - a) / c).exp()) }
fn mu(t: &[WengLinRating]) -> f64 { let mut s = 0.0; for p in t { s += p.rating; } s }
fn var(t: &[WengLinRating]) -> f64 { let mut s = 0.0; for p in t { s += p.uncertainty * p.uncertainty; } s }
/// (omega, delta) of a team against another
fn pair(a: &[WengLinRating], b: &[WengLinRating], s: f64, cfg: &WengLinConfig) -> (f64, f64) {
    let (sa, sb) = (var(a), var(b));
    let c = cc(sa, sb, cfg);
    let p = prob(mu(a), mu(b), c);
    (sa / c * (s - p), sa.sqrt() / c * (sa / (c * c)) * p * (1.0 - p))
}
fn apply(p: &WengLinRating, team_var: f64, omega: f64, delta: f64, cfg: &WengLinConfig) -> (f64, f64) {
    let s2 = p.uncertainty * p.uncertainty;
    let k = 1.0 - s2 / team_var * delta;
    (p.rating + s2 / team_var * omega, p.uncertainty * k.max(cfg.uncertainty_tolerance).sqrt())
}
fn one(a: &WengLinRating, b: &WengLinRating, s: f64, cfg: &WengLinConfig) -> (f64, f64) {
    let c = cc(a.uncertainty * a.uncertainty, b.uncertainty * b.uncertainty, cfg);
    let p = prob(a.rating, b.rating, c);
    let x = a.uncertainty / c;
    let eta = x * x * x * p * (1.0 - p);
    (a.rating + a.uncertainty * a.uncertainty / c * (s - p), a.uncertainty * (1.0 - eta).max(cfg.uncertainty_tolerance).sqrt())
}

harnesses! {
fn c11_pair() {
    let (a, b, o, c) = (wl_r(0), wl_r(10), outcome(20), wl_c(30));
    let (x, y) = weng_lin(&a, &b, &o, &c);
    let (r, u) = one(&a, &b, score(o), &c);
    close(1, x.rating, r);
    close(2, x.uncertainty, u);
    let (r, u) = one(&b, &a, 1.0 - score(o), &c);
    close(3, y.rating, r);
    close(4, y.uncertainty, u);
    let (e1, e2) = expected_score(&a, &b, &c);
    close(5, e1, prob(a.rating, b.rating, cc(a.uncertainty * a.uncertainty, b.uncertainty * b.uncertainty, &c)));
    close(6, e1 + e2, 1.0);
}
fn c11_period() {
    let n = param(0);
    let (p, c) = (wl_r(0), wl_c(10));
    let rs = results(20, n, wl_r);
    let got = weng_lin_rating_period(&p, &rs, &c);
    if n == 0 { close(1, got.rating, p.rating); close(2, got.uncertainty, p.uncertainty); return; }
    let before = weng_lin_rating_period(&p, &rs[..n - 1], &c);
    let (r, u) = one(&before, &rs[n - 1].0, score(rs[n - 1].1), &c);
    close(3, got.rating, r);
    close(4, got.uncertainty, u);
    let ops: Vec<WengLinRating> = rs.iter().map(|r| r.0).collect();
    let es = expected_score_rating_period(&p, &ops, &c);
    check(5, es.len() == n);
    for i in 0..n { close(10 + i as u32, es[i], prob(p.rating, ops[i].rating, cc(p.uncertainty * p.uncertainty, ops[i].uncertainty * ops[i].uncertainty, &c))); }
}
fn c11_teams() {
    let (n, m) = (param(0), param(1));
    let (a, b, o, c) = (wl_team(100, n), wl_team(200, m), outcome(20), wl_c(30));
    let (x, y) = weng_lin_two_teams(&a, &b, &o, &c);
    check(1, x.len() == n && y.len() == m);
    if n == 0 || m == 0 {
        for i in 0..n { close(100 + i as u32, x[i].rating, a[i].rating); close(110 + i as u32, x[i].uncertainty, a[i].uncertainty); }
        for i in 0..m { close(200 + i as u32, y[i].rating, b[i].rating); close(210 + i as u32, y[i].uncertainty, b[i].uncertainty); }
        return;
    }
    for (t, t2, got, s, k) in [(&a, &b, &x, score(o), 100u32), (&b, &a, &y, 1.0 - score(o), 200)] {
        let (om, de) = pair(t, t2, s, &c);
        for i in 0..t.len() {
            let (r, u) = apply(&t[i], var(t), om, de, &c);
            close(k + i as u32, got[i].rating, r);
            close(k + 10 + i as u32, got[i].uncertainty, u);
        }
    }
    let (e1, e2) = expected_score_two_teams(&a, &b, &c);
    close(5, e1, prob(mu(&a), mu(&b), cc(var(&a), var(&b), &c)));
    close(6, e1 + e2, 1.0);
}
/// any number of teams, any ranks: the sum of the pairwise comparisons
fn c11_multi() {
    let sh = shape(param(0));
    let c = wl_c(30);
    let k = sh.len();
    let teams: Vec<Vec<WengLinRating>> = (0..k).map(|i| wl_team(100 * (i as u32 + 1), sh[i])).collect();
    let ranks: Vec<usize> = (0..k).map(|i| int(40 + i as u32, 1, k as u64) as usize).collect();
    let arg: Vec<(&[WengLinRating], MultiTeamOutcome)> = (0..k).map(|i| (&teams[i][..], MultiTeamOutcome::new(ranks[i]))).collect();
    let got = weng_lin_multi_team(&arg, &c);
    check(1, got.len() == k);
    for i in 0..k {
        check(2, got[i].len() == sh[i]);
        let (mut om, mut de) = (0.0, 0.0);
        for q in 0..k {
            if q == i { continue; }
            let s = if ranks[i] < ranks[q] { 1.0 } else if ranks[i] == ranks[q] { 0.5 } else { 0.0 };
            let (a, b) = pair(&teams[i], &teams[q], s, &c);
            om += a;
            de += b;
        }
        for j in 0..sh[i] {
            let (r, u) = apply(&teams[i][j], var(&teams[i]), om, de, &c);
            close(100 * (i as u32 + 1) + j as u32, got[i][j].rating, r);
            close(100 * (i as u32 + 1) + 10 + j as u32, got[i][j].uncertainty, u);
        }
    }
}
/// expected scores of several teams: softmax over the team ratings
fn c11_expected_multi() {
    let sh = shape(param(0));
    let c = wl_c(30);
    let k = sh.len();
    let teams: Vec<Vec<WengLinRating>> = (0..k).map(|i| wl_team(100 * (i as u32 + 1), sh[i])).collect();
    let arg: Vec<&[WengLinRating]> = teams.iter().map(|t| &t[..]).collect();
    let es = expected_score_multi_team(&arg, &c);
    check(1, es.len() == k);
    let mut v = 2.0 * c.beta * c.beta;
    for t in &teams { v += var(t); }
    let cv = v.sqrt();
    for i in 0..k {
        let mut z = 0.0;
        for t in &teams { z += ((mu(t) - mu(&teams[i])) / cv).exp(); }
        close(10 + i as u32, es[i], 1.0 / z);
    }
}
}
