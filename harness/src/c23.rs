//! TrueSkill match quality
use crate::{gen::*, sv::*};
use skillratings::trueskill::*;

/// quality of teams with variances s, performance variances v and means m:
/// sqrt(|B| / |S|) exp(-q / 2), all of them symmetric in the teams
fn quality(m: &[f64], v: &[f64], s: &[f64]) -> f64 {
    let n = m.len();
    let but = |x: &[f64], i: usize, j: usize| { let mut p = 1.0; for k in 0..n { if k != i && k != j { p *= x[k]; } } p };
    let (mut dv, mut ds, mut q) = (0.0, 0.0, 0.0);
    for i in 0..n {
        dv += but(v, i, i);
        ds += but(s, i, i);
        for j in i + 1..n { q += (m[i] - m[j]) * (m[i] - m[j]) * but(s, i, j); }
    }
    (-0.5 * q / ds).exp() * (dv / ds).sqrt()
}
fn parts(t: &[TrueSkillRating], w: &[f64], c: &TrueSkillConfig) -> (f64, f64, f64) {
    let (mut m, mut v, mut s) = (0.0, 0.0, 0.0);
    for i in 0..t.len() {
        m += w[i] * t[i].rating;
        v += w[i] * w[i] * c.beta * c.beta;
        s += w[i] * w[i] * (c.beta * c.beta + t[i].uncertainty * t[i].uncertainty);
    }
    (m, v, s)
}
fn all(ts: &[Vec<TrueSkillRating>], ws: &[Vec<f64>], c: &TrueSkillConfig) -> f64 {
    let p: Vec<_> = ts.iter().zip(ws).map(|(t, w)| parts(t, w, c)).collect();
    quality(&p.iter().map(|x| x.0).collect::<Vec<_>>(), &p.iter().map(|x| x.1).collect::<Vec<_>>(), &p.iter().map(|x| x.2).collect::<Vec<_>>())
}
fn teams(sh: &[usize]) -> Vec<Vec<TrueSkillRating>> { sh.iter().enumerate().map(|(i, &k)| ts_team(100 * (i as u32 + 1), k)).collect() }
fn refs<T>(v: &[Vec<T>]) -> Vec<&[T]> { v.iter().map(|t| &t[..]).collect() }
fn ones(sh: &[usize]) -> Vec<Vec<f64>> { sh.iter().map(|&k| vec![1.0; k]).collect() }

harnesses! {
/// two players
fn c23_pair() {
    let (a, b, c) = (ts_r(0), ts_r(10), ts_c(20, 1));
    let q = match_quality(&a, &b, &c);
    close(1, q, all(&[vec![a], vec![b]], &[vec![1.0], vec![1.0]], &c));
    le(2, 0.0, q); le(3, q, 1.0);
    let p = match_quality_rating_period(&a, &[b, a], &c);
    check(4, p.len() == 2);
    close(5, p[0], q);
    close(6, p[1], match_quality(&a, &a, &c));
    check(7, match_quality_rating_period(&a, &[], &c).is_empty());
}
/// the closer the ratings the better the match
fn c23_closer() {
    let (a, b, x, c) = (ts_r(0), ts_r(10), ts_r(20), ts_c(30, 1));
    let d = TrueSkillRating { rating: x.rating, uncertainty: b.uncertainty };
    assume((a.rating - b.rating).abs() <= (a.rating - d.rating).abs());
    le(1, match_quality(&a, &d, &c), match_quality(&a, &b, &c));
}
fn c23_two() {
    let (n, m, c) = (param(0), param(1), ts_c(20, 1));
    let ts = teams(&[n, m]);
    let q = match_quality_two_teams(&ts[0], &ts[1], &c);
    close(1, q, all(&ts, &ones(&[n, m]), &c));
    le(2, 0.0, q); le(3, q, 1.0);
    for w in [None, Some(&refs(&ones(&[n, m]))[..])] {
        match match_quality_multi_team(&refs(&ts), &c, w) { Ok(x) => close(4, x, q), _ => check(5, false) }
    }
}
/// any number of teams, unweighted (None and all ones alike)
fn c23_multi() {
    let (sh, c) = (shape(param(0)), ts_c(20, 1));
    let ts = teams(&sh);
    let q = all(&ts, &ones(&sh), &c);
    for w in [None, Some(&refs(&ones(&sh))[..])] {
        match match_quality_multi_team(&refs(&ts), &c, w) { Ok(x) => close(1, x, q), _ => check(2, false) }
    }
}
/// any weights that leave every team something
fn c23_weights() {
    let (sh, c) = (shape(param(0)), ts_c(20, 1));
    let ts = teams(&sh);
    let ws: Vec<Vec<f64>> = sh.iter().enumerate().map(|(i, &k)| (0..k).map(|j| f(50 + 10 * i as u32 + j as u32, if j == 0 { 0.1 } else { 0.0 }, 10.0)).collect()).collect();
    match match_quality_multi_team(&refs(&ts), &c, Some(&refs(&ws))) { Ok(x) => close(1, x, all(&ts, &ws, &c)), _ => check(2, false) }
}
fn c23_range() {
    let (sh, c) = (shape(param(0)), ts_c(20, 1));
    let ts = teams(&sh);
    match match_quality_multi_team(&refs(&ts), &c, None) { Ok(q) => { le(1, 0.0, q); le(2, q, 1.0) }, _ => check(3, false) }
}
/// nothing to compare
fn c23_none() {
    let c = ts_c(20, 1);
    check(1, match_quality_multi_team(&[], &c, None) == Ok(0.0));
    for k in [1, 2, 3] {
        let t = ts_team(100, k);
        check(2, match_quality_multi_team(&[&t], &c, None) == Ok(0.0));
        check(3, match_quality_multi_team(&[&t, &[]], &c, None) == Ok(0.0));
        check(4, match_quality_multi_team(&[&[], &t, &t], &c, None) == Ok(0.0));
        check(5, match_quality_multi_team(&[&t, &[], &t], &c, None) == Ok(0.0));
    }
}
}
