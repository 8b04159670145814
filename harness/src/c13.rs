//! TrueSkill: several teams (factor graph)
use crate::{gen::*, sv::*};
use skillratings::{trueskill::*, MultiTeamOutcome, MultiTeamRatingSystem, Outcomes};

/// ratings up to ten betas from the middle: an upset stays within what the truncated normal can represent
fn conf(i: u32, d: usize, dynamics: bool) -> TrueSkillConfig {
    let beta = f(i, 10.0, 50.0);
    TrueSkillConfig { draw_probability: DRAWS[d - 1], beta, dynamics_factor: if dynamics { beta * f(i + 1, 0.0, 1.0) } else { 0.0 } }
}
fn teams(sh: &[usize]) -> Vec<Vec<TrueSkillRating>> { sh.iter().enumerate().map(|(i, &k)| ts_team(100 * (i as u32 + 1), k)).collect() }
fn refs<T>(v: &[Vec<T>]) -> Vec<&[T]> { v.iter().map(|t| &t[..]).collect() }
fn ranked<'a>(ts: &'a [Vec<TrueSkillRating>], r: &[usize]) -> Vec<(&'a [TrueSkillRating], MultiTeamOutcome)> { ts.iter().zip(r).map(|(t, &k)| (&t[..], MultiTeamOutcome::new(k))).collect() }
fn same(id: u32, a: &[Vec<TrueSkillRating>], b: &[Vec<TrueSkillRating>]) {
    check(id, a.len() == b.len());
    for i in 0..a.len() {
        check(id, a[i].len() == b[i].len());
        for j in 0..a[i].len() { close(id + 1, a[i][j].rating, b[i][j].rating); close(id + 2, a[i][j].uncertainty, b[i][j].uncertainty); }
    }
}

type G = (f64, f64); // precision, precision times mean
fn plus(a: G, b: G) -> G { (a.0 + b.0, a.1 + b.1) }
fn mean(a: G) -> f64 { if a.0 == 0.0 { 0.0 } else { a.1 / a.0 } }
/// message of x = p * a + q * b
fn lin(p: f64, a: G, q: f64, b: G) -> G {
    if a.0 == 0.0 || b.0 == 0.0 { return (0.0, 0.0); }
    let v = p * p / a.0 + q * q / b.0;
    (1.0 / v, (p * mean(a) + q * mean(b)) / v)
}
/// expectation propagation along the chain of teams from best to worst, forward and backward until nothing moves by more than 1e-4, ten times at most
fn reference(ts: &[Vec<TrueSkillRating>], ws: &[Vec<f64>], draws: &[bool], c: &TrueSkillConfig) -> Vec<Vec<TrueSkillRating>> {
    let n = ts.len();
    let s = |p: &TrueSkillRating| p.uncertainty * p.uncertainty + c.dynamics_factor * c.dynamics_factor;
    let b2 = c.beta * c.beta;
    let prior: Vec<G> = (0..n).map(|i| {
        let (mut m, mut v) = (0.0, 0.0);
        for j in 0..ts[i].len() { m += ws[i][j] * ts[i][j].rating; v += ws[i][j] * ws[i][j] * (s(&ts[i][j]) + b2); }
        (1.0 / v, m / v)
    }).collect();
    let q = quantile_half(c.draw_probability);
    let margin: Vec<f64> = (0..n - 1).map(|x| q * ((ts[x].len() + ts[x + 1].len()) as f64).sqrt() * c.beta).collect();
    // messages to the better (l) and the worse (r) team of a pair, and of the truncation (t)
    let (mut l, mut r, mut t) = (vec![(0.0, 0.0); n - 1], vec![(0.0, 0.0); n - 1], vec![(0.0, 0.0); n - 1]);
    let better = |x: usize, r: &[G]| if x > 0 { plus(prior[x], r[x - 1]) } else { prior[x] };
    let worse = |x: usize, l: &[G]| if x + 2 < n { plus(prior[x + 1], l[x + 1]) } else { prior[x + 1] };
    let trunc = |x: usize, l: &[G], r: &[G], t: &mut [G]| {
        let d = lin(1.0, better(x, r), -1.0, worse(x, l));
        let k = d.0.sqrt();
        let (dc, e) = (d.1 / k, margin[x] * d.0 / k);
        if draws[x] { split(dc < 0.0); }
        let norm = if draws[x] { phi(e - dc.abs()) - phi(-e - dc.abs()) } else { phi(dc - e) };
        assume(norm >= 2.222_758_749e-162);
        let (v, w) = if draws[x] { vw_draw(dc, e) } else { vw_win(dc, e) };
        let new = (d.0 / (1.0 - w), (d.1 + k * v) / (1.0 - w));
        let old = plus(d, t[x]);
        t[x] = (new.0 - d.0, new.1 - d.1);
        let (dt, dp) = ((old.1 - new.1).abs(), (old.0 - new.0).abs().sqrt());
        dt.max(dp)
    };
    for _ in 0..10 {
        let mut delta: f64;
        if n == 2 {
            delta = trunc(0, &l, &r, &mut t);
        } else {
            delta = 0.0;
            for x in 0..n - 2 { delta = delta.max(trunc(x, &l, &r, &mut t)); r[x] = lin(1.0, better(x, &r), -1.0, t[x]); }
            for x in (1..n - 1).rev() { delta = delta.max(trunc(x, &l, &r, &mut t)); l[x] = lin(1.0, t[x], 1.0, worse(x, &l)); }
        }
        if delta <= 0.0001 { break; }
    }
    l[0] = lin(1.0, t[0], 1.0, worse(0, &l));
    r[n - 2] = lin(1.0, better(n - 2, &r), -1.0, t[n - 2]);
    (0..n).map(|i| {
        let m = if i == 0 { l[0] } else if i == n - 1 { r[n - 2] } else { plus(r[i - 1], l[i]) };
        (0..ts[i].len()).map(|j| {
            let p = &ts[i][j];
            let w = ws[i][j];
            if w == 0.0 { return TrueSkillRating { rating: p.rating, uncertainty: s(p).sqrt() }; }
            let (mut mu, mut v) = (mean(m), 1.0 / m.0);
            for k in 0..ts[i].len() { if k != j { mu -= ws[i][k] * ts[i][k].rating; v += ws[i][k] * ws[i][k] * (s(&ts[i][k]) + b2); } }
            // performance, then skill
            let q = (w * w / v, w * mu / v);
            let a = 1.0 + b2 * q.0;
            let (pi, tau) = (1.0 / s(p) + q.0 / a, p.rating / s(p) + q.1 / a);
            TrueSkillRating { rating: tau / pi, uncertainty: (1.0 / pi).sqrt() }
        }).collect()
    }).collect()
}

/// permutation number k of 0..n (lexicographic)
fn perm(n: usize, mut k: usize) -> Vec<usize> {
    let mut free: Vec<usize> = (0..n).collect();
    let mut f: usize = (1..=n).product();
    (0..n).map(|i| { f /= n - i; let x = k / f; k %= f; free.remove(x) }).collect()
}

harnesses! {
/// two teams, with the closed form
fn c13_two() {
    let ts = teams(&[param(0), param(1)]);
    let c = conf(30, 1, false);
    let o = [Outcomes::WIN, Outcomes::DRAW, Outcomes::LOSS][param(2)];
    let e = quantile_half(c.draw_probability) * ((ts[0].len() + ts[1].len()) as f64).sqrt() * c.beta;
    let (mut d, mut v) = (0.0, (ts[0].len() + ts[1].len()) as f64 * c.beta * c.beta);
    for p in &ts[0] { d += p.rating; v += p.uncertainty * p.uncertainty; }
    for p in &ts[1] { d -= p.rating; v += p.uncertainty * p.uncertainty; }
    let (dc, ec) = (d / v.sqrt(), e / v.sqrt());
    if o == Outcomes::DRAW { assume(phi(ec - dc.abs()) - phi(-ec - dc.abs()) >= 2.222_758_749e-162); }
    let (x, y) = trueskill_two_teams(&ts[0], &ts[1], &o, &c);
    let r = match o { Outcomes::WIN => [1, 2], Outcomes::DRAW => [1, 1], Outcomes::LOSS => [2, 1] };
    match trueskill_multi_team(&ranked(&ts, &r), &c, None) { Ok(r) => same(1, &r, &[x, y]), _ => check(4, false) }
}
/// several teams in order, some of them tied with the next (bits of the second parameter)
fn c13_chain() {
    let (sh, ties) = (shape(param(0)), param(1));
    let (ts, c) = (teams(&sh), conf(30, 1, true));
    let draws: Vec<bool> = (0..sh.len() - 1).map(|x| ties >> x & 1 == 1).collect();
    let mut r = vec![0];
    for x in 0..draws.len() { r.push(r[x] + if draws[x] { 0 } else { 1 }); }
    let want = reference(&ts, &sh.iter().map(|&k| vec![1.0; k]).collect::<Vec<_>>(), &draws, &c);
    match trueskill_multi_team(&ranked(&ts, &r), &c, None) { Ok(r) => same(1, &r, &want), _ => check(4, false) }
}
/// weighted members
fn c13_weights() {
    let (sh, ties) = (shape(param(0)), param(1));
    let (ts, c) = (teams(&sh), conf(30, 1, true));
    let draws: Vec<bool> = (0..sh.len() - 1).map(|x| ties >> x & 1 == 1).collect();
    let mut r = vec![0];
    for x in 0..draws.len() { r.push(r[x] + if draws[x] { 0 } else { 1 }); }
    let ws: Vec<Vec<f64>> = sh.iter().enumerate().map(|(i, &k)| (0..k).map(|j| if param(2) == 10 * i + j + 1 { 0.0 } else { f(50 + 10 * i as u32 + j as u32, 0.5, 2.0) }).collect()).collect();
    let want = reference(&ts, &ws, &draws, &c);
    match trueskill_multi_team(&ranked(&ts, &r), &c, Some(&refs(&ws))) { Ok(r) => same(1, &r, &want), _ => check(4, false) }
}
/// teams (with their ranks and weights) given in another order, with ranks spread out
fn c13_order() {
    let (sh, ties, k) = (shape(param(0)), param(1), param(2));
    let (ts, c) = (teams(&sh), conf(30, 1, true));
    let n = sh.len();
    let draws: Vec<bool> = (0..n - 1).map(|x| ties >> x & 1 == 1).collect();
    let mut r = vec![0];
    for x in 0..n - 1 { r.push(r[x] + if draws[x] { 0 } else { 1 }); }
    let ws: Vec<Vec<f64>> = sh.iter().enumerate().map(|(i, &k)| (0..k).map(|j| f(50 + 10 * i as u32 + j as u32, 0.5, 2.0)).collect()).collect();
    let want = reference(&ts, &ws, &draws, &c);
    let p = perm(n, k);
    let (us, vs): (Vec<Vec<_>>, Vec<Vec<_>>) = (p.iter().map(|&i| ts[i].clone()).collect(), p.iter().map(|&i| ws[i].clone()).collect());
    let q: Vec<usize> = p.iter().map(|&i| 3 * r[i] * r[i] + 4).collect();
    match trueskill_multi_team(&ranked(&us, &q), &c, Some(&refs(&vs))) { Ok(y) => same(1, &y, &p.iter().map(|&i| want[i].clone()).collect::<Vec<_>>()), _ => check(4, false) }
}
/// of the rank numbers only the order counts
fn c13_ranks() {
    let (sh, ties, k) = (shape(param(0)), param(1), param(2));
    let (ts, c) = (teams(&sh), conf(30, 1, true));
    let n = sh.len();
    let draws: Vec<bool> = (0..n - 1).map(|x| ties >> x & 1 == 1).collect();
    let mut r = vec![0];
    for x in 0..n - 1 { r.push(r[x] + if draws[x] { 0 } else { 1 }); }
    let want = reference(&ts, &sh.iter().map(|&k| vec![1.0; k]).collect::<Vec<_>>(), &draws, &c);
    let p = perm(n, k);
    let (base, gap) = (int(900, 0, 1 << 40) as usize, int(901, 1, 1 << 40) as usize);
    let us: Vec<Vec<_>> = p.iter().map(|&i| ts[i].clone()).collect();
    let q: Vec<usize> = p.iter().map(|&i| base + gap * r[i]).collect();
    match trueskill_multi_team(&ranked(&us, &q), &c, None) { Ok(y) => same(1, &y, &p.iter().map(|&i| want[i].clone()).collect::<Vec<_>>()), _ => check(4, false) }
}
/// members of a team (with their weights) given in another order
fn c13_members() {
    let (sh, ties, k) = (shape(param(0)), param(1), param(2));
    let (ts, c) = (teams(&sh), conf(30, 1, true));
    let draws: Vec<bool> = (0..sh.len() - 1).map(|x| ties >> x & 1 == 1).collect();
    let mut r = vec![0];
    for x in 0..draws.len() { r.push(r[x] + if draws[x] { 0 } else { 1 }); }
    let ws: Vec<Vec<f64>> = sh.iter().enumerate().map(|(i, &k)| (0..k).map(|j| f(50 + 10 * i as u32 + j as u32, 0.5, 2.0)).collect()).collect();
    let mut want = reference(&ts, &ws, &draws, &c);
    let p = perm(sh[0], k);
    let (mut us, mut vs) = (ts.clone(), ws.clone());
    for j in 0..sh[0] { us[0][j] = ts[0][p[j]]; vs[0][j] = ws[0][p[j]]; }
    want[0] = p.iter().map(|&i| want[0][i]).collect();
    match trueskill_multi_team(&ranked(&us, &r), &c, Some(&refs(&vs))) { Ok(y) => same(1, &y, &want), _ => check(4, false) }
}
/// through the trait
fn c13_trait() {
    let (sh, ties) = (shape(param(0)), param(1));
    let (ts, c) = (teams(&sh), conf(30, 1, true));
    let draws: Vec<bool> = (0..sh.len() - 1).map(|x| ties >> x & 1 == 1).collect();
    let mut r = vec![0];
    for x in 0..draws.len() { r.push(r[x] + if draws[x] { 0 } else { 1 }); }
    let want = reference(&ts, &sh.iter().map(|&k| vec![1.0; k]).collect::<Vec<_>>(), &draws, &c);
    let s = <TrueSkill as MultiTeamRatingSystem>::new(c);
    same(1, &MultiTeamRatingSystem::rate(&s, &ranked(&ts, &r)), &want);
}
/// another draw probability
fn c13_draw() {
    let (sh, ties) = (shape(param(0)), param(1));
    let (ts, c) = (teams(&sh), conf(30, param(2), true));
    let draws: Vec<bool> = (0..sh.len() - 1).map(|x| ties >> x & 1 == 1).collect();
    let mut r = vec![0];
    for x in 0..draws.len() { r.push(r[x] + if draws[x] { 0 } else { 1 }); }
    let want = reference(&ts, &sh.iter().map(|&k| vec![1.0; k]).collect::<Vec<_>>(), &draws, &c);
    match trueskill_multi_team(&ranked(&ts, &r), &c, None) { Ok(r) => same(1, &r, &want), _ => check(4, false) }
}
}
