//! Teams: a team of one is a player, two of several teams are two teams, names and numbers do not matter
use crate::{gen::*, sv::*};
use skillratings::{trueskill::TrueSkillRating, weng_lin::WengLinRating, *};

fn wl(id: u32, x: &WengLinRating, y: &WengLinRating) { close(id, x.rating, y.rating); close(id + 1, x.uncertainty, y.uncertainty); }
fn ts(id: u32, x: &TrueSkillRating, y: &TrueSkillRating) { close(id, x.rating, y.rating); close(id + 1, x.uncertainty, y.uncertainty); }
/// permutation number k of 0..n (lexicographic)
fn perm(n: usize, mut k: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut f: usize = (1..n).product();
    let mut out = Vec::new();
    for i in 0..n {
        out.push(left.remove(k / f));
        k %= f;
        if n - 1 - i > 0 { f /= n - 1 - i; }
    }
    out
}
fn shuffle<T: Copy>(v: &[T], p: &[usize]) -> Vec<T> { p.iter().map(|&i| v[i]).collect() }
fn ranked<T>(v: &[(Vec<T>, usize)]) -> Vec<(&[T], MultiTeamOutcome)> { v.iter().map(|(t, r)| (&t[..], MultiTeamOutcome::new(*r))).collect() }

harnesses! {
fn c20_weng_one() {
    let (a, b, o, c) = (wl_r(0), wl_r(10), outcome(9), wl_c(20));
    let (x, y) = (weng_lin::weng_lin_two_teams(&[a], &[b], &o, &c), weng_lin::weng_lin(&a, &b, &o, &c));
    check(1, x.0.len() == 1 && x.1.len() == 1);
    wl(2, &x.0[0], &y.0); wl(4, &x.1[0], &y.1);
    let (e, g) = (weng_lin::expected_score_two_teams(&[a], &[b], &c), weng_lin::expected_score(&a, &b, &c));
    close(6, e.0, g.0); close(7, e.1, g.1);
}
fn c20_weng_two() {
    let (n, m, o, c) = (param(0), param(1), outcome_fork(9), wl_c(20));
    let (a, b) = (wl_team(100, n), wl_team(200, m));
    let r = match o { Outcomes::WIN => (1, 2), Outcomes::DRAW => (2, 2), Outcomes::LOSS => (3, 1) };
    let x = weng_lin::weng_lin_multi_team(&[(&a, MultiTeamOutcome::new(r.0)), (&b, MultiTeamOutcome::new(r.1))], &c);
    let y = weng_lin::weng_lin_two_teams(&a, &b, &o, &c);
    check(1, x.len() == 2 && x[0].len() == n && x[1].len() == m && y.0.len() == n && y.1.len() == m);
    for i in 0..n { wl(2, &x[0][i], &y.0[i]); }
    for i in 0..m { wl(4, &x[1][i], &y.1[i]); }
}
fn c20_weng_two_expected() {
    let (n, m, c) = (param(0), param(1), wl_c(20));
    let (a, b) = (wl_team(100, n), wl_team(200, m));
    let x = weng_lin::expected_score_multi_team(&[&a, &b], &c);
    let y = weng_lin::expected_score_two_teams(&a, &b, &c);
    check(1, x.len() == 2);
    close(2, x[0], y.0); close(3, x[1], y.1);
}
/// members in another order: the same results, in that order
fn c20_weng_members() {
    let (n, m, k, o, c) = (param(0), param(1), param(2), outcome_fork(9), wl_c(20));
    let (a, b) = (wl_team(100, n), wl_team(200, m));
    let p = perm(n, k);
    let (x, y) = (weng_lin::weng_lin_two_teams(&a, &b, &o, &c), weng_lin::weng_lin_two_teams(&shuffle(&a, &p), &b, &o, &c));
    for i in 0..n { wl(2, &x.0[p[i]], &y.0[i]); }
    for i in 0..m { wl(4, &x.1[i], &y.1[i]); }
    let (e, g) = (weng_lin::expected_score_two_teams(&a, &b, &c), weng_lin::expected_score_two_teams(&shuffle(&a, &p), &b, &c));
    close(6, e.0, g.0);
}
/// teams in another order: the same results, in that order; only the order of the ranks counts
fn c20_weng_order() {
    let (sh, k, c) = (shape(param(0)), param(1), wl_c(20));
    let n = sh.len();
    let v: Vec<(Vec<_>, usize)> = sh.iter().enumerate().map(|(i, &s)| (wl_team(100 * (i as u32 + 1), s), pick(i as u32, 1, n as u64))).collect();
    let p = perm(n, k);
    let (base, gap) = (int(900, 0, 1 << 40) as usize, int(901, 1, 1 << 40) as usize);
    let w: Vec<(Vec<_>, usize)> = p.iter().map(|&i| (v[i].0.clone(), base + gap * (v[i].1 - 1))).collect();
    let (x, y) = (weng_lin::weng_lin_multi_team(&ranked(&v), &c), weng_lin::weng_lin_multi_team(&ranked(&w), &c));
    check(1, x.len() == n && y.len() == n);
    for i in 0..n { for j in 0..sh[p[i]] { wl(2, &x[p[i]][j], &y[i][j]); } }
    let (a, b): (Vec<&[_]>, Vec<&[_]>) = (v.iter().map(|t| &t.0[..]).collect(), w.iter().map(|t| &t.0[..]).collect());
    let (e, g) = (weng_lin::expected_score_multi_team(&a, &c), weng_lin::expected_score_multi_team(&b, &c));
    for i in 0..n { close(4, e[p[i]], g[i]); }
}
/// all teams tied with equal teams: nobody's rating moves
fn c20_weng_even() {
    let (n, c) = (param(0), wl_c(20));
    let a = wl_team(100, param(1));
    let v: Vec<(&[_], MultiTeamOutcome)> = (0..n).map(|_| (&a[..], MultiTeamOutcome::new(1))).collect();
    for t in weng_lin::weng_lin_multi_team(&v, &c) { for (i, q) in t.iter().enumerate() { close(1, q.rating, a[i].rating); le(2, q.uncertainty, a[i].uncertainty); } }
}
/// empty teams change nothing, for anybody
fn c20_weng_none() {
    let (sh, c) = (shape(param(0)), wl_c(20));
    let e = param(1);
    let mut v: Vec<(Vec<_>, usize)> = sh.iter().enumerate().map(|(i, &s)| (wl_team(100 * (i as u32 + 1), s), i + 1)).collect();
    v.insert(e, (Vec::new(), 7));
    let x = weng_lin::weng_lin_multi_team(&ranked(&v), &c);
    check(1, x.len() == v.len());
    for i in 0..v.len() { check(2, x[i].len() == v[i].0.len()); for j in 0..v[i].0.len() { wl(3, &x[i][j], &v[i].0[j]); } }
}
fn c20_ts_one() {
    let (a, b, o, c) = (ts_r(0), ts_r(10), outcome_fork(9), ts_c(20, param(0)));
    let (x, y) = (trueskill::trueskill_two_teams(&[a], &[b], &o, &c), trueskill::trueskill(&a, &b, &o, &c));
    check(1, x.0.len() == 1 && x.1.len() == 1);
    ts(2, &x.0[0], &y.0); ts(4, &x.1[0], &y.1);
    let (e, g) = (trueskill::expected_score_two_teams(&[a], &[b], &c), trueskill::expected_score(&a, &b, &c));
    close(6, e.0, g.0); close(7, e.1, g.1);
    close(8, trueskill::match_quality_two_teams(&[a], &[b], &c), trueskill::match_quality(&a, &b, &c));
}
fn c20_ts_members() {
    let (n, m, k, o, c) = (param(0), param(1), param(2), outcome_fork(9), ts_c(20, 1));
    let (a, b) = (ts_team(100, n), ts_team(200, m));
    let p = perm(n, k);
    let (x, y) = (trueskill::trueskill_two_teams(&a, &b, &o, &c), trueskill::trueskill_two_teams(&shuffle(&a, &p), &b, &o, &c));
    for i in 0..n { ts(2, &x.0[p[i]], &y.0[i]); }
    for i in 0..m { ts(4, &x.1[i], &y.1[i]); }
    let (e, g) = (trueskill::expected_score_two_teams(&a, &b, &c), trueskill::expected_score_two_teams(&shuffle(&a, &p), &b, &c));
    close(6, e.0, g.0);
    close(7, trueskill::match_quality_two_teams(&a, &b, &c), trueskill::match_quality_two_teams(&shuffle(&a, &p), &b, &c));
}
fn c20_ts_two_expected() {
    let (n, m, c) = (param(0), param(1), ts_c(20, 1));
    let (a, b) = (ts_team(100, n), ts_team(200, m));
    let (mut p, mut q) = (0.0, 0.0);
    for x in &a { p += x.rating; }
    for x in &b { q += x.rating; }
    assume(if param(2) == 0 { p > q } else { p < q });
    let x = trueskill::expected_score_multi_team(&[&a, &b], &c);
    let y = trueskill::expected_score_two_teams(&a, &b, &c);
    check(1, x.len() == 2);
    close(2, x[0], y.0); close(3, x[1], y.1);
}
fn c20_ts_order_expected() {
    let (sh, k, c) = (shape(param(0)), param(1), ts_c(20, 1));
    let n = sh.len();
    let v: Vec<Vec<_>> = sh.iter().enumerate().map(|(i, &s)| ts_team(100 * (i as u32 + 1), s)).collect();
    let p = perm(n, k);
    let (a, b): (Vec<&[_]>, Vec<&[_]>) = (v.iter().map(|t| &t[..]).collect(), p.iter().map(|&i| &v[i][..]).collect());
    let (e, g) = (trueskill::expected_score_multi_team(&a, &c), trueskill::expected_score_multi_team(&b, &c));
    check(1, e.len() == n && g.len() == n);
    for i in 0..n { close(4, e[p[i]], g[i]); }
}
}
