//! Weights of TrueSkill team members
use crate::{gen::*, sv::*};
use skillratings::{trueskill::*, MultiTeamOutcome};

fn teams(sh: &[usize]) -> Vec<Vec<TrueSkillRating>> { sh.iter().enumerate().map(|(i, &k)| ts_team(100 * (i as u32 + 1), k)).collect() }
fn refs<T>(v: &[Vec<T>]) -> Vec<&[T]> { v.iter().map(|t| &t[..]).collect() }
/// the first thing wrong with the weights, None if nothing is
fn wrong(sh: &[usize], w: &[Vec<f64>]) -> Option<WeightError> {
    if w.len() != sh.len() { return Some(WeightError::TeamAmount); }
    for i in 0..sh.len() {
        if w[i].len() != sh[i] { return Some(WeightError::PlayerAmount { team: i }); }
        for j in 0..sh[i] { if w[i][j] < 0.0 { return Some(WeightError::Weight { team: i, player: j }); } }
    }
    None
}
fn weights(sh: &[usize]) -> Vec<Vec<f64>> { sh.iter().enumerate().map(|(i, &k)| (0..k).map(|j| f(50 + 10 * i as u32 + j as u32, -10.0, 10.0)).collect()).collect() }

harnesses! {
/// weights of any shape and sign: errors name what is wrong, and only that
fn c25_errors() {
    let (sh, ws, c) = (shape(param(0)), weights(&shape(param(1))), ts_c(20, 1));
    let ts = teams(&sh);
    let bad = wrong(&sh, &ws);
    assume(bad.is_some());
    check(1, match_quality_multi_team(&refs(&ts), &c, Some(&refs(&ws))).err() == bad);
    let tr: Vec<_> = ts.iter().enumerate().map(|(i, t)| (&t[..], MultiTeamOutcome::new(i))).collect();
    check(2, trueskill_multi_team(&tr, &c, Some(&refs(&ws))).err() == bad);
}
/// valid weights are no error
fn c25_fine() {
    let (sh, c) = (shape(param(0)), ts_c(20, 1));
    let (ts, ws) = (teams(&sh), weights(&sh));
    for w in &ws { for (j, &x) in w.iter().enumerate() { assume(x >= if j == 0 { 0.1 } else { 0.0 }); } }
    check(1, match_quality_multi_team(&refs(&ts), &c, Some(&refs(&ws))).is_ok());
    check(2, match_quality_multi_team(&refs(&ts), &c, None).is_ok());
}
/// a single team keeps its ratings; its weights are looked at all the same
fn c25_single() {
    let (k, c) = (param(0), ts_c(20, 1));
    let (t, ws) = (ts_team(100, k), weights(&[k]));
    let bad = wrong(&[k], &ws);
    match trueskill_multi_team(&[(&t, MultiTeamOutcome::new(pick(3, 0, 2)))], &c, Some(&refs(&ws))) {
        Err(e) => check(1, bad == Some(e)),
        Ok(r) => { check(2, bad.is_none()); check(3, r.len() == 1 && r[0] == t) }
    }
}
}
