//! No panics, no NaN, and results in the shape of the input
use crate::{gen::*, sv::*};
use skillratings::*;

fn list<T>(n: usize, g: impl Fn(u32) -> T) -> Vec<T> { (0..n as u32).map(|j| g(100 + 10 * j)).collect() }
fn fins(v: &[f64], n: usize) {
    check(20, v.len() == n);
    for x in v { fin(21, *x); }
}
fn pair(e: (f64, f64)) { fin(22, e.0); fin(22, e.1); }
/// EGF ratings stay below 3300 with the handicap
fn egf_fine(a: f64, b: f64, h: f64) -> bool {
    let s = |h: f64| 100.0 * (h - 0.5);
    if h < 0.0 { a + s(-h) <= 3299.0 && b <= 3299.0 } else if h > 0.0 { a <= 3299.0 && b + s(h) <= 3299.0 } else { a <= 3299.0 && b <= 3299.0 }
}
/// team sizes from a parameter with digits 1.. for sizes 0..
fn sizes(d: usize) -> Vec<usize> { shape(d).into_iter().map(|k| k - 1).collect() }
fn wls(sh: &[usize]) -> Vec<Vec<weng_lin::WengLinRating>> { sh.iter().enumerate().map(|(i, &k)| wl_team(100 * (i as u32 + 1), k)).collect() }
fn tss(sh: &[usize]) -> Vec<Vec<trueskill::TrueSkillRating>> { sh.iter().enumerate().map(|(i, &k)| ts_team(100 * (i as u32 + 1), k)).collect() }
fn refs<T>(v: &[Vec<T>]) -> Vec<&[T]> { v.iter().map(|t| &t[..]).collect() }

harnesses! {
fn c22_elo() {
    let (n, a, c) = (param(0), elo_r(0), elo_c(20));
    let v = list(n, |i| (elo_r(i), outcome(i + 9)));
    let o: Vec<_> = v.iter().map(|x| x.0).collect();
    fin(1, elo::elo_rating_period(&a, &v, &c).rating);
    fins(&elo::expected_score_rating_period(&a, &o), n);
    if n == 1 { let (x, y) = elo::elo(&a, &v[0].0, &v[0].1, &c); fin(2, x.rating); fin(2, y.rating); pair(elo::expected_score(&a, &o[0])); }
}
fn c22_fifa() {
    let (n, a) = (param(0), fifa_r(0));
    let v = list(n, |i| (fifa_r(i), outcome_fork(i + 9), fifa_cf(i + 5)));
    let o: Vec<_> = v.iter().map(|x| x.0).collect();
    fin(1, fifa::fifa_rating_period(&a, &v).rating);
    fins(&fifa::expected_score_rating_period(&a, &o), n);
    if n == 1 { let (x, y) = fifa::fifa(&a, &v[0].0, &v[0].1, &v[0].2); fin(2, x.rating); fin(2, y.rating); pair(fifa::expected_score(&a, &o[0])); }
}
fn c22_ingo() {
    let (n, a) = (param(0), ingo_r(0));
    let v = list(n, |i| (ingo_r(i), outcome(i + 9)));
    let o: Vec<_> = v.iter().map(|x| x.0).collect();
    fin(1, ingo::ingo_rating_period(&a, &v).rating);
    fins(&ingo::expected_score_rating_period(&a, &o), n);
    if n == 1 { let (x, y) = ingo::ingo(&a, &v[0].0, &v[0].1); fin(2, x.rating); fin(2, y.rating); pair(ingo::expected_score(&a, &o[0])); }
}
fn c22_egf() {
    let (n, a) = (param(0), egf_r(0));
    let v = list(n, |i| (egf_r(i), outcome(i + 9), egf_c(i + 5)));
    let o: Vec<_> = v.iter().map(|x| (x.0, x.2)).collect();
    for x in &v { assume(egf_fine(a.rating, x.0.rating, x.2.handicap)); }
    fin(1, egf::egf_rating_period(&a, &v).rating);
    fins(&egf::expected_score_rating_period(&a, &o), n);
    if n == 1 { let (x, y) = egf::egf(&a, &v[0].0, &v[0].1, &v[0].2); fin(2, x.rating); fin(2, y.rating); pair(egf::expected_score(&a, &o[0].0, &o[0].1)); }
}
/// any age and number of tournaments
fn c22_dwz() {
    let n = param(0);
    let r = |i: u32| dwz::DWZRating { rating: f(i, 0.0, 4000.0), index: int(i + 1, 1, 1 << 40) as usize, age: int(i + 2, 0, 1 << 40) as usize };
    let a = r(0);
    let v = list(n, |i| (r(i), outcome(i + 9)));
    let o: Vec<_> = v.iter().map(|x| x.0).collect();
    if n > 0 { let x = dwz::dwz_rating_period(&a, &v); fin(1, x.rating); check(3, x.index > a.index && x.age == a.age); }
    fins(&dwz::expected_score_rating_period(&a, &o), n);
    if n == 1 { let (x, y) = dwz::dwz(&a, &v[0].0, &v[0].1); fin(2, x.rating); fin(2, y.rating); pair(dwz::expected_score(&a, &o[0])); }
}
fn c22_dwz_first() {
    let n = param(0);
    let v = list(n, |i| (dwz_r(i), outcome_fork(i + 9)));
    match dwz::get_first_dwz(int(0, 0, 1 << 40) as usize, &v) { Ok(x) => { check(1, n >= 5 && x.index == 1); fin(2, x.rating); } Err(_) => {} }
}
fn c22_uscf() {
    let n = param(0);
    let r = |i: u32| uscf::USCFRating { rating: f(i, 100.0, 3500.0), games: int(i + 1, 0, 1 << 40) as usize };
    let (a, c) = (r(0), uscf_c(20));
    let v = list(n, |i| (r(i), outcome(i + 9)));
    let o: Vec<_> = v.iter().map(|x| x.0).collect();
    let x = uscf::uscf_rating_period(&a, &v, &c);
    fin(1, x.rating);
    check(3, x.games == a.games + n);
    fins(&uscf::expected_score_rating_period(&a, &o), n);
    if n == 1 { let (x, y) = uscf::uscf(&a, &v[0].0, &v[0].1, &c); fin(2, x.rating); fin(2, y.rating); pair(uscf::expected_score(&a, &o[0])); }
}
fn c22_glicko() {
    let (n, a, c) = (param(0), gl_r(0), gl_c(20));
    let v = list(n, |i| (gl_r(i), outcome(i + 9)));
    let o: Vec<_> = v.iter().map(|x| x.0).collect();
    let x = glicko::glicko_rating_period(&a, &v, &c);
    fin(1, x.rating); fin(1, x.deviation);
    fins(&glicko::expected_score_rating_period(&a, &o), n);
    pair(glicko::confidence_interval(&a));
    fin(4, glicko::decay_deviation(&a, &c).deviation);
    if n == 1 { let (x, y) = glicko::glicko(&a, &v[0].0, &v[0].1, &c); fin(2, x.rating); fin(2, x.deviation); fin(2, y.rating); fin(2, y.deviation); pair(glicko::expected_score(&a, &o[0])); }
}
fn c22_boost() {
    let (n, a, c) = (param(0), gb_r(0), gb_c(20));
    let v = list(n, |i| (gb_r(i), outcome(i + 9), flag(i + 8)));
    let o: Vec<_> = v.iter().map(|x| (x.0, x.2)).collect();
    let x = glicko_boost::glicko_boost_rating_period(&a, &v, &c);
    fin(1, x.rating); fin(1, x.deviation);
    fins(&glicko_boost::expected_score_rating_period(&a, &o, &c), n);
    pair(glicko_boost::confidence_interval(&a));
    fin(4, glicko_boost::decay_deviation(&a, &c).deviation);
    if n == 1 { let (x, y) = glicko_boost::glicko_boost(&a, &v[0].0, &v[0].1, &c); fin(2, x.rating); fin(2, x.deviation); fin(2, y.rating); fin(2, y.deviation); pair(glicko_boost::expected_score(&a, &o[0].0, &c)); }
}
fn c22_sticko() {
    let (n, a, c) = (param(0), st_r(0), st_c(20));
    let v = list(n, |i| (st_r(i), outcome(i + 9), flag(i + 8)));
    let o: Vec<_> = v.iter().map(|x| (x.0, x.2)).collect();
    let x = sticko::sticko_rating_period(&a, &v, &c);
    fin(1, x.rating); fin(1, x.deviation);
    fins(&sticko::expected_score_rating_period(&a, &o, &c), n);
    pair(sticko::confidence_interval(&a));
    fin(4, sticko::decay_deviation(&a, &c).deviation);
    if n == 1 { let (x, y) = sticko::sticko(&a, &v[0].0, &v[0].1, &c); fin(2, x.rating); fin(2, x.deviation); fin(2, y.rating); fin(2, y.deviation); pair(sticko::expected_score(&a, &o[0].0, &c)); }
}
fn c22_glicko2() {
    let (n, a, c) = (param(0), g2_r(0), g2_c(20));
    let v = list(n, |i| (g2_r(i), outcome(i + 9)));
    let o: Vec<_> = v.iter().map(|x| x.0).collect();
    let x = glicko2::glicko2_rating_period(&a, &v, &c);
    fin(1, x.rating); fin(1, x.deviation); fin(1, x.volatility);
    fins(&glicko2::expected_score_rating_period(&a, &o), n);
    pair(glicko2::confidence_interval(&a));
    fin(4, glicko2::decay_deviation(&a).deviation);
}
fn c22_weng() {
    let (n, a, c) = (param(0), wl_r(0), wl_c(20));
    let v = list(n, |i| (wl_r(i), outcome(i + 9)));
    let o: Vec<_> = v.iter().map(|x| x.0).collect();
    let x = weng_lin::weng_lin_rating_period(&a, &v, &c);
    fin(1, x.rating); fin(1, x.uncertainty);
    fins(&weng_lin::expected_score_rating_period(&a, &o, &c), n);
    if n == 1 { let (x, y) = weng_lin::weng_lin(&a, &v[0].0, &v[0].1, &c); fin(2, x.rating); fin(2, x.uncertainty); fin(2, y.rating); fin(2, y.uncertainty); pair(weng_lin::expected_score(&a, &o[0], &c)); }
}
/// teams without members, a single team and no team at all included; ranks of any size
fn c22_weng_teams() {
    let (sh, c) = (sizes(param(0)), wl_c(20));
    let ts = wls(&sh);
    let rk: Vec<_> = ts.iter().enumerate().map(|(i, t)| (&t[..], MultiTeamOutcome::new([0, usize::MAX, 7][pick(i as u32, 0, 2)]))).collect();
    let r = weng_lin::weng_lin_multi_team(&rk, &c);
    check(1, r.len() == sh.len());
    for i in 0..sh.len() { check(2, r[i].len() == sh[i]); for p in &r[i] { fin(3, p.rating); fin(3, p.uncertainty); } }
    if !sh.contains(&0) { fins(&weng_lin::expected_score_multi_team(&refs(&ts), &c), sh.len()); }
    if sh.len() == 2 {
        let (x, y) = weng_lin::weng_lin_two_teams(&ts[0], &ts[1], &outcome_fork(9), &c);
        check(4, x.len() == sh[0] && y.len() == sh[1]);
        for p in x.iter().chain(&y) { fin(5, p.rating); fin(5, p.uncertainty); }
        if !sh.contains(&0) { pair(weng_lin::expected_score_two_teams(&ts[0], &ts[1], &c)); }
    }
}
fn c22_ts() {
    let (n, a, c) = (param(0), ts_r(0), ts_c(20, 1));
    let v = list(n, |i| (ts_r(i), outcome_fork(i + 9)));
    let o: Vec<_> = v.iter().map(|x| x.0).collect();
    let x = trueskill::trueskill_rating_period(&a, &v, &c);
    fin(1, x.rating); fin(1, x.uncertainty);
    fins(&trueskill::expected_score_rating_period(&a, &o, &c), n);
    fins(&trueskill::match_quality_rating_period(&a, &o, &c), n);
    fin(4, trueskill::get_rank(&a));
}
/// expected scores and match quality are defined, whatever the teams
fn c22_ts_scores() {
    let (sh, c) = (sizes(param(0)), ts_c(20, 0));
    let ts = tss(&sh);
    if sh.len() == 2 {
        fin(3, trueskill::match_quality_two_teams(&ts[0], &ts[1], &c));
        pair(trueskill::expected_score_two_teams(&ts[0], &ts[1], &c));
    }
    match trueskill::match_quality_multi_team(&refs(&ts), &c, None) { Ok(q) => fin(4, q), Err(_) => check(5, false) }
}
/// several teams: no team, one team, teams without members
fn c22_ts_empty() {
    let (sh, c) = (sizes(param(0)), ts_c(20, 1));
    let ts = tss(&sh);
    let rk: Vec<_> = ts.iter().enumerate().map(|(i, t)| (&t[..], MultiTeamOutcome::new([0, usize::MAX, 7][pick(i as u32, 0, 2)]))).collect();
    match trueskill::trueskill_multi_team(&rk, &c, None) {
        Ok(r) => {
            check(1, r.len() == sh.len());
            for i in 0..sh.len() { check(2, r[i].len() == sh[i]); for j in 0..sh[i] { close(3, r[i][j].rating, ts[i][j].rating); close(4, r[i][j].uncertainty, ts[i][j].uncertainty); } }
        }
        Err(_) => check(5, false),
    }
    if sh.iter().any(|&k| k > 0) { fins(&trueskill::expected_score_multi_team(&refs(&ts), &c), sh.len()); }
}
/// an extreme upset, in one game of two teams
fn c22_ts_upset() {
    let c = trueskill::TrueSkillConfig { draw_probability: 0.1, beta: 0.5, dynamics_factor: 0.0 };
    let (a, b) = ([trueskill::TrueSkillRating { rating: 0.0, uncertainty: 0.5 }], [trueskill::TrueSkillRating { rating: 100.0, uncertainty: 0.5 }]);
    match trueskill::trueskill_multi_team(&[(&a[..], MultiTeamOutcome::new(1)), (&b[..], MultiTeamOutcome::new(2))], &c, None) {
        Ok(r) => for p in r.iter().flatten() { fin(1, p.rating); fin(1, p.uncertainty); },
        Err(_) => check(2, false),
    }
}
}
