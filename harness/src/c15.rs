//! Results point the right way: winners never lose rating, losers never gain, draws move towards each other,
//! and a better result is never worth less
use crate::{gen::*, sv::*};
use skillratings::{Outcomes::*, *};

/// old and new ratings of a game won by one and lost by two
fn won(id: u32, r1: f64, r2: f64, n1: f64, n2: f64) {
    le(id, r1, n1);
    le(id + 1, n2, r2);
}
fn drawn(id: u32, r1: f64, r2: f64, n1: f64, n2: f64) {
    if r1 <= r2 { le(id, r1, n1); le(id + 1, n2, r2); }
    if r2 <= r1 { le(id, n1, r1); le(id + 1, r2, n2); }
}
/// ratings of the same player after win, draw and loss
fn order(id: u32, w: f64, d: f64, l: f64) {
    le(id, d, w);
    le(id + 1, l, d);
}

fn nth(i: usize) -> Outcomes { [WIN, DRAW, LOSS][i] }

harnesses! {
fn c15_elo() {
    let (a, b, c) = (elo_r(0), elo_r(10), elo_c(20));
    let g = |o| elo::elo(&a, &b, &o, &c);
    let (w, d, l) = (g(WIN), g(DRAW), g(LOSS));
    won(1, a.rating, b.rating, w.0.rating, w.1.rating);
    won(3, b.rating, a.rating, l.1.rating, l.0.rating);
    drawn(5, a.rating, b.rating, d.0.rating, d.1.rating);
    order(7, w.0.rating, d.0.rating, l.0.rating);
    order(9, l.1.rating, d.1.rating, w.1.rating);
    let p = |o| elo::elo_rating_period(&a, &[(b, o)], &c).rating;
    order(11, p(WIN), p(DRAW), p(LOSS));
}
fn c15_fifa() {
    let (a, b, c) = (fifa_r(0), fifa_r(10), fifa_c(20));
    let g = |o| fifa::fifa(&a, &b, &o, &c);
    let (w, d, l) = (g(WIN), g(DRAW), g(LOSS));
    order(7, w.0.rating, d.0.rating, l.0.rating);
    order(9, l.1.rating, d.1.rating, w.1.rating);
    // in knockout rounds nobody loses points
    if c.knockout {
        for (i, x) in [w, d, l].iter().enumerate() { le(20 + i as u32, a.rating, x.0.rating); le(30 + i as u32, b.rating, x.1.rating); }
    }
    if !c.penalties {
        le(1, a.rating, w.0.rating); le(2, b.rating, l.1.rating);
        if !c.knockout {
            won(1, a.rating, b.rating, w.0.rating, w.1.rating);
            won(3, b.rating, a.rating, l.1.rating, l.0.rating);
            drawn(5, a.rating, b.rating, d.0.rating, d.1.rating);
        }
    }
}
/// Ingo ratings are better when lower
fn c15_ingo() {
    let (a, b) = (ingo_r(0), ingo_r(10));
    let g = |o| ingo::ingo(&a, &b, &o);
    let (w, d, l) = (g(WIN), g(DRAW), g(LOSS));
    order(7, -w.0.rating, -d.0.rating, -l.0.rating);
    order(9, -l.1.rating, -d.1.rating, -w.1.rating);
}
fn c15_egf() {
    let (a, b, c) = (egf_r(0), egf_r(10), egf_c(20));
    assume(c.handicap.abs() * 100.0 + 50.0 + a.rating <= 3250.0 && c.handicap.abs() * 100.0 + 50.0 + b.rating <= 3250.0);
    let g = |o| egf::egf(&a, &b, &o, &c);
    let (w, d, l) = (g(WIN), g(DRAW), g(LOSS));
    order(7, w.0.rating, d.0.rating, l.0.rating);
    order(9, l.1.rating, d.1.rating, w.1.rating);
    le(1, a.rating, w.0.rating); le(2, b.rating, l.1.rating);
}
fn c15_dwz() {
    let (a, b, o) = (dwz_r(0), dwz_r(10), nth(param(0)));
    let x = dwz::dwz(&a, &b, &o);
    match o {
        WIN => won(1, a.rating, b.rating, x.0.rating, x.1.rating),
        LOSS => won(3, b.rating, a.rating, x.1.rating, x.0.rating),
        DRAW => drawn(5, a.rating, b.rating, x.0.rating, x.1.rating),
    }
}
fn c15_dwz_order() {
    let (a, b) = (dwz_r(0), dwz_r(10));
    let g = |o| dwz::dwz(&a, &b, &o);
    let (p, q) = if param(0) == 0 { (WIN, DRAW) } else { (DRAW, LOSS) };
    let (x, y) = (g(p), g(q));
    le(7, y.0.rating, x.0.rating);
    le(8, x.1.rating, y.1.rating);
}
fn c15_uscf() {
    let (a, b, c) = (uscf_r(0), uscf_r(10), uscf_c(20));
    let g = |o| uscf::uscf(&a, &b, &o, &c);
    let (w, d, l) = (g(WIN), g(DRAW), g(LOSS));
    order(7, w.0.rating, d.0.rating, l.0.rating);
    order(9, l.1.rating, d.1.rating, w.1.rating);
    if a.games > 8 { le(1, a.rating, w.0.rating); le(2, l.0.rating, a.rating); }
    if b.games > 8 { le(3, b.rating, l.1.rating); le(4, w.1.rating, b.rating); }
}
fn c15_glicko() {
    let (a, b, c) = (gl_r(0), gl_r(10), gl_c(20));
    let g = |o| glicko::glicko(&a, &b, &o, &c);
    let (w, d, l) = (g(WIN), g(DRAW), g(LOSS));
    won(1, a.rating, b.rating, w.0.rating, w.1.rating);
    won(3, b.rating, a.rating, l.1.rating, l.0.rating);
    drawn(5, a.rating, b.rating, d.0.rating, d.1.rating);
    order(7, w.0.rating, d.0.rating, l.0.rating);
    order(9, l.1.rating, d.1.rating, w.1.rating);
    let p = |o| glicko::glicko_rating_period(&a, &[(b, o)], &c).rating;
    order(11, p(WIN), p(DRAW), p(LOSS));
}
fn c15_glicko2() {
    let (a, b, c, o) = (g2_r(0), g2_r(10), g2_c(20), nth(param(0)));
    let x = glicko2::glicko2(&a, &b, &o, &c);
    // whatever the volatility
    cut(x.0.volatility);
    cut(x.1.volatility);
    match o {
        WIN => won(1, a.rating, b.rating, x.0.rating, x.1.rating),
        LOSS => won(3, b.rating, a.rating, x.1.rating, x.0.rating),
        DRAW => drawn(5, a.rating, b.rating, x.0.rating, x.1.rating),
    }
}
fn c15_glicko2_period() {
    let (a, b, c, o) = (g2_r(0), g2_r(10), g2_c(20), nth(param(0)));
    let x = glicko2::glicko2_rating_period(&a, &[(b, o)], &c);
    cut(x.volatility);
    match o {
        WIN => le(1, a.rating, x.rating),
        _ => le(3, x.rating, a.rating),
    }
}
/// player one is white: eta is their advantage
fn c15_boost() {
    let (a, b, c) = (gb_r(0), gb_r(10), gb_c(20));
    let g = |o| glicko_boost::glicko_boost(&a, &b, &o, &c);
    let (w, l) = (g(WIN), g(LOSS));
    won(1, a.rating, b.rating, w.0.rating, w.1.rating);
    won(3, b.rating, a.rating, l.1.rating, l.0.rating);
}
fn c15_sticko() {
    let (a, b, c) = (st_r(0), st_r(10), st_c(20));
    let g = |o| sticko::sticko(&a, &b, &o, &c);
    let (w, d, l) = (g(WIN), g(DRAW), g(LOSS));
    order(7, w.0.rating, d.0.rating, l.0.rating);
    order(9, l.1.rating, d.1.rating, w.1.rating);
}
fn c15_sticko_plain() {
    let (a, b) = (st_r(0), st_r(10));
    let c = sticko::StickoConfig { lambda: 0.0, beta: 0.0, ..st_c(20) };
    let g = |o| sticko::sticko(&a, &b, &o, &c);
    let (w, l) = (g(WIN), g(LOSS));
    won(1, a.rating, b.rating, w.0.rating, w.1.rating);
    won(3, b.rating, a.rating, l.1.rating, l.0.rating);
}
fn c15_weng() {
    let (a, b, c) = (wl_r(0), wl_r(10), wl_c(20));
    let g = |o| weng_lin::weng_lin(&a, &b, &o, &c);
    let (w, d, l) = (g(WIN), g(DRAW), g(LOSS));
    won(1, a.rating, b.rating, w.0.rating, w.1.rating);
    won(3, b.rating, a.rating, l.1.rating, l.0.rating);
    drawn(5, a.rating, b.rating, d.0.rating, d.1.rating);
    order(7, w.0.rating, d.0.rating, l.0.rating);
    order(9, l.1.rating, d.1.rating, w.1.rating);
}
fn c15_weng_teams() {
    let (n, m, c) = (param(0), param(1), wl_c(20));
    let (a, b) = (wl_team(100, n), wl_team(200, m));
    let g = |o| weng_lin::weng_lin_two_teams(&a, &b, &o, &c);
    let (w, d, l) = (g(WIN), g(DRAW), g(LOSS));
    for i in 0..n {
        le(1, a[i].rating, w.0[i].rating); le(2, l.0[i].rating, a[i].rating);
        order(7, w.0[i].rating, d.0[i].rating, l.0[i].rating);
    }
    for i in 0..m {
        le(3, b[i].rating, l.1[i].rating); le(4, w.1[i].rating, b[i].rating);
        order(9, l.1[i].rating, d.1[i].rating, w.1[i].rating);
    }
}
/// the first of several teams never loses, the last never gains
fn c15_weng_multi() {
    let (sh, c) = (shape(param(0)), wl_c(20));
    let ts: Vec<Vec<_>> = sh.iter().enumerate().map(|(i, &k)| wl_team(100 * (i as u32 + 1), k)).collect();
    let rf: Vec<(&[_], MultiTeamOutcome)> = ts.iter().enumerate().map(|(i, t)| (&t[..], MultiTeamOutcome::new(i + 1))).collect();
    let got = weng_lin::weng_lin_multi_team(&rf, &c);
    let k = ts.len() - 1;
    for (p, q) in ts[0].iter().zip(&got[0]) { le(1, p.rating, q.rating); }
    for (p, q) in ts[k].iter().zip(&got[k]) { le(2, q.rating, p.rating); }
}
fn c15_ts() {
    let (a, b, c) = (ts_r(0), ts_r(10), ts_c(20, param(0)));
    if param(1) == 0 {
        let x = trueskill::trueskill(&a, &b, &WIN, &c);
        won(1, a.rating, b.rating, x.0.rating, x.1.rating);
    } else {
        let x = trueskill::trueskill(&a, &b, &LOSS, &c);
        won(3, b.rating, a.rating, x.1.rating, x.0.rating);
    }
}
fn c15_ts_teams() {
    let (n, m, c) = (param(0), param(1), ts_c(20, 1));
    let (a, b) = (ts_team(100, n), ts_team(200, m));
    if param(2) == 0 {
        let x = trueskill::trueskill_two_teams(&a, &b, &WIN, &c);
        for i in 0..n { le(1, a[i].rating, x.0[i].rating); }
        for i in 0..m { le(2, x.1[i].rating, b[i].rating); }
    } else {
        let x = trueskill::trueskill_two_teams(&a, &b, &LOSS, &c);
        for i in 0..n { le(3, x.0[i].rating, a[i].rating); }
        for i in 0..m { le(4, b[i].rating, x.1[i].rating); }
    }
}
/// rating periods: a better result in place of the last one is never worth less (sg: -1 where lower is better)
fn c15_period() {
    let (s, n) = (param(0), param(1) as u32);
    macro_rules! game { ($r:ident, $o:expr, $sg:expr, $run:expr) => {{
        let a = $r(0);
        let mut v: Vec<_> = (0..n).map(|j| ($r(100 + 10 * j), outcome(500 + j))).collect();
        let last = v.len() - 1;
        let mut g = |o| { v[last].1 = o; $run(&a, &v[..]) };
        let (w, d, l): (f64, f64, f64) = (g(WIN), g(DRAW), g(LOSS));
        order($o, $sg * w, $sg * d, $sg * l);
    }} }
    match s {
        0 => { let c = elo_c(20); game!(elo_r, 1, 1.0, |a: &_, v: &[_]| elo::elo_rating_period(a, v, &c).rating) }
        1 => { let c = fifa_c(20); game!(fifa_r, 3, 1.0, |a: &_, v: &[(_, Outcomes)]| fifa::fifa_rating_period(a, &v.iter().map(|x| (x.0, x.1, c)).collect::<Vec<_>>()).rating) }
        2 => game!(ingo_r, 5, -1.0, |a: &_, v: &[_]| ingo::ingo_rating_period(a, v).rating),
        3 => { let c = egf::EGFConfig { handicap: 0.0 }; game!(egf_r, 7, 1.0, |a: &_, v: &[(_, Outcomes)]| egf::egf_rating_period(a, &v.iter().map(|x| (x.0, x.1, c)).collect::<Vec<_>>()).rating) }
        4 => { let c = uscf_c(20); game!(uscf_r, 9, 1.0, |a: &_, v: &[_]| uscf::uscf_rating_period(a, v, &c).rating) }
        5 => { let c = gl_c(20); game!(gl_r, 11, 1.0, |a: &_, v: &[_]| glicko::glicko_rating_period(a, v, &c).rating) }
        6 => { let c = st_c(20); game!(st_r, 13, 1.0, |a: &_, v: &[(_, Outcomes)]| sticko::sticko_rating_period(a, &v.iter().map(|x| (x.0, x.1, true)).collect::<Vec<_>>(), &c).rating) }
        _ => { let c = wl_c(20); game!(wl_r, 15, 1.0, |a: &_, v: &[_]| weng_lin::weng_lin_rating_period(a, v, &c).rating) }
    }
}
}
