//! TrueSkill: two players, rating periods, two teams
use crate::{gen::*, sv::*};
use skillratings::{trueskill::*, Outcomes};

fn mu(t: &[TrueSkillRating]) -> f64 { let mut s = 0.0; for p in t { s += p.rating; } s }
fn var(t: &[TrueSkillRating]) -> f64 { let mut s = 0.0; for p in t { s += p.uncertainty * p.uncertainty; } s }
fn c_of(a: &[TrueSkillRating], b: &[TrueSkillRating], c: &TrueSkillConfig) -> f64 { ((a.len() + b.len()) as f64 * c.beta * c.beta + var(a) + var(b)).sqrt() }
/// new ratings of team a that got the outcome against b
fn update(a: &[TrueSkillRating], b: &[TrueSkillRating], o: Outcomes, cfg: &TrueSkillConfig) -> Vec<(f64, f64)> {
    let c = c_of(a, b, cfg);
    let e = cut(quantile_half(cfg.draw_probability)) * ((a.len() + b.len()) as f64).sqrt() * cfg.beta;
    let d = mu(a) - mu(b);
    let (sign, (v, w)) = match o {
        Outcomes::WIN => (1.0, vw_win(d / c, e / c)),
        Outcomes::LOSS => (-1.0, vw_win(-d / c, e / c)),
        Outcomes::DRAW => (1.0, vw_draw(d / c, e / c)),
    };
    a.iter().map(|p| {
        let s = p.uncertainty * p.uncertainty + cfg.dynamics_factor * cfg.dynamics_factor;
        (p.rating + sign * s / c * v, (s * (1.0 - s / (c * c) * w)).sqrt())
    }).collect()
}
fn winp(a: &[TrueSkillRating], b: &[TrueSkillRating], c: &TrueSkillConfig) -> f64 { phi((mu(a) - mu(b)) / c_of(a, b, c)) }

harnesses! {
fn c12_pair() {
    let dp = param(0);
    let (a, b, o, c) = (ts_r(0), ts_r(10), outcome_fork(20), ts_c(30, dp));
    let (x, y) = trueskill(&a, &b, &o, &c);
    let r = update(&[a], &[b], o, &c)[0];
    close(1, x.rating, r.0);
    close(2, x.uncertainty, r.1);
    // the second player's view of the same game
    let (d, cc) = (a.rating - b.rating, c_of(&[a], &[b], &c));
    let e = cut(quantile_half(c.draw_probability)) * 2f64.sqrt() * c.beta;
    let (sign, (v, w)) = match o {
        Outcomes::WIN => (-1.0, vw_win(d / cc, e / cc)),
        Outcomes::LOSS => (1.0, vw_win(-d / cc, e / cc)),
        Outcomes::DRAW => (-1.0, vw_draw(d / cc, e / cc)),
    };
    let s = b.uncertainty * b.uncertainty + c.dynamics_factor * c.dynamics_factor;
    close(3, y.rating, b.rating + sign * s / cc * v);
    close(4, y.uncertainty, (s * (1.0 - s / (cc * cc) * w)).sqrt());
}
fn c12_expected() {
    let (a, b, c) = (ts_r(0), ts_r(10), ts_c(30, 1));
    let (e1, e2) = expected_score(&a, &b, &c);
    close(1, e1, winp(&[a], &[b], &c));
    close(2, e1 + e2, 1.0);
    let es = expected_score_rating_period(&a, &[b, a, b], &c);
    check(3, es.len() == 3);
    close(4, es[0], e1);
    close(5, es[1], winp(&[a], &[a], &c));
    close(6, es[2], e1);
    close(7, get_rank(&a), a.rating - 3.0 * a.uncertainty);
}
fn c12_period() {
    let n = param(0);
    let (p, c) = (ts_r(0), ts_c(10, param(1)));
    let rs = results_fork(20, n, ts_r);
    if n == 0 {
        let got = trueskill_rating_period(&p, &rs, &c);
        close(1, got.rating, p.rating); close(2, got.uncertainty, p.uncertainty); return; }
    let before = trueskill_rating_period(&p, &rs[..n - 1], &c);
    let before = TrueSkillRating { rating: cut(before.rating), uncertainty: cut(before.uncertainty) };
    let got = trueskill_rating_period(&p, &rs, &c);
    let r = update(&[before], &[rs[n - 1].0], rs[n - 1].1, &c)[0];
    close(3, got.rating, r.0);
    close(4, got.uncertainty, r.1);
}
fn c12_teams() {
    let (n, m) = (param(0), param(1));
    let (a, b, o, c) = (ts_team(100, n), ts_team(200, m), outcome_fork(20), ts_c(30, param(2)));
    let (x, y) = trueskill_two_teams(&a, &b, &o, &c);
    check(1, x.len() == n && y.len() == m);
    if n == 0 || m == 0 {
        for i in 0..n { close(100 + i as u32, x[i].rating, a[i].rating); close(110 + i as u32, x[i].uncertainty, a[i].uncertainty); }
        for i in 0..m { close(200 + i as u32, y[i].rating, b[i].rating); close(210 + i as u32, y[i].uncertainty, b[i].uncertainty); }
        return;
    }
    let (d, cc) = (mu(&a) - mu(&b), c_of(&a, &b, &c));
    let e = quantile_half(c.draw_probability) * ((n + m) as f64).sqrt() * c.beta;
    let (sign, (v, w)) = match o {
        Outcomes::WIN => (1.0, vw_win(d / cc, e / cc)),
        Outcomes::LOSS => (-1.0, vw_win(-d / cc, e / cc)),
        Outcomes::DRAW => (1.0, vw_draw(d / cc, e / cc)),
    };
    for (t, got, sg, k) in [(&a, &x, sign, 100u32), (&b, &y, -sign, 200)] {
        for i in 0..t.len() {
            let s = t[i].uncertainty * t[i].uncertainty + c.dynamics_factor * c.dynamics_factor;
            close(k + i as u32, got[i].rating, t[i].rating + sg * s / cc * v);
            close(k + 10 + i as u32, got[i].uncertainty, (s * (1.0 - s / (cc * cc) * w)).sqrt());
        }
    }
    let (e1, e2) = expected_score_two_teams(&a, &b, &c);
    close(5, e1, winp(&a, &b, &c));
    close(6, e1 + e2, 1.0);
}
}
