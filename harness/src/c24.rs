//! New ratings, the Rating trait, scores, ranks and intervals
use crate::{gen::*, sv::*};
use skillratings::{
    dwz::*, egf::*, elo::*, fifa::*, glicko::*, glicko2::*, glicko_boost::*, ingo::*, sticko::*, trueskill::*, uscf::*, weng_lin::*, MultiTeamOutcome, Outcomes, Rating,
};

/// a system without uncertainty
fn plain<T: Rating + Default>(r: f64, u: f64, start: f64) {
    for unc in [None, Some(u)] {
        let x = T::new(Some(r), unc);
        close(1, x.rating(), r);
        check(2, x.uncertainty().is_none());
        let y = T::new(None, unc);
        close(3, y.rating(), start);
        check(4, y.uncertainty().is_none());
    }
    close(5, T::default().rating(), start);
    check(6, T::default().uncertainty().is_none());
}
fn unsure<T: Rating + Default>(r: f64, u: f64, start: f64, dev: f64) {
    let x = T::new(Some(r), Some(u));
    close(1, x.rating(), r); close(2, x.uncertainty().unwrap_or(-1.0), u);
    let x = T::new(None, Some(u));
    close(3, x.rating(), start); close(4, x.uncertainty().unwrap_or(-1.0), u);
    let x = T::new(Some(r), None);
    close(5, x.rating(), r); close(6, x.uncertainty().unwrap_or(-1.0), dev);
    for x in [T::new(None, None), T::default()] { close(7, x.rating(), start); close(8, x.uncertainty().unwrap_or(-1.0), dev); }
}

harnesses! {
fn c24_plain() {
    let (r, u) = (f(0, -10000.0, 10000.0), f(1, 0.0, 1000.0));
    plain::<EloRating>(r, u, 1000.0);
    plain::<FifaRating>(r, u, 1000.0);
    plain::<EGFRating>(r, u, 0.0);
    plain::<IngoRating>(r, u, 230.0);
    plain::<DWZRating>(r, u, 1000.0);
    plain::<USCFRating>(r, u, 1300.0);
}
fn c24_unsure() {
    let (r, u) = (f(0, -10000.0, 10000.0), f(1, 0.0, 1000.0));
    unsure::<GlickoRating>(r, u, 1500.0, 350.0);
    unsure::<Glicko2Rating>(r, u, 1500.0, 350.0);
    unsure::<GlickoBoostRating>(r, u, 1500.0, 350.0);
    unsure::<StickoRating>(r, u, 1500.0, 350.0);
    unsure::<WengLinRating>(r, u, 25.0, 25.0 / 3.0);
    unsure::<TrueSkillRating>(r, u, 25.0, 25.0 / 3.0);
    let g: Glicko2Rating = Rating::new(Some(r), Some(u));
    close(20, g.volatility, 0.06);
}
/// what else a new rating consists of
fn c24_ages() {
    let (r, age) = (f(0, -10000.0, 10000.0), int(1, 0, 130) as usize);
    let x = IngoRating::new(age); close(1, x.rating, 230.0); check(2, x.age == age);
    let x = DWZRating::new(age); close(3, x.rating, 1000.0); check(4, x.age == age && x.index == 1);
    let x: DWZRating = Rating::new(Some(r), None); check(5, x.age == 26 && x.index == 1);
    let x: IngoRating = Rating::new(Some(r), None); check(6, x.age == 26);
    let x: USCFRating = Rating::new(Some(r), None); check(7, x.games == 0);
    check(8, DWZRating::default() == DWZRating::new(26) && IngoRating::default() == IngoRating::new(26) && USCFRating::default() == USCFRating::new(26));
}
/// 50 points per year of age, between 100 and 1300
fn c24_uscf_age() {
    let age = int(1, 0, 1000);
    let x = USCFRating::new(age as usize);
    let r = age as f64 * 50.0;
    close(1, x.rating, if r < 100.0 { 100.0 } else if r > 1300.0 { 1300.0 } else { r });
    check(2, x.games == 0);
}
fn c24_configs() {
    let c = EloConfig::new(); close(1, c.k, 32.0); close(1, EloConfig::default().k, 32.0);
    let c = FifaConfig::new(); close(2, c.importance, 10.0); check(2, !c.knockout && !c.penalties);
    close(3, EGFConfig::new().handicap, 0.0); close(3, EGFConfig::default().handicap, 0.0);
    close(4, USCFConfig::new().t, 14.0); close(4, USCFConfig::default().t, 14.0);
    close(5, GlickoConfig::new().c, 63.2); close(5, GlickoConfig::default().c, 63.2);
    let c = Glicko2Config::default(); close(6, c.tau, 0.5); close(6, c.convergence_tolerance, 0.000_001);
    let c = StickoConfig::default(); close(7, c.h, 10.0); close(7, c.beta, 0.0); close(7, c.lambda, 2.0); close(7, c.gamma, 0.0); close(7, c.c, 10.0);
    let c = WengLinConfig::default(); close(8, c.beta, 25.0 / 6.0); close(8, c.uncertainty_tolerance, 0.000_001);
    let c = TrueSkillConfig::default(); close(9, c.draw_probability, 0.1); close(9, c.beta, 25.0 / 6.0); close(9, c.dynamics_factor, 25.0 / 300.0);
    let c = GlickoBoostConfig::default(); close(10, c.eta, 30.0); close(10, c.k, 1.96); close(10, c.b.0, 0.20139); close(10, c.b.1, 17.5);
    close(11, c.alpha.0, 5.83733); close(11, c.alpha.1, -1.75374e-04); close(11, c.alpha.2, -7.080124e-05); close(11, c.alpha.3, 0.001733792); close(11, c.alpha.4, 0.00026706);
}
fn c24_outcomes() {
    let o = outcome(0);
    close(1, o.to_chess_points(), score(o));
    close(2, o.to_chess_points() + flip(o).to_chess_points(), 1.0);
    check(3, (o == Outcomes::WIN) == (o.to_chess_points() == 1.0) && (o == Outcomes::DRAW) == (o.to_chess_points() == 0.5));
}
fn c24_ranks() {
    let (a, b) = (int(0, 0, 1 << 40) as usize, int(1, 0, 1 << 40) as usize);
    let (x, y) = (MultiTeamOutcome::new(a), MultiTeamOutcome::from(b));
    check(1, x.rank() == a && usize::from(y) == b && y.rank() == b);
    check(2, (x < y) == (a < b) && (x == y) == (a == b) && (x > y) == (a > b));
    check(3, x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)));
    check(4, x.max(y).rank() == a.max(b) && x.min(y).rank() == a.min(b));
}
fn c24_intervals() {
    let (a, b, c, d) = (gl_r(0), g2_r(10), gb_r(20), st_r(30));
    let x = skillratings::glicko::confidence_interval(&a);
    close(1, x.0, a.rating - 1.96 * a.deviation); close(2, x.1, a.rating + 1.96 * a.deviation);
    let x = skillratings::glicko2::confidence_interval(&b);
    close(3, x.0, b.rating - 1.96 * b.deviation); close(4, x.1, b.rating + 1.96 * b.deviation);
    let x = skillratings::glicko_boost::confidence_interval(&c);
    close(5, x.0, c.rating - 1.96 * c.deviation); close(6, x.1, c.rating + 1.96 * c.deviation);
    let x = skillratings::sticko::confidence_interval(&d);
    close(7, x.0, d.rating - 1.96 * d.deviation); close(8, x.1, d.rating + 1.96 * d.deviation);
    let t = ts_r(40);
    close(9, get_rank(&t), t.rating - 3.0 * t.uncertainty);
}
}
