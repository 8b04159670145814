//! Conversions between rating systems, and back
use crate::{gen::*, sv::*};
use skillratings::{
    dwz::DWZRating, egf::EGFRating, elo::EloRating, fifa::FifaRating, glicko::GlickoRating, glicko2::Glicko2Rating, glicko_boost::GlickoBoostRating, ingo::IngoRating, sticko::StickoRating,
    trueskill::TrueSkillRating, uscf::USCFRating, weng_lin::WengLinRating,
};

harnesses! {
fn c21_elo_dwz() {
    let e = elo_r(0);
    let d = DWZRating::from(e);
    close(1, d.rating, e.rating);
    check(2, d.index == 6 && d.age == 26);
    close(3, EloRating::from(d).rating, e.rating);
    let d = dwz_r(10);
    close(4, EloRating::from(d).rating, d.rating);
}
fn c21_elo_fifa() {
    let e = elo_r(0);
    let d = FifaRating::from(e);
    close(1, d.rating, e.rating);
    close(2, EloRating::from(d).rating, e.rating);
}
/// Elo = 2840 - 8 Ingo, Ingo = 355 - Elo / 8
fn c21_elo_ingo() {
    let e = elo_r(0);
    let i = IngoRating::from(e);
    close(1, i.rating, 355.0 - e.rating / 8.0);
    check(2, i.age == 26);
    close(3, EloRating::from(i).rating, e.rating);
    let i = ingo_r(10);
    close(4, EloRating::from(i).rating, 2840.0 - 8.0 * i.rating);
    close(5, IngoRating::from(EloRating::from(i)).rating, i.rating);
    // the better player stays the better player
    let e2 = elo_r(20);
    if e.rating < e2.rating { check(6, IngoRating::from(e2).rating < IngoRating::from(e).rating); }
}
/// above 2000: USCF = 180 + 0.94 Elo (10 games), else 20 + 1.02 Elo (5 games)
fn c21_elo_uscf() {
    let e = elo_r(0);
    let u = USCFRating::from(e);
    close(1, u.rating, if e.rating > 2000.0 { 180.0 + 0.94 * e.rating } else { 20.0 + 1.02 * e.rating });
    check(2, u.games == if e.rating > 2000.0 { 10 } else { 5 });
    close(3, EloRating::from(u).rating, e.rating);
}
fn c21_uscf_elo() {
    let u = uscf_r(0);
    let e = EloRating::from(u);
    close(1, e.rating, if u.rating > 2060.0 { (u.rating - 180.0) / 0.94 } else { (u.rating - 20.0) / 1.02 });
    close(2, USCFRating::from(e).rating, u.rating);
}
fn c21_uscf_order() {
    let (a, b) = (elo_r(0), elo_r(10));
    assume(a.rating < b.rating);
    check(1, USCFRating::from(a).rating < USCFRating::from(b).rating);
    let (a, b) = (uscf_r(20), uscf_r(30));
    assume(a.rating < b.rating);
    check(2, EloRating::from(a).rating < EloRating::from(b).rating);
}
fn c21_glicko() {
    let a = gl_r(0);
    let (g2, gb, st) = (Glicko2Rating::from(a), GlickoBoostRating::from(a), StickoRating::from(a));
    close(1, g2.rating, a.rating); close(2, g2.deviation, a.deviation); close(3, g2.volatility, 0.06);
    close(4, gb.rating, a.rating); close(5, gb.deviation, a.deviation);
    close(6, st.rating, a.rating); close(7, st.deviation, a.deviation);
}
fn c21_glicko2() {
    let a = g2_r(0);
    let (g, gb, st) = (GlickoRating::from(a), GlickoBoostRating::from(a), StickoRating::from(a));
    close(1, g.rating, a.rating); close(2, g.deviation, a.deviation);
    close(4, gb.rating, a.rating); close(5, gb.deviation, a.deviation);
    close(6, st.rating, a.rating); close(7, st.deviation, a.deviation);
}
fn c21_boost() {
    let a = gb_r(0);
    let (g, g2, st) = (GlickoRating::from(a), Glicko2Rating::from(a), StickoRating::from(a));
    close(1, g.rating, a.rating); close(2, g.deviation, a.deviation);
    close(3, g2.rating, a.rating); close(4, g2.deviation, a.deviation); close(5, g2.volatility, 0.06);
    close(6, st.rating, a.rating); close(7, st.deviation, a.deviation);
}
fn c21_sticko() {
    let a = st_r(0);
    let (g, g2, gb) = (GlickoRating::from(a), Glicko2Rating::from(a), GlickoBoostRating::from(a));
    close(1, g.rating, a.rating); close(2, g.deviation, a.deviation);
    close(3, g2.rating, a.rating); close(4, g2.deviation, a.deviation); close(5, g2.volatility, 0.06);
    close(6, gb.rating, a.rating); close(7, gb.deviation, a.deviation);
}
fn c21_weng() {
    let (a, b) = (wl_r(0), ts_r(10));
    let (x, y) = (TrueSkillRating::from(a), WengLinRating::from(b));
    close(1, x.rating, a.rating); close(2, x.uncertainty, a.uncertainty);
    close(3, y.rating, b.rating); close(4, y.uncertainty, b.uncertainty);
}
/// from plain numbers
fn c21_tuples() {
    let (r, u, v, i, j) = (f(0, -10000.0, 10000.0), f(1, 0.0, 1000.0), f(2, 0.0, 10.0), int(3, 0, 1000) as usize, int(4, 0, 1000) as usize);
    close(1, EloRating::from(r).rating, r);
    close(2, FifaRating::from(r).rating, r);
    close(3, EGFRating::from(r).rating, r);
    let x = IngoRating::from(r); close(4, x.rating, r); check(5, x.age == 26);
    let x = IngoRating::from((r, i)); close(6, x.rating, r); check(7, x.age == i);
    let x = DWZRating::from((r, i)); close(8, x.rating, r); check(9, x.index == i && x.age == 26);
    let x = DWZRating::from((r, i, j)); close(10, x.rating, r); check(11, x.index == i && x.age == j);
    let x = USCFRating::from((r, i)); close(12, x.rating, r); check(13, x.games == i);
    let x = GlickoRating::from((r, u)); close(14, x.rating, r); close(15, x.deviation, u);
    let x = GlickoBoostRating::from((r, u)); close(16, x.rating, r); close(17, x.deviation, u);
    let x = StickoRating::from((r, u)); close(18, x.rating, r); close(19, x.deviation, u);
    let x = Glicko2Rating::from((r, u, v)); close(20, x.rating, r); close(21, x.deviation, u); close(22, x.volatility, v);
    let x = WengLinRating::from((r, u)); close(23, x.rating, r); close(24, x.uncertainty, u);
    let x = TrueSkillRating::from((r, u)); close(25, x.rating, r); close(26, x.uncertainty, u);
}
}
