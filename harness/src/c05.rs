//! DWZ
use crate::{gen::*, sv::*};
use skillratings::{dwz::*, Outcomes};

fn e_ref(r: f64, age: usize, s: f64, we: f64, index: usize) -> f64 {
    let j = if age <= 20 { 5.0 } else if age <= 25 { 10.0 } else { 15.0 };
    let e0 = (r / 1000.0) * (r / 1000.0) * (r / 1000.0) * (r / 1000.0) + j;
    let a = if age < 20 && s >= we { r / 2000.0 } else { 1.0 };
    let b = if r < 1300.0 && s <= we { ((1300.0 - r) / 150.0).exp() - 1.0 } else { 0.0 };
    let e = a * e0 + b;
    let top = if b == 0.0 { if 5.0 * (index as f64) < 30.0 { 5.0 * (index as f64) } else { 30.0 } } else { 150.0 };
    if e <= 5.0 { 5.0 } else if e >= top { top } else { e }
}

harnesses! {
fn c05_pair() {
    let (a, b, o) = (dwz_r(0), dwz_r(10), outcome_fork(20));
    let (x, y) = dwz(&a, &b, &o);
    let s = score(o);
    let we = logistic10(a.rating, b.rating, 400.0);
    let (e1, e2) = expected_score(&a, &b);
    close(1, e1, we);
    close(2, e2, 1.0 - we);
    close(3, x.rating, a.rating + 800.0 / (e_ref(a.rating, a.age, s, e1, a.index) + 1.0) * (s - e1));
    close(4, y.rating, b.rating + 800.0 / (e_ref(b.rating, b.age, 1.0 - s, e2, b.index) + 1.0) * ((1.0 - s) - e2));
    check(5, x.index == a.index + 1 && y.index == b.index + 1);
    check(6, x.age == a.age && y.age == b.age);
}
fn c05_period() {
    let n = param(0);
    let p = dwz_r(0);
    let rs = results(20, n, dwz_r);
    let got = dwz_rating_period(&p, &rs);
    check(1, got.age == p.age);
    if n == 0 { close(2, got.rating, p.rating); return; }
    let (mut s, mut we) = (0.0, 0.0);
    for (o, r) in &rs { s += score(*r); we += logistic10(p.rating, o.rating, 400.0); }
    close(3, got.rating, p.rating + 800.0 / (e_ref(p.rating, p.age, s, we, p.index) + n as f64) * (s - we));
    check(4, got.index == p.index + 1);
    let ops: Vec<DWZRating> = rs.iter().map(|r| r.0).collect();
    let es = expected_score_rating_period(&p, &ops);
    check(5, es.len() == n);
    for i in 0..n { close(10 + i as u32, es[i], logistic10(p.rating, ops[i].rating, 400.0)); }
}
/// first rating: needs 5 games and a score strictly between 0 and 100 per cent
fn c05_first() {
    let n = param(0);
    let age = int(0, 0, 130) as usize;
    let w = pick(1, 0, n as u64);
    let d = pick(2, 0, n as u64);
    assume(w + d <= n);
    // opponents: all different for short lists; the mean opponent and the score are what matters
    let rs: Vec<(DWZRating, Outcomes)> = (0..n).map(|i| {
        let o = if i < w { Outcomes::WIN } else if i < w + d { Outcomes::DRAW } else { Outcomes::LOSS };
        (DWZRating { rating: f(20 + 10 * i as u32, 0.0, 4000.0), index: int(21 + 10 * i as u32, 1, 200) as usize, age: int(22 + 10 * i as u32, 0, 130) as usize }, o)
    }).collect();
    let got = get_first_dwz(age, &rs);
    if n < 5 { check(1, got == Err(GetFirstDWZError::NotEnoughGames)); return; }
    if w == n || (w == 0 && d == 0) { check(2, got == Err(GetFirstDWZError::InvalidWinRate)); return; }
    match got {
        Err(_) => check(3, false),
        Ok(g) => {
            let avg = rs.iter().map(|r| r.0.rating).sum::<f64>() / n as f64;
            // round(100 * (2w + d) / 2n), half away from zero
            let p = (200 * (2 * w + d) + 2 * n) / (4 * n);
            let v = if p > 50 { D_TABLE[100 - p] } else { -D_TABLE[p] };
            let r = avg + v;
            close(4, g.rating, if r <= 800.0 { 700.0 + r / 8.0 } else { r });
            check(5, g.index == 1 && g.age == age);
        }
    }
}
fn c05_long() {
    let n = param(0);
    let p = dwz_r(0);
    let rs = long_results(20, n, dwz_r);
    let got = dwz_rating_period(&p, &rs);
    let (mut s, mut we) = (0.0, 0.0);
    for (o, r) in &rs { s += score(*r); we += logistic10(p.rating, o.rating, 400.0); }
    close(3, got.rating, p.rating + 800.0 / (e_ref(p.rating, p.age, s, we, p.index) + n as f64) * (s - we));
    check(4, got.index == p.index + 1);
}
}
/// probability table of the German federation (difference for 0..50 per cent)
static D_TABLE: [f64; 51] = [728., 614., 555., 513., 480., 453., 429., 408., 389., 371., 355., 340., 326., 312., 300., 288., 276., 265., 254., 244., 234., 224., 214., 205., 196., 187., 178., 170., 161., 153., 145., 137., 129., 121., 113., 106., 98., 91., 83., 76., 69., 61., 54., 47., 40., 32., 25., 18., 11., 4., 0.];
