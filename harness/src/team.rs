//! Team games of Weng-Lin and TrueSkill behind one interface, with reference models.
use crate::eng::{mix, G};
use crate::sys::*;
use crate::ts;
use skillratings::trueskill::{TrueSkillConfig, TrueSkillRating};
use skillratings::weng_lin::{WengLinConfig, WengLinRating};
use skillratings::MultiTeamOutcome;

/// interval of acceptable values
pub type Iv = (f64, f64);

pub trait Tm: Sys<X = ()> {
    fn mk(r: f64, u: f64) -> Self::R;
    fn two(a: &[Self::R], b: &[Self::R], o: O, c: &Self::C) -> (Vec<Self::R>, Vec<Self::R>);
    fn multi(t: &[Vec<Self::R>], ranks: &[usize], c: &Self::C) -> Vec<Vec<Self::R>>;
    fn exp2(a: &[Self::R], b: &[Self::R], c: &Self::C) -> (f64, f64);
    fn expm(t: &[Vec<Self::R>], c: &Self::C) -> Vec<f64>;
    fn ref_two(a: &[Self::R], b: &[Self::R], o: O, c: &Self::C) -> Option<(Vec<[Iv; 2]>, Vec<[Iv; 2]>)>;
    fn ref_multi(t: &[Vec<Self::R>], ranks: &[usize], c: &Self::C) -> Option<Vec<Vec<[Iv; 2]>>>;
    fn ref_expm(t: &[Vec<Self::R>], c: &Self::C) -> Vec<f64>;
    fn ref_exp2(a: &[Self::R], b: &[Self::R], c: &Self::C) -> f64;
}
pub fn iv(v: V) -> Iv {
    (v.0 - v.1, v.0 + v.1)
}
pub fn inside(x: f64, i: Iv) -> bool {
    x.is_finite() && x >= i.0 && x <= i.1
}
pub fn width(i: Iv) -> f64 {
    i.1 - i.0
}

impl Tm for SWl {
    fn mk(rating: f64, uncertainty: f64) -> WengLinRating {
        WengLinRating { rating, uncertainty }
    }
    fn two(a: &[WengLinRating], b: &[WengLinRating], o: O, c: &WengLinConfig) -> (Vec<WengLinRating>, Vec<WengLinRating>) {
        let (a, b) = alias_two(a, b);
        skillratings::weng_lin::weng_lin_two_teams(a, b, &o, c)
    }
    fn multi(t: &[Vec<WengLinRating>], ranks: &[usize], c: &WengLinConfig) -> Vec<Vec<WengLinRating>> {
        let v: Vec<_> = alias_teams(t).into_iter().zip(ranks).map(|(t, &r)| (t, MultiTeamOutcome::new(r))).collect();
        skillratings::weng_lin::weng_lin_multi_team(&v, c)
    }
    fn exp2(a: &[WengLinRating], b: &[WengLinRating], c: &WengLinConfig) -> (f64, f64) {
        let (a, b) = alias_two(a, b);
        skillratings::weng_lin::expected_score_two_teams(a, b, c)
    }
    fn expm(t: &[Vec<WengLinRating>], c: &WengLinConfig) -> Vec<f64> {
        let v = alias_teams(t);
        skillratings::weng_lin::expected_score_multi_team(&v, c)
    }
    fn ref_two(a: &[WengLinRating], b: &[WengLinRating], o: O, c: &WengLinConfig) -> Option<(Vec<[Iv; 2]>, Vec<[Iv; 2]>)> {
        let r = match o {
            O::WIN => [1, 2],
            O::DRAW => [1, 1],
            O::LOSS => [2, 1],
        };
        let mut v = Self::ref_multi(&[a.to_vec(), b.to_vec()], &r, c)?;
        let y = v.pop()?;
        let x = v.pop()?;
        Some((x, y))
    }
    fn ref_multi(t: &[Vec<WengLinRating>], ranks: &[usize], c: &WengLinConfig) -> Option<Vec<Vec<[Iv; 2]>>> {
        let sum: Vec<(f64, f64)> = t
            .iter()
            .map(|x| (x.iter().map(|p| p.rating).sum(), x.iter().map(|p| p.uncertainty * p.uncertainty).sum()))
            .collect();
        let mut out = Vec::new();
        for i in 0..t.len() {
            // omega / team variance and delta / team variance
            let (mut om, mut de) = (0.0, 0.0);
            for j in 0..t.len() {
                if j == i {
                    continue;
                }
                let cc = (sum[i].1 + sum[j].1 + 2.0 * c.beta * c.beta).sqrt();
                let x = (sum[i].0 - sum[j].0) / cc;
                let (p, q) = (lgst(x), lgst(-x));
                om += match ranks[i].cmp(&ranks[j]) {
                    std::cmp::Ordering::Less => q,
                    std::cmp::Ordering::Equal => 0.5 - p,
                    std::cmp::Ordering::Greater => -p,
                } / cc;
                de += sum[i].1.sqrt() / cc * p * q / (cc * cc);
            }
            out.push(
                t[i].iter()
                    .map(|p| {
                        let s2 = p.uncertainty * p.uncertainty;
                        let sz = 1.0 + t[i].len() as f64 * 0.01;
                        [iv(rt(p.rating + s2 * om, 10.0 * sz)), iv(rt((s2 * (1.0 - s2 * de).max(c.uncertainty_tolerance)).sqrt(), 0.1 * sz))]
                    })
                    .collect(),
            );
        }
        Some(out)
    }
    fn ref_expm(t: &[Vec<WengLinRating>], c: &WengLinConfig) -> Vec<f64> {
        let tot: f64 = t.iter().flatten().map(|p| p.uncertainty * p.uncertainty).sum();
        let cc = (2.0 * c.beta * c.beta + tot).sqrt();
        let s: Vec<f64> = t.iter().map(|x| x.iter().map(|p| p.rating).sum::<f64>()).collect();
        s.iter().map(|a| 1.0 / s.iter().map(|b| ((b - a) / cc).exp()).sum::<f64>()).collect()
    }
    fn ref_exp2(a: &[WengLinRating], b: &[WengLinRating], c: &WengLinConfig) -> f64 {
        let v: f64 = a.iter().chain(b).map(|p| p.uncertainty * p.uncertainty).sum();
        let d: f64 = a.iter().map(|p| p.rating).sum::<f64>() - b.iter().map(|p| p.rating).sum::<f64>();
        lgst(d / (2.0 * c.beta * c.beta + v).sqrt())
    }
}

pub fn ts_multi(t: &[Vec<TrueSkillRating>], ranks: &[usize], c: &TrueSkillConfig, w: Option<&[Vec<f64>]>) -> Result<Vec<Vec<TrueSkillRating>>, skillratings::trueskill::WeightError> {
    let v: Vec<_> = alias_teams(t).into_iter().zip(ranks).map(|(t, &r)| (t, MultiTeamOutcome::new(r))).collect();
    let ws: Option<Vec<&[f64]>> = w.map(|w| w.iter().map(|x| &x[..]).collect());
    skillratings::trueskill::trueskill_multi_team(&v, c, ws.as_deref())
}
pub fn ts_quality(t: &[Vec<TrueSkillRating>], c: &TrueSkillConfig, w: Option<&[Vec<f64>]>) -> Result<f64, skillratings::trueskill::WeightError> {
    let v = alias_teams(t);
    let ws: Option<Vec<&[f64]>> = w.map(|w| w.iter().map(|x| &x[..]).collect());
    skillratings::trueskill::match_quality_multi_team(&v, c, ws.as_deref())
}
pub fn ones(t: &[Vec<TrueSkillRating>]) -> Vec<Vec<f64>> {
    t.iter().map(|x| vec![1.0; x.len()]).collect()
}
pub fn ts_ref_multi(t: &[Vec<TrueSkillRating>], ranks: &[usize], c: &TrueSkillConfig, w: &[Vec<f64>]) -> Option<Vec<Vec<[Iv; 2]>>> {
    let v: Vec<&[TrueSkillRating]> = t.iter().map(|x| &x[..]).collect();
    ts::multi_ref(&v, ranks, w, c)
}

impl Tm for STs {
    fn mk(rating: f64, uncertainty: f64) -> TrueSkillRating {
        TrueSkillRating { rating, uncertainty }
    }
    fn two(a: &[TrueSkillRating], b: &[TrueSkillRating], o: O, c: &TrueSkillConfig) -> (Vec<TrueSkillRating>, Vec<TrueSkillRating>) {
        let (a, b) = alias_two(a, b);
        skillratings::trueskill::trueskill_two_teams(a, b, &o, c)
    }
    fn multi(t: &[Vec<TrueSkillRating>], ranks: &[usize], c: &TrueSkillConfig) -> Vec<Vec<TrueSkillRating>> {
        ts_multi(t, ranks, c, None).expect("no weights were given, yet the call was rejected")
    }
    fn exp2(a: &[TrueSkillRating], b: &[TrueSkillRating], c: &TrueSkillConfig) -> (f64, f64) {
        let (a, b) = alias_two(a, b);
        skillratings::trueskill::expected_score_two_teams(a, b, c)
    }
    fn expm(t: &[Vec<TrueSkillRating>], c: &TrueSkillConfig) -> Vec<f64> {
        let v = alias_teams(t);
        skillratings::trueskill::expected_score_multi_team(&v, c)
    }
    fn ref_two(a: &[TrueSkillRating], b: &[TrueSkillRating], o: O, c: &TrueSkillConfig) -> Option<(Vec<[Iv; 2]>, Vec<[Iv; 2]>)> {
        let (x, y) = ts::two_teams(a, b, o, c)?;
        let f = |v: Vec<[V; 2]>| v.into_iter().map(|p| [iv(p[0]), iv(p[1])]).collect();
        Some((f(x), f(y)))
    }
    fn ref_multi(t: &[Vec<TrueSkillRating>], ranks: &[usize], c: &TrueSkillConfig) -> Option<Vec<Vec<[Iv; 2]>>> {
        ts_ref_multi(t, ranks, c, &ones(t))
    }
    fn ref_expm(t: &[Vec<TrueSkillRating>], c: &TrueSkillConfig) -> Vec<f64> {
        let n = t.len();
        if n == 1 {
            return vec![1.0];
        }
        let players = t.iter().map(Vec::len).sum::<usize>() as f64;
        let s: Vec<(f64, f64)> = t
            .iter()
            .map(|x| (x.iter().map(|p| p.rating).sum(), x.iter().map(|p| p.uncertainty * p.uncertainty).sum()))
            .collect();
        let pairs = (n * (n - 1)) as f64 / 2.0;
        (0..n)
            .map(|i| {
                (0..n)
                    .filter(|&j| j != i)
                    .map(|j| ts::cdf(ts::Kind::Precise, (s[i].0 - s[j].0) / (players * c.beta * c.beta + s[i].1 + s[j].1).sqrt()))
                    .sum::<f64>()
                    / pairs
            })
            .collect()
    }
    fn ref_exp2(a: &[TrueSkillRating], b: &[TrueSkillRating], c: &TrueSkillConfig) -> f64 {
        let v: f64 = a.iter().chain(b).map(|p| p.uncertainty * p.uncertainty).sum();
        let d: f64 = a.iter().map(|p| p.rating).sum::<f64>() - b.iter().map(|p| p.rating).sum::<f64>();
        ts::cdf(ts::Kind::Precise, d / (v + (a.len() + b.len()) as f64 * c.beta * c.beta).sqrt())
    }
}

// ------------------------------------------------------------------ generation
pub fn team_size(g: &mut G) -> usize {
    match g.r.below(20) {
        0..=5 => 1,
        6..=14 => 1 + g.r.below(4),
        15..=17 => 1 + g.r.below(8),
        18 => g.int(1, 40, 12),
        _ => 1 + g.r.below(3),
    }
}
/// A team; `tame` keeps ratings in the usual range.
pub fn gen_team<S: Tm>(g: &mut G, n: usize, tame: bool) -> Vec<S::R> {
    let copy = g.r.chance(0.15);
    let mut v: Vec<S::R> = Vec::with_capacity(n);
    for i in 0..n {
        if i > 0 && (copy || g.r.chance(0.08)) {
            let p = v[g.r.below(i)];
            v.push(p);
            continue;
        }
        let p = if tame {
            S::mk(g.r.range(10.0, 40.0), if g.r.chance(0.3) { 25.0 / 3.0 } else { g.r.range(0.5, 9.0) })
        } else {
            S::gen_r(g)
        };
        v.push(p);
    }
    v
}
pub fn gen_pair<S: Tm>(g: &mut G) -> (Vec<S::R>, Vec<S::R>) {
    let tame = g.r.chance(0.6);
    let n1 = team_size(g);
    let n2 = if g.r.chance(0.6) { n1 } else { team_size(g) };
    let a = gen_team::<S>(g, n1, tame);
    let b = if g.r.chance(0.03) { return (a.clone(), a) } else { gen_team::<S>(g, n2, tame) };
    balance::<S>(g, a, b)
}
/// Sometimes moves team two so that the match is not hopeless.
fn balance<S: Tm>(g: &mut G, a: Vec<S::R>, mut b: Vec<S::R>) -> (Vec<S::R>, Vec<S::R>) {
    if g.r.chance(0.5) {
        let sa: f64 = a.iter().map(|p| S::comps(p)[0]).sum();
        let sb: f64 = b.iter().map(|p| S::comps(p)[0]).sum();
        let d = (sa - sb + g.r.range(-15.0, 15.0)) / b.len() as f64;
        for p in &mut b {
            *p = S::with_rating(p, S::comps(p)[0] + d);
        }
    }
    (a, b)
}
pub fn n_teams(g: &mut G, max: usize) -> usize {
    let n = match g.r.below(20) {
        0..=3 => 2,
        4..=12 => 3 + g.r.below(3),
        13..=17 => 3 + g.r.below(8),
        18 => g.int(2, 40, 16),
        _ => 3,
    };
    n.min(max)
}
pub struct Multi<S: Tm> {
    pub t: Vec<Vec<S::R>>,
    pub ranks: Vec<usize>,
    pub c: S::C,
}
/// ranks[i] of team i; style 0: all different
pub fn gen_ranks(g: &mut G, n: usize, distinct: bool) -> Vec<usize> {
    let mut pos: Vec<usize> = (0..n).collect();
    g.r.shuffle(&mut pos);
    if !distinct {
        match g.r.below(4) {
            0 => {
                let k = 1 + g.r.below(n);
                for p in &mut pos {
                    *p %= k;
                }
            }
            1 => {
                for p in &mut pos {
                    *p /= 2;
                }
            }
            2 if g.r.chance(0.3) => pos.iter_mut().for_each(|p| *p = 0),
            _ => {}
        }
    }
    match g.r.below(10) {
        0 => pos.sort_unstable(),
        1 => pos.sort_unstable_by(|x, y| y.cmp(x)),
        _ => {}
    }
    relabel(g, &pos)
}
/// another labelling with the same order
pub fn relabel(g: &mut G, r: &[usize]) -> Vec<usize> {
    let mut u: Vec<usize> = r.to_vec();
    u.sort_unstable();
    u.dedup();
    let style = g.r.below(7);
    let mut lab = Vec::with_capacity(u.len());
    // labels on both sides of a power of two, or the same in their low bits
    let bits = *g.r.pick(&[7usize, 8, 15, 16, 24, 31, 32, 53, 63]);
    let far = (1usize << bits).min(usize::MAX / 4 / u.len().max(1));
    let mut cur = match style {
        5 => (1usize << bits).saturating_sub(1 + g.r.below(u.len().max(1))),
        6 => g.r.below(5),
        0 => 1usize,
        1 => 0,
        2 => g.r.below(1000),
        3 => usize::MAX - 4 * u.len() - 5,
        _ => g.int(0, 1000, 10),
    };
    for _ in &u {
        lab.push(cur);
        cur += match style {
            0 | 1 => 1,
            2 => 1 + g.r.below(100_000),
            3 | 5 => 1 + g.r.below(4),
            6 => (far + g.r.below(3)).saturating_sub(1).max(1),
            _ => 1 + g.int(0, 300, 5),
        };
    }
    r.iter().map(|x| lab[u.binary_search(x).unwrap()]).collect()
}
pub fn gen_multi<S: Tm>(g: &mut G, max: usize, distinct: bool) -> Multi<S> {
    let c = S::gen_c(g);
    let n = n_teams(g, max);
    let tame = g.r.chance(0.75);
    let same_size = g.r.chance(0.5);
    let k = team_size(g);
    let mut t: Vec<Vec<S::R>> = Vec::new();
    for _ in 0..n {
        let s = if same_size { k } else { team_size(g) };
        let s = if n > 8 { s.min(4) } else { s };
        if !t.is_empty() && g.r.chance(0.06) {
            let i = g.r.below(t.len());
            let x = t[i].clone();
            t.push(x);
        } else {
            t.push(gen_team::<S>(g, s, tame));
        }
    }
    if g.r.chance(0.6) {
        // level the teams so that upsets stay believable
        let sum = |x: &Vec<S::R>| x.iter().map(|p| S::comps(p)[0]).sum::<f64>();
        let s0 = sum(&t[0]);
        for x in t.iter_mut().skip(1) {
            let d = (s0 - sum(x) + g.r.range(-12.0, 12.0)) / x.len() as f64;
            for p in x.iter_mut() {
                *p = S::with_rating(p, S::comps(p)[0] + d);
            }
        }
    }
    if g.r.chance(0.06) {
        for i in 1..t.len() {
            let sum = |x: &Vec<S::R>| x.iter().map(|p| S::comps(p)[0]).sum::<f64>();
            let (k, l) = (t[i - 1].len() + t[i].len(), t[i].len() as f64);
            if let Some(d) = S::edge(g, &c, k) {
                let d = (sum(&t[i - 1]) + d - sum(&t[i])) / l;
                t[i].iter_mut().for_each(|p| *p = S::with_rating(p, S::comps(p)[0] + d));
            }
        }
    }
    let ranks = gen_ranks(g, n, distinct);
    Multi { t, ranks, c }
}
pub fn key_t<S: Tm>(t: &[Vec<S::R>], ranks: &[usize]) -> u64 {
    let mut k = mix(t.len() as u64);
    for x in t {
        k = mix(k ^ x.len() as u64);
        for p in x {
            k = mix(k ^ key_r::<S>(p));
        }
    }
    for r in ranks {
        k = mix(k ^ *r as u64);
    }
    k
}
pub fn show_t<S: Tm>(t: &[Vec<S::R>], ranks: &[usize], c: &S::C) -> String {
    let s = format!("teams={t:?} ranks={ranks:?} config={c:?}");
    if s.len() > 3000 {
        format!("{} teams, sizes {:?}, ranks={ranks:?} config={c:?} first team {:?}", t.len(), t.iter().map(Vec::len).collect::<Vec<_>>(), t[0])
    } else {
        s
    }
}
