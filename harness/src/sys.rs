//! Adapters: one view of all twelve rating systems, each with an independent
//! reference model of its published formulas. The adapters only call the
//! public functions of the crate under test.
use crate::eng::{mix, G};
use crate::gen::{dup_index, sc, Sc};
use crate::ts;
use skillratings::dwz::DWZRating;
use skillratings::egf::{EGFConfig, EGFRating};
use skillratings::elo::{EloConfig, EloRating};
use skillratings::fifa::{FifaConfig, FifaRating};
use skillratings::glicko::{GlickoConfig, GlickoRating};
use skillratings::glicko2::{Glicko2Config, Glicko2Rating};
use skillratings::glicko_boost::{GlickoBoostConfig, GlickoBoostRating};
use skillratings::ingo::IngoRating;
use skillratings::sticko::{StickoConfig, StickoRating};
use skillratings::trueskill::{TrueSkillConfig, TrueSkillRating};
use skillratings::uscf::{USCFConfig, USCFRating};
use skillratings::weng_lin::{WengLinConfig, WengLinRating};
use skillratings::Outcomes;
use std::fmt::Debug;

pub type O = Outcomes;
/// value and tolerance
pub type V = (f64, f64);
pub type Ref = Option<[V; 3]>;
pub const Z: V = (0.0, 0.0);

pub fn pts(o: O) -> f64 {
    match o {
        O::WIN => 1.0,
        O::DRAW => 0.5,
        O::LOSS => 0.0,
    }
}
pub fn inv(o: O) -> O {
    match o {
        O::WIN => O::LOSS,
        O::DRAW => O::DRAW,
        O::LOSS => O::WIN,
    }
}
pub fn better(o: O) -> Option<O> {
    match o {
        O::LOSS => Some(O::DRAW),
        O::DRAW => Some(O::WIN),
        O::WIN => None,
    }
}
/// logistic 1/(1+e^-x), accurate on both sides
pub fn lgst(x: f64) -> f64 {
    if x >= 0.0 {
        1.0 / (1.0 + (-x).exp())
    } else {
        let e = x.exp();
        e / (1.0 + e)
    }
}
pub const LN10: f64 = std::f64::consts::LN_10;
pub const PI: f64 = std::f64::consts::PI;
pub fn near(a: f64, b: f64, tol: f64) -> bool {
    a.is_finite() && b.is_finite() && (a - b).abs() <= tol
}
pub fn rt(v: f64, scale: f64) -> V {
    (v, 1e-9 * (v.abs() + scale))
}

thread_local! {
    static ALIAS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// A new case: aliasing starts from the beginning, so that replays see the same.
pub fn alias_reset() {
    ALIAS.with(|x| x.set(0));
}
fn alias_now() -> bool {
    ALIAS.with(|x| {
        x.set(x.get().wrapping_add(1));
        x.get() % 2 == 1
    })
}
fn same<R: Copy>(a: &R, b: &R) -> bool {
    // SAFETY: ratings consist of f64 and usize only, without padding.
    fn raw<R>(r: &R) -> &[u8] {
        unsafe { std::slice::from_raw_parts(std::ptr::from_ref(r).cast::<u8>(), size_of::<R>()) }
    }
    raw(a) == raw(b)
}
/// Identical players are passed as one and the same object every other time: where values live must not matter.
pub fn alias<'a, R: Copy>(a: &'a R, b: &'a R) -> (&'a R, &'a R) {
    if same(a, b) && alias_now() {
        (a, a)
    } else {
        (a, b)
    }
}
/// A player who is in the list as well.
pub fn alias_in<'a, R: Copy>(a: &'a R, l: impl Iterator<Item = &'a R>) -> &'a R {
    for b in l.take(16) {
        if same(a, b) {
            return if alias_now() { b } else { a };
        }
    }
    a
}
fn same_team<R: Copy>(a: &[R], b: &[R]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
}
pub fn alias_two<'a, R: Copy>(a: &'a [R], b: &'a [R]) -> (&'a [R], &'a [R]) {
    if same_team(a, b) && alias_now() {
        (a, a)
    } else {
        (a, b)
    }
}
pub fn alias_teams<R: Copy>(t: &[Vec<R>]) -> Vec<&[R]> {
    let mut v: Vec<&[R]> = Vec::with_capacity(t.len());
    for x in t {
        let k = if t.len() <= 64 { v.iter().position(|y| same_team(x, y)) } else { None };
        match k {
            Some(i) if alias_now() => v.push(v[i]),
            _ => v.push(x),
        }
    }
    v
}


pub trait Sys: 'static {
    type R: Copy + Debug + PartialEq;
    type C: Clone + Debug;
    type X: Copy + Debug;
    const NAME: &'static str;
    /// games of a period are applied one after the other
    const SEQ: bool;
    /// number of components of a rating
    const NC: usize;
    /// second component is an uncertainty
    const UNC: bool;
    /// scale of a rating difference that matters
    const SCALE: f64;
    fn gen_r(g: &mut G) -> Self::R;
    fn gen_c(g: &mut G) -> Self::C;
    fn gen_x(g: &mut G) -> Self::X;
    /// inside the stated domain
    fn ok(_a: &Self::R, _b: &Self::R, _c: &Self::C, _x: Self::X) -> bool {
        true
    }
    fn rate(a: &Self::R, b: &Self::R, o: O, c: &Self::C, x: Self::X) -> (Self::R, Self::R);
    fn exp(a: &Self::R, b: &Self::R, c: &Self::C, x: Self::X) -> (f64, f64);
    fn period(a: &Self::R, l: &[(Self::R, O, Self::X)], c: &Self::C) -> Self::R;
    fn exp_period(a: &Self::R, l: &[(Self::R, Self::X)], c: &Self::C) -> Vec<f64>;
    /// settings of the same match seen from the other side
    fn mirror(c: &Self::C, x: Self::X) -> (Self::C, Self::X) {
        (c.clone(), x)
    }
    /// neither side has an advantage
    fn neutral(_c: &Self::C, _x: Self::X) -> bool {
        true
    }
    fn comps(r: &Self::R) -> [f64; 3];
    fn with_rating(r: &Self::R, v: f64) -> Self::R;
    fn with_unc(r: &Self::R, _v: f64) -> Self::R {
        *r
    }
    /// higher = stronger
    fn skill(r: &Self::R) -> f64 {
        Self::comps(r)[0]
    }
    fn stronger(r: &Self::R, by: f64) -> Self::R {
        Self::with_rating(r, Self::comps(r)[0] + by)
    }
    fn ref_rate(a: &Self::R, b: &Self::R, o: O, c: &Self::C, x: Self::X) -> Option<([V; 3], [V; 3])>;
    fn ref_period(a: &Self::R, l: &[(Self::R, O, Self::X)], c: &Self::C) -> Ref;
    fn ref_exp(a: &Self::R, b: &Self::R, c: &Self::C, x: Self::X) -> V;
    /// tolerance for comparing two calls that should give player one the same result
    fn rtol(a: &Self::R, _l: &[(Self::R, O, Self::X)], _c: &Self::C) -> [f64; 3] {
        let k = Self::comps(a);
        [1e-9 * (k[0].abs() + Self::SCALE), 1e-9 * (k[1].abs() + 1.0), 1e-9 * (k[2].abs() + 1.0)]
    }
    fn etol() -> f64 {
        1e-9
    }
    /// A difference of (team) ratings at which the formulas change their branch.
    fn edge(_g: &mut G, _c: &Self::C, _players: usize) -> Option<f64> {
        None
    }
    fn gen_list(g: &mut G, a: &Self::R, c: &Self::C, n: usize) -> Vec<(Self::R, O, Self::X)> {
        let outs = g.outs(n);
        let mut v: Vec<(Self::R, O, Self::X)> = Vec::with_capacity(n);
        let same_x = g.r.chance(0.4);
        let x0 = Self::gen_x(g);
        for o in outs {
            let mut x = if same_x { x0 } else { Self::gen_x(g) };
            if let Some(j) = dup_index(&mut g.r, v.len()) {
                let b = v[j].0;
                if g.r.chance(0.5) {
                    x = v[j].2;
                }
                if Self::ok(a, &b, c, x) {
                    v.push((b, o, x));
                    continue;
                }
            }
            let mut b = if g.r.chance(0.04) { *a } else { Self::gen_r(g) };
            for _ in 0..8 {
                if Self::ok(a, &b, c, x) {
                    break;
                }
                b = Self::gen_r(g);
                x = Self::gen_x(g);
            }
            if Self::ok(a, &b, c, x) {
                v.push((b, o, x));
            }
        }
        // orders that chance does not produce
        match g.r.below(24) {
            0 => v.sort_by(|x, y| Self::comps(&x.0)[0].total_cmp(&Self::comps(&y.0)[0])),
            1 => v.sort_by(|x, y| Self::comps(&y.0)[0].total_cmp(&Self::comps(&x.0)[0])),
            2 => v.sort_by(|x, y| pts(y.1).total_cmp(&pts(x.1))),
            _ => {}
        }
        v
    }
}

pub fn key_r<S: Sys>(r: &S::R) -> u64 {
    let k = S::comps(r);
    mix(k[0].to_bits() ^ mix(k[1].to_bits() ^ mix(k[2].to_bits())))
}
pub fn key2<S: Sys>(a: &S::R, b: &S::R, o: O) -> u64 {
    mix(key_r::<S>(a) ^ mix(key_r::<S>(b) ^ pts(o).to_bits()))
}
pub fn key_l<S: Sys>(a: &S::R, l: &[(S::R, O, S::X)]) -> u64 {
    let mut k = mix(key_r::<S>(a) ^ l.len() as u64);
    for (r, o, _) in l.iter().take(64) {
        k = mix(k ^ key_r::<S>(r) ^ pts(*o).to_bits());
    }
    k
}
pub fn show_l<S: Sys>(l: &[(S::R, O, S::X)]) -> String {
    if l.len() <= 12 {
        format!("{l:?}")
    } else {
        format!("[{} games, first 6: {:?}]", l.len(), &l[..6])
    }
}

// ------------------------------------------------------------------ Elo
const ELO: Sc = sc(-3000.0, 6000.0, 600.0, 2800.0);
pub struct SElo;
impl Sys for SElo {
    type R = EloRating;
    type C = EloConfig;
    type X = ();
    const NAME: &'static str = "elo";
    const SEQ: bool = true;
    const NC: usize = 1;
    const UNC: bool = false;
    const SCALE: f64 = 100.0;
    fn gen_r(g: &mut G) -> EloRating {
        EloRating { rating: if g.r.chance(0.05) { g.num(sc(-1e6, 1e6, -1e4, 1e4)) } else { g.num(ELO) } }
    }
    fn gen_c(g: &mut G) -> EloConfig {
        EloConfig { k: g.num(sc(0.0, 600.0, 8.0, 64.0)) }
    }
    fn gen_x(_: &mut G) {}
    fn rate(a: &EloRating, b: &EloRating, o: O, c: &EloConfig, _: ()) -> (EloRating, EloRating) {
        let (a, b) = alias(a, b);
        skillratings::elo::elo(a, b, &o, c)
    }
    fn exp(a: &EloRating, b: &EloRating, _: &EloConfig, _: ()) -> (f64, f64) {
        let (a, b) = alias(a, b);
        skillratings::elo::expected_score(a, b)
    }
    fn period(a: &EloRating, l: &[(EloRating, O, ())], c: &EloConfig) -> EloRating {
        let v: Vec<_> = l.iter().map(|(r, o, ())| (*r, *o)).collect();
        skillratings::elo::elo_rating_period(alias_in(a, v.iter().map(|t| &t.0)), &v, c)
    }
    fn exp_period(a: &EloRating, l: &[(EloRating, ())], _: &EloConfig) -> Vec<f64> {
        let v: Vec<_> = l.iter().map(|(r, ())| *r).collect();
        skillratings::elo::expected_score_rating_period(alias_in(a, v.iter()), &v)
    }
    fn comps(r: &EloRating) -> [f64; 3] {
        [r.rating, 0.0, 0.0]
    }
    fn with_rating(_: &EloRating, v: f64) -> EloRating {
        EloRating { rating: v }
    }
    fn ref_rate(a: &EloRating, b: &EloRating, o: O, c: &EloConfig, _: ()) -> Option<([V; 3], [V; 3])> {
        let e = lgst((a.rating - b.rating) * LN10 / 400.0);
        let f = lgst((b.rating - a.rating) * LN10 / 400.0);
        let s = pts(o);
        Some(([rt(a.rating + c.k * (s - e), 100.0), Z, Z], [rt(b.rating + c.k * (1.0 - s - f), 100.0), Z, Z]))
    }
    fn ref_period(a: &EloRating, l: &[(EloRating, O, ())], c: &EloConfig) -> Ref {
        let mut r = a.rating;
        for (b, o, ()) in l {
            r += c.k * (pts(*o) - lgst((r - b.rating) * LN10 / 400.0));
        }
        Some([rt(r, 100.0), Z, Z])
    }
    fn ref_exp(a: &EloRating, b: &EloRating, _: &EloConfig, _: ()) -> V {
        (lgst((a.rating - b.rating) * LN10 / 400.0), 1e-9)
    }
}

// ------------------------------------------------------------------ FIFA
pub struct SFifa;
pub fn fifa_scores(o: O, pen: bool) -> (f64, f64) {
    match (pen, o) {
        (false, _) => (pts(o), 1.0 - pts(o)),
        (true, O::WIN) => (0.75, 0.5),
        (true, O::LOSS) => (0.5, 0.75),
        (true, O::DRAW) => (0.5, 0.5),
    }
}
impl Sys for SFifa {
    type R = FifaRating;
    type C = ();
    type X = FifaConfig;
    const NAME: &'static str = "fifa";
    const SEQ: bool = true;
    const NC: usize = 1;
    const UNC: bool = false;
    const SCALE: f64 = 100.0;
    fn gen_r(g: &mut G) -> FifaRating {
        FifaRating { rating: if g.r.chance(0.05) { g.num(sc(-1e6, 1e6, -1e4, 1e4)) } else { g.num(ELO) } }
    }
    fn gen_c(_: &mut G) {}
    fn gen_x(g: &mut G) -> FifaConfig {
        let importance = if g.r.chance(0.5) {
            *g.r.pick(&[5.0, 10.0, 15.0, 25.0, 35.0, 40.0, 50.0, 60.0])
        } else {
            g.num(sc(0.0, 1000.0, 5.0, 60.0))
        };
        FifaConfig { importance, knockout: g.r.chance(0.35), penalties: g.r.chance(0.35) }
    }
    fn rate(a: &FifaRating, b: &FifaRating, o: O, _: &(), x: FifaConfig) -> (FifaRating, FifaRating) {
        let (a, b) = alias(a, b);
        skillratings::fifa::fifa(a, b, &o, &x)
    }
    fn exp(a: &FifaRating, b: &FifaRating, _: &(), _: FifaConfig) -> (f64, f64) {
        let (a, b) = alias(a, b);
        skillratings::fifa::expected_score(a, b)
    }
    fn period(a: &FifaRating, l: &[(FifaRating, O, FifaConfig)], _: &()) -> FifaRating {
        skillratings::fifa::fifa_rating_period(alias_in(a, l.iter().map(|t| &t.0)), l)
    }
    fn exp_period(a: &FifaRating, l: &[(FifaRating, FifaConfig)], _: &()) -> Vec<f64> {
        let v: Vec<_> = l.iter().map(|(r, _)| *r).collect();
        skillratings::fifa::expected_score_rating_period(alias_in(a, v.iter()), &v)
    }
    fn comps(r: &FifaRating) -> [f64; 3] {
        [r.rating, 0.0, 0.0]
    }
    fn with_rating(_: &FifaRating, v: f64) -> FifaRating {
        FifaRating { rating: v }
    }
    fn ref_rate(a: &FifaRating, b: &FifaRating, o: O, _: &(), x: FifaConfig) -> Option<([V; 3], [V; 3])> {
        let e = lgst((a.rating - b.rating) * LN10 / 600.0);
        let f = lgst((b.rating - a.rating) * LN10 / 600.0);
        let (s1, s2) = fifa_scores(o, x.penalties);
        let mut n1 = a.rating + x.importance * (s1 - e);
        let mut n2 = b.rating + x.importance * (s2 - f);
        if x.knockout {
            n1 = n1.max(a.rating);
            n2 = n2.max(b.rating);
        }
        Some(([rt(n1, 100.0), Z, Z], [rt(n2, 100.0), Z, Z]))
    }
    fn ref_period(a: &FifaRating, l: &[(FifaRating, O, FifaConfig)], _: &()) -> Ref {
        let mut r = a.rating;
        for (b, o, x) in l {
            let n = r + x.importance * (fifa_scores(*o, x.penalties).0 - lgst((r - b.rating) * LN10 / 600.0));
            r = if x.knockout { n.max(r) } else { n };
        }
        Some([rt(r, 100.0), Z, Z])
    }
    fn ref_exp(a: &FifaRating, b: &FifaRating, _: &(), _: FifaConfig) -> V {
        (lgst((a.rating - b.rating) * LN10 / 600.0), 1e-9)
    }
}

// ------------------------------------------------------------------ Glicko family helpers
pub const GL: Sc = sc(-1500.0, 5000.0, 800.0, 2600.0);
pub fn gen_dev(g: &mut G) -> f64 {
    match g.r.below(10) {
        0 => 350.0,
        1 => g.num(sc(0.05, 1000.0, 300.0, 420.0)),
        2 => g.num(sc(0.01, 1000.0, 0.1, 5.0)),
        _ => g.num(sc(0.05, 350.0, 20.0, 350.0)),
    }
}
pub const Q: f64 = LN10 / 400.0;
pub fn gfun(dev: f64) -> f64 {
    1.0 / (1.0 + 3.0 * (Q * dev / PI).powi(2)).sqrt()
}
/// E, 1-E
pub fn efun(g: f64, d: f64) -> (f64, f64) {
    (lgst(g * d * Q), lgst(-g * d * Q))
}

pub struct SGlicko;
impl Sys for SGlicko {
    type R = GlickoRating;
    type C = GlickoConfig;
    type X = ();
    const NAME: &'static str = "glicko";
    const SEQ: bool = false;
    const NC: usize = 2;
    const UNC: bool = true;
    const SCALE: f64 = 100.0;
    fn gen_r(g: &mut G) -> GlickoRating {
        GlickoRating { rating: if g.r.chance(0.05) { g.num(sc(-9000.0, 15000.0, -500.0, 4000.0)) } else { g.num(GL) }, deviation: gen_dev(g) }
    }
    fn gen_c(g: &mut G) -> GlickoConfig {
        GlickoConfig { c: if g.r.chance(0.1) { 0.0 } else { g.num(sc(0.0, 2000.0, 10.0, 100.0)) } }
    }
    fn gen_x(_: &mut G) {}
    fn rate(a: &GlickoRating, b: &GlickoRating, o: O, c: &GlickoConfig, _: ()) -> (GlickoRating, GlickoRating) {
        let (a, b) = alias(a, b);
        skillratings::glicko::glicko(a, b, &o, c)
    }
    fn exp(a: &GlickoRating, b: &GlickoRating, _: &GlickoConfig, _: ()) -> (f64, f64) {
        let (a, b) = alias(a, b);
        skillratings::glicko::expected_score(a, b)
    }
    fn period(a: &GlickoRating, l: &[(GlickoRating, O, ())], c: &GlickoConfig) -> GlickoRating {
        let v: Vec<_> = l.iter().map(|(r, o, ())| (*r, *o)).collect();
        skillratings::glicko::glicko_rating_period(alias_in(a, v.iter().map(|t| &t.0)), &v, c)
    }
    fn exp_period(a: &GlickoRating, l: &[(GlickoRating, ())], _: &GlickoConfig) -> Vec<f64> {
        let v: Vec<_> = l.iter().map(|(r, ())| *r).collect();
        skillratings::glicko::expected_score_rating_period(alias_in(a, v.iter()), &v)
    }
    fn comps(r: &GlickoRating) -> [f64; 3] {
        [r.rating, r.deviation, 0.0]
    }
    fn with_rating(r: &GlickoRating, v: f64) -> GlickoRating {
        GlickoRating { rating: v, ..*r }
    }
    fn with_unc(r: &GlickoRating, v: f64) -> GlickoRating {
        GlickoRating { deviation: v, ..*r }
    }
    fn ref_rate(a: &GlickoRating, b: &GlickoRating, o: O, c: &GlickoConfig, _: ()) -> Option<([V; 3], [V; 3])> {
        Some((Self::ref_period(a, &[(*b, o, ())], c)?, Self::ref_period(b, &[(*a, inv(o), ())], c)?))
    }
    fn ref_period(a: &GlickoRating, l: &[(GlickoRating, O, ())], c: &GlickoConfig) -> Ref {
        let pre = (a.deviation * a.deviation + c.c * c.c).sqrt().min(350.0);
        let (mut info, mut m) = (0.0, 0.0);
        for (b, o, ()) in l {
            let g = gfun(b.deviation);
            let (e, f) = efun(g, a.rating - b.rating);
            info += g * g * e * f;
            m += g * if *o == O::WIN { f } else { pts(*o) - e };
        }
        info *= Q * Q;
        let var = 1.0 / (1.0 / (pre * pre) + info);
        Some([rt(a.rating + Q * var * m, 100.0), rt(var.sqrt(), 1.0), Z])
    }
    fn ref_exp(a: &GlickoRating, b: &GlickoRating, _: &GlickoConfig, _: ()) -> V {
        (efun(gfun(a.deviation.hypot(b.deviation)), a.rating - b.rating).0, 1e-9)
    }
}

// ------------------------------------------------------------------ Glicko-2
pub struct SGlicko2;
pub const S2: f64 = 173.7178;
pub struct G2 {
    pub v: f64,
    pub m: f64,
    pub ill: bool,
}
pub fn g2_stats(a: &Glicko2Rating, l: &[(Glicko2Rating, O, ())]) -> G2 {
    let (mut s, mut m, mut err) = (0.0, 0.0, 0.0);
    for (b, o, ()) in l {
        let phi = b.deviation / S2;
        let g = 1.0 / (1.0 + 3.0 * phi * phi / (PI * PI)).sqrt();
        let x = g * (a.rating - b.rating) / S2;
        let (e, f) = (lgst(x), lgst(-x));
        s += g * g * e * f;
        err += g * g * e * 3e-16;
        m += g * if *o == O::WIN { f } else { pts(*o) - e };
    }
    G2 { v: 1.0 / s, m, ill: !(err / s < 1e-10) }
}
pub fn g2_f(x: f64, d2: f64, p2: f64, v: f64, vol: f64, tau: f64) -> f64 {
    let ex = x.exp();
    ex * (d2 - p2 - v - ex) / (2.0 * (p2 + v + ex) * (p2 + v + ex)) - (x - 2.0 * vol.ln()) / (tau * tau)
}
/// Does the returned volatility solve the published equation to the configured accuracy?
pub fn g2_vol_ok(a: &Glicko2Rating, l: &[(Glicko2Rating, O, ())], c: &Glicko2Config, vol: f64) -> Option<bool> {
    let st = g2_stats(a, l);
    if st.ill {
        return None;
    }
    let d2 = (st.v * st.m) * (st.v * st.m);
    let p2 = (a.deviation / S2).powi(2);
    if !(vol > 0.0 && vol.is_finite()) {
        return Some(false);
    }
    let x = 2.0 * vol.ln();
    let w = 1.02 * c.convergence_tolerance + 2e-8;
    let lo = g2_f(x - w, d2, p2, st.v, a.volatility, c.tau);
    let hi = g2_f(x + w, d2, p2, st.v, a.volatility, c.tau);
    Some(lo >= 0.0 && hi <= 0.0 || lo <= 0.0 && hi >= 0.0)
}
/// number of sign changes on a grid; 2 also when the grid cannot exclude a pair of roots between its points
pub fn g2_roots(f: &dyn Fn(f64) -> f64, lo: f64, hi: f64) -> usize {
    let n = ((hi - lo).abs() * 24.0).clamp(48.0, 800.0) as usize;
    let y: Vec<f64> = (0..=n).map(|i| f(lo + (hi - lo) * i as f64 / n as f64)).collect();
    let k = y.windows(2).filter(|w| (w[0] > 0.0) != (w[1] > 0.0)).count();
    let curve = y.windows(3).map(|w| (w[0] - 2.0 * w[1] + w[2]).abs()).fold(0.0, f64::max);
    // a local extremum that comes as close to zero as the curve can move between two points
    let close = y.windows(3).any(|w| (w[1] - w[0]) * (w[2] - w[1]) <= 0.0 && w[1].abs() <= 2.0 * curve);
    if k == 1 && close {
        2
    } else {
        k
    }
}
impl Sys for SGlicko2 {
    type R = Glicko2Rating;
    type C = Glicko2Config;
    type X = ();
    const NAME: &'static str = "glicko2";
    const SEQ: bool = false;
    const NC: usize = 3;
    const UNC: bool = true;
    const SCALE: f64 = 100.0;
    fn gen_r(g: &mut G) -> Glicko2Rating {
        let volatility = if g.r.chance(0.3) { 0.06 } else { if g.r.chance(0.04) { g.num(sc(0.001, 1.0, 0.1, 0.6)) } else { g.num(sc(0.01, 0.3, 0.04, 0.09)) }};
        Glicko2Rating { rating: if g.r.chance(0.05) { g.num(sc(-9000.0, 15000.0, -500.0, 4000.0)) } else { g.num(GL) }, deviation: gen_dev(g), volatility }
    }
    fn gen_c(g: &mut G) -> Glicko2Config {
        let tau = if g.r.chance(0.3) { 0.5 } else { if g.r.chance(0.04) { g.num(sc(0.05, 4.0, 0.1, 3.0)) } else {g.num(sc(0.2, 1.5, 0.3, 1.2))} };
        let convergence_tolerance = *g.r.pick(&[1e-6, 1e-6, 1e-6, 1e-6, 1e-5, 1e-4, 1e-8, 1e-10, 1e-3]);
        Glicko2Config { tau, convergence_tolerance }
    }
    fn gen_x(_: &mut G) {}
    fn rate(a: &Glicko2Rating, b: &Glicko2Rating, o: O, c: &Glicko2Config, _: ()) -> (Glicko2Rating, Glicko2Rating) {
        let (a, b) = alias(a, b);
        skillratings::glicko2::glicko2(a, b, &o, c)
    }
    fn exp(a: &Glicko2Rating, b: &Glicko2Rating, _: &Glicko2Config, _: ()) -> (f64, f64) {
        let (a, b) = alias(a, b);
        skillratings::glicko2::expected_score(a, b)
    }
    fn period(a: &Glicko2Rating, l: &[(Glicko2Rating, O, ())], c: &Glicko2Config) -> Glicko2Rating {
        let v: Vec<_> = l.iter().map(|(r, o, ())| (*r, *o)).collect();
        skillratings::glicko2::glicko2_rating_period(alias_in(a, v.iter().map(|t| &t.0)), &v, c)
    }
    fn exp_period(a: &Glicko2Rating, l: &[(Glicko2Rating, ())], _: &Glicko2Config) -> Vec<f64> {
        let v: Vec<_> = l.iter().map(|(r, ())| *r).collect();
        skillratings::glicko2::expected_score_rating_period(alias_in(a, v.iter()), &v)
    }
    fn comps(r: &Glicko2Rating) -> [f64; 3] {
        [r.rating, r.deviation, r.volatility]
    }
    fn with_rating(r: &Glicko2Rating, v: f64) -> Glicko2Rating {
        Glicko2Rating { rating: v, ..*r }
    }
    fn with_unc(r: &Glicko2Rating, v: f64) -> Glicko2Rating {
        Glicko2Rating { deviation: v, ..*r }
    }
    fn ref_rate(a: &Glicko2Rating, b: &Glicko2Rating, o: O, c: &Glicko2Config, _: ()) -> Option<([V; 3], [V; 3])> {
        Some((Self::ref_period(a, &[(*b, o, ())], c)?, Self::ref_period(b, &[(*a, inv(o), ())], c)?))
    }
    /// Only used where a value (not a residual) is needed; the conformance check uses `g2_vol_ok`.
    fn ref_period(a: &Glicko2Rating, l: &[(Glicko2Rating, O, ())], c: &Glicko2Config) -> Ref {
        if l.is_empty() {
            let d = (a.deviation.hypot(S2 * a.volatility)).min(350.0);
            return Some([rt(a.rating, 0.0), rt(d, 1.0), rt(a.volatility, 0.0)]);
        }
        let st = g2_stats(a, l);
        if st.ill {
            return None;
        }
        let d2 = (st.v * st.m) * (st.v * st.m);
        let p2 = (a.deviation / S2).powi(2);
        let f = |x: f64| g2_f(x, d2, p2, st.v, a.volatility, c.tau);
        let a0 = 2.0 * a.volatility.ln();
        let (mut lo, mut hi);
        if d2 > p2 + st.v {
            lo = a0;
            hi = (d2 - p2 - st.v).ln();
            if lo > hi {
                std::mem::swap(&mut lo, &mut hi);
            }
        } else {
            hi = a0;
            let mut k = 1.0;
            while f(a0 - k * c.tau) < 0.0 && k < 1e4 {
                k += 1.0;
            }
            lo = a0 - k * c.tau;
        }
        let s_lo = f(lo) > 0.0;
        if g2_roots(&f, lo, hi) != 1 {
            // several solutions: a value cannot be prescribed, only that it is a solution
            return None;
        }
        for _ in 0..100 {
            let mid = 0.5 * (lo + hi);
            if (f(mid) > 0.0) == s_lo {
                lo = mid;
            } else {
                hi = mid;
            }
        }
        let x = 0.5 * (lo + hi);
        let vol = (x / 2.0).exp();
        let dx = 1.5 * c.convergence_tolerance + 1e-8;
        let (r, d) = g2_new(a, &st, vol);
        let (r2, d2_) = g2_new(a, &st, vol * (dx / 2.0).exp());
        Some([
            (r, 2.0 * (r2 - r).abs() + 1e-9 * (r.abs() + 100.0)),
            (d, 2.0 * (d2_ - d).abs() + 1e-9 * (d + 1.0)),
            (vol, vol * dx),
        ])
    }
    fn ref_exp(a: &Glicko2Rating, b: &Glicko2Rating, _: &Glicko2Config, _: ()) -> V {
        let phi = a.deviation.hypot(b.deviation) / S2;
        let g = 1.0 / (1.0 + 3.0 * phi * phi / (PI * PI)).sqrt();
        (lgst(g * (a.rating - b.rating) / S2), 1e-9)
    }
    fn rtol(a: &Glicko2Rating, l: &[(Glicko2Rating, O, ())], c: &Glicko2Config) -> [f64; 3] {
        // Two runs of the iteration may stop on different sides of the root.
        match Self::ref_period(a, l, c) {
            Some(r) => [2.0 * r[0].1, 2.0 * r[1].1, 2.0 * r[2].1],
            None => [f64::INFINITY; 3],
        }
    }
}
pub fn g2_new(a: &Glicko2Rating, st: &G2, vol: f64) -> (f64, f64) {
    let phi = a.deviation / S2;
    let p2 = phi * phi + vol * vol;
    let n2 = 1.0 / (1.0 / p2 + 1.0 / st.v);
    (a.rating + S2 * n2 * st.m, S2 * n2.sqrt())
}

// ------------------------------------------------------------------ Glicko-Boost
pub struct SBoost;
pub fn boost_growth(c: &GlickoBoostConfig, r: f64, d: f64) -> f64 {
    let r = r / 1000.0;
    let a = c.alpha;
    (d * d + (a.0 + a.1 * d + a.2 * d * r + a.3 * r + a.4 * r * r).exp()).sqrt().min(350.0)
}
impl Sys for SBoost {
    type R = GlickoBoostRating;
    type C = GlickoBoostConfig;
    type X = bool;
    const NAME: &'static str = "glicko_boost";
    const SEQ: bool = false;
    const NC: usize = 2;
    const UNC: bool = true;
    const SCALE: f64 = 100.0;
    fn gen_r(g: &mut G) -> GlickoBoostRating {
        GlickoBoostRating { rating: if g.r.chance(0.05) { g.num(sc(-9000.0, 15000.0, -500.0, 4000.0)) } else { g.num(GL) }, deviation: gen_dev(g) }
    }
    fn gen_c(g: &mut G) -> GlickoBoostConfig {
        let mut c = GlickoBoostConfig::new();
        if g.r.chance(0.35) {
            return c;
        }
        if g.r.chance(0.6) {
            c.eta = if g.r.chance(0.3) { 0.0 } else { g.num(sc(-1000.0, 1000.0, 0.0, 60.0)) };
        }
        if g.r.chance(0.6) {
            c.k = match g.r.below(20) {
                0..=4 => 0.0,
                5 => -g.num(sc(0.0, 4.0, 0.2, 2.5)),
                _ => g.num(sc(0.0, 4.0, 0.2, 2.5)),
            };
        }
        if g.r.chance(0.4) {
            c.b = (g.num(sc(0.0, 2.0, 0.0, 0.5)), g.num(sc(0.0, 100.0, 0.0, 30.0)));
        }
        if g.r.chance(0.4) {
            c.alpha = (
                g.num(sc(-2.0, 8.0, 4.0, 7.0)),
                g.num(sc(-1e-2, 1e-3, -4e-4, 0.0)),
                g.num(sc(-1e-3, 1e-4, -1e-4, 0.0)),
                g.num(sc(-0.1, 0.1, 0.0, 4e-3)),
                g.num(sc(-0.05, 0.05, 0.0, 1e-3)),
            );
        }
        c
    }
    fn gen_x(g: &mut G) -> bool {
        g.r.chance(0.5)
    }
    fn rate(a: &GlickoBoostRating, b: &GlickoBoostRating, o: O, c: &GlickoBoostConfig, x: bool) -> (GlickoBoostRating, GlickoBoostRating) {
        let (a, b) = alias(a, b);
        if x {
            skillratings::glicko_boost::glicko_boost(a, b, &o, c)
        } else {
            let (p, q) = skillratings::glicko_boost::glicko_boost(b, a, &inv(o), c);
            (q, p)
        }
    }
    fn exp(a: &GlickoBoostRating, b: &GlickoBoostRating, c: &GlickoBoostConfig, x: bool) -> (f64, f64) {
        let (a, b) = alias(a, b);
        if x {
            skillratings::glicko_boost::expected_score(a, b, c)
        } else {
            let (p, q) = skillratings::glicko_boost::expected_score(b, a, c);
            (q, p)
        }
    }
    fn period(a: &GlickoBoostRating, l: &[(GlickoBoostRating, O, bool)], c: &GlickoBoostConfig) -> GlickoBoostRating {
        skillratings::glicko_boost::glicko_boost_rating_period(alias_in(a, l.iter().map(|t| &t.0)), l, c)
    }
    fn exp_period(a: &GlickoBoostRating, l: &[(GlickoBoostRating, bool)], c: &GlickoBoostConfig) -> Vec<f64> {
        skillratings::glicko_boost::expected_score_rating_period(alias_in(a, l.iter().map(|t| &t.0)), l, c)
    }
    fn mirror(c: &GlickoBoostConfig, x: bool) -> (GlickoBoostConfig, bool) {
        let mut d = *c;
        d.eta = -d.eta;
        (d, x)
    }
    fn neutral(c: &GlickoBoostConfig, _: bool) -> bool {
        c.eta == 0.0
    }
    fn comps(r: &GlickoBoostRating) -> [f64; 3] {
        [r.rating, r.deviation, 0.0]
    }
    fn with_rating(r: &GlickoBoostRating, v: f64) -> GlickoBoostRating {
        GlickoBoostRating { rating: v, ..*r }
    }
    fn with_unc(r: &GlickoBoostRating, v: f64) -> GlickoBoostRating {
        GlickoBoostRating { deviation: v, ..*r }
    }
    fn ref_rate(a: &GlickoBoostRating, b: &GlickoBoostRating, o: O, c: &GlickoBoostConfig, x: bool) -> Option<([V; 3], [V; 3])> {
        Some((Self::ref_period(a, &[(*b, o, x)], c)?, Self::ref_period(b, &[(*a, inv(o), !x)], c)?))
    }
    fn ref_period(a: &GlickoBoostRating, l: &[(GlickoBoostRating, O, bool)], c: &GlickoBoostConfig) -> Ref {
        if l.is_empty() {
            return Some([rt(a.rating, 0.0), rt(boost_growth(c, a.rating, a.deviation), 1.0), Z]);
        }
        let (mut s, mut m) = (0.0, 0.0);
        for (b, o, x) in l {
            let g = gfun(b.deviation);
            let adv = if *x { c.eta } else { -c.eta };
            let (e, f) = efun(g, a.rating + adv - b.rating);
            s += g * g * e * f;
            m += g * if *o == O::WIN { f } else { pts(*o) - e };
        }
        // z, result and whether the boost applies, from the two sums
        let calc = |s: f64, m: f64| {
            let z = m / s.sqrt();
            let info = Q * Q * s;
            let mut var = 1.0 / (1.0 / (a.deviation * a.deviation) + info);
            let boosted = z > c.k && c.k != 0.0;
            if boosted {
                let pre = (1.0 + (z - c.k) * c.b.0) * var.sqrt() + c.b.1;
                var = 1.0 / (1.0 / (pre * pre) + info);
            }
            let d = var.sqrt().min(350.0);
            let r = a.rating + Q * d * d * m;
            (z, r, boost_growth(c, r, d), boosted)
        };
        let (z, r, end, boosted) = calc(s, m);
        // at the boost threshold a rounding error decides
        if c.k != 0.0 && (z - c.k).abs() < 1e-7 * (1.0 + c.k.abs()) {
            return None;
        }
        // e close to 1 makes 1 - e (and with it z) inexact in the implementation
        let n = l.len() as f64;
        let (ds, dm) = (n * 4e-16 + 1e-13 * s, n * 4e-16 + 1e-13 * m.abs());
        if ds >= s {
            return None;
        }
        let (mut t0, mut t1) = (1e-9 * (r.abs() + 100.0), 1e-9 * (end + 1.0));
        for (x, y) in [(ds, dm), (ds, -dm), (-ds, dm), (-ds, -dm)] {
            let (_, r2, end2, b2) = calc(s + x, m + y);
            if b2 != boosted {
                return None;
            }
            t0 = t0.max(2.0 * (r2 - r).abs());
            t1 = t1.max(2.0 * (end2 - end).abs());
        }
        Some([(r, t0), (end, t1), Z])
    }
    fn rtol(a: &GlickoBoostRating, l: &[(GlickoBoostRating, O, bool)], c: &GlickoBoostConfig) -> [f64; 3] {
        let Some(t) = Self::ref_period(a, l, c) else {
            return [f64::INFINITY; 3];
        };
        [
            (1e-9 * (a.rating.abs() + Self::SCALE)).max(t[0].1),
            (1e-9 * (a.deviation.abs() + 1.0)).max(t[1].1),
            1e-9,
        ]
    }
    fn ref_exp(a: &GlickoBoostRating, b: &GlickoBoostRating, c: &GlickoBoostConfig, x: bool) -> V {
        let adv = if x { c.eta } else { -c.eta };
        (efun(gfun(a.deviation.hypot(b.deviation)), a.rating + adv - b.rating).0, 1e-9)
    }
}

// ------------------------------------------------------------------ Sticko
pub struct SSticko;
impl Sys for SSticko {
    type R = StickoRating;
    type C = StickoConfig;
    type X = bool;
    const NAME: &'static str = "sticko";
    const SEQ: bool = false;
    const NC: usize = 2;
    const UNC: bool = true;
    const SCALE: f64 = 100.0;
    fn gen_r(g: &mut G) -> StickoRating {
        StickoRating { rating: if g.r.chance(0.05) { g.num(sc(-9000.0, 15000.0, -500.0, 4000.0)) } else { g.num(GL) }, deviation: gen_dev(g) }
    }
    fn gen_c(g: &mut G) -> StickoConfig {
        let mut c = StickoConfig::new();
        if g.r.chance(0.25) {
            return c;
        }
        if g.r.chance(0.7) {
            c.h = if g.r.chance(0.2) { 0.0 } else { g.num(sc(0.0, 5000.0, 0.0, 50.0)) };
        }
        if g.r.chance(0.5) {
            c.beta = if g.r.chance(0.3) { 0.0 } else { g.num(sc(-0.2, 0.5, 0.0, 0.1)) };
        }
        if g.r.chance(0.7) {
            c.lambda = if g.r.chance(0.3) { 0.0 } else { g.num(sc(0.0, 100.0, 0.0, 5.0)) };
        }
        if g.r.chance(0.6) {
            c.gamma = if g.r.chance(0.2) { 0.0 } else { g.num(sc(-1000.0, 1000.0, 0.0, 60.0)) };
        }
        if g.r.chance(0.6) {
            c.c = if g.r.chance(0.15) { 0.0 } else { g.num(sc(0.0, 2000.0, 0.0, 80.0)) };
        }
        c
    }
    fn gen_x(g: &mut G) -> bool {
        g.r.chance(0.5)
    }
    fn rate(a: &StickoRating, b: &StickoRating, o: O, c: &StickoConfig, x: bool) -> (StickoRating, StickoRating) {
        let (a, b) = alias(a, b);
        if x {
            skillratings::sticko::sticko(a, b, &o, c)
        } else {
            let (p, q) = skillratings::sticko::sticko(b, a, &inv(o), c);
            (q, p)
        }
    }
    fn exp(a: &StickoRating, b: &StickoRating, c: &StickoConfig, x: bool) -> (f64, f64) {
        let (a, b) = alias(a, b);
        if x {
            skillratings::sticko::expected_score(a, b, c)
        } else {
            let (p, q) = skillratings::sticko::expected_score(b, a, c);
            (q, p)
        }
    }
    fn period(a: &StickoRating, l: &[(StickoRating, O, bool)], c: &StickoConfig) -> StickoRating {
        skillratings::sticko::sticko_rating_period(alias_in(a, l.iter().map(|t| &t.0)), l, c)
    }
    fn exp_period(a: &StickoRating, l: &[(StickoRating, bool)], c: &StickoConfig) -> Vec<f64> {
        skillratings::sticko::expected_score_rating_period(alias_in(a, l.iter().map(|t| &t.0)), l, c)
    }
    fn mirror(c: &StickoConfig, x: bool) -> (StickoConfig, bool) {
        let mut d = *c;
        d.gamma = -d.gamma;
        (d, x)
    }
    fn neutral(c: &StickoConfig, _: bool) -> bool {
        c.gamma == 0.0
    }
    fn comps(r: &StickoRating) -> [f64; 3] {
        [r.rating, r.deviation, 0.0]
    }
    fn with_rating(r: &StickoRating, v: f64) -> StickoRating {
        StickoRating { rating: v, ..*r }
    }
    fn with_unc(r: &StickoRating, v: f64) -> StickoRating {
        StickoRating { deviation: v, ..*r }
    }
    fn ref_rate(a: &StickoRating, b: &StickoRating, o: O, c: &StickoConfig, x: bool) -> Option<([V; 3], [V; 3])> {
        Some((Self::ref_period(a, &[(*b, o, x)], c)?, Self::ref_period(b, &[(*a, inv(o), !x)], c)?))
    }
    fn ref_period(a: &StickoRating, l: &[(StickoRating, O, bool)], c: &StickoConfig) -> Ref {
        let pre2 = (a.deviation * a.deviation + c.c * c.c).min(350.0 * 350.0);
        if l.is_empty() {
            return Some([rt(a.rating, 0.0), rt(pre2.sqrt(), 1.0), Z]);
        }
        let n = l.len() as f64;
        let (mut s, mut m, mut avg) = (0.0, 0.0, 0.0);
        for (b, o, x) in l {
            let g = gfun(b.deviation);
            let adv = if *x { c.gamma } else { -c.gamma };
            let (e, f) = efun(g, a.rating + adv - b.rating);
            s += g * g * e * f;
            m += g * (if *o == O::WIN { f } else { pts(*o) - e } + c.beta);
            avg += b.rating / n;
        }
        let info = Q * Q * s;
        let r = a.rating + Q / (1.0 / pre2 + info) * m + c.lambda / 100.0 * (avg - a.rating);
        let d = (1.0 / (1.0 / (pre2 + c.h * n) + info)).sqrt().min(350.0);
        Some([rt(r, 100.0), rt(d, 1.0), Z])
    }
    fn ref_exp(a: &StickoRating, b: &StickoRating, c: &StickoConfig, x: bool) -> V {
        let adv = if x { c.gamma } else { -c.gamma };
        (efun(gfun(a.deviation.hypot(b.deviation)), a.rating + adv - b.rating).0, 1e-9)
    }
}

// ------------------------------------------------------------------ DWZ
pub struct SDwz;
pub fn gen_age(g: &mut G) -> usize {
    match g.r.below(5) {
        0 => 18 + g.r.below(10),
        1 => *g.r.pick(&[0, 1, 2, 19, 20, 21, 25, 26, 27]),
        _ => g.int(0, 1 << 33, 70),
    }
}
impl Sys for SDwz {
    type R = DWZRating;
    type C = ();
    type X = ();
    const NAME: &'static str = "dwz";
    const SEQ: bool = false;
    const NC: usize = 3;
    const UNC: bool = false;
    const SCALE: f64 = 100.0;
    fn gen_r(g: &mut G) -> DWZRating {
        let index = if g.r.chance(0.6) { 1 + g.r.below(9) } else { g.int(1, 1 << 33, 30) };
        DWZRating { rating: if g.r.chance(0.05) { g.num(sc(-9000.0, 9000.0, -2000.0, 4000.0)) } else { g.num(sc(-500.0, 4000.0, 500.0, 2600.0)) }, index, age: gen_age(g) }
    }
    fn gen_c(_: &mut G) {}
    fn gen_x(_: &mut G) {}
    fn rate(a: &DWZRating, b: &DWZRating, o: O, _: &(), _: ()) -> (DWZRating, DWZRating) {
        let (a, b) = alias(a, b);
        skillratings::dwz::dwz(a, b, &o)
    }
    fn exp(a: &DWZRating, b: &DWZRating, _: &(), _: ()) -> (f64, f64) {
        let (a, b) = alias(a, b);
        skillratings::dwz::expected_score(a, b)
    }
    fn period(a: &DWZRating, l: &[(DWZRating, O, ())], _: &()) -> DWZRating {
        let v: Vec<_> = l.iter().map(|(r, o, ())| (*r, *o)).collect();
        skillratings::dwz::dwz_rating_period(alias_in(a, v.iter().map(|t| &t.0)), &v)
    }
    fn exp_period(a: &DWZRating, l: &[(DWZRating, ())], _: &()) -> Vec<f64> {
        let v: Vec<_> = l.iter().map(|(r, ())| *r).collect();
        skillratings::dwz::expected_score_rating_period(alias_in(a, v.iter()), &v)
    }
    fn comps(r: &DWZRating) -> [f64; 3] {
        [r.rating, r.index as f64, r.age as f64]
    }
    fn with_rating(r: &DWZRating, v: f64) -> DWZRating {
        DWZRating { rating: v, ..*r }
    }
    fn ref_rate(a: &DWZRating, b: &DWZRating, o: O, c: &(), _: ()) -> Option<([V; 3], [V; 3])> {
        Some((Self::ref_period(a, &[(*b, o, ())], c)?, Self::ref_period(b, &[(*a, inv(o), ())], c)?))
    }
    fn ref_period(a: &DWZRating, l: &[(DWZRating, O, ())], _: &()) -> Ref {
        let meta = |r: V| Some([r, ((a.index + 1) as f64, 0.0), (a.age as f64, 0.0)]);
        if l.is_empty() {
            return meta(rt(a.rating, 0.0));
        }
        let n = l.len() as f64;
        let (mut s, mut e, mut surplus) = (0.0, 0.0, 0.0);
        for (b, o, ()) in l {
            let x = (a.rating - b.rating) * LN10 / 400.0;
            s += pts(*o);
            e += lgst(x);
            surplus += if *o == O::WIN { lgst(-x) } else { pts(*o) - lgst(x) };
        }
        let _ = (s, e);
        let j = if a.age <= 20 {
            5.0
        } else if a.age <= 25 {
            10.0
        } else {
            15.0
        };
        let e0 = (a.rating / 1000.0).powi(4) + j;
        let coeff = |ge: bool, le: bool| {
            let acc = if a.age < 20 && ge { a.rating / 2000.0 } else { 1.0 };
            let brake = if a.rating < 1300.0 && le { ((1300.0 - a.rating) / 150.0).exp() - 1.0 } else { 0.0 };
            let braked = a.rating < 1300.0 && le;
            let mut d = acc * e0 + brake;
            if d <= 5.0 {
                d = 5.0;
            } else if !braked {
                d = d.min(30f64.min(5.0 * a.index as f64));
            } else {
                d = d.min(150.0);
            }
            d
        };
        let (ge, le) = (surplus >= 0.0, surplus <= 0.0);
        let r = a.rating + 800.0 / (coeff(ge, le) + n) * surplus;
        meta(rt(r, 100.0))
    }
    fn ref_exp(a: &DWZRating, b: &DWZRating, _: &(), _: ()) -> V {
        (lgst((a.rating - b.rating) * LN10 / 400.0), 1e-9)
    }
}

// ------------------------------------------------------------------ Ingo
pub struct SIngo;
pub fn ingo_dev(age: usize) -> f64 {
    if age <= 20 {
        10.0
    } else if age <= 25 {
        15.0
    } else {
        20.0
    }
}
impl Sys for SIngo {
    type R = IngoRating;
    type C = ();
    type X = ();
    const NAME: &'static str = "ingo";
    const SEQ: bool = false;
    const NC: usize = 2;
    const UNC: bool = false;
    const SCALE: f64 = 20.0;
    fn gen_r(g: &mut G) -> IngoRating {
        IngoRating { rating: if g.r.chance(0.05) { g.num(sc(-9000.0, 9000.0, -1000.0, 1000.0)) } else { g.num(sc(-300.0, 500.0, 40.0, 260.0)) }, age: gen_age(g) }
    }
    fn gen_c(_: &mut G) {}
    fn gen_x(_: &mut G) {}
    fn rate(a: &IngoRating, b: &IngoRating, o: O, _: &(), _: ()) -> (IngoRating, IngoRating) {
        let (a, b) = alias(a, b);
        skillratings::ingo::ingo(a, b, &o)
    }
    fn exp(a: &IngoRating, b: &IngoRating, _: &(), _: ()) -> (f64, f64) {
        let (a, b) = alias(a, b);
        skillratings::ingo::expected_score(a, b)
    }
    fn period(a: &IngoRating, l: &[(IngoRating, O, ())], _: &()) -> IngoRating {
        let v: Vec<_> = l.iter().map(|(r, o, ())| (*r, *o)).collect();
        skillratings::ingo::ingo_rating_period(alias_in(a, v.iter().map(|t| &t.0)), &v)
    }
    fn exp_period(a: &IngoRating, l: &[(IngoRating, ())], _: &()) -> Vec<f64> {
        let v: Vec<_> = l.iter().map(|(r, ())| *r).collect();
        skillratings::ingo::expected_score_rating_period(alias_in(a, v.iter()), &v)
    }
    fn comps(r: &IngoRating) -> [f64; 3] {
        [r.rating, r.age as f64, 0.0]
    }
    fn with_rating(r: &IngoRating, v: f64) -> IngoRating {
        IngoRating { rating: v, ..*r }
    }
    fn skill(r: &IngoRating) -> f64 {
        -r.rating
    }
    fn stronger(r: &IngoRating, by: f64) -> IngoRating {
        IngoRating { rating: r.rating - by, ..*r }
    }
    fn ref_rate(a: &IngoRating, b: &IngoRating, o: O, c: &(), _: ()) -> Option<([V; 3], [V; 3])> {
        Some((Self::ref_period(a, &[(*b, o, ())], c)?, Self::ref_period(b, &[(*a, inv(o), ())], c)?))
    }
    fn ref_period(a: &IngoRating, l: &[(IngoRating, O, ())], _: &()) -> Ref {
        let age = (a.age as f64, 0.0);
        if l.is_empty() {
            return Some([rt(a.rating, 0.0), age, Z]);
        }
        let n = l.len() as f64;
        let s: f64 = l.iter().map(|x| pts(x.1)).sum();
        let opp: f64 = l.iter().map(|x| x.0.rating).sum();
        let d = ingo_dev(a.age);
        let perf_n = opp - 100.0 * s + 50.0 * n;
        Some([rt((perf_n + a.rating * d) / (n + d), 20.0), age, Z])
    }
    fn ref_exp(a: &IngoRating, b: &IngoRating, _: &(), _: ()) -> V {
        ((0.5 + (b.rating - a.rating) / 100.0).clamp(0.0, 1.0), 1e-9)
    }
}

// ------------------------------------------------------------------ USCF
pub struct SUscf;
impl Sys for SUscf {
    type R = USCFRating;
    type C = USCFConfig;
    type X = ();
    const NAME: &'static str = "uscf";
    const SEQ: bool = false;
    const NC: usize = 2;
    const UNC: bool = false;
    const SCALE: f64 = 100.0;
    fn gen_r(g: &mut G) -> USCFRating {
        let games = match g.r.below(4) {
            0 => g.r.below(12),
            1 => 5 + g.r.below(60),
            _ => g.int(0, 1 << 33, 120),
        };
        USCFRating { rating: if g.r.chance(0.05) { g.num(sc(100.0, 9000.0, 100.0, 4000.0)) } else { g.num(sc(100.0, 4000.0, 300.0, 2700.0)) }, games }
    }
    fn gen_c(g: &mut G) -> USCFConfig {
        USCFConfig { t: if g.r.chance(0.4) { 14.0 } else { g.num(sc(0.0, 60.0, 5.0, 20.0)) } }
    }
    fn gen_x(_: &mut G) {}
    fn rate(a: &USCFRating, b: &USCFRating, o: O, c: &USCFConfig, _: ()) -> (USCFRating, USCFRating) {
        let (a, b) = alias(a, b);
        skillratings::uscf::uscf(a, b, &o, c)
    }
    fn exp(a: &USCFRating, b: &USCFRating, _: &USCFConfig, _: ()) -> (f64, f64) {
        let (a, b) = alias(a, b);
        skillratings::uscf::expected_score(a, b)
    }
    fn period(a: &USCFRating, l: &[(USCFRating, O, ())], c: &USCFConfig) -> USCFRating {
        let v: Vec<_> = l.iter().map(|(r, o, ())| (*r, *o)).collect();
        skillratings::uscf::uscf_rating_period(alias_in(a, v.iter().map(|t| &t.0)), &v, c)
    }
    fn exp_period(a: &USCFRating, l: &[(USCFRating, ())], _: &USCFConfig) -> Vec<f64> {
        let v: Vec<_> = l.iter().map(|(r, ())| *r).collect();
        skillratings::uscf::expected_score_rating_period(alias_in(a, v.iter()), &v)
    }
    fn comps(r: &USCFRating) -> [f64; 3] {
        [r.rating, r.games as f64, 0.0]
    }
    fn with_rating(r: &USCFRating, v: f64) -> USCFRating {
        USCFRating { rating: v, ..*r }
    }
    fn ref_rate(a: &USCFRating, b: &USCFRating, o: O, c: &USCFConfig, _: ()) -> Option<([V; 3], [V; 3])> {
        Some((Self::ref_period(a, &[(*b, o, ())], c)?, Self::ref_period(b, &[(*a, inv(o), ())], c)?))
    }
    fn ref_period(a: &USCFRating, l: &[(USCFRating, O, ())], c: &USCFConfig) -> Ref {
        let games = ((a.games + l.len()) as f64, 0.0);
        if l.is_empty() {
            return Some([rt(a.rating, 0.0), games, Z]);
        }
        Some([rt(uscf_raw(a, l, c).max(100.0), 100.0), games, Z])
    }
    fn ref_exp(a: &USCFRating, b: &USCFRating, _: &USCFConfig, _: ()) -> V {
        (lgst((a.rating - b.rating) * LN10 / 400.0), 1e-9)
    }
}
/// the USCF result before the floor
pub fn uscf_raw(a: &USCFRating, l: &[(USCFRating, O, ())], c: &USCFConfig) -> f64 {
    let n = l.len() as f64;
    if a.games <= 8 {
        let opp: f64 = l.iter().map(|x| x.0.rating).sum();
        let net: f64 = l.iter().map(|x| 2.0 * pts(x.1) - 1.0).sum();
        return (a.games as f64 * a.rating + opp + 400.0 * net) / (a.games as f64 + n);
    }
    let surplus: f64 = l
        .iter()
        .map(|(b, o, ())| {
            let x = (a.rating - b.rating) * LN10 / 400.0;
            if *o == O::WIN {
                lgst(-x)
            } else {
                pts(*o) - lgst(x)
            }
        })
        .sum();
    let mut ne = (a.games as f64).min(50.0);
    if a.rating < 2355.0 {
        ne = ne.min(50.0 / (0.662 + 0.000_007_39 * (2569.0 - a.rating) * (2569.0 - a.rating)).sqrt());
    }
    let k = 800.0 / (ne + n);
    let ks = k * surplus;
    let bonus = if l.len() < 3 { 0.0 } else { (ks - c.t * n.max(4.0).sqrt()).max(0.0) };
    a.rating + ks + bonus
}

// ------------------------------------------------------------------ EGF
pub struct SEgf;
pub fn egf_help(hc: f64) -> (f64, f64) {
    let h = if hc == 0.0 { 0.0 } else { 100.0 * (hc.abs() - 0.5) };
    if hc < 0.0 {
        (h, 0.0)
    } else {
        (0.0, h)
    }
}
pub fn egf_con_bonus(r: f64) -> (f64, f64) {
    let con = ((3300.0 - r) / 200.0).powf(1.6);
    let y = (2300.0 - r) / 80.0;
    let bonus = if y > 30.0 { y + (-y).exp() } else { y.exp().ln_1p() } / 5.0;
    (con, bonus)
}
impl Sys for SEgf {
    type R = EGFRating;
    type C = ();
    type X = EGFConfig;
    const NAME: &'static str = "egf";
    const SEQ: bool = false;
    const NC: usize = 1;
    const UNC: bool = false;
    const SCALE: f64 = 100.0;
    fn gen_r(g: &mut G) -> EGFRating {
        EGFRating { rating: if g.r.chance(0.05) { g.num(sc(-3000.0, 2990.0, -1500.0, 0.0)) } else { g.num(sc(-900.0, 2990.0, -500.0, 2800.0)) } }
    }
    fn gen_c(_: &mut G) {}
    fn gen_x(g: &mut G) -> EGFConfig {
        let handicap = match g.r.below(6) {
            0 | 1 => 0.0,
            2 | 3 => (g.r.below(19) as f64) - 9.0,
            4 => g.num(sc(-9.0, 9.0, -9.0, 9.0)),
            _ => *g.r.pick(&[-0.0, 0.5, -0.5, 1.0, -1.0]),
        };
        EGFConfig { handicap }
    }
    fn ok(a: &EGFRating, b: &EGFRating, _: &(), x: EGFConfig) -> bool {
        let (h1, h2) = egf_help(x.handicap);
        a.rating + h1 < 3250.0 && b.rating + h2 < 3250.0
    }
    fn rate(a: &EGFRating, b: &EGFRating, o: O, _: &(), x: EGFConfig) -> (EGFRating, EGFRating) {
        let (a, b) = alias(a, b);
        skillratings::egf::egf(a, b, &o, &x)
    }
    fn exp(a: &EGFRating, b: &EGFRating, _: &(), x: EGFConfig) -> (f64, f64) {
        let (a, b) = alias(a, b);
        skillratings::egf::expected_score(a, b, &x)
    }
    fn period(a: &EGFRating, l: &[(EGFRating, O, EGFConfig)], _: &()) -> EGFRating {
        skillratings::egf::egf_rating_period(alias_in(a, l.iter().map(|t| &t.0)), l)
    }
    fn exp_period(a: &EGFRating, l: &[(EGFRating, EGFConfig)], _: &()) -> Vec<f64> {
        skillratings::egf::expected_score_rating_period(alias_in(a, l.iter().map(|t| &t.0)), l)
    }
    fn mirror(_: &(), x: EGFConfig) -> ((), EGFConfig) {
        ((), EGFConfig { handicap: -x.handicap })
    }
    fn neutral(_: &(), x: EGFConfig) -> bool {
        x.handicap == 0.0
    }
    fn comps(r: &EGFRating) -> [f64; 3] {
        [r.rating, 0.0, 0.0]
    }
    fn with_rating(_: &EGFRating, v: f64) -> EGFRating {
        EGFRating { rating: v }
    }
    fn ref_rate(a: &EGFRating, b: &EGFRating, o: O, c: &(), x: EGFConfig) -> Option<([V; 3], [V; 3])> {
        Some((Self::ref_period(a, &[(*b, o, x)], c)?, Self::ref_period(b, &[(*a, inv(o), Self::mirror(&(), x).1)], c)?))
    }
    fn ref_period(a: &EGFRating, l: &[(EGFRating, O, EGFConfig)], _: &()) -> Ref {
        let (con, bonus) = egf_con_bonus(a.rating);
        let mut change = 0.0;
        for (b, o, x) in l {
            let e = egf_e(a.rating, b.rating, x.handicap);
            let d = con * (pts(*o) - e) + bonus;
            if l.len() > 1 && a.rating + d < -900.0 + 1e-6 {
                // a single game of a period at the floor: only the floor itself is claimed
                return None;
            }
            change += d;
        }
        Some([rt((a.rating + change).max(-900.0), 100.0), Z, Z])
    }
    fn ref_exp(a: &EGFRating, b: &EGFRating, _: &(), x: EGFConfig) -> V {
        (egf_e(a.rating, b.rating, x.handicap), 1e-9)
    }
}
pub fn egf_e(r1: f64, r2: f64, hc: f64) -> f64 {
    let (h1, h2) = egf_help(hc);
    // beta(r) = -7 ln(3300 - r): a ratio of powers
    lgst(7.0 * ((3300.0 - r2 - h2) / (3300.0 - r1 - h1)).ln())
}

// ------------------------------------------------------------------ Weng-Lin
pub struct SWl;
pub const WLR: Sc = sc(-200.0, 300.0, 0.0, 50.0);
pub fn gen_unc(g: &mut G) -> f64 {
    if g.r.chance(0.04) { return g.num(sc(0.001, 300.0, 9.0, 100.0)); }
    match g.r.below(6) {
        0 => 25.0 / 3.0,
        1 => g.num(sc(0.05, 30.0, 0.05, 1.0)),
        _ => g.num(sc(0.05, 30.0, 0.5, 9.0)),
    }
}
pub fn wl_cfg(g: &mut G) -> WengLinConfig {
    if g.r.chance(0.35) {
        return WengLinConfig::new();
    }
    WengLinConfig {
        beta: g.num(sc(0.1, 20.0, 1.0, 8.0)),
        uncertainty_tolerance: *g.r.pick(&[1e-6, 1e-6, 1e-4, 1e-3, 0.01, 0.1, 0.5, 0.9]),
    }
}
impl Sys for SWl {
    type R = WengLinRating;
    type C = WengLinConfig;
    type X = ();
    const NAME: &'static str = "weng_lin";
    const SEQ: bool = true;
    const NC: usize = 2;
    const UNC: bool = true;
    const SCALE: f64 = 10.0;
    fn gen_r(g: &mut G) -> WengLinRating {
        WengLinRating { rating: if g.r.chance(0.05) { g.num(sc(-5000.0, 5000.0, -1000.0, 1000.0)) } else { g.num(WLR) }, uncertainty: gen_unc(g) }
    }
    fn gen_c(g: &mut G) -> WengLinConfig {
        wl_cfg(g)
    }
    fn gen_x(_: &mut G) {}
    fn rate(a: &WengLinRating, b: &WengLinRating, o: O, c: &WengLinConfig, _: ()) -> (WengLinRating, WengLinRating) {
        let (a, b) = alias(a, b);
        skillratings::weng_lin::weng_lin(a, b, &o, c)
    }
    fn exp(a: &WengLinRating, b: &WengLinRating, c: &WengLinConfig, _: ()) -> (f64, f64) {
        let (a, b) = alias(a, b);
        skillratings::weng_lin::expected_score(a, b, c)
    }
    fn period(a: &WengLinRating, l: &[(WengLinRating, O, ())], c: &WengLinConfig) -> WengLinRating {
        let v: Vec<_> = l.iter().map(|(r, o, ())| (*r, *o)).collect();
        skillratings::weng_lin::weng_lin_rating_period(alias_in(a, v.iter().map(|t| &t.0)), &v, c)
    }
    fn exp_period(a: &WengLinRating, l: &[(WengLinRating, ())], c: &WengLinConfig) -> Vec<f64> {
        let v: Vec<_> = l.iter().map(|(r, ())| *r).collect();
        skillratings::weng_lin::expected_score_rating_period(alias_in(a, v.iter()), &v, c)
    }
    fn comps(r: &WengLinRating) -> [f64; 3] {
        [r.rating, r.uncertainty, 0.0]
    }
    fn with_rating(r: &WengLinRating, v: f64) -> WengLinRating {
        WengLinRating { rating: v, ..*r }
    }
    fn with_unc(r: &WengLinRating, v: f64) -> WengLinRating {
        WengLinRating { uncertainty: v, ..*r }
    }
    fn ref_rate(a: &WengLinRating, b: &WengLinRating, o: O, c: &WengLinConfig, _: ()) -> Option<([V; 3], [V; 3])> {
        Some((Self::ref_period(a, &[(*b, o, ())], c)?, Self::ref_period(b, &[(*a, inv(o), ())], c)?))
    }
    fn ref_period(a: &WengLinRating, l: &[(WengLinRating, O, ())], c: &WengLinConfig) -> Ref {
        let (mut r, mut u) = (a.rating, a.uncertainty);
        for (b, o, ()) in l {
            let cc = (2.0 * c.beta * c.beta + u * u + b.uncertainty * b.uncertainty).sqrt();
            let x = (r - b.rating) / cc;
            let (p, q) = (lgst(x), lgst(-x));
            let d = if *o == O::WIN { q } else { pts(*o) - p };
            r += u * u / cc * d;
            u = (u * u * (1.0 - (u / cc).powi(3) * p * q).max(c.uncertainty_tolerance)).sqrt();
        }
        Some([rt(r, 10.0), rt(u, 0.1), Z])
    }
    fn ref_exp(a: &WengLinRating, b: &WengLinRating, c: &WengLinConfig, _: ()) -> V {
        let cc = (2.0 * c.beta * c.beta + a.uncertainty.powi(2) + b.uncertainty.powi(2)).sqrt();
        (lgst((a.rating - b.rating) / cc), 1e-9)
    }
}

// ------------------------------------------------------------------ TrueSkill
pub struct STs;
pub fn ts_cfg(g: &mut G) -> TrueSkillConfig {
    if g.r.chance(0.35) {
        return TrueSkillConfig::new();
    }
    let beta = g.num(sc(0.1, 20.0, 1.0, 8.0));
    let draw_probability = match g.r.below(4) {
        0 => 0.1,
        1 if g.r.chance(0.3) => {
            // no draws at all, hardly any, almost only
            match g.r.below(3) {
                0 => 0.0,
                1 => 10f64.powf(-9.0 + 7.0 * g.r.f()),
                _ => 0.95 + 0.0499 * g.r.f(),
            }
        }
        1 => g.num(sc(0.005, 0.95, 0.4, 0.9)),
        _ => g.num(sc(0.005, 0.95, 0.01, 0.4)),
    };
    let dynamics_factor = match g.r.below(4) {
        0 => 0.0,
        1 => beta * g.r.f(),
        _ => g.num(sc(0.0, 20.0, 0.01, 0.5)).min(beta),
    };
    TrueSkillConfig { draw_probability, beta, dynamics_factor }
}
impl Sys for STs {
    type R = TrueSkillRating;
    type C = TrueSkillConfig;
    type X = ();
    const NAME: &'static str = "trueskill";
    const SEQ: bool = true;
    const NC: usize = 2;
    const UNC: bool = true;
    const SCALE: f64 = 10.0;
    fn gen_r(g: &mut G) -> TrueSkillRating {
        TrueSkillRating { rating: if g.r.chance(0.03) { g.num(sc(-2000.0, 2000.0, -500.0, 500.0)) } else { g.num(WLR) }, uncertainty: gen_unc(g) }
    }
    fn gen_c(g: &mut G) -> TrueSkillConfig {
        ts_cfg(g)
    }
    fn gen_x(_: &mut G) {}
    fn rate(a: &TrueSkillRating, b: &TrueSkillRating, o: O, c: &TrueSkillConfig, _: ()) -> (TrueSkillRating, TrueSkillRating) {
        let (a, b) = alias(a, b);
        skillratings::trueskill::trueskill(a, b, &o, c)
    }
    fn exp(a: &TrueSkillRating, b: &TrueSkillRating, c: &TrueSkillConfig, _: ()) -> (f64, f64) {
        let (a, b) = alias(a, b);
        skillratings::trueskill::expected_score(a, b, c)
    }
    fn period(a: &TrueSkillRating, l: &[(TrueSkillRating, O, ())], c: &TrueSkillConfig) -> TrueSkillRating {
        let v: Vec<_> = l.iter().map(|(r, o, ())| (*r, *o)).collect();
        skillratings::trueskill::trueskill_rating_period(alias_in(a, v.iter().map(|t| &t.0)), &v, c)
    }
    fn exp_period(a: &TrueSkillRating, l: &[(TrueSkillRating, ())], c: &TrueSkillConfig) -> Vec<f64> {
        let v: Vec<_> = l.iter().map(|(r, ())| *r).collect();
        skillratings::trueskill::expected_score_rating_period(alias_in(a, v.iter()), &v, c)
    }
    fn comps(r: &TrueSkillRating) -> [f64; 3] {
        [r.rating, r.uncertainty, 0.0]
    }
    fn with_rating(r: &TrueSkillRating, v: f64) -> TrueSkillRating {
        TrueSkillRating { rating: v, ..*r }
    }
    fn with_unc(r: &TrueSkillRating, v: f64) -> TrueSkillRating {
        TrueSkillRating { uncertainty: v, ..*r }
    }
    fn ref_rate(a: &TrueSkillRating, b: &TrueSkillRating, o: O, c: &TrueSkillConfig, _: ()) -> Option<([V; 3], [V; 3])> {
        Some((Self::ref_period(a, &[(*b, o, ())], c)?, Self::ref_period(b, &[(*a, inv(o), ())], c)?))
    }
    fn ref_period(a: &TrueSkillRating, l: &[(TrueSkillRating, O, ())], c: &TrueSkillConfig) -> Ref {
        // The trajectories with the accurate and with the published error function, and with a slightly different
        // margin (the inverse is approximated too); the widest gap seen on the way bounds what the approximation may cost.
        use ts::Kind::{Approx, Flip, Precise};
        if l.iter().any(|g| ts::degenerate(c, g.1)) {
            return None;
        }
        let run = |kinds: &[(ts::Kind, f64)]| -> Option<((f64, f64), f64, f64)> {
            let mut st = vec![(a.rating, a.uncertainty); kinds.len()];
            let eps: Vec<_> = kinds.iter().map(|(k, s)| s * ts::draw_margin(*k, c, 2.0)).collect();
            let (mut gr, mut gu) = (0.0f64, 0.0f64);
            for (b, o, ()) in l {
                for i in 0..kinds.len() {
                    let (r, u) = st[i];
                    let cc = (2.0 * c.beta * c.beta + u * u + b.uncertainty * b.uncertainty).sqrt();
                    let (v, w) = ts::vw(kinds[i].0, (r - b.rating) / cc, eps[i] / cc, *o)?;
                    let var = u * u + c.dynamics_factor * c.dynamics_factor;
                    // w is at most 1, also where the approximation says otherwise
                    st[i] = (r + var / cc * v, (var * (1.0 - w.min(1.0) * var / (cc * cc))).sqrt());
                    if !st[i].1.is_finite() || st[i].1 <= 0.0 {
                        return None;
                    }
                    gr = gr.max((st[i].0 - st[0].0).abs());
                    gu = gu.max((st[i].1 - st[0].1).abs());
                }
            }
            Some((st[0], gr, gu))
        };
        let (r, jump) = ts::near_jump(|| run(&[(Precise, 1.0), (Approx, 1.0), (Approx, 1.0 + 3e-6), (Precise, 1.0 - 3e-6)]));
        let (p, mut gr, mut gu) = r?;
        if jump {
            let (_, x, y) = run(&[(Precise, 1.0), (Flip, 1.0), (Flip, 1.0 + 3e-6)])?;
            gr = gr.max(x);
            gu = gu.max(y);
        }
        let q = (p.0 + gr, p.1 + gu);
        ts::combine(p, q, l.len())
    }
    fn ref_exp(a: &TrueSkillRating, b: &TrueSkillRating, c: &TrueSkillConfig, _: ()) -> V {
        let d = (2.0 * c.beta * c.beta + a.uncertainty.powi(2) + b.uncertainty.powi(2)).sqrt();
        (ts::cdf(ts::Kind::Precise, (a.rating - b.rating) / d), 3e-7)
    }
    fn rtol(a: &TrueSkillRating, l: &[(TrueSkillRating, O, ())], c: &TrueSkillConfig) -> [f64; 3] {
        match Self::ref_period(a, l, c) {
            Some(r) => [2.0 * r[0].1, 2.0 * r[1].1, 0.0],
            None => [f64::INFINITY, f64::INFINITY, 0.0],
        }
    }
    fn etol() -> f64 {
        5e-7
    }
    fn edge(g: &mut G, c: &TrueSkillConfig, players: usize) -> Option<f64> {
        let e = ts::draw_margin(ts::Kind::Approx, c, players as f64);
        let off = *g.r.pick(&[0.0, 1e-15, -1e-15, 1e-12, -1e-12, 1e-9, -1e-9, 1e-7, -1e-7, 1e-6, -1e-6, 1e-5, -1e-5, 1e-3, -1e-3]);
        let e = e * (1.0 + off);
        Some(if g.r.chance(0.5) { e } else { -e })
    }
}
