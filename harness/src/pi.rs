//! C37: ratings, outcomes and settings are plain values. C38: the less is known about a player, the more a game moves them.
use crate::eng::{mix, mon, Mon, Monitor, G};
use crate::gen::{nudge, OUTS};
use crate::pa::pair;
use crate::pb::gen_weights;
use crate::sys::*;
use crate::team::*;
use skillratings::dwz::DWZRating;
use skillratings::egf::{EGFConfig, EGFRating};
use skillratings::elo::{EloConfig, EloRating};
use skillratings::fifa::{FifaConfig, FifaRating};
use skillratings::glicko::{GlickoConfig, GlickoRating};
use skillratings::glicko2::{Glicko2Config, Glicko2Rating};
use skillratings::glicko_boost::{GlickoBoostConfig, GlickoBoostRating};
use skillratings::ingo::IngoRating;
use skillratings::sticko::{StickoConfig, StickoRating};
use skillratings::trueskill::{TrueSkillConfig, TrueSkillRating};
use skillratings::uscf::{USCFConfig, USCFRating};
use skillratings::weng_lin::{WengLinConfig, WengLinRating};
use skillratings::{MultiTeamOutcome, Outcomes, Rating};

// ------------------------------------------------------------------ C37
trait Field: Copy + std::fmt::Debug {
    fn any(g: &mut G) -> Self;
    /// another value of the field, often a close one
    fn other(self, g: &mut G) -> Self;
    fn bits(self) -> u64;
    /// numerically equal
    fn same(self, o: Self) -> bool;
}
impl Field for f64 {
    fn any(g: &mut G) -> f64 {
        match g.r.below(12) {
            0 => 0.0,
            1 => -0.0,
            2 => *g.r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::MAX, f64::EPSILON, 5e-324]),
            3 => f64::NAN,
            4 => f64::from_bits(g.r.u64()),
            _ => g.num(crate::gen::sc(-1e7, 1e7, -100.0, 3000.0)),
        }
    }
    fn other(self, g: &mut G) -> f64 {
        match g.r.below(8) {
            0 => nudge(self, true),
            1 => nudge(self, false),
            2 => -self,
            3 => self * (1.0 + 1e-15 * 10f64.powf(g.r.range(0.0, 14.0))),
            4 => self + g.eps(),
            5 => f64::any(g),
            6 => self.round(),
            _ => self + g.eps() * 1e-6,
        }
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
    #[allow(clippy::float_cmp)]
    fn same(self, o: f64) -> bool {
        self == o
    }
}
impl Field for usize {
    fn any(g: &mut G) -> usize {
        match g.r.below(6) {
            0 => usize::MAX - g.r.below(4),
            1 => 1usize << g.r.below(64),
            _ => g.int(0, 1 << 40, 100),
        }
    }
    fn other(self, g: &mut G) -> usize {
        match g.r.below(5) {
            0 => self.wrapping_add(1),
            1 => self.wrapping_sub(1),
            2 => self ^ (1usize << g.r.below(64)),
            3 => self.wrapping_add(1 << 32),
            _ => usize::any(g),
        }
    }
    fn bits(self) -> u64 {
        self as u64
    }
    fn same(self, o: usize) -> bool {
        self == o
    }
}
impl Field for bool {
    fn any(g: &mut G) -> bool {
        g.r.chance(0.5)
    }
    fn other(self, _: &mut G) -> bool {
        !self
    }
    fn bits(self) -> u64 {
        u64::from(self)
    }
    fn same(self, o: bool) -> bool {
        self == o
    }
}
macro_rules! rating_values {
    ($g:ident, $m:ident: $($t:ident { $($f:ident: $ty:ty),* } $unc:expr;)*) => {$({
        let a = $t { $($f: <$ty>::any($g)),* };
        let mut b = $t { ..a };
        // usually one field differs, sometimes none or several
        let n = [$(stringify!($f)),*].len();
        let change = match $g.r.below(8) {
            0 => 0u64,
            1 => $g.r.u64(),
            _ => 1 << $g.r.below(n),
        };
        let mut i = 0;
        $(if change >> i & 1 == 1 { b.$f = a.$f.other($g); }
          i += 1;)*
        let _ = i;
        let equal = true $(&& a.$f.same(b.$f))*;
        let k = mix(0 $(^ mix(a.$f.bits()) ^ b.$f.bits().rotate_left(13))*);
        $m.check(concat!(stringify!($t), "-eq"), k, (a == b) == equal && (b == a) == equal && (a != b) == !equal && (b != a) == !equal, || format!("{a:?} == {b:?} is {}", a == b));
        let own = true $(&& a.$f.same(a.$f))*;
        #[allow(clippy::clone_on_copy)]
        let (c, d) = (a.clone(), vec![a; 3]);
        $m.check(concat!(stringify!($t), "-copy"), k, (a == c) == own $(&& c.$f.bits() == a.$f.bits() && d[2].$f.bits() == a.$f.bits())*, || format!("copies of {a:?}: {c:?} {d:?}"));
        let unc: fn(&$t) -> Option<f64> = $unc;
        let same = |x: Option<f64>, y: Option<f64>| x.map(f64::to_bits) == y.map(f64::to_bits);
        $m.check(concat!(stringify!($t), "-read"), k, Rating::rating(&a).to_bits() == a.rating.to_bits() && same(Rating::uncertainty(&a), unc(&a)), || format!("{a:?} reads {:?} {:?}", Rating::rating(&a), Rating::uncertainty(&a)));
    })*};
}
macro_rules! config_values {
    ($g:ident, $m:ident: $($t:ident { $($f:ident),* };)*) => {$({
        let a = $t { $($f: any_of($g)),* };
        #[allow(clippy::clone_on_copy)]
        let (b, c, v) = (a.clone(), a, vec![a; 2]);
        let k = mix(0 $(^ mix(many(&a.$f)))*);
        $m.check(concat!(stringify!($t), "-copy"), k, true $(&& many(&a.$f) == many(&b.$f) && many(&a.$f) == many(&c.$f) && many(&a.$f) == many(&v[1].$f))*, || format!("copies of {a:?}: {b:?} {c:?} {v:?}"));
    })*};
}
trait Any {
    fn gen(g: &mut G) -> Self;
    fn many(&self) -> u64;
}
impl Any for f64 {
    fn gen(g: &mut G) -> f64 {
        f64::any(g)
    }
    fn many(&self) -> u64 {
        mix(self.to_bits())
    }
}
impl Any for bool {
    fn gen(g: &mut G) -> bool {
        bool::any(g)
    }
    fn many(&self) -> u64 {
        u64::from(*self)
    }
}
impl Any for (f64, f64) {
    fn gen(g: &mut G) -> Self {
        (f64::any(g), f64::any(g))
    }
    fn many(&self) -> u64 {
        mix(self.0.many() ^ self.1.many().rotate_left(1))
    }
}
impl Any for (f64, f64, f64, f64, f64) {
    fn gen(g: &mut G) -> Self {
        (f64::any(g), f64::any(g), f64::any(g), f64::any(g), f64::any(g))
    }
    fn many(&self) -> u64 {
        mix(mix(mix(mix(self.0.many() ^ 1) ^ self.1.many()) ^ self.2.many()) ^ self.3.many()) ^ self.4.many()
    }
}
fn any_of<T: Any>(g: &mut G) -> T {
    T::gen(g)
}
fn many<T: Any>(t: &T) -> u64 {
    t.many()
}
fn values(g: &mut G, m: &mut Mon) {
    rating_values! { g, m:
        EloRating { rating: f64 } |_| None;
        FifaRating { rating: f64 } |_| None;
        GlickoRating { rating: f64, deviation: f64 } |r| Some(r.deviation);
        Glicko2Rating { rating: f64, deviation: f64, volatility: f64 } |r| Some(r.deviation);
        GlickoBoostRating { rating: f64, deviation: f64 } |r| Some(r.deviation);
        StickoRating { rating: f64, deviation: f64 } |r| Some(r.deviation);
        DWZRating { rating: f64, index: usize, age: usize } |_| None;
        IngoRating { rating: f64, age: usize } |_| None;
        USCFRating { rating: f64, games: usize } |_| None;
        EGFRating { rating: f64 } |_| None;
        WengLinRating { rating: f64, uncertainty: f64 } |r| Some(r.uncertainty);
        TrueSkillRating { rating: f64, uncertainty: f64 } |r| Some(r.uncertainty);
    }
}
fn settings(g: &mut G, m: &mut Mon) {
    config_values! { g, m:
        EloConfig { k };
        FifaConfig { importance, knockout, penalties };
        GlickoConfig { c };
        Glicko2Config { tau, convergence_tolerance };
        GlickoBoostConfig { eta, k, b, alpha };
        StickoConfig { h, beta, lambda, gamma, c };
        USCFConfig { t };
        EGFConfig { handicap };
        WengLinConfig { beta, uncertainty_tolerance };
        TrueSkillConfig { draw_probability, beta, dynamics_factor };
    }
}
fn places(g: &mut G, m: &mut Mon) {
    let (i, j) = (g.r.below(3), g.r.below(3));
    let (x, y) = (OUTS[i], OUTS[j]);
    m.check("outcome-eq", (3 * i + j) as u64, (x == y) == (i == j) && (x != y) == (i != j), || format!("{x:?} == {y:?} is {}", x == y));
    let z: Outcomes = x;
    m.check("outcome-copy", i as u64, z == x && OUTS.iter().filter(|o| **o == z).count() == 1, || format!("{x:?} copied {z:?}"));
    let a = usize::any(g);
    let b = if g.r.chance(0.6) { a.other(g) } else { usize::any(g) };
    let (p, q) = (MultiTeamOutcome::new(a), MultiTeamOutcome::from(b));
    let k = mix(a as u64 ^ (b as u64).rotate_left(17));
    m.check("rank-eq", k, (p == q) == (a == b) && (p != q) == (a != b), || format!("{p:?} == {q:?} is {}", p == q));
    m.check(
        "rank-order",
        k,
        p.cmp(&q) == a.cmp(&b) && p.partial_cmp(&q) == Some(a.cmp(&b)) && (p < q) == (a < b) && (p <= q) == (a <= b) && (p > q) == (a > b) && (p >= q) == (a >= b) && p.max(q).rank() == a.max(b) && p.min(q).rank() == a.min(b),
        || format!("{p:?} and {q:?} compare as {:?}", p.cmp(&q)),
    );
    m.check("rank-value", k, p.rank() == a && usize::from(p) == a && q.rank() == b && usize::from(q) == b, || format!("ranks {a} {b} read {p:?} {q:?}"));
    // a table sorted by rank
    let n = g.len(60);
    let v: Vec<usize> = (0..n).map(|_| if g.r.chance(0.5) { usize::any(g) } else { g.r.below(8) }).collect();
    let mut w: Vec<MultiTeamOutcome> = v.iter().map(|r| MultiTeamOutcome::new(*r)).collect();
    let mut s = v.clone();
    s.sort_unstable();
    w.sort();
    m.check("rank-sort", mix(v.iter().fold(7, |h, r| mix(h ^ *r as u64))), w.iter().map(|r| r.rank()).eq(s.iter().copied()), || format!("ranks {v:?} sort to {w:?}"));
}
pub fn m37() -> Vec<Monitor> {
    vec![mon("c37/ratings", 40_000, values), mon("c37/settings", 20_000, settings), mon("c37/outcomes", 30_000, places)]
}

// ------------------------------------------------------------------ C38
trait Cert: Sys {
    /// periods follow the same rule
    const PERIOD: bool = true;
    /// player and settings for which the rule is stated
    fn fit(_g: &mut G, a: Self::R, c: Self::C) -> Option<(Self::R, Self::C)> {
        Some((a, c))
    }
    /// the same player, better known
    fn surer(g: &mut G, a: &Self::R) -> Option<Self::R>;
    /// the results can be compared
    fn comparable(_a: &Self::R, _new: &Self::R) -> bool {
        true
    }
}
fn lower(g: &mut G, u: f64) -> Option<f64> {
    let v = match g.r.below(8) {
        0 => nudge(u, false),
        1 => u * (1.0 - 10f64.powf(g.r.range(-9.0, -0.3))),
        2 => u - g.eps().abs(),
        3 => g.num(crate::gen::sc(0.001, u.max(0.002), 0.001, u.max(0.002))),
        4 => u * 0.5,
        5 => g.r.range(0.001, u),
        6 => *g.r.pick(&[30.0, 50.0, 60.0, 100.0, 200.0, 349.0, 350.0, 1.0, 0.01]),
        _ => u * g.r.f(),
    };
    (v >= 0.001 && v < u).then_some(v)
}
macro_rules! cert_unc {
    ($($s:ident)*) => {$(impl Cert for $s {
        fn surer(g: &mut G, a: &Self::R) -> Option<Self::R> {
            lower(g, Self::comps(a)[1]).map(|v| Self::with_unc(a, v))
        }
    })*};
}
cert_unc! { SGlicko }
impl Cert for SGlicko2 {
    fn surer(g: &mut G, a: &Self::R) -> Option<Self::R> {
        lower(g, a.deviation).map(|v| Self::with_unc(a, v))
    }
    fn comparable(a: &Self::R, new: &Self::R) -> bool {
        // a volatility that explodes may outweigh the deviation
        new.volatility < 1.6 * a.volatility
    }
}
impl Cert for SBoost {
    fn fit(_: &mut G, a: Self::R, c: Self::C) -> Option<(Self::R, Self::C)> {
        (c.b.0 >= 0.0 && c.b.1 >= 0.0).then_some((a, c))
    }
    fn surer(g: &mut G, a: &Self::R) -> Option<Self::R> {
        lower(g, a.deviation).map(|v| Self::with_unc(a, v))
    }
}
impl Cert for SSticko {
    fn fit(_: &mut G, a: Self::R, c: Self::C) -> Option<(Self::R, Self::C)> {
        // the pull towards the opponents does not depend on the deviation
        Some((a, StickoConfig { lambda: 0.0, ..c }))
    }
    fn surer(g: &mut G, a: &Self::R) -> Option<Self::R> {
        lower(g, a.deviation).map(|v| Self::with_unc(a, v))
    }
}
impl Cert for SWl {
    const PERIOD: bool = false;
    fn surer(g: &mut G, a: &Self::R) -> Option<Self::R> {
        lower(g, a.uncertainty).map(|v| Self::with_unc(a, v))
    }
}
impl Cert for STs {
    const PERIOD: bool = false;
    fn surer(g: &mut G, a: &Self::R) -> Option<Self::R> {
        lower(g, a.uncertainty).map(|v| Self::with_unc(a, v))
    }
}
fn more(g: &mut G, n: usize, max: usize) -> usize {
    let d = match g.r.below(4) {
        0 => 1,
        1 => 1 + g.r.below(10),
        2 => 1 + g.r.below(60),
        _ => 1usize << g.r.below(31),
    };
    (n + d).min(max)
}
impl Cert for SDwz {
    fn surer(g: &mut G, a: &DWZRating) -> Option<DWZRating> {
        let mut b = *a;
        // below 20 the acceleration may go either way
        let w = if a.age < 20 { 0 } else { g.r.below(3) };
        if w != 1 {
            b.index = more(g, a.index, usize::MAX >> 8);
        }
        if w != 0 {
            b.age = more(g, a.age, usize::MAX >> 8);
        }
        Some(b)
    }
}
impl Cert for SIngo {
    fn surer(g: &mut G, a: &IngoRating) -> Option<IngoRating> {
        Some(IngoRating { age: more(g, a.age, usize::MAX >> 8), ..*a })
    }
}
impl Cert for SUscf {
    fn fit(g: &mut G, a: USCFRating, c: USCFConfig) -> Option<(USCFRating, USCFConfig)> {
        let games = if a.games > 8 { a.games } else { 9 + g.r.below(60) };
        Some((USCFRating { games, ..a }, c))
    }
    fn surer(g: &mut G, a: &USCFRating) -> Option<USCFRating> {
        Some(USCFRating { games: more(g, a.games, usize::MAX >> 8), ..*a })
    }
}
/// the better known player is moved in the same direction and not further
fn less(sure: f64, d: f64, tol: f64) -> bool {
    sure.is_finite() && d.is_finite() && sure.abs() <= d.abs() + tol && (sure * d >= 0.0 || sure.abs() <= tol)
}
fn surer<S: Cert>(g: &mut G, m: &mut Mon) {
    let (a, b, c, x) = pair::<S>(g);
    let Some((a, c)) = S::fit(g, a, c) else {
        m.skip("outside the statement");
        return;
    };
    let Some(s) = S::surer(g, &a) else {
        m.skip("no better known player");
        return;
    };
    if !S::ok(&a, &b, &c, x) || !S::ok(&s, &b, &c, x) {
        m.skip("domain");
        return;
    }
    let r = S::comps(&a)[0];
    let k = mix(r.to_bits() ^ S::comps(&a)[1].to_bits().rotate_left(7) ^ S::comps(&s)[1].to_bits().rotate_left(21) ^ S::comps(&b)[0].to_bits().rotate_left(33));
    let mx = S::mirror(&c, x);
    for o in OUTS {
        let l = [(b, o, x)];
        let tol = S::rtol(&a, &l, &c)[0] + S::rtol(&s, &l, &c)[0];
        if tol.is_infinite() {
            m.skip("undecidable");
            continue;
        }
        let first = (S::rate(&a, &b, o, &c, x).0, S::rate(&s, &b, o, &c, x).0);
        let second = (S::rate(&b, &a, inv(o), &mx.0, mx.1).1, S::rate(&b, &s, inv(o), &mx.0, mx.1).1);
        for (side, (p, q)) in [("first", first), ("second", second)] {
            if !S::comparable(&a, &p) || !S::comparable(&s, &q) {
                m.skip("volatility");
                continue;
            }
            let (dp, dq) = (S::comps(&p)[0] - r, S::comps(&q)[0] - r);
            m.check(side, mix(k ^ pts(o).to_bits()), less(dq, dp, tol), || format!("{}: {o:?} against {b:?} {c:?} {x:?}: {a:?} moves by {dp:?}, the better known {s:?} by {dq:?}", S::NAME));
        }
    }
    if S::PERIOD && g.r.chance(0.5) {
        let n = g.len(if g.thorough { 1500 } else { 300 });
        let l = S::gen_list(g, &a, &c, n);
        if l.iter().any(|t| !S::ok(&s, &t.0, &c, t.2)) {
            m.skip("domain");
            return;
        }
        let tol = S::rtol(&a, &l, &c)[0] + S::rtol(&s, &l, &c)[0] + 1e-10 * n as f64;
        if tol.is_infinite() {
            m.skip("undecidable");
            return;
        }
        let (p, q) = (S::period(&a, &l, &c), S::period(&s, &l, &c));
        if !S::comparable(&a, &p) || !S::comparable(&s, &q) {
            m.skip("volatility");
            return;
        }
        let (dp, dq) = (S::comps(&p)[0] - r, S::comps(&q)[0] - r);
        m.check("period", key_l::<S>(&a, &l), less(dq, dp, tol), || format!("{}: {c:?} {}: {a:?} moves by {dp:?}, the better known {s:?} by {dq:?}", S::NAME, show_l::<S>(&l)));
    }
}
/// one member of a team better known than before
fn surer_team<S: Cert + Tm>(g: &mut G, m: &mut Mon) {
    let mt = gen_multi::<S>(g, 2, false);
    let (a, b) = (&mt.t[0], &mt.t[1]);
    if a.is_empty() || b.is_empty() {
        m.skip("empty team");
        return;
    }
    let i = g.r.below(a.len());
    let Some(s) = S::surer(g, &a[i]) else {
        m.skip("no better known player");
        return;
    };
    let mut a2 = a.clone();
    a2[i] = s;
    let k = key_t::<S>(&mt.t, &[i]);
    let r = S::comps(&a[i])[0];
    for o in OUTS {
        let (Some((r1, _)), Some((r2, _))) = (S::ref_two(a, b, o, &mt.c), S::ref_two(&a2, b, o, &mt.c)) else {
            m.skip("deep tail");
            continue;
        };
        let tol = width(r1[i][0]) + width(r2[i][0]);
        let first = (S::two(a, b, o, &mt.c).0, S::two(&a2, b, o, &mt.c).0);
        let second = (S::two(b, a, inv(o), &mt.c).1, S::two(b, &a2, inv(o), &mt.c).1);
        for (side, (p, q)) in [("team-first", first), ("team-second", second)] {
            let (dp, dq) = (p.get(i).map_or(f64::NAN, |p| S::comps(p)[0] - r), q.get(i).map_or(f64::NAN, |p| S::comps(p)[0] - r));
            m.check(side, mix(k ^ pts(o).to_bits()), less(dq, dp, tol), || format!("{}: {o:?} member {i} moves by {dp:?}, better known as {s:?} by {dq:?}; {}", S::NAME, show_t::<S>(&mt.t, &[], &mt.c)));
        }
    }
}
trait Share: Tm {
    /// what the change of a member is proportional to
    fn var(c: &Self::C, r: &Self::R) -> f64;
    /// limit of the reduction of the variance
    fn floor(c: &Self::C) -> f64;
}
impl Share for SWl {
    fn var(_: &WengLinConfig, r: &WengLinRating) -> f64 {
        r.uncertainty * r.uncertainty
    }
    fn floor(c: &WengLinConfig) -> f64 {
        c.uncertainty_tolerance
    }
}
impl Share for STs {
    fn var(c: &TrueSkillConfig, r: &TrueSkillRating) -> f64 {
        r.uncertainty * r.uncertainty + c.dynamics_factor * c.dynamics_factor
    }
    fn floor(_: &TrueSkillConfig) -> f64 {
        0.0
    }
}
/// members of one team: changes in proportion to w v, relative losses of variance in proportion to w^2 v
fn shared<S: Share>(c: &S::C, old: &[S::R], new: &[S::R], w: Option<&[f64]>) -> Result<bool, (usize, usize)> {
    let scale = 1e-8 * (old.iter().map(|r| S::comps(r)[0].abs()).sum::<f64>() + S::SCALE);
    let wt = |i: usize| w.map_or(1.0, |w| w[i]);
    let d = |i: usize| S::comps(&new[i])[0] - S::comps(&old[i])[0];
    let red = |i: usize| 1.0 - S::comps(&new[i])[1].powi(2) / S::var(c, &old[i]);
    let mut decided = false;
    // against the member who moves most
    let v = |i: usize| wt(i) * S::var(c, &old[i]);
    let j = (0..old.len()).max_by(|x, y| v(*x).total_cmp(&v(*y))).unwrap_or(0);
    for i in 0..old.len() {
        if i == j || v(j) == 0.0 {
            continue;
        }
        decided = true;
        let f = v(i) / v(j);
        if !near(d(i), d(j) * f, scale * (1.0 + f)) {
            return Err((i, j));
        }
        let low = |i: usize| 1.0 - red(i) <= (2.0 * S::floor(c)).max(1e-5);
        if low(i) || low(j) {
            continue;
        }
        let h = wt(i) * f / wt(j);
        if h <= 1e3 && !near(red(i), red(j) * h, 1e-8 * (1.0 + h)) {
            return Err((i, j));
        }
    }
    Ok(decided)
}
fn shares<S: Share>(g: &mut G, m: &mut Mon) {
    let mt = gen_multi::<S>(g, 8, false);
    let k = key_t::<S>(&mt.t, &mt.ranks);
    if S::ref_multi(&mt.t, &mt.ranks, &mt.c).is_some() {
        let v = S::multi(&mt.t, &mt.ranks, &mt.c);
        each::<S>(m, "share-multi", k, &mt.c, &mt.t, &v, None, &mt.ranks);
    } else {
        m.skip("deep tail");
    }
    for o in OUTS {
        if S::ref_two(&mt.t[0], &mt.t[1], o, &mt.c).is_none() {
            m.skip("deep tail");
            continue;
        }
        let (x, y) = S::two(&mt.t[0], &mt.t[1], o, &mt.c);
        each::<S>(m, "share-two", mix(k ^ pts(o).to_bits()), &mt.c, &mt.t[..2], &[x, y], None, &[]);
    }
}
#[allow(clippy::too_many_arguments)]
fn each<S: Share>(m: &mut Mon, class: &'static str, k: u64, c: &S::C, old: &[Vec<S::R>], new: &[Vec<S::R>], w: Option<&[Vec<f64>]>, ranks: &[usize]) {
    for (t, (a, b)) in old.iter().zip(new).enumerate() {
        if a.len() != b.len() {
            m.check(class, k, false, || format!("{}: team {t} of {} becomes {}", S::NAME, a.len(), b.len()));
            continue;
        }
        let r = shared::<S>(c, a, b, w.map(|w| &w[t][..]));
        if r == Ok(false) {
            m.skip("a single member");
            continue;
        }
        m.check(class, mix(k ^ t as u64), r.is_ok(), || format!("{}: team {t} {a:?} -> {b:?} weights {:?}: members {:?} do not share by their variances; {}", S::NAME, w.map(|w| &w[t]), r.err(), show_t::<S>(old, ranks, c)));
    }
}
fn weighted_shares(g: &mut G, m: &mut Mon) {
    let mt = gen_multi::<STs>(g, 6, false);
    if STs::ref_multi(&mt.t, &mt.ranks, &mt.c).is_none() {
        m.skip("deep tail");
        return;
    }
    let w = gen_weights(g, &mt.t);
    // a game in which a team does not take part changes nothing
    if w.iter().any(|t| t.iter().all(|x| *x == 0.0)) {
        m.skip("absent team");
        return;
    }
    // minute weights drive the margin into the far tail
    if w.iter().flatten().any(|w| *w != 0.0 && *w < 0.01) {
        m.skip("minute weights");
        return;
    }
    let wr: Vec<&[f64]> = w.iter().map(|x| &x[..]).collect();
    let v: Vec<(&[TrueSkillRating], MultiTeamOutcome)> = mt.t.iter().zip(&mt.ranks).map(|(t, r)| (&t[..], MultiTeamOutcome::new(*r))).collect();
    let k = key_t::<STs>(&mt.t, &mt.ranks);
    match skillratings::trueskill::trueskill_multi_team(&v, &mt.c, Some(&wr)) {
        Ok(n) => each::<STs>(m, "share-weighted", k, &mt.c, &mt.t, &n, Some(&w), &mt.ranks),
        Err(e) => m.check("share-weighted", k, false, || format!("weights {w:?} rejected: {e}")),
    }
}
/// Elo and FIFA: the change is proportional to K and importance
fn proportional(g: &mut G, m: &mut Mon) {
    let f = match g.r.below(4) {
        0 => 2.0,
        1 => 0.5,
        2 => g.r.f(),
        _ => 10.0 * g.r.f(),
    };
    let (a, b, c, ()) = pair::<SElo>(g);
    let k = mix(a.rating.to_bits() ^ b.rating.to_bits().rotate_left(9) ^ c.k.to_bits().rotate_left(31) ^ f.to_bits());
    let tol = |a: f64, b: f64| 1e-10 * (a.abs() + b.abs() + 400.0) * (1.0 + f);
    let c2 = EloConfig { k: c.k * f };
    for o in OUTS {
        let ((p, q), (p2, q2)) = (SElo::rate(&a, &b, o, &c, ()), SElo::rate(&a, &b, o, &c2, ()));
        let t = tol(a.rating, b.rating);
        m.check("elo", mix(k ^ pts(o).to_bits()), near(f * (p.rating - a.rating), p2.rating - a.rating, t) && near(f * (q.rating - b.rating), q2.rating - b.rating, t), || format!("elo: {a:?} {o:?} {b:?}: {c:?} gives {p:?} {q:?}, {c2:?} {p2:?} {q2:?}"));
    }
    let (a, b, c, x) = pair::<SFifa>(g);
    let x2 = FifaConfig { importance: x.importance * f, ..x };
    if x2.importance > 1000.0 {
        m.skip("domain");
        return;
    }
    for o in OUTS {
        let ((p, q), (p2, q2)) = (SFifa::rate(&a, &b, o, &c, x), SFifa::rate(&a, &b, o, &c, x2));
        let t = tol(a.rating, b.rating);
        m.check("fifa", mix(k ^ pts(o).to_bits() ^ a.rating.to_bits()), near(f * (p.rating - a.rating), p2.rating - a.rating, t) && near(f * (q.rating - b.rating), q2.rating - b.rating, t), || format!("fifa: {a:?} {o:?} {b:?}: {x:?} gives {p:?} {q:?}, {x2:?} {p2:?} {q2:?}"));
    }
}
pub fn m38() -> Vec<Monitor> {
    vec![
        mon("c38/glicko", 16_000, surer::<SGlicko>),
        mon("c38/glicko2", 5_000, surer::<SGlicko2>),
        mon("c38/glicko_boost", 10_000, surer::<SBoost>),
        mon("c38/sticko", 16_000, surer::<SSticko>),
        mon("c38/dwz", 16_000, surer::<SDwz>),
        mon("c38/ingo", 16_000, surer::<SIngo>),
        mon("c38/uscf", 16_000, surer::<SUscf>),
        mon("c38/weng_lin", 30_000, surer::<SWl>),
        mon("c38/trueskill", 10_000, surer::<STs>),
        mon("c38/weng_lin_team", 10_000, surer_team::<SWl>),
        mon("c38/trueskill_team", 4_000, surer_team::<STs>),
        mon("c38/weng_lin_share", 12_000, shares::<SWl>),
        mon("c38/trueskill_share", 3_000, shares::<STs>),
        mon("c38/trueskill_weights", 3_000, weighted_shares),
        mon("c38/proportional", 40_000, proportional),
    ]
}
