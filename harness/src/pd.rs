//! C33: whole seasons. Every event is monitored online; the final table is checked offline.
use crate::eng::{mix, mon, Mon, Monitor, G};
use crate::pa::Unc6;
use crate::sys::*;
use crate::team::*;
use skillratings::fifa::FifaConfig;

pub trait Season: Sys {
    /// a new player
    fn fresh() -> Self::R;
    /// limits that hold after every event
    fn sane(r: &Self::R) -> bool;
    /// the two ratings of a game keep their total
    fn zero_sum(_x: Self::X, _o: O) -> bool {
        false
    }
    fn idle(_r: &Self::R, _c: &Self::C) -> Option<(Self::R, [V; 3])> {
        None
    }
    /// default settings; and a game without advantage
    fn plain() -> Self::C;
    fn even() -> Self::X;
}
fn fin(v: &[f64]) -> bool {
    v.iter().all(|x| x.is_finite())
}
fn idle_of<S: Unc6>(r: &S::R, c: &S::C) -> Option<(S::R, [V; 3])> {
    let w = S::ref_decay(r, c);
    Some((S::decay(r, c)?, [rt(w[0], 1e-3), rt(w[1], 1e-3), rt(w[2], 1e-3)]))
}
impl Season for SElo {
    fn fresh() -> Self::R {
        skillratings::elo::EloRating::new()
    }
    fn sane(r: &Self::R) -> bool {
        r.rating.is_finite()
    }
    fn zero_sum(_: (), _: O) -> bool {
        true
    }
    fn plain() -> Self::C {
        skillratings::elo::EloConfig::new()
    }
    fn even() {}
}
impl Season for SFifa {
    fn fresh() -> Self::R {
        skillratings::fifa::FifaRating::new()
    }
    fn sane(r: &Self::R) -> bool {
        r.rating.is_finite()
    }
    fn zero_sum(x: FifaConfig, o: O) -> bool {
        !x.knockout && (!x.penalties || o == O::DRAW)
    }
    fn plain() {}
    fn even() -> FifaConfig {
        FifaConfig::new()
    }
}
macro_rules! glicko_like {
    ($s:ident, $r:path, $c:path, $x:expr) => {
        impl Season for $s {
            fn fresh() -> Self::R {
                <$r>::new()
            }
            fn sane(r: &Self::R) -> bool {
                r.rating.is_finite() && r.deviation > 0.0 && r.deviation <= 350.0 * (1.0 + 1e-12)
            }
            fn idle(r: &Self::R, c: &Self::C) -> Option<(Self::R, [V; 3])> {
                idle_of::<$s>(r, c)
            }
            fn plain() -> Self::C {
                <$c>::new()
            }
            fn even() -> Self::X {
                $x
            }
        }
    };
}
glicko_like!(SGlicko, skillratings::glicko::GlickoRating, skillratings::glicko::GlickoConfig, ());
glicko_like!(SBoost, skillratings::glicko_boost::GlickoBoostRating, skillratings::glicko_boost::GlickoBoostConfig, true);
glicko_like!(SSticko, skillratings::sticko::StickoRating, skillratings::sticko::StickoConfig, true);
impl Season for SGlicko2 {
    fn fresh() -> Self::R {
        skillratings::glicko2::Glicko2Rating::new()
    }
    fn sane(r: &Self::R) -> bool {
        fin(&[r.rating, r.deviation, r.volatility]) && r.deviation > 0.0 && r.volatility > 0.0
    }
    fn idle(r: &Self::R, c: &Self::C) -> Option<(Self::R, [V; 3])> {
        idle_of::<SGlicko2>(r, c)
    }
    fn plain() -> Self::C {
        skillratings::glicko2::Glicko2Config::new()
    }
    fn even() {}
}
impl Season for SDwz {
    fn fresh() -> Self::R {
        skillratings::dwz::DWZRating::new(26)
    }
    fn sane(r: &Self::R) -> bool {
        r.rating.is_finite() && r.index >= 1
    }
    fn plain() {}
    fn even() {}
}
impl Season for SIngo {
    fn fresh() -> Self::R {
        skillratings::ingo::IngoRating::new(26)
    }
    fn sane(r: &Self::R) -> bool {
        r.rating.is_finite()
    }
    fn plain() {}
    fn even() {}
}
impl Season for SUscf {
    fn fresh() -> Self::R {
        skillratings::uscf::USCFRating::new(26)
    }
    fn sane(r: &Self::R) -> bool {
        r.rating.is_finite() && r.rating >= 100.0
    }
    fn plain() -> Self::C {
        skillratings::uscf::USCFConfig::new()
    }
    fn even() {}
}
impl Season for SEgf {
    fn fresh() -> Self::R {
        skillratings::egf::EGFRating::new()
    }
    fn sane(r: &Self::R) -> bool {
        r.rating.is_finite() && r.rating >= -900.0
    }
    fn plain() {}
    fn even() -> Self::X {
        skillratings::egf::EGFConfig { handicap: 0.0 }
    }
}
macro_rules! bayes_like {
    ($s:ident, $r:path, $c:path) => {
        impl Season for $s {
            fn fresh() -> Self::R {
                <$r>::new()
            }
            fn sane(r: &Self::R) -> bool {
                r.rating.is_finite() && r.uncertainty > 0.0 && r.uncertainty.is_finite()
            }
            fn plain() -> Self::C {
                <$c>::new()
            }
            fn even() {}
        }
    };
}
bayes_like!(SWl, skillratings::weng_lin::WengLinRating, skillratings::weng_lin::WengLinConfig);
bayes_like!(STs, skillratings::trueskill::TrueSkillRating, skillratings::trueskill::TrueSkillConfig);

fn matches<S: Sys>(r: &S::R, want: &[V; 3]) -> bool {
    let k = S::comps(r);
    (0..S::NC).all(|i| near(k[i], want[i].0, want[i].1))
}
fn bits<S: Sys>(t: &[S::R]) -> Vec<[u64; 3]> {
    t.iter().map(|r| S::comps(r).map(f64::to_bits)).collect()
}
fn sub(g: &G, seed: u64) -> G {
    G { r: crate::eng::Rng::new(seed), dict: g.dict, recent: Vec::new(), thorough: g.thorough }
}

/// Plays one season; the monitors see every event.
fn play<S: Season>(g: &mut G, m: &mut Option<&mut Mon>) -> Vec<S::R> {
    let c = if g.r.chance(0.3) { S::plain() } else { S::gen_c(g) };
    let n = 2 + g.r.below(9);
    let newcomers = g.r.chance(0.5);
    let mut t: Vec<S::R> = (0..n).map(|_| if newcomers { S::fresh() } else { S::gen_r(g) }).collect();
    let style = g.r.below(5);
    let colours = g.r.chance(0.6);
    let x0 = S::gen_x(g);
    let len = 10 + g.r.below(if g.thorough { 700 } else { 120 });
    let mut total0: f64 = t.iter().map(|r| S::comps(r)[0]).sum();
    let outcome = |g: &mut G, i: usize, j: usize| -> O {
        match style {
            0 => g.out(),
            1 => if i < j { O::WIN } else { O::LOSS },
            2 => {
                let p = lgst((j as f64 - i as f64) * 0.6);
                let u = g.r.f();
                if u < p * 0.9 { O::WIN } else if u < p * 0.9 + 0.1 { O::DRAW } else { O::LOSS }
            }
            3 => if i == 0 { O::WIN } else if j == 0 { O::LOSS } else { O::DRAW },
            _ => if g.r.chance(0.8) { O::DRAW } else { g.out() },
        }
    };
    for ev in 0..len {
        let kind = g.r.below(12);
        let i = g.r.below(n);
        match kind {
            0..=6 => {
                let j = (i + 1 + g.r.below(n - 1)) % n;
                let x = if colours { S::gen_x(g) } else { x0 };
                if !S::ok(&t[i], &t[j], &c, x) || !S::ok(&t[j], &t[i], &c, x) {
                    continue;
                }
                let o = outcome(g, i, j);
                let (a, b) = (t[i], t[j]);
                let (p, q) = S::rate(&a, &b, o, &c, x);
                if let Some(m) = m {
                    let k = key2::<S>(&a, &b, o);
                    m.check("game-sane", k, S::sane(&p) && S::sane(&q), || format!("{} event {ev}: {a:?} {o:?} {b:?} {c:?} {x:?} gives {p:?} {q:?}", S::NAME));
                    match S::ref_rate(&a, &b, o, &c, x) {
                        Some((rp, rq)) => m.check("game-step", k, matches::<S>(&p, &rp) && matches::<S>(&q, &rq), || {
                            format!("{} event {ev}: {a:?} {o:?} {b:?} {c:?} {x:?} gives {p:?} {q:?}, formulas {rp:?} {rq:?}", S::NAME)
                        }),
                        None => m.skip("formulas not decidable in double precision"),
                    }
                }
                t[i] = p;
                t[j] = q;
                if !S::zero_sum(x, o) {
                    total0 = t.iter().map(|r| S::comps(r)[0]).sum();
                }
            }
            7..=9 => {
                // a rating period: everybody's games, all against the table as it was
                let base = t.clone();
                let games = g.len(14).max(usize::from(kind == 9));
                let mut lists: Vec<Vec<(S::R, O, S::X)>> = vec![Vec::new(); n];
                for _ in 0..games {
                    let a = g.r.below(n);
                    let b = (a + 1 + g.r.below(n - 1)) % n;
                    let x = if colours { S::gen_x(g) } else { x0 };
                    let (_, y) = S::mirror(&c, x);
                    if !S::ok(&base[a], &base[b], &c, x) || !S::ok(&base[b], &base[a], &c, y) {
                        continue;
                    }
                    let o = outcome(g, a, b);
                    lists[a].push((base[b], o, x));
                    lists[b].push((base[a], inv(o), y));
                }
                for (k, l) in lists.iter().enumerate() {
                    if kind == 7 && k != i {
                        continue;
                    }
                    let p = S::period(&base[k], l, &c);
                    if let Some(m) = m {
                        let kk = key_l::<S>(&base[k], l);
                        m.check("period-sane", kk, S::sane(&p), || format!("{} event {ev}: {:?} {c:?} {} gives {p:?}", S::NAME, base[k], show_l::<S>(l)));
                        match S::ref_period(&base[k], l, &c) {
                            Some(r) => m.check("period-step", kk, matches::<S>(&p, &r), || format!("{} event {ev}: {:?} {c:?} {} gives {p:?}, formulas {r:?}", S::NAME, base[k], show_l::<S>(l))),
                            None => m.skip("formulas not decidable in double precision"),
                        }
                    }
                    t[k] = p;
                }
                total0 = t.iter().map(|r| S::comps(r)[0]).sum();
            }
            _ => {
                let a = t[i];
                if let Some((d, w)) = S::idle(&a, &c) {
                    if let Some(m) = m {
                        m.check("idle-step", key_r::<S>(&a), S::sane(&d) && matches::<S>(&d, &w), || format!("{} event {ev}: decay of {a:?} {c:?} is {d:?}, formulas {w:?}", S::NAME));
                    }
                    t[i] = d;
                }
            }
        }
        if let Some(m) = m {
            let s: f64 = t.iter().map(|r| S::comps(r)[0]).sum();
            if S::NAME == "elo" || S::NAME == "fifa" {
                m.check("total", s.to_bits() ^ ev as u64, near(s, total0, 1e-8 * (s.abs() + 1000.0)), || format!("{} event {ev}: total {s} instead of {total0}", S::NAME));
            }
        }
        // ratings far outside the customary scale end the season
        if t.iter().any(|r| S::comps(r)[0].abs() > 50.0 * S::SCALE || (S::NAME == "glicko2" && S::comps(r)[2] > 0.5)) {
            break;
        }
    }
    t
}
fn season<S: Season>(g: &mut G, m: &mut Mon) {
    let seed = g.r.u64();
    let mut a = sub(g, seed);
    let t1 = play::<S>(&mut a, &mut Some(m));
    let mut b = sub(g, seed);
    let t2 = play::<S>(&mut b, &mut None);
    m.check("replay", seed, bits::<S>(&t1) == bits::<S>(&t2), || format!("{}: the same season gives {t1:?} and {t2:?}", S::NAME));
}
/// Results follow the true strength: the table must end in that order.
fn ladder<S: Season>(g: &mut G, m: &mut Mon) {
    let n = 2 + g.r.below(7);
    let c = S::plain();
    let mut t: Vec<S::R> = vec![S::fresh(); n];
    let by_period = g.r.chance(0.5);
    let rounds = 30 + g.r.below(30);
    for round in 0..rounds {
        let mut games: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..i).map(move |j| (j, i))).collect();
        g.r.shuffle(&mut games);
        let base = t.clone();
        let mut lists: Vec<Vec<(S::R, O, S::X)>> = vec![Vec::new(); n];
        for (w, l) in games {
            // each side has white in every other round
            let x = S::even();
            let (_, y) = S::mirror(&c, x);
            let (first, second, o) = if round % 2 == 0 { (w, l, O::WIN) } else { (l, w, O::LOSS) };
            if by_period {
                lists[first].push((base[second], o, x));
                lists[second].push((base[first], inv(o), y));
            } else {
                let (p, q) = S::rate(&t[first], &t[second], o, &c, x);
                t[first] = p;
                t[second] = q;
            }
        }
        if by_period {
            for (k, l) in lists.iter().enumerate() {
                t[k] = S::period(&base[k], l, &c);
            }
        }
        let sane = t.iter().all(|r| S::sane(r));
        m.check("ladder-sane", mix(round as u64 ^ n as u64 * 131), sane, || format!("{}: round {round}: {t:?}", S::NAME));
    }
    let ok = t.windows(2).all(|w| S::skill(&w[0]) > S::skill(&w[1]));
    m.check("ladder", mix(mix(n as u64) ^ rounds as u64 ^ g.r.u64()), ok, || format!("{}: after {rounds} round robins of {n} players (period: {by_period}), strongest first: {t:?}", S::NAME));
}

/// Team seasons of Weng-Lin and TrueSkill.
fn play_teams<S: Tm + Season>(g: &mut G, m: &mut Option<&mut Mon>) -> Vec<S::R> {
    let c = if g.r.chance(0.4) { S::plain() } else { S::gen_c(g) };
    let n = 4 + g.r.below(9);
    let newcomers = g.r.chance(0.6);
    let mut t: Vec<S::R> = (0..n).map(|_| if newcomers { S::fresh() } else { gen_team::<S>(g, 1, true)[0] }).collect();
    let len = 5 + g.r.below(if g.thorough { 200 } else { 40 });
    for ev in 0..len {
        let mut who: Vec<usize> = (0..n).collect();
        g.r.shuffle(&mut who);
        let two = g.r.chance(0.4);
        let k = if two { 2 } else { 2 + g.r.below(4.min(n - 1)) };
        let used = k + g.r.below(n - k + 1);
        let mut teams: Vec<Vec<usize>> = vec![Vec::new(); k];
        for (p, w) in who.iter().take(used).enumerate() {
            let i = if p < k { p } else { g.r.below(k) };
            teams[i].push(*w);
        }
        let ts: Vec<Vec<S::R>> = teams.iter().map(|x| x.iter().map(|i| t[*i]).collect()).collect();
        let (res, rf, ranks) = if two {
            let o = g.out();
            let (p, q) = S::two(&ts[0], &ts[1], o, &c);
            let rf = if m.is_some() { S::ref_two(&ts[0], &ts[1], o, &c).map(|(a, b)| vec![a, b]) } else { None };
            (vec![p, q], rf, vec![0, match o { O::WIN => 1, O::DRAW => 0, O::LOSS => usize::MAX }])
        } else {
            let ranks = gen_ranks(g, k, false);
            let r = S::multi(&ts, &ranks, &c);
            (r, if m.is_some() { S::ref_multi(&ts, &ranks, &c) } else { None }, ranks)
        };
        let shape = res.len() == k && res.iter().zip(&teams).all(|(a, b)| a.len() == b.len());
        if let Some(m) = m {
            let kk = key_t::<S>(&ts, &ranks);
            if let Some(rf) = rf {
                let ok = shape
                    && res.iter().zip(&rf).all(|(x, y)| {
                        x.iter().zip(y).all(|(p, w)| {
                            let q = S::comps(p);
                            inside(q[0], w[0]) && inside(q[1], w[1])
                        })
                    });
                m.check("team-step", kk, ok, || format!("{} event {ev}: {res:?}, formulas {rf:?}; {}", S::NAME, show_t::<S>(&ts, &ranks, &c)));
                m.check("team-sane", kk, res.iter().flatten().all(S::sane), || format!("{} event {ev}: {res:?}; {}", S::NAME, show_t::<S>(&ts, &ranks, &c)));
            } else {
                m.skip("deep tail");
            }
        }
        if !shape || !res.iter().flatten().all(S::sane) {
            break;
        }
        for (team, new) in teams.iter().zip(&res) {
            for (i, r) in team.iter().zip(new) {
                t[*i] = *r;
            }
        }
        if t.iter().any(|r| S::comps(r)[0].abs() > 300.0) {
            break;
        }
    }
    t
}
fn team_season<S: Tm + Season>(g: &mut G, m: &mut Mon) {
    let seed = g.r.u64();
    let mut a = sub(g, seed);
    let t1 = play_teams::<S>(&mut a, &mut Some(m));
    let mut b = sub(g, seed);
    let t2 = play_teams::<S>(&mut b, &mut None);
    m.check("replay", seed, bits::<S>(&t1) == bits::<S>(&t2), || format!("{}: the same season gives {t1:?} and {t2:?}", S::NAME));
}
/// Free-for-all and team results that follow true strength.
fn team_ladder<S: Tm + Season>(g: &mut G, m: &mut Mon) {
    let n = 3 + g.r.below(5);
    let c = S::plain();
    let mut t: Vec<S::R> = vec![S::fresh(); n];
    let rounds = 30 + g.r.below(20);
    for _ in 0..rounds {
        let mut who: Vec<usize> = (0..n).collect();
        g.r.shuffle(&mut who);
        let ts: Vec<Vec<S::R>> = who.iter().map(|i| vec![t[*i]]).collect();
        let r = S::multi(&ts, &who, &c);
        for (i, x) in who.iter().zip(&r) {
            t[*i] = x[0];
        }
    }
    let ok = t.windows(2).all(|w| S::skill(&w[0]) > S::skill(&w[1])) && t.iter().all(S::sane);
    m.check("team-ladder", mix(mix(n as u64) ^ g.r.u64()), ok, || format!("{}: after {rounds} free-for-alls of {n} players, strongest first: {t:?}", S::NAME));
}

pub fn m33() -> Vec<Monitor> {
    let mut v = Vec::new();
    crate::pa::all12!(v, "c33", 1200, season);
    crate::pa::all12!(v, "c33/ladder", 60, ladder);
    v.push(mon("c33/weng_lin_teams", 1200, team_season::<SWl>));
    v.push(mon("c33/trueskill_teams", 400, team_season::<STs>));
    v.push(mon("c33/weng_lin_ffa", 60, team_ladder::<SWl>));
    v.push(mon("c33/trueskill_ffa", 40, team_ladder::<STs>));
    v
}
