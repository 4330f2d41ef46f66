//! Conformance monitors C21 - C32 (published formulas) and C34 (defaults).
use crate::eng::{mix, mon, Mon, Monitor, G};
use crate::gen::OUTS;
use crate::pa::{exp_list_entry, other_x, pair, Unc6};
use crate::pb::gen_weights;
use crate::sys::*;
use crate::team::*;
use skillratings::{dwz, egf, elo, fifa, glicko, glicko2, glicko_boost, ingo, sticko, trueskill, uscf, weng_lin};
use skillratings::{MultiTeamOutcome, Outcomes, Rating};

fn matches<S: Sys>(r: &S::R, want: &[V; 3]) -> bool {
    let k = S::comps(r);
    (0..S::NC).all(|i| near(k[i], want[i].0, want[i].1))
}
fn list_len(g: &mut G) -> usize {
    let max = if g.thorough { 3000 } else { 400 };
    g.len(max)
}
/// single games, expectations, periods, expectation lists
fn conf<S: Sys>(g: &mut G, m: &mut Mon) {
    let (a, b, c, x) = pair::<S>(g);
    let k = key2::<S>(&a, &b, O::DRAW);
    for o in OUTS {
        let (p, q) = S::rate(&a, &b, o, &c, x);
        if let Some((rp, rq)) = S::ref_rate(&a, &b, o, &c, x) {
            m.check("game-one", key2::<S>(&a, &b, o), matches::<S>(&p, &rp), || format!("{}: {a:?} {o:?} {b:?} {c:?} {x:?}: player one {p:?}, formulas {rp:?}", S::NAME));
            m.check("game-two", key2::<S>(&b, &a, o), matches::<S>(&q, &rq), || format!("{}: {a:?} {o:?} {b:?} {c:?} {x:?}: player two {q:?}, formulas {rq:?}", S::NAME));
        } else {
            m.skip("formulas not decidable in double precision");
        }
    }
    let (e, f) = S::exp(&a, &b, &c, x);
    let w = S::ref_exp(&a, &b, &c, x);
    let v = S::ref_exp(&b, &a, &c, other_x::<S>(x));
    m.check("expected", k, near(e, w.0, w.1) && near(f, v.0, v.1), || format!("{}: expected scores of {a:?} {b:?} {c:?} {x:?} are ({e:?}, {f:?}), formulas ({}, {})", S::NAME, w.0, v.0));
    if g.r.chance(0.6) {
        let n = list_len(g);
        let l = S::gen_list(g, &a, &c, n);
        let kl = key_l::<S>(&a, &l);
        let p = S::period(&a, &l, &c);
        if let Some(r) = S::ref_period(&a, &l, &c) {
            let class = match l.len() {
                0 => "period-empty",
                1..=2 => "period-short",
                3..=12 => "period",
                _ => "period-long",
            };
            m.check(class, kl, matches::<S>(&p, &r), || format!("{}: {a:?} {c:?} {}: period gives {p:?}, formulas {r:?}", S::NAME, show_l::<S>(&l)));
        } else {
            m.skip("formulas not decidable in double precision");
        }
        let ol: Vec<_> = l.iter().map(|t| (t.0, t.2)).collect();
        let v = S::exp_period(&a, &ol, &c);
        m.check("expected-length", kl, v.len() == ol.len(), || format!("{}: {} opponents, {} expected scores", S::NAME, ol.len(), v.len()));
        for (i, e) in v.iter().enumerate().take(100) {
            let want = S::ref_exp(&a, &ol[i].0, &c, ol[i].1).0;
            exp_list_entry::<S>(m, "expected-list", mix(kl ^ i as u64), &a, &ol[i], &c, *e, want);
        }
    }
    let p = S::period(&a, &[], &c);
    if let Some(r) = S::ref_period(&a, &[], &c) {
        m.check("empty", key_r::<S>(&a), matches::<S>(&p, &r), || format!("{}: empty period of {a:?} {c:?} gives {p:?}, formulas {r:?}", S::NAME));
    }
}
fn conf_decay<S: Unc6>(g: &mut G, m: &mut Mon) {
    let a = S::gen_r(g);
    let c = S::gen_c(g);
    let d = S::decay(&a, &c).unwrap();
    let r = S::ref_decay(&a, &c);
    let k = S::comps(&d);
    m.check("decay", key_r::<S>(&a), (0..S::NC).all(|i| near(k[i], r[i], 1e-9 * (r[i].abs() + 1e-3))), || format!("{}: decay of {a:?} {c:?} is {d:?}, formulas {r:?}", S::NAME));
    let (lo, hi) = S::interval(&a).unwrap();
    let q = S::comps(&a);
    let t = 1e-9 * (q[0].abs() + q[1] + 1.0);
    m.check("interval", key_r::<S>(&a), near(lo, q[0] - 1.96 * q[1], t) && near(hi, q[0] + 1.96 * q[1], t), || format!("{}: interval of {a:?} is ({lo:?}, {hi:?})", S::NAME));
}

// ------------------------------------------------------------------ Glicko-2
fn g2_one(m: &mut Mon, class: &'static str, a: &glicko2::Glicko2Rating, l: &[(glicko2::Glicko2Rating, O, ())], c: &glicko2::Glicko2Config, n: &glicko2::Glicko2Rating) {
    let k = key_l::<SGlicko2>(a, l);
    if l.is_empty() {
        let r = SGlicko2::ref_decay(a, c);
        let q = SGlicko2::comps(n);
        m.check("period-empty", k, (0..3).all(|i| near(q[i], r[i], 1e-9 * (r[i].abs() + 1e-3))), || format!("empty period of {a:?} is {n:?}, formulas {r:?}"));
        return;
    }
    match g2_vol_ok(a, l, c, n.volatility) {
        None => {
            m.skip("expectation too close to 0 or 1 for double precision");
            return;
        }
        Some(ok) => m.check("volatility", k, ok, || {
            let r = SGlicko2::ref_period(a, l, c);
            format!("{a:?} {c:?} {}: volatility {} does not solve the equation within the tolerance; result {n:?}, formulas {r:?}", show_l::<SGlicko2>(l), n.volatility)
        }),
    }
    let st = g2_stats(a, l);
    let (r, d) = g2_new(a, &st, n.volatility);
    // cancellation in 1 - E of a very one-sided game
    let tol_r = 1e-8 * (r.abs() + 100.0) + 1e-7 * (r - a.rating).abs();
    m.check(class, k, near(n.rating, r, tol_r) && near(n.deviation, d, 1e-8 * (d + 1.0)), || format!("{a:?} {c:?} {}: {n:?}, formulas with that volatility rating {r} deviation {d}", show_l::<SGlicko2>(l)));
}
fn c23(g: &mut G, m: &mut Mon) {
    let (a, b, c, ()) = pair::<SGlicko2>(g);
    for o in OUTS {
        let (p, q) = SGlicko2::rate(&a, &b, o, &c, ());
        g2_one(m, "game-one", &a, &[(b, o, ())], &c, &p);
        g2_one(m, "game-two", &b, &[(a, inv(o), ())], &c, &q);
    }
    let (e, f) = SGlicko2::exp(&a, &b, &c, ());
    let w = SGlicko2::ref_exp(&a, &b, &c, ()).0;
    m.check("expected", key2::<SGlicko2>(&a, &b, O::DRAW), near(e, w, 1e-9) && near(f, 1.0 - w, 1e-9), || format!("expected scores of {a:?} {b:?} are ({e:?}, {f:?}), formulas {w}"));
    let n = list_len(g);
    let l = SGlicko2::gen_list(g, &a, &c, n);
    let p = SGlicko2::period(&a, &l, &c);
    g2_one(m, "period", &a, &l, &c, &p);
    let ol: Vec<_> = l.iter().map(|t| (t.0, ())).collect();
    let v = SGlicko2::exp_period(&a, &ol, &c);
    m.check("expected-length", key_l::<SGlicko2>(&a, &l), v.len() == l.len(), || format!("{} opponents, {} expected scores", l.len(), v.len()));
    for (i, e) in v.iter().enumerate().take(60) {
        let w = SGlicko2::ref_exp(&a, &l[i].0, &c, ()).0;
        m.check("expected-list", mix(key_l::<SGlicko2>(&a, &l) ^ i as u64), near(*e, w, 1e-9), || format!("expected score {i} of {a:?} against {:?} is {e:?}, formulas {w}", l[i].0));
    }
}

// ------------------------------------------------------------------ Sticko = Glicko
fn c25_glicko(g: &mut G, m: &mut Mon) {
    let (a, b, gc, ()) = pair::<SGlicko>(g);
    let sc = sticko::StickoConfig { h: 0.0, beta: 0.0, lambda: 0.0, gamma: 0.0, c: gc.c };
    let s = |r: &glicko::GlickoRating| sticko::StickoRating { rating: r.rating, deviation: r.deviation };
    let same = |p: &glicko::GlickoRating, q: &sticko::StickoRating| near(p.rating, q.rating, 1e-9 * (p.rating.abs() + 100.0)) && near(p.deviation, q.deviation, 1e-9 * (p.deviation + 1.0));
    for o in OUTS {
        let (p, q) = glicko::glicko(&a, &b, &o, &gc);
        let (r, t) = sticko::sticko(&s(&a), &s(&b), &o, &sc);
        m.check("sticko-is-glicko", key2::<SGlicko>(&a, &b, o), same(&p, &r) && same(&q, &t), || format!("{a:?} {o:?} {b:?} {gc:?}: glicko {p:?} {q:?}, sticko {r:?} {t:?}"));
    }
    let n = list_len(g);
    let l = SGlicko::gen_list(g, &a, &gc, n);
    let p = SGlicko::period(&a, &l, &gc);
    let v: Vec<_> = l.iter().map(|t| (s(&t.0), t.1, g.r.chance(0.5))).collect();
    let r = sticko::sticko_rating_period(&s(&a), &v, &sc);
    m.check("sticko-is-glicko-period", key_l::<SGlicko>(&a, &l), same(&p, &r), || format!("{a:?} {gc:?} {}: glicko {p:?}, sticko {r:?}", show_l::<SGlicko>(&l)));
}

// ------------------------------------------------------------------ USCF starting rating
fn c28_new(g: &mut G, m: &mut Mon) {
    let age = g.int(0, 200, 40);
    let u = uscf::USCFRating::new(age);
    let want = (50.0 * age as f64).clamp(100.0, 1300.0);
    m.check("new-player", age as u64, near(u.rating, want, 1e-9) && u.games == 0, || format!("USCFRating::new({age}) = {u:?}, rules say {want} and 0 games"));
}

// ------------------------------------------------------------------ teams
fn team_ok<S: Sys>(t: &[S::R], want: &[[Iv; 2]]) -> bool {
    t.len() == want.len()
        && t.iter().zip(want).all(|(p, w)| {
            let k = S::comps(p);
            inside(k[0], w[0]) && inside(k[1], w[1])
        })
}
fn conf_two<S: Tm>(g: &mut G, m: &mut Mon) {
    let c = S::gen_c(g);
    let (a, mut b) = gen_pair::<S>(g);
    if g.r.chance(0.05) {
        if let Some(d) = S::edge(g, &c, a.len() + b.len()) {
            let sum = |x: &[S::R]| x.iter().map(|p| S::comps(p)[0]).sum::<f64>();
            let d = (sum(&a) + d - sum(&b)) / b.len() as f64;
            b.iter_mut().for_each(|p| *p = S::with_rating(p, S::comps(p)[0] + d));
        }
    }
    let t = [a, b];
    for o in OUTS {
        let (p, q) = S::two(&t[0], &t[1], o, &c);
        if let Some((rp, rq)) = S::ref_two(&t[0], &t[1], o, &c) {
            m.check("two-teams", mix(key_t::<S>(&t, &[]) ^ pts(o).to_bits()), team_ok::<S>(&p, &rp) && team_ok::<S>(&q, &rq), || format!("{} {o:?}: {p:?} {q:?}, formulas {rp:?} {rq:?}; {}", S::NAME, show_t::<S>(&t, &[], &c)));
        } else {
            m.skip("deep tail");
        }
    }
    let (e, f) = S::exp2(&t[0], &t[1], &c);
    let w = S::ref_exp2(&t[0], &t[1], &c);
    m.check("team-expected", key_t::<S>(&t, &[]), near(e, w, S::etol()) && near(f, 1.0 - w, S::etol()), || format!("{}: team expectation ({e:?}, {f:?}), formulas {w}; {}", S::NAME, show_t::<S>(&t, &[], &c)));
    let mt = gen_multi::<S>(g, 24, false);
    let v = S::expm(&mt.t, &mt.c);
    let w = S::ref_expm(&mt.t, &mt.c);
    m.check("multi-expected", key_t::<S>(&mt.t, &[]), v.len() == w.len() && v.iter().zip(&w).all(|(x, y)| near(*x, *y, S::etol())), || format!("{}: multi-team expectation {v:?}, formulas {w:?}; {}", S::NAME, show_t::<S>(&mt.t, &[], &mt.c)));
}
fn c30_multi(g: &mut G, m: &mut Mon) {
    let mt = gen_multi::<SWl>(g, 40, false);
    let v = SWl::multi(&mt.t, &mt.ranks, &mt.c);
    let r = SWl::ref_multi(&mt.t, &mt.ranks, &mt.c).unwrap();
    let ok = v.len() == r.len() && v.iter().zip(&r).all(|(x, y)| team_ok::<SWl>(x, y));
    m.check("multi-team", key_t::<SWl>(&mt.t, &mt.ranks), ok, || format!("{v:?}, formulas {r:?}; {}", show_t::<SWl>(&mt.t, &mt.ranks, &mt.c)));
}
fn c31_rank(g: &mut G, m: &mut Mon) {
    let a = STs::gen_r(g);
    let r = trueskill::get_rank(&a);
    let w = a.rating - 3.0 * a.uncertainty;
    m.check("rank", key_r::<STs>(&a), near(r, w, 1e-9 * (w.abs() + 1.0)), || format!("get_rank({a:?}) = {r:?}, expected {w}"));
}
fn c32(g: &mut G, m: &mut Mon) {
    let n = if g.thorough { 30 } else { 14 };
    let distinct = g.r.chance(0.4);
    let mt = gen_multi::<STs>(g, n, distinct);
    let mode = g.r.below(3);
    let w = if mode == 0 { ones(&mt.t) } else { gen_weights(g, &mt.t) };
    if w.iter().any(|x| x.iter().all(|v| *v == 0.0)) {
        m.skip("a team in which nobody played (C17)");
        return;
    }
    let Some(rf) = ts_ref_multi(&mt.t, &mt.ranks, &mt.c, &w) else {
        m.skip("deep tail");
        return;
    };
    let r = ts_multi(&mt.t, &mt.ranks, &mt.c, if mode == 0 { None } else { Some(&w) });
    let ties = {
        let mut s = mt.ranks.clone();
        s.sort_unstable();
        s.windows(2).any(|p| p[0] == p[1])
    };
    let class = match (mt.t.len(), mode, ties) {
        (2, 0, _) => "two-teams",
        (2, _, _) => "two-teams-weighted",
        (_, 0, false) => "teams",
        (_, 0, true) => "teams-tied",
        (_, _, false) => "teams-weighted",
        (_, _, true) => "teams-tied-weighted",
    };
    let ok = match &r {
        Ok(v) => v.len() == rf.len() && v.iter().zip(&rf).all(|(x, y)| team_ok::<STs>(x, y)),
        Err(_) => false,
    };
    m.check(class, mix(key_t::<STs>(&mt.t, &mt.ranks) ^ mode as u64), ok, || {
        let bad = r.as_ref().ok().and_then(|v| v.iter().zip(&rf).enumerate().flat_map(|(i, (x, y))| x.iter().zip(y).enumerate().map(move |(j, (p, q))| (i, j, *p, *q))).find(|t| !team_ok::<STs>(&[t.2], &[t.3])));
        format!("first difference {bad:?}; {r:?}, posterior {rf:?}; weights {:?}; {}", if mode == 0 { None } else { Some(&w) }, show_t::<STs>(&mt.t, &mt.ranks, &mt.c))
    });
}

pub fn m21() -> Vec<Monitor> {
    vec![mon("c21/elo", 60_000, conf::<SElo>), mon("c21/fifa", 60_000, conf::<SFifa>)]
}
pub fn m22() -> Vec<Monitor> {
    vec![mon("c22/glicko", 80_000, conf::<SGlicko>), mon("c22/decay", 80_000, conf_decay::<SGlicko>)]
}
pub fn m23() -> Vec<Monitor> {
    vec![mon("c23/glicko2", 60_000, c23), mon("c23/decay", 80_000, conf_decay::<SGlicko2>)]
}
pub fn m24() -> Vec<Monitor> {
    vec![mon("c24/glicko_boost", 80_000, conf::<SBoost>), mon("c24/decay", 80_000, conf_decay::<SBoost>)]
}
pub fn m25() -> Vec<Monitor> {
    vec![mon("c25/sticko", 80_000, conf::<SSticko>), mon("c25/decay", 80_000, conf_decay::<SSticko>), mon("c25/glicko", 40_000, c25_glicko)]
}
pub fn m26() -> Vec<Monitor> {
    vec![mon("c26/dwz", 120_000, conf::<SDwz>)]
}
pub fn m27() -> Vec<Monitor> {
    vec![mon("c27/ingo", 120_000, conf::<SIngo>)]
}
pub fn m28() -> Vec<Monitor> {
    vec![mon("c28/uscf", 120_000, conf::<SUscf>), mon("c28/new", 2_000, c28_new)]
}
pub fn m29() -> Vec<Monitor> {
    vec![mon("c29/egf", 120_000, conf::<SEgf>)]
}
pub fn m30() -> Vec<Monitor> {
    vec![mon("c30/weng_lin", 60_000, conf::<SWl>), mon("c30/teams", 40_000, conf_two::<SWl>), mon("c30/multi", 40_000, c30_multi)]
}
pub fn m31() -> Vec<Monitor> {
    vec![mon("c31/trueskill", 40_000, conf::<STs>), mon("c31/teams", 40_000, conf_two::<STs>), mon("c31/rank", 40_000, c31_rank)]
}
pub fn m32() -> Vec<Monitor> {
    vec![mon("c32/multi", 30_000, c32)]
}

// ------------------------------------------------------------------ C34
fn feq(a: f64, b: f64) -> bool {
    near(a, b, 1e-12 * (b.abs() + 1e-3))
}
fn c34_const(_: &mut G, m: &mut Mon) {
    macro_rules! d {
        ($label:expr, $e:expr, $ok:expr) => {{
            let v = $e;
            let f: fn(&_) -> bool = $ok;
            m.check("defaults", crate::eng::hash_str($label), f(&v), || format!("{} is {v:?}", $label));
        }};
    }
    macro_rules! rating {
        ($t:path, $new:expr, $ok:expr) => {{
            d!(concat!(stringify!($t), " new"), $new, $ok);
            d!(concat!(stringify!($t), " default"), <$t>::default(), $ok);
            d!(concat!(stringify!($t), " Rating::new(None, None)"), <$t as Rating>::new(None, None), $ok);
        }};
    }
    macro_rules! config {
        ($t:path, $ok:expr) => {{
            d!(concat!(stringify!($t), " new"), <$t>::new(), $ok);
            d!(concat!(stringify!($t), " default"), <$t>::default(), $ok);
        }};
    }
    rating!(elo::EloRating, elo::EloRating::new(), |r: &elo::EloRating| feq(r.rating, 1000.0));
    rating!(fifa::FifaRating, fifa::FifaRating::new(), |r: &fifa::FifaRating| feq(r.rating, 1000.0));
    rating!(glicko::GlickoRating, glicko::GlickoRating::new(), |r: &glicko::GlickoRating| feq(r.rating, 1500.0) && feq(r.deviation, 350.0));
    rating!(glicko2::Glicko2Rating, glicko2::Glicko2Rating::new(), |r: &glicko2::Glicko2Rating| feq(r.rating, 1500.0) && feq(r.deviation, 350.0) && feq(r.volatility, 0.06));
    rating!(glicko_boost::GlickoBoostRating, glicko_boost::GlickoBoostRating::new(), |r: &glicko_boost::GlickoBoostRating| feq(r.rating, 1500.0) && feq(r.deviation, 350.0));
    rating!(sticko::StickoRating, sticko::StickoRating::new(), |r: &sticko::StickoRating| feq(r.rating, 1500.0) && feq(r.deviation, 350.0));
    rating!(dwz::DWZRating, dwz::DWZRating::new(26), |r: &dwz::DWZRating| feq(r.rating, 1000.0) && r.index == 1 && r.age == 26);
    rating!(ingo::IngoRating, ingo::IngoRating::new(26), |r: &ingo::IngoRating| feq(r.rating, 230.0) && r.age == 26);
    rating!(uscf::USCFRating, uscf::USCFRating::new(26), |r: &uscf::USCFRating| feq(r.rating, 1300.0) && r.games == 0);
    rating!(egf::EGFRating, egf::EGFRating::new(), |r: &egf::EGFRating| feq(r.rating, 0.0));
    rating!(weng_lin::WengLinRating, weng_lin::WengLinRating::new(), |r: &weng_lin::WengLinRating| feq(r.rating, 25.0) && feq(r.uncertainty, 25.0 / 3.0));
    rating!(trueskill::TrueSkillRating, trueskill::TrueSkillRating::new(), |r: &trueskill::TrueSkillRating| feq(r.rating, 25.0) && feq(r.uncertainty, 25.0 / 3.0));
    config!(elo::EloConfig, |c: &elo::EloConfig| feq(c.k, 32.0));
    config!(fifa::FifaConfig, |c: &fifa::FifaConfig| feq(c.importance, 10.0) && !c.knockout && !c.penalties);
    config!(glicko::GlickoConfig, |c: &glicko::GlickoConfig| feq(c.c, 63.2));
    config!(glicko2::Glicko2Config, |c: &glicko2::Glicko2Config| feq(c.tau, 0.5) && feq(c.convergence_tolerance, 1e-6));
    config!(glicko_boost::GlickoBoostConfig, |c: &glicko_boost::GlickoBoostConfig| {
        feq(c.eta, 30.0)
            && feq(c.k, 1.96)
            && feq(c.b.0, 0.20139)
            && feq(c.b.1, 17.5)
            && feq(c.alpha.0, 5.83733)
            && feq(c.alpha.1, -1.75374e-4)
            && feq(c.alpha.2, -7.080124e-5)
            && feq(c.alpha.3, 0.001_733_792)
            && feq(c.alpha.4, 0.000_267_06)
    });
    config!(sticko::StickoConfig, |c: &sticko::StickoConfig| feq(c.h, 10.0) && feq(c.beta, 0.0) && feq(c.lambda, 2.0) && feq(c.gamma, 0.0) && feq(c.c, 10.0));
    config!(uscf::USCFConfig, |c: &uscf::USCFConfig| feq(c.t, 14.0));
    config!(egf::EGFConfig, |c: &egf::EGFConfig| feq(c.handicap, 0.0));
    config!(weng_lin::WengLinConfig, |c: &weng_lin::WengLinConfig| feq(c.beta, 25.0 / 6.0) && feq(c.uncertainty_tolerance, 1e-6));
    config!(trueskill::TrueSkillConfig, |c: &trueskill::TrueSkillConfig| feq(c.draw_probability, 0.1) && feq(c.beta, 25.0 / 6.0) && feq(c.dynamics_factor, 25.0 / 300.0));
    for (o, w) in [(Outcomes::WIN, 1.0f64), (Outcomes::DRAW, 0.5), (Outcomes::LOSS, 0.0)] {
        m.check("points", w.to_bits(), o.to_chess_points() == w, || format!("{o:?} is worth {}", o.to_chess_points()));
    }
}
fn c34_new(g: &mut G, m: &mut Mon) {
    let opt = |g: &mut G, s| if g.r.chance(0.25) { None } else { Some(g.num(s)) };
    let r = opt(g, crate::gen::sc(-5000.0, 9000.0, 0.0, 3000.0));
    let u = opt(g, crate::gen::sc(0.0, 2000.0, 0.0, 400.0));
    let k = mix(r.map_or(1, f64::to_bits) ^ mix(u.map_or(2, f64::to_bits)));
    macro_rules! one {
        ($t:path, $r0:expr, $u0:expr, $rest:expr) => {{
            let x = <$t as Rating>::new(r, u);
            let rest: fn(&$t) -> bool = $rest;
            let want_r = r.unwrap_or($r0);
            let want_u: Option<f64> = ($u0).map(|d: f64| u.unwrap_or(d));
            let same = |a: f64, b: f64| a == b || feq(a, b);
            let uo = match (Rating::uncertainty(&x), want_u) {
                (None, None) => true,
                (Some(a), Some(b)) => same(a, b),
                _ => false,
            };
            m.check(stringify!($t), k, same(Rating::rating(&x), want_r) && same(x.rating, want_r) && uo && rest(&x), || {
                format!("{}::new({r:?}, {u:?}) = {x:?} (rating() {:?}, uncertainty() {:?})", stringify!($t), Rating::rating(&x), Rating::uncertainty(&x))
            });
        }};
    }
    const NO: Option<f64> = None;
    one!(elo::EloRating, 1000.0, NO, |_| true);
    one!(fifa::FifaRating, 1000.0, NO, |_| true);
    one!(glicko::GlickoRating, 1500.0, Some(350.0), |_| true);
    one!(glicko2::Glicko2Rating, 1500.0, Some(350.0), |x| feq(x.volatility, 0.06));
    one!(glicko_boost::GlickoBoostRating, 1500.0, Some(350.0), |_| true);
    one!(sticko::StickoRating, 1500.0, Some(350.0), |_| true);
    one!(dwz::DWZRating, 1000.0, NO, |x| x.index == 1 && x.age == 26);
    one!(ingo::IngoRating, 230.0, NO, |x| x.age == 26);
    one!(uscf::USCFRating, 1300.0, NO, |x| x.games == 0);
    one!(egf::EGFRating, 0.0, NO, |_| true);
    one!(weng_lin::WengLinRating, 25.0, Some(25.0 / 3.0), |_| true);
    one!(trueskill::TrueSkillRating, 25.0, Some(25.0 / 3.0), |_| true);
    // constructors with an age
    let age = if g.r.chance(0.05) { usize::MAX - g.r.below(4) } else { g.int(0, 100_000, 90) };
    let (d, i, us) = (dwz::DWZRating::new(age), ingo::IngoRating::new(age), uscf::USCFRating::new(age));
    let want = if age < 2 { 100.0 } else if age >= 26 { 1300.0 } else { 50.0 * age as f64 };
    m.check("age", age as u64, feq(d.rating, 1000.0) && d.age == age && d.index == 1 && feq(i.rating, 230.0) && i.age == age && feq(us.rating, want) && us.games == 0, || format!("age {age}: {d:?} {i:?} {us:?}"));
    // ranks keep their number
    let rank = if g.r.chance(0.2) { usize::MAX - g.r.below(3) } else { g.int(0, 1_000_000, 12) };
    let o = MultiTeamOutcome::new(rank);
    m.check("rank", rank as u64, o.rank() == rank, || format!("MultiTeamOutcome::new({rank}) has rank {}", o.rank()));
}
/// Two default configurations behave like the constants they document: the zero-argument constructors of the
/// trait objects use exactly what they are given.
fn c34_fields(g: &mut G, m: &mut Mon) {
    // struct update syntax over the defaults keeps the other documented values
    let k = g.num(crate::gen::sc(0.0, 200.0, 1.0, 60.0));
    let c = glicko2::Glicko2Config { tau: k, ..Default::default() };
    let t = trueskill::TrueSkillConfig { beta: k, ..Default::default() };
    let s = sticko::StickoConfig { h: k, ..Default::default() };
    m.check("update-syntax", k.to_bits(), feq(c.convergence_tolerance, 1e-6) && feq(t.draw_probability, 0.1) && feq(t.dynamics_factor, 25.0 / 300.0) && feq(s.lambda, 2.0) && feq(s.c, 10.0), || format!("{c:?} {t:?} {s:?}"));
}
pub fn m34() -> Vec<Monitor> {
    vec![mon("c34/constants", 16, c34_const), mon("c34/constructors", 60_000, c34_new), mon("c34/update", 2_000, c34_fields)]
}
