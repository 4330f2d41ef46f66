//! C35: only differences (and, in Weng-Lin and TrueSkill, no units) count. C36: simultaneous games and pairings add up.
//! Relational monitors: two or more real calls against each other, no reference formula decides.
use crate::eng::{mix, mon, Mon, Monitor, G};
use crate::gen::OUTS;
use crate::pa::{close, pair, Unc6};
use crate::sys::*;
use crate::team::*;
use skillratings::trueskill::TrueSkillConfig;
use skillratings::weng_lin::WengLinConfig;

// ------------------------------------------------------------------ C35
fn offset(g: &mut G, scale: f64) -> f64 {
    let s = if g.r.chance(0.5) { 1.0 } else { -1.0 };
    s * scale
        * match g.r.below(6) {
            0 => 1.0,
            1 => 10.0,
            2 => g.r.f(),
            3 => 30.0 * g.r.f(),
            4 => 0.001 * g.r.f(),
            _ => 5.0 * g.r.f(),
        }
}
fn moved<S: Sys>(r: &S::R, d: f64) -> S::R {
    S::with_rating(r, S::comps(r)[0] + d)
}
fn plus(a: [f64; 3], b: [f64; 3], extra: f64) -> [f64; 3] {
    [a[0] + b[0] + extra, a[1] + b[1] + extra, a[2] + b[2] + 1e-9]
}
/// expected scores
fn shift_exp<S: Sys>(g: &mut G, m: &mut Mon) {
    let (a, b, c, x) = pair::<S>(g);
    let d = offset(g, S::SCALE);
    let (a2, b2) = (moved::<S>(&a, d), moved::<S>(&b, d));
    if !S::ok(&a2, &b2, &c, x) {
        m.skip("domain");
        return;
    }
    let (e, f) = S::exp(&a, &b, &c, x);
    let (e2, f2) = S::exp(&a2, &b2, &c, x);
    let k = mix(S::comps(&a)[0].to_bits() ^ S::comps(&b)[0].to_bits().rotate_left(9) ^ d.to_bits());
    m.check("expected", k, near(e, e2, S::etol()) && near(f, f2, S::etol()), || format!("{}: {a:?} {b:?} {c:?} {x:?} expects ({e:?}, {f:?}); both moved by {d:?} ({e2:?}, {f2:?})", S::NAME));
    let n = g.r.below(6);
    let l = S::gen_list(g, &a, &c, n);
    let p: Vec<_> = l.iter().map(|t| (t.0, t.2)).collect();
    let q: Vec<_> = l.iter().map(|t| (moved::<S>(&t.0, d), t.2)).collect();
    let (u, v) = (S::exp_period(&a, &p, &c), S::exp_period(&a2, &q, &c));
    m.check("expected-list", k, u.len() == v.len() && u.iter().zip(&v).all(|(x, y)| near(*x, *y, S::etol())), || format!("{}: {a:?} against {p:?} {c:?} expects {u:?}; all moved by {d:?} {v:?}", S::NAME));
}
/// games and periods
fn shift<S: Sys>(g: &mut G, m: &mut Mon) {
    shift_exp::<S>(g, m);
    let (a, b, c, x) = pair::<S>(g);
    let d = offset(g, S::SCALE);
    let (a2, b2) = (moved::<S>(&a, d), moved::<S>(&b, d));
    let k = mix(S::comps(&a)[0].to_bits() ^ S::comps(&b)[0].to_bits().rotate_left(9) ^ d.to_bits());
    let extra = 1e-9 * d.abs();
    for o in OUTS {
        let (p, q) = S::rate(&a, &b, o, &c, x);
        let (p2, q2) = S::rate(&a2, &b2, o, &c, x);
        let l = [(b, o, x)];
        let l2 = [(b2, o, x)];
        let mx = S::mirror(&c, x);
        let t = plus(S::rtol(&a, &l, &c), S::rtol(&a2, &l2, &c), extra);
        let u = plus(S::rtol(&b, &[(a, inv(o), mx.1)], &mx.0), S::rtol(&b2, &[(a2, inv(o), mx.1)], &mx.0), extra);
        if t[0].is_infinite() || u[0].is_infinite() {
            m.skip("undecidable");
            continue;
        }
        m.check("game", mix(k ^ pts(o).to_bits()), close::<S>(&moved::<S>(&p, d), &p2, &t) && close::<S>(&moved::<S>(&q, d), &q2, &u), || {
            format!("{}: {a:?} {o:?} {b:?} {c:?} {x:?} gives {p:?} {q:?}; moved by {d:?} {p2:?} {q2:?}", S::NAME)
        });
    }
    if g.r.chance(0.5) {
        let n = g.len(400);
        let l = S::gen_list(g, &a, &c, n);
        let l2: Vec<_> = l.iter().map(|t| (moved::<S>(&t.0, d), t.1, t.2)).collect();
        let t = plus(S::rtol(&a, &l, &c), S::rtol(&a2, &l2, &c), extra * (1.0 + 0.1 * n as f64));
        if t[0].is_infinite() {
            m.skip("undecidable");
            return;
        }
        let (p, p2) = (S::period(&a, &l, &c), S::period(&a2, &l2, &c));
        m.check("period", mix(k ^ n as u64), close::<S>(&moved::<S>(&p, d), &p2, &t), || format!("{}: {a:?} {c:?} {l:?} gives {p:?}; all moved by {d:?} {p2:?}", S::NAME));
    }
}
trait Unit: Tm {
    /// the same settings in another unit
    fn unit(c: &Self::C, f: f64) -> Self::C;
    /// the multi-team function is free of units, too
    const MULTI: bool;
}
impl Unit for SWl {
    fn unit(c: &WengLinConfig, f: f64) -> WengLinConfig {
        WengLinConfig { beta: c.beta * f, ..*c }
    }
    const MULTI: bool = true;
}
impl Unit for STs {
    fn unit(c: &TrueSkillConfig, f: f64) -> TrueSkillConfig {
        TrueSkillConfig { beta: c.beta * f, dynamics_factor: c.dynamics_factor * f, ..*c }
    }
    // its stopping accuracy is an absolute number
    const MULTI: bool = false;
}
fn tm<S: Tm>(t: &[Vec<S::R>], f: impl Fn(&S::R, usize) -> S::R) -> Vec<Vec<S::R>> {
    t.iter().map(|x| x.iter().map(|p| f(p, x.len())).collect()).collect()
}
/// `v` moved back by `d` per team (or divided by `f`) equals `w`, within the widths of both references.
fn back<S: Tm>(v: &[Vec<S::R>], w: &[Vec<S::R>], d: f64, f: f64, r1: &[Vec<[Iv; 2]>], r2: &[Vec<[Iv; 2]>]) -> bool {
    v.len() == w.len()
        && v.iter().zip(w).zip(r1.iter().zip(r2)).all(|((x, y), (r1, r2))| {
            let s = d / x.len().max(1) as f64;
            x.len() == y.len()
                && (0..x.len()).all(|j| {
                    let (p, q) = (S::comps(&x[j]), S::comps(&y[j]));
                    let tol = |i: usize| width(r1[j][i]) + width(r2[j][i]) / f + 1e-8 * (s.abs() + q[i].abs());
                    near((p[0] - s) / f, q[0], tol(0)) && near(p[1] / f, q[1], tol(1))
                })
        })
}
fn shift_teams<S: Unit>(g: &mut G, m: &mut Mon) {
    let mt = gen_multi::<S>(g, 8, false);
    let d = offset(g, S::SCALE);
    // every team total moves by d
    let t2 = tm::<S>(&mt.t, |p, n| moved::<S>(p, d / n as f64));
    let k = key_t::<S>(&mt.t, &mt.ranks);
    let show = || show_t::<S>(&mt.t, &mt.ranks, &mt.c);
    let etol = 4.0 * S::etol();
    let (e, f) = (S::expm(&mt.t, &mt.c), S::expm(&t2, &mt.c));
    m.check("teams-expected", k, e.len() == f.len() && e.iter().zip(&f).all(|(x, y)| near(*x, *y, etol)), || format!("{}: expected {e:?}, all teams moved by {d:?} {f:?}: {}", S::NAME, show()));
    if let (Some(r1), Some(r2)) = (S::ref_multi(&mt.t, &mt.ranks, &mt.c), S::ref_multi(&t2, &mt.ranks, &mt.c)) {
        let (v, w) = (S::multi(&mt.t, &mt.ranks, &mt.c), S::multi(&t2, &mt.ranks, &mt.c));
        m.check("teams-game", k, back::<S>(&w, &v, d, 1.0, &r1, &r2), || format!("{}: {v:?}, all teams moved by {d:?} {w:?}: {}", S::NAME, show()));
    } else {
        m.skip("deep tail");
    }
    let (a, b) = (&mt.t[0], &mt.t[1]);
    for o in OUTS {
        if let (Some(r1), Some(r2)) = (S::ref_two(a, b, o, &mt.c), S::ref_two(&t2[0], &t2[1], o, &mt.c)) {
            let (v, w) = (S::two(a, b, o, &mt.c), S::two(&t2[0], &t2[1], o, &mt.c));
            let ok = back::<S>(&[w.0.clone(), w.1.clone()], &[v.0.clone(), v.1.clone()], d, 1.0, &[r1.0, r1.1], &[r2.0, r2.1]);
            m.check("teams-two", mix(k ^ pts(o).to_bits()), ok, || format!("{}: {o:?} {v:?}, both teams moved by {d:?} {w:?}: {a:?} {b:?} {:?}", S::NAME, mt.c));
        } else {
            m.skip("deep tail");
        }
    }
}
fn units<S: Unit>(g: &mut G, m: &mut Mon) {
    let mt = gen_multi::<S>(g, 8, false);
    let f = *g.r.pick(&[2.0, 0.5, 4.0, 0.125, 64.0, 3.0, 60.0, 0.01]);
    let c2 = S::unit(&mt.c, f);
    let t2 = tm::<S>(&mt.t, |p, _| S::mk(S::comps(p)[0] * f, S::comps(p)[1] * f));
    let k = mix(key_t::<S>(&mt.t, &mt.ranks) ^ f.to_bits());
    let show = || show_t::<S>(&mt.t, &mt.ranks, &mt.c);
    let etol = 4.0 * S::etol();
    let (x, y) = (S::expm(&mt.t, &mt.c), S::expm(&t2, &c2));
    m.check("unit-expected", k, x.len() == y.len() && x.iter().zip(&y).all(|(x, y)| near(*x, *y, etol)), || format!("{}: expected {x:?}, in units of 1/{f:?} {y:?}: {}", S::NAME, show()));
    if S::MULTI {
        if let (Some(r1), Some(r2)) = (S::ref_multi(&mt.t, &mt.ranks, &mt.c), S::ref_multi(&t2, &mt.ranks, &c2)) {
            let (v, w) = (S::multi(&mt.t, &mt.ranks, &mt.c), S::multi(&t2, &mt.ranks, &c2));
            m.check("unit-multi", k, back::<S>(&w, &v, 0.0, f, &r1, &r2), || format!("{}: {v:?}, in units of 1/{f:?} {w:?}: {}", S::NAME, show()));
        }
    }
    let (a, b) = (&mt.t[0], &mt.t[1]);
    for o in OUTS {
        let k = mix(k ^ pts(o).to_bits());
        if let (Some(r1), Some(r2)) = (S::ref_two(a, b, o, &mt.c), S::ref_two(&t2[0], &t2[1], o, &c2)) {
            let (v, w) = (S::two(a, b, o, &mt.c), S::two(&t2[0], &t2[1], o, &c2));
            let ok = back::<S>(&[w.0.clone(), w.1.clone()], &[v.0.clone(), v.1.clone()], 0.0, f, &[r1.0, r1.1], &[r2.0, r2.1]);
            m.check("unit-two", k, ok, || format!("{}: {o:?} {v:?}, in units of 1/{f:?} {w:?}: {a:?} {b:?} {:?}", S::NAME, mt.c));
        } else {
            m.skip("deep tail");
        }
        let (Some((r1, _)), Some((r2, _))) = (S::ref_rate(&a[0], &b[0], o, &mt.c, ()), S::ref_rate(&t2[0][0], &t2[1][0], o, &c2, ())) else {
            m.skip("deep tail");
            continue;
        };
        let (p, q) = (S::comps(&S::rate(&a[0], &b[0], o, &mt.c, ()).0), S::comps(&S::rate(&t2[0][0], &t2[1][0], o, &c2, ()).0));
        let ok = (0..2).all(|i| near(q[i] / f, p[i], 2.0 * r1[i].1 + 2.0 * r2[i].1 / f));
        m.check("unit-game", k, ok, || format!("{}: {:?} {o:?} {:?} {:?} gives {p:?}, in units of 1/{f:?} {q:?}", S::NAME, a[0], b[0], mt.c));
    }
}
fn quality(g: &mut G, m: &mut Mon) {
    use skillratings::trueskill::{match_quality, match_quality_two_teams};
    let mt = gen_multi::<STs>(g, 7, false);
    let d = offset(g, 10.0);
    let f = *g.r.pick(&[2.0, 0.5, 4.0, 0.125, 64.0, 3.0, 60.0]);
    let c2 = STs::unit(&mt.c, f);
    let moved = tm::<STs>(&mt.t, |p, n| STs::mk(p.rating + d / n as f64, p.uncertainty));
    let scaled = tm::<STs>(&mt.t, |p, _| STs::mk(p.rating * f, p.uncertainty * f));
    let k = key_t::<STs>(&mt.t, &[]);
    let q = [ts_quality(&mt.t, &mt.c, None), ts_quality(&moved, &mt.c, None), ts_quality(&scaled, &c2, None)];
    let ok = matches!(&q, [Ok(a), Ok(b), Ok(c)] if near(*a, *b, 1e-7) && near(*a, *c, 1e-7));
    m.check("quality", k, ok, || format!("match quality {:?}, moved by {d:?} {:?}, in units of 1/{f:?} {:?}: {}", q[0], q[1], q[2], show_t::<STs>(&mt.t, &[], &mt.c)));
    let q = [
        match_quality_two_teams(&mt.t[0], &mt.t[1], &mt.c),
        match_quality_two_teams(&moved[0], &moved[1], &mt.c),
        match_quality_two_teams(&scaled[0], &scaled[1], &c2),
    ];
    m.check("quality-two", k, near(q[0], q[1], 1e-9) && near(q[0], q[2], 1e-9), || format!("two-team match quality, moved by {d:?}, in units of 1/{f:?}: {q:?}: {}", show_t::<STs>(&mt.t[..2], &[], &mt.c)));
    let (a, b) = (mt.t[0][0], mt.t[1][0]);
    let q = [
        match_quality(&a, &b, &mt.c),
        match_quality(&STs::mk(a.rating + d, a.uncertainty), &STs::mk(b.rating + d, b.uncertainty), &mt.c),
        match_quality(&STs::mk(a.rating * f, a.uncertainty * f), &STs::mk(b.rating * f, b.uncertainty * f), &c2),
    ];
    m.check("quality-one", k, near(q[0], q[1], 1e-9) && near(q[0], q[2], 1e-9), || format!("match quality, moved by {d:?}, in units of 1/{f:?}: {q:?}: {a:?} {b:?} {:?}", mt.c));
}
pub fn m35() -> Vec<Monitor> {
    vec![
        mon("c35/elo", 8_000, shift::<SElo>),
        mon("c35/fifa", 8_000, shift::<SFifa>),
        mon("c35/glicko", 8_000, shift::<SGlicko>),
        mon("c35/glicko2", 4_000, shift::<SGlicko2>),
        mon("c35/sticko", 8_000, shift::<SSticko>),
        mon("c35/ingo", 8_000, shift::<SIngo>),
        mon("c35/weng_lin", 8_000, shift::<SWl>),
        mon("c35/trueskill", 3_000, shift::<STs>),
        mon("c35/glicko_boost", 8_000, shift_exp::<SBoost>),
        mon("c35/dwz", 8_000, shift_exp::<SDwz>),
        mon("c35/uscf", 8_000, shift_exp::<SUscf>),
        mon("c35/weng_lin_teams", 3_000, shift_teams::<SWl>),
        mon("c35/trueskill_teams", 800, shift_teams::<STs>),
        mon("c35/weng_lin_units", 3_000, units::<SWl>),
        mon("c35/trueskill_units", 1_500, units::<STs>),
        mon("c35/quality", 3_000, quality),
    ]
}

// ------------------------------------------------------------------ C36
/// Information and evidence of a Glicko-like period are the sums over its games.
trait Info: Unc6 {
    /// settings under which games only add information
    fn plain(c: Self::C) -> Self::C;
}
impl Info for SGlicko {
    fn plain(c: Self::C) -> Self::C {
        c
    }
}
impl Info for SSticko {
    fn plain(mut c: Self::C) -> Self::C {
        c.h = 0.0;
        c.lambda = 0.0;
        c
    }
}
fn info<S: Info>(g: &mut G, m: &mut Mon) {
    let a = S::gen_r(g);
    let c = S::plain(S::gen_c(g));
    let n = 1 + g.len(400);
    let l = S::gen_list(g, &a, &c, n);
    info_of::<S>(m, a, c, l, 1e-10);
}
fn info_vast<S: Info>(g: &mut G, m: &mut Mon) {
    let a = S::gen_r(g);
    let c = S::plain(S::gen_c(g));
    let n = crate::pg::vast_len(g);
    let l = crate::pg::vast_list::<S>(g, &a, &c, n);
    info_of::<S>(m, a, c, l, 1e-12);
}
fn info_of<S: Info>(m: &mut Mon, a: S::R, c: S::C, l: Vec<(S::R, O, S::X)>, rel: f64) {
    let n = l.len();
    let show = || format!("{a:?} {c:?} {:?}", &l[..n.min(400)]);
    let Some(pre) = S::decay(&a, &c) else { return };
    let (r0, d0) = (S::comps(&a)[0], S::comps(&pre)[1]);
    let i0 = 1.0 / (d0 * d0);
    let (mut si, mut se, mut big) = (0.0, 0.0, 0.0f64);
    for t in &l {
        let p = S::comps(&S::period(&a, std::slice::from_ref(t), &c));
        let i = 1.0 / (p[1] * p[1]);
        si += i - i0;
        se += (p[0] - r0) * i;
        big = big.max(i);
    }
    let p = S::comps(&S::period(&a, &l, &c));
    let i = 1.0 / (p[1] * p[1]);
    let k = mix(r0.to_bits() ^ n as u64 ^ si.to_bits());
    let tol = rel * n as f64 * (big + i);
    m.check("information", k, near(i - i0, si, tol), || format!("{}: the information of {n} games is {:?}, their sum {si:?}: {}", S::NAME, i - i0, show()));
    let tol = rel * n as f64 * (big + i) * (r0.abs() + 400.0);
    m.check("evidence", k, near((p[0] - r0) * i, se, tol), || format!("{}: the evidence of {n} games is {:?}, their sum {se:?}: {}", S::NAME, (p[0] - r0) * i, show()));
}
/// The points of an EGF period are the sum of the points of its games.
fn egf_sum(g: &mut G, m: &mut Mon) {
    let a = SEgf::gen_r(g);
    let n = 1 + g.len(400);
    let l = SEgf::gen_list(g, &a, &(), n);
    egf_sum_of(m, a, l);
}
fn egf_sum_vast(g: &mut G, m: &mut Mon) {
    let a = SEgf::gen_r(g);
    let n = crate::pg::vast_len(g);
    let l = crate::pg::vast_list::<SEgf>(g, &a, &(), n);
    egf_sum_of(m, a, l);
}
fn egf_sum_of(m: &mut Mon, a: <SEgf as Sys>::R, l: Vec<(<SEgf as Sys>::R, O, <SEgf as Sys>::X)>) {
    let n = l.len();
    let one: Vec<f64> = l.iter().map(|t| SEgf::rate(&a, &t.0, t.1, &(), t.2).0.rating).collect();
    let sum: f64 = one.iter().map(|r| r - a.rating).sum();
    if one.iter().any(|r| *r <= -900.0) || a.rating + sum <= -900.0 {
        m.skip("floor");
        return;
    }
    let p = SEgf::period(&a, &l, &()).rating;
    m.check("points", mix(a.rating.to_bits() ^ n as u64), near(p - a.rating, sum, 1e-9 * (a.rating.abs() + 100.0 * n as f64)), || format!("egf: {n} games together change {a:?} by {:?}, one by one by {sum:?}: {:?}", p - a.rating, &l[..n.min(400)]));
}
/// A Weng-Lin game of many teams is the sum of its pairings.
fn pairings(g: &mut G, m: &mut Mon) {
    let mt = gen_multi::<SWl>(g, 10, false);
    pairings_of(m, mt);
}
fn pairings_crowd(g: &mut G, m: &mut Mon) {
    let mt = crate::pg::gen_crowd::<SWl>(g, 120, 300);
    pairings_of(m, mt);
}
fn pairings_of(m: &mut Mon, mt: Multi<SWl>) {
    let n = mt.t.len();
    let all = SWl::multi(&mt.t, &mt.ranks, &mt.c);
    let k = key_t::<SWl>(&mt.t, &mt.ranks);
    for i in 0..n {
        let mut gain = vec![0.0; mt.t[i].len()];
        let mut loss = vec![0.0; mt.t[i].len()];
        let mut floor = false;
        for j in 0..n {
            if j == i {
                continue;
            }
            let o = match mt.ranks[i].cmp(&mt.ranks[j]) {
                std::cmp::Ordering::Less => O::WIN,
                std::cmp::Ordering::Equal => O::DRAW,
                std::cmp::Ordering::Greater => O::LOSS,
            };
            let (x, _) = SWl::two(&mt.t[i], &mt.t[j], o, &mt.c);
            for (q, p) in mt.t[i].iter().enumerate() {
                gain[q] += x[q].rating - p.rating;
                let l = 1.0 - (x[q].uncertainty / p.uncertainty).powi(2);
                loss[q] += l;
                floor |= l >= 1.0 - mt.c.uncertainty_tolerance.max(1e-9) * 1.000_001;
            }
        }
        for (q, p) in mt.t[i].iter().enumerate() {
            let (Some(r), size) = (all.get(i).and_then(|x| x.get(q)), n as f64) else {
                m.check("shape", k, false, || format!("weng_lin: no result for player {q} of team {i}: {}", show_t::<SWl>(&mt.t, &mt.ranks, &mt.c)));
                return;
            };
            let d = r.rating - p.rating;
            m.check("pairings", mix(k ^ (i * 64 + q) as u64), near(d, gain[q], 1e-9 * size * (p.rating.abs() + gain[q].abs() + 10.0)), || {
                format!("weng_lin: player {q} of team {i} gains {d:?}, the pairings add up to {:?}: {}", gain[q], show_t::<SWl>(&mt.t, &mt.ranks, &mt.c))
            });
            let l = 1.0 - (r.uncertainty / p.uncertainty).powi(2);
            if !floor && l < 1.0 - mt.c.uncertainty_tolerance.max(1e-9) * 1.000_001 && loss[q] < 1.0 - mt.c.uncertainty_tolerance.max(1e-9) * 1.000_001 {
                m.check("pairings-uncertainty", mix(k ^ (i * 64 + q) as u64), near(l, loss[q], 1e-9 * size), || {
                    format!("weng_lin: player {q} of team {i} loses {l:?} of the variance, in the pairings {:?}: {}", loss[q], show_t::<SWl>(&mt.t, &mt.ranks, &mt.c))
                });
            }
        }
    }
}
/// Opponents matter through their team's total rating and variance only.
fn totals<S: Tm>(g: &mut G, m: &mut Mon) {
    let c = S::gen_c(g);
    let (a, b) = gen_pair::<S>(g);
    if b.len() < 2 {
        m.skip("one opponent");
        return;
    }
    // the same total, differently distributed
    let mut b2 = b.clone();
    let (i, j) = (0, 1 + g.r.below(b.len() - 1));
    let d = offset(g, 5.0);
    let (p, q) = (S::comps(&b[i]), S::comps(&b[j]));
    let s = p[1].hypot(q[1]);
    let u = s * g.r.range(0.05, 0.99);
    b2[i] = S::mk(p[0] + d, u);
    b2[j] = S::mk(q[0] - d, (s * s - u * u).sqrt());
    let k = mix(key_t::<S>(&[a.clone(), b.clone()], &[]) ^ d.to_bits());
    let (e, f) = (S::exp2(&a, &b, &c).0, S::exp2(&a, &b2, &c).0);
    m.check("expected", k, near(e, f, S::etol()), || format!("{}: {a:?} expects {e:?} against {b:?}, {f:?} against {b2:?} {c:?}", S::NAME));
    for o in OUTS {
        let (Some((r1, _)), Some((r2, _))) = (S::ref_two(&a, &b, o, &c), S::ref_two(&a, &b2, o, &c)) else {
            m.skip("deep tail");
            continue;
        };
        let (x, y) = (S::two(&a, &b, o, &c).0, S::two(&a, &b2, o, &c).0);
        let extra = 1e-9 * d.abs();
        let ok = x.len() == y.len() && (0..x.len()).all(|z| close::<S>(&x[z], &y[z], &[width(r1[z][0]) + width(r2[z][0]) + extra, width(r1[z][1]) + width(r2[z][1]) + extra, 0.0]));
        m.check("totals", mix(k ^ pts(o).to_bits()), ok, || format!("{}: {a:?} {o:?} gives {x:?} against {b:?}, {y:?} against {b2:?} {c:?}", S::NAME));
    }
}
pub fn m36() -> Vec<Monitor> {
    vec![
        mon("c36/glicko", 4_000, info::<SGlicko>),
        mon("c36/sticko", 4_000, info::<SSticko>),
        mon("c36/egf", 6_000, egf_sum),
        mon("c36/weng_lin_pairings", 4_000, pairings),
        mon("c36/weng_lin_totals", 8_000, totals::<SWl>),
        mon("c36/trueskill_totals", 8_000, totals::<STs>),
        mon("c36/vast_glicko", 1, info_vast::<SGlicko>),
        mon("c36/vast_sticko", 1, info_vast::<SSticko>),
        mon("c36/vast_egf", 1, egf_sum_vast),
        mon("c36/crowd", 2, pairings_crowd),
    ]
}
