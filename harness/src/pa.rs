//! Monitors of the relational properties C01 - C08.
use crate::eng::{mix, mon, Mon, Monitor, G};
use crate::gen::nudge;
use crate::sys::*;
use crate::team::*;
use skillratings::Outcomes;

/// One monitor per system for a generic case function.
macro_rules! all12 {
    ($v:ident, $pre:literal, $n:expr, $f:ident) => {
        $v.push(mon(concat!($pre, "/elo"), $n, $f::<SElo>));
        $v.push(mon(concat!($pre, "/fifa"), $n, $f::<SFifa>));
        $v.push(mon(concat!($pre, "/glicko"), $n, $f::<SGlicko>));
        $v.push(mon(concat!($pre, "/glicko2"), $n, $f::<SGlicko2>));
        $v.push(mon(concat!($pre, "/glicko_boost"), $n, $f::<SBoost>));
        $v.push(mon(concat!($pre, "/sticko"), $n, $f::<SSticko>));
        $v.push(mon(concat!($pre, "/dwz"), $n, $f::<SDwz>));
        $v.push(mon(concat!($pre, "/ingo"), $n, $f::<SIngo>));
        $v.push(mon(concat!($pre, "/uscf"), $n, $f::<SUscf>));
        $v.push(mon(concat!($pre, "/egf"), $n, $f::<SEgf>));
        $v.push(mon(concat!($pre, "/weng_lin"), $n, $f::<SWl>));
        $v.push(mon(concat!($pre, "/trueskill"), $n, $f::<STs>));
    };
}
pub(crate) use all12;

/// Two players, settings; inside the domain of the system.
pub fn pair<S: Sys>(g: &mut G) -> (S::R, S::R, S::C, S::X) {
    let c = S::gen_c(g);
    loop {
        let a = S::gen_r(g);
        let mut b = if g.r.chance(0.06) { a } else { S::gen_r(g) };
        if g.r.chance(0.12) {
            b = S::with_rating(&b, S::comps(&a)[0]);
        }
        if g.r.chance(0.05) {
            if let Some(d) = S::edge(g, &c, 2) {
                b = S::with_rating(&b, S::comps(&a)[0] + d);
            }
        }
        let x = S::gen_x(g);
        if S::ok(&a, &b, &c, x) && S::ok(&b, &a, &c, x) {
            return (a, b, c, x);
        }
    }
}
pub fn close<S: Sys>(p: &S::R, q: &S::R, tol: &[f64; 3]) -> bool {
    let (p, q) = (S::comps(p), S::comps(q));
    (0..S::NC).all(|i| near(p[i], q[i], tol[i]))
}
fn listlen<S: Sys>(g: &mut G) -> usize {
    let max = if g.thorough { 3000 } else { 600 };
    g.len(max)
}

// ------------------------------------------------------------------ C01
fn prob(x: f64) -> bool {
    (0.0..=1.0 + 1e-12).contains(&x)
}
fn c01<S: Sys>(g: &mut G, m: &mut Mon) {
    let (a, b, c, x) = pair::<S>(g);
    let k = key2::<S>(&a, &b, O::DRAW);
    let (e, f) = S::exp(&a, &b, &c, x);
    m.check("range", k, prob(e) && prob(f), || format!("{} expected_score({a:?}, {b:?}, {c:?}, {x:?}) = ({e:?}, {f:?}) outside [0,1]", S::NAME));
    m.check("sum", k, near(e + f, 1.0, S::etol()), || format!("{} expected_score({a:?}, {b:?}, {c:?}, {x:?}) = ({e:?}, {f:?}) does not add up to 1", S::NAME));
    if S::neutral(&c, x) {
        let b2 = S::with_rating(&b, S::comps(&a)[0]);
        if S::ok(&a, &b2, &c, x) {
            let (e, f) = S::exp(&a, &b2, &c, x);
            m.check("equal", k, near(e, 0.5, S::etol()) && near(f, 0.5, S::etol()), || format!("{}: equally rated {a:?}, {b2:?}, {c:?} get ({e:?}, {f:?})", S::NAME));
        }
    }
    if g.r.chance(0.35) {
        let n = listlen::<S>(g);
        let l: Vec<(S::R, S::X)> = S::gen_list(g, &a, &c, n).into_iter().map(|t| (t.0, t.2)).collect();
        let v = S::exp_period(&a, &l, &c);
        m.check("list-length", k ^ n as u64, v.len() == l.len(), || format!("{}: {} opponents, {} expected scores", S::NAME, l.len(), v.len()));
        for (i, (e, o)) in v.iter().zip(&l).enumerate() {
            m.check("list-range", mix(k ^ i as u64), prob(*e), || format!("{}: {a:?} against {o:?} ({c:?}) = {e:?}", S::NAME));
            if i < 40 || i + 3 > l.len() {
                let one = S::exp_period(&a, &l[i..=i], &c);
                m.check("list-order", mix(k ^ i as u64), one.len() == 1 && near(one[0], *e, S::etol()), || {
                    format!("{}: opponent {i} of {} ({o:?}) gets {e:?} in the list but {one:?} alone; player {a:?} {c:?}", S::NAME, l.len())
                });
            }
        }
    }
}
fn c01_teams<S: Tm>(g: &mut G, m: &mut Mon) {
    let c = S::gen_c(g);
    let (a, b) = gen_pair::<S>(g);
    let t = [a, b];
    let k = key_t::<S>(&t, &[]);
    let tol = S::etol();
    let (e, f) = S::exp2(&t[0], &t[1], &c);
    m.check("team-range", k, prob(e) && prob(f), || format!("{} two teams ({e:?}, {f:?}): {}", S::NAME, show_t::<S>(&t, &[], &c)));
    m.check("team-sum", k, near(e + f, 1.0, tol), || format!("{} two teams ({e:?}, {f:?}): {}", S::NAME, show_t::<S>(&t, &[], &c)));
    let (e, f) = S::exp2(&t[0], &t[0].clone(), &c);
    m.check("team-equal", k, near(e, 0.5, tol) && near(f, 0.5, tol), || format!("{} identical teams get ({e:?}, {f:?}): {:?} {c:?}", S::NAME, t[0]));
    let mt = gen_multi::<S>(g, 40, false);
    let k = key_t::<S>(&mt.t, &[]);
    let v = S::expm(&mt.t, &mt.c);
    m.check("multi-shape", k, v.len() == mt.t.len(), || format!("{} {} values for {}", S::NAME, v.len(), show_t::<S>(&mt.t, &[], &mt.c)));
    m.check("multi-range", k, v.iter().all(|x| prob(*x)), || format!("{} {v:?} for {}", S::NAME, show_t::<S>(&mt.t, &[], &mt.c)));
    let s: f64 = v.iter().sum();
    m.check("multi-sum", k, near(s, 1.0, tol), || format!("{} {v:?} sums to {s} for {}", S::NAME, show_t::<S>(&mt.t, &[], &mt.c)));
    let n = n_teams(g, 40);
    let same: Vec<Vec<S::R>> = vec![mt.t[0].clone(); n];
    let v = S::expm(&same, &mt.c);
    m.check("multi-equal", mix(k ^ n as u64), v.len() == n && v.iter().all(|x| near(*x, 1.0 / n as f64, tol)), || {
        format!("{}: {n} identical teams {:?} {:?} get {v:?}", S::NAME, mt.t[0], mt.c)
    });
}
pub fn m01() -> Vec<Monitor> {
    let mut v = Vec::new();
    all12!(v, "c01", 12_000, c01);
    v.push(mon("c01/weng_lin_teams", 12_000, c01_teams::<SWl>));
    v.push(mon("c01/trueskill_teams", 12_000, c01_teams::<STs>));
    v
}

// ------------------------------------------------------------------ C02
fn step<S: Sys>(g: &mut G, base: f64) -> f64 {
    match g.r.below(6) {
        0 => (nudge(base, true) - base).max(0.0),
        1 => 10f64.powf(g.r.range(-9.0, 0.0)) * S::SCALE,
        2 => g.r.range(0.0, 20.0) * S::SCALE,
        3 => {
            let v = S::comps(&S::gen_r(g))[0];
            (v - base).abs()
        }
        _ => g.r.range(0.0, 1.5) * S::SCALE,
    }
}
fn mono(e0: f64, e1: f64, slack: f64, strict: bool) -> bool {
    e1 >= e0 - slack && (!strict || e1 > e0)
}
fn mid(e: f64) -> bool {
    e > 0.03 && e < 0.97
}
/// TrueSkill's error function is a rational approximation with a relative error of 1.2e-7.
fn mono_slack<S: Sys>() -> f64 {
    if S::NAME == "trueskill" {
        2e-7
    } else {
        1e-12
    }
}
fn strict_step<S: Sys>() -> f64 {
    S::SCALE * if S::NAME == "trueskill" { 2e-3 } else { 1e-4 }
}
fn c02<S: Sys>(g: &mut G, m: &mut Mon) {
    let (a, b, c, x) = pair::<S>(g);
    let d = step::<S>(g, S::comps(&a)[0]);
    let k = mix(key2::<S>(&a, &b, O::DRAW) ^ d.to_bits());
    let slack = mono_slack::<S>();
    let (e0, f0) = S::exp(&a, &b, &c, x);
    let strict = mid(e0) && d >= strict_step::<S>();
    let a2 = S::stronger(&a, d);
    if S::ok(&a2, &b, &c, x) {
        let (e1, f1) = S::exp(&a2, &b, &c, x);
        m.check("stronger-one", k, mono(e0, e1, slack, strict) && mono(-f0, -f1, slack, strict), || {
            format!("{}: {a:?} -> {a2:?} against {b:?} {c:?} {x:?}: expected ({e0:?}, {f0:?}) -> ({e1:?}, {f1:?})", S::NAME)
        });
        let pe = S::exp_period(&a, &[(b, x)], &c);
        let pf = S::exp_period(&a2, &[(b, x)], &c);
        m.check("stronger-list", k, pe.len() == 1 && pf.len() == 1 && mono(pe[0], pf[0], slack, strict && mid(pe[0])), || {
            format!("{}: list expectation of {a:?} -> {a2:?} against {b:?} {c:?} {x:?}: {pe:?} -> {pf:?}", S::NAME)
        });
    }
    let b2 = S::stronger(&b, d);
    if S::ok(&a, &b2, &c, x) {
        let (e1, f1) = S::exp(&a, &b2, &c, x);
        m.check("stronger-two", k, mono(-e0, -e1, slack, strict) && mono(f0, f1, slack, strict), || {
            format!("{}: opponent {b:?} -> {b2:?} of {a:?} {c:?} {x:?}: expected ({e0:?}, {f0:?}) -> ({e1:?}, {f1:?})", S::NAME)
        });
        let pe = S::exp_period(&a, &[(b, x)], &c);
        let pf = S::exp_period(&a, &[(b2, x)], &c);
        m.check("stronger-list-opponent", k, pe.len() == 1 && pf.len() == 1 && mono(-pe[0], -pf[0], slack, strict && mid(pe[0])), || {
            format!("{}: list expectation of {a:?} against {b:?} -> {b2:?} {c:?} {x:?}: {pe:?} -> {pf:?}", S::NAME)
        });
    }
    if S::UNC && S::neutral(&c, x) {
        let one = g.r.chance(0.5);
        let r = if one { &a } else { &b };
        let u = S::comps(r)[1];
        let u2 = u * (1.0 + 10f64.powf(g.r.range(-6.0, 1.0)));
        let r2 = S::with_unc(r, u2);
        let (e1, f1) = if one { S::exp(&r2, &b, &c, x) } else { S::exp(&a, &r2, &c, x) };
        m.check("uncertain", mix(k ^ u2.to_bits()), (e1 - 0.5).abs() <= (e0 - 0.5).abs() + slack && (f1 - 0.5).abs() <= (f0 - 0.5).abs() + slack, || {
            format!("{}: more uncertainty {u} -> {u2} (player {}), {a:?} {b:?} {c:?}: ({e0:?},{f0:?}) -> ({e1:?},{f1:?})", S::NAME, if one { 1 } else { 2 })
        });
    }
}
fn c02_teams<S: Tm>(g: &mut G, m: &mut Mon) {
    let slack = mono_slack::<S>();
    let c = S::gen_c(g);
    let (a, b) = gen_pair::<S>(g);
    let i = g.r.below(a.len());
    let d = step::<S>(g, S::comps(&a[i])[0]);
    let k = mix(key_t::<S>(&[a.clone(), b.clone()], &[]) ^ d.to_bits());
    let (e0, f0) = S::exp2(&a, &b, &c);
    let strict = mid(e0) && d >= strict_step::<S>();
    let mut a2 = a.clone();
    a2[i] = S::stronger(&a2[i], d);
    let (e1, f1) = S::exp2(&a2, &b, &c);
    m.check("team-one", k, mono(e0, e1, slack, strict) && mono(-f0, -f1, slack, strict), || {
        format!("{}: player {i} of team one stronger by {d}: ({e0:?},{f0:?}) -> ({e1:?},{f1:?}); {a:?} vs {b:?} {c:?}", S::NAME)
    });
    let (f0, e0) = S::exp2(&b, &a, &c);
    let (f1, e1) = S::exp2(&b, &a2, &c);
    m.check("team-two", k, mono(e0, e1, slack, strict) && mono(-f0, -f1, slack, strict), || {
        format!("{}: player {i} of team two stronger by {d}: ({f0:?},{e0:?}) -> ({f1:?},{e1:?}); {b:?} vs {a:?} {c:?}", S::NAME)
    });
    let u = S::comps(&a[i])[1];
    let mut a3 = a.clone();
    a3[i] = S::with_unc(&a[i], u * (1.0 + 10f64.powf(g.r.range(-6.0, 1.0))));
    let (e0, f0) = S::exp2(&a, &b, &c);
    let (e1, f1) = S::exp2(&a3, &b, &c);
    m.check("team-uncertain", k, (e1 - 0.5).abs() <= (e0 - 0.5).abs() + slack && (f1 - 0.5).abs() <= (f0 - 0.5).abs() + slack, || {
        format!("{}: more uncertainty of player {i}: ({e0:?},{f0:?}) -> ({e1:?},{f1:?}); {a:?} -> {a3:?} vs {b:?} {c:?}", S::NAME)
    });
    let mt = gen_multi::<S>(g, 20, false);
    let ti = g.r.below(mt.t.len());
    let pi = g.r.below(mt.t[ti].len());
    let e0 = S::expm(&mt.t, &mt.c);
    let mut t2 = mt.t.clone();
    t2[ti][pi] = S::stronger(&t2[ti][pi], d);
    let e1 = S::expm(&t2, &mt.c);
    let k = key_t::<S>(&t2, &[]);
    let (r0, r1) = (S::ref_expm(&mt.t, &mt.c), S::ref_expm(&t2, &mt.c));
    let strict = r1[ti] - r0[ti] > 1e-5;
    let ok = e0.len() == e1.len() && (0..e0.len()).all(|j| if j == ti { mono(e0[j], e1[j], slack, strict) } else { mono(-e0[j], -e1[j], slack, false) });
    m.check("multi", k, ok, || format!("{}: player {pi} of team {ti} stronger by {d}: {e0:?} -> {e1:?}; {}", S::NAME, show_t::<S>(&mt.t, &[], &mt.c)));
}
pub fn m02() -> Vec<Monitor> {
    let mut v = Vec::new();
    all12!(v, "c02", 15_000, c02);
    v.push(mon("c02/weng_lin_teams", 12_000, c02_teams::<SWl>));
    v.push(mon("c02/trueskill_teams", 12_000, c02_teams::<STs>));
    v
}

// ------------------------------------------------------------------ C03
fn c03<S: Sys>(g: &mut G, m: &mut Mon) {
    let (a, b, c, x) = pair::<S>(g);
    let (mc, mx) = S::mirror(&c, x);
    if !S::ok(&b, &a, &mc, mx) {
        m.skip("domain");
        return;
    }
    let (e, f) = S::exp(&a, &b, &c, x);
    let (f2, e2) = S::exp(&b, &a, &mc, mx);
    let k0 = key2::<S>(&a, &b, O::DRAW);
    m.check("expected", k0, near(e, e2, S::etol()) && near(f, f2, S::etol()), || {
        format!("{}: expected_score({a:?}, {b:?}) {c:?} {x:?} = ({e:?}, {f:?}), swapped = ({f2:?}, {e2:?})", S::NAME)
    });
    for o in crate::gen::OUTS {
        let k = key2::<S>(&a, &b, o);
        let (p, q) = S::rate(&a, &b, o, &c, x);
        let (q2, p2) = S::rate(&b, &a, inv(o), &mc, mx);
        let t1 = S::rtol(&a, &[(b, o, x)], &c);
        let t2 = S::rtol(&b, &[(a, inv(o), mx)], &mc);
        m.check("game", k, close::<S>(&p, &p2, &t1) && close::<S>(&q, &q2, &t2), || {
            format!("{}: {a:?} {o:?} {b:?} {c:?} {x:?} gives ({p:?}, {q:?}), swapped and inverted gives ({p2:?}, {q2:?})", S::NAME)
        });
    }
}
fn c03_teams<S: Tm>(g: &mut G, m: &mut Mon) {
    let c = S::gen_c(g);
    let (a, b) = gen_pair::<S>(g);
    let t = [a.clone(), b.clone()];
    let k = key_t::<S>(&t, &[]);
    let (e, f) = S::exp2(&a, &b, &c);
    let (f2, e2) = S::exp2(&b, &a, &c);
    m.check("team-expected", k, near(e, e2, S::etol()) && near(f, f2, S::etol()), || format!("{}: ({e:?},{f:?}) vs swapped ({f2:?},{e2:?}): {}", S::NAME, show_t::<S>(&t, &[], &c)));
    for o in crate::gen::OUTS {
        let (p, q) = S::two(&a, &b, o, &c);
        let (q2, p2) = S::two(&b, &a, inv(o), &c);
        let Some((rp, rq)) = S::ref_two(&a, &b, o, &c) else {
            m.skip("deep tail");
            continue;
        };
        let ok = |x: &[S::R], y: &[S::R], r: &[[Iv; 2]]| {
            x.len() == y.len() && x.len() == r.len() && (0..x.len()).all(|i| close::<S>(&x[i], &y[i], &[width(r[i][0]), width(r[i][1]), 0.0]))
        };
        m.check("team-game", mix(k ^ pts(o).to_bits()), ok(&p, &p2, &rp) && ok(&q, &q2, &rq), || {
            format!("{}: {o:?} gives {p:?} / {q:?}, swapped and inverted gives {p2:?} / {q2:?}: {}", S::NAME, show_t::<S>(&t, &[], &c))
        });
    }
}
fn c03_quality(g: &mut G, m: &mut Mon) {
    use skillratings::trueskill::{match_quality, match_quality_rating_period, match_quality_two_teams};
    let c = ts_cfg(g);
    let (a, b) = gen_pair::<STs>(g);
    let t = [a.clone(), b.clone()];
    let k = key_t::<STs>(&t, &[]);
    let (p, q) = (match_quality_two_teams(&a, &b, &c), match_quality_two_teams(&b, &a, &c));
    m.check("quality-two", k, near(p, q, 1e-9), || format!("match_quality_two_teams {p:?} swapped {q:?}: {}", show_t::<STs>(&t, &[], &c)));
    let (p, q) = (match_quality(&a[0], &b[0], &c), match_quality(&b[0], &a[0], &c));
    m.check("quality", k, near(p, q, 1e-9), || format!("match_quality {p:?} swapped {q:?}: {:?} {:?} {c:?}", a[0], b[0]));
    let (p, q) = (match_quality_rating_period(&a[0], &b[..1], &c), match_quality_rating_period(&b[0], &a[..1], &c));
    m.check("quality-list", k, p.len() == 1 && q.len() == 1 && near(p[0], q[0], 1e-9), || format!("match_quality_rating_period {p:?} swapped {q:?}: {:?} {:?} {c:?}", a[0], b[0]));
    let (p, q) = (ts_quality(&[a.clone(), b.clone()], &c, None), ts_quality(&[b.clone(), a.clone()], &c, None));
    m.check("quality-multi", k, matches!((&p, &q), (Ok(p), Ok(q)) if near(*p, *q, 1e-9)), || format!("match_quality_multi_team {p:?} swapped {q:?}: {}", show_t::<STs>(&t, &[], &c)));
}
pub fn m03() -> Vec<Monitor> {
    let mut v = Vec::new();
    all12!(v, "c03", 10_000, c03);
    v.push(mon("c03/weng_lin_teams", 8_000, c03_teams::<SWl>));
    v.push(mon("c03/trueskill_teams", 8_000, c03_teams::<STs>));
    v.push(mon("c03/trueskill_quality", 8_000, c03_quality));
    v
}

// ------------------------------------------------------------------ C04
/// what the comparison of outcomes is claimed for
trait Cmp4: Sys {
    /// any game of a period (otherwise only the last)
    const ANY: bool;
    fn comparable(_c: &Self::C) -> bool {
        true
    }
    fn win_up(_a: &Self::R, _c: &Self::C, _x: Self::X) -> bool {
        true
    }
    fn loss_down(a: &Self::R, c: &Self::C, x: Self::X) -> bool {
        Self::win_up(a, c, x)
    }
}
impl Cmp4 for SElo {
    const ANY: bool = true;
}
impl Cmp4 for SFifa {
    const ANY: bool = true;
    fn win_up(_: &Self::R, _: &(), x: Self::X) -> bool {
        !x.penalties
    }
}
impl Cmp4 for SGlicko {
    const ANY: bool = true;
}
impl Cmp4 for SGlicko2 {
    const ANY: bool = true;
}
impl Cmp4 for SBoost {
    const ANY: bool = true;
    fn comparable(c: &Self::C) -> bool {
        c.k == 0.0
    }
}
impl Cmp4 for SSticko {
    const ANY: bool = true;
    fn win_up(_: &Self::R, c: &Self::C, _: bool) -> bool {
        c.lambda == 0.0 && c.beta == 0.0
    }
}
impl Cmp4 for SDwz {
    const ANY: bool = true;
}
impl Cmp4 for SIngo {
    const ANY: bool = true;
    fn win_up(_: &Self::R, _: &(), _: ()) -> bool {
        false
    }
}
impl Cmp4 for SUscf {
    const ANY: bool = true;
    fn win_up(a: &Self::R, _: &Self::C, _: ()) -> bool {
        a.games > 8
    }
}
impl Cmp4 for SEgf {
    const ANY: bool = true;
    fn loss_down(_: &Self::R, _: &(), _: Self::X) -> bool {
        false
    }
}
impl Cmp4 for SWl {
    const ANY: bool = false;
}
impl Cmp4 for STs {
    const ANY: bool = false;
}
fn c04<S: Cmp4>(g: &mut G, m: &mut Mon) {
    let (a, b, mut c, x) = pair::<S>(g);
    for _ in 0..4 {
        if S::comparable(&c) {
            break;
        }
        c = S::gen_c(g);
    }
    let sg = |r: &S::R| S::skill(r);
    let mut prev: Option<(Outcomes, S::R, S::R)> = None;
    for o in [O::LOSS, O::DRAW, O::WIN] {
        let k = key2::<S>(&a, &b, o);
        let (p, q) = S::rate(&a, &b, o, &c, x);
        let t1 = S::rtol(&a, &[(b, o, x)], &c)[0];
        let t2 = S::rtol(&b, &[(a, inv(o), x)], &c)[0];
        if o != O::DRAW {
            let up = o == O::WIN;
            let one = if up { S::win_up(&a, &c, x) } else { S::loss_down(&a, &c, x) };
            if one && t1.is_finite() {
                let d = if up { sg(&p) - sg(&a) } else { sg(&a) - sg(&p) };
                m.check("direction-one", k, d >= -t1, || format!("{}: player one {a:?} {o:?} against {b:?} {c:?} {x:?} gives {p:?}", S::NAME));
            }
            let two = if up { S::loss_down(&b, &c, x) } else { S::win_up(&b, &c, x) };
            if two && t2.is_finite() {
                let d = if up { sg(&b) - sg(&q) } else { sg(&q) - sg(&b) };
                m.check("direction-two", k, d >= -t2, || format!("{}: player two {b:?}, after player one {a:?} {o:?} {c:?} {x:?}, gives {q:?}", S::NAME));
            }
        }
        if let Some((o0, p0, q0)) = prev {
            if S::comparable(&c) && t1.is_finite() && t2.is_finite() {
                m.check("outcome-one", k, sg(&p) >= sg(&p0) - t1, || format!("{}: {a:?} vs {b:?} {c:?} {x:?}: {o0:?} gives {p0:?}, {o:?} gives {p:?}", S::NAME));
                m.check("outcome-two", k, sg(&q) <= sg(&q0) + t2, || format!("{}: second player {b:?} vs {a:?} {c:?} {x:?}: {o0:?} gives {q0:?}, {o:?} gives {q:?}", S::NAME));
            }
        }
        prev = Some((o, p, q));
    }
    if S::comparable(&c) && g.r.chance(0.4) {
        let n = listlen::<S>(g).max(1);
        let mut l = S::gen_list(g, &a, &c, n);
        if l.is_empty() {
            return;
        }
        let i = if S::ANY { g.r.below(l.len()) } else { l.len() - 1 };
        if l[i].1 == O::WIN {
            l[i].1 = if g.r.chance(0.5) { O::DRAW } else { O::LOSS };
        }
        let mut l2 = l.clone();
        l2[i].1 = better(l[i].1).unwrap();
        let (p, q) = (S::period(&a, &l, &c), S::period(&a, &l2, &c));
        let t = S::rtol(&a, &l, &c)[0].max(S::rtol(&a, &l2, &c)[0]);
        if t.is_finite() {
            m.check("period", key_l::<S>(&a, &l), sg(&q) >= sg(&p) - t, || {
                format!("{}: {a:?} {c:?}, game {i} of {} improved from {:?} to {:?}: {p:?} -> {q:?}; {}", S::NAME, l.len(), l[i].1, l2[i].1, show_l::<S>(&l))
            });
        } else {
            m.skip("deep tail");
        }
    }
}
fn c04_teams<S: Tm>(g: &mut G, m: &mut Mon) {
    let c = S::gen_c(g);
    let (a, b) = gen_pair::<S>(g);
    let t = [a.clone(), b.clone()];
    let k = key_t::<S>(&t, &[]);
    let mut prev: Option<(Vec<S::R>, Vec<S::R>)> = None;
    for o in [O::LOSS, O::DRAW, O::WIN] {
        let Some((ra, rb)) = S::ref_two(&a, &b, o, &c) else {
            m.skip("deep tail");
            prev = None;
            continue;
        };
        let (p, q) = S::two(&a, &b, o, &c);
        let k = mix(k ^ pts(o).to_bits());
        let shape = p.len() == a.len() && q.len() == b.len();
        m.check("team-shape", k, shape, || format!("{}: sizes {} {} for {}", S::NAME, p.len(), q.len(), show_t::<S>(&t, &[], &c)));
        if !shape {
            return;
        }
        let sk = |r: &S::R| S::skill(r);
        if o != O::DRAW {
            let s = if o == O::WIN { 1.0 } else { -1.0 };
            let ok = (0..a.len()).all(|i| s * (sk(&p[i]) - sk(&a[i])) >= -width(ra[i][0])) && (0..b.len()).all(|i| s * (sk(&b[i]) - sk(&q[i])) >= -width(rb[i][0]));
            m.check("team-direction", k, ok, || format!("{} two teams, {o:?}: {p:?} / {q:?} from {}", S::NAME, show_t::<S>(&t, &[], &c)));
        }
        if let Some((p0, q0)) = &prev {
            let ok = (0..a.len()).all(|i| sk(&p[i]) >= sk(&p0[i]) - width(ra[i][0])) && (0..b.len()).all(|i| sk(&q[i]) <= sk(&q0[i]) + width(rb[i][0]));
            m.check("team-outcome", k, ok, || format!("{} two teams: better result {o:?} {p:?} / {q:?}, before {p0:?} / {q0:?} from {}", S::NAME, show_t::<S>(&t, &[], &c)));
        }
        prev = Some((p, q));
    }
    let mt = gen_multi::<S>(g, 24, false);
    let Some(rf) = S::ref_multi(&mt.t, &mt.ranks, &mt.c) else {
        m.skip("deep tail");
        return;
    };
    let k = key_t::<S>(&mt.t, &mt.ranks);
    let v = S::multi(&mt.t, &mt.ranks, &mt.c);
    let shape = v.len() == mt.t.len() && v.iter().zip(&mt.t).all(|(x, y)| x.len() == y.len());
    m.check("multi-shape", k, shape, || format!("{}: {}", S::NAME, show_t::<S>(&mt.t, &mt.ranks, &mt.c)));
    if !shape {
        return;
    }
    let (lo, hi) = (*mt.ranks.iter().min().unwrap(), *mt.ranks.iter().max().unwrap());
    for (end, sign) in [(lo, 1.0), (hi, -1.0)] {
        if mt.ranks.iter().filter(|r| **r == end).count() != 1 || lo == hi {
            continue;
        }
        let i = mt.ranks.iter().position(|r| *r == end).unwrap();
        let ok = (0..v[i].len()).all(|j| sign * (S::skill(&v[i][j]) - S::skill(&mt.t[i][j])) >= -width(rf[i][j][0]));
        m.check("multi-direction", k ^ i as u64, ok, || {
            format!("{}: team {i} alone on rank {end} ({}) goes {:?} -> {:?}; {}", S::NAME, if sign > 0.0 { "first" } else { "last" }, mt.t[i], v[i], show_t::<S>(&mt.t, &mt.ranks, &mt.c))
        });
    }
}
/// Weng-Lin: a better placement never means a worse rating
fn c04_wl_rank(g: &mut G, m: &mut Mon) {
    let mt = gen_multi::<SWl>(g, 30, false);
    let i = g.r.below(mt.t.len());
    let mut u = mt.ranks.clone();
    u.sort_unstable();
    u.dedup();
    let mut r2 = mt.ranks.clone();
    r2[i] = match g.r.below(3) {
        0 => u[0],
        1 => u[0].saturating_sub(1),
        _ => {
            let w = u.binary_search(&mt.ranks[i]).unwrap();
            u[g.r.below(w + 1)]
        }
    };
    let (v, w) = (SWl::multi(&mt.t, &mt.ranks, &mt.c), SWl::multi(&mt.t, &r2, &mt.c));
    let ok = v.len() > i && w.len() > i && v[i].iter().zip(&w[i]).all(|(p, q)| q.rating >= p.rating - 1e-9 * (p.rating.abs() + 10.0));
    m.check("multi-placement", key_t::<SWl>(&mt.t, &r2), ok, || {
        format!("weng_lin: team {i} placed {} instead of {}: {:?} -> {:?}; {}", r2[i], mt.ranks[i], v.get(i), w.get(i), show_t::<SWl>(&mt.t, &mt.ranks, &mt.c))
    });
}
pub fn m04() -> Vec<Monitor> {
    let mut v = Vec::new();
    all12!(v, "c04", 8_000, c04);
    v.push(mon("c04/weng_lin_teams", 8_000, c04_teams::<SWl>));
    v.push(mon("c04/trueskill_teams", 5_000, c04_teams::<STs>));
    v.push(mon("c04/weng_lin_rank", 8_000, c04_wl_rank));
    v
}

// ------------------------------------------------------------------ C05
fn c05_elo(g: &mut G, m: &mut Mon) {
    let (a, b, c, ()) = pair::<SElo>(g);
    for o in crate::gen::OUTS {
        let (p, q) = SElo::rate(&a, &b, o, &c, ());
        let (s0, s1) = (a.rating + b.rating, p.rating + q.rating);
        m.check("elo", key2::<SElo>(&a, &b, o), near(s0, s1, 1e-9 * (a.rating.abs() + b.rating.abs() + 100.0)), || format!("elo sum {s0} -> {s1}: {a:?} {o:?} {b:?} {c:?} = {p:?} {q:?}"));
    }
}
fn c05_fifa(g: &mut G, m: &mut Mon) {
    let (a, b, (), mut x) = pair::<SFifa>(g);
    x.knockout = false;
    for o in crate::gen::OUTS {
        let (p, q) = SFifa::rate(&a, &b, o, &(), x);
        let add = if x.penalties && o != O::DRAW { 0.25 * x.importance } else { 0.0 };
        let (s0, s1) = (a.rating + b.rating + add, p.rating + q.rating);
        m.check(if x.penalties { "fifa-shootout" } else { "fifa" }, key2::<SFifa>(&a, &b, o), near(s0, s1, 1e-9 * (a.rating.abs() + b.rating.abs() + 100.0)), || {
            format!("fifa sum should be {s0}, is {s1}: {a:?} {o:?} {b:?} {x:?} = {p:?} {q:?}")
        });
    }
}
fn c05_ingo(g: &mut G, m: &mut Mon) {
    let (a, mut b, (), ()) = pair::<SIngo>(g);
    for _ in 0..20 {
        if ingo_dev(a.age) == ingo_dev(b.age) {
            break;
        }
        b.age = gen_age(g);
    }
    if ingo_dev(a.age) != ingo_dev(b.age) {
        b.age = a.age;
    }
    for o in crate::gen::OUTS {
        let (p, q) = SIngo::rate(&a, &b, o, &(), ());
        let (s0, s1) = (a.rating + b.rating, p.rating + q.rating);
        m.check("ingo", key2::<SIngo>(&a, &b, o), near(s0, s1, 1e-9 * (a.rating.abs() + b.rating.abs() + 20.0)), || format!("ingo sum {s0} -> {s1}: {a:?} {o:?} {b:?} = {p:?} {q:?}"));
    }
}
/// sum over sides of change / variance is zero; every player of a side has the same quotient
fn c05_teams<S: Tm>(g: &mut G, m: &mut Mon) {
    let c = S::gen_c(g);
    let tau2 = dyn2::<S>(&c);
    let (a, b) = gen_pair::<S>(g);
    let t = vec![a.clone(), b.clone()];
    for o in crate::gen::OUTS {
        let k = mix(key_t::<S>(&t, &[]) ^ pts(o).to_bits());
        let (p, q) = S::rate(&a[0], &b[0], o, &c, ());
        let one = vec![vec![a[0]], vec![b[0]]];
        zero_sum::<S>(m, "game", k, &one, &[vec![p], vec![q]], &c, tau2, false);
        let (p, q) = S::two(&a, &b, o, &c);
        zero_sum::<S>(m, "two-teams", k, &t, &[p, q], &c, tau2, true);
    }
}
fn dyn2<S: Sys>(c: &S::C) -> f64 {
    // only TrueSkill widens the variance before a game
    (c as &dyn std::any::Any).downcast_ref::<skillratings::trueskill::TrueSkillConfig>().map_or(0.0, |c| c.dynamics_factor * c.dynamics_factor)
}
fn zero_sum<S: Tm>(m: &mut Mon, class: &'static str, k: u64, t: &[Vec<S::R>], n: &[Vec<S::R>], c: &S::C, tau2: f64, equal: bool) {
    let shape = t.len() == n.len() && t.iter().zip(n).all(|(x, y)| x.len() == y.len());
    m.check("shape", k, shape, || format!("{}: wrong shape for {}", S::NAME, show_t::<S>(t, &[], c)));
    if !shape {
        return;
    }
    let (mut sum, mut tol, mut spread_ok) = (0.0, 0.0, true);
    for (x, y) in t.iter().zip(n) {
        let (mut s, mut e) = (0.0, 0.0);
        let mut first: Option<(f64, f64)> = None;
        for (p, q) in x.iter().zip(y) {
            let (p, q) = (S::comps(p), S::comps(q));
            let var = p[1] * p[1] + tau2;
            let quo = (q[0] - p[0]) / var;
            let err = 1e-11 * (p[0].abs() + q[0].abs() + 1.0) / var + 1e-9 * quo.abs();
            s += quo;
            e += err;
            if let Some((f, fe)) = first {
                spread_ok &= (f - quo).abs() <= err + fe;
            } else {
                first = Some((quo, err));
            }
        }
        sum += s / x.len() as f64;
        tol += e / x.len() as f64;
    }
    if !sum.is_finite() {
        m.skip("deep tail");
        return;
    }
    m.check(class, k, sum.abs() <= tol, || format!("{}: changes per variance add up to {sum} (tolerance {tol}); {} -> {n:?}", S::NAME, show_t::<S>(t, &[], c)));
    if equal {
        m.check("team-share", k, spread_ok, || format!("{}: team mates' changes are not proportional to their variances; {} -> {n:?}", S::NAME, show_t::<S>(t, &[], c)));
    }
}
fn c05_wl_multi(g: &mut G, m: &mut Mon) {
    let mt = gen_multi::<SWl>(g, 30, false);
    let v = SWl::multi(&mt.t, &mt.ranks, &mt.c);
    zero_sum::<SWl>(m, "multi-team", key_t::<SWl>(&mt.t, &mt.ranks), &mt.t, &v, &mt.c, 0.0, true);
}
/// a whole league keeps the total
fn c05_league(g: &mut G, m: &mut Mon) {
    let n = 2 + g.r.below(12);
    let rounds = 20 + g.r.below(200);
    let fifa = g.r.chance(0.5);
    let kc = SElo::gen_c(g);
    let mut r: Vec<f64> = (0..n).map(|_| SElo::gen_r(g).rating).collect();
    let s0: f64 = r.iter().sum();
    let size: f64 = r.iter().map(|x| x.abs()).sum::<f64>() + 100.0;
    let mut extra = 0.0;
    let mut log = Vec::new();
    for step in 0..rounds {
        let i = g.r.below(n);
        let j = (i + 1 + g.r.below(n - 1)) % n;
        let o = g.out();
        let (p, q) = if fifa {
            let mut x = SFifa::gen_x(g);
            x.knockout = false;
            if x.penalties && o != O::DRAW {
                extra += 0.25 * x.importance;
            }
            let (p, q) = SFifa::rate(&r[i].into(), &r[j].into(), o, &(), x);
            (p.rating, q.rating)
        } else {
            let (p, q) = SElo::rate(&r[i].into(), &r[j].into(), o, &kc, ());
            (p.rating, q.rating)
        };
        r[i] = p;
        r[j] = q;
        log.push((i, j, o));
        let s: f64 = r.iter().sum();
        let grown = size + extra + r.iter().map(|x| x.abs()).sum::<f64>();
        m.check("league", mix(s.to_bits() ^ step as u64), near(s, s0 + extra, 1e-9 * grown), || {
            format!("{} league of {n}: total {s0} (+{extra}) became {s} after {} games, last {:?}", if fifa { "fifa" } else { "elo" }, step + 1, log.last())
        });
    }
}
pub fn m05() -> Vec<Monitor> {
    vec![
        mon("c05/elo", 60_000, c05_elo),
        mon("c05/fifa", 60_000, c05_fifa),
        mon("c05/ingo", 60_000, c05_ingo),
        mon("c05/weng_lin", 20_000, c05_teams::<SWl>),
        mon("c05/trueskill", 20_000, c05_teams::<STs>),
        mon("c05/weng_lin_multi", 20_000, c05_wl_multi),
        mon("c05/league", 2_000, c05_league),
    ]
}

// ------------------------------------------------------------------ C06
pub trait Unc6: Sys {
    /// upper limit of the uncertainty after the games `l`, given the result
    fn upper(a: &Self::R, l: &[(Self::R, O, Self::X)], c: &Self::C, new: &Self::R) -> Option<f64>;
    fn decay(_a: &Self::R, _c: &Self::C) -> Option<Self::R> {
        None
    }
    fn ref_decay(_a: &Self::R, _c: &Self::C) -> [f64; 3] {
        [0.0; 3]
    }
    fn interval(_a: &Self::R) -> Option<(f64, f64)> {
        None
    }
}
impl Unc6 for SGlicko {
    fn upper(a: &Self::R, _: &[(Self::R, O, ())], c: &Self::C, _: &Self::R) -> Option<f64> {
        Some(a.deviation.hypot(c.c).min(350.0))
    }
    fn decay(a: &Self::R, c: &Self::C) -> Option<Self::R> {
        Some(skillratings::glicko::decay_deviation(a, c))
    }
    fn ref_decay(a: &Self::R, c: &Self::C) -> [f64; 3] {
        [a.rating, a.deviation.hypot(c.c).min(350.0), 0.0]
    }
    fn interval(a: &Self::R) -> Option<(f64, f64)> {
        Some(skillratings::glicko::confidence_interval(a))
    }
}
impl Unc6 for SGlicko2 {
    fn upper(a: &Self::R, _: &[(Self::R, O, ())], _: &Self::C, n: &Self::R) -> Option<f64> {
        Some(a.deviation.hypot(S2 * n.volatility))
    }
    fn decay(a: &Self::R, _: &Self::C) -> Option<Self::R> {
        Some(skillratings::glicko2::decay_deviation(a))
    }
    fn ref_decay(a: &Self::R, _: &Self::C) -> [f64; 3] {
        [a.rating, a.deviation.hypot(S2 * a.volatility).min(350.0), a.volatility]
    }
    fn interval(a: &Self::R) -> Option<(f64, f64)> {
        Some(skillratings::glicko2::confidence_interval(a))
    }
}
impl Unc6 for SBoost {
    fn upper(a: &Self::R, l: &[(Self::R, O, bool)], c: &Self::C, _: &Self::R) -> Option<f64> {
        Self::ref_period(a, l, c).map(|r| r[1].0 + r[1].1)
    }
    fn decay(a: &Self::R, c: &Self::C) -> Option<Self::R> {
        Some(skillratings::glicko_boost::decay_deviation(a, c))
    }
    fn ref_decay(a: &Self::R, c: &Self::C) -> [f64; 3] {
        [a.rating, boost_growth(c, a.rating, a.deviation), 0.0]
    }
    fn interval(a: &Self::R) -> Option<(f64, f64)> {
        Some(skillratings::glicko_boost::confidence_interval(a))
    }
}
impl Unc6 for SSticko {
    fn upper(a: &Self::R, l: &[(Self::R, O, bool)], c: &Self::C, _: &Self::R) -> Option<f64> {
        Some(((a.deviation * a.deviation + c.c * c.c).min(350.0 * 350.0) + c.h * l.len() as f64).sqrt().min(350.0))
    }
    fn decay(a: &Self::R, c: &Self::C) -> Option<Self::R> {
        Some(skillratings::sticko::decay_deviation(a, c))
    }
    fn ref_decay(a: &Self::R, c: &Self::C) -> [f64; 3] {
        [a.rating, a.deviation.hypot(c.c).min(350.0), 0.0]
    }
    fn interval(a: &Self::R) -> Option<(f64, f64)> {
        Some(skillratings::sticko::confidence_interval(a))
    }
}
impl Unc6 for SWl {
    fn upper(a: &Self::R, _: &[(Self::R, O, ())], _: &Self::C, _: &Self::R) -> Option<f64> {
        Some(a.uncertainty)
    }
}
impl Unc6 for STs {
    fn upper(a: &Self::R, l: &[(Self::R, O, ())], c: &Self::C, _: &Self::R) -> Option<f64> {
        Self::ref_period(a, l, c)?;
        Some((a.uncertainty.powi(2) + l.len() as f64 * c.dynamics_factor.powi(2)).sqrt())
    }
}
pub const FAMILY350: f64 = 350.0;
fn c06<S: Unc6>(g: &mut G, m: &mut Mon) {
    let (a, b, c, x) = pair::<S>(g);
    let slack = |v: f64| v + 1e-9 * (v.abs() + 1.0);
    for o in crate::gen::OUTS {
        let (p, q) = S::rate(&a, &b, o, &c, x);
        let sides = [(a, p, vec![(b, o, x)]), (b, q, vec![(a, inv(o), other_x::<S>(x))])];
        for (i, (old, new, l)) in sides.iter().enumerate() {
            let u = S::comps(new)[1];
            if let Some(up) = S::upper(old, l, &c, new) {
                m.check("game", key2::<S>(old, &l[0].0, o) ^ i as u64, u.is_finite() && u > 0.0 && u <= slack(up), || {
                    format!("{}: player {} {old:?} after {:?} against {:?} {c:?} {x:?} has {new:?}; uncertainty must be in (0, {up}]", S::NAME, i + 1, l[0].1, l[0].0)
                });
            } else {
                m.skip("deep tail");
            }
        }
    }
    if g.r.chance(0.4) {
        let n = listlen::<S>(g);
        let l = S::gen_list(g, &a, &c, n);
        let p = S::period(&a, &l, &c);
        let u = S::comps(&p)[1];
        if l.is_empty() {
            // covered by empty-is-decay below
        } else if let Some(up) = S::upper(&a, &l, &c, &p) {
            m.check("period", key_l::<S>(&a, &l), u.is_finite() && u > 0.0 && u <= slack(up), || format!("{}: {a:?} {c:?} {} gives {p:?}; uncertainty must be in (0, {up}]", S::NAME, show_l::<S>(&l)));
        }
        if S::NAME == "glicko" && !l.is_empty() {
            let cut = g.r.below(l.len());
            let f = S::period(&a, &l[..cut], &c);
            m.check("more-games", key_l::<S>(&a, &l) ^ cut as u64, u <= slack(S::comps(&f)[1]), || {
                format!("{}: {} games leave {p:?}, the first {cut} of them {f:?}: {a:?} {c:?} {}", S::NAME, l.len(), show_l::<S>(&l))
            });
        }
    }
    if let Some(d) = S::decay(&a, &c) {
        let k = key_r::<S>(&a);
        let r = S::ref_decay(&a, &c);
        let dc = S::comps(&d);
        let ok = dc[0] == r[0] && near(dc[1], r[1], 1e-9 * (r[1] + 1.0)) && dc[2] == r[2] && dc[1] <= FAMILY350 * (1.0 + 1e-12);
        m.check("decay", k, ok, || format!("{}: decay of {a:?} {c:?} is {d:?}, documented {r:?}", S::NAME));
        let e = S::period(&a, &[], &c);
        m.check("empty-is-decay", k, close::<S>(&e, &d, &[0.0, 1e-9 * (r[1] + 1.0), 0.0]), || format!("{}: empty period of {a:?} {c:?} is {e:?}, decay {d:?}", S::NAME));
        // repeated decay
        let n = 1 + g.r.below(30);
        let mut cur = a;
        for i in 0..n {
            let next = S::decay(&cur, &c).unwrap();
            let (u0, u1) = (S::comps(&cur)[1], S::comps(&next)[1]);
            let r = S::ref_decay(&cur, &c);
            let ok = near(u1, r[1], 1e-9 * (r[1] + 1.0)) && (u1 >= u0.min(FAMILY350) * (1.0 - 1e-12)) && u1 <= FAMILY350 * (1.0 + 1e-12) && S::comps(&next)[0] == S::comps(&a)[0] && S::comps(&next)[2] == S::comps(&a)[2];
            m.check("decays", mix(k ^ i as u64), ok, || format!("{}: decay {i} of {a:?} {c:?}: {cur:?} -> {next:?}, documented {r:?}", S::NAME));
            cur = next;
        }
    }
    if let Some((lo, hi)) = S::interval(&a) {
        let k = S::comps(&a);
        let w = 1.96 * k[1];
        let t = 1e-9 * (k[0].abs() + w + 1.0);
        m.check("interval", key_r::<S>(&a), near(lo, k[0] - w, t) && near(hi, k[0] + w, t), || format!("{}: confidence interval of {a:?} is ({lo:?}, {hi:?})", S::NAME));
    }
}
/// the settings of the game as the other player sees it (colours exchanged)
pub fn other_x<S: Sys>(x: S::X) -> S::X {
    let any = &x as &dyn std::any::Any;
    if let Some(b) = any.downcast_ref::<bool>() {
        let f = !*b;
        return *(&f as &dyn std::any::Any).downcast_ref::<S::X>().unwrap();
    }
    if let Some(e) = any.downcast_ref::<skillratings::egf::EGFConfig>() {
        let f = skillratings::egf::EGFConfig { handicap: -e.handicap };
        return *(&f as &dyn std::any::Any).downcast_ref::<S::X>().unwrap();
    }
    x
}
fn c06_teams<S: Tm>(g: &mut G, m: &mut Mon) {
    let c = S::gen_c(g);
    let (a, b) = gen_pair::<S>(g);
    let t = vec![a, b];
    for o in crate::gen::OUTS {
        if S::ref_two(&t[0], &t[1], o, &c).is_none() {
            m.skip("deep tail");
            continue;
        }
        let (p, q) = S::two(&t[0], &t[1], o, &c);
        shrink::<S>(m, "two-teams", &t, &[p, q], &[pts(o) as usize], &c);
    }
    let mt = gen_multi::<S>(g, 24, false);
    if S::ref_multi(&mt.t, &mt.ranks, &mt.c).is_none() {
        m.skip("deep tail");
        return;
    }
    let v = S::multi(&mt.t, &mt.ranks, &mt.c);
    shrink::<S>(m, "multi-team", &mt.t, &v, &mt.ranks, &mt.c);
}
fn shrink<S: Tm>(m: &mut Mon, class: &'static str, t: &[Vec<S::R>], n: &[Vec<S::R>], ranks: &[usize], c: &S::C) {
    let tau2 = dyn2::<S>(c);
    let shape = t.len() == n.len() && t.iter().zip(n).all(|(x, y)| x.len() == y.len());
    let bad = shape
        && t.iter().flatten().zip(n.iter().flatten()).any(|(p, q)| {
            let (u, v) = (S::comps(p)[1], S::comps(q)[1]);
            let up = (u * u + tau2).sqrt();
            !(v.is_finite() && v > 0.0 && v <= up * (1.0 + 1e-9))
        });
    m.check(class, key_t::<S>(t, ranks), shape && !bad, || format!("{}: uncertainties must shrink (dynamics variance {tau2}); {} -> {n:?}", S::NAME, show_t::<S>(t, ranks, c)));
}
pub fn m06() -> Vec<Monitor> {
    vec![
        mon("c06/glicko", 15_000, c06::<SGlicko>),
        mon("c06/glicko2", 12_000, c06::<SGlicko2>),
        mon("c06/glicko_boost", 15_000, c06::<SBoost>),
        mon("c06/sticko", 15_000, c06::<SSticko>),
        mon("c06/weng_lin", 15_000, c06::<SWl>),
        mon("c06/trueskill", 12_000, c06::<STs>),
        mon("c06/weng_lin_teams", 8_000, c06_teams::<SWl>),
        mon("c06/trueskill_teams", 6_000, c06_teams::<STs>),
    ]
}

// ------------------------------------------------------------------ C07
fn c07<S: Sys>(g: &mut G, m: &mut Mon) {
    let (a, b, c, x) = pair::<S>(g);
    let o = g.out();
    let l = [(b, o, x)];
    let k = key2::<S>(&a, &b, o);
    let tol = S::rtol(&a, &l, &c);
    let (p, q) = S::rate(&a, &b, o, &c, x);
    let s = S::period(&a, &l, &c);
    m.check("one-game", k, close::<S>(&p, &s, &tol) || tol[0].is_infinite(), || format!("{}: {a:?} {o:?} {b:?} {c:?} {x:?}: head-to-head {p:?}, as a period {s:?}", S::NAME));
    // the opponent's view, too
    let lx = other_x::<S>(x);
    let l2 = [(a, inv(o), lx)];
    let tol2 = S::rtol(&b, &l2, &c);
    let s2 = S::period(&b, &l2, &c);
    m.check("one-game-opponent", k, close::<S>(&q, &s2, &tol2) || tol2[0].is_infinite(), || {
        format!("{}: {a:?} {o:?} {b:?} {c:?} {x:?}: player two {q:?} head-to-head, as a period {s2:?}", S::NAME)
    });
    if g.r.chance(0.5) {
        let n = listlen::<S>(g);
        let l = S::gen_list(g, &a, &c, n);
        if S::SEQ && !l.is_empty() {
            let whole = S::period(&a, &l, &c);
            let t = S::rtol(&a, &l, &c);
            let cut = g.r.below(l.len() + 1);
            let first = S::period(&a, &l[..cut], &c);
            let both = S::period(&first, &l[cut..], &c);
            if t[0].is_finite() {
                m.check("split", key_l::<S>(&a, &l) ^ cut as u64, close::<S>(&whole, &both, &t), || {
                    format!("{}: period of {} games gives {whole:?}, split after {cut} {both:?}: {a:?} {c:?} {}", S::NAME, l.len(), show_l::<S>(&l))
                });
                let mut cur = a;
                for (b, o, x) in &l {
                    cur = S::rate(&cur, b, *o, &c, *x).0;
                }
                m.check("one-by-one", key_l::<S>(&a, &l), close::<S>(&whole, &cur, &t), || {
                    format!("{}: period of {} games gives {whole:?}, one by one {cur:?}: {a:?} {c:?} {}", S::NAME, l.len(), show_l::<S>(&l))
                });
            } else {
                m.skip("deep tail");
            }
        }
        let ol: Vec<_> = l.iter().map(|t| (t.0, t.2)).collect();
        let v = S::exp_period(&a, &ol, &c);
        m.check("expected-length", key_l::<S>(&a, &l), v.len() == ol.len(), || format!("{}: {} opponents, {} expected scores", S::NAME, ol.len(), v.len()));
        for (i, e) in v.iter().enumerate().take(200) {
            let h = S::exp(&a, &ol[i].0, &c, ol[i].1).0;
            exp_list_entry::<S>(m, "expected", mix(key_l::<S>(&a, &l) ^ i as u64), &a, &ol[i], &c, *e, h);
        }
    }
}
/// One value of an expected-score list against the head-to-head value.
///
/// Known finding KF1: `glicko_boost::expected_score_rating_period` gives every
/// opponent the value for the white pieces.
pub fn exp_list_entry<S: Sys>(m: &mut Mon, class: &'static str, k: u64, a: &S::R, o: &(S::R, S::X), c: &S::C, e: f64, want: f64) {
    let tol = S::etol();
    let white = &o.1 as &dyn std::any::Any;
    if S::NAME == "glicko_boost" && white.downcast_ref::<bool>() == Some(&false) && !near(e, want, tol) {
        let mut w = *o;
        flip_white::<S>(&mut w.1);
        let asw = S::ref_exp(a, &w.0, c, w.1).0;
        if near(e, asw, tol) {
            m.known("KF1", || format!("glicko_boost::expected_score_rating_period ignores the colour: {a:?} with black against {:?} gets the value for white", o.0));
            return;
        }
    }
    m.check(class, k, near(e, want, tol), || format!("{}: list expectation of {a:?} against {o:?} {c:?} is {e:?}, head-to-head {want:?}", S::NAME));
}
fn flip_white<S: Sys>(x: &mut S::X) {
    if let Some(b) = (x as &mut dyn std::any::Any).downcast_mut::<bool>() {
        *b = true;
    }
}
pub fn m07() -> Vec<Monitor> {
    let mut v = Vec::new();
    all12!(v, "c07", 8_000, c07);
    v
}

// ------------------------------------------------------------------ C08
fn c08<S: Sys>(g: &mut G, m: &mut Mon) {
    let a = S::gen_r(g);
    let c = S::gen_c(g);
    let n = listlen::<S>(g).max(2);
    let l = S::gen_list(g, &a, &c, n);
    if l.len() < 2 {
        return;
    }
    let base = S::period(&a, &l, &c);
    let tol = S::rtol(&a, &l, &c);
    let border = S::ref_period(&a, &l, &c).is_none() && S::NAME == "glicko_boost";
    for style in 0..3 {
        let mut p = l.clone();
        match style {
            0 => p.reverse(),
            1 => {
                let i = g.r.below(p.len());
                p.rotate_left(i);
            }
            _ => g.r.shuffle(&mut p),
        }
        let q = S::period(&a, &p, &c);
        if border {
            m.skip("exactly on the boost threshold");
            continue;
        }
        m.check("permutation", key_l::<S>(&a, &p), close::<S>(&base, &q, &tol), || {
            format!("{}: {a:?} {c:?}: {} gives {base:?}, permuted {} gives {q:?}", S::NAME, show_l::<S>(&l), show_l::<S>(&p))
        });
    }
    // opponents that appear several times
    let i = g.r.below(l.len());
    let reps = 1 + g.r.below(3);
    let mut d = l.clone();
    for _ in 0..reps {
        let at = g.r.below(d.len() + 1);
        let mut e = l[i];
        if g.r.chance(0.3) {
            e.1 = g.out();
        }
        d.insert(at, e);
    }
    let q = S::period(&a, &d, &c);
    if let Some(r) = S::ref_period(&a, &d, &c) {
        let k = S::comps(&q);
        m.check("repeated", key_l::<S>(&a, &d), (0..S::NC).all(|i| near(k[i], r[i].0, r[i].1 + 1e-12)), || {
            format!("{}: {a:?} {c:?} with repeated opponents {} gives {q:?}, every game counted once would be {r:?}", S::NAME, show_l::<S>(&d))
        });
    } else {
        m.skip("reference undecided");
    }
}
fn c08_first(g: &mut G, m: &mut Mon) {
    use skillratings::dwz::get_first_dwz;
    let age = gen_age(g);
    let n = 5 + g.len(200);
    let a = SDwz::gen_r(g);
    let l = SDwz::gen_list(g, &a, &(), n);
    let v: Vec<_> = l.iter().map(|t| (t.0, t.1)).collect();
    let mut w = v.clone();
    g.r.shuffle(&mut w);
    let (p, q) = (get_first_dwz(age, &v), get_first_dwz(age, &w));
    let ok = match (&p, &q) {
        (Ok(p), Ok(q)) => near(p.rating, q.rating, 1e-9 * (p.rating.abs() + 100.0)) && p.index == q.index && p.age == q.age,
        (Err(p), Err(q)) => format!("{p:?}") == format!("{q:?}"),
        _ => false,
    };
    // an average at exactly 800 can round to either side of the border
    if let (Ok(p), Ok(q)) = (&p, &q) {
        if !ok && (p.rating - 800.0).abs() < 1e-6 && (q.rating - 800.0).abs() < 1e-6 {
            m.skip("border");
            return;
        }
    }
    m.check("first-dwz", key_l::<SDwz>(&a, &l), ok, || format!("get_first_dwz({age}, {}) = {p:?}, permuted {q:?}", show_l::<SDwz>(&l)));
}
pub fn m08() -> Vec<Monitor> {
    vec![
        mon("c08/glicko", 6_000, c08::<SGlicko>),
        mon("c08/glicko2", 4_000, c08::<SGlicko2>),
        mon("c08/glicko_boost", 6_000, c08::<SBoost>),
        mon("c08/sticko", 6_000, c08::<SSticko>),
        mon("c08/dwz", 6_000, c08::<SDwz>),
        mon("c08/ingo", 6_000, c08::<SIngo>),
        mon("c08/uscf", 6_000, c08::<SUscf>),
        mon("c08/egf", 6_000, c08::<SEgf>),
        mon("c08/first_dwz", 6_000, c08_first),
    ]
}
