//! Monitors of C09 - C14 and C16 - C19.
use crate::eng::{mix, mon, Mon, Monitor, G};
use crate::gen::{nudge, sc, OUTS};
use crate::pa::{all12, close, pair, Unc6};
use crate::sys::*;
use crate::team::*;
use crate::ts;
use skillratings::trueskill::{TrueSkillConfig, TrueSkillRating, WeightError};
use skillratings::*;

fn perm(g: &mut G, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    match g.r.below(4) {
        0 => p.reverse(),
        1 if n > 1 => {
            let i = g.r.below(n);
            p.rotate_left(i);
        }
        2 if n > 1 => {
            let (i, j) = (g.r.below(n), g.r.below(n));
            p.swap(i, j);
        }
        _ => g.r.shuffle(&mut p),
    }
    p
}
fn permuted<T: Clone>(v: &[T], p: &[usize]) -> Vec<T> {
    p.iter().map(|&i| v[i].clone()).collect()
}
fn teams_close<S: Tm>(v: &[Vec<S::R>], w: &[Vec<S::R>], rf: &[Vec<[Iv; 2]>]) -> bool {
    v.len() == w.len()
        && v.len() == rf.len()
        && (0..v.len()).all(|i| {
            v[i].len() == w[i].len() && v[i].len() == rf[i].len() && (0..v[i].len()).all(|j| close::<S>(&v[i][j], &w[i][j], &[width(rf[i][j][0]), width(rf[i][j][1]), 0.0]))
        })
}

// ------------------------------------------------------------------ C09
fn c09<S: Tm>(g: &mut G, m: &mut Mon) {
    let distinct = S::NAME == "trueskill" && g.r.chance(0.8);
    let mt = gen_multi::<S>(g, if g.thorough { 40 } else { 24 }, distinct);
    let n = mt.t.len();
    let k = key_t::<S>(&mt.t, &mt.ranks);
    let Some(rf) = S::ref_multi(&mt.t, &mt.ranks, &mt.c) else {
        m.skip("deep tail");
        return;
    };
    let base = S::multi(&mt.t, &mt.ranks, &mt.c);
    let shape = base.len() == n && base.iter().zip(&mt.t).all(|(x, y)| x.len() == y.len());
    m.check("shape", k, shape, || format!("{}: result shape for {}", S::NAME, show_t::<S>(&mt.t, &mt.ranks, &mt.c)));
    if !shape {
        return;
    }
    // each team's result stands at its own position (identified by the reference)
    if n <= 12 {
        let here = (0..n).all(|i| (0..base[i].len()).all(|j| inside(S::comps(&base[i][j])[0], rf[i][j][0])));
        m.check("position", k, here, || format!("{}: results do not stand at the position of their team: {} -> {base:?}", S::NAME, show_t::<S>(&mt.t, &mt.ranks, &mt.c)));
    }
    let p = perm(g, n);
    let all_diff = {
        let mut u = mt.ranks.clone();
        u.sort_unstable();
        u.dedup();
        u.len() == n
    };
    if S::NAME != "trueskill" || all_diff {
        let t2 = permuted(&mt.t, &p);
        let r2 = permuted(&mt.ranks, &p);
        let w = S::multi(&t2, &r2, &mt.c);
        let want = permuted(&base, &p);
        m.check("team-order", mix(k ^ key_t::<S>(&[], &p)), teams_close::<S>(&w, &want, &permuted(&rf, &p)), || {
            format!("{}: teams reordered by {p:?}: {w:?} instead of {want:?}; {}", S::NAME, show_t::<S>(&mt.t, &mt.ranks, &mt.c))
        });
    }
    // players inside a team
    let i = g.r.below(n);
    let pp = perm(g, mt.t[i].len());
    let mut t3 = mt.t.clone();
    t3[i] = permuted(&mt.t[i], &pp);
    let w = S::multi(&t3, &mt.ranks, &mt.c);
    let mut want = base.clone();
    want[i] = permuted(&base[i], &pp);
    let mut rf3 = rf.clone();
    rf3[i] = permuted(&rf[i], &pp);
    m.check("player-order", mix(k ^ i as u64), teams_close::<S>(&w, &want, &rf3), || {
        format!("{}: players of team {i} reordered by {pp:?}: {w:?} instead of {want:?}; {}", S::NAME, show_t::<S>(&mt.t, &mt.ranks, &mt.c))
    });
    // labels
    let r4 = relabel(g, &mt.ranks);
    let w = S::multi(&mt.t, &r4, &mt.c);
    m.check("labels", key_t::<S>(&mt.t, &r4), teams_close::<S>(&w, &base, &rf), || format!("{}: ranks {r4:?} instead of {:?} give {w:?} instead of {base:?}; {}", S::NAME, mt.ranks, show_t::<S>(&mt.t, &mt.ranks, &mt.c)));
    // expectations
    let e = S::expm(&mt.t, &mt.c);
    let f = S::expm(&permuted(&mt.t, &p), &mt.c);
    let h = S::expm(&t3, &mt.c);
    let tol = S::etol();
    let ok = e.len() == n && f.len() == n && h.len() == n && (0..n).all(|i| near(f[i], e[p[i]], tol) && near(h[i], e[i], tol));
    m.check("expected", k, ok, || format!("{}: expectations {e:?}, teams reordered by {p:?} {f:?}, players reordered {h:?}; {}", S::NAME, show_t::<S>(&mt.t, &mt.ranks, &mt.c)));
    // two-team functions: order of the players
    if n >= 2 {
        let o = g.out();
        let (a, b) = (&mt.t[0], &mt.t[1]);
        let Some((ra, rb)) = S::ref_two(a, b, o, &mt.c) else {
            return;
        };
        let (x, y) = S::two(a, b, o, &mt.c);
        let pa = perm(g, a.len());
        let pb = perm(g, b.len());
        let (x2, y2) = S::two(&permuted(a, &pa), &permuted(b, &pb), o, &mt.c);
        let ok = x.len() == a.len() && y.len() == b.len() && teams_close::<S>(&[x2.clone(), y2.clone()], &[permuted(&x, &pa), permuted(&y, &pb)], &[permuted(&ra, &pa), permuted(&rb, &pb)]);
        m.check("two-team-players", k, ok, || format!("{}: {a:?} {o:?} {b:?} {:?} = {x:?} {y:?}; players reordered {pa:?} {pb:?}: {x2:?} {y2:?}", S::NAME, mt.c));
    }
}
fn c09_quality(g: &mut G, m: &mut Mon) {
    let mt = gen_multi::<STs>(g, 9, false);
    let n = mt.t.len();
    let p = perm(g, n);
    let i = g.r.below(n);
    let pp = perm(g, mt.t[i].len());
    let mut t3 = mt.t.clone();
    t3[i] = permuted(&mt.t[i], &pp);
    let (a, b, c) = (ts_quality(&mt.t, &mt.c, None), ts_quality(&permuted(&mt.t, &p), &mt.c, None), ts_quality(&t3, &mt.c, None));
    let ok = matches!((&a, &b, &c), (Ok(a), Ok(b), Ok(c)) if near(*a, *b, 1e-7) && near(*a, *c, 1e-7));
    m.check("quality", key_t::<STs>(&mt.t, &p), ok, || format!("match quality {a:?}, teams reordered {p:?} {b:?}, players of team {i} reordered {c:?}; {}", show_t::<STs>(&mt.t, &[], &mt.c)));
}
pub fn m09() -> Vec<Monitor> {
    vec![mon("c09/weng_lin", 25_000, c09::<SWl>), mon("c09/trueskill", 9_000, c09::<STs>), mon("c09/quality", 8_000, c09_quality)]
}

// ------------------------------------------------------------------ C10
fn ranks_of(g: &mut G, o: O) -> [usize; 2] {
    let lo = g.r.below(5);
    let hi = lo + 1 + g.r.below(5);
    match o {
        O::WIN => [lo, hi],
        O::DRAW => [lo, lo],
        O::LOSS => [hi, lo],
    }
}
fn c10<S: Tm>(g: &mut G, m: &mut Mon)
where
    S: Sys<X = ()>,
{
    let mut c = S::gen_c(g);
    let is_ts = S::NAME == "trueskill";
    let (a, b) = gen_pair::<S>(g);
    let tol = S::etol();
    let t1 = [vec![a[0]], vec![b[0]]];
    let k = key_t::<S>(&[a.clone(), b.clone()], &[]);
    // expectations
    let (e, f) = S::exp(&a[0], &b[0], &c, ());
    let (e2, f2) = S::exp2(&t1[0], &t1[1], &c);
    m.check("expected-one", k, near(e, e2, tol) && near(f, f2, tol), || format!("{}: 1v1 expectation ({e:?},{f:?}), as teams of one ({e2:?},{f2:?}): {:?} {:?} {c:?}", S::NAME, a[0], b[0]));
    let (e, f) = S::exp2(&a, &b, &c);
    let v = S::expm(&[a.clone(), b.clone()], &c);
    m.check("expected-two", k, v.len() == 2 && near(e, v[0], tol) && near(f, v[1], tol), || format!("{}: two-team expectation ({e:?},{f:?}), multi-team {v:?}: {a:?} {b:?} {c:?}", S::NAME));
    for o in OUTS {
        let k = mix(k ^ pts(o).to_bits());
        let (p, q) = S::rate(&a[0], &b[0], o, &c, ());
        let (x, y) = S::two(&t1[0], &t1[1], o, &c);
        if let Some((rx, ry)) = S::ref_two(&t1[0], &t1[1], o, &c) {
            m.check("one", k, teams_close::<S>(&[x.clone(), y.clone()], &[vec![p], vec![q]], &[rx, ry]), || format!("{}: {:?} {o:?} {:?} {c:?}: 1v1 {p:?} {q:?}, as teams of one {x:?} {y:?}", S::NAME, a[0], b[0]));
        } else {
            m.skip("deep tail");
        }
        if is_ts {
            zero_dynamics::<S>(&mut c);
        }
        let r = ranks_of(g, o);
        let (x, y) = S::two(&a, &b, o, &c);
        let t = [a.clone(), b.clone()];
        let w = S::multi(&t, &r, &c);
        if let Some(rf) = S::ref_multi(&t, &r, &c) {
            // the closed form and the converged graph may differ by the accuracy of either
            let rf: Vec<Vec<[Iv; 2]>> = match S::ref_two(&a, &b, o, &c) {
                Some((u, v)) => [u, v]
                    .iter()
                    .zip(&rf)
                    .map(|(x, y)| x.iter().zip(y).map(|(p, q)| [(p[0].0.min(q[0].0), p[0].1.max(q[0].1)), (p[1].0.min(q[1].0), p[1].1.max(q[1].1))]).collect())
                    .collect(),
                None => rf,
            };
            m.check("two", k, teams_close::<S>(&w, &[x.clone(), y.clone()], &rf), || format!("{}: {a:?} {o:?} {b:?} {c:?}: two teams {x:?} {y:?}, as multi-team with ranks {r:?} {w:?}", S::NAME));
        } else {
            m.skip("deep tail");
        }
    }
}
fn zero_dynamics<S: Sys>(c: &mut S::C) {
    if let Some(t) = (c as &mut dyn std::any::Any).downcast_mut::<TrueSkillConfig>() {
        t.dynamics_factor = 0.0;
    }
}
fn same_bits<S: Sys>(p: &[S::R], q: &[S::R]) -> bool {
    p.len() == q.len() && p.iter().zip(q).all(|(a, b)| near(S::comps(a)[0], S::comps(b)[0], 0.0) && near(S::comps(a)[1], S::comps(b)[1], 1e-12 * S::comps(b)[1]))
}
fn c10_empty<S: Tm>(g: &mut G, m: &mut Mon) {
    let c = S::gen_c(g);
    let (a, b) = gen_pair::<S>(g);
    let k = key_t::<S>(&[a.clone(), b.clone()], &[]);
    for o in OUTS {
        for (x, y) in [(a.clone(), vec![]), (vec![], b.clone()), (vec![], vec![])] {
            let (p, q) = S::two(&x, &y, o, &c);
            m.check("empty-two", k, same_bits::<S>(&p, &x) && same_bits::<S>(&q, &y), || format!("{}: two teams {x:?} {o:?} {y:?} {c:?} became {p:?} {q:?}", S::NAME));
        }
    }
    let w = S::multi(&[], &[], &c);
    m.check("no-team", k, w.is_empty(), || format!("{}: no teams give {w:?}", S::NAME));
    let w = S::multi(&[a.clone()], &[g.r.below(4)], &c);
    m.check("single-team", k, w.len() == 1 && same_bits::<S>(&w[0], &a), || format!("{}: a single team {a:?} {c:?} became {w:?}", S::NAME));
    let mut mt = gen_multi::<S>(g, 8, false);
    let i = g.r.below(mt.t.len());
    mt.t[i].clear();
    if g.r.chance(0.2) {
        let j = g.r.below(mt.t.len());
        mt.t[j].clear();
    }
    let w = S::multi(&mt.t, &mt.ranks, &mt.c);
    m.check("empty-multi", key_t::<S>(&mt.t, &mt.ranks), w.len() == mt.t.len() && w.iter().zip(&mt.t).all(|(x, y)| same_bits::<S>(x, y)), || {
        format!("{}: with an empty team {} became {w:?}", S::NAME, show_t::<S>(&mt.t, &mt.ranks, &mt.c))
    });
}
pub fn m10() -> Vec<Monitor> {
    vec![
        mon("c10/weng_lin", 25_000, c10::<SWl>),
        mon("c10/trueskill", 12_000, c10::<STs>),
        mon("c10/weng_lin_empty", 8_000, c10_empty::<SWl>),
        mon("c10/trueskill_empty", 8_000, c10_empty::<STs>),
    ]
}

// ------------------------------------------------------------------ C11
/// bit for bit, with room for a differently ordered but equal computation
fn eqf(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a - b).abs() <= 1e-13 * (a.abs() + b.abs())
}
fn eqr<S: Sys>(a: &S::R, b: &S::R) -> bool {
    let (p, q) = (S::comps(a), S::comps(b));
    (0..3).all(|i| eqf(p[i], q[i]) || (p[i].is_nan() && q[i].is_nan()))
}
fn c11<S, T>(g: &mut G, m: &mut Mon)
where
    S: Sys,
    S::R: Rating,
    T: RatingSystem<RATING = S::R> + RatingPeriodSystem<RATING = S::R, CONFIG = <T as RatingSystem>::CONFIG>,
    <T as RatingSystem>::CONFIG: Copy + 'static,
{
    // per-game settings become settings of the system; colours are white
    let (a, b, c, x0) = pair::<S>(g);
    let x = white::<S>(x0);
    let cfg: <T as RatingSystem>::CONFIG = config_of::<S, <T as RatingSystem>::CONFIG>(&c, x);
    let sys = <T as RatingSystem>::new(cfg);
    // another system with other settings is alive at the same time
    let (_, _, c2, x2) = pair::<S>(g);
    let other = <T as RatingSystem>::new(config_of::<S, <T as RatingSystem>::CONFIG>(&c2, white::<S>(x2)));
    let per = <T as RatingPeriodSystem>::new(cfg);
    let (a0, b0) = (a, b);
    // the same objects see several games and periods, neighbours among them, and the first one again at the end
    let rounds = if g.r.chance(0.3) { 4 } else { 1 };
    for round in 0..rounds {
        let (a, b) = match round {
            0 | 3 => (a0, b0),
            1 => match g.r.below(4) {
                0 => (b0, a0),
                1 => (a0, S::with_rating(&b0, S::comps(&b0)[0] + 1.0)),
                2 => (S::with_unc(&a0, S::comps(&a0)[1] * 0.97), b0),
                _ => (a0, a0),
            },
            _ => {
                let (a, b, _, _) = pair::<S>(g);
                (a, b)
            }
        };
        if !(S::ok(&a, &b, &c, x) && S::ok(&b, &a, &c, x)) {
            m.skip("not an argument for this configuration");
            continue;
        }
        let o = g.out();
        let k = key2::<S>(&a, &b, o);
        let (p, q) = RatingSystem::rate(&sys, &a, &b, &o);
        let _ = RatingSystem::rate(&other, &a, &b, &o);
        let (p2, q2) = S::rate(&a, &b, o, &c, x);
        m.check("rate", k, eqr::<S>(&p, &p2) && eqr::<S>(&q, &q2), || format!("{}: round {round}: trait rate({a:?}, {b:?}, {o:?}) with {c:?} {x:?} = {p:?} {q:?}; function {p2:?} {q2:?}", S::NAME));
        let (e, f) = RatingSystem::expected_score(&sys, &a, &b);
        let (e2, f2) = S::exp(&a, &b, &c, x);
        m.check("expected", k, eqf(e, e2) && eqf(f, f2), || format!("{}: round {round}: trait expected_score({a:?}, {b:?}) with {c:?} {x:?} = ({e:?},{f:?}); function ({e2:?},{f2:?})", S::NAME));
        let n = g.len(if round == 0 { 200 } else { 20 });
        let mut l = S::gen_list(g, &a, &c, n);
        l.retain(|t| S::ok(&a, &t.0, &c, x));
        for t in &mut l {
            t.2 = x;
        }
        let args: Vec<_> = l.iter().map(|t| (t.0, t.1)).collect();
        let p = RatingPeriodSystem::rate(&per, &a, &args);
        let _ = RatingPeriodSystem::rate(&other, &a, &args);
        let p2 = S::period(&a, &l, &c);
        m.check("period", key_l::<S>(&a, &l), eqr::<S>(&p, &p2), || format!("{}: round {round}: trait period of {a:?} with {c:?} {x:?}, {} = {p:?}; function {p2:?}", S::NAME, show_l::<S>(&l)));
        let opp: Vec<_> = l.iter().map(|t| t.0).collect();
        let v = RatingPeriodSystem::expected_score(&per, &a, &opp);
        let w = S::exp_period(&a, &l.iter().map(|t| (t.0, t.2)).collect::<Vec<_>>(), &c);
        m.check("expected-list", key_l::<S>(&a, &l), v.len() == w.len() && v.iter().zip(&w).all(|(a, b)| eqf(*a, *b)), || format!("{}: round {round}: trait expectations of {a:?} with {c:?} {x:?} = {v:?}; function {w:?}", S::NAME));
        let unc = if S::UNC { Some(S::comps(&a)[1]) } else { None };
        m.check("accessors", key_r::<S>(&a), a.rating() == S::comps(&a)[0] && a.uncertainty() == unc, || format!("{}: rating() {:?} uncertainty() {:?} of {a:?}", S::NAME, a.rating(), a.uncertainty()));
    }
}
fn white<S: Sys>(x: S::X) -> S::X {
    let mut x = x;
    if let Some(b) = (&mut x as &mut dyn std::any::Any).downcast_mut::<bool>() {
        *b = true;
    }
    x
}
fn config_of<S: Sys, C: Copy + 'static>(c: &S::C, x: S::X) -> C {
    let (c, x) = (c as &dyn std::any::Any, &x as &dyn std::any::Any);
    if let Some(c) = c.downcast_ref::<C>() {
        return *c;
    }
    *x.downcast_ref::<C>().expect("configuration type")
}
fn c11_teams<S, T>(g: &mut G, m: &mut Mon)
where
    S: Tm,
    S::C: Copy,
    S::R: Rating,
    T: TeamRatingSystem<RATING = S::R, CONFIG = S::C> + MultiTeamRatingSystem<RATING = S::R, CONFIG = S::C>,
{
    let c = S::gen_c(g);
    let sys = <T as TeamRatingSystem>::new(c);
    let other = <T as TeamRatingSystem>::new(S::gen_c(g));
    let eq = |x: &[S::R], y: &[S::R]| x.len() == y.len() && x.iter().zip(y).all(|(a, b)| eqr::<S>(a, b));
    let rounds = if g.r.chance(0.3) { 3 } else { 1 };
    for _ in 0..rounds {
    let (mut a, mut b) = gen_pair::<S>(g);
    if g.r.chance(0.04) {
        a.clear();
    }
    if g.r.chance(0.04) {
        b.clear();
    }
    let o = g.out();
    let t = vec![a.clone(), b.clone()];
    let (p, q) = TeamRatingSystem::rate(&sys, &a, &b, &o);
    let _ = TeamRatingSystem::rate(&other, &a, &b, &o);
    let (p2, q2) = S::two(&a, &b, o, &c);
    m.check("team-rate", key_t::<S>(&t, &[]), eq(&p, &p2) && eq(&q, &q2), || format!("{}: trait {o:?} {p:?} {q:?}, function {p2:?} {q2:?}; {}", S::NAME, show_t::<S>(&t, &[], &c)));
    if !a.is_empty() && !b.is_empty() {
        let (e, f) = TeamRatingSystem::expected_score(&sys, &a, &b);
        let (e2, f2) = S::exp2(&a, &b, &c);
        m.check("team-expected", key_t::<S>(&t, &[]), eqf(e, e2) && eqf(f, f2), || format!("{}: trait ({e:?},{f:?}), function ({e2:?},{f2:?}); {}", S::NAME, show_t::<S>(&t, &[], &c)));
    }
    }
    let multi = <T as MultiTeamRatingSystem>::new(c);
    for _ in 0..rounds {
    let mut mt = gen_multi::<S>(g, 16, false);
    mt.c = c;
    if g.r.chance(0.06) {
        let i = g.r.below(mt.t.len());
        mt.t[i].clear();
    }
    let args: Vec<_> = mt.t.iter().zip(&mt.ranks).map(|(t, r)| (&t[..], MultiTeamOutcome::new(*r))).collect();
    let v = MultiTeamRatingSystem::rate(&multi, &args);
    let w = S::multi(&mt.t, &mt.ranks, &mt.c);
    m.check("multi-rate", key_t::<S>(&mt.t, &mt.ranks), v.len() == w.len() && v.iter().zip(&w).all(|(x, y)| eq(x, y)), || format!("{}: trait {v:?}, function {w:?}; {}", S::NAME, show_t::<S>(&mt.t, &mt.ranks, &mt.c)));
    if mt.t.iter().any(Vec::is_empty) {
        continue;
    }
    let ts: Vec<&[S::R]> = mt.t.iter().map(|t| &t[..]).collect();
    let v = MultiTeamRatingSystem::expected_score(&multi, &ts);
    let w = S::expm(&mt.t, &mt.c);
    m.check("multi-expected", key_t::<S>(&mt.t, &mt.ranks), v.len() == w.len() && v.iter().zip(&w).all(|(x, y)| eqf(*x, *y)), || format!("{}: trait {v:?}, function {w:?}; {}", S::NAME, show_t::<S>(&mt.t, &[], &mt.c)));
    }
}
pub fn m11() -> Vec<Monitor> {
    vec![
        mon("c11/elo", 8_000, c11::<SElo, elo::Elo>),
        mon("c11/fifa", 8_000, c11::<SFifa, fifa::Fifa>),
        mon("c11/glicko", 8_000, c11::<SGlicko, glicko::Glicko>),
        mon("c11/glicko2", 6_000, c11::<SGlicko2, glicko2::Glicko2>),
        mon("c11/glicko_boost", 8_000, c11::<SBoost, glicko_boost::GlickoBoost>),
        mon("c11/sticko", 8_000, c11::<SSticko, sticko::Sticko>),
        mon("c11/dwz", 8_000, c11::<SDwz, dwz::DWZ>),
        mon("c11/ingo", 8_000, c11::<SIngo, ingo::Ingo>),
        mon("c11/uscf", 8_000, c11::<SUscf, uscf::USCF>),
        mon("c11/egf", 8_000, c11::<SEgf, egf::EGF>),
        mon("c11/weng_lin", 8_000, c11::<SWl, weng_lin::WengLin>),
        mon("c11/trueskill", 8_000, c11::<STs, trueskill::TrueSkill>),
        mon("c11/weng_lin_teams", 8_000, c11_teams::<SWl, weng_lin::WengLin>),
        mon("c11/trueskill_teams", 5_000, c11_teams::<STs, trueskill::TrueSkill>),
    ]
}

// ------------------------------------------------------------------ C12
fn c12(g: &mut G, m: &mut Mon) {
    use dwz::DWZRating;
    use egf::EGFRating;
    use elo::EloRating;
    use fifa::FifaRating;
    use glicko::GlickoRating;
    use glicko2::Glicko2Rating;
    use glicko_boost::GlickoBoostRating;
    use ingo::IngoRating;
    use sticko::StickoRating;
    use uscf::USCFRating;
    use weng_lin::WengLinRating;
    let v = match g.r.below(6) {
        0 => {
            let b = *g.r.pick(&[2000.0, 2060.0, 0.0, 1000.0, 355.0, 2840.0]);
            match g.r.below(3) {
                0 => b,
                1 => b + g.eps(),
                _ => nudge(b, g.r.chance(0.5)),
            }
        }
        1 => g.r.range(-2000.0, 6000.0),
        _ => g.num(sc(-3000.0, 6000.0, 400.0, 2900.0)),
    };
    let u = g.num(sc(-100.0, 1000.0, 0.1, 400.0));
    let w = g.num(sc(0.0, 3.0, 0.01, 0.2));
    let i = g.int(0, usize::MAX / 2, 50);
    let j = g.int(0, usize::MAX / 2, 100);
    let k = mix(v.to_bits() ^ mix(u.to_bits()));
    let t = 1e-9 * (v.abs() + 100.0);
    let e = EloRating::from(v);
    m.check("elo-f64", k, e.rating == v, || format!("EloRating::from({v:?}) = {e:?}"));
    let f = FifaRating::from(v);
    let ef = EloRating::from(f);
    let fe = FifaRating::from(e);
    m.check("fifa", k, f.rating == v && ef.rating == v && fe.rating == v, || format!("FIFA/Elo of {v:?}: {f:?} {ef:?} {fe:?}"));
    let x = EGFRating::from(v);
    m.check("egf", k, x.rating == v, || format!("EGFRating::from({v:?}) = {x:?}"));
    // Ingo
    let ig = IngoRating::from(e);
    m.check("elo-ingo", k, near(ig.rating, (2840.0 - v) / 8.0, t) && ig.age == 26, || format!("{e:?} as Ingo: {ig:?}"));
    let back = EloRating::from(ig);
    m.check("elo-ingo-elo", k, near(back.rating, v, t), || format!("{e:?} -> {ig:?} -> {back:?}"));
    let i2 = IngoRating::from((v, j));
    let i3 = IngoRating::from(v);
    m.check("ingo-tuple", k ^ j as u64, i2.rating == v && i2.age == j && i3.rating == v && i3.age == 26, || format!("IngoRating::from(({v:?}, {j})) = {i2:?}, from({v:?}) = {i3:?}"));
    let e2 = EloRating::from(i2);
    m.check("ingo-elo", k, near(e2.rating, 2840.0 - 8.0 * v, 8.0 * t), || format!("{i2:?} as Elo: {e2:?}"));
    let i4 = IngoRating::from(e2);
    m.check("ingo-elo-ingo", k, near(i4.rating, v, t), || format!("{i2:?} -> {e2:?} -> {i4:?}"));
    // DWZ
    let d = DWZRating::from(e);
    m.check("elo-dwz", k, d.rating == v && d.index == 6 && d.age == 26, || format!("{e:?} as DWZ: {d:?}"));
    let d2 = DWZRating::from((v, i, j));
    let d3 = DWZRating::from((v, i));
    m.check("dwz-tuple", k ^ mix((i ^ j) as u64), d2.rating == v && d2.index == i && d2.age == j && d3.rating == v && d3.index == i && d3.age == 26, || format!("DWZ of ({v:?}, {i}, {j}): {d2:?}, without age {d3:?}"));
    let e3 = EloRating::from(d2);
    m.check("dwz-elo", k, e3.rating == v, || format!("{d2:?} as Elo: {e3:?}"));
    // USCF
    let us = USCFRating::from(e);
    let (want, games) = if v > 2000.0 { (180.0 + 0.94 * v, 10) } else { (20.0 + 1.02 * v, 5) };
    m.check("elo-uscf", k, near(us.rating, want, t) && us.games == games, || format!("{e:?} as USCF: {us:?}, documented {want} with {games} games"));
    let back = EloRating::from(us);
    m.check("elo-uscf-elo", k, near(back.rating, v, t), || format!("{e:?} -> {us:?} -> {back:?}"));
    let u2 = USCFRating::from((v, i));
    m.check("uscf-tuple", k ^ i as u64, u2.rating == v && u2.games == i, || format!("USCF of ({v:?}, {i}): {u2:?}"));
    let e4 = EloRating::from(u2);
    let want = if v > 2060.0 { (v - 180.0) / 0.94 } else { (v - 20.0) / 1.02 };
    m.check("uscf-elo", k, near(e4.rating, want, t), || format!("{u2:?} as Elo: {e4:?}, documented {want}"));
    let u3 = USCFRating::from(e4);
    m.check("uscf-elo-uscf", k, near(u3.rating, v, t), || format!("{u2:?} -> {e4:?} -> {u3:?}"));
    // Glicko family
    let gl = GlickoRating::from((v, u));
    let g2 = Glicko2Rating::from((v, u, w));
    let gb = GlickoBoostRating::from((v, u));
    let st = StickoRating::from((v, u));
    let same = |r: f64, d: f64| r == v && d == u;
    m.check("glicko-tuples", k, same(gl.rating, gl.deviation) && same(g2.rating, g2.deviation) && g2.volatility == w && same(gb.rating, gb.deviation) && same(st.rating, st.deviation), || format!("tuples of ({v:?}, {u:?}, {w:?}): {gl:?} {g2:?} {gb:?} {st:?}"));
    macro_rules! conv {
        ($($name:literal : $from:expr => $to:ty);* $(;)?) => {$(
            let r = <$to>::from($from);
            m.check($name, k, same(r.rating, r.deviation), || format!("{:?} as {}: {r:?}", $from, $name));
        )*};
    }
    conv! {
        "glicko2-glicko": g2 => GlickoRating; "boost-glicko": gb => GlickoRating; "sticko-glicko": st => GlickoRating;
        "glicko-boost": gl => GlickoBoostRating; "glicko2-boost": g2 => GlickoBoostRating; "sticko-boost": st => GlickoBoostRating;
        "glicko-sticko": gl => StickoRating; "glicko2-sticko": g2 => StickoRating; "boost-sticko": gb => StickoRating;
    }
    for (n, r) in [("glicko", Glicko2Rating::from(gl)), ("boost", Glicko2Rating::from(gb)), ("sticko", Glicko2Rating::from(st))] {
        m.check("to-glicko2", k ^ mix(n.len() as u64), same(r.rating, r.deviation) && r.volatility == 0.06, || format!("{n} ({v:?}, {u:?}) as Glicko-2: {r:?}"));
    }
    // Weng-Lin, TrueSkill
    let wl = WengLinRating::from((v, u));
    let tr = TrueSkillRating::from((v, u));
    let w2 = WengLinRating::from(tr);
    let t2 = TrueSkillRating::from(wl);
    let ok = [(wl.rating, wl.uncertainty), (tr.rating, tr.uncertainty), (w2.rating, w2.uncertainty), (t2.rating, t2.uncertainty)].iter().all(|p| same(p.0, p.1));
    m.check("weng-lin-trueskill", k, ok, || format!("Weng-Lin/TrueSkill of ({v:?}, {u:?}): {wl:?} {tr:?} {w2:?} {t2:?}"));
    let rank = if g.r.chance(0.2) { usize::MAX - g.r.below(3) } else { i };
    let mo = MultiTeamOutcome::from(rank);
    m.check("rank", rank as u64, usize::from(mo) == rank && mo.rank() == rank && MultiTeamOutcome::new(rank) == mo, || format!("MultiTeamOutcome of {rank}: {mo:?}"));
    let (ra, rb) = (i, j);
    m.check("rank-order", mix((ra ^ rb) as u64), MultiTeamOutcome::new(ra).cmp(&MultiTeamOutcome::new(rb)) == ra.cmp(&rb), || format!("order of ranks {ra}, {rb}"));
}
pub fn m12() -> Vec<Monitor> {
    vec![mon("c12/conversions", 60_000, c12)]
}

// ------------------------------------------------------------------ C13
fn c13_uscf(g: &mut G, m: &mut Mon) {
    let (mut a, mut b, c, ()) = pair::<SUscf>(g);
    if g.r.chance(0.7) {
        a.rating = 100.0 + g.r.f() * *g.r.pick(&[0.0, 1.0, 50.0, 300.0, 800.0]);
    }
    if g.r.chance(0.3) {
        b.rating = 100.0 + g.r.f() * *g.r.pick(&[0.0, 1.0, 50.0, 300.0]);
    }
    let o = g.out();
    let (p, q) = SUscf::rate(&a, &b, o, &c, ());
    let k = key2::<SUscf>(&a, &b, o);
    for (i, (old, new, l)) in [(a, p, [(b, o, ())]), (b, q, [(a, inv(o), ())])].iter().enumerate() {
        floor(m, "uscf-game", k ^ i as u64, new.rating, uscf_raw(old, l, &c), 100.0, || format!("uscf: player {} {old:?} {:?} {c:?} gives {new:?}", i + 1, l));
    }
    let n = g.len(300).max(1);
    let mut l = SUscf::gen_list(g, &a, &c, n);
    if g.r.chance(0.5) {
        l.iter_mut().for_each(|t| t.1 = O::LOSS);
    }
    let p = SUscf::period(&a, &l, &c);
    floor(m, "uscf-period", key_l::<SUscf>(&a, &l), p.rating, uscf_raw(&a, &l, &c), 100.0, || format!("uscf: {a:?} {c:?} {} gives {p:?}", show_l::<SUscf>(&l)));
}
/// Imported players may start beyond the floor or cap: whatever is returned obeys it all the same.
fn c13_beyond_uscf(g: &mut G, m: &mut Mon) {
    let (mut a, mut b, c, ()) = pair::<SUscf>(g);
    a.rating = 100.0 - g.r.f() * *g.r.pick(&[1e-9, 1.0, 50.0, 300.0, 2000.0]);
    if g.r.chance(0.3) {
        b.rating = 100.0 - g.r.f() * *g.r.pick(&[1.0, 50.0, 300.0]);
    }
    let o = g.out();
    let (p, q) = SUscf::rate(&a, &b, o, &c, ());
    m.check("uscf-below", key2::<SUscf>(&a, &b, o), p.rating >= 100.0 && q.rating >= 100.0, || format!("uscf: {a:?} {o:?} {b:?} {c:?} gives {p:?} {q:?}"));
    let n = 1 + g.len(300);
    let l = SUscf::gen_list(g, &a, &c, n);
    let p = SUscf::period(&a, &l, &c);
    m.check("uscf-below-period", key_l::<SUscf>(&a, &l), p.rating >= 100.0, || format!("uscf: {a:?} {c:?} {} gives {p:?}", show_l::<SUscf>(&l)));
}
fn c13_beyond_egf(g: &mut G, m: &mut Mon) {
    let (mut a, mut b, c, x) = pair::<SEgf>(g);
    a.rating = -900.0 - g.r.f() * *g.r.pick(&[1e-9, 1.0, 50.0, 300.0, 3000.0]);
    if g.r.chance(0.5) {
        b.rating = a.rating + g.r.range(-300.0, 300.0);
    }
    if !SEgf::ok(&a, &b, &c, x) {
        m.skip("domain");
        return;
    }
    let o = g.out();
    let (p, q) = SEgf::rate(&a, &b, o, &c, x);
    m.check("egf-below", key2::<SEgf>(&a, &b, o), p.rating >= -900.0 && q.rating >= -900.0, || format!("egf: {a:?} {o:?} {b:?} {x:?} gives {p:?} {q:?}"));
    let n = 1 + g.len(300);
    let l = SEgf::gen_list(g, &a, &c, n);
    let p = SEgf::period(&a, &l, &c);
    m.check("egf-below-period", key_l::<SEgf>(&a, &l), p.rating >= -900.0, || format!("egf: {a:?} {} gives {p:?}", show_l::<SEgf>(&l)));
}
fn c13_beyond_cap<S: Unc6>(g: &mut G, m: &mut Mon) {
    let (a, b, c, x) = pair::<S>(g);
    let cap = 350.0 * (1.0 + 1e-12);
    let a = S::with_unc(&a, 350.0 + g.r.f() * *g.r.pick(&[1e-9, 1.0, 50.0, 1000.0]));
    let b = if g.r.chance(0.4) { S::with_unc(&b, 350.0 + g.r.f() * *g.r.pick(&[1.0, 500.0])) } else { b };
    if S::NAME != "glicko2" {
        let o = g.out();
        let (p, q) = S::rate(&a, &b, o, &c, x);
        m.check("above-game", key2::<S>(&a, &b, o), S::comps(&p)[1] <= cap && S::comps(&q)[1] <= cap, || format!("{}: {a:?} {o:?} {b:?} {c:?} {x:?} gives {p:?} {q:?}", S::NAME));
        let n = 1 + g.len(300);
        let l = S::gen_list(g, &a, &c, n);
        let p = S::period(&a, &l, &c);
        m.check("above-period", key_l::<S>(&a, &l), S::comps(&p)[1] <= cap, || format!("{}: {a:?} {c:?} {} gives {p:?}", S::NAME, show_l::<S>(&l)));
    }
    let d = S::decay(&a, &c).unwrap();
    m.check("above-decay", key_r::<S>(&a), S::comps(&d)[1] <= cap, || format!("{}: decay of {a:?} {c:?} is {d:?}", S::NAME));
    let e = S::period(&a, &[], &c);
    m.check("above-empty", key_r::<S>(&a), S::comps(&e)[1] <= cap, || format!("{}: {a:?} {c:?} after an empty period is {e:?}", S::NAME));
}
fn floor(m: &mut Mon, class: &'static str, k: u64, got: f64, raw: f64, fl: f64, d: impl Fn() -> String) {
    m.check(class, k, got >= fl, || format!("{}; below the floor {fl}", d()));
    m.check("unaltered", k, near(got, raw.max(fl), 1e-9 * (raw.abs() + 100.0)), || format!("{}; without the floor {raw}", d()));
}
fn c13_egf(g: &mut G, m: &mut Mon) {
    let (mut a, mut b, c, x) = pair::<SEgf>(g);
    if g.r.chance(0.7) {
        a.rating = -900.0 + g.r.f() * *g.r.pick(&[0.0, 1.0, 50.0, 300.0, 800.0]);
    }
    if g.r.chance(0.3) {
        b.rating = -900.0 + g.r.f() * *g.r.pick(&[0.0, 1.0, 50.0, 300.0]);
    }
    if !SEgf::ok(&a, &b, &c, x) {
        m.skip("domain");
        return;
    }
    let o = g.out();
    let (p, q) = SEgf::rate(&a, &b, o, &c, x);
    let raw = |r: f64, s: f64, op: f64, hc: f64| {
        let (con, bonus) = egf_con_bonus(r);
        r + con * (s - egf_e(r, op, hc)) + bonus
    };
    let k = key2::<SEgf>(&a, &b, o);
    floor(m, "egf-game", k, p.rating, raw(a.rating, pts(o), b.rating, x.handicap), -900.0, || format!("egf: {a:?} {o:?} {b:?} {x:?} gives {p:?}"));
    floor(m, "egf-game", k ^ 1, q.rating, raw(b.rating, 1.0 - pts(o), a.rating, -x.handicap), -900.0, || format!("egf: second player {b:?}, first {a:?} {o:?} {x:?} gives {q:?}"));
    let n = g.len(300);
    let mut l = SEgf::gen_list(g, &a, &c, n);
    if g.r.chance(0.5) {
        l.iter_mut().for_each(|t| t.1 = O::LOSS);
    }
    let p = SEgf::period(&a, &l, &c);
    m.check("egf-period", key_l::<SEgf>(&a, &l), p.rating >= -900.0, || format!("egf: {a:?} {} gives {p:?}", show_l::<SEgf>(&l)));
    if let Some(r) = SEgf::ref_period(&a, &l, &c) {
        m.check("unaltered", key_l::<SEgf>(&a, &l), near(p.rating, r[0].0, r[0].1), || format!("egf: {a:?} {} gives {p:?}, without a floor for single games {r:?}", show_l::<SEgf>(&l)));
    }
}
fn c13_fifa(g: &mut G, m: &mut Mon) {
    let (a, b, c, mut x) = pair::<SFifa>(g);
    for o in OUTS {
        x.knockout = true;
        let (p, q) = SFifa::rate(&a, &b, o, &c, x);
        x.knockout = false;
        let (p0, q0) = SFifa::rate(&a, &b, o, &c, x);
        let t = 1e-9 * 100.0;
        let ok = |old: f64, ko: f64, plain: f64| ko >= old && near(ko, plain.max(old), t + 1e-12 * old.abs());
        m.check("fifa-knockout", key2::<SFifa>(&a, &b, o), ok(a.rating, p.rating, p0.rating) && ok(b.rating, q.rating, q0.rating), || {
            format!("fifa: {a:?} {o:?} {b:?} {x:?}: knockout {p:?} {q:?}, otherwise {p0:?} {q0:?}")
        });
    }
    let n = g.len(200);
    let mut l = SFifa::gen_list(g, &a, &c, n);
    let all = g.r.chance(0.4);
    if all {
        l.iter_mut().for_each(|t| t.2.knockout = true);
    }
    // game by game along the period
    let mut cur = a;
    for (i, t) in l.iter().enumerate() {
        let next = SFifa::period(&cur, &l[i..=i], &c);
        if t.2.knockout {
            m.check("fifa-period-step", key2::<SFifa>(&cur, &t.0, t.1), next.rating >= cur.rating, || format!("fifa: knockout game {t:?} in a period lowers {cur:?} to {next:?}"));
        }
        cur = next;
    }
    let p = SFifa::period(&a, &l, &c);
    m.check("fifa-period", key_l::<SFifa>(&a, &l), near(p.rating, cur.rating, 1e-9 * (cur.rating.abs() + 100.0)) && (!all || p.rating >= a.rating), || {
        format!("fifa: {a:?} {} gives {p:?}, game by game {cur:?}", show_l::<SFifa>(&l))
    });
}
fn c13_cap<S: Unc6>(g: &mut G, m: &mut Mon) {
    let (a, b, c, x) = pair::<S>(g);
    let cap = 350.0 * (1.0 + 1e-12);
    let glicko2 = S::NAME == "glicko2";
    if !glicko2 {
        for o in OUTS {
            let (p, q) = S::rate(&a, &b, o, &c, x);
            m.check("cap-game", key2::<S>(&a, &b, o), S::comps(&p)[1] <= cap && S::comps(&q)[1] <= cap, || format!("{}: {a:?} {o:?} {b:?} {c:?} {x:?} gives {p:?} {q:?}", S::NAME));
        }
        let n = g.len(200);
        let l = S::gen_list(g, &a, &c, n);
        let p = S::period(&a, &l, &c);
        m.check("cap-period", key_l::<S>(&a, &l), S::comps(&p)[1] <= cap, || format!("{}: {a:?} {c:?} {} gives {p:?}", S::NAME, show_l::<S>(&l)));
    } else {
        let p = S::period(&a, &[], &c);
        m.check("cap-empty", key_r::<S>(&a), S::comps(&p)[1] <= cap, || format!("{}: {a:?} {c:?} after an empty period is {p:?}", S::NAME));
    }
    let mut cur = a;
    for _ in 0..1 + g.r.below(20) {
        let d = S::decay(&cur, &c).unwrap();
        m.check("cap-decay", key_r::<S>(&cur), S::comps(&d)[1] <= cap, || format!("{}: decay of {cur:?} {c:?} is {d:?}", S::NAME));
        let r = S::ref_decay(&cur, &c);
        if r[1] < 349.0 {
            m.check("below-cap", key_r::<S>(&cur), near(S::comps(&d)[1], r[1], 1e-6), || format!("{}: decay of {cur:?} {c:?} is {d:?} instead of {r:?}", S::NAME));
        }
        cur = d;
    }
}
pub fn m13() -> Vec<Monitor> {
    vec![
        mon("c13/uscf", 30_000, c13_uscf),
        mon("c13/egf", 20_000, c13_egf),
        mon("c13/fifa", 20_000, c13_fifa),
        mon("c13/glicko", 20_000, c13_cap::<SGlicko>),
        mon("c13/glicko2", 20_000, c13_cap::<SGlicko2>),
        mon("c13/glicko_boost", 20_000, c13_cap::<SBoost>),
        mon("c13/sticko", 20_000, c13_cap::<SSticko>),
        mon("c13/uscf_below", 4_000, c13_beyond_uscf),
        mon("c13/egf_below", 4_000, c13_beyond_egf),
        mon("c13/glicko_above", 3_000, c13_beyond_cap::<SGlicko>),
        mon("c13/glicko2_above", 3_000, c13_beyond_cap::<SGlicko2>),
        mon("c13/glicko_boost_above", 3_000, c13_beyond_cap::<SBoost>),
        mon("c13/sticko_above", 3_000, c13_beyond_cap::<SSticko>),
    ]
}

// ------------------------------------------------------------------ C14
fn fin<S: Sys>(r: &S::R) -> bool {
    S::comps(r).iter().all(|x| x.is_finite())
}
fn c14<S: Sys>(g: &mut G, m: &mut Mon) {
    let (a, b, c, x) = pair::<S>(g);
    for o in OUTS {
        let (p, q) = S::rate(&a, &b, o, &c, x);
        m.check("game", key2::<S>(&a, &b, o), fin::<S>(&p) && fin::<S>(&q), || format!("{}: {a:?} {o:?} {b:?} {c:?} {x:?} gives {p:?} {q:?}", S::NAME));
    }
    let (e, f) = S::exp(&a, &b, &c, x);
    m.check("expected", key2::<S>(&a, &b, O::DRAW), e.is_finite() && f.is_finite(), || format!("{}: expectation of {a:?} {b:?} {c:?} {x:?} is ({e:?},{f:?})", S::NAME));
    let n = if g.r.chance(0.002) { 20_000 } else { g.len(if g.thorough { 4000 } else { 1500 }) };
    let l = S::gen_list(g, &a, &c, n);
    let p = S::period(&a, &l, &c);
    m.check("period", key_l::<S>(&a, &l), fin::<S>(&p), || format!("{}: {a:?} {c:?} {} gives {p:?}", S::NAME, show_l::<S>(&l)));
    let v = S::exp_period(&a, &l.iter().map(|t| (t.0, t.2)).collect::<Vec<_>>(), &c);
    m.check("expected-list", key_l::<S>(&a, &l), v.len() == l.len() && v.iter().all(|x| x.is_finite()), || format!("{}: expectations of {a:?} {c:?} {}: {v:?}", S::NAME, show_l::<S>(&l)));
    let p = S::period(&a, &[], &c);
    let v = S::exp_period(&a, &[], &c);
    m.check("empty", key_r::<S>(&a), fin::<S>(&p) && v.is_empty(), || format!("{}: empty period of {a:?} {c:?} is {p:?}, expectations {v:?}", S::NAME));
}
fn c14_decay<S: Unc6>(g: &mut G, m: &mut Mon) {
    let a = S::gen_r(g);
    let c = S::gen_c(g);
    let d = S::decay(&a, &c).unwrap();
    let (lo, hi) = S::interval(&a).unwrap();
    m.check("decay", key_r::<S>(&a), fin::<S>(&d) && lo.is_finite() && hi.is_finite(), || format!("{}: decay of {a:?} {c:?} is {d:?}, interval ({lo:?},{hi:?})", S::NAME));
}
fn c14_teams<S: Tm>(g: &mut G, m: &mut Mon) {
    let c = S::gen_c(g);
    let big = g.r.chance(0.003);
    let (mut a, mut b) = gen_pair::<S>(g);
    if big {
        a = gen_team::<S>(g, 1500, true);
        b = gen_team::<S>(g, 1500, true);
    }
    let t = vec![a, b];
    for o in OUTS {
        let (p, q) = S::two(&t[0], &t[1], o, &c);
        let ok = p.len() == t[0].len() && q.len() == t[1].len() && p.iter().chain(&q).all(|r| fin::<S>(r));
        m.check("two-teams", mix(key_t::<S>(&t, &[]) ^ pts(o).to_bits()), ok, || format!("{}: {o:?} {p:?} {q:?}; {}", S::NAME, show_t::<S>(&t, &[], &c)));
    }
    let (e, f) = S::exp2(&t[0], &t[1], &c);
    m.check("team-expected", key_t::<S>(&t, &[]), e.is_finite() && f.is_finite(), || format!("{}: ({e:?},{f:?}); {}", S::NAME, show_t::<S>(&t, &[], &c)));
    // any number of teams, also none, one, empty ones
    let mut mt = gen_multi::<S>(g, 40, false);
    if g.r.chance(0.003) {
        let n = 60 + g.r.below(if g.thorough { 400 } else { 100 });
        mt.t = (0..n).map(|_| { let k = 1 + g.r.below(3); gen_team::<S>(g, k, true) }).collect();
        mt.ranks = gen_ranks(g, n, false);
    }
    match g.r.below(12) {
        0 => {
            mt.t.truncate(1);
            mt.ranks.truncate(1);
        }
        1 if g.r.chance(0.2) => {
            mt.t.clear();
            mt.ranks.clear();
        }
        2 => {
            let i = g.r.below(mt.t.len());
            mt.t[i].clear();
        }
        _ => {}
    }
    let degenerate = mt.t.len() < 2 || mt.t.iter().any(Vec::is_empty);
    let w = S::multi(&mt.t, &mt.ranks, &mt.c);
    let shape = w.len() == mt.t.len() && w.iter().zip(&mt.t).all(|(x, y)| x.len() == y.len());
    m.check("multi-shape", key_t::<S>(&mt.t, &mt.ranks), shape, || format!("{}: {} -> {w:?}", S::NAME, show_t::<S>(&mt.t, &mt.ranks, &mt.c)));
    if degenerate || S::ref_multi(&mt.t, &mt.ranks, &mt.c).is_some() {
        m.check("multi-finite", key_t::<S>(&mt.t, &mt.ranks), w.iter().flatten().all(|r| fin::<S>(r)), || format!("{}: {} -> {w:?}", S::NAME, show_t::<S>(&mt.t, &mt.ranks, &mt.c)));
    } else {
        m.skip("deep tail");
    }
    let e = S::expm(&mt.t, &mt.c);
    m.check("multi-expected", key_t::<S>(&mt.t, &[]), e.len() == mt.t.len() && e.iter().all(|x| x.is_finite()), || format!("{}: {e:?}; {}", S::NAME, show_t::<S>(&mt.t, &[], &mt.c)));
}
fn c14_ts(g: &mut G, m: &mut Mon) {
    use trueskill::*;
    let c = ts_cfg(g);
    let (a, b) = gen_pair::<STs>(g);
    let q = [match_quality(&a[0], &b[0], &c), match_quality_two_teams(&a, &b, &c), get_rank(&a[0])];
    m.check("quality", key_t::<STs>(&[a.clone(), b.clone()], &[]), q.iter().all(|x| x.is_finite()), || format!("{q:?}: {a:?} {b:?} {c:?}"));
    let v = match_quality_rating_period(&a[0], &b, &c);
    m.check("quality-list", key_t::<STs>(&[a.clone(), b.clone()], &[]), v.len() == b.len() && v.iter().all(|x| x.is_finite()), || format!("{v:?}: {a:?} {b:?} {c:?}"));
    let big = g.r.chance(0.002);
    let mut mt = gen_multi::<STs>(g, if big { 20 } else { 8 }, false);
    if g.r.chance(0.1) {
        mt.t.truncate(g.r.below(2));
    } else if g.r.chance(0.05) {
        let i = g.r.below(mt.t.len());
        mt.t[i].clear();
    }
    let mut w = gen_weights(g, &mt.t);
    let corrupt = g.r.chance(0.15);
    if corrupt {
        corrupt_weights(g, &mut w);
    }
    let wo = if g.r.chance(0.3) { None } else { Some(&w[..]) };
    let q = ts_quality(&mt.t, &mt.c, wo);
    m.check("quality-multi", key_t::<STs>(&mt.t, &[]), q.map_or(wo.is_some(), |x| x.is_finite()), || format!("{q:?}: {} weights {wo:?}", show_t::<STs>(&mt.t, &[], &mt.c)));
    let ranks = gen_ranks(g, mt.t.len().max(1), false);
    let r = ts_multi(&mt.t, &ranks[..mt.t.len()], &mt.c, wo);
    match r {
        Err(_) => m.check("weights-error", key_t::<STs>(&mt.t, &[]), wo.is_some(), || format!("an error without weights: {}", show_t::<STs>(&mt.t, &ranks, &mt.c))),
        Ok(v) => {
            let shape = v.len() == mt.t.len() && v.iter().zip(&mt.t).all(|(x, y)| x.len() == y.len());
            let degenerate = mt.t.len() < 2 || mt.t.iter().any(Vec::is_empty) || (wo.is_some() && w.iter().any(|x| x.iter().all(|y| *y == 0.0)));
            let decided = degenerate || ts_ref_multi(&mt.t, &ranks, &mt.c, &wo.map_or_else(|| ones(&mt.t), <[Vec<f64>]>::to_vec)).is_some();
            if decided {
                m.check("weighted-finite", key_t::<STs>(&mt.t, &ranks), shape && v.iter().flatten().all(|r| fin::<STs>(r)), || format!("{} weights {wo:?} -> {v:?}", show_t::<STs>(&mt.t, &ranks, &mt.c)));
            } else {
                m.skip("deep tail");
            }
        }
    }
}
fn c14_first(g: &mut G, m: &mut Mon) {
    let age = gen_age(g);
    let n = g.len(500);
    let a = SDwz::gen_r(g);
    let l: Vec<_> = SDwz::gen_list(g, &a, &(), n).into_iter().map(|t| (t.0, t.1)).collect();
    let r = dwz::get_first_dwz(age, &l);
    m.check("first-dwz", mix(n as u64 ^ key_r::<SDwz>(&a)), r.as_ref().map_or(true, |r| fin::<SDwz>(r)), || format!("{age} {l:?} -> {r:?}"));
    // starting values for any age
    let age = if g.r.chance(0.2) { usize::MAX - g.r.below(3) } else { g.int(0, 1_000_000, 40) };
    let (u, d, i) = (uscf::USCFRating::new(age), dwz::DWZRating::new(age), ingo::IngoRating::new(age));
    m.check("new", age as u64, u.rating.is_finite() && d.rating.is_finite() && i.rating.is_finite(), || format!("{u:?} {d:?} {i:?}"));
}
pub fn m14() -> Vec<Monitor> {
    let mut v = Vec::new();
    all12!(v, "c14", 6_000, c14);
    v.push(mon("c14/decay_glicko", 10_000, c14_decay::<SGlicko>));
    v.push(mon("c14/decay_glicko2", 10_000, c14_decay::<SGlicko2>));
    v.push(mon("c14/decay_boost", 10_000, c14_decay::<SBoost>));
    v.push(mon("c14/decay_sticko", 10_000, c14_decay::<SSticko>));
    v.push(mon("c14/weng_lin_teams", 6_000, c14_teams::<SWl>));
    v.push(mon("c14/trueskill_teams", 6_000, c14_teams::<STs>));
    v.push(mon("c14/trueskill_weights", 6_000, c14_ts));
    v.push(mon("c14/first_dwz", 6_000, c14_first));
    v
}

// ------------------------------------------------------------------ C16
fn c16(g: &mut G, m: &mut Mon) {
    // DWZ
    let (a, b, (), ()) = pair::<SDwz>(g);
    let o = g.out();
    let (p, q) = SDwz::rate(&a, &b, o, &(), ());
    let k = key2::<SDwz>(&a, &b, o);
    m.check("dwz-game", k, p.index == a.index + 1 && q.index == b.index + 1 && p.age == a.age && q.age == b.age, || format!("dwz {a:?} {o:?} {b:?} = {p:?} {q:?}"));
    let n = g.len(500);
    let l = SDwz::gen_list(g, &a, &(), n);
    let p = SDwz::period(&a, &l, &());
    m.check("dwz-period", key_l::<SDwz>(&a, &l), p.index == a.index + 1 && p.age == a.age, || format!("dwz period of {a:?}: {} games = {p:?}", l.len()));
    let e = SDwz::period(&a, &[], &());
    m.check("dwz-empty", key_r::<SDwz>(&a), e.index == a.index + 1 && e.age == a.age && e.rating == a.rating, || format!("dwz empty period of {a:?} = {e:?}"));
    // USCF
    let (a, b, c, ()) = pair::<SUscf>(g);
    let (p, q) = SUscf::rate(&a, &b, o, &c, ());
    m.check("uscf-game", key2::<SUscf>(&a, &b, o), p.games == a.games + 1 && q.games == b.games + 1, || format!("uscf {a:?} {o:?} {b:?} = {p:?} {q:?}"));
    let n = g.len(500);
    let l = SUscf::gen_list(g, &a, &c, n);
    let p = SUscf::period(&a, &l, &c);
    m.check("uscf-period", key_l::<SUscf>(&a, &l), p.games == a.games + l.len(), || format!("uscf period of {a:?}: {} games = {p:?}", l.len()));
    let e = SUscf::period(&a, &[], &c);
    m.check("uscf-empty", key_r::<SUscf>(&a), e == a, || format!("uscf empty period of {a:?} = {e:?}"));
    // Ingo
    let (a, b, (), ()) = pair::<SIngo>(g);
    let (p, q) = SIngo::rate(&a, &b, o, &(), ());
    let n = g.len(300);
    let l = SIngo::gen_list(g, &a, &(), n);
    let r = SIngo::period(&a, &l, &());
    let e = SIngo::period(&a, &[], &());
    m.check("ingo-age", key2::<SIngo>(&a, &b, o), p.age == a.age && q.age == b.age && r.age == a.age && e == a, || format!("ingo {a:?} {o:?} {b:?} = {p:?} {q:?}, period of {} = {r:?}, empty period {e:?}", l.len()));
    // Glicko-2 decay
    let a = SGlicko2::gen_r(g);
    let d = glicko2::decay_deviation(&a);
    m.check("glicko2-decay", key_r::<SGlicko2>(&a), d.volatility == a.volatility && d.rating == a.rating, || format!("glicko2 decay of {a:?} = {d:?}"));
}
/// counters along a history
fn c16_history(g: &mut G, m: &mut Mon) {
    let mut d = SDwz::gen_r(g);
    let mut u = SUscf::gen_r(g);
    let (d0, u0) = (d, u);
    let (mut events, mut games) = (0, 0);
    let c = SUscf::gen_c(g);
    for step in 0..10 + g.r.below(60) {
        let o = g.out();
        match g.r.below(4) {
            0 => {
                let b = SDwz::gen_r(g);
                d = if g.r.chance(0.5) { SDwz::rate(&d, &b, o, &(), ()).0 } else { SDwz::rate(&b, &d, o, &(), ()).1 };
                events += 1;
            }
            1 => {
                let n = g.r.below(12);
                let l = SDwz::gen_list(g, &d, &(), n);
                d = SDwz::period(&d, &l, &());
                events += 1;
            }
            2 => {
                let b = SUscf::gen_r(g);
                u = if g.r.chance(0.5) { SUscf::rate(&u, &b, o, &c, ()).0 } else { SUscf::rate(&b, &u, o, &c, ()).1 };
                games += 1;
            }
            _ => {
                let n = g.r.below(12);
                let l = SUscf::gen_list(g, &u, &c, n);
                u = SUscf::period(&u, &l, &c);
                games += l.len();
            }
        }
        let k = mix(key_r::<SDwz>(&d0) ^ step as u64);
        m.check("dwz-history", k, d.index == d0.index + events && d.age == d0.age, || format!("dwz {d0:?} after {events} events: {d:?}"));
        m.check("uscf-history", k, u.games == u0.games + games, || format!("uscf {u0:?} after {games} games: {u:?}"));
    }
}
pub fn m16() -> Vec<Monitor> {
    vec![mon("c16/counters", 25_000, c16), mon("c16/history", 3_000, c16_history)]
}

// ------------------------------------------------------------------ C17
pub fn gen_weights(g: &mut G, t: &[Vec<TrueSkillRating>]) -> Vec<Vec<f64>> {
    let style = g.r.below(5);
    t.iter()
        .map(|x| {
            x.iter()
                .map(|_| match style {
                    0 => 1.0,
                    1 => *g.r.pick(&[0.0, 0.25, 0.5, 1.0]),
                    2 => g.r.range(0.05, 1.0),
                    3 => {
                        let v = g.num(sc(0.0, 3.0, 0.0, 1.0));
                        // a share of the match below 1e-6 is not a share
                        if v < 1e-6 {
                            0.0
                        } else {
                            v
                        }
                    }
                    _ => {
                        if g.r.chance(0.2) {
                            0.0
                        } else {
                            g.r.range(0.01, 1.0)
                        }
                    }
                })
                .collect()
        })
        .collect()
}
fn corrupt_weights(g: &mut G, w: &mut Vec<Vec<f64>>) {
    if w.is_empty() {
        w.push(vec![1.0]);
        return;
    }
    for _ in 0..1 + g.r.below(2) {
        let i = g.r.below(w.len().max(1));
        match g.r.below(6) {
            0 => w.push(vec![1.0]),
            1 => {
                w.pop();
            }
            2 if i < w.len() => w[i].push(0.5),
            3 if i < w.len() => {
                w[i].pop();
            }
            // zero with a sign is zero
            4 if i < w.len() && !w[i].is_empty() => {
                let j = g.r.below(w[i].len());
                w[i][j] = -0.0;
            }
            _ if i < w.len() && !w[i].is_empty() => {
                let j = g.r.below(w[i].len());
                w[i][j] = -g.num(sc(1e-300, 10.0, 0.01, 1.0));
            }
            _ => {}
        }
    }
}
fn first_problem(t: &[Vec<TrueSkillRating>], w: &[Vec<f64>]) -> Option<WeightError> {
    if t.len() != w.len() {
        return Some(WeightError::TeamAmount);
    }
    for (i, (x, y)) in t.iter().zip(w).enumerate() {
        if x.len() != y.len() {
            return Some(WeightError::PlayerAmount { team: i });
        }
        if let Some(j) = y.iter().position(|v| *v < 0.0) {
            return Some(WeightError::Weight { team: i, player: j });
        }
    }
    None
}
fn c17_errors(g: &mut G, m: &mut Mon) {
    let mt = gen_multi::<STs>(g, 7, false);
    let mut w = gen_weights(g, &mt.t);
    if g.r.chance(0.85) {
        corrupt_weights(g, &mut w);
    }
    let want = first_problem(&mt.t, &w);
    let k = mix(key_t::<STs>(&mt.t, &mt.ranks) ^ w.len() as u64);
    let r = ts_multi(&mt.t, &mt.ranks, &mt.c, Some(&w));
    let q = ts_quality(&mt.t, &mt.c, Some(&w));
    let class = match want {
        None => "accepted",
        Some(WeightError::TeamAmount) => "team-amount",
        Some(WeightError::PlayerAmount { .. }) => "player-amount",
        Some(WeightError::Weight { .. }) => "negative-weight",
    };
    m.check(class, k, r.as_ref().err() == want.as_ref(), || format!("trueskill_multi_team with weights {w:?}: error {:?}, first problem {want:?}; {}", r.as_ref().err(), show_t::<STs>(&mt.t, &mt.ranks, &mt.c)));
    // the message a user reads names the same team and player
    for e in [r.as_ref().err(), q.as_ref().err()].into_iter().flatten() {
        let s = e.to_string();
        let w = s.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty()).collect::<Vec<_>>();
        let says = |what: &str, n: usize| w.windows(2).any(|p| p[0].eq_ignore_ascii_case(what) && p[1].parse() == Ok(n));
        let ok = match *e {
            WeightError::TeamAmount => s.contains("teams"),
            WeightError::PlayerAmount { team } => says("team", team),
            WeightError::Weight { team, player } => says("team", team) && says("player", player),
        };
        m.check("message", k, ok, || format!("{e:?} reads {s:?}"));
    }
    m.check(class, k, q.as_ref().err() == want.as_ref(), || format!("match_quality_multi_team with weights {w:?}: {q:?}, first problem {want:?}; {}", show_t::<STs>(&mt.t, &[], &mt.c)));
}
fn c17_meaning(g: &mut G, m: &mut Mon) {
    let mt = gen_multi::<STs>(g, 7, false);
    let k = key_t::<STs>(&mt.t, &mt.ranks);
    let tau2 = mt.c.dynamics_factor * mt.c.dynamics_factor;
    let show = |w: &[Vec<f64>]| format!("weights {w:?}; {}", show_t::<STs>(&mt.t, &mt.ranks, &mt.c));
    // no weights = all one
    let one = ones(&mt.t);
    if let Some(rf) = ts_ref_multi(&mt.t, &mt.ranks, &mt.c, &one) {
        let (a, b) = (ts_multi(&mt.t, &mt.ranks, &mt.c, None), ts_multi(&mt.t, &mt.ranks, &mt.c, Some(&one)));
        m.check("none-is-ones", k, matches!((&a, &b), (Ok(a), Ok(b)) if teams_close::<STs>(a, b, &rf)), || format!("without weights {a:?}, with {b:?}; {}", show(&one)));
    }
    let (a, b) = (ts_quality(&mt.t, &mt.c, None), ts_quality(&mt.t, &mt.c, Some(&one)));
    m.check("none-is-ones-quality", k, matches!((&a, &b), (Ok(a), Ok(b)) if near(*a, *b, 1e-9)), || format!("quality without weights {a:?}, with {b:?}; {}", show(&one)));
    let w = gen_weights(g, &mt.t);
    let played = w.iter().all(|x| x.iter().any(|v| *v > 0.0));
    let r = ts_multi(&mt.t, &mt.ranks, &mt.c, Some(&w));
    let Ok(v) = &r else {
        m.check("accepted", k, false, || format!("valid weights rejected: {r:?}; {}", show(&w)));
        return;
    };
    let shape = v.len() == mt.t.len() && v.iter().zip(&mt.t).all(|(x, y)| x.len() == y.len());
    m.check("shape", k, shape, || show(&w));
    if !shape {
        return;
    }
    if !played {
        m.check("nobody-played", k, v.iter().flatten().zip(mt.t.iter().flatten()).all(|(p, q)| p == q), || format!("a team in which nobody played, yet {v:?}; {}", show(&w)));
        return;
    }
    let Some(rf) = ts_ref_multi(&mt.t, &mt.ranks, &mt.c, &w) else {
        m.skip("deep tail");
        return;
    };
    for i in 0..v.len() {
        // proportionality among team mates
        let mut first: Option<(f64, f64, usize)> = None;
        for j in 0..v[i].len() {
            let (old, new) = (mt.t[i][j], v[i][j]);
            if w[i][j] == 0.0 {
                let want = (old.uncertainty * old.uncertainty + tau2).sqrt();
                let tol = 1e-9 * (old.rating.abs() + 1.0);
                m.check("zero-weight", mix(k ^ (i * 64 + j) as u64), near(new.rating, old.rating, tol) && near(new.uncertainty, want, 1e-9 * want), || format!("player {j} of team {i} did not play but {old:?} became {new:?}; {}", show(&w)));
                continue;
            }
            let denom = w[i][j] * (old.uncertainty * old.uncertainty + tau2);
            let quo = (new.rating - old.rating) / denom;
            let err = 1e-7 * quo.abs() + 1e-9 * (old.rating.abs() + 1.0) / denom;
            if let Some((f, fe, fj)) = first {
                m.check("proportional", mix(k ^ (i * 64 + j) as u64), (f - quo).abs() <= err + fe, || {
                    format!("team {i}: players {fj} and {j} change by {f} and {quo} per weight and variance: {:?} -> {:?}; {}", mt.t[i], v[i], show(&w))
                });
            } else {
                first = Some((quo, err, j));
            }
        }
    }
    // a player with weight 0 does not influence anyone else
    let i = g.r.below(mt.t.len());
    let j = g.r.below(mt.t[i].len());
    if mt.t[i].len() > 1 && w[i].iter().enumerate().any(|(x, v)| x != j && *v > 0.0) {
        let mut w2 = w.clone();
        w2[i][j] = 0.0;
        let mut t2 = mt.t.clone();
        t2[i][j] = STs::gen_r(g);
        let (a, b) = (ts_multi(&mt.t, &mt.ranks, &mt.c, Some(&w2)), ts_multi(&t2, &mt.ranks, &mt.c, Some(&w2)));
        if let (Some(rf2), Ok(a), Ok(b)) = (ts_ref_multi(&mt.t, &mt.ranks, &mt.c, &w2), &a, &b) {
            let mut a2 = a.clone();
            let mut b2 = b.clone();
            a2[i].remove(j);
            b2[i].remove(j);
            let mut rr = rf2.clone();
            rr[i].remove(j);
            m.check("zero-weight-others", k, teams_close::<STs>(&a2, &b2, &rr), || format!("player {j} of team {i} has weight 0, yet replacing {:?} by {:?} changes others: {a:?} / {b:?}; {}", mt.t[i][j], t2[i][j], show(&w2)));
        }
        let (a, b) = (ts_quality(&mt.t, &mt.c, Some(&w2)), ts_quality(&t2, &mt.c, Some(&w2)));
        m.check("zero-weight-quality", k, matches!((&a, &b), (Ok(a), Ok(b)) if near(*a, *b, 1e-7)), || format!("player {j} of team {i} has weight 0, yet replacing it changes the quality {a:?} / {b:?}; {}", show(&w2)));
        // approaching zero approaches not playing
        let mut w3 = w2.clone();
        w3[i][j] = 1e-6;
        if let (Some(ra), Some(rb)) = (ts_ref_multi(&mt.t, &mt.ranks, &mt.c, &w2), ts_ref_multi(&mt.t, &mt.ranks, &mt.c, &w3)) {
            if let (Ok(a), Ok(b)) = (ts_multi(&mt.t, &mt.ranks, &mt.c, Some(&w2)), ts_multi(&mt.t, &mt.ranks, &mt.c, Some(&w3))) {
                let ok = (0..a.len()).all(|i| {
                    (0..a[i].len()).all(|j| {
                        let (p, q) = (ra[i][j], rb[i][j]);
                        let t0 = width(p[0]) + width(q[0]) + (p[0].0 - q[0].0).abs();
                        let t1 = width(p[1]) + width(q[1]) + (p[1].0 - q[1].0).abs();
                        a.len() == b.len() && a[i].len() == b[i].len() && close::<STs>(&a[i][j], &b[i][j], &[t0, t1, 0.0])
                    })
                });
                m.check("limit", k, ok, || format!("weight of player {j} of team {i} 0 gives {a:?}, 1e-6 gives {b:?}; {}", show(&w2)));
            }
        }
    }
    // and the values themselves
    let ok = (0..v.len()).all(|i| (0..v[i].len()).all(|j| inside(v[i][j].rating, rf[i][j][0]) && inside(v[i][j].uncertainty, rf[i][j][1])));
    m.check("posterior", k, ok, || format!("{v:?} outside {rf:?}; {}", show(&w)));
}
pub fn m17() -> Vec<Monitor> {
    vec![mon("c17/errors", 15_000, c17_errors), mon("c17/meaning", 10_000, c17_meaning)]
}

// ------------------------------------------------------------------ C18
fn c18(g: &mut G, m: &mut Mon) {
    use trueskill::*;
    let c = ts_cfg(g);
    let (a, b) = gen_pair::<STs>(g);
    let t = vec![a.clone(), b.clone()];
    let k = key_t::<STs>(&t, &[]);
    let show = || show_t::<STs>(&t, &[], &c);
    let unit = |x: f64| (0.0..=1.0 + 1e-9).contains(&x);
    // closed form for two sides
    let closed = |a: &[TrueSkillRating], b: &[TrueSkillRating]| {
        let n = (a.len() + b.len()) as f64 * c.beta * c.beta;
        let s: f64 = n + a.iter().chain(b).map(|p| p.uncertainty * p.uncertainty).sum::<f64>();
        let d: f64 = a.iter().map(|p| p.rating).sum::<f64>() - b.iter().map(|p| p.rating).sum::<f64>();
        (n / s).sqrt() * (-d * d / (2.0 * s)).exp()
    };
    let q1 = match_quality(&a[0], &b[0], &c);
    m.check("one", k, unit(q1) && near(q1, closed(&a[..1], &b[..1]), 1e-9), || format!("match_quality {q1:?}, closed form {}; {:?} {:?} {c:?}", closed(&a[..1], &b[..1]), a[0], b[0]));
    let q2 = match_quality_two_teams(&a, &b, &c);
    m.check("two", k, unit(q2) && near(q2, closed(&a, &b), 1e-9), || format!("match_quality_two_teams {q2:?}, closed form {}; {}", closed(&a, &b), show()));
    let q3 = match_quality_two_teams(&a[..1], &b[..1], &c);
    m.check("one-is-two", k, near(q1, q3, 1e-9), || format!("1v1 {q1:?}, teams of one {q3:?}; {:?} {:?} {c:?}", a[0], b[0]));
    let q4 = ts_quality(&t, &c, None);
    m.check("two-is-multi", k, matches!(q4, Ok(q) if near(q, q2, 1e-8)), || format!("two teams {q2:?}, multi-team {q4:?}; {}", show()));
    let v = match_quality_rating_period(&a[0], &b, &c);
    m.check("list", k, v.len() == b.len() && v.iter().zip(&b).all(|(q, o)| near(*q, match_quality(&a[0], o, &c), 1e-9)), || format!("list {v:?}; {:?} {b:?} {c:?}", a[0]));
    let (s1, s2) = (match_quality(&b[0], &a[0], &c), match_quality_two_teams(&b, &a, &c));
    m.check("symmetric", k, near(s1, q1, 1e-9) && near(s2, q2, 1e-9), || format!("{q1:?} {q2:?}, swapped {s1:?} {s2:?}; {}", show()));
    // falls with the gap, highest at no gap
    let d: f64 = a.iter().map(|p| p.rating).sum::<f64>() - b.iter().map(|p| p.rating).sum::<f64>();
    let mut b2 = b.clone();
    let f = g.r.f();
    let move_by = if g.r.chance(0.3) { d } else { d * f };
    b2[0].rating += move_by;
    let q = match_quality_two_teams(&a, &b2, &c);
    m.check("gap", k, q >= q2 - 1e-12, || format!("gap {d} quality {q2:?}, gap {} quality {q:?}; {}", d - move_by, show()));
    let d1 = a[0].rating - b[0].rating;
    let mut p = b[0];
    p.rating += d1 * f;
    let q = match_quality(&a[0], &p, &c);
    m.check("gap-one", k, q >= q1 - 1e-12, || format!("gap {d1} quality {q1:?}, smaller gap quality {q:?}: {:?} {:?} -> {p:?} {c:?}", a[0], b[0]));
}
fn c18_multi(g: &mut G, m: &mut Mon) {
    let mut mt = gen_multi::<STs>(g, if g.thorough { 24 } else { 9 }, false);
    if g.r.chance(0.004) {
        let n = 10 + g.r.below(12);
        mt.t = (0..n).map(|_| { let k = 1 + g.r.below(2); gen_team::<STs>(g, k, true) }).collect();
    }
    let n = mt.t.len();
    let w = if g.r.chance(0.4) {
        let w: Vec<Vec<f64>> = mt.t.iter().map(|x| x.iter().map(|_| g.r.range(0.1, 1.0)).collect()).collect();
        Some(w)
    } else {
        None
    };
    let k = key_t::<STs>(&mt.t, &[]);
    let q = ts_quality(&mt.t, &mt.c, w.as_deref());
    let tv: Vec<&[TrueSkillRating]> = mt.t.iter().map(|x| &x[..]).collect();
    if let Some(r) = ts::quality(&tv, w.as_deref(), &mt.c) {
        m.check("multi", k, matches!(q, Ok(q) if near(q, r, 1e-7) && (0.0..=1.0 + 1e-9).contains(&q)), || format!("match_quality_multi_team {q:?}, determinant formula {r:?}; weights {w:?} {}", show_t::<STs>(&mt.t, &[], &mt.c)));
    } else {
        m.skip("ill-conditioned");
    }
    let p = perm(g, n);
    let w2 = w.as_ref().map(|w| permuted(w, &p));
    let q2 = ts_quality(&permuted(&mt.t, &p), &mt.c, w2.as_deref());
    m.check("multi-order", k, matches!((&q, &q2), (Ok(a), Ok(b)) if near(*a, *b, 1e-7)), || format!("{q:?}, teams reordered by {p:?} {q2:?}; weights {w:?} {}", show_t::<STs>(&mt.t, &[], &mt.c)));
    // a wider gap between one team and the (equal) rest
    if n >= 2 {
        let t0 = mt.t[0].clone();
        let i = g.r.below(n);
        let mut lo = vec![t0; n];
        let d = g.r.range(0.0, 20.0);
        lo[i][0].rating += d;
        let mut hi = lo.clone();
        hi[i][0].rating += g.r.range(0.0, 10.0);
        let (a, b) = (ts_quality(&lo, &mt.c, None), ts_quality(&hi, &mt.c, None));
        m.check("multi-gap", k, matches!((&a, &b), (Ok(a), Ok(b)) if *b <= *a + 1e-9), || format!("{n} teams {:?}, team {i} ahead by {d}: {a:?}, further ahead {b:?}; {:?}", lo[0], mt.c));
    }
    let e = ts_quality(&[], &mt.c, None);
    let o = ts_quality(&mt.t[..1], &mt.c, None);
    m.check("degenerate", k, e == Ok(0.0) && o == Ok(0.0), || format!("no team {e:?}, one team {o:?}"));
}
pub fn m18() -> Vec<Monitor> {
    vec![mon("c18/two", 30_000, c18), mon("c18/multi", 10_000, c18_multi)]
}

// ------------------------------------------------------------------ C19
const FIRST: [f64; 51] = [
    728., 614., 555., 513., 480., 453., 429., 408., 389., 371., 355., 340., 326., 312., 300., 288., 276., 265., 254., 244., 234., 224., 214., 205., 196., 187., 178., 170., 161., 153., 145.,
    137., 129., 121., 113., 106., 98., 91., 83., 76., 69., 61., 54., 47., 40., 32., 25., 18., 11., 4., 0.,
];
pub fn first_dwz_ref(l: &[(dwz::DWZRating, O)]) -> Result<Vec<f64>, &'static str> {
    let n = l.len();
    if n < 5 {
        return Err("NotEnoughGames");
    }
    let half: usize = l.iter().map(|x| (2.0 * pts(x.1)) as usize).sum();
    if half == 0 || half == 2 * n {
        return Err("InvalidWinRate");
    }
    let avg = l.iter().map(|x| x.0.rating).sum::<f64>() / n as f64;
    // percentage = 100 * half / (2 n), exactly
    let (num, den) = (100 * half, 2 * n);
    let lo = num / den;
    let twice = 2 * (num % den);
    let mut ps = Vec::new();
    if twice < den {
        ps.push(lo);
    } else if twice > den {
        ps.push(lo + 1);
    } else if n.is_power_of_two() {
        ps.push(lo + 1);
    } else {
        // exactly half: the floating-point percentage may lie on either side
        ps.push(lo + 1);
        ps.push(lo);
    }
    Ok(ps
        .into_iter()
        .map(|p| {
            let d = if p > 50 { FIRST[100 - p] } else { -FIRST[p] };
            let r = avg + d;
            if r <= 800.0 {
                700.0 + r / 8.0
            } else {
                r
            }
        })
        .collect())
}
fn c19(g: &mut G, m: &mut Mon) {
    let age = if g.r.chance(0.05) { usize::MAX } else { gen_age(g) };
    let n = match g.r.below(4) {
        0 => g.r.below(9),
        1 => 5 + g.r.below(60),
        2 => g.int(0, 250, 100),
        _ => g.len(400),
    };
    let a = SDwz::gen_r(g);
    let mut l: Vec<_> = SDwz::gen_list(g, &a, &(), n).into_iter().map(|t| (t.0, t.1)).collect();
    if g.r.chance(0.5) && !l.is_empty() {
        // a chosen percentage
        let p = g.r.f();
        for t in &mut l {
            t.1 = if g.r.chance(p) { O::WIN } else { O::LOSS };
        }
        if g.r.chance(0.3) {
            let i = g.r.below(l.len());
            l[i].1 = O::DRAW;
        }
    }
    if g.r.chance(0.2) {
        let base = g.r.range(300.0, 1300.0);
        for t in &mut l {
            t.0.rating = base + g.r.range(-50.0, 50.0);
        }
    }
    let k = mix(l.iter().fold(age as u64, |k, t| mix(k ^ key_r::<SDwz>(&t.0) ^ pts(t.1).to_bits())));
    let got = dwz::get_first_dwz(age, &l);
    let want = first_dwz_ref(&l);
    let (ok, class) = match (&got, &want) {
        (Ok(r), Ok(v)) => (r.index == 1 && r.age == age && v.iter().any(|w| near(r.rating, *w, 1e-9 * (w.abs() + 100.0))), "granted"),
        (Err(dwz::GetFirstDWZError::NotEnoughGames), Err(w)) => (*w == "NotEnoughGames", "too-few-games"),
        (Err(dwz::GetFirstDWZError::InvalidWinRate), Err(w)) => (*w == "InvalidWinRate", "all-or-nothing"),
        _ => (false, "granted"),
    };
    m.check(class, k, ok, || format!("get_first_dwz({age}, {} games {:?}) = {got:?}, rules give {want:?}", l.len(), l.iter().take(40).collect::<Vec<_>>()));
    if let Err(e) = &got {
        let s = e.to_string();
        let ok = match e {
            dwz::GetFirstDWZError::NotEnoughGames => s.contains("5 games"),
            dwz::GetFirstDWZError::InvalidWinRate => s.contains("winrate") && s.contains("0%") && s.contains("100%"),
        };
        m.check("message", k, ok, || format!("{e:?} reads {s:?}"));
    }
    // nothing else of the opponents matters
    let mut l2 = l.clone();
    for t in &mut l2 {
        t.0.index = 1 + g.r.below(40);
        t.0.age = gen_age(g);
    }
    let g2 = dwz::get_first_dwz(age, &l2);
    let same = match (&got, &g2) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => format!("{a:?}") == format!("{b:?}"),
        _ => false,
    };
    m.check("only-games-and-age", k, same, || format!("other indices and ages of the opponents turn {got:?} into {g2:?}: {:?}", l2.iter().take(40).collect::<Vec<_>>()));
}
pub fn m19() -> Vec<Monitor> {
    vec![mon("c19/first_dwz", 80_000, c19)]
}
