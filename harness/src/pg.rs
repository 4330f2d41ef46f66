//! Scale: seasons with more games than a 16-bit counter, teams and fields with hundreds of participants.
use crate::eng::{mix, mon, Mon, Monitor, G};
use crate::pa::close;
use crate::sys::*;
use crate::team::*;

/// Lengths around 2^15, 2^16, 2^17, and around unusual literals of the source.
pub fn vast_len(g: &mut G) -> usize {
    let big: Vec<usize> = g.dict.novel.iter().filter(|x| x.fract() == 0.0 && **x > 1000.0 && **x <= 300_000.0).map(|x| *x as usize).collect();
    if !big.is_empty() && g.r.chance(0.5) {
        return g.r.pick(&big) + g.r.below(4) - 1;
    }
    match g.r.below(6) {
        0 => 4_090 + g.r.below(5_000),
        1 => 10_000 + g.r.below(30_000),
        2 => 32_760 + g.r.below(20),
        3 | 4 => 65_530 + g.r.below(80),
        _ => if g.thorough { 131_000 + g.r.below(200) } else { 66_000 + g.r.below(5_000) },
    }
}
/// A very long list of games: a few hundred different opponents in random order.
pub fn vast_list<S: Sys>(g: &mut G, a: &S::R, c: &S::C, n: usize) -> Vec<(S::R, O, S::X)> {
    let base = S::gen_list(g, a, c, 200);
    if base.is_empty() {
        return base;
    }
    let drift = g.r.below(4);
    (0..n)
        .map(|_| {
            let mut e = *g.r.pick(&base);
            if drift != 0 {
                e.1 = g.out();
            }
            e
        })
        .collect()
}
fn key<S: Sys>(a: &S::R, n: usize, g: &mut G) -> u64 {
    mix(key_r::<S>(a) ^ mix(n as u64 ^ g.r.below(1 << 30) as u64))
}
macro_rules! head {
    ($g:ident, $S:ident) => {{
        let a = $S::gen_r($g);
        let c = $S::gen_c($g);
        let n = vast_len($g);
        let l = vast_list::<$S>($g, &a, &c, n);
        (a, c, l)
    }};
}
/// The formulas at scale.
pub fn vast_ref<S: Sys>(g: &mut G, m: &mut Mon) {
    let (a, c, l) = head!(g, S);
    let p = S::period(&a, &l, &c);
    let k = key::<S>(&a, l.len(), g);
    if let Some(r) = S::ref_period(&a, &l, &c) {
        let q = S::comps(&p);
        m.check("vast-period", k, (0..S::NC).all(|i| near(q[i], r[i].0, 1e3 * r[i].1 + 1e-9)), || format!("{}: {a:?} {c:?}, {} games: {p:?}, formulas {r:?}", S::NAME, l.len()));
    } else {
        m.skip("formulas not decidable in double precision");
    }
}
/// No panic, no overflow, finite; one expectation per opponent.
pub fn vast_fin<S: Sys>(g: &mut G, m: &mut Mon) {
    let (a, c, l) = head!(g, S);
    let p = S::period(&a, &l, &c);
    let k = key::<S>(&a, l.len(), g);
    m.check("vast-period", k, S::comps(&p)[..S::NC].iter().all(|x| x.is_finite()), || format!("{}: {a:?} {c:?}, {} games: {p:?}", S::NAME, l.len()));
    let v = S::exp_period(&a, &l.iter().map(|t| (t.0, t.2)).collect::<Vec<_>>(), &c);
    m.check("vast-list", k, v.len() == l.len() && v.iter().all(|x| x.is_finite()), || format!("{}: {a:?} {c:?}, {} opponents: {} expectations", S::NAME, l.len(), v.len()));
}
/// Sequential systems: the season in two halves; lists against single expectations.
pub fn vast_split<S: Sys>(g: &mut G, m: &mut Mon) {
    let (a, c, l) = head!(g, S);
    let k = key::<S>(&a, l.len(), g);
    if S::SEQ && !l.is_empty() {
        let cut = 1 + g.r.below(l.len());
        let whole = S::period(&a, &l, &c);
        let both = S::period(&S::period(&a, &l[..cut], &c), &l[cut..], &c);
        let t = S::rtol(&a, &l, &c);
        if t[0].is_finite() {
            m.check("vast-split", k, close::<S>(&whole, &both, &[1e3 * t[0], 1e3 * t[1], 1e3 * t[2]]), || format!("{}: {a:?} {c:?}, {} games: {whole:?}, split after {cut} {both:?}", S::NAME, l.len()));
        } else {
            m.skip("deep tail");
        }
    }
    let ol: Vec<_> = l.iter().map(|t| (t.0, t.2)).collect();
    let v = S::exp_period(&a, &ol, &c);
    m.check("vast-length", k, v.len() == ol.len(), || format!("{}: {} opponents, {} expected scores", S::NAME, ol.len(), v.len()));
    let n = v.len().min(ol.len());
    for _ in 0..if n == 0 { 0 } else { 64 } {
        let i = if g.r.chance(0.5) { n - 1 - g.r.below(n.min(40)) } else { g.r.below(n) };
        let h = S::exp(&a, &ol[i].0, &c, ol[i].1).0;
        crate::pa::exp_list_entry::<S>(m, "vast-expected", mix(k ^ i as u64), &a, &ol[i], &c, v[i], h);
    }
}
/// Order of a very long period.
pub fn vast_perm<S: Sys>(g: &mut G, m: &mut Mon) {
    let (a, c, l) = head!(g, S);
    let k = key::<S>(&a, l.len(), g);
    let p = S::period(&a, &l, &c);
    let mut q = l.clone();
    if g.r.chance(0.5) {
        q.reverse();
    } else {
        g.r.shuffle(&mut q);
    }
    let r = S::period(&a, &q, &c);
    let t = S::rtol(&a, &l, &c);
    m.check("vast-permutation", k, close::<S>(&p, &r, &[1e3 * t[0], 1e3 * t[1], 1e3 * t[2]]), || format!("{}: {a:?} {c:?}, {} games: {p:?}, in another order {r:?}", S::NAME, l.len()));
}
pub fn vast_counters(g: &mut G, m: &mut Mon) {
    let (a, c, l) = head!(g, SUscf);
    let p = SUscf::period(&a, &l, &c);
    let k = key::<SUscf>(&a, l.len(), g);
    m.check("vast-uscf", k, p.games == a.games + l.len(), || format!("uscf {a:?} after {} games: {p:?}", l.len()));
    let (a, c, l) = head!(g, SDwz);
    let p = SDwz::period(&a, &l, &c);
    m.check("vast-dwz", k, p.index == a.index + 1 && p.age == a.age, || format!("dwz {a:?} after {} games: {p:?}", l.len()));
}

/// Many teams, or few enormous ones; nobody far away from the rest.
pub fn gen_crowd<S: Tm>(g: &mut G, many: usize, large: usize) -> Multi<S> {
    let c = S::gen_c(g);
    let (n, k) = if g.r.chance(0.5) { (25 + g.r.below(many - 24), 1 + g.r.below(3)) } else { (2 + g.r.below(3), 40 + g.r.below(large - 39)) };
    let mid = g.r.range(0.0, 50.0);
    let t: Vec<Vec<S::R>> = (0..n)
        .map(|_| {
            let d = if k > 3 { 0.2 } else { 3.0 };
            (0..k).map(|_| S::mk(mid + g.r.range(-d, d), g.r.range(1.0, 9.0))).collect()
        })
        .collect();
    let distinct = S::NAME == "trueskill" && g.r.chance(0.7);
    let ranks = gen_ranks(g, n, distinct);
    Multi { t, ranks, c }
}
fn sizes(many: bool) -> (usize, usize) {
    if many {
        (300, 600)
    } else {
        (70, 300)
    }
}
fn crowd_of<S: Tm>(g: &mut G) -> Multi<S> {
    let (n, k) = sizes(S::NAME == "weng_lin");
    gen_crowd::<S>(g, n, k)
}
fn brief<S: Tm>(mt: &Multi<S>) -> String {
    format!("{}: {} teams of {} {:?}", S::NAME, mt.t.len(), mt.t[0].len(), mt.c)
}
fn ok_team<S: Tm>(x: &[Vec<S::R>], y: &[Vec<[Iv; 2]>]) -> bool {
    x.len() == y.len() && x.iter().zip(y).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(p, w)| inside(S::comps(p)[0], w[0]) && inside(S::comps(p)[1], w[1])))
}
pub fn crowd_ref<S: Tm>(g: &mut G, m: &mut Mon) {
    let mt = crowd_of::<S>(g);
    let k = key_t::<S>(&mt.t, &mt.ranks);
    let v = S::multi(&mt.t, &mt.ranks, &mt.c);
    if let Some(r) = S::ref_multi(&mt.t, &mt.ranks, &mt.c) {
        m.check("crowd", k, ok_team::<S>(&v, &r), || format!("{}: result against the formulas", brief(&mt)));
    } else {
        m.skip("deep tail");
    }
}
pub fn crowd_two<S: Tm>(g: &mut G, m: &mut Mon) {
    let mt = crowd_of::<S>(g);
    let cut = 1 + g.r.below(mt.t.len() - 1);
    let (a, b): (Vec<S::R>, Vec<S::R>) = (mt.t[..cut].concat(), mt.t[cut..].concat());
    let k = key_t::<S>(&mt.t, &mt.ranks);
    let (e, f) = S::exp2(&a, &b, &mt.c);
    let w = S::ref_exp2(&a, &b, &mt.c);
    m.check("crowd-expected", k, near(e, w, S::etol()) && near(f, 1.0 - w, S::etol()), || format!("{}, {} against {} players: ({e:?}, {f:?}), formulas {w}", brief(&mt), a.len(), b.len()));
    let o = g.out();
    if let Some((x, y)) = S::ref_two(&a, &b, o, &mt.c) {
        let (p, q) = S::two(&a, &b, o, &mt.c);
        m.check("crowd-two", k, ok_team::<S>(&[p], &[x]) && ok_team::<S>(&[q], &[y]), || format!("{}, {} against {} players {o:?}: result against the formulas", brief(&mt), a.len(), b.len()));
    } else {
        m.skip("deep tail");
    }
    let v = S::expm(&mt.t, &mt.c);
    let w = S::ref_expm(&mt.t, &mt.c);
    m.check("crowd-multi-expected", k, v.len() == w.len() && v.iter().zip(&w).all(|(x, y)| near(*x, *y, S::etol())), || format!("{}: expectations against the formulas", brief(&mt)));
}
pub fn crowd_order<S: Tm>(g: &mut G, m: &mut Mon) {
    let mt = crowd_of::<S>(g);
    let n = mt.t.len();
    let mut p: Vec<usize> = (0..n).collect();
    g.r.shuffle(&mut p);
    let k = key_t::<S>(&mt.t, &mt.ranks);
    let v = S::multi(&mt.t, &mt.ranks, &mt.c);
    let shape = v.len() == n && v.iter().zip(&mt.t).all(|(x, y)| x.len() == y.len());
    m.check("crowd-shape", k, shape, || format!("{}: shape of the result", brief(&mt)));
    let distinct = {
        let mut u = mt.ranks.clone();
        u.sort_unstable();
        u.dedup();
        u.len() == n
    };
    let Some(rf) = S::ref_multi(&mt.t, &mt.ranks, &mt.c) else {
        m.skip("deep tail");
        return;
    };
    if shape && (S::NAME != "trueskill" || distinct) {
        let t2: Vec<_> = p.iter().map(|i| mt.t[*i].clone()).collect();
        let r2: Vec<_> = p.iter().map(|i| mt.ranks[*i]).collect();
        let w = S::multi(&t2, &r2, &mt.c);
        let ok = w.len() == n && (0..n).all(|j| (0..mt.t[p[j]].len()).all(|q| close::<S>(&w[j][q], &v[p[j]][q], &[width(rf[p[j]][q][0]), width(rf[p[j]][q][1]), 0.0])));
        m.check("crowd-order", k, ok, || format!("{}: results in another order of the teams", brief(&mt)));
    }
    let e = S::expm(&mt.t, &mt.c);
    let t2: Vec<_> = p.iter().map(|i| mt.t[*i].clone()).collect();
    let f = S::expm(&t2, &mt.c);
    m.check("crowd-expected", k, e.len() == n && f.len() == n && (0..n).all(|j| near(f[j], e[p[j]], S::etol())), || format!("{}: expectations in another order of the teams", brief(&mt)));
}
pub fn crowd_prob<S: Tm>(g: &mut G, m: &mut Mon) {
    let mt = crowd_of::<S>(g);
    let k = key_t::<S>(&mt.t, &mt.ranks);
    let v = S::expm(&mt.t, &mt.c);
    let s: f64 = v.iter().sum();
    m.check("crowd", k, v.len() == mt.t.len() && v.iter().all(|x| (0.0..=1.0).contains(x)) && near(s, 1.0, 1e-9), || format!("{}: expectations {v:?} sum to {s}", brief(&mt)));
    let cut = 1 + g.r.below(mt.t.len() - 1);
    let (e, f) = S::exp2(&mt.t[..cut].concat(), &mt.t[cut..].concat(), &mt.c);
    m.check("crowd-two", k, (0.0..=1.0).contains(&e) && (0.0..=1.0).contains(&f) && near(e + f, 1.0, 1e-9), || format!("{}: ({e:?}, {f:?})", brief(&mt)));
}
/// Fields beyond an 8-bit counter: everything comes back, finite.
pub fn crowd_fin<S: Tm>(g: &mut G, m: &mut Mon) {
    let c = S::gen_c(g);
    let ts = S::NAME == "trueskill";
    let (n, k) = match g.r.below(3) {
        0 => (250 + g.r.below(if ts { 12 } else { 60 }), 1),
        1 => (2, 250 + g.r.below(40)),
        _ => (60 + g.r.below(80), 1 + g.r.below(3)),
    };
    let d = if k > 3 { 0.2 } else { 3.0 };
    let t: Vec<Vec<S::R>> = (0..n).map(|_| (0..k).map(|_| S::mk(25.0 + g.r.range(-d, d), g.r.range(1.0, 9.0))).collect()).collect();
    let ranks = gen_ranks(g, n, false);
    let key = key_t::<S>(&t, &ranks);
    let fine = |v: &[Vec<S::R>]| v.len() == n && v.iter().all(|x| x.len() == k && x.iter().all(|p| S::comps(p)[..S::NC].iter().all(|y| y.is_finite())));
    let v = S::multi(&t, &ranks, &c);
    m.check("crowd-multi", key, fine(&v), || format!("{}: {n} teams of {k} {c:?}: not as many finite ratings", S::NAME));
    let e = S::expm(&t, &c);
    m.check("crowd-expected", key, e.len() == n && e.iter().all(|x| x.is_finite()), || format!("{}: {n} teams of {k} {c:?}: expected scores {e:?}", S::NAME));
    if n == 2 {
        let (x, y) = S::two(&t[0], &t[1], g.out(), &c);
        m.check("crowd-two", key, fine(&[x, y]), || format!("{}: two teams of {k} {c:?}: not as many finite ratings", S::NAME));
    }
}
/// Very long lists of opponents: one probability each.
pub fn vast_prob<S: Sys>(g: &mut G, m: &mut Mon) {
    let (a, c, l) = head!(g, S);
    let k = key::<S>(&a, l.len(), g);
    let ol: Vec<_> = l.iter().map(|t| (t.0, t.2)).collect();
    let v = S::exp_period(&a, &ol, &c);
    m.check("vast-list", k, v.len() == ol.len() && v.iter().all(|x| (0.0..=1.0).contains(x)), || format!("{}: {a:?} {c:?}: {} opponents, {} values in [0, 1]", S::NAME, ol.len(), v.iter().filter(|x| (0.0..=1.0).contains(*x)).count()));
}
/// The monitors of a property at scale.
pub fn extra(id: &str) -> Vec<Monitor> {
    let mut v = Vec::new();
    match id {
        "C01" => {
            v.extend([mon("c01/crowd_weng_lin", 600, crowd_prob::<SWl>), mon("c01/crowd_trueskill", 600, crowd_prob::<STs>)]);
            crate::pa::all12!(v, "c01/vast", 30, vast_prob);
        }
        "C07" => {
            crate::pa::all12!(v, "c07/vast", 60, vast_split);
        }
        "C08" => v.extend([
            mon("c08/vast/glicko", 80, vast_perm::<SGlicko>),
            mon("c08/vast/glicko2", 80, vast_perm::<SGlicko2>),
            mon("c08/vast/glicko_boost", 80, vast_perm::<SBoost>),
            mon("c08/vast/sticko", 80, vast_perm::<SSticko>),
            mon("c08/vast/dwz", 80, vast_perm::<SDwz>),
            mon("c08/vast/ingo", 80, vast_perm::<SIngo>),
        ]),
        "C09" => v.extend([mon("c09/crowd_weng_lin", 600, crowd_order::<SWl>), mon("c09/crowd_trueskill", 400, crowd_order::<STs>)]),
        "C14" => {
            crate::pa::all12!(v, "c14/vast", 80, vast_fin);
            v.extend([mon("c14/crowd_weng_lin", 400, crowd_fin::<SWl>), mon("c14/crowd_trueskill", 120, crowd_fin::<STs>)]);
        }
        "C16" => v.push(mon("c16/vast", 400, vast_counters)),
        "C21" => v.extend([mon("c21/vast_elo", 160, vast_ref::<SElo>), mon("c21/vast_fifa", 160, vast_ref::<SFifa>)]),
        "C22" => v.push(mon("c22/vast", 240, vast_ref::<SGlicko>)),
        "C23" => v.push(mon("c23/vast", 240, vast_ref::<SGlicko2>)),
        "C24" => v.push(mon("c24/vast", 240, vast_ref::<SBoost>)),
        "C25" => v.push(mon("c25/vast", 240, vast_ref::<SSticko>)),
        "C26" => v.push(mon("c26/vast", 240, vast_ref::<SDwz>)),
        "C27" => v.push(mon("c27/vast", 240, vast_ref::<SIngo>)),
        "C28" => v.push(mon("c28/vast", 240, vast_ref::<SUscf>)),
        "C29" => v.push(mon("c29/vast", 240, vast_ref::<SEgf>)),
        "C30" => v.extend([mon("c30/vast", 160, vast_ref::<SWl>), mon("c30/crowd", 1200, crowd_ref::<SWl>), mon("c30/crowd_two", 1200, crowd_two::<SWl>)]),
        "C31" => v.extend([mon("c31/vast", 160, vast_ref::<STs>), mon("c31/crowd", 1200, crowd_two::<STs>)]),
        "C32" => v.push(mon("c32/crowd", 1200, crowd_ref::<STs>)),
        _ => {}
    }
    v
}
