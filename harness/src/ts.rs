//! Reference mathematics for TrueSkill: closed forms and expectation propagation,
//! each computable with an accurate error function (glibc) and with the published
//! rational approximation, so that the distance between the two bounds what the
//! approximation of the implementation may legitimately cost.
use crate::sys::{Ref, O, V, Z};
use skillratings::trueskill::{TrueSkillConfig, TrueSkillRating};
use std::f64::consts::{PI, SQRT_2};

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Precise,
    Approx,
    /// The approximation has a jump at 0 (the two branches do not meet); an argument this close to it may fall on
    /// either side: this one takes the other.
    Flip,
}
thread_local! {
    static NEAR: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Runs `f` and tells whether it evaluated the approximation next to its jump.
pub fn near_jump<T>(f: impl FnOnce() -> T) -> (T, bool) {
    NEAR.with(|n| n.set(false));
    let v = f();
    (v, NEAR.with(std::cell::Cell::get))
}
#[cfg(not(miri))]
mod c {
    extern "C" {
        pub fn erfc(x: f64) -> f64;
    }
}
pub fn erfc(k: Kind, x: f64) -> f64 {
    #[cfg(not(miri))]
    if k == Kind::Precise {
        // SAFETY: libm's erfc is a pure function of its argument.
        return unsafe { c::erfc(x) };
    }
    // Numerical Recipes, erfcc
    let z = x.abs();
    let t = 1.0 / (1.0 + 0.5 * z);
    const C: [f64; 10] = [
        -1.265_512_23, 1.000_023_68, 0.374_091_96, 0.096_784_18, -0.186_288_06, 0.278_868_07, -1.135_203_98, 1.488_515_87, -0.822_152_23,
        0.170_872_77,
    ];
    let mut p = 0.0;
    for &a in C.iter().rev() {
        p = p * t + a;
    }
    let r = t * (p - z * z).exp();
    let mut low = x < 0.0;
    if z < 1e-5 {
        NEAR.with(|n| n.set(true));
        if k == Kind::Flip {
            // the other branch, continued across 0 (slope 2/sqrt(pi))
            let r = r + 2.0 * 1.128_379_167_095_512_6 * z;
            low = !low;
            return if low { 2.0 - r } else { r };
        }
    }
    if low {
        2.0 - r
    } else {
        r
    }
}
pub fn cdf(k: Kind, x: f64) -> f64 {
    0.5 * erfc(k, -x / SQRT_2)
}
pub fn pdf(x: f64) -> f64 {
    (-0.5 * x * x).exp() / (2.0 * PI).sqrt()
}
/// inverse of the upper half: x >= 0 with cdf(x) = p
fn inv_cdf(k: Kind, p: f64) -> f64 {
    // p in [0.5, 1): bisection on the monotone cdf
    let (mut lo, mut hi) = (0.0, 12.0);
    let q = 1.0 - p;
    for _ in 0..64 {
        let m = 0.5 * (lo + hi);
        if cdf(k, -m) > q {
            lo = m;
        } else {
            hi = m;
        }
    }
    0.5 * (lo + hi)
}
pub fn draw_margin(k: Kind, c: &TrueSkillConfig, players: f64) -> f64 {
    inv_cdf(k, (1.0 + c.draw_probability) / 2.0) * players.sqrt() * c.beta
}

/// A draw where draws (almost) never happen: the interval it falls into has no width, its probability is 0/0.
pub fn degenerate(c: &TrueSkillConfig, o: O) -> bool {
    o == O::DRAW && c.draw_probability < 0.005
}

/// Mean shift (towards side one) and variance reduction; t = difference/c, e = margin/c.
/// None: too deep in the tail to be decided.
pub fn vw(k: Kind, t: f64, e: f64, o: O) -> Option<(f64, f64)> {
    match o {
        O::WIN => vw_win(k, t, e),
        O::LOSS => vw_win(k, -t, e).map(|(v, w)| (-v, w)),
        O::DRAW => {
            let a = t.abs();
            let norm = cdf(k, e - a) - cdf(k, -e - a);
            if !(norm > 1e-150) {
                if norm < 1e-170 && e - a < -8.0 {
                    let v = if t < 0.0 { -t - e } else { -t + e };
                    return Some((v, 1.0 - (1.0 / ((a - e) * (a - e))).min(e * e / 3.0)));
                }
                return None;
            }
            let x = (pdf(-e - a) - pdf(e - a)) / norm;
            let v = if t < 0.0 { -x } else { x };
            let w = x * x + ((e - a) * pdf(e - a) + (e + a) * pdf(e + a)) / norm;
            Some((v, w))
        }
    }
}
fn vw_win(k: Kind, t: f64, e: f64) -> Option<(f64, f64)> {
    let x = t - e;
    let n = cdf(k, x);
    if n > 1e-150 {
        let v = pdf(x) / n;
        Some((v, v * (v + x)))
    } else if n < 1e-170 && t < 0.0 {
        // the remaining variance of a far tail
        Some((-x, 1.0 - 1.0 / (x * x)))
    } else {
        None
    }
}
pub fn combine(p: (f64, f64), q: (f64, f64), n: usize) -> Ref {
    if !(p.0.is_finite() && p.1.is_finite() && q.0.is_finite() && q.1.is_finite()) {
        return None;
    }
    let t0 = 4.0 * (p.0 - q.0).abs() + 2e-7 * (p.0.abs() + 1.0) * (1.0 + n as f64 * 0.02);
    let t1 = 4.0 * (p.1 - q.1).abs() + 2e-7 * (p.1.abs() + 0.1) * (1.0 + n as f64 * 0.02);
    Some([(p.0, t0), (p.1, t1), Z])
}

/// Closed-form two-team update (teams non-empty).
pub fn two_teams(t1: &[TrueSkillRating], t2: &[TrueSkillRating], o: O, c: &TrueSkillConfig) -> Option<(Vec<[V; 2]>, Vec<[V; 2]>)> {
    if degenerate(c, o) {
        return None;
    }
    let n = (t1.len() + t2.len()) as f64;
    let d: f64 = t1.iter().map(|p| p.rating).sum::<f64>() - t2.iter().map(|p| p.rating).sum::<f64>();
    let s: f64 = t1.iter().chain(t2).map(|p| p.uncertainty * p.uncertainty).sum();
    let cc = (n * c.beta * c.beta + s).sqrt();
    let tau2 = c.dynamics_factor * c.dynamics_factor;
    let run = |k: Kind| vw(k, d / cc, draw_margin(k, c, n) / cc, o);
    let (v1, w1) = run(Kind::Precise)?;
    let (a, jump) = near_jump(|| run(Kind::Approx));
    let (v2, w2) = a?;
    let (v3, w3) = if jump { run(Kind::Flip)? } else { (v2, w2) };
    let team = |t: &[TrueSkillRating], sg: f64| -> Option<Vec<[V; 2]>> {
        t.iter()
            .map(|p| {
                let var = p.uncertainty * p.uncertainty + tau2;
                let f = |v: f64, w: f64| (p.rating + sg * var / cc * v, (var * (1.0 - w.min(1.0) * var / (cc * cc))).sqrt());
                let (a, b, c) = (f(v1, w1), f(v2, w2), f(v3, w3));
                let far = |x: f64, y: f64, z: f64| if (y - x).abs() >= (z - x).abs() { y } else { z };
                combine(a, (far(a.0, b.0, c.0), far(a.1, b.1, c.1)), 1).map(|r| [r[0], r[1]])
            })
            .collect()
    };
    Some((team(t1, 1.0)?, team(t2, -1.0)?))
}

#[derive(Clone, Copy, Default)]
struct N {
    pi: f64,
    tau: f64,
}

/// Posterior (mean, sigma) per team and player in input order.
type Post = Vec<Vec<(f64, f64)>>;

/// Expectation propagation on the TrueSkill graph, written over team sums.
///
/// Only the messages between the team-performance variables and the truncated
/// differences iterate; players see their team's message once at the end.
/// Returns the posteriors after the sweep that satisfies `min_delta`, and, where an earlier sweep
/// satisfied `early` already, the posteriors after that one: the change of a sweep is a square root of a
/// difference of precisions, so next to the threshold rounding decides which sweep is the last.
/// `None` if the tail is too deep.
#[allow(clippy::too_many_arguments)]
pub fn ep(k: Kind, teams: &[&[TrueSkillRating]], ranks: &[usize], w: &[Vec<f64>], c: &TrueSkillConfig, sweeps: usize, min_delta: f64, early: f64) -> Option<(Post, Option<Post>)> {
    let n = teams.len();
    let mut ord: Vec<usize> = (0..n).collect();
    ord.sort_by_key(|&i| ranks[i]);
    let tau2 = c.dynamics_factor * c.dynamics_factor;
    let b2 = c.beta * c.beta;
    // team priors (mean, variance)
    let prior: Vec<(f64, f64)> = ord
        .iter()
        .map(|&i| {
            let mut m = 0.0;
            let mut v = 0.0;
            for (p, &wt) in teams[i].iter().zip(&w[i]) {
                m += wt * p.rating;
                v += wt * wt * (p.uncertainty * p.uncertainty + tau2 + b2);
            }
            (m, v)
        })
        .collect();
    let pn: Vec<N> = prior.iter().map(|&(m, v)| N { pi: 1.0 / v, tau: m / v }).collect();
    let m = n - 1;
    // messages from difference x to its upper (x) and lower (x+1) team, and truncation messages
    let mut up0 = vec![N::default(); m];
    let mut up1 = vec![N::default(); m];
    let mut tr = vec![N::default(); m];
    let eps: Vec<f64> = (0..m)
        .map(|x| draw_margin(k, c, (teams[ord[x]].len() + teams[ord[x + 1]].len()) as f64))
        .collect();
    let outc: Vec<O> = (0..m).map(|x| if ranks[ord[x]] == ranks[ord[x + 1]] { O::DRAW } else { O::WIN }).collect();
    if outc.iter().any(|o| degenerate(c, *o)) {
        return None;
    }
    // what team x tells difference x (everything but that difference) ...
    let a_msg = |x: usize, up1: &[N]| {
        let mut g = pn[x];
        if x > 0 {
            g.pi += up1[x - 1].pi;
            g.tau += up1[x - 1].tau;
        }
        g
    };
    // ... and what team x+1 tells difference x
    let b_msg = |x: usize, up0: &[N]| {
        let mut g = pn[x + 1];
        if x + 1 < m {
            g.pi += up0[x + 1].pi;
            g.tau += up0[x + 1].tau;
        }
        g
    };
    let trunc = |x: usize, tr: &mut [N], up0: &[N], up1: &[N]| -> Option<f64> {
        let a = a_msg(x, up1);
        let b = b_msg(x, up0);
        let mean = a.tau / a.pi - b.tau / b.pi;
        let var = 1.0 / a.pi + 1.0 / b.pi;
        let sd = var.sqrt();
        let (v, wv) = vw(k, mean / sd, eps[x] / sd, outc[x])?;
        // so far out, 1 - w (and what is divided by it) is down to its last digits
        if !(1.0 - wv > 1e-13) || mean.abs().max((mean - eps[x]).abs()) > 300.0 * sd {
            return None;
        }
        let m2 = mean + sd * v;
        let v2 = var * (1.0 - wv);
        let post = N { pi: 1.0 / v2, tau: m2 / v2 };
        // change of the difference's marginal in this step
        let before = N { pi: 1.0 / var + tr[x].pi, tau: mean / var + tr[x].tau };
        let delta = (before.tau - post.tau).abs().max((before.pi - post.pi).abs().sqrt());
        tr[x] = N { pi: post.pi - 1.0 / var, tau: post.tau - mean / var };
        Some(delta)
    };
    // message from the difference to one team, given the truncation message
    let to_team = |tmsg: N, other: N, sign: f64| -> N {
        // d = t_upper - t_lower ; t_upper = d + t_lower ; t_lower = t_upper - d
        if tmsg.pi == 0.0 {
            return N::default();
        }
        let md = tmsg.tau / tmsg.pi;
        let vd = 1.0 / tmsg.pi;
        let mo = other.tau / other.pi;
        let vo = 1.0 / other.pi;
        let mean = if sign > 0.0 { md + mo } else { mo - md };
        let v = vd + vo;
        N { pi: 1.0 / v, tau: mean / v }
    };
    let finish = |tr: &[N], mut up0: Vec<N>, mut up1: Vec<N>| -> Option<Post> {
        up0[0] = to_team(tr[0], b_msg(0, &up0), 1.0);
        up1[m - 1] = to_team(tr[m - 1], a_msg(m - 1, &up1), -1.0);
        let mut out = vec![Vec::new(); n];
        for (x, &i) in ord.iter().enumerate() {
            let mut msg = N::default();
            if x > 0 {
                msg.pi += up1[x - 1].pi;
                msg.tau += up1[x - 1].tau;
            }
            if x < m {
                msg.pi += up0[x].pi;
                msg.tau += up0[x].tau;
            }
            let (pm, pv) = prior[x];
            for (p, &wt) in teams[i].iter().zip(&w[i]) {
                let var = p.uncertainty * p.uncertainty + tau2;
                if wt == 0.0 || msg.pi == 0.0 {
                    out[i].push((p.rating, var.sqrt()));
                    continue;
                }
                // observation: sum_j w_j perf_j ~ N(tau/pi, 1/pi)
                let tot = pv + 1.0 / msg.pi;
                let gain = wt * var / tot;
                let mean = p.rating + gain * (msg.tau / msg.pi - pm);
                let v = var - gain * wt * var;
                out[i].push((mean, v.sqrt()));
            }
        }
        for t in &out {
            for p in t {
                if !p.0.is_finite() || !(p.1 > 0.0) {
                    return None;
                }
            }
        }
        Some(out)
    };
    let mut first = None;
    for _ in 0..sweeps {
        let mut delta: f64 = 0.0;
        if m == 1 {
            delta = trunc(0, &mut tr, &up0, &up1)?;
        } else {
            for x in 0..m - 1 {
                delta = delta.max(trunc(x, &mut tr, &up0, &up1)?);
                up1[x] = to_team(tr[x], a_msg(x, &up1), -1.0);
            }
            for x in (1..m).rev() {
                delta = delta.max(trunc(x, &mut tr, &up0, &up1)?);
                up0[x] = to_team(tr[x], b_msg(x, &up0), 1.0);
            }
        }
        if delta <= min_delta {
            break;
        }
        if delta <= early && first.is_none() {
            first = Some(finish(&tr, up0.clone(), up1.clone())?);
        }
    }
    Some((finish(&tr, up0, up1)?, first))
}

/// Interval of acceptable posteriors.
pub fn multi_ref(teams: &[&[TrueSkillRating]], ranks: &[usize], w: &[Vec<f64>], c: &TrueSkillConfig) -> Option<Vec<Vec<[(f64, f64); 2]>>> {
    let run = |k: Kind| ep(k, teams, ranks, w, c, 10, 1e-4, 5e-4);
    let (p, p0) = run(Kind::Precise)?;
    let (q, jump) = near_jump(|| run(Kind::Approx));
    let (q, q0) = q?;
    let (f, _) = ep(Kind::Precise, teams, ranks, w, c, 400, 1e-12, 0.0)?;
    // further acceptable results
    let mut more: Vec<Post> = p0.into_iter().chain(q0).collect();
    if jump {
        let (r, r0) = run(Kind::Flip)?;
        more.push(r);
        more.extend(r0);
    }
    let mut out = Vec::new();
    for i in 0..teams.len() {
        let mut t = Vec::new();
        for j in 0..teams[i].len() {
            let h = |g: &dyn Fn(&(f64, f64)) -> f64, s: f64| {
                let (a, b, c) = (g(&p[i][j]), g(&q[i][j]), g(&f[i][j]));
                let (mut lo, mut hi, mut far) = (a.min(b), a.max(b), (a - b).abs());
                for x in &more {
                    let x = g(&x[i][j]);
                    (lo, hi, far) = (lo.min(x), hi.max(x), far.max((x - a).abs()));
                }
                let tol = 4.0 * if jump { far } else { (a - b).abs() } + 0.05 * (a - c).abs() + 1e-6 * s;
                (lo.min(c) - tol, hi.max(c) + tol)
            };
            let a = p[i][j];
            t.push([h(&|x| x.0, 1.0 + a.0.abs() + 3.0 * a.1), h(&|x| x.1, 0.1 + 3.0 * a.1)]);
        }
        out.push(t);
    }
    Some(out)
}

/// Closed-form match quality for any number of teams (Cholesky, log domain).
pub fn quality(teams: &[&[TrueSkillRating]], w: Option<&[Vec<f64>]>, c: &TrueSkillConfig) -> Option<f64> {
    let m = teams.len() - 1;
    let wt = |i: usize, j: usize| w.map_or(1.0, |w| w[i][j]);
    // rows of A^T: team i minus team i+1
    let s = |i: usize| -> (f64, f64, f64) {
        let (mut a, mut v, mut mean) = (0.0, 0.0, 0.0);
        for (j, p) in teams[i].iter().enumerate() {
            let q = wt(i, j);
            a += q * q;
            v += q * q * p.uncertainty * p.uncertainty;
            mean += q * p.rating;
        }
        (a * c.beta * c.beta, v, mean)
    };
    let st: Vec<_> = (0..=m).map(s).collect();
    let tri = |with_var: bool| -> Option<(Vec<f64>, Vec<f64>)> {
        // tridiagonal: diag_i = x_i + x_{i+1}; off_i = -x_{i+1}
        let x: Vec<f64> = st.iter().map(|t| t.0 + if with_var { t.1 } else { 0.0 }).collect();
        // LDL^T
        let mut d = vec![0.0; m];
        let mut l = vec![0.0; m];
        for i in 0..m {
            let diag = x[i] + x[i + 1];
            if i == 0 {
                d[0] = diag;
            } else {
                let off = -x[i];
                l[i] = off / d[i - 1];
                d[i] = diag - l[i] * off;
            }
            if !(d[i] > 0.0) {
                return None;
            }
        }
        Some((d, l))
    };
    let (d0, _) = tri(false)?;
    let (d1, l1) = tri(true)?;
    let mut y = vec![0.0; m];
    let mut quad = 0.0;
    for i in 0..m {
        let b = st[i].2 - st[i + 1].2;
        y[i] = b - if i > 0 { l1[i] * y[i - 1] } else { 0.0 };
        quad += y[i] * y[i] / d1[i];
    }
    let logdet: f64 = d0.iter().map(|x| x.ln()).sum::<f64>() - d1.iter().map(|x| x.ln()).sum::<f64>();
    Some((0.5 * logdet - 0.5 * quad).exp())
}
