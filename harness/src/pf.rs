//! C20: stored ratings come back unchanged (built with the `serde` feature).
use crate::eng::{mix, mon, Mon, Monitor, G};
use crate::gen::sc;
use crate::sys::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Map, Value};
use skillratings::{dwz, egf, elo, fifa, glicko, glicko2, glicko_boost, ingo, sticko, trueskill, uscf, weng_lin};
use skillratings::{MultiTeamOutcome, Outcomes};

/// bit-exact identity
trait Same {
    fn id(&self, o: &mut Vec<u64>);
}
impl Same for f64 {
    fn id(&self, o: &mut Vec<u64>) {
        o.push(self.to_bits());
    }
}
impl Same for usize {
    fn id(&self, o: &mut Vec<u64>) {
        o.push(*self as u64);
    }
}
impl Same for bool {
    fn id(&self, o: &mut Vec<u64>) {
        o.push(u64::from(*self));
    }
}
impl Same for (f64, f64) {
    fn id(&self, o: &mut Vec<u64>) {
        o.extend([self.0.to_bits(), self.1.to_bits()]);
    }
}
impl Same for (f64, f64, f64, f64, f64) {
    fn id(&self, o: &mut Vec<u64>) {
        o.extend([self.0, self.1, self.2, self.3, self.4].map(f64::to_bits));
    }
}
impl Same for Outcomes {
    fn id(&self, o: &mut Vec<u64>) {
        o.push(match self {
            Outcomes::WIN => 1,
            Outcomes::DRAW => 2,
            Outcomes::LOSS => 3,
        });
    }
}
impl Same for MultiTeamOutcome {
    fn id(&self, o: &mut Vec<u64>) {
        o.push(self.rank() as u64);
    }
}
fn id<T: Same>(t: &T) -> Vec<u64> {
    let mut o = Vec::new();
    t.id(&mut o);
    o
}
/// any finite number, or one on the scale of ratings
fn fl(g: &mut G) -> f64 {
    match g.r.below(8) {
        0 => loop {
            let v = f64::from_bits(g.r.u64());
            if v.is_finite() {
                return v;
            }
        },
        1 => *g.r.pick(&[0.0, -0.0, 1.0, 0.1, 1e300, -1e300, 5e-324, f64::MAX, f64::MIN, f64::EPSILON, 350.0, 0.06]),
        2 => g.r.range(-1.0, 1.0),
        3 => g.r.range(-4000.0, 4000.0).round(),
        _ => g.num(sc(-5000.0, 5000.0, 0.0, 3000.0)),
    }
}
fn us(g: &mut G) -> usize {
    match g.r.below(6) {
        0 => usize::MAX - g.r.below(3),
        1 => g.r.u64() as usize,
        2 => (1 << g.r.below(63)) + g.r.below(3) - 1,
        _ => g.int(0, 1 << 33, 40),
    }
}

fn round<T: Same + Serialize + DeserializeOwned>(m: &mut Mon, name: &'static str, x: &T) -> Option<Value> {
    let want = id(x);
    let k = mix(want.iter().fold(crate::eng::hash_str(name), |h, v| mix(h ^ v)));
    let v = serde_json::to_value(x);
    let ok = v.as_ref().is_ok_and(|v| serde_json::from_value::<T>(v.clone()).is_ok_and(|y| id(&y) == want));
    m.check("value", k, ok, || format!("{name} with bits {want:x?} as a value is {v:?} and comes back as {:x?}", v.as_ref().ok().and_then(|v| serde_json::from_value::<T>(v.clone()).ok()).map(|y| id(&y))));
    let t = serde_json::to_string(x);
    let ok = t.as_ref().is_ok_and(|t| serde_json::from_str::<T>(t).is_ok_and(|y| id(&y) == want));
    m.check("text", k, ok, || format!("{name} with bits {want:x?} as text is {t:?} and comes back as {:x?}", t.as_ref().ok().and_then(|v| serde_json::from_str::<T>(v).ok()).map(|y| id(&y))));
    let b = bincode::serialize(x);
    let ok = b.as_ref().is_ok_and(|b| bincode::deserialize::<T>(b).is_ok_and(|y| id(&y) == want));
    m.check("binary", k, ok, || format!("{name} with bits {want:x?} in binary is {b:?} and comes back as {:x?}", b.as_ref().ok().and_then(|v| bincode::deserialize::<T>(v).ok()).map(|y| id(&y))));
    v.ok()
}
fn fields<T: Same + Serialize + DeserializeOwned>(g: &mut G, m: &mut Mon, name: &'static str, x: &T, fs: &[(&str, Value)]) {
    let want = id(x);
    let k = mix(want.iter().fold(crate::eng::hash_str(name), |h, v| mix(h ^ v)));
    let Some(v) = round(m, name, x) else { return };
    let doc: Map<String, Value> = fs.iter().map(|(n, v)| ((*n).to_string(), v.clone())).collect();
    m.check("fields", k, v == Value::Object(doc.clone()), || format!("{name} is stored as {v}, documented fields {}", Value::Object(doc.clone())));
    // written by hand from the documentation, in another order
    let mut fs2: Vec<_> = fs.to_vec();
    g.r.shuffle(&mut fs2);
    let t = format!("{{{}}}", fs2.iter().map(|(n, v)| format!("\"{n}\": {v}")).collect::<Vec<_>>().join(", "));
    let y = serde_json::from_str::<T>(&t);
    m.check("by-hand", k, y.as_ref().is_ok_and(|y| id(y) == want), || format!("{name} from {t}: {:?}", y.as_ref().map(id).map_err(ToString::to_string)));
    // a field is missing or is not what it should be
    let i = g.r.below(fs.len());
    let mut d = doc.clone();
    d.remove(fs[i].0);
    let y = serde_json::from_value::<T>(Value::Object(d));
    m.check("missing", mix(k ^ i as u64), y.is_err(), || format!("{name} without {} is accepted as {:x?}", fs[i].0, y.as_ref().map(id).ok()));
    for bad in [json!("12"), json!(null), json!({}), json!([])] {
        let mut d = doc.clone();
        d.insert(fs[i].0.to_string(), bad.clone());
        let y = serde_json::from_value::<T>(Value::Object(d));
        m.check("mistyped", mix(k ^ i as u64 ^ crate::eng::hash_str(&bad.to_string())), y.is_err(), || format!("{name} with {} = {bad} is accepted as {:x?}", fs[i].0, y.as_ref().map(id).ok()));
    }
}
macro_rules! ty {
    ($fnname:ident, $t:path, $name:literal, { $($f:ident : $gen:expr),* }) => {
        impl Same for $t {
            fn id(&self, o: &mut Vec<u64>) {
                $( self.$f.id(o); )*
            }
        }
        fn $fnname(g: &mut G, m: &mut Mon) {
            let mut x = <$t as Mk>::mk();
            $( x.$f = $gen(g); )*
            let fs = [ $( (stringify!($f), json!(x.$f)) ),* ];
            fields(g, m, $name, &x, &fs);
        }
    };
}
trait Mk {
    fn mk() -> Self;
}
macro_rules! mk {
    ($($t:path = $e:expr),* $(,)?) => { $( impl Mk for $t { fn mk() -> Self { $e } } )* };
}
mk!(
    elo::EloRating = Default::default(), fifa::FifaRating = Default::default(), glicko::GlickoRating = Default::default(),
    glicko2::Glicko2Rating = Default::default(), glicko_boost::GlickoBoostRating = Default::default(), sticko::StickoRating = Default::default(),
    dwz::DWZRating = dwz::DWZRating::new(26), ingo::IngoRating = ingo::IngoRating::new(26), uscf::USCFRating = uscf::USCFRating::new(26),
    egf::EGFRating = Default::default(), weng_lin::WengLinRating = Default::default(), trueskill::TrueSkillRating = Default::default(),
    elo::EloConfig = Default::default(), fifa::FifaConfig = Default::default(), glicko::GlickoConfig = Default::default(),
    glicko2::Glicko2Config = Default::default(), glicko_boost::GlickoBoostConfig = Default::default(), sticko::StickoConfig = Default::default(),
    uscf::USCFConfig = Default::default(), egf::EGFConfig = Default::default(), weng_lin::WengLinConfig = Default::default(),
    trueskill::TrueSkillConfig = Default::default(),
);
fn bo(g: &mut G) -> bool {
    g.r.chance(0.5)
}
fn f2(g: &mut G) -> (f64, f64) {
    (fl(g), fl(g))
}
fn f5(g: &mut G) -> (f64, f64, f64, f64, f64) {
    (fl(g), fl(g), fl(g), fl(g), fl(g))
}
ty!(t_elo, elo::EloRating, "EloRating", { rating: fl });
ty!(t_fifa, fifa::FifaRating, "FifaRating", { rating: fl });
ty!(t_glicko, glicko::GlickoRating, "GlickoRating", { rating: fl, deviation: fl });
ty!(t_glicko2, glicko2::Glicko2Rating, "Glicko2Rating", { rating: fl, deviation: fl, volatility: fl });
ty!(t_boost, glicko_boost::GlickoBoostRating, "GlickoBoostRating", { rating: fl, deviation: fl });
ty!(t_sticko, sticko::StickoRating, "StickoRating", { rating: fl, deviation: fl });
ty!(t_dwz, dwz::DWZRating, "DWZRating", { rating: fl, index: us, age: us });
ty!(t_ingo, ingo::IngoRating, "IngoRating", { rating: fl, age: us });
ty!(t_uscf, uscf::USCFRating, "USCFRating", { rating: fl, games: us });
ty!(t_egf, egf::EGFRating, "EGFRating", { rating: fl });
ty!(t_wl, weng_lin::WengLinRating, "WengLinRating", { rating: fl, uncertainty: fl });
ty!(t_ts, trueskill::TrueSkillRating, "TrueSkillRating", { rating: fl, uncertainty: fl });
ty!(t_eloc, elo::EloConfig, "EloConfig", { k: fl });
ty!(t_fifac, fifa::FifaConfig, "FifaConfig", { importance: fl, knockout: bo, penalties: bo });
ty!(t_glickoc, glicko::GlickoConfig, "GlickoConfig", { c: fl });
ty!(t_glicko2c, glicko2::Glicko2Config, "Glicko2Config", { tau: fl, convergence_tolerance: fl });
ty!(t_boostc, glicko_boost::GlickoBoostConfig, "GlickoBoostConfig", { eta: fl, k: fl, b: f2, alpha: f5 });
ty!(t_stickoc, sticko::StickoConfig, "StickoConfig", { h: fl, beta: fl, lambda: fl, gamma: fl, c: fl });
ty!(t_uscfc, uscf::USCFConfig, "USCFConfig", { t: fl });
ty!(t_egfc, egf::EGFConfig, "EGFConfig", { handicap: fl });
ty!(t_wlc, weng_lin::WengLinConfig, "WengLinConfig", { beta: fl, uncertainty_tolerance: fl });
ty!(t_tsc, trueskill::TrueSkillConfig, "TrueSkillConfig", { draw_probability: fl, beta: fl, dynamics_factor: fl });

fn outcomes(g: &mut G, m: &mut Mon) {
    for (o, n) in [(Outcomes::WIN, "WIN"), (Outcomes::DRAW, "DRAW"), (Outcomes::LOSS, "LOSS")] {
        let v = round(m, "Outcomes", &o);
        m.check("variant", crate::eng::hash_str(n), v == Some(json!(n)), || format!("{o:?} is stored as {v:?}"));
    }
    for bad in [json!("TIE"), json!("win"), json!(1), json!(null), json!(0.5)] {
        let y = serde_json::from_value::<Outcomes>(bad.clone());
        m.check("mistyped", crate::eng::hash_str(&bad.to_string()), y.is_err(), || format!("{bad} is accepted as {y:?}"));
    }
    let r = us(g);
    let x = MultiTeamOutcome::new(r);
    let v = round(m, "MultiTeamOutcome", &x);
    m.check("rank", r as u64, v == Some(json!(r)), || format!("rank {r} is stored as {v:?}"));
    for bad in [json!("1"), json!(-1), json!(1.5), json!(null)] {
        let y = serde_json::from_value::<MultiTeamOutcome>(bad.clone());
        m.check("mistyped", crate::eng::hash_str(&bad.to_string()), y.is_err(), || format!("{bad} is accepted as {y:?}"));
    }
}

/// A history that is stored and loaded on the way ends exactly like one that is not.
fn history<S: Sys>(g: &mut G, m: &mut Mon)
where
    S::R: Serialize + DeserializeOwned,
    S::C: Serialize + DeserializeOwned,
    S::X: Serialize + DeserializeOwned,
{
    let c = S::gen_c(g);
    let n = 2 + g.r.below(5);
    let mut t: Vec<S::R> = (0..n).map(|_| S::gen_r(g)).collect();
    let mut u = t.clone();
    let mut d = c.clone();
    let start = t.clone();
    for ev in 0..4 + g.r.below(30) {
        if g.r.chance(0.4) {
            let (a, b) = if g.r.chance(0.5) {
                (serde_json::to_string(&u).ok().and_then(|s| serde_json::from_str(&s).ok()), serde_json::to_string(&d).ok().and_then(|s| serde_json::from_str(&s).ok()))
            } else {
                (bincode::serialize(&u).ok().and_then(|s| bincode::deserialize(&s).ok()), bincode::serialize(&d).ok().and_then(|s| bincode::deserialize(&s).ok()))
            };
            let (Some(a), Some(b)) = (a, b) else {
                m.check("load", key_r::<S>(&u[0]), u.iter().any(|r| !S::comps(r)[0].is_finite()), || format!("{}: {u:?} {d:?} cannot be stored and loaded", S::NAME));
                return;
            };
            (u, d) = (a, b);
        }
        let i = g.r.below(n);
        let j = (i + 1 + g.r.below(n - 1)) % n;
        let x = S::gen_x(g);
        let o = g.out();
        if !S::ok(&t[i], &t[j], &c, x) || !S::ok(&t[j], &t[i], &c, x) {
            continue;
        }
        let y: S::X = serde_json::to_string(&x).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(x);
        let oo: O = serde_json::to_string(&o).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(o);
        if g.r.chance(0.7) {
            (t[i], t[j]) = S::rate(&t[i], &t[j], o, &c, x);
            (u[i], u[j]) = S::rate(&u[i], &u[j], oo, &d, y);
        } else {
            t[i] = S::period(&t[i], &[(t[j], o, x)], &c);
            u[i] = S::period(&u[i], &[(u[j], oo, y)], &d);
        }
        let bits = |v: &[S::R]| -> Vec<[u64; 3]> { v.iter().map(|r| S::comps(r).map(f64::to_bits)).collect() };
        m.check("history", mix(key_r::<S>(&t[i]) ^ ev as u64), bits(&t) == bits(&u), || format!("{} started as {start:?} {c:?}: after game {ev} {t:?}, with store and load on the way {u:?}", S::NAME));
    }
}
pub fn m20() -> Vec<Monitor> {
    let mut v = vec![
        mon("c20/EloRating", 4000, t_elo),
        mon("c20/FifaRating", 4000, t_fifa),
        mon("c20/GlickoRating", 4000, t_glicko),
        mon("c20/Glicko2Rating", 4000, t_glicko2),
        mon("c20/GlickoBoostRating", 4000, t_boost),
        mon("c20/StickoRating", 4000, t_sticko),
        mon("c20/DWZRating", 4000, t_dwz),
        mon("c20/IngoRating", 4000, t_ingo),
        mon("c20/USCFRating", 4000, t_uscf),
        mon("c20/EGFRating", 4000, t_egf),
        mon("c20/WengLinRating", 4000, t_wl),
        mon("c20/TrueSkillRating", 4000, t_ts),
        mon("c20/EloConfig", 2000, t_eloc),
        mon("c20/FifaConfig", 2000, t_fifac),
        mon("c20/GlickoConfig", 2000, t_glickoc),
        mon("c20/Glicko2Config", 2000, t_glicko2c),
        mon("c20/GlickoBoostConfig", 2000, t_boostc),
        mon("c20/StickoConfig", 2000, t_stickoc),
        mon("c20/USCFConfig", 2000, t_uscfc),
        mon("c20/EGFConfig", 2000, t_egfc),
        mon("c20/WengLinConfig", 2000, t_wlc),
        mon("c20/TrueSkillConfig", 2000, t_tsc),
        mon("c20/outcomes", 3000, outcomes),
    ];
    crate::pa::all12!(v, "c20/history", 1500, history);
    v
}
