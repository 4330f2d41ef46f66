//! C15: results depend only on the arguments. Every public function is called through a table of call sites;
//! a call is named by (function, seed, mutation) and its arguments are regenerated from that name, so that the
//! same call can be made again in another order, on another thread, in another process or under a sanitizer.
use crate::eng::{mix, mon, serial, Mon, Monitor, Rng, G};
use crate::gen::OUTS;
use crate::pa::{pair, Unc6};
use crate::pb::gen_weights;
use crate::sys::*;
use crate::team::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::Read;

// ------------------------------------------------------------------ allocation monitor
pub struct Count;
thread_local! {
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
}
fn note(blocks: i64, bytes: i64) {
    let _ = BLOCKS.try_with(|c| c.set(c.get() + blocks));
    let _ = BYTES.try_with(|c| c.set(c.get() + bytes));
}
// SAFETY: forwards to the system allocator.
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(1, l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(1, l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-1, -(l.size() as i64));
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(0, n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
fn live() -> (i64, i64) {
    (BLOCKS.with(Cell::get), BYTES.with(Cell::get))
}

// ------------------------------------------------------------------ calls
type Bits = Vec<u64>;
type CallFn = fn(&mut G, usize) -> Bits;
/// marks a call that changed its arguments
pub const TOUCHED: u64 = 0xBAD0_A465_BAD0_A465;
const MUTS: usize = 18;

fn put<S: Sys>(out: &mut Bits, r: &S::R) {
    out.extend(S::comps(r).map(f64::to_bits));
}
struct Args<S: Sys> {
    a: S::R,
    b: S::R,
    c: S::C,
    x: S::X,
    o: O,
    l: Vec<(S::R, O, S::X)>,
}
/// Arguments of a call; `mu` changes one of them.
fn args<S: Sys>(g: &mut G, mu: usize, list: bool) -> Args<S> {
    let (mut a, mut b, mut c, mut x) = pair::<S>(g);
    let mut o = g.out();
    let n = if list { g.r.below(7) } else { 0 };
    let mut l = S::gen_list(g, &a, &c, n);
    let bump = |g: &mut G, r: &S::R| {
        let k = S::comps(r)[0];
        let d = *g.r.pick(&[1.0, 0.5, -1.0, 1e-6, 13.0]);
        S::with_rating(r, k + d)
    };
    let before = (a, b, c.clone(), x, l.clone());
    match mu {
        1 => a = bump(g, &a),
        2 => b = bump(g, &b),
        3 => a = S::with_unc(&a, S::comps(&a)[1] * 0.97),
        4 => b = S::with_unc(&b, S::comps(&b)[1] * 0.97),
        5 => o = inv(o),
        6 => o = OUTS[(pts(o) * 2.0) as usize],
        7 => c = S::gen_c(g),
        8 => x = S::gen_x(g),
        9 => {
            l.pop();
        }
        10 if n > 1 => l.swap(0, n - 1),
        11 if n > 0 => {
            let i = g.r.below(n);
            let y = bump(g, &l[i].0);
            if S::ok(&a, &y, &c, l[i].2) {
                l[i].0 = y;
            }
            l[i].1 = inv(l[i].1);
        }
        // unusual but legal calls
        12 => l.clear(),
        13 if n > 0 && !cfg!(miri) => {
            let m = *g.r.pick(&[8usize, 17, 40, 130]);
            l = (0..m).map(|i| l[i % n].clone()).collect();
        }
        14 => b = a,
        15 => (a, b) = (b, a),
        16 => {
            let s = S::gen_r(g);
            a = s;
        }
        17 => {
            let s = S::gen_r(g);
            b = s;
        }
        _ => {}
    }
    let ok = S::ok(&a, &b, &c, x) && S::ok(&b, &a, &c, x) && l.iter().all(|t| S::ok(&a, &t.0, &c, t.2)) && S::comps(&a)[0] >= if S::NAME == "uscf" { 100.0 } else { f64::MIN };
    if ok {
        Args { a, b, c, x, o, l }
    } else {
        let (a, b, c, x, l) = before;
        Args { a, b, c, x, o, l }
    }
}
fn same<S: Sys>(v: &Args<S>, w: &(Bits, Bits)) -> bool {
    let mut p = Vec::new();
    put::<S>(&mut p, &v.a);
    put::<S>(&mut p, &v.b);
    let mut q = Vec::new();
    v.l.iter().for_each(|t| put::<S>(&mut q, &t.0));
    p == w.0 && q == w.1
}
fn snap<S: Sys>(v: &Args<S>) -> (Bits, Bits) {
    let (mut p, mut q) = (Vec::new(), Vec::new());
    put::<S>(&mut p, &v.a);
    put::<S>(&mut p, &v.b);
    v.l.iter().for_each(|t| put::<S>(&mut q, &t.0));
    (p, q)
}
fn done<S: Sys>(v: &Args<S>, w: &(Bits, Bits), mut out: Bits) -> Bits {
    if !same(v, w) {
        out.push(TOUCHED);
    }
    out
}
fn rate<S: Sys>(g: &mut G, mu: usize) -> Bits {
    let v = args::<S>(g, mu, false);
    let w = snap(&v);
    let (p, q) = S::rate(&v.a, &v.b, v.o, &v.c, v.x);
    let mut out = Vec::new();
    put::<S>(&mut out, &p);
    put::<S>(&mut out, &q);
    done(&v, &w, out)
}
fn exp<S: Sys>(g: &mut G, mu: usize) -> Bits {
    let v = args::<S>(g, mu, false);
    let w = snap(&v);
    let (p, q) = S::exp(&v.a, &v.b, &v.c, v.x);
    done(&v, &w, vec![p.to_bits(), q.to_bits()])
}
fn period<S: Sys>(g: &mut G, mu: usize) -> Bits {
    let v = args::<S>(g, mu, true);
    let w = snap(&v);
    let p = S::period(&v.a, &v.l, &v.c);
    let mut out = Vec::new();
    put::<S>(&mut out, &p);
    done(&v, &w, out)
}
fn exp_period<S: Sys>(g: &mut G, mu: usize) -> Bits {
    let v = args::<S>(g, mu, true);
    let w = snap(&v);
    let l: Vec<_> = v.l.iter().map(|t| (t.0, t.2)).collect();
    let p = S::exp_period(&v.a, &l, &v.c);
    done(&v, &w, p.iter().map(|x| x.to_bits()).collect())
}
fn idle<S: Unc6>(g: &mut G, mu: usize) -> Bits {
    let v = args::<S>(g, mu, false);
    let mut out = Vec::new();
    put::<S>(&mut out, &S::decay(&v.a, &v.c).unwrap());
    let (lo, hi) = S::interval(&v.a).unwrap();
    out.extend([lo.to_bits(), hi.to_bits()]);
    out
}
struct TArgs<S: Tm> {
    t: Vec<Vec<S::R>>,
    ranks: Vec<usize>,
    c: S::C,
}
fn targs<S: Tm>(g: &mut G, mu: usize) -> TArgs<S> {
    let mut mt = gen_multi::<S>(g, 6, false);
    if cfg!(miri) {
        // interpreted: small games only
        mt.t.truncate(3);
        mt.ranks.truncate(3);
        mt.t.iter_mut().for_each(|x| x.truncate(2));
    }
    let i = g.r.below(mt.t.len());
    let j = if mt.t[i].is_empty() { 0 } else { g.r.below(mt.t[i].len()) };
    match mu {
        1 | 2 if !mt.t[i].is_empty() => {
            let k = S::comps(&mt.t[i][j])[0];
            mt.t[i][j] = S::with_rating(&mt.t[i][j], k + 0.5);
        }
        3 | 4 if !mt.t[i].is_empty() => {
            let k = S::comps(&mt.t[i][j])[1];
            mt.t[i][j] = S::with_unc(&mt.t[i][j], k * 0.97);
        }
        5 | 6 => mt.ranks.reverse(),
        7 | 8 => mt.c = S::gen_c(g),
        9 if mt.t.len() > 2 => {
            mt.t.pop();
            mt.ranks.pop();
        }
        10 => {
            let k = mt.t.len() - 1;
            mt.t.swap(0, k);
        }
        11 => mt.ranks = gen_ranks(g, mt.t.len(), false),
        // unusual but legal calls
        12 => mt.t[i].clear(),
        13 => {
            mt.t.truncate(1);
            mt.ranks.truncate(1);
        }
        14 => {
            let x = mt.t[i].clone();
            mt.t.push(x);
            mt.ranks.push(usize::MAX);
        }
        15 if !mt.t[i].is_empty() => {
            let x = mt.t[i][j];
            mt.t[i].push(x);
        }
        16 => {
            let k = mt.t.len() - 1;
            mt.t[k].clear();
        }
        17 => mt.t.iter_mut().for_each(Vec::clear),
        _ => {}
    }
    TArgs { t: mt.t, ranks: mt.ranks, c: mt.c }
}
fn puts<S: Tm>(out: &mut Bits, v: &[Vec<S::R>]) {
    for x in v {
        out.push(x.len() as u64);
        x.iter().for_each(|r| put::<S>(out, r));
    }
}
fn two<S: Tm>(g: &mut G, mu: usize) -> Bits {
    let v = targs::<S>(g, mu);
    let k = v.t.len() - 1;
    let (p, q) = S::two(&v.t[0], &v.t[k], OUTS[v.ranks[0] % 3], &v.c);
    let (e, f) = S::exp2(&v.t[0], &v.t[k], &v.c);
    let mut out = vec![e.to_bits(), f.to_bits()];
    puts::<S>(&mut out, &[p, q]);
    out
}
fn multi<S: Tm>(g: &mut G, mu: usize) -> Bits {
    let v = targs::<S>(g, mu);
    let k = key_t::<S>(&v.t, &v.ranks);
    let mut out: Bits = Vec::new();
    puts::<S>(&mut out, &S::multi(&v.t, &v.ranks, &v.c));
    out.extend(S::expm(&v.t, &v.c).iter().map(|x| x.to_bits()));
    if k != key_t::<S>(&v.t, &v.ranks) {
        out.push(TOUCHED);
    }
    out
}
fn weighted(g: &mut G, mu: usize) -> Bits {
    let v = targs::<STs>(g, if mu == 2 { 0 } else { mu });
    let mut w = gen_weights(g, &v.t);
    match mu {
        6 => {
            w.pop();
        }
        9 if !w[0].is_empty() => {
            w[0].pop();
        }
        10 if !w[0].is_empty() => w[0][0] = -1.0,
        _ => {}
    }
    if mu == 2 && !w[0].is_empty() {
        w[0][0] = 0.5;
    }
    let mut out: Bits = Vec::new();
    match ts_multi(&v.t, &v.ranks, &v.c, Some(&w)) {
        Ok(r) => puts::<STs>(&mut out, &r),
        Err(e) => out.push(crate::eng::hash_str(&e.to_string())),
    }
    match ts_quality(&v.t, &v.c, Some(&w)) {
        Ok(q) => out.push(q.to_bits()),
        Err(_) => out.push(7),
    }
    out
}
fn quality(g: &mut G, mu: usize) -> Bits {
    use skillratings::trueskill::{get_rank, match_quality, match_quality_rating_period, match_quality_two_teams};
    let v = targs::<STs>(g, mu);
    let k = v.t.len() - 1;
    let mut out: Bits = Vec::new();
    if let (Some(a), Some(b)) = (v.t[0].first(), v.t[k].first()) {
        out.push(match_quality(a, b, &v.c).to_bits());
        out.push(get_rank(a).to_bits());
        out.extend(match_quality_rating_period(a, &v.t[k], &v.c).iter().map(|x| x.to_bits()));
    }
    out.push(match_quality_two_teams(&v.t[0], &v.t[k], &v.c).to_bits());
    out.push(ts_quality(&v.t, &v.c, None).map_or(7, f64::to_bits));
    out
}
fn first_dwz(g: &mut G, mu: usize) -> Bits {
    let v = args::<SDwz>(g, mu, true);
    let l: Vec<_> = v.l.iter().map(|t| (t.0, t.1)).collect();
    let mut out = Vec::new();
    match skillratings::dwz::get_first_dwz(v.a.age, &l) {
        Ok(r) => put::<SDwz>(&mut out, &r),
        Err(_) => out.push(3),
    }
    out
}
macro_rules! table {
    ($($n:literal $s:ident),*) => {{
        let mut v: Vec<(&'static str, CallFn)> = Vec::new();
        $(
            v.push((concat!($n, " game"), rate::<$s>));
            v.push((concat!($n, " expected_score"), exp::<$s>));
            v.push((concat!($n, " rating period"), period::<$s>));
            v.push((concat!($n, " expected_score_rating_period"), exp_period::<$s>));
        )*
        v
    }};
}
pub fn calls() -> Vec<(&'static str, CallFn)> {
    let mut v = table!(
        "elo" SElo, "fifa" SFifa, "glicko" SGlicko, "glicko2" SGlicko2, "glicko_boost" SBoost, "sticko" SSticko,
        "dwz" SDwz, "ingo" SIngo, "uscf" SUscf, "egf" SEgf, "weng_lin" SWl, "trueskill" STs
    );
    v.push(("glicko decay", idle::<SGlicko>));
    v.push(("glicko2 decay", idle::<SGlicko2>));
    v.push(("glicko_boost decay", idle::<SBoost>));
    v.push(("sticko decay", idle::<SSticko>));
    v.push(("weng_lin two teams", two::<SWl>));
    v.push(("trueskill two teams", two::<STs>));
    v.push(("weng_lin multi", multi::<SWl>));
    v.push(("trueskill multi", multi::<STs>));
    v.push(("trueskill weighted", weighted));
    v.push(("trueskill quality", quality));
    v.push(("dwz first", first_dwz));
    v
}
fn exec(f: CallFn, dict: &'static crate::dict::Dict, seed: u64, mu: usize) -> Bits {
    let mut g = G { r: Rng::new(seed), dict, recent: Vec::new(), thorough: false };
    f(&mut g, mu)
}
fn fold(b: &[u64]) -> u64 {
    b.iter().fold(b.len() as u64, |h, x| mix(h ^ *x))
}

// ------------------------------------------------------------------ in-process monitors
fn repeat(g: &mut G, m: &mut Mon) {
    let cs = calls();
    let i = g.r.below(cs.len());
    let (name, f) = cs[i];
    let seed = g.r.u64();
    let mu = g.r.below(MUTS);
    let k = mix(seed ^ i as u64);
    let d = g.dict;
    let base = exec(f, d, seed, mu);
    m.check("arguments", k, !base.contains(&TOUCHED), || format!("{name} changed its arguments (seed {seed:#x}, mutation {mu})"));
    for step in 0..6 {
        // something in between: a neighbour of the same call, or another function
        let (n2, f2) = if g.r.chance(0.7) { (name, f) } else { cs[g.r.below(cs.len())] };
        let mu2 = g.r.below(MUTS);
        let s2 = if g.r.chance(0.8) { seed } else { g.r.u64() };
        let _ = exec(f2, d, s2, mu2);
        let again = exec(f, d, seed, mu);
        m.check("repeat", mix(k ^ step), again == base, || format!("{name} (seed {seed:#x}, mutation {mu}) gives different bits after {n2} (seed {s2:#x}, mutation {mu2}): {base:x?} then {again:x?}"));
    }
    // neighbours in both orders, each order on a thread of its own
    let mu2 = g.r.below(MUTS);
    let (r1, r2) = std::thread::scope(|s| {
        let a = s.spawn(move || (exec(f, d, seed, mu), exec(f, d, seed, mu2)));
        let b = s.spawn(move || {
            let y = exec(f, d, seed, mu2);
            (exec(f, d, seed, mu), y)
        });
        (a.join(), b.join())
    });
    if let (Ok(r1), Ok(r2)) = (r1, r2) {
        m.check("fresh-threads", mix(k ^ mu2 as u64), r1 == r2 && r1.0 == base, || format!("{name} (seed {seed:#x}, mutations {mu}, {mu2}): one order gives {r1:x?}, the other {r2:x?}"));
    }
    // storage
    let n = 40;
    for _ in 0..2 {
        drop(exec(f, d, seed, mu));
    }
    let (b0, y0) = live();
    for _ in 0..n {
        drop(exec(f, d, seed, mu));
    }
    let (b1, y1) = live();
    m.check("storage", k, b1 - b0 < n && y1 - y0 < n * 8, || format!("{name} (seed {seed:#x}, mutation {mu}): {n} identical calls keep {} blocks, {} bytes", b1 - b0, y1 - y0));
}
/// Many different calls of one function: whatever it may remember must stay bounded.
fn hoard(g: &mut G, m: &mut Mon) {
    let cs = calls();
    let i = g.r.below(cs.len());
    let (name, f) = cs[i];
    let seed = g.r.u64();
    let d = g.dict;
    let n = if g.thorough { 40_000u64 } else { 12_000 };
    let grown = std::thread::spawn(move || {
        let mut r = Rng::new(seed);
        let mut run = |n| {
            for _ in 0..n {
                let (s, mu) = (r.u64(), r.below(MUTS));
                drop(exec(f, d, s, mu));
            }
            live().1
        };
        let a = run(n);
        let b = run(3 * n);
        b - a
    })
    .join();
    match grown {
        Ok(y) => m.check("hoard", mix(seed), y < n as i64 * 8, || format!("{name} (seed {seed:#x}): {} different calls after the first {n} keep {y} bytes", 3 * n)),
        Err(_) => m.check("hoard", mix(seed), false, || format!("{name} (seed {seed:#x}): a call panics")),
    }
}
/// The same call, very often: counters and the like.
fn marathon(g: &mut G, m: &mut Mon) {
    let cs = calls();
    let seed = g.r.u64();
    let i = (seed % cs.len() as u64) as usize;
    let (name, f) = cs[i];
    let base = fold(&exec(f, g.dict, seed, 0));
    let n = if g.thorough { 20_000 } else { 3_000 };
    let mut bad = None;
    for r in 0..n {
        if fold(&exec(f, g.dict, seed, 0)) != base {
            bad = Some(r);
            break;
        }
    }
    m.check("marathon", mix(seed), bad.is_none(), || format!("{name} (seed {seed:#x}): repetition {bad:?} differs"));
}

fn script(seed: u64, n: usize) -> Vec<(usize, u64, usize)> {
    let k = calls().len();
    let mut r = Rng::new(seed);
    let mut v = Vec::with_capacity(n);
    let mut s = 0;
    let mut f = 0;
    // interpreted: pairs of calls that visit every function in turn
    let group = if cfg!(miri) { 2 } else { 5 };
    while v.len() < n {
        if v.len() % group == 0 {
            s = r.u64();
            f = if cfg!(miri) { v.len() / 2 % k } else { r.below(k) };
        }
        v.push((f, s, if v.len() % group == 0 { 0 } else { r.below(MUTS) }));
    }
    v
}
fn order(n: usize, style: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    match style {
        0 => {}
        1 => v.reverse(),
        s => Rng::new(mix(s)).shuffle(&mut v),
    }
    v
}
/// `vp trace seed n style`: runs the script in the given order and prints the results in script order.
pub fn trace(dict: &'static crate::dict::Dict, seed: u64, n: usize, style: u64) {
    use std::io::Write;
    let cs = calls();
    let sc = script(seed, n);
    let mut out = vec![0u64; n];
    for i in order(n, style) {
        let (f, s, mu) = sc[i];
        out[i] = std::panic::catch_unwind(|| fold(&exec(cs[f].1, dict, s, mu))).unwrap_or(0xDEAD);
    }
    let bytes: Vec<u8> = out.iter().flat_map(|x| x.to_le_bytes()).collect();
    let _ = std::io::stdout().write_all(&bytes);
}
/// The same script in other orders, each in a process of its own.
fn processes(g: &mut G, m: &mut Mon) {
    let seed = g.r.u64();
    let n = if g.thorough { 150_000 } else { 40_000 };
    let exe = std::env::current_exe().expect("own path");
    let styles = [0u64, 1, 2 + g.r.below(1000) as u64, 5000 + g.r.below(1000) as u64];
    let kids: Vec<_> = styles
        .iter()
        .enumerate()
        .map(|(i, st)| {
            std::process::Command::new(&exe)
                .args(["trace", &seed.to_string(), &n.to_string(), &st.to_string()])
                .env("VP_CHILD", format!("{:width$}", i, width = 1 + i * 700))
                .env("LC_ALL", ["C", "de_DE.UTF-8", "C.UTF-8", "POSIX"][i])
                .env("TZ", ["UTC", "Asia/Tokyo", "America/New_York", "Europe/Berlin"][i])
                .current_dir(["/", "/tmp", "/usr", "/"][i])
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::null())
                .spawn()
                .expect("child")
        })
        .collect();
    // the pipes are read concurrently
    let outs: Vec<(Vec<u64>, bool)> = std::thread::scope(|s| {
        let hs: Vec<_> = kids
            .into_iter()
            .map(|mut k| {
                s.spawn(move || {
                    let mut b = Vec::new();
                    let _ = k.stdout.take().expect("pipe").read_to_end(&mut b);
                    let ok = k.wait().is_ok_and(|x| x.success());
                    (b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect(), ok)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("reader")).collect()
    });
    let cs = calls();
    let sc = script(seed, n);
    for (i, (o, ok)) in outs.iter().enumerate() {
        m.check("process", mix(seed ^ i as u64), *ok && o.len() == n, || format!("a process running the script (seed {seed:#x}, order {}) ended after {} of {n} results", styles[i], o.len()));
    }
    if outs.iter().all(|o| o.0.len() == n) {
        for i in 0..n {
            let v: Vec<u64> = outs.iter().map(|o| o.0[i]).collect();
            let (f, s, mu) = sc[i];
            m.check("order", mix(s ^ mu as u64 ^ (f as u64) << 8), v.iter().all(|x| *x == v[0]), || {
                format!("{} (seed {s:#x}, mutation {mu}), call {i} of {n}: processes that run the calls in the orders {styles:?} get {v:x?}", cs[f].0)
            });
        }
    }
}
/// All functions from eight threads at once, against the single-threaded results.
pub fn crowd(dict: &'static crate::dict::Dict, seed: u64, n: usize, threads: usize) -> (u64, Vec<String>) {
    let cs = calls();
    let sc = script(seed, n);
    let want: Vec<u64> = sc.iter().map(|(f, s, mu)| fold(&exec(cs[*f].1, dict, *s, *mu))).collect();
    let bad = std::sync::Mutex::new(Vec::new());
    let go = std::sync::Barrier::new(threads);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (cs, sc, want, bad, go) = (&cs, &sc, &want, &bad, &go);
            s.spawn(move || {
                go.wait();
                for (j, i) in order(n, t as u64).into_iter().enumerate() {
                    let (f, sd, mu) = sc[i];
                    let r = fold(&exec(cs[f].1, dict, sd, mu));
                    if r != want[i] && !cfg!(miri) {
                        bad.lock().unwrap().push(format!("{} (seed {sd:#x}, mutation {mu}) in thread {t}: {r:x}, alone {:x}", cs[f].0, want[i]));
                    }
                    if j % 61 == t * 7 {
                        std::thread::yield_now();
                    }
                }
            });
        }
    });
    ((n * (threads + 1)) as u64, bad.into_inner().unwrap())
}
fn threads(g: &mut G, m: &mut Mon) {
    let seed = g.r.u64();
    let n = 6_000;
    let (calls, bad) = crowd(g.dict, seed, n, 8);
    for i in 0..calls {
        m.check("threads", mix(seed ^ i), i > 0 || bad.is_empty(), || format!("{} results differ, first {}", bad.len(), bad.first().cloned().unwrap_or_default()));
    }
}
/// Reports of the sanitizer runs made by run.sh before this process (VP_SAN names the file).
fn sanitizers(_: &mut G, m: &mut Mon) {
    let Some(p) = std::env::var_os("VP_SAN") else {
        m.skip("sanitizers not run");
        return;
    };
    let t = std::fs::read_to_string(p).unwrap_or_default();
    for l in t.lines() {
        let w: Vec<&str> = l.splitn(4, ' ').collect();
        if w.len() < 3 {
            continue;
        }
        let class: &'static str = match w[0] {
            "tsan" => "thread-sanitizer",
            "asan" => "address-sanitizer",
            "miri" => "miri",
            _ => "valgrind",
        };
        match w[1] {
            "unavailable" => m.skip(class),
            v => m.check(class, crate::eng::hash_str(l), v == "clean", || l.to_string()),
        }
    }
}
pub fn m15() -> Vec<Monitor> {
    vec![
        mon("c15/repeat", 3_000, repeat),
        mon("c15/marathon", 200, marathon),
        mon("c15/hoard", 12, hoard),
        serial("c15/processes", 1, processes),
        serial("c15/threads", 2, threads),
        // one case, whatever the tier
        Monitor { name: "c15/sanitizers", f: sanitizers, quick: 0.0, serial: true },
    ]
}
