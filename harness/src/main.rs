//! `vp`: runs the monitors of one property against the crate in /repo.
//!
//!   vp run <ID>            one check (VERIF_SEED, VERIF_TIER)
//!   vp replay <file>       re-executes the case of a replay file, verbosely
//!   vp list                the registered monitors
//!   vp dump-literals       snapshot of the numeric literals of the source
mod dict;
mod eng;
mod gen;
mod pa;
mod pb;
mod pc;
mod pd;
mod pe;
#[cfg(feature = "serde")]
mod pf;
mod pg;
mod ph;
mod pi;
mod sys;
mod team;
mod ts;

use dict::Dict;
use eng::{js, Monitor};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::exit;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: pe::Count = pe::Count;


pub fn root() -> PathBuf {
    std::env::var_os("VP_ROOT").map_or_else(|| Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf(), PathBuf::from)
}
/// Where the source is scanned for literals (VP_REPO: trials of the monitors on a copy).
fn repo_src() -> PathBuf {
    Path::new(&std::env::var("VP_REPO").unwrap_or_else(|_| "/repo".into())).join("src")
}
fn load_dict() -> &'static Dict {
    if cfg!(miri) {
        // interpreting the source scan would take longer than the calls
        return Box::leak(Box::new(Dict { all: vec![0.0, 1.0, 2.0, 0.5, 100.0, 350.0, 400.0, 1500.0], novel: Vec::new(), files: 0 }));
    }
    let base = std::fs::read_to_string(root().join("harness/baseline_literals.txt")).unwrap_or_default();
    Box::leak(Box::new(Dict::load(&repo_src(), &base)))
}

fn monitors(id: &str) -> Vec<Monitor> {
    let mut v = regular(id);
    // these counts are absolute
    v.extend(pg::extra(id).into_iter().map(|m| Monitor { quick: m.quick / quick_factor(id), ..m }));
    v
}
fn regular(id: &str) -> Vec<Monitor> {
    match id {
        "C01" => pa::m01(),
        "C02" => pa::m02(),
        "C03" => pa::m03(),
        "C04" => pa::m04(),
        "C05" => pa::m05(),
        "C06" => pa::m06(),
        "C07" => pa::m07(),
        "C08" => pa::m08(),
        "C09" => pb::m09(),
        "C10" => pb::m10(),
        "C11" => pb::m11(),
        "C12" => pb::m12(),
        "C13" => pb::m13(),
        "C14" => pb::m14(),
        "C15" => pe::m15(),
        "C16" => pb::m16(),
        "C17" => pb::m17(),
        "C18" => pb::m18(),
        "C19" => pb::m19(),
        #[cfg(feature = "serde")]
        "C20" => pf::m20(),
        "C21" => pc::m21(),
        "C22" => pc::m22(),
        "C23" => pc::m23(),
        "C24" => pc::m24(),
        "C25" => pc::m25(),
        "C26" => pc::m26(),
        "C27" => pc::m27(),
        "C28" => pc::m28(),
        "C29" => pc::m29(),
        "C30" => pc::m30(),
        "C31" => pc::m31(),
        "C32" => pc::m32(),
        "C33" => pd::m33(),
        "C34" => pc::m34(),
        "C35" => ph::m35(),
        "C36" => ph::m36(),
        "C37" => pi::m37(),
        "C38" => pi::m38(),
        _ => Vec::new(),
    }
}
pub const IDS: [&str; 38] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19",
    "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32", "C33", "C34", "C35", "C36", "C37", "C38",
];

/// Case counts of the quick tier are multiplied by this: about 15 to 20 s of monitoring on eight cores.
fn quick_factor(id: &str) -> f64 {
    match id {
        "C01" => 80.0,
        "C02" => 120.0,
        "C03" => 90.0,
        "C04" | "C06" => 45.0,
        "C05" => 150.0,
        "C07" | "C11" | "C13" => 100.0,
        "C08" | "C16" | "C19" | "C22" | "C24" | "C29" => 200.0,
        "C09" | "C14" => 40.0,
        "C10" | "C20" => 80.0,
        "C15" => 15.0,
        "C17" => 20.0,
        "C18" | "C23" | "C25" | "C30" => 130.0,
        "C31" => 30.0,
        "C32" => 25.0,
        "C33" => 20.0,
        "C35" => 60.0,
        "C36" => 240.0,
        "C38" => 40.0,
        _ => 250.0,
    }
}

/// Writes a replay file and returns its path.
fn write_replay(id: &str, monitor: &str, seed: u64, tier: &str, class: &str, detail: &str) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{id}-{}-{seed:016x}.txt", monitor.replace('/', "_")));
    let body = format!(
        "property={id}\nmonitor={monitor}\ncase-seed={seed:#018x}\ntier={tier}\nclass={class}\n{detail}\n\nre-execute: bash {}/run.sh replay {}\n",
        root().display(),
        p.display()
    );
    let _ = std::fs::write(&p, body);
    p
}

/// Runs the check in a child process, so that a call that kills its process (stack overflow, failed allocation,
/// memory error) or does not return is observed too. Such a case is executed once more on its own; only if it
/// dies or hangs again it is a violation.
fn supervise(id: &str) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let dir = root().join("target");
    let _ = std::fs::create_dir_all(&dir);
    let board = dir.join(format!("board-{}", std::process::id()));
    let _ = std::fs::write(&board, vec![0u8; eng::BOARD_WORDS * 8]);
    let st = std::process::Command::new(&exe).args(["run", id]).env("VP_CHILD", "1").env("VP_BOARD", &board).status();
    let words: Vec<u64> = std::fs::read(&board).unwrap_or_default().chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap_or_default())).collect();
    let _ = std::fs::remove_file(&board);
    let st = match st {
        Ok(st) => st,
        Err(e) => {
            eprintln!("cannot start the monitors: {e}");
            return 2;
        }
    };
    match st.code() {
        Some(c) if c != eng::HUNG => return c,
        _ => eprintln!("{id}: the monitored process ended with {st}"),
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") { "thorough" } else { "quick" };
    let mons = monitors(id);
    for c in words.chunks(2) {
        let (mi, cs) = (c[0], c[1]);
        if mi == 0 || mi as usize > mons.len() {
            continue;
        }
        let m = &mons[mi as usize - 1];
        let Ok(mut child) = std::process::Command::new(&exe).args(["case", id, m.name, &format!("{cs:x}"), tier]).stdout(std::process::Stdio::null()).spawn() else { continue };
        let t0 = Instant::now();
        let detail = loop {
            match child.try_wait() {
                Ok(Some(s)) if s.code().is_none() => break Some(("death", format!("monitor={} case-seed={cs:#x} ends the whole process with {s} (in two executions)", m.name))),
                Ok(Some(_)) | Err(_) => break None,
                Ok(None) => {}
            }
            if t0.elapsed() > Duration::from_secs(60) {
                let _ = child.kill();
                let _ = child.wait();
                break Some(("hang", format!("monitor={} case-seed={cs:#x} did not return within 60 s (in two executions)", m.name)));
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        if let Some((class, detail)) = detail {
            let p = write_replay(id, m.name, cs, tier, class, &detail);
            println!("{detail}");
            let ev = format!(
                "{{\"property\":\"{id}\",\"tier\":\"{tier}\",\"seed\":{seed},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":1,\"distinct_nontrivial\":1,\"rule\":\"stopped at a call that does not return or kills its process\",\"samples\":[{}]}},\"wall_s\":60,\"violations\":1}}",
                js(&detail)
            );
            let _ = std::fs::create_dir_all(root().join("evidence"));
            let _ = std::fs::write(root().join(format!("evidence/{id}.json")), ev);
            println!("VIOLATION property={id} replay={}", p.display());
            return 1;
        }
    }
    eprintln!("{id}: no answer, none of the cases in progress fails on its own");
    2
}

/// One case on its own; the exit code says nothing.
fn lone_case(id: &str, mname: &str, seed: &str, tier: &str) -> i32 {
    let seed = u64::from_str_radix(seed, 16).expect("seed");
    let d = load_dict();
    let Some(m) = monitors(id).into_iter().find(|m| m.name == mname) else { return 0 };
    let tier = tier == "thorough";
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || eng::run_case(&m, seed, d, tier, &mut eng::Mon::default()));
    let _ = h.map(std::thread::JoinHandle::join);
    0
}

/// Findings listed for this property in the committed file.
fn listed_findings(id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for l in t.lines() {
        if let Some(rest) = l.strip_prefix("finding: ") {
            let mut w = rest.splitn(3, ' ');
            let (Some(k), Some(p), Some(what)) = (w.next(), w.next(), w.next()) else { continue };
            if p == format!("property={id}") {
                v.push((k.trim_start_matches("id=").to_string(), what.to_string()));
            }
        }
    }
    v
}

fn run(id: &str) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let tier = if thorough { "thorough" } else { "quick" };
    let mut mons = monitors(id);
    if let Ok(f) = std::env::var("VP_ONLY") {
        mons.retain(|m| m.name.contains(&f));
    }
    if mons.is_empty() {
        eprintln!("{id}: no monitor is built into this binary");
        return 2;
    }
    let d = load_dict();
    let factor: f64 = std::env::var("VP_FACTOR").ok().and_then(|s| s.parse().ok()).unwrap_or(quick_factor(id) * if thorough { 30.0 } else { 1.0 });
    let factor = factor * std::env::var("VP_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
    let budget = Duration::from_secs(if thorough { 780 } else { 240 });
    let t0 = Instant::now();
    let o = eng::run_monitors(&mons, seed, d, factor, thorough, Duration::from_secs(60), budget);
    let wall = t0.elapsed().as_secs_f64();

    let listed = listed_findings(id);
    let mut viol = o.total.violations.clone();
    let mut known_lines = Vec::new();
    for (k, (n, what)) in &o.total.known {
        if let Some((_, text)) = listed.iter().find(|l| l.0 == *k) {
            known_lines.push(format!("KNOWN-FINDING: property={id} {text} [{n} observations, e.g. {what}]"));
        } else {
            viol.push(eng::Violation { monitor: "known", seed, class: (*k).to_string(), detail: format!("{k} is not a listed finding of {id}: {what}") });
        }
    }
    // ---- evidence
    let mut ev = String::new();
    let classes: Vec<String> = o.total.classes.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect();
    let inc: Vec<String> = o.total.inconclusive.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect();
    let per: Vec<String> = o.per_monitor.iter().map(|(n, c, e, s)| format!("{{\"monitor\":{},\"cases\":{c},\"oracle_evaluations\":{e},\"seconds\":{s:.2}}}", js(n))).collect();
    let samples: Vec<String> = o.total.samples.iter().take(12).map(|s| js(&s.chars().take(900).collect::<String>())).collect();
    let cases: u64 = o.per_monitor.iter().map(|p| p.1).sum();
    let _ = write!(
        ev,
        "{{\"property\":\"{id}\",\"tier\":\"{tier}\",\"seed\":{seed},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"cases\":{cases},\"observations_by_class\":{{{}}},\"inconclusive\":{{{}}},\"monitors\":[{}],\"workload_dictionary\":{{\"files\":{},\"literals\":{},\"novel\":{}}},\"samples\":[{}]}},\"assumptions\":[\"the workload stays on the customary scale of each system (DESIGN.md, Domain)\"],\"wall_s\":{wall:.2},\"violations\":{}}}",
        o.total.evals,
        o.total.seen.len(),
        js("evaluations counts oracle verdicts on executions of the real functions; an observation is distinct and non-trivial when the pair (monitored inputs, verdict class) was not seen before in this run and the oracle reached a definite verdict (inconclusive ones are listed apart)"),
        classes.join(","),
        inc.join(","),
        per.join(","),
        d.files,
        d.all.len(),
        d.novel.len(),
        samples.join(","),
        viol.len()
    );
    let _ = std::fs::create_dir_all(root().join("evidence"));
    if let Err(e) = std::fs::write(root().join(format!("evidence/{id}.json")), ev + "\n") {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    println!(
        "{id} {tier} seed={seed}: {cases} cases, {} verdicts, {} distinct, {} inconclusive, {wall:.1} s{}",
        o.total.evals,
        o.total.seen.len(),
        o.total.inconclusive.values().sum::<u64>(),
        o.timed_out.as_deref().map(|t| format!(" ({t})")).unwrap_or_default()
    );
    if std::env::var_os("VP_VERBOSE").is_some() {
        for (n, c, e, s) in &o.per_monitor {
            println!("  {n}: {c} cases {e} verdicts {s:.2} s");
        }
        println!("  classes {:?}", o.total.classes);
        println!("  inconclusive {:?}", o.total.inconclusive);
    }
    for l in &known_lines {
        println!("{l}");
    }
    if !viol.is_empty() {
        let mut shown = std::collections::BTreeSet::new();
        for v in &viol {
            if shown.insert((v.monitor, v.class.clone())) && shown.len() <= 12 {
                println!("  [{} / {}] case-seed {:#x}: {}", v.monitor, v.class, v.seed, v.detail.chars().take(1500).collect::<String>());
            }
        }
        println!("  {} violating cases", viol.len());
        let v = &viol[0];
        let p = write_replay(id, v.monitor, v.seed, tier, &v.class, &v.detail);
        println!("VIOLATION property={id} replay={}", p.display());
        return 1;
    }
    if o.total.evals == 0 || o.total.seen.is_empty() {
        eprintln!("{id}: the monitors observed nothing");
        return 2;
    }
    0
}

fn replay(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).map(str::to_string).unwrap_or_default();
    let (id, mname, tier) = (get("property="), get("monitor="), get("tier="));
    let seed = u64::from_str_radix(get("case-seed=").trim_start_matches("0x"), 16).expect("case-seed");
    let d = load_dict();
    for m in monitors(&id) {
        if m.name == mname {
            let mut o = eng::Mon::default();
            o.verbose = true;
            eng::run_case(&m, seed, d, tier == "thorough", &mut o);
            for l in &o.log {
                println!("{l}");
            }
            println!("{} verdicts", o.evals);
            if let Some(v) = o.violations.first() {
                println!("[{}] {}", v.class, v.detail);
                println!("VIOLATION property={id} replay={file}");
                return 1;
            }
            println!("the case passes");
            return 0;
        }
    }
    eprintln!("no monitor {mname} for {id}");
    2
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(String::as_str).collect();
    eng::install_panic_hook();
    let rc = match a[..] {
        ["run", id] if std::env::var_os("VP_CHILD").is_none() => supervise(id),
        ["run", id] => run(id),
        ["case", id, m, seed, tier] => lone_case(id, m, seed, tier),
        ["replay", f] => replay(f),
        ["trace", seed, n, style] => {
            pe::trace(load_dict(), seed.parse().unwrap(), n.parse().unwrap(), style.parse().unwrap());
            0
        }
        ["crowd", seed, n, threads] => {
            let (calls, bad) = pe::crowd(load_dict(), seed.parse().unwrap(), n.parse().unwrap(), threads.parse().unwrap());
            println!("calls {calls} differing {}", bad.len());
            for b in bad.iter().take(3) {
                println!("{b}");
            }
            i32::from(!bad.is_empty())
        }
        ["list"] => {
            for id in IDS {
                for m in monitors(id) {
                    println!("{id} {} {}", m.name, m.quick);
                }
            }
            0
        }
        ["dump-literals"] => {
            print!("{}", dict::dump(&repo_src()));
            0
        }
        _ => {
            eprintln!("usage: vp run ID | replay FILE | list | dump-literals");
            2
        }
    };
    exit(rc);
}
