//! Input dictionary: numeric literals mined from the source under test.
//!
//! It only steers the workload (which values the generators like to use);
//! no verdict depends on it.
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub struct Dict {
    /// all literals of the non-test source
    pub all: Vec<f64>,
    /// literals that the reference snapshot of the source does not have (in the same file)
    pub novel: Vec<f64>,
    pub files: usize,
}

fn rs_files(dir: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            rs_files(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.push(p);
        }
    }
}

/// Literals of one file, comments and the trailing test module removed.
pub fn literals(src: &str) -> Vec<String> {
    let mut body = String::new();
    for line in src.lines() {
        if line.trim_start().starts_with("#[cfg(test)]") {
            break;
        }
        let l = line.split("//").next().unwrap_or("");
        body.push_str(l);
        body.push('\n');
    }
    let b: Vec<char> = body.chars().collect();
    let mut i = 0;
    let mut out = Vec::new();
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_alphabetic() || c == '_' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                i += 1;
            }
        } else if c.is_ascii_digit() {
            let s = i;
            let hex = c == '0' && i + 1 < b.len() && b[i + 1] == 'x';
            if hex {
                i += 2;
                while i < b.len() && (b[i].is_ascii_hexdigit() || b[i] == '_') {
                    i += 1;
                }
                let t: String = b[s + 2..i].iter().filter(|c| **c != '_').collect();
                if let Ok(v) = u64::from_str_radix(&t, 16) {
                    out.push((v as f64).to_string());
                }
                continue;
            }
            while i < b.len() && (b[i].is_ascii_digit() || b[i] == '_') {
                i += 1;
            }
            if i < b.len() && b[i] == '.' && !(i + 1 < b.len() && (b[i + 1] == '.' || b[i + 1].is_ascii_alphabetic())) {
                i += 1;
                while i < b.len() && (b[i].is_ascii_digit() || b[i] == '_') {
                    i += 1;
                }
            }
            if i < b.len() && (b[i] == 'e' || b[i] == 'E') && i + 1 < b.len() && (b[i + 1].is_ascii_digit() || b[i + 1] == '-' || b[i + 1] == '+') {
                i += 2;
                while i < b.len() && (b[i].is_ascii_digit() || b[i] == '_') {
                    i += 1;
                }
            }
            let t: String = b[s..i].iter().filter(|c| **c != '_').collect();
            // suffix
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            if let Ok(v) = t.parse::<f64>() {
                out.push(v.to_string());
            }
        } else {
            i += 1;
        }
    }
    out
}

pub fn scan(root: &Path) -> BTreeMap<String, BTreeMap<String, usize>> {
    let mut fs = Vec::new();
    rs_files(root, &mut fs);
    let mut m = BTreeMap::new();
    for f in fs {
        let Ok(s) = std::fs::read_to_string(&f) else { continue };
        let mut c: BTreeMap<String, usize> = BTreeMap::new();
        for l in literals(&s) {
            *c.entry(l).or_insert(0) += 1;
        }
        m.insert(f.strip_prefix(root).unwrap_or(&f).display().to_string(), c);
    }
    m
}

pub fn dump(root: &Path) -> String {
    let mut o = String::new();
    for (f, c) in scan(root) {
        for (l, n) in c {
            o.push_str(&format!("{f}\t{l}\t{n}\n"));
        }
    }
    o
}

impl Dict {
    pub fn load(root: &Path, baseline: &str) -> Dict {
        let mut base: BTreeMap<(String, String), usize> = BTreeMap::new();
        for l in baseline.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            if p.len() == 3 {
                base.insert((p[0].into(), p[1].into()), p[2].parse().unwrap_or(0));
            }
        }
        let sc = scan(root);
        let mut all = Vec::new();
        let mut novel = Vec::new();
        for (f, c) in &sc {
            for (l, n) in c {
                let v: f64 = l.parse().unwrap_or(0.0);
                all.push(v);
                if *n > *base.get(&(f.clone(), l.clone())).unwrap_or(&0) {
                    novel.push(v);
                }
            }
        }
        all.sort_by(f64::total_cmp);
        all.dedup();
        // for trials of the monitors themselves
        if let Ok(x) = std::env::var("VP_NOVEL") {
            novel.extend(x.split(',').filter_map(|v| v.parse::<f64>().ok()));
        }
        novel.sort_by(f64::total_cmp);
        novel.dedup();
        if all.is_empty() {
            all.push(1.0);
        }
        Dict { all, novel, files: sc.len() }
    }
}
