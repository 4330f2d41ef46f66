//! Workload generation: numbers, counts, outcomes, lists, mutations.
use crate::eng::{G, Rng};
use skillratings::Outcomes;

pub const OUTS: [Outcomes; 3] = [Outcomes::WIN, Outcomes::DRAW, Outcomes::LOSS];

pub fn nudge(v: f64, up: bool) -> f64 {
    if v == 0.0 {
        return if up { f64::from_bits(1) } else { -f64::from_bits(1) };
    }
    let b = v.to_bits();
    let n = if (v > 0.0) == up { b + 1 } else { b - 1 };
    let w = f64::from_bits(n);
    if w.is_finite() {
        w
    } else {
        v
    }
}

/// The customary scale of one quantity: hard limits and a typical range.
#[derive(Clone, Copy)]
pub struct Sc {
    pub lo: f64,
    pub hi: f64,
    pub tlo: f64,
    pub thi: f64,
}
pub const fn sc(lo: f64, hi: f64, tlo: f64, thi: f64) -> Sc {
    Sc { lo, hi, tlo, thi }
}

impl G {
    fn literal(&mut self) -> f64 {
        let d = self.dict;
        if !d.novel.is_empty() && self.r.chance(0.75) {
            if d.novel.len() > 1 && self.r.chance(0.2) {
                let a = *self.r.pick(&d.novel);
                let b = *self.r.pick(&d.novel);
                return match self.r.below(4) {
                    0 => self.r.range(a.min(b), a.max(b)),
                    1 => a + b,
                    2 => a * b,
                    _ => f64::midpoint(a, b),
                };
            }
            return *self.r.pick(&d.novel);
        }
        *self.r.pick(&d.all)
    }
    fn fuzz_lit(&mut self) -> f64 {
        let l = self.literal();
        let v = match self.r.below(14) {
            0..=3 => l,
            4 => nudge(l, true),
            5 => nudge(l, false),
            6 => l + 0.5,
            7 => l - 0.5,
            8 => l + 1.0,
            9 => l - 1.0,
            10 => l * self.r.range(0.9, 1.1),
            11 => l + self.r.range(0.0, 2.0) * l.abs().max(1.0),
            12 => l * 0.5,
            _ => l + self.eps(),
        };
        if self.r.chance(0.12) {
            -v
        } else {
            v
        }
    }
    pub fn eps(&mut self) -> f64 {
        let m = 10f64.powf(self.r.range(-12.0, 0.5));
        if self.r.chance(0.5) {
            m
        } else {
            -m
        }
    }
    /// A number on the scale `s`.
    pub fn num(&mut self, s: Sc) -> f64 {
        for _ in 0..6 {
            let v = self.num_raw(s);
            if v >= s.lo && v <= s.hi && v.is_finite() {
                if self.recent.len() < 24 {
                    self.recent.push(v);
                } else {
                    let i = self.r.below(24);
                    self.recent[i] = v;
                }
                return v;
            }
        }
        let v = self.r.range(s.tlo, s.thi);
        self.recent.push(v);
        v
    }
    fn num_raw(&mut self, s: Sc) -> f64 {
        let novel = !self.dict.novel.is_empty();
        if novel && self.r.chance(0.3) {
            return self.fuzz_lit();
        }
        if novel && !self.recent.is_empty() && self.r.chance(0.15) {
            let l = self.fuzz_lit();
            let v = *self.r.pick(&self.recent);
            return match self.r.below(6) {
                0 | 1 => v + l,
                2 | 3 => v - l,
                4 => l - v,
                _ => v * l,
            };
        }
        match self.r.below(20) {
            0..=4 => self.r.range(s.tlo, s.thi),
            5 | 6 => self.r.range(s.tlo, s.thi).round(),
            7 => {
                let st = *self.r.pick(&[0.1, 0.25, 0.5, 5.0, 10.0, 25.0, 50.0, 100.0]);
                (self.r.range(s.tlo, s.thi) / st).round() * st
            }
            8 | 9 => self.r.range(s.lo, s.hi),
            10 | 11 if !self.recent.is_empty() => {
                let v = *self.r.pick(&self.recent);
                match self.r.below(8) {
                    0..=2 => v,
                    3 => nudge(v, true),
                    4 => nudge(v, false),
                    5 => v + self.eps(),
                    _ => v + self.eps() * (s.thi - s.tlo) * 0.1,
                }
            }
            12 if !self.recent.is_empty() => {
                let v = *self.r.pick(&self.recent);
                let l = self.fuzz_lit();
                if self.r.chance(0.5) {
                    v + l
                } else {
                    v - l
                }
            }
            13 if !self.recent.is_empty() => {
                // a difference that gives a prescribed probability
                let v = *self.r.pick(&self.recent);
                let p = if self.r.chance(0.5) {
                    f64::from(1 + self.r.below(99) as u32) / 100.0
                } else {
                    self.r.range(1e-6, 1.0 - 1e-6)
                };
                let scale = *self.r.pick(&[400.0, 600.0, 173.7178, s.thi - s.tlo]);
                let d = scale * (p / (1.0 - p)).log10();
                v + d
            }
            14 | 15 => self.fuzz_lit(),
            16 => *self.r.pick(&[s.lo, s.hi, s.tlo, s.thi]),
            17 => {
                let b = *self.r.pick(&[s.lo, s.hi, s.tlo, s.thi]);
                b + self.eps()
            }
            18 => {
                // log-uniform between a small and a large magnitude
                let hi = s.hi.abs().max(s.lo.abs()).max(1e-6);
                let lo = if s.lo > 0.0 { s.lo } else { hi * 1e-9 };
                let v = (self.r.range(lo.ln(), hi.ln())).exp();
                if s.lo < 0.0 && self.r.chance(0.3) {
                    -v
                } else {
                    v
                }
            }
            _ => self.r.range(s.tlo, s.thi),
        }
    }
    /// An integer in [lo, hi], mostly in [lo, typ].
    pub fn int(&mut self, lo: usize, hi: usize, typ: usize) -> usize {
        let novel = !self.dict.novel.is_empty();
        let c = if novel && self.r.chance(0.35) { 6 } else { self.r.below(12) };
        let v = match c {
            0..=4 => lo + self.r.below(typ.saturating_sub(lo) + 1),
            5 | 6 => {
                let l = self.literal();
                let l = if l.fract() == 0.0 && (0.0..1e9).contains(&l) { l as i64 } else { lo as i64 + self.r.below(10) as i64 };
                let k = l + self.r.below(5) as i64 - 2;
                k.max(0) as usize
            }
            7 => {
                let b = 1usize << self.r.below(((hi as f64).log2() as usize + 2).clamp(8, 63));
                (b + self.r.below(3)).saturating_sub(1)
            }
            8 => lo + self.r.below(3),
            9 => hi.saturating_sub(self.r.below(3)),
            10 => {
                let h = (hi as f64 + 1.0).ln();
                self.r.range(0.0, h).exp() as usize
            }
            _ => lo + self.r.below(30),
        };
        if v < lo || v > hi {
            lo + self.r.below(typ.saturating_sub(lo) + 1)
        } else {
            v
        }
    }
    pub fn out(&mut self) -> Outcomes {
        *self.r.pick(&OUTS)
    }
    /// Number of games / list length.
    pub fn len(&mut self, max: usize) -> usize {
        let novel = !self.dict.novel.is_empty();
        let x = self.r.below(1000);
        let v = if novel && x < 120 {
            let l = *self.r.pick(&self.dict.novel);
            if l.fract() == 0.0 && l >= 0.0 && l <= 4096.0 {
                // unusual numbers of the source are worth a longer list than the caller had in mind
                return ((l as i64 + self.r.below(4) as i64 - 1).max(0) as usize).min(max.max(320));
            } else {
                self.r.below(9)
            }
        } else {
            match x {
                0..=159 => self.r.below(2),
                160..=759 => 1 + self.r.below(8),
                760..=899 => 8 + self.r.below(26),
                900..=939 => 33 + self.r.below(100),
                940..=969 => {
                    let l = *self.r.pick(&self.dict.all);
                    if l.fract() == 0.0 && (0.0..400.0).contains(&l) {
                        (l as i64 + self.r.below(3) as i64 - 1).max(0) as usize
                    } else {
                        self.r.below(12)
                    }
                }
                970..=989 => (1usize << self.r.below(9)) + self.r.below(3),
                990..=997 => 100 + self.r.below(300),
                _ => 300 + self.r.below(1200),
            }
        };
        v.min(max)
    }
    /// An outcome list with streaks.
    pub fn outs(&mut self, n: usize) -> Vec<Outcomes> {
        let style = self.r.below(8);
        let fixed = self.out();
        (0..n)
            .map(|_| match style {
                0 => fixed,
                1 => {
                    if self.r.chance(0.9) {
                        fixed
                    } else {
                        self.out()
                    }
                }
                _ => self.out(),
            })
            .collect()
    }
}

/// Copies the earlier element (or a near copy) with some probability, to obtain repeated opponents.
pub fn dup_index(r: &mut Rng, i: usize) -> Option<usize> {
    if i > 0 && r.chance(0.12) {
        Some(r.below(i))
    } else {
        None
    }
}
