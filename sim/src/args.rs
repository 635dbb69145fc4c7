//! Operand generation. The only thing read from the source tree is its numeric literals, as a
//! dictionary that makes thresholds of the code under test likely operands.
use crate::engine::{mask, Spec};
use crate::rng::Rng;
use crate::sut::Op;
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Dict {
    /// per file stem: f64 values and raw bit patterns (32 and 64 bit)
    pub by_file: BTreeMap<String, (Vec<f64>, Vec<u32>, Vec<u64>)>,
    pub all: (Vec<f64>, Vec<u32>, Vec<u64>),
    pub files: Vec<String>,
}

fn parse_hex_float(s: &str) -> Option<f64> {
    let (neg, s) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let s = s.strip_prefix("0x")?;
    let (m, e) = s.split_once('p')?;
    let e: i32 = e.parse().ok()?;
    let (ip, fp) = m.split_once('.').unwrap_or((m, ""));
    let mut v = 0f64;
    for c in ip.chars() {
        v = v * 16.0 + c.to_digit(16)? as f64;
    }
    let mut k = 1.0 / 16.0;
    for c in fp.chars() {
        v += c.to_digit(16)? as f64 * k;
        k /= 16.0;
    }
    let r = v * 2f64.powi(e);
    Some(if neg { -r } else { r })
}

fn scan(src: &str, out: &mut (Vec<f64>, Vec<u32>, Vec<u64>)) {
    let b = src.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let prev_ident = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
        if b[i].is_ascii_digit() && !prev_ident {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'.' || ((b[i] == b'-' || b[i] == b'+') && matches!(b[i - 1], b'e' | b'p') && !src[st..i].starts_with("0x") || (b[i] == b'-' || b[i] == b'+') && b[i - 1] == b'p')) {
                if b[i] == b'.' && i + 1 < b.len() && b[i + 1] == b'.' {
                    break;
                }
                i += 1;
            }
            let mut t: String = src[st..i].chars().filter(|c| *c != '_').collect();
            for suf in ["f16", "f32", "f64", "f128", "u32", "i32", "u64", "i64", "u16", "u128", "usize"] {
                if !t.starts_with("0x") || !suf.starts_with('f') {
                    if let Some(r) = t.strip_suffix(suf) {
                        t = r.to_string();
                    }
                }
            }
            if t.starts_with("0x") {
                if t.contains('p') {
                    if let Some(v) = parse_hex_float(&t) {
                        out.0.push(v);
                    }
                } else if let Ok(v) = u64::from_str_radix(&t[2..], 16) {
                    if t.len() > 10 {
                        out.2.push(v);
                    } else {
                        out.1.push(v as u32);
                        out.0.push(v as f64);
                    }
                }
            } else if let Ok(v) = t.parse::<f64>() {
                out.0.push(v);
            }
        } else {
            i += 1;
        }
    }
}

impl Dict {
    pub fn load(src: &str) -> Dict {
        let mut d = Dict::default();
        let mut stack = vec![std::path::PathBuf::from(src)];
        while let Some(p) = stack.pop() {
            let Ok(rd) = std::fs::read_dir(&p) else { continue };
            let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            es.sort();
            for e in es {
                if e.is_dir() {
                    stack.push(e);
                } else if e.extension().is_some_and(|x| x == "rs") {
                    if let Ok(s) = std::fs::read_to_string(&e) {
                        let stem = e.file_stem().unwrap().to_string_lossy().into_owned();
                        let body = s.split("#[cfg(test)]").next().unwrap_or("");
                        scan(body, d.by_file.entry(stem).or_default());
                    }
                }
            }
        }
        for v in d.by_file.values_mut() {
            v.0.retain(|x| x.is_finite());
            v.0.sort_by(f64::total_cmp);
            v.0.dedup();
            v.1.sort();
            v.1.dedup();
            v.2.sort();
            v.2.dedup();
        }
        for v in d.by_file.values() {
            d.all.0.extend(&v.0);
            d.all.1.extend(&v.1);
            d.all.2.extend(&v.2);
        }
        d.all.0.sort_by(f64::total_cmp);
        d.all.0.dedup();
        d.all.1.sort();
        d.all.1.dedup();
        d.all.2.sort();
        d.all.2.dedup();
        d.files = d.by_file.keys().cloned().collect();
        d
    }
}

pub fn base_name(n: &str) -> &str {
    let n = n.rsplit("::").next().unwrap();
    n
}
/// Name without width suffix.
pub fn stem(n: &str) -> String {
    let n = base_name(n);
    for s in ["f128", "f16"] {
        if let Some(r) = n.strip_suffix(s) {
            return r.to_string();
        }
    }
    if n != "erf" && n != "modf" {
        if let Some(r) = n.strip_suffix('f') {
            if r.len() >= 2 {
                return r.to_string();
            }
        }
    }
    n.to_string()
}
/// Operand width of a plain (not helper) operation name.
pub fn width_of(n: &str) -> u8 {
    if n.ends_with("f128") {
        16
    } else if n.ends_with("f16") {
        2
    } else if stem(n) != n || n.ends_with("f_r") {
        4
    } else {
        8
    }
}
const FAMILIES: &[&[&str]] = &[
    &["sin", "cos", "tan", "sincos", "rem_pio2", "rem_pio2_large", "rem_pio2f", "k_sin", "k_cos", "k_tan"],
    &["exp", "exp2", "exp10", "expm1", "pow", "sinh", "cosh", "tanh", "k_expo2", "expo2", "erf", "erfc"],
    &["log", "log2", "log10", "log1p", "acosh", "asinh", "atanh"],
    &["lgamma", "lgamma_r", "tgamma"],
    &["j0", "j1", "jn", "y0", "y1", "yn"],
    &["fmod", "remainder", "remquo"],
    &["sqrt", "hypot", "cbrt", "fma", "fma_wide"],
    &["frexp", "ldexp", "scalbn", "ilogb", "modf", "nextafter"],
    &["floor", "ceil", "trunc", "rint", "round", "roundeven"],
    &["asin", "acos", "atan", "atan2"],
    &["fmin", "fmax", "fminimum", "fmaximum", "fminimum_num", "fmaximum_num", "fdim", "copysign", "fabs"],
];
pub fn family(n: &str) -> usize {
    let s = stem(n);
    FAMILIES.iter().position(|f| f.contains(&s.as_str())).unwrap_or(99)
}

pub struct Gen<'a> {
    pub dict: &'a Dict,
    /// per op: indices of dictionary files that look related
    rel: Vec<Vec<usize>>,
    /// per op: operands found by the coverage-guided search
    pub corpus: Vec<Vec<Spec>>,
    /// orders of Bessel functions go up to 2^(12 + this)
    pub big: u64,
    pi: Vec<(u8, u128)>,
}
/// What operands are interchangeable between: the same function under another name.
pub fn shape_key(op: &Op) -> String {
    let s = stem(&op.name);
    let s = if s == "lgammaf_r" { "lgamma_r".to_string() } else { s };
    format!("{s} {} {} {}", op.fw, op.nf, op.has_int as u8)
}
pub type Corpora = BTreeMap<String, Vec<([u128; 3], i32)>>;
pub fn read_corpora(path: &str) -> Corpora {
    let mut c = Corpora::new();
    if let Ok(t) = std::fs::read_to_string(path) {
        for l in t.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.len() == 8 {
                let h = |s: &str| u128::from_str_radix(s, 16).unwrap_or(0);
                c.entry(w[..4].join(" ")).or_default().push(([h(w[4]), h(w[5]), h(w[6])], w[7].parse().unwrap_or(0)));
            }
        }
    }
    c
}

fn to_bits(w: u8, v: f64) -> u128 {
    match w {
        2 => (v as f16).to_bits() as u128,
        4 => (v as f32).to_bits() as u128,
        8 => v.to_bits() as u128,
        _ => (v as f128).to_bits(),
    }
}
fn layout(w: u8) -> (u32, u32) {
    // mantissa bits, exponent bits
    match w {
        2 => (10, 5),
        4 => (23, 8),
        8 => (52, 11),
        _ => (112, 15),
    }
}
fn rand128(r: &mut Rng) -> u128 {
    (r.u64() as u128) << 64 | r.u64() as u128
}

impl<'a> Gen<'a> {
    pub fn new(dict: &'a Dict, ops: &[Op], corpora: &Corpora) -> Gen<'a> {
        let rel = ops
            .iter()
            .map(|o| {
                let s = stem(&o.name);
                let fam = family(&o.name);
                (0..dict.files.len())
                    .filter(|&i| {
                        let fs = stem(&dict.files[i]);
                        fs == s || (fam != 99 && family(&dict.files[i]) == fam) || (fs == "fmin_fmax" && fam == 10)
                    })
                    .collect()
            })
            .collect();
        let corpus = ops
            .iter()
            .enumerate()
            .map(|(i, o)| corpora.get(&shape_key(o)).map_or(vec![], |v| v.iter().map(|(x, n)| Spec { op: i, x: *x, n: *n, mode: 0 }).collect()))
            .collect();
        Gen { dict, rel, corpus, big: 1, pi: NEAR_PI.lines().filter_map(|l| Some((l.len() as u8 / 2, u64::from_str_radix(l, 16).ok()? as u128))).collect() }
    }
    fn dict_val(&self, r: &mut Rng, opi: usize, w: u8) -> u128 {
        let rel = &self.rel[opi];
        let d = if !rel.is_empty() && r.pct(75) { &self.dict.by_file[&self.dict.files[*r.pick(rel)]] } else { &self.dict.all };
        let tot = d.0.len() + d.1.len() + d.2.len();
        if tot == 0 {
            return rand128(r) & mask(w);
        }
        let k = r.idx(tot);
        if k < d.0.len() {
            to_bits(w, d.0[k])
        } else if k < d.0.len() + d.1.len() {
            let v = d.1[k - d.0.len()];
            match w {
                4 => v as u128,
                8 => (v as u128) << 32 | if r.pct(50) { 0 } else { r.u64() as u32 as u128 },
                16 => (v as u128) << 96 | if r.pct(50) { 0 } else { rand128(r) >> 32 },
                _ => v as u128 & 0xffff,
            }
        } else {
            let v = d.2[k - d.0.len() - d.1.len()];
            match w {
                8 => v as u128,
                16 => (v as u128) << 64 | if r.pct(50) { 0 } else { r.u64() as u128 },
                _ => v as u128 & mask(w),
            }
        }
    }
    pub fn float(&self, r: &mut Rng, opi: usize, w: u8) -> u128 {
        let (mb, eb) = layout(w);
        let m = mask(w);
        let sign = (r.u64() as u128 & 1) << (mb + eb);
        match r.below(100) {
            0..=14 => rand128(r) & m,
            15..=34 => {
                let e = r.below(1 << eb) as u128;
                let man = rand128(r) & ((1 << mb) - 1);
                let man = match r.below(6) {
                    0 => 0,
                    1 => (1 << mb) - 1,
                    2 => man & (u128::MAX << (mb / 2)),
                    _ => man,
                };
                sign | e << mb | man
            }
            35..=59 => {
                // moderate magnitudes
                let bias = (1i64 << (eb - 1)) - 1;
                let span = [4i64, 12, 30][r.idx(3)].min(bias - 1);
                let e = bias + r.range(-span, span.min(bias));
                sign | (e.max(0) as u128) << mb | (rand128(r) & ((1 << mb) - 1))
            }
            60..=69 => {
                let v = match r.below(6) {
                    // where roots and logarithms are exact
                    4 => 2f64.powi(r.range(-130, 130) as i32),
                    5 => {
                        let top = 1 << [4, 11, 17][r.idx(3)];
                        let k = (r.range(-top, top) as f64).powi(2 + r.below(2) as i32);
                        k * 8f64.powi(r.range(-20, 20) as i32)
                    }
                    0 => r.range(-20, 20) as f64,
                    1 => r.range(-200, 200) as f64 * 0.5,
                    2 => r.range(-100000, 100000) as f64,
                    _ => r.range(-64, 64) as f64 * std::f64::consts::FRAC_PI_4,
                };
                self.nudge(r, w, to_bits(w, v))
            }
            70..=79 => {
                let inf = ((1u128 << eb) - 1) << mb;
                let one = ((1u128 << (eb - 1)) - 1) << mb;
                let list = [0, 1, (1 << mb) - 1, 1 << mb, inf - 1, inf, inf | 1, inf | 1 << (mb - 1), one, one - 1, one + 1, one + (1 << mb), one - (1 << mb)];
                sign | *r.pick(&list)
            }
            _ => {
                let v = self.dict_val(r, opi, w);
                let v = if r.pct(20) { v ^ sign } else { v };
                self.nudge(r, w, v) & m
            }
        }
    }
    pub fn nudge(&self, r: &mut Rng, w: u8, v: u128) -> u128 {
        let m = mask(w);
        match r.below(8) {
            0 => v.wrapping_add(1) & m,
            1 => v.wrapping_sub(1) & m,
            2 => v.wrapping_add(r.below(64) as u128) & m,
            3 => v.wrapping_sub(r.below(64) as u128) & m,
            _ => v,
        }
    }
    pub fn int(&self, r: &mut Rng, op: &Op) -> i32 {
        let s = stem(&op.name);
        if matches!(s.as_str(), "jn" | "yn") {
            // cost is linear in the order, so large orders are rare
            let k = match r.below(1000) {
                0..=679 => r.range(-12, 12),
                680..=879 => r.range(-60, 60),
                880..=979 => r.range(-300, 300),
                980..=997 => {
                    let m = 1 << (8 + r.below(6));
                    r.range(-m, m)
                }
                _ => {
                    let m = 1 << (13 + r.below(self.big));
                    r.range(-m, m)
                }
            };
            return k as i32;
        }
        match r.below(8) {
            0 => r.u64() as i32,
            1 => *r.pick(&[0, 1, -1, i32::MAX, i32::MIN, 1023, -1022, -1074, 1024, 127, -126, -149, 16383, -16382]),
            2 | 3 => r.range(-2200, 2200) as i32,
            4 => r.range(-40000, 40000) as i32,
            _ => r.range(-300, 300) as i32,
        }
    }
    pub fn spec(&self, r: &mut Rng, opi: usize, op: &Op) -> Spec {
        if !self.corpus[opi].is_empty() && r.pct(25) {
            let s = *r.pick(&self.corpus[opi]);
            return if r.pct(60) { s } else { self.relative0(r, &s, op) };
        }
        self.spec0(r, opi, op)
    }
    fn spec0(&self, r: &mut Rng, opi: usize, op: &Op) -> Spec {
        let mut x = [0u128; 3];
        let w = op.fw;
        for k in 0..op.nf as usize {
            x[k] = self.float(r, opi, w);
        }
        let (mb, eb) = layout(w);
        if op.nf >= 2 && r.pct(35) {
            // correlated operands
            let k = r.idx(4);
            match k {
                0 => x[1] = self.nudge(r, w, x[0]),
                1 => x[1] = x[0] ^ (1 << (mb + eb)),
                2 => {
                    // same exponent or close to it
                    let e = (x[0] >> mb) & ((1 << eb) - 1);
                    let span = if r.pct(50) { 2 } else { 40 };
                    let e2 = (e as i64 + r.range(-span, span)).clamp(0, (1 << eb) - 1) as u128;
                    x[1] = (rand128(r) & mask(w) & !(((1u128 << eb) - 1) << mb)) | e2 << mb;
                }
                _ => x[1] = to_bits(w, r.range(-40, 40) as f64 * 0.5),
            }
        }
        let st = stem(&op.name);
        match st.as_str() {
            "sin" | "cos" | "tan" | "sincos" | "j0" | "j1" | "jn" | "y0" | "y1" | "yn" if (w == 4 || w == 8) && r.pct(6) => {
                let l = self.pi.iter().filter(|v| v.0 == w).count();
                let first = self.pi.iter().position(|v| v.0 == w).unwrap_or(0);
                x[0] = self.pi[first + r.idx(l)].1 | (r.below(2) as u128) << (mb + eb);
                if r.pct(15) {
                    x[0] = x[0].wrapping_add(r.range(-2, 2) as u128) & mask(w);
                }
            }
            "fmod" | "remainder" | "remquo" if r.pct(25) => {
                if let Some((a, b)) = residue(r, w) {
                    x[0] = a;
                    x[1] = b;
                }
            }
            _ => {}
        }
        if op.nf == 3 && r.pct(40) {
            // addend near the negated product exponent
            let bias = (1i64 << (eb - 1)) - 1;
            let ex = |v: u128| ((v >> mb) & ((1 << eb) - 1)) as i64;
            let e = (ex(x[0]) + ex(x[1]) - bias + r.range(-60, 60)).clamp(0, (1 << eb) - 1) as u128;
            x[2] = (rand128(r) & mask(w) & !(((1u128 << eb) - 1) << mb)) | e << mb;
            if r.pct(30) {
                // the negated product, rounded
                x[2] = match w {
                    2 => (-f16::from_bits(x[0] as u16) * f16::from_bits(x[1] as u16)).to_bits() as u128,
                    4 => (-f32::from_bits(x[0] as u32) * f32::from_bits(x[1] as u32)).to_bits() as u128,
                    8 => (-f64::from_bits(x[0] as u64) * f64::from_bits(x[1] as u64)).to_bits() as u128,
                    _ => (-f128::from_bits(x[0]) * f128::from_bits(x[1])).to_bits(),
                };
                if r.pct(30) {
                    x[2] = self.nudge(r, w, x[2]);
                }
            }
        }
        let n = if op.has_int { self.int(r, op) } else { 0 };
        let mut t = Spec { op: opi, x, n, mode: 0 };
        if op.bessel != 0 && r.below(40) == 0 {
            // extreme orders, with operands that make the recurrence short
            t.n = match r.below(8) {
                0 | 1 => i32::MIN,
                2 => i32::MIN + 1 + r.below(3) as i32,
                3 | 4 => i32::MAX,
                5 => i32::MAX - 1 - r.below(3) as i32,
                _ => r.u64() as i32,
            };
            let inf = ((1u128 << eb) - 1) << mb;
            let sign = (r.below(2) as u128) << (mb + eb);
            let frac = rand128(r) & ((1 << mb) - 1);
            t.x[0] = match r.below(6) {
                0 => 0,
                1 => inf,
                2 => inf | 1 << (mb - 1),
                3 => ((1 + r.below(60)) as u128) << mb | frac,
                4 => frac,
                _ => (((1u64 << eb) - 2 - r.below(200)) as u128) << mb | frac,
            } | sign;
        }
        self.tame(r, &mut t, op);
        t
    }
    /// The cost of the Bessel functions of order n is linear in n, unless the operand is special:
    /// extreme orders only with those.
    pub fn tame(&self, r: &mut Rng, t: &mut Spec, op: &Op) {
        if t.n.unsigned_abs() > 1 << (13 + self.big) && op.bessel != 0 && !short(op, t.x[0]) {
            t.n %= if r.pct(98) { 1 << 9 } else { 1 << 13 };
        }
    }
    /// An operand tuple related to `s`: what caches keyed on part of the operands would confuse.
    pub fn relative(&self, r: &mut Rng, s: &Spec, op: &Op) -> Spec {
        if !self.corpus[s.op].is_empty() && r.pct(15) {
            return *r.pick(&self.corpus[s.op]);
        }
        self.relative0(r, s, op)
    }
    fn relative0(&self, r: &mut Rng, s: &Spec, op: &Op) -> Spec {
        let mut t = *s;
        let w = op.fw;
        let (mb, eb) = layout(w);
        let k = r.idx(op.nf as usize);
        let half = w as u32 * 4;
        match r.below(12) {
            0 => {}
            1 => t.x[k] = (t.x[k] & (u128::MAX << half) | (rand128(r) & ((1 << half) - 1))) & mask(w),
            2 => t.x[k] = (t.x[k] & ((1 << half) - 1) | (rand128(r) & (u128::MAX << half))) & mask(w),
            3 => t.x[k] = self.nudge(r, w, t.x[k]),
            4 => t.x[k] ^= 1 << (mb + eb),
            5 => t.x[k] ^= 1u128 << r.below(8 * w as u64),
            6 => {
                let e = (t.x[k] >> mb) & ((1 << eb) - 1);
                let e2 = (e as i64 + r.range(-3, 3)).clamp(0, (1 << eb) - 1) as u128;
                t.x[k] = t.x[k] & !(((1u128 << eb) - 1) << mb) | e2 << mb;
            }
            7 => t.x[k] = t.x[k] & !((1u128 << mb) - 1) | (rand128(r) & ((1 << mb) - 1)),
            8 if op.nf >= 2 => t.x.swap(0, 1),
            9 if op.nf >= 2 => t.x[k] = self.float(r, s.op, w),
            8 | 9 if op.has_int => t.n = t.n.wrapping_add(r.range(-2, 2) as i32),
            10 => t = self.spec0(r, s.op, op),
            _ => {
                t.x[k] = self.float(r, s.op, w);
            }
        }
        if op.has_int && r.pct(30) {
            t.n = self.int(r, op);
        }
        self.tame(r, &mut t, op);
        t
    }
}
/// The doubles and floats that come closest to multiples of pi/2, one for each exponent.
const NEAR_PI: &str = include_str!("../pi.txt");
/// A dividend that leaves a remainder within a few units of 0, of the divisor or of half the divisor:
/// solves X 2^g = t (mod Y) for X, Y being the integer significands.
fn residue(r: &mut Rng, w: u8) -> Option<(u128, u128)> {
    let (mb, eb) = layout(w);
    let top = 1u128 << mb;
    for _ in 0..4 {
        let y = top | rand128(r) & (top - 1) & if r.pct(30) { (1 << (1 + r.below(12))) - 1 } else { u128::MAX } | 1;
        // the gap of the exponents; with 32 in it the low bits of the quotient are all ones or all zeros
        let span = (1u64 << eb) - 4;
        let g = if r.pct(70) { r.below(70) } else if w == 16 && r.pct(95) { r.below(2000) } else { r.below(span) }.min(span);
        let q32 = w >= 8 && g > 32 && r.pct(25);
        let h = if q32 { g - 32 } else { g };
        let k = r.below(5) as u128;
        let mut t = match r.below(4) {
            0 => k,
            1 => y - k,
            2 => y / 2 - k.min(y / 2),
            _ => (y / 2 + 1 + k) % y,
        } % y;
        for _ in 0..h {
            t = if t & 1 == 0 { t >> 1 } else { (t + y) >> 1 };
        }
        if t < top {
            t += y;
        }
        if t < top || t >= 2 * top {
            continue;
        }
        let ey = 1 + r.below(span - g + 1);
        let s = |r: &mut Rng| (r.below(2) as u128) << (mb + eb);
        return Some((t & (top - 1) | ((ey + g) as u128) << mb | s(r), y & (top - 1) | (ey as u128) << mb | s(r)));
    }
    None
}
/// Operands for which the Bessel functions of order n need no recurrence.
pub fn short(op: &Op, x: u128) -> bool {
    let (mb, eb) = layout(op.fw);
    let a = x & ((1 << (mb + eb)) - 1);
    let inf = ((1u128 << eb) - 1) << mb;
    let (x, y) = (x & mask(op.fw), op.bessel == 2);
    a == 0 || a >= inf || (y && a != x) || (!y && a >> mb < (1 << (eb - 1)) - 40) || (op.fw == 8 && a >> mb >= 0x52e)
}
