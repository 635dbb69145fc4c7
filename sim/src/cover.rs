//! Coverage-guided search for operands worth simulating. Runs the instrumented build only; its
//! product is a list of operands per operation that together reach every branch found. No verdict
//! is taken from it.
use crate::args::*;
use crate::engine::*;
use crate::rng::{mix, Rng};
use crate::sut::Module;

pub struct Cov {
    lo: u64,
    len: usize,
    log: u64,
    pos: *mut u64,
    pcs: u64,
}
impl Cov {
    pub fn of(m: &Module) -> Option<Cov> {
        unsafe {
            let p = libc::dlsym(m.handle, c"sut_cov".as_ptr());
            if p.is_null() {
                return None;
            }
            let f: extern "C" fn(usize) -> u64 = std::mem::transmute(p);
            let (lo, hi) = (f(0), f(1));
            if lo == 0 || hi <= lo {
                return None;
            }
            Some(Cov { lo, len: (hi - lo) as usize, log: f(2), pos: f(3) as *mut u64, pcs: f(4) })
        }
    }
    /// Where counter `i` is in the code.
    pub fn pc(&self, i: usize) -> u64 {
        if self.pcs == 0 { 0 } else { unsafe { *(self.pcs as *const u64).add(2 * i) } }
    }
    pub fn len(&self) -> usize {
        self.len
    }
    fn reset(&self) {
        unsafe {
            std::ptr::write_volatile(self.pos, 0);
        }
    }
    fn log_len(&self) -> usize {
        unsafe { std::ptr::read_volatile(self.pos) as usize }
    }
    fn log_at(&self, i: usize) -> (u64, u64, u64) {
        unsafe {
            let p = (self.log as *const u64).add(3 * i);
            (std::ptr::read_volatile(p), std::ptr::read_volatile(p.add(1)), std::ptr::read_volatile(p.add(2)))
        }
    }
}
fn bucket(c: u8) -> u8 {
    match c {
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

#[derive(Default)]
pub struct Found {
    pub specs: Vec<Spec>,
    pub edges: u64,
    pub equalities: u64,
    pub execs: u64,
    pub work: u64,
    pub reached: Vec<usize>,
}

/// Search one operation of the current module.
/// `crashes`: operands that crash the call are findings for the property at hand; keep some.
pub fn search(cov: &Cov, gen: &Gen, op: usize, seed: u64, execs: u64, crashes: bool) -> Found {
    let m = eng().m;
    let o = eng().mods[m].ops[op].clone();
    let mut r = Rng::new(mix(&[seed, 0xc0e5, op as u64]));
    let n = cov.len;
    let mut virgin = vec![0u8; n];
    let mut hits = vec![0u32; n];
    let mut spec_of: Vec<[Option<Spec>; 4]> = vec![[None; 4]; n];
    let mut corpus: Vec<Spec> = vec![];
    let mut edgy: Vec<usize> = vec![];
    let text = eng().mods[m].text;
    let mut vp: Vec<(u8, u8)> = vec![(255, 255); (text.1 - text.0) as usize + 16];
    let mut equal: Vec<Spec> = vec![];
    let mut bad: Vec<Spec> = vec![];
    let (mut most, mut longest) = (0, vec![]);
    let mut hangs = 0;
    let mut done = 0u64;
    eng().touched = true;
    begin(Guard::Off);
    unsafe { std::ptr::write_bytes(cov.lo as *mut u8, 0, n) };
    let mut work = 0u64;
    // a deterministic measure of cost: compares executed
    while done < execs && work < execs * 200 {
        let s = if corpus.is_empty() || r.below(10) < 3 {
            gen.spec(&mut r, op, &o)
        } else {
            let b = match r.below(4) {
                0 | 1 if !edgy.is_empty() => corpus[*r.pick(&edgy)],
                2 => corpus[corpus.len() - 1 - r.idx(corpus.len().min(16))],
                _ => *r.pick(&corpus),
            };
            match r.below(20) {
                0..=8 => gen.relative(&mut r, &b, &o),
                9 | 10 => {
                    let c = *r.pick(&corpus);
                    let mut t = b;
                    let k = r.idx(o.nf as usize);
                    t.x[k] = c.x[r.idx(o.nf as usize)];
                    if r.pct(50) {
                        t.n = c.n;
                    }
                    t
                }
                _ => {
                    cov.reset();
                    native(&b, &CLEAN);
                    work += 1 + cov.log_len() as u64;
                    let l = cov.log_len();
                    if l == 0 {
                        gen.relative(&mut r, &b, &o)
                    } else {
                        let (_, a, c) = cov.log_at(r.idx(l));
                        let mut d = (c as i64).wrapping_sub(a as i64);
                        match r.below(6) {
                            0 => d = d.wrapping_add(1),
                            1 => d = d.wrapping_sub(1),
                            2 => d = d.wrapping_neg(),
                            _ => {}
                        }
                        let mut t = b;
                        let w = o.fw;
                        if o.has_int && r.pct(30) {
                            t.n = t.n.wrapping_add(d as i32);
                        } else {
                            let k = r.idx(o.nf as usize);
                            let sh: &[u32] = match w {
                                2 => &[0, 0, 10],
                                4 => &[0, 0, 0, 23, 16],
                                8 => &[0, 0, 32, 32, 52, 48],
                                _ => &[0, 64, 64, 96, 112],
                            };
                            // where in the operand is what was compared?
                            let bits = 8 * w as u32;
                            let x = t.x[k] & (mask(w) >> 1);
                            let fit: Vec<u32> = if a > 3 { (0..bits).filter(|&h| x >> h == a as u128 || t.x[k] >> h == a as u128).collect() } else { vec![] };
                            let sh = if !fit.is_empty() && r.pct(70) {
                                *r.pick(&fit)
                            } else if r.pct(15) {
                                r.idx(bits as usize) as u32
                            } else {
                                *r.pick(sh)
                            };
                            let dd = (d as i128 as u128) << sh;
                            t.x[k] = t.x[k].wrapping_add(dd) & mask(w);
                            if r.pct(20) {
                                // the bits below may matter to what comes next
                                t.x[k] ^= (r.u64() as u128) & ((1u128 << sh) - 1);
                            }
                        }
                        t
                    }
                }
            }
        };
        let mut s = s;
        gen.tame(&mut r, &mut s, &o);
        cov.reset();
        let oc = native(&s, &CLEAN);
        done += 1;
        if let Outcome::Crash(c) = oc {
            eng().touched = true;
            begin(Guard::Off);
            unsafe { std::ptr::write_bytes(cov.lo as *mut u8, 0, n) };
            if crashes && bad.len() < 8 {
                bad.push(s);
            }
            if c == Crash::Hang {
                hangs += 1;
                if hangs > 1 {
                    break;
                }
            }
            continue;
        }
        let mut fresh = false;
        unsafe {
            let mut i = 0usize;
            let p = cov.lo as *mut u8;
            while i < n {
                if i + 8 <= n && std::ptr::read_unaligned(p.add(i) as *const u64) == 0 {
                    i += 8;
                    continue;
                }
                let e = (i + 8).min(n);
                while i < e {
                    let c = *p.add(i);
                    if c != 0 {
                        *p.add(i) = 0;
                        let b = bucket(c);
                        if virgin[i] & b == 0 {
                            virgin[i] |= b;
                            fresh = true;
                        }
                        hits[i] += 1;
                        let h = hits[i];
                        if h & (h - 1) == 0 {
                            spec_of[i][(h.trailing_zeros() % 4) as usize] = Some(s);
                        }
                    }
                    i += 1;
                }
            }
        }
        let l = cov.log_len();
        work += 1 + l as u64;
        let mut better = false;
        if l > most && !matches!(stem(&o.name).as_str(), "jn" | "yn") {
            most = l;
            longest.push(s);
            better = true;
        }
        for k in 0..l.min(256) {
            let (pc, a, b) = cov.log_at(k);
            let d1 = (a ^ b).count_ones() as u8;
            let d2 = 64 - a.abs_diff(b).leading_zeros() as u8;
            let Some(e) = vp.get_mut(pc.wrapping_sub(text.0) as usize) else { continue };
            if d1 < e.0 || d2 < e.1 {
                let was = e.0;
                e.0 = e.0.min(d1);
                e.1 = e.1.min(d2);
                better = true;
                if d1 == 0 && was != 0 && equal.len() < 200 {
                    equal.push(s);
                }
            }
        }
        if (fresh || better) && corpus.len() < 4000 {
            if fresh {
                edgy.push(corpus.len());
            }
            corpus.push(s);
        }
    }
    // rarest branches first, a few operands for each, and every first exact hit of a compare
    let mut order: Vec<usize> = (0..n).filter(|&i| hits[i] > 0).collect();
    order.sort_by_key(|&i| (hits[i], i));
    let mut out: Vec<Spec> = vec![];
    let push = |s: Spec, out: &mut Vec<Spec>| {
        if !out.contains(&s) {
            out.push(s);
        }
    };
    for s in bad {
        push(s, &mut out);
    }
    for s in longest.into_iter().rev().take(3) {
        push(s, &mut out);
    }
    for &i in &order {
        let rare = (hits[i] as u64) < done / 50;
        for s in spec_of[i].iter().flatten().take(if rare { 4 } else { 1 }) {
            if out.len() < 160 {
                push(*s, &mut out);
            }
        }
    }
    let eq = equal.len() as u64;
    for s in equal.into_iter().rev().take(60) {
        push(s, &mut out);
    }
    Found { specs: out, edges: order.len() as u64, equalities: eq, execs: done, work, reached: order }
}
