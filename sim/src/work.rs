//! Seeded search: what one worker process does.
use crate::args::*;
use crate::asm::*;
use crate::case::*;
use crate::engine::*;
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Instant;

pub struct Stateful {
    pub m: usize,
    pub op: usize,
    pub specs: Vec<Spec>,
    /// operands that meet at the same place of a table
    pub groups: Vec<Vec<Spec>>,
}
pub struct Bits(pub Vec<u64>);
pub const BITS: u64 = 1 << 26;
impl Bits {
    pub fn new() -> Bits {
        Bits(vec![0; (BITS / 64) as usize])
    }
    #[inline]
    pub fn set(&mut self, h: u64) {
        let k = h % BITS;
        self.0[(k / 64) as usize] |= 1 << (k % 64);
    }
    pub fn count(&self) -> u64 {
        self.0.iter().map(|w| w.count_ones() as u64).sum()
    }
}

pub struct W<'a> {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub me: u64,
    pub n: u64,
    pub deadline: Instant,
    /// indices of the primary module of each configuration
    pub cfgs: Vec<usize>,
    pub gens: Vec<Gen<'a>>,
    pub stateful: Vec<Stateful>,
    /// by module: histories that leave static memory in different shapes
    pub walked: BTreeMap<usize, Vec<Vec<Spec>>>,
    pub stats: BTreeMap<String, u64>,
    pub distinct: Bits,
    pub pace: BTreeMap<(usize, usize), (u32, f64)>,
    pub samples: Vec<String>,
    pub found: Option<(Case, Viol, u64)>,
    /// wrong after an abandonment, but the same schedule is wrong without it too
    pub fallback: Option<(Case, Viol, u64)>,
    pub known: Vec<String>,
    pub known_hits: Vec<String>,
}

struct TraceRec {
    pcs: Vec<u32>,
    ord: Vec<u32>,
    distinct: Vec<u32>,
    points: u32,
    steps: u64,
}
struct Item {
    spec: Spec,
    r: Outcome,
    traces: Vec<TraceRec>,
}

fn qhash(m: usize, s: &Spec) -> u64 {
    let mut h = (m as u64) << 32 | s.op as u64;
    for k in 0..3 {
        h = (h ^ s.x[k] as u64 ^ (s.x[k] >> 64) as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(31);
    }
    (h ^ s.n as u64).wrapping_mul(0xD6E8_FEB8_6659_FD93) >> 17
}

fn native_fresh(s: &Spec) -> Outcome {
    rebegin(Guard::Mark);
    native(s, &CLEAN)
}
/// Calls `from..to` of going round a list.
fn used_by(specs: &[Spec], from: u64, to: u64) -> Pre {
    let n = specs.len() as u64;
    let mut v: Vec<Spec> = specs.to_vec();
    v.rotate_left((from % n) as usize);
    if to - from < n {
        v.truncate((to - from) as usize);
    }
    Pre { hist: if v.is_empty() { vec![] } else { vec![(v, to - from)] }, plan: Plan::default() }
}

impl<'a> W<'a> {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_insert(0) += n;
    }
    fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = f();
            self.samples.push(s);
        }
    }
    /// Whether the violation is on the known list; otherwise remember it and stop.
    pub fn hit(&mut self, c: Case, v: Viol, unit: u64) -> bool {
        let sig = signature(&c, &v);
        if self.known.iter().any(|k| *k == sig) {
            if !self.known_hits.contains(&sig) {
                self.known_hits.push(sig);
            }
            return false;
        }
        self.found = Some((c, v, unit));
        true
    }

    // ---------------------------------------------------------------- scan

    /// Which operations touch mutable static memory, and on which operands.
    pub fn scan(&mut self, out: &mut Vec<String>) {
        let per = if self.thorough { 40_000 } else { 8_000 };
        for ci in 0..self.cfgs.len() {
            let m = self.cfgs[ci];
            use_module(m);
            let slow = eng().mods[m].cfg.starts_with("dbg");
            let per = if slow { per / 4 } else { per };
            for op in 0..eng().mods[m].ops.len() {
                if (op as u64 + ci as u64) % self.n != self.me {
                    continue;
                }
                let o = eng().mods[m].ops[op].clone();
                let mut r = Rng::new(mix(&[self.seed, 0x5ca9, m as u64, op as u64]));
                let mut seen: BTreeMap<u32, u32> = BTreeMap::new();
                let mut calls = 0u64;
                let mut touches = 0u64;
                let mut kept = 0;
                let mut hangs = 0;
                for _ in 0..per {
                    let s = self.gens[ci].spec(&mut r, op, &o);
                    rebegin(Guard::Mark);
                    let oc = native(&s, &CLEAN);
                    calls += 1;
                    let tls = unsafe { eng().mods[m].tls_dirty() };
                    if oc == Outcome::Crash(Crash::Hang) {
                        hangs += 1;
                        if hangs > 2 {
                            break;
                        }
                        continue;
                    }
                    if matches!(oc, Outcome::Crash(_)) {
                        continue;
                    }
                    if eng().touched || tls {
                        touches += 1;
                        let pc = if eng().touched { eng().touch_pc } else { 0 };
                        let k = seen.entry(pc).or_insert(0);
                        if *k < 6 && kept < 24 {
                            *k += 1;
                            kept += 1;
                            out.push(format!("stateful {} {} {} {:#x} {:#x} {:#x} {}", m, op, o.name, s.x[0], s.x[1], s.x[2], s.n));
                        }
                        if touches > 400 {
                            break;
                        }
                    }
                }
                if touches > 0 && hangs == 0 {
                    self.scan_groups(&mut r, ci, op, out);
                }
                begin(Guard::Mark);
                self.add("scan_calls", calls);
                self.add("scan_calls_touching_static_memory", touches);
            }
        }
    }

    /// Operands of one operation that use the same place in static memory where others do not.
    fn scan_groups(&mut self, r: &mut Rng, ci: usize, op: usize, out: &mut Vec<String>) {
        let m = self.cfgs[ci];
        let o = eng().mods[m].ops[op].clone();
        let mut by: BTreeMap<u64, Vec<Spec>> = BTreeMap::new();
        let (mut n, mut work) = (0usize, 0usize);
        eng().addrs = Some(vec![]);
        for _ in 0..6000 {
            if work > 60_000 {
                break;
            }
            let s = self.gens[ci].spec(r, op, &o);
            rebegin(Guard::Trap);
            eng().addrs.as_mut().unwrap().clear();
            let before = eng().fired.access_points;
            let oc = native(&s, &CLEAN);
            work += 1 + (eng().fired.access_points - before) as usize;
            if matches!(oc, Outcome::Crash(_)) {
                continue;
            }
            let mut a = eng().addrs.clone().unwrap();
            if a.is_empty() {
                continue;
            }
            n += 1;
            a.sort();
            a.dedup();
            for x in a {
                let v = by.entry(x).or_default();
                if !v.contains(&s) && v.len() < 2000 {
                    v.push(s);
                }
            }
        }
        eng().addrs = None;
        let mut groups: Vec<Vec<Spec>> = by.into_values().filter(|v| v.len() > 1 && v.len() * 3 < n).collect();
        self.add("scan_groups_of_operands_sharing_a_table_place", groups.len() as u64);
        for g in 0..groups.len().min(120) {
            let label = format!("group-{m}-{op}-{g}");
            let k = r.idx(groups.len());
            let mut g = groups.swap_remove(k);
            for _ in 0..g.len().min(4) {
                let j = r.idx(g.len());
                let s = g.swap_remove(j);
                out.push(format!("{label} {} {} {} {:#x} {:#x} {:#x} {}", m, op, o.name, s.x[0], s.x[1], s.x[2], s.n));
            }
        }
    }

    // ---------------------------------------------------------------- scenarios

    fn take_trace(&mut self, prefix: &[Spec], s: &Spec) -> TraceRec {
        begin(Guard::Mark);
        for p in prefix {
            native(p, &CLEAN);
        }
        reguard(Guard::Trap);
        traced(s, &clean_env(), 3000, true, false);
        let e = eng();
        let t = &e.trace;
        let mut cnt: std::collections::HashMap<u32, u32> = std::collections::HashMap::new();
        let pcs = t.pcs.clone();
        let ord = pcs
            .iter()
            .map(|p| {
                let c = cnt.entry(*p).or_insert(0);
                *c += 1;
                *c
            })
            .collect();
        let mut distinct: Vec<u32> = cnt.keys().copied().collect();
        distinct.sort();
        let rec = TraceRec { ord, distinct, points: t.accesses * 2, steps: t.steps, pcs };
        self.add("traced_instructions", rec.steps);
        begin(Guard::Trap);
        rec
    }

    fn pool(&mut self, r: &mut Rng, ci: usize, size: usize, targeted: bool) -> Vec<Item> {
        let m = self.cfgs[ci];
        let here: Vec<usize> = (0..self.stateful.len()).filter(|&i| self.stateful[i].m == m).collect();
        let nops = eng().mods[m].ops.len();
        let mut specs: Vec<Spec> = vec![];
        let targeted = targeted && !here.is_empty();
        let (first, si) = if targeted {
            let i = *r.pick(&here);
            let st = &self.stateful[i];
            (*r.pick(&st.specs), Some(i))
        } else {
            let op = r.idx(nops);
            (self.gens[ci].spec(r, op, &eng().mods[m].ops[op]), None)
        };
        specs.push(first);
        if let Some(i) = si {
            if !self.stateful[i].groups.is_empty() && r.pct(40) {
                specs = self.stateful[i].groups[r.idx(self.stateful[i].groups.len())].clone();
            }
        }
        while specs.len() < size {
            let s = match r.below(10) {
                0..=4 => {
                    let b = *r.pick(&specs);
                    self.gens[ci].relative(r, &b, &eng().mods[m].ops[b.op])
                }
                5 | 6 if targeted => {
                    let i = if r.pct(60) { si.unwrap() } else { *r.pick(&here) };
                    let s0 = *r.pick(&self.stateful[i].specs);
                    if r.pct(50) { s0 } else { self.gens[ci].relative(r, &s0, &eng().mods[m].ops[s0.op]) }
                }
                7 | 8 => {
                    // same family
                    let fam = family(&eng().mods[m].ops[first.op].name);
                    let c: Vec<usize> = (0..nops).filter(|&k| family(&eng().mods[m].ops[k].name) == fam).collect();
                    let op = *r.pick(&c);
                    let mut s = self.gens[ci].spec(r, op, &eng().mods[m].ops[op]);
                    if eng().mods[m].ops[op].fw == eng().mods[m].ops[first.op].fw && r.pct(50) {
                        s.x = first.x;
                    }
                    s
                }
                _ => self.gens[ci].spec(r, first.op, &eng().mods[m].ops[first.op]),
            };
            specs.push(s);
        }
        self.modes(r, &mut specs);
        let mut items = vec![];
        for s in &specs {
            let o = solo(s);
            if matches!(o, Outcome::Crash(_)) {
                continue;
            }
            let cold = self.take_trace(&[], s);
            let warm = cold.points > 0;
            let mut traces = vec![cold];
            if warm {
                for _ in 0..2 {
                    let k = 1 + r.idx(2);
                    let pre: Vec<Spec> = (0..k).map(|_| *r.pick(&specs)).collect();
                    if pre.iter().all(|p| !matches!(solo(p), Outcome::Crash(_))) {
                        let t = self.take_trace(&pre, s);
                        traces.push(t);
                    }
                }
            }
            items.push(Item { spec: *s, r: o, traces });
        }
        items
    }

    /// In every fourth program some callers have other floating-point modes.
    fn modes(&mut self, r: &mut Rng, specs: &mut [Spec]) {
        if !r.pct(25) {
            return;
        }
        let some = [1 + r.below(15) as u8, 1, 2, 3, 12, 16][r.idx(6)];
        let mut any = 0;
        for s in specs.iter_mut() {
            if r.pct(40) {
                s.mode = if r.pct(70) { some } else { 1 + r.below(15) as u8 };
                if r.pct(35) || self.prop == "C10" {
                    s.mode |= (1 + r.below(15) as u8) << 4;
                }
                any += 1;
            }
        }
        if specs.len() > 1 && r.pct(60) {
            // the same call by callers in different modes
            let (i, j) = (r.idx(specs.len()), r.idx(specs.len()));
            if i != j {
                specs[j] = specs[i];
                specs[j].mode = if specs[i].mode != 0 && r.pct(60) { 0 } else { some };
                any += 1;
            }
        }
        if any > 0 {
            self.add("fault:callers-in-other-floating-point-modes", any);
        }
    }
    fn anchor(&self, r: &mut Rng, it: &Item) -> Anchor {
        let t = r.pick(&it.traces);
        if t.points > 0 && r.pct(70) {
            return Anchor::Access(1 + r.below(t.points as u64) as u32);
        }
        if t.pcs.is_empty() {
            return Anchor::Access(1);
        }
        let i = if r.pct(50) {
            r.idx(t.pcs.len())
        } else {
            let pc = *r.pick(&t.distinct);
            t.pcs.iter().position(|p| *p == pc).unwrap()
        };
        let hit = if t.ord[i] > 64 { 1 + r.below(64) as u32 } else { t.ord[i] };
        Anchor::Pc(t.pcs[i], hit)
    }

    /// The kind of schedule: the property's own, for C10 any of them.
    fn style(&self, r: &mut Rng) -> &str {
        if self.prop == "C10" { ["C01", "C01", "C02", "C03"][r.idx(4)] } else { self.prop.as_str() }
    }
    fn gen_plan(&self, r: &mut Rng, pool: &[Item]) -> (Plan, Vec<Outcome>, u64) {
        let mut p = Plan::default();
        let mut refs: Vec<Outcome> = vec![];
        let mut instr = 0;
        let mut new_call = |p: &mut Plan, r: &mut Rng, refs: &mut Vec<Outcome>| -> (usize, usize) {
            let k = r.idx(pool.len());
            p.calls.push(CallPlan { spec: pool[k].spec, evs: vec![] });
            refs.push(pool[k].r);
            instr += pool[k].traces[0].steps;
            (p.calls.len() - 1, k)
        };
        let prop = self.style(r);
        if r.pct(18) {
            let long = self.gen_long(r, pool, prop);
            if let Some(x) = long {
                return x;
            }
        }
        // every second schedule with shared memory in it runs on processors with store buffers
        let lags = prop == "C01" && pool.iter().any(|i| i.traces[0].points > 0) && r.pct(50);
        let nf = match prop {
            "C01" => 2 + [0, 0, 0, 1, 1, 2][r.idx(6)],
            "C02" => 1,
            "C03" => [1, 1, 1, 2, 2][r.idx(5)],
            _ => 2 + r.idx(2),
        };
        for f in 0..nf {
            let nc = match prop {
                "C01" => 1 + r.idx(3),
                "C02" => 1 + r.idx(3),
                "C03" => 2 + r.idx(2),
                _ => 1 + r.idx(2),
            };
            let mut q = vec![];
            for c in 0..nc {
                let (id, k) = new_call(&mut p, r, &mut refs);
                q.push(id);
                match prop {
                    "C01" => {
                        for pct in [85, 45, 25, 10] {
                            if !r.pct(pct) {
                                break;
                            }
                            let at = self.anchor(r, &pool[k]);
                            let act = if lags && r.pct(40) { Act::Lag(1 + r.idx(4) as u8) } else { Act::Preempt };
                            p.calls[id].evs.push(Ev { at, act });
                        }
                    }
                    "C02" => {
                        for pct in [90, 30] {
                            if !r.pct(pct) {
                                break;
                            }
                            let at = self.anchor(r, &pool[k]);
                            let (n, k2) = new_call(&mut p, r, &mut refs);
                            p.calls[id].evs.push(Ev { at, act: Act::Interrupt(n) });
                            if r.pct(30) {
                                let at = self.anchor(r, &pool[k2]);
                                let (n3, _) = new_call(&mut p, r, &mut refs);
                                p.calls[n].evs.push(Ev { at, act: Act::Interrupt(n3) });
                            }
                        }
                    }
                    "C03" => {
                        if c + 1 < nc || (f + 1 < nf && r.pct(50)) {
                            let at = self.anchor(r, &pool[k]);
                            let act = match r.below(6) {
                                0 | 1 => Act::Kill,
                                2 | 3 => Act::KillThread,
                                4 => {
                                    let (n, _) = new_call(&mut p, r, &mut refs);
                                    Act::InterruptKill(n)
                                }
                                _ => Act::Preempt,
                            };
                            let act = if act == Act::Preempt && nf == 1 { Act::Kill } else { act };
                            p.calls[id].evs.push(Ev { at, act });
                        } else if nf > 1 && r.pct(50) {
                            let at = self.anchor(r, &pool[k]);
                            p.calls[id].evs.push(Ev { at, act: Act::Preempt });
                        }
                    }
                    _ => {
                        if f == 0 || r.pct(40) {
                            let at = self.anchor(r, &pool[k]);
                            let act = match r.below(8) {
                                0..=3 => Act::Stall,
                                4 => Act::Kill,
                                5 => Act::KillThread,
                                6 => {
                                    let (n, _) = new_call(&mut p, r, &mut refs);
                                    Act::Interrupt(n)
                                }
                                _ => Act::Preempt,
                            };
                            p.calls[id].evs.push(Ev { at, act });
                        }
                    }
                }
            }
            p.fibers.push(q);
        }
        let ls = 8 + r.idx(24);
        p.sched = (0..ls).map(|_| r.below(12) as u8).collect();
        (p, refs, instr)
    }

    /// Shapes that need many of the same thing: crowds inside one window, deep nesting, mass
    /// abandonment, a long aftermath.
    fn gen_long(&self, r: &mut Rng, pool: &[Item], prop: &str) -> Option<(Plan, Vec<Outcome>, u64)> {
        // the cost of a crowd on an operation with thousands of shared accesses is too high
        if pool.iter().map(|i| i.traces[0].points as u64).sum::<u64>() > 4000 {
            return None;
        }
        let mut p = Plan::default();
        let mut refs = vec![];
        let mut instr = 0;
        let same = r.pct(60).then(|| r.idx(pool.len()));
        let fixed: Vec<Anchor> = pool.iter().map(|i| self.anchor(r, i)).collect();
        let pin = r.pct(60);
        let mut call = |p: &mut Plan, k: usize| {
            p.calls.push(CallPlan { spec: pool[k].spec, evs: vec![] });
            refs.push(pool[k].r);
            instr += pool[k].traces[0].steps;
            p.calls.len() - 1
        };
        let choose = |r: &mut Rng| same.unwrap_or_else(|| r.idx(pool.len()));
        let at = |r: &mut Rng, k: usize| if pin { fixed[k] } else { self.anchor(r, &pool[k]) };
        match prop {
            "C02" => {
                // a handler inside a handler inside a handler
                let depth = 4 + r.idx(9);
                let mut prev = None;
                for _ in 0..depth {
                    let k = choose(r);
                    let id = call(&mut p, k);
                    if let Some((pid, pk)) = prev {
                        let a = at(r, pk);
                        let c: &mut CallPlan = &mut p.calls[pid];
                        c.evs.push(Ev { at: a, act: Act::Interrupt(id) });
                    }
                    prev = Some((id, k));
                }
                p.fibers.push(vec![0]);
                let k = r.idx(pool.len());
                let id = call(&mut p, k);
                p.fibers[0].push(id);
            }
            "C03" => {
                let small = pool.iter().map(|i| i.traces[0].points as u64).sum::<u64>() < 100;
                let kills = if small && r.pct(4) {
                    [200, 300, 1200, 5000][r.idx(4)]
                } else if r.pct(50) {
                    1 + r.idx(2)
                } else {
                    3 + r.idx(20)
                };
                let mut q = vec![];
                for _ in 0..kills {
                    let k = choose(r);
                    let id = call(&mut p, k);
                    let act = if kills > 100 || r.pct(70) { Act::Kill } else { Act::KillThread };
                    let a = at(r, k);
                    p.calls[id].evs.push(Ev { at: a, act });
                    q.push(id);
                }
                let first = same.unwrap_or(0);
                let after = if kills < 3 { [4usize, 24, 80][r.idx(3)] } else { 1 + r.idx(8) };
                for _ in 0..after {
                    let k = if r.pct(40) { first } else { r.idx(pool.len()) };
                    let id = call(&mut p, k);
                    q.push(id);
                }
                p.fibers.push(q);
            }
            "C07" if r.pct(25) && pool.iter().all(|i| i.traces[0].points < 40) && pool.iter().any(|i| i.traces[0].points > 0) => {
                // one call, and others that are quicker every time
                let v = *r.pick(&(0..pool.len()).filter(|&k| pool[k].traces[0].points > 0).collect::<Vec<_>>());
                let id = call(&mut p, v);
                p.calls[id].evs.push(Ev { at: Anchor::Each(1 + r.idx(3) as u32), act: Act::Preempt });
                let others = [r.idx(pool.len()), v, v][r.idx(3)];
                let q: Vec<usize> = (0..[500, 4000, 9000][r.idx(3)]).map(|_| call(&mut p, others)).collect();
                p.fibers.push(vec![id]);
                p.fibers.push(q);
                p.sched = vec![0, 1];
                return Some((p, refs, instr));
            }
            _ => {
                let crowd = 4 + r.idx(17);
                for _ in 0..crowd {
                    let k = choose(r);
                    let id = call(&mut p, k);
                    let act = match prop {
                        "C01" if r.pct(20) => Act::Lag(1 + r.idx(4) as u8),
                        "C01" => Act::Preempt,
                        _ => [Act::Stall, Act::Stall, Act::Kill, Act::KillThread][r.idx(4)],
                    };
                    let a = at(r, k);
                    p.calls[id].evs.push(Ev { at: a, act });
                    p.fibers.push(vec![id]);
                }
                // and somebody who only wants a result
                let k = r.idx(pool.len());
                let id = call(&mut p, k);
                p.fibers.push(vec![id]);
            }
        }
        let ls = 8 + r.idx(56);
        p.sched = (0..ls).map(|_| r.below(48) as u8).collect();
        Some((p, refs, instr))
    }

    fn nontrivial(&self, f0: &Fired) -> bool {
        let f = &eng().fired;
        match self.prop.as_str() {
            "C01" => f.preempt > f0.preempt,
            "C02" => f.interrupt > f0.interrupt,
            "C03" => f.kill + f.kill_thread + f.interrupt_kill > f0.kill + f0.kill_thread + f0.interrupt_kill,
            "C10" => f.preempt + f.kill + f.kill_thread + f.interrupt > f0.preempt + f0.kill + f0.kill_thread + f0.interrupt,
            _ => f.stall + f.kill + f.kill_thread + f.interrupt > f0.stall + f0.kill + f0.kill_thread + f0.interrupt,
        }
    }

    fn scenario_unit(&mut self, u: u64) {
        let mut r = Rng::new(mix(&[self.seed, self.prop.bytes().fold(0, |a, b| a * 256 + b as u64), u]));
        let have = !self.stateful.is_empty();
        let targeted = have && r.pct(85);
        let ci = if targeted {
            let m = r.pick(&self.stateful).m;
            self.cfgs.iter().position(|&x| x == m).unwrap()
        } else {
            (u % self.cfgs.len() as u64) as usize
        };
        let m = self.cfgs[ci];
        use_module(m);
        eng().check_ctl = false;
        let size = 2 + r.idx(3);
        let pool = self.pool(&mut r, ci, size, targeted);
        if pool.is_empty() {
            self.add("units_without_usable_operands", 1);
            return;
        }
        let heavy: u64 = pool.iter().map(|i| i.traces[0].points as u64).sum();
        let k = if heavy > 2000 { 10 } else if heavy > 0 { 60 } else { 24 };
        // some processes have been running for a while
        let pre = (targeted && r.pct(30)).then(|| self.gen_hist(&mut r, &pool, 2_000_000 / k));
        if pre.is_some() {
            self.add("units_in_a_used_process", 1);
        }
        for j in 0..k {
            if Instant::now() > self.deadline {
                break;
            }
            let (plan, refs, instr) = self.gen_plan(&mut r, &pool);
            let f0 = eng().fired.clone();
            let res = run_plan_pre(&pre, &plan);
            self.add("runs", 1);
            self.add("calls", plan.calls.len() as u64);
            self.add("instructions_under_simulation", instr);
            if self.nontrivial(&f0) {
                self.add("nontrivial_runs", 1);
                self.distinct.set(res.hash);
            }
            if u < self.n && j == 0 {
                let mut c = Case::new(&self.prop, m, Body::Plan(plan.clone()));
                c.pre = pre.clone();
                let t = serialise(&c);
                self.sample(|| t);
            }
            if let Some(v) = judge_plan(&self.prop, m, &plan, &refs) {
                let mut c = Case::new(&self.prop, m, Body::Plan(plan));
                c.pre = pre.clone();
                match check(&c) {
                    Some(v2) => {
                        if self.hit(c, v2, u) {
                            return;
                        }
                    }
                    None => {
                        self.add("deviations_not_attributed", 1);
                        let killed = eng().fired.kill + eng().fired.kill_thread + eng().fired.interrupt_kill > f0.kill + f0.kill_thread + f0.interrupt_kill;
                        if self.prop == "C03" && killed && self.fallback.is_none() {
                            self.fallback = Some((c, v, u));
                        }
                    }
                }
            } else if j % 16 == 5 {
                // determinism: the same plan again
                let again = run_plan_pre(&pre, &plan);
                self.add("determinism_rechecks", 1);
                if again.hash != res.hash {
                    self.add("determinism_mismatches", 1);
                }
            }
        }
    }

    // ---------------------------------------------------------------- histories

    fn history_unit(&mut self, u: u64) {
        let mut r = Rng::new(mix(&[self.seed, 0xC04, u]));
        let targeted = !self.stateful.is_empty() && r.pct(60);
        let ci = if targeted {
            let m = r.pick(&self.stateful).m;
            self.cfgs.iter().position(|&x| x == m).unwrap()
        } else {
            (u % self.cfgs.len() as u64) as usize
        };
        let m = self.cfgs[ci];
        use_module(m);
        let nops = eng().mods[m].ops.len();
        for _ in 0..12 {
            if Instant::now() > self.deadline {
                break;
            }
            let size = 2 + r.idx(9);
            let mut pool: Vec<Spec> = vec![];
            let here: Vec<usize> = (0..self.stateful.len()).filter(|&i| self.stateful[i].m == m).collect();
            let op0 = r.idx(nops);
            if targeted && !here.is_empty() {
                let st = &self.stateful[*r.pick(&here)];
                let s = *r.pick(&st.specs);
                pool.push(s);
                if !st.groups.is_empty() && r.pct(40) {
                    pool = st.groups[r.idx(st.groups.len())].clone();
                }
            } else {
                pool.push(self.gens[ci].spec(&mut r, op0, &eng().mods[m].ops[op0]));
            }
            while pool.len() < size {
                let b = *r.pick(&pool);
                let s = match r.below(8) {
                    0..=4 => self.gens[ci].relative(&mut r, &b, &eng().mods[m].ops[b.op]),
                    5 => {
                        let fam = family(&eng().mods[m].ops[b.op].name);
                        let c: Vec<usize> = (0..nops).filter(|&k| family(&eng().mods[m].ops[k].name) == fam).collect();
                        let op = *r.pick(&c);
                        let mut s = self.gens[ci].spec(&mut r, op, &eng().mods[m].ops[op]);
                        if r.pct(50) {
                            for k in 0..3 {
                                s.x[k] = b.x[k] & mask(eng().mods[m].ops[op].fw);
                            }
                        }
                        s
                    }
                    6 if targeted && !here.is_empty() => {
                        let k = *r.pick(&here);
                        *r.pick(&self.stateful[k].specs)
                    }
                    _ => {
                        let op = r.idx(nops);
                        self.gens[ci].spec(&mut r, op, &eng().mods[m].ops[op])
                    }
                };
                pool.push(s);
            }
            self.modes(&mut r, &mut pool);
            let refs: Vec<Outcome> = pool.iter().map(solo).collect();
            let len = [24usize, 80, 300, 900][r.idx(4)];
            let mut h: Vec<(Spec, u64)> = vec![];
            let mut hr: Vec<Outcome> = vec![];
            let mut hh = m as u64;
            for _ in 0..len {
                let k = r.idx(pool.len());
                let rep = if r.pct(90) { 1 } else { 1 + r.below(40) };
                h.push((pool[k], rep));
                hr.push(refs[k]);
                hh = hh.wrapping_mul(31).wrapping_add(qhash(m, &pool[k]) ^ rep);
            }
            let mut n = 0;
            let bad = run_hist(m, &h, &hr, &mut n);
            self.add("histories", 1);
            self.add("calls", n);
            self.distinct.set(mix(&[hh]));
            if u < self.n {
                let t = serialise(&Case::new(&self.prop, m, Body::Hist(h[..4.min(h.len())].to_vec())));
                self.sample(|| format!("first calls of a history of {n}:\n{t}"));
            }
            if let Some((k, j, _)) = bad {
                h.truncate(k + 1);
                h[k].1 = j + 1;
                let c = Case::new(&self.prop, m, Body::Hist(h));
                match check(&c) {
                    Some(v) => {
                        if self.hit(c, v, u) {
                            return;
                        }
                    }
                    None => self.add("deviations_not_attributed", 1),
                }
            }
        }
    }

    /// Guided by novelty of the library's static memory: from every process image of a new
    /// shape that some history leaves behind, one more call; its result judged where results are.
    fn walk(&mut self, share: f64) {
        let mut mods: Vec<usize> = self.stateful.iter().map(|x| x.m).collect();
        mods.dedup();
        if mods.is_empty() || self.found.is_some() {
            return;
        }
        let t0 = Instant::now();
        let total = self.deadline.saturating_duration_since(t0).mul_f64(share);
        let first = self.me as usize % mods.len();
        let turns = mods.len().min(if self.thorough { 5 } else { 2 });
        for turn in 0..turns {
            let m = mods[(first + turn * (1 + mods.len() / 2)) % mods.len()];
            let end = t0 + total.mul_f64((turn + 1) as f64 / turns as f64);
            self.walk_module(m, end);
            if self.found.is_some() {
                return;
            }
        }
    }
    fn walk_module(&mut self, m: usize, end: Instant) {
        let judged = matches!(self.prop.as_str(), "C04" | "C10");
        use_module(m);
        let ci = self.cfgs.iter().position(|&x| x == m).unwrap();
        let here: Vec<usize> = (0..self.stateful.len()).filter(|&i| self.stateful[i].m == m).collect();
        let nops = eng().mods[m].ops.len();
        let mut r = Rng::new(mix(&[self.seed, 0x3a1c, m as u64, self.me]));
        let mut dead: BTreeSet<usize> = BTreeSet::new();
        // class of image, histories that lead there, attempts
        let mut nodes: Vec<(u64, Vec<Vec<Spec>>, u64)> = vec![(0, vec![vec![]], 0)];
        let mut index: BTreeMap<u64, usize> = BTreeMap::from([(0, 0)]);
        let mut steps = 0u64;
        let limit = if self.thorough { 1 << 30 } else { 3_000_000 };
        while steps < limit && self.found.is_none() {
            if steps % 64 == 0 && Instant::now() > end {
                break;
            }
            steps += 1;
            let (a, b) = (r.idx(nodes.len()), r.idx(nodes.len()));
            let n = if nodes[a].2 <= nodes[b].2 { a } else { b };
            nodes[n].2 += 1;
            let base = r.pick(&nodes[n].1).clone();
            let st = &self.stateful[*r.pick(&here)];
            let s = match r.below(20) {
                0..=7 => *r.pick(&st.specs),
                8..=12 => self.gens[ci].spec(&mut r, st.op, &eng().mods[m].ops[st.op]),
                13..=17 if !base.is_empty() => {
                    let b = *r.pick(&base);
                    self.gens[ci].relative(&mut r, &b, &eng().mods[m].ops[b.op])
                }
                18 => *r.pick(&st.specs),
                _ => {
                    let op = r.idx(nops);
                    self.gens[ci].spec(&mut r, op, &eng().mods[m].ops[op])
                }
            };
            let s = if r.pct(6) { Spec { mode: 1 + r.below(15) as u8, ..s } } else { s };
            if dead.contains(&s.op) {
                continue;
            }
            let want = solo(&s);
            if let Outcome::Crash(c) = want {
                if c == Crash::Hang {
                    dead.insert(s.op);
                }
                continue;
            }
            rebegin(Guard::Mark);
            let mut env = CLEAN;
            for b in &base {
                native(b, &env);
                carry(&mut env, b);
            }
            let o = native(&s, &env);
            self.add("calls", base.len() as u64 + 1);
            if judged && differs(&o, &want) {
                let mut h: Vec<(Spec, u64)> = base.iter().map(|b| (*b, 1)).collect();
                h.push((s, 1));
                let c = Case::new(&self.prop, m, Body::Hist(h));
                match check(&c) {
                    Some(v) => {
                        if self.hit(c, v, 5_000_000 + steps) {
                            return;
                        }
                    }
                    None => self.add("deviations_not_attributed", 1),
                }
                continue;
            }
            if o == Outcome::Crash(Crash::Hang) {
                dead.insert(s.op);
                continue;
            }
            if matches!(o, Outcome::Crash(_)) || base.len() >= 16 {
                continue;
            }
            let class = image_class();
            let at = match index.get(&class) {
                Some(&k) => k,
                None if nodes.len() < 4000 => {
                    nodes.push((class, vec![], 0));
                    index.insert(class, nodes.len() - 1);
                    nodes.len() - 1
                }
                None => continue,
            };
            if nodes[at].1.len() < 6 && class != 0 {
                let mut v = base;
                v.push(s);
                nodes[at].1.push(v);
            }
        }
        self.add("image_walk_steps", steps);
        self.add("image_walk_shapes_of_static_memory", nodes.len() as u64);
        let mut all: Vec<Vec<Spec>> = nodes.into_iter().flat_map(|n| n.1).filter(|v| !v.is_empty()).collect();
        all.sort_by_key(|v| v.len());
        all.dedup();
        let keep: Vec<Vec<Spec>> = (0..all.len().min(400)).map(|k| all[k * all.len() / all.len().min(400)].clone()).collect();
        self.walked.insert(m, keep);
        begin(Guard::Mark);
    }

    /// Very long single-operation histories.
    fn soak_unit(&mut self, ci: usize, op: usize, calls: u64, samples: &[Spec]) {
        let m = self.cfgs[ci];
        use_module(m);
        let o = eng().mods[m].ops[op].clone();
        let mut r = Rng::new(mix(&[self.seed, 0x50a4, m as u64, op as u64, calls]));
        let mut pool: Vec<Spec> = vec![];
        for k in 0..6 {
            let s = if k < 3 && !samples.is_empty() { *r.pick(samples) } else { self.gens[ci].spec(&mut r, op, &o) };
            if !matches!(solo(&s), Outcome::Crash(_)) {
                pool.push(s);
            }
        }
        if pool.is_empty() {
            return;
        }
        // keep the cost of one soak in bounds: drop operands that are slow
        let any_slow = budget(&eng().mods[m].cfg, &o, 64) > 6 * 4000;
        let cheap = |s: &Spec| {
            if !any_slow {
                return true;
            }
            rebegin(Guard::Mark);
            traced(s, &clean_env(), 2500, false, false);
            !eng().trace.overflow
        };
        let pool: Vec<Spec> = pool.into_iter().filter(|s| cheap(s)).collect();
        if pool.is_empty() {
            return;
        }
        // round and round many different operands: a rare event meets every one of them in turn
        let mut wide: Vec<Spec> = vec![];
        for _ in 0..400 {
            if wide.len() >= 61 {
                break;
            }
            let s = match r.below(3) {
                0 if !samples.is_empty() => *r.pick(samples),
                1 => self.gens[ci].relative(&mut r, &pool[0], &o),
                _ => self.gens[ci].spec(&mut r, op, &o),
            };
            if !wide.contains(&s) && cheap(&s) && !matches!(solo(&s), Outcome::Crash(_)) {
                wide.push(s);
            }
        }
        while wide.len() > 1 && (2..wide.len()).any(|d| d < 61 && wide.len() % d == 0) {
            wide.pop();
        }
        if !wide.is_empty() {
            let refs: Vec<Outcome> = wide.iter().map(solo).collect();
            let mut n = 0;
            let bad = run_cycle(&wide, calls, &refs, &mut n);
            self.add("soaks", 1);
            self.add("calls", n);
            self.distinct.set(mix(&[m as u64, op as u64, calls, 0xc9c1e]));
            if let Some((k, _)) = bad {
                let c = Case::new(&self.prop, m, Body::Cycle(wide, k + 1));
                match check(&c) {
                    Some(v) => {
                        if self.hit(c, v, 1_000_000 + op as u64) {
                            return;
                        }
                    }
                    None => self.add("deviations_not_attributed", 1),
                }
            }
        }
        let refs: Vec<Outcome> = pool.iter().map(solo).collect();
        let mut h = vec![];
        let mut hr = vec![];
        let mut tot = 0;
        while tot < calls {
            let k = r.idx(pool.len());
            let cap = 1 << r.below(13);
            let rep = (1 + r.below(cap)).min(calls - tot);
            h.push((pool[k], rep));
            hr.push(refs[k]);
            tot += rep;
        }
        let mut n = 0;
        let bad = run_hist(m, &h, &hr, &mut n);
        self.add("soaks", 1);
        self.add("calls", n);
        let mx = self.stats.entry("longest_single_operation_history".into()).or_insert(0);
        *mx = (*mx).max(n);
        self.distinct.set(mix(&[m as u64, op as u64, calls, 0x50a4]));
        if let Some((k, j, _)) = bad {
            h.truncate(k + 1);
            h[k].1 = j + 1;
            let c = Case::new(&self.prop, m, Body::Hist(h));
            match check(&c) {
                Some(v) => {
                    self.hit(c, v, 1_000_000 + op as u64);
                }
                None => self.add("deviations_not_attributed", 1),
            }
        }
    }

    // ---------------------------------------------------------------- ambient

    fn pick_op(&mut self, r: &mut Rng, ci: usize) -> (usize, Option<Spec>) {
        let m = self.cfgs[ci];
        let here: Vec<usize> = (0..self.stateful.len()).filter(|&i| self.stateful[i].m == m).collect();
        if !here.is_empty() && r.pct(25) {
            let st = &self.stateful[*r.pick(&here)];
            return (st.op, Some(*r.pick(&st.specs)));
        }
        (r.idx(eng().mods[m].ops.len()), None)
    }

    fn ambient_unit(&mut self, u: u64) {
        let mut r = Rng::new(mix(&[self.seed, 0xC05, u]));
        let ci = (u % self.cfgs.len() as u64) as usize;
        let m = self.cfgs[ci];
        use_module(m);
        let (op, smp) = self.pick_op(&mut r, ci);
        let o = eng().mods[m].ops[op].clone();
        for k in 0..96 {
            let s = match (&smp, k) {
                (Some(s), 0) => *s,
                (Some(s), _) if r.pct(50) => self.gens[ci].relative(&mut r, s, &o),
                _ => self.gens[ci].spec(&mut r, op, &o),
            };
            if !self.ambient_one(&mut r, m, s, u, k) {
                return;
            }
        }
    }
    /// One call under several ambient variations; false to stop.
    fn ambient_one(&mut self, r: &mut Rng, m: usize, s: Spec, u: u64, k: usize) -> bool {
        let rf = solo(&s);
        if let Outcome::Crash(Crash::Hang) = rf {
            return false;
        }
        if matches!(rf, Outcome::Crash(_)) {
            return true;
        }
        let masks: &[u32] = &[
            AMB_STACK,
            AMB_STACK | AMB_SHIFT,
            AMB_REGS | AMB_STICKY,
            AMB_STACK | AMB_REGS,
            AMB_COPY | AMB_SHIFT,
            AMB_CLOCK | AMB_STACK,
            AMB_STICKY | AMB_SHIFT | AMB_COPY | AMB_REGS | AMB_STACK | AMB_CLOCK,
            AMB_STEP | AMB_STACK,
            AMB_STICKY | AMB_SHIFT | AMB_STACK,
        ];
        for (i, &mk) in masks.iter().enumerate() {
            let expensive = mk & (AMB_COPY | AMB_CLOCK) != 0;
            if (mk & AMB_STEP != 0 && k % 4 != 1 && k != 0) || (expensive && k % 4 != i % 4 && k != 0) {
                continue;
            }
            if self.prop == "C10" && (mk & AMB_REGS != 0) {
                // compiled code may compute on the unused lanes of vector registers
                continue;
            }
            let seed = r.u64();
            let oc = ambient_run(m, &s, mk, seed);
            self.add("runs", 1);
            for (b, nm) in AMB_NAMES {
                if mk & b != 0 {
                    self.add(&format!("ambient:{nm}"), 1);
                }
            }
            self.distinct.set(qhash(m, &s) ^ mix(&[mk as u64]));
            let rf = if self.prop == "C10" { ambient_want(&s, mk, seed) } else { rf };
            if differs(&oc, &rf) {
                let c = Case::new(&self.prop, m, Body::Ambient { spec: s, mask: mk, seed });
                let v = check(&c).or_else(|| check(&c)).or_else(|| {
                    // the violation itself was already observed; keep what was seen
                    Some(Viol { class: "ambient".into(), text: format!("{} gave {} under ambient variation {mk:#x} seed {seed}, {} in a clean environment (not seen again)", fmt_spec(m, &s), fmt_out(m, &s, &oc), fmt_out(m, &s, &rf)) })
                });
                if self.hit(c, v.unwrap(), u) {
                    return false;
                }
            }
            if u < self.n && k < 8 && mk & AMB_SHIFT != 0 && mk & AMB_STICKY != 0 {
                let t = serialise(&Case::new(&self.prop, m, Body::Ambient { spec: s, mask: mk, seed }));
                self.sample(|| t);
            }
        }
        true
    }

    // ---------------------------------------------------------------- rounding modes

    /// One exact operation in the three other rounding modes; false to stop.
    fn round_one(&mut self, m: usize, s: Spec, u: u64) -> bool {
        if !exact_op(&eng().mods[m].ops[s.op].name) {
            return false;
        }
        let rf = solo(&s);
        let s = Spec { mode: 0, ..s };
        if matches!(rf, Outcome::Crash(_)) || !exact_here(m, &s, &rf) {
            return !matches!(rf, Outcome::Crash(Crash::Hang));
        }
        for k in 1..4u8 {
            let o = solo(&Spec { mode: k, ..s });
            self.add("runs", 1);
            self.add("ambient:another-rounding-mode", 1);
            if o != rf {
                let seed = (0..1000u64).find(|&x| ambient_round(AMB_ROUND, x) == k as u32).unwrap_or(0);
                let c = Case::new(&self.prop, m, Body::Ambient { spec: s, mask: AMB_ROUND, seed });
                match check(&c) {
                    Some(v) => {
                        if self.hit(c, v, u) {
                            return false;
                        }
                    }
                    None => self.add("deviations_not_attributed", 1),
                }
            }
        }
        self.distinct.set(qhash(m, &s));
        true
    }
    // ---------------------------------------------------------------- processors

    /// One call on a processor other than the real one; false to stop.
    fn cpu_one(&mut self, r: &mut Rng, m: usize, s: Spec, u: u64) -> bool {
        let rf = solo(&s);
        if matches!(rf, Outcome::Crash(_)) {
            return rf != Outcome::Crash(Crash::Hang);
        }
        let mask = AMB_CPU | [0, AMB_STACK, AMB_STICKY, AMB_SHIFT][r.idx(4)];
        let seed = r.u64();
        let oc = ambient_run(m, &s, mask, seed);
        self.add("runs", 1);
        self.add(
            ambient_cpu(seed).kind,
            1,
        );
        self.distinct.set(qhash(m, &s) ^ mix(&[mask as u64, ambient_cpu(seed) as *const Cpu as u64]));
        if differs(&oc, &rf) {
            let c = Case::new(&self.prop, m, Body::Ambient { spec: s, mask, seed });
            match check(&c) {
                Some(v) => {
                    if self.hit(c, v, u) {
                        return false;
                    }
                }
                None => self.add("deviations_not_attributed", 1),
            }
        }
        if u < self.n {
            let t = serialise(&Case::new(&self.prop, m, Body::Ambient { spec: s, mask, seed }));
            self.sample(|| t);
        }
        true
    }
    fn cpu_unit(&mut self, u: u64) {
        let mut r = Rng::new(mix(&[self.seed, 0xC12, u]));
        let ci = (u % self.cfgs.len() as u64) as usize;
        let m = self.cfgs[ci];
        use_module(m);
        let (op, smp) = self.pick_op(&mut r, ci);
        let o = eng().mods[m].ops[op].clone();
        for k in 0..48 {
            let mut s = match (&smp, k) {
                (Some(s), 0) => *s,
                (Some(s), _) if r.pct(50) => self.gens[ci].relative(&mut r, s, &o),
                _ => self.gens[ci].spec(&mut r, op, &o),
            };
            if r.pct(15) {
                s.mode = 1 + r.below(15) as u8;
            }
            if !self.cpu_one(&mut r, m, s, u) {
                return;
            }
        }
    }
    fn round_unit(&mut self, u: u64) {
        let mut r = Rng::new(mix(&[self.seed, 0xC11, u]));
        let ci = (u % self.cfgs.len() as u64) as usize;
        let m = self.cfgs[ci];
        use_module(m);
        let ops: Vec<usize> = (0..eng().mods[m].ops.len()).filter(|&k| exact_op(&eng().mods[m].ops[k].name)).collect();
        let op = *r.pick(&ops);
        let o = eng().mods[m].ops[op].clone();
        let mut last: Option<Spec> = None;
        for k in 0..512 {
            let s = match last {
                Some(s) if r.pct(30) => self.gens[ci].relative(&mut r, &s, &o),
                _ => self.gens[ci].spec(&mut r, op, &o),
            };
            if s.op != op {
                continue;
            }
            last = Some(s);
            if !self.round_one(m, s, u) {
                return;
            }
            if k % 64 == 0 {
                // together with the rest of the surroundings
                let rf = solo(&s);
                for mask in [AMB_ROUND | AMB_STACK | AMB_STICKY, AMB_ROUND | AMB_REGS | AMB_SHIFT, AMB_ROUND | AMB_COPY | AMB_CLOCK | AMB_STACK] {
                    let seed = r.u64();
                    let oc = ambient_run(m, &s, mask, seed);
                    self.add("runs", 1);
                    for (b, nm) in AMB_NAMES {
                        if mask & b != 0 {
                            self.add(&format!("ambient:{nm}"), 1);
                        }
                    }
                    if oc != rf && exact_here(m, &s, &rf) {
                        let c = Case::new(&self.prop, m, Body::Ambient { spec: s, mask, seed });
                        if let Some(v) = check(&c) {
                            if self.hit(c, v, u) {
                                return;
                            }
                        }
                    }
                }
                if u < self.n && k == 0 {
                    let t = serialise(&Case::new(&self.prop, m, Body::Ambient { spec: s, mask: AMB_ROUND, seed: u }));
                    self.sample(|| t);
                }
            }
        }
    }

    // ---------------------------------------------------------------- caller state

    fn state_unit(&mut self, u: u64) {
        let mut r = Rng::new(mix(&[self.seed, 0xC06, u]));
        let ci = (u % self.cfgs.len() as u64) as usize;
        let m = self.cfgs[ci];
        use_module(m);
        let (op, smp) = self.pick_op(&mut r, ci);
        let o = eng().mods[m].ops[op].clone();
        let mut hangs = 0;
        for k in 0..256 {
            let s = match &smp {
                Some(s) if r.pct(40) => self.gens[ci].relative(&mut r, s, &o),
                _ => self.gens[ci].spec(&mut r, op, &o),
            };
            let masks: &[u32] = &[0, ST_STICKY, ST_MODES | ST_STICKY, ST_FRAME | ST_REGS, ST_STICKY | ST_FRAME, ST_UNMASK, ST_UNMASK | ST_MODES | ST_REGS, ST_STEP | ST_STICKY, ST_STEP | ST_MODES];
            let masks = if k % 128 == 0 { masks } else { &masks[..7] };
            if !self.state_one(&mut r, m, s, u, k, masks, &mut hangs) {
                return;
            }
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn state_one(&mut self, r: &mut Rng, m: usize, s: Spec, u: u64, k: usize, masks: &[u32], hangs: &mut u32) -> bool {
        let o = eng().mods[m].ops[s.op].clone();
        for &mk in masks {
            let seed = r.u64();
            let mut er = Rng::new(seed);
            let mut env = state_env(mk, &mut er);
            rebegin(Guard::Mark);
            if mk & ST_UNMASK != 0 {
                env = unmasked(&s, &env);
            }
            set_errno(&env);
            let bad = if mk & ST_STEP != 0 {
                traced(&s, &env, 4000, false, false);
                let n = eng().trace.steps;
                self.add("instructions_checked_one_by_one", n);
                eng().trace.ctl_bad.is_some() || state_verdict(&env, &o).is_some()
            } else {
                let oc = native(&s, &env);
                if oc == Outcome::Crash(Crash::Hang) {
                    *hangs += 1;
                    if *hangs > 1 {
                        return false;
                    }
                }
                state_verdict(&env, &o).is_some()
            };
            self.add("runs", 1);
            for (b, nm) in ST_NAMES {
                if mk & b != 0 {
                    self.add(nm, 1);
                }
            }
            self.distinct.set(qhash(m, &s) ^ mix(&[mk as u64, env.mxcsr as u64, env.cw as u64]));
            if bad {
                let c = Case::new(&self.prop, m, Body::State { spec: s, mask: mk, seed });
                match check(&c) {
                    Some(v) => {
                        if self.hit(c, v, u) {
                            return false;
                        }
                    }
                    None => self.add("deviations_not_attributed", 1),
                }
            }
            if u < self.n && k == 0 && mk == ST_MODES | ST_STICKY {
                let t = serialise(&Case::new(&self.prop, m, Body::State { spec: s, mask: mk, seed }));
                self.sample(|| t);
            }
        }
        true
    }

    // ---------------------------------------------------------------- budgets

    fn budget_unit(&mut self, u: u64) {
        let mut r = Rng::new(mix(&[self.seed, 0xC07B, u]));
        let ci = (u % self.cfgs.len() as u64) as usize;
        let m = self.cfgs[ci];
        use_module(m);
        let (op, _) = self.pick_op(&mut r, ci);
        let o = eng().mods[m].ops[op].clone();
        let mut confirms = 0;
        for _ in 0..400 {
            let mut s = self.gens[ci].spec(&mut r, op, &o);
            if r.pct(20) {
                s.mode = 1 + r.below(15) as u8;
                self.add("ambient:non-default-modes", 1);
            }
            if !self.budget_one(m, s, u, &mut confirms) {
                return;
            }
        }
    }
    fn budget_one(&mut self, m: usize, s: Spec, u: u64, confirms: &mut u32) -> bool {
        let o = &eng().mods[m].ops[s.op];
        let cfg = &eng().mods[m].cfg;
        let mut env = CLEAN;
        env.flags = FL_TSC;
        let b = budget(cfg, o, s.n);
        rebegin(Guard::Mark);
        let oc = native(&s, &env);
        let mut t = frame().inv.tsc;
        self.add("runs", 1);
        self.distinct.set(qhash(m, &s));
        let hang = matches!(oc, Outcome::Crash(_));
        if !hang {
            if t < b / 8 {
                return true;
            }
            for _ in 0..3 {
                rebegin(Guard::Mark);
                native(&s, &env);
                t = t.min(frame().inv.tsc);
            }
            if t < b / 8 || *confirms > 6 {
                return true;
            }
            // instructions per clock tick, learnt from this operation: twice that is no risk
            if let Some((k, r)) = self.pace.get(&(m, s.op)) {
                if *k >= 4 && t as f64 * r * 2.0 < b as f64 {
                    return true;
                }
            }
            *confirms += 1;
        }
        self.add("budget_confirmations_by_single_stepping", 1);
        let c = Case::new(&self.prop, m, Body::Budget { spec: s });
        if let Some(v) = check(&c) {
            if self.hit(c, v, u) {
                return false;
            }
        } else if !hang {
            let e = self.pace.entry((m, s.op)).or_default();
            *e = (e.0 + 1, e.1.max(eng().trace.steps as f64 / t.max(1) as f64));
        }
        if u < self.n {
            self.sample(|| format!("budget {} {}: {} instructions of {b}", cfg, fmt_spec(m, &s), eng().trace.steps));
        }
        true
    }

    // ---------------------------------------------------------------- resources

    fn resource_unit(&mut self, u: u64) {
        let mut r = Rng::new(mix(&[self.seed, 0xC08, u]));
        let ci = (u % self.cfgs.len() as u64) as usize;
        use_module(self.cfgs[ci]);
        let (op, smp) = self.pick_op(&mut r, ci);
        let o = eng().mods[self.cfgs[ci]].ops[op].clone();
        let mut specs = vec![];
        for _ in 0..300 {
            specs.push(match &smp {
                Some(s) if r.pct(50) => self.gens[ci].relative(&mut r, s, &o),
                _ => self.gens[ci].spec(&mut r, op, &o),
            });
            if r.pct(15) {
                specs.last_mut().unwrap().mode = 1 + r.below(15) as u8;
                self.add("ambient:non-default-modes", 1);
            }
        }
        self.resource_some(ci, &specs, specs.len() as u64, u);
        if self.prop == "C09" && u % 8 == 0 && self.found.is_none() {
            self.nest_one(self.cfgs[ci], &specs[0], u);
        }
    }
    /// Follow the calls of one execution; false to stop.
    fn nest_one(&mut self, m: usize, s: &Spec, u: u64) -> bool {
        let k = nesting(s, if self.thorough { 20_000 } else { 3000 });
        let n = eng().trace.steps;
        self.add("runs", 1);
        self.add("instructions_followed_for_recursion", n);
        let mx = self.stats.entry("longest_nesting_of_one_function".into()).or_insert(0);
        *mx = (*mx).max(k as u64);
        if k > NEST_LIMIT {
            let c = Case::new(&self.prop, m, Body::Resource { spec: *s, mask: RS_NEST });
            match check(&c) {
                Some(v) => return !self.hit(c, v, u),
                None => self.add("deviations_not_attributed", 1),
            }
        }
        true
    }
    /// Round the list without restoring the image in between, `total` calls in all.
    fn resource_some(&mut self, ci: usize, specs: &[Spec], total: u64, u: u64) {
        let m = self.cfgs[ci];
        let stack = self.prop == "C09";
        let limit = stack_budget(&eng().mods[m].cfg);
        let mut bad: Option<(Spec, u32)> = None;
        // calls since the image was last restored
        let mut since: (u64, u64) = (0, 0);
        let (mut runs, mut refused, mut trapped) = (0u64, 0u64, 0u64);
        let mut smp_line = None;
        let this = self as *mut W;
        on_fiber(&mut || {
            let w = unsafe { &mut *this };
            begin(Guard::Off);
            let st = eng().mods[m].alloc_state;
            let mut env = CLEAN;
            if stack {
                native(&specs[0], &CLEAN);
                eng().touched = true;
                begin(Guard::Off);
                env = floor_env(frame().inv.saved_rsp, limit);
            }
            for k in 0..total {
                let s = &specs[(k % specs.len() as u64) as usize];
                since.1 = k;
                unsafe {
                    let before = std::ptr::read_volatile(st);
                    let refuse = !stack && runs % 2 == 0;
                    std::ptr::write_volatile(st.add(1), if refuse { before } else { usize::MAX });
                    eng().sud_on = !stack;
                    let oc = native(s, &env);
                    eng().sud_on = false;
                    let after = std::ptr::read_volatile(st);
                    std::ptr::write_volatile(st.add(1), usize::MAX);
                    runs += 1;
                    refused += refuse as u64;
                    trapped += (!stack && eng().sud_ok) as u64;
                    w.distinct.set(qhash(m, s));
                    if oc == Outcome::Crash(Crash::Hang) {
                        break;
                    }
                    if smp_line.is_none() && u < w.n {
                        smp_line = Some(if stack {
                            format!("{} {} with {limit} bytes of stack: {}", eng().mods[m].cfg, fmt_spec(m, s), fmt_out(m, s, &oc))
                        } else {
                            format!("{} {} with the allocator {} and kernel entry trapped: {}", eng().mods[m].cfg, fmt_spec(m, s), if refuse { "refusing" } else { "granting" }, fmt_out(m, s, &oc))
                        });
                    }
                    if stack {
                        if oc == Outcome::Crash(Crash::StackOverflow) {
                            bad = Some((*s, RS_STACK));
                            break;
                        }
                    } else {
                        let died = matches!(oc, Outcome::Crash(Crash::Panic | Crash::Abort));
                        if oc == Outcome::Crash(Crash::Syscall) || (after != before && !died) {
                            bad = Some((*s, RS_ALLOC | RS_SYSCALL));
                            break;
                        }
                        if after != before && died {
                            // an ordinary panic (which allocates), or one caused by the refusal?
                            eng().touched = true;
                            begin(Guard::Off);
                            let again = native(s, &CLEAN);
                            if !matches!(again, Outcome::Crash(_)) {
                                bad = Some((*s, RS_ALLOC));
                                break;
                            }
                        }
                    }
                    if let Outcome::Crash(_) = oc {
                        eng().touched = true;
                        begin(Guard::Off);
                        since.0 = k + 1;
                    }
                }
            }
            stack_floor(None);
            eng().touched = true;
            begin(Guard::Off);
        });
        self.add("runs", runs);
        self.add("fault:allocation-refused", refused);
        self.add("fault:kernel-entry-impossible", trapped);
        self.add("fault:stack-ends-at-the-limit", if stack { runs } else { 0 });
        if let Some(l) = smp_line {
            self.sample(|| l);
        }
        if let Some((s, mk)) = bad {
            let mut c = Case::new(&self.prop, m, Body::Resource { spec: s, mask: mk });
            let mut v = check(&c);
            if v.is_none() && since.1 > since.0 {
                // what went before in this execution may matter
                c.pre = Some(used_by(specs, since.0, since.1));
                v = check(&c);
            }
            match v {
                Some(v) => {
                    self.hit(c, v, u);
                }
                None => self.add("deviations_not_attributed", 1),
            }
        }
    }

    // ---------------------------------------------------------------- used processes

    /// Completed calls only.
    fn gen_hist(&self, r: &mut Rng, pool: &[Item], instructions: u64) -> Pre {
        if r.pct(35) {
            if let Some(v) = self.walked.get(&eng().m).filter(|v| !v.is_empty()) {
                let v = r.pick(v).clone();
                let n = v.len() as u64;
                return Pre { hist: vec![(v, n)], plan: Plan::default() };
            }
        }
        let n = 1 + r.idx(8);
        let v: Vec<Spec> = (0..n).map(|_| r.pick(pool).spec).collect();
        let steps: u64 = pool.iter().map(|i| i.traces[0].steps).max().unwrap_or(1);
        let cap = (instructions / steps.max(1)).max(2);
        let k = [1u64, 2, 5, 40, 700, 5000][r.idx(6)];
        Pre { hist: vec![(v, (1 + r.below(k)).min(cap))], plan: Plan::default() }
    }

    /// A process with a past: completed calls, then calls that were suspended, killed or abandoned.
    fn gen_pre(&self, r: &mut Rng, pool: &[Item]) -> Pre {
        let mut pre = Pre::default();
        if r.pct(40) {
            pre = self.gen_hist(r, pool, 3_000_000);
        }
        if pre.hist.is_empty() || r.pct(60) {
            let crowd = if r.pct(80) { 1 + r.idx(3) } else { 4 + r.idx(9) };
            let same = r.pct(40).then(|| r.idx(pool.len()));
            let p = &mut pre.plan;
            if r.pct(3) && pool.iter().map(|i| i.traces[0].points).sum::<u32>() < 100 {
                // very many abandoned calls
                let k = same.unwrap_or_else(|| r.idx(pool.len()));
                let at = self.anchor(r, &pool[k]);
                let n = [200, 300, 1200, 5000][r.idx(4)];
                for _ in 0..n {
                    p.calls.push(CallPlan { spec: pool[k].spec, evs: vec![Ev { at, act: Act::Kill }] });
                }
                p.fibers.push((0..n).collect());
            }
            for _ in 0..crowd {
                let k = same.unwrap_or_else(|| r.idx(pool.len()));
                let id = p.calls.len();
                p.calls.push(CallPlan { spec: pool[k].spec, evs: vec![] });
                let at = self.anchor(r, &pool[k]);
                let act = match r.below(10) {
                    0..=5 => Act::Stall,
                    6 | 7 => Act::Kill,
                    8 => Act::KillThread,
                    _ => Act::Preempt,
                };
                p.calls[id].evs.push(Ev { at, act });
                p.fibers.push(vec![id]);
            }
            let ls = 4 + r.idx(16);
            p.sched = (0..ls).map(|_| r.below(48) as u8).collect();
        }
        pre
    }

    fn used_unit(&mut self, u: u64) {
        let mut r = Rng::new(mix(&[self.seed, 0x05ed, self.prop.bytes().fold(0, |a, b| a * 256 + b as u64), u]));
        let targeted = !self.stateful.is_empty() && r.pct(90);
        let ci = if targeted {
            let m = r.pick(&self.stateful).m;
            self.cfgs.iter().position(|&x| x == m).unwrap()
        } else {
            (u % self.cfgs.len() as u64) as usize
        };
        let m = self.cfgs[ci];
        use_module(m);
        eng().check_ctl = false;
        let size = 2 + r.idx(3);
        let pool = self.pool(&mut r, ci, size, targeted);
        if pool.is_empty() {
            return;
        }
        let heavy: u64 = pool.iter().map(|i| i.traces[0].points as u64).sum();
        let k = if heavy > 2000 { 4 } else if heavy > 0 { 24 } else { 8 };
        let mut hangs = 0;
        for j in 0..k {
            if Instant::now() > self.deadline {
                break;
            }
            let pre = self.gen_pre(&mut r, &pool);
            let it = &pool[r.idx(pool.len())];
            let s = match r.below(4) {
                0 => self.gens[ci].relative(&mut r, &it.spec, &eng().mods[m].ops[it.spec.op]),
                1 if !pre.plan.calls.is_empty() => pre.plan.calls[0].spec,
                _ => it.spec,
            };
            let s = if self.prop == "C11" { Spec { mode: 0, ..s } } else { s };
            let mut c = Case::new(&self.prop, m, Body::Budget { spec: s });
            c.pre = Some(pre);
            // nobody can be judged who never returns (C07 judges exactly that)
            let f0 = eng().fired.clone();
            if self.prop != "C07" {
                let o = outcome_after(&c, &s);
                if o == Outcome::Crash(Crash::Hang) {
                    hangs += 1;
                    if hangs > 1 {
                        return;
                    }
                }
                if matches!(o, Outcome::Crash(_)) {
                    continue;
                }
            }
            let bodies: Vec<Body> = match self.prop.as_str() {
                "C12" => (0..3).map(|_| Body::Ambient { spec: s, mask: AMB_CPU, seed: r.u64() }).collect(),
                "C11" => vec![Body::Ambient { spec: s, mask: AMB_ROUND, seed: r.u64() }],
                "C05" => [AMB_COPY | AMB_SHIFT | AMB_STACK, AMB_REGS | AMB_STICKY | AMB_STACK, AMB_CLOCK | AMB_STACK | AMB_SHIFT]
                    .iter()
                    .map(|&mask| Body::Ambient { spec: s, mask, seed: r.u64() })
                    .collect(),
                "C06" => {
                    let step = j % 8 == 0;
                    let mut v: Vec<u32> = vec![0, ST_STICKY, ST_MODES | ST_STICKY, ST_FRAME | ST_REGS | ST_STICKY, ST_UNMASK | ST_MODES];
                    if step {
                        v.push(ST_STEP | ST_MODES);
                    }
                    v.into_iter().map(|mask| Body::State { spec: s, mask, seed: r.u64() }).collect()
                }
                "C07" => vec![Body::Budget { spec: s }],
                "C08" => vec![Body::Resource { spec: s, mask: RS_ALLOC | RS_SYSCALL }],
                _ => {
                    let mut v = vec![Body::Resource { spec: s, mask: RS_STACK }];
                    if j % 4 == 0 {
                        v.push(Body::Resource { spec: s, mask: RS_NEST });
                    }
                    v
                }
            };
            for b in bodies {
                c.body = b;
                self.add("runs", 1);
                self.add("runs_in_a_used_process", 1);
                if let Some(v) = check(&c) {
                    if self.hit(c.clone(), v, 3_000_000 + u) {
                        return;
                    }
                }
            }
            let f = &eng().fired;
            if f.stall + f.kill + f.kill_thread > f0.stall + f0.kill + f0.kill_thread {
                self.add("nontrivial_runs", 1);
            }
            self.distinct.set(mix(&[qhash(m, &s), u, j]));
            if u < self.n && j == 1 {
                let t = serialise(&c);
                self.sample(|| t);
            }
        }
    }

    /// Long lives of the operations that have state, judged call by call.
    fn long_life(&mut self, calls: u64) {
        let n = self.stateful.len();
        let t0 = Instant::now();
        let part = t0 + (self.deadline.saturating_duration_since(t0)).mul_f64(0.25);
        for i in 0..n {
            // spread over the workers in an order that reaches every operation early
            if (i as u64) % self.n != self.me || self.found.is_some() || Instant::now() > part {
                continue;
            }
            let (m, op, sp) = (self.stateful[i].m, self.stateful[i].op, self.stateful[i].specs.clone());
            let ci = self.cfgs.iter().position(|&x| x == m).unwrap();
            use_module(m);
            let o = eng().mods[m].ops[op].clone();
            let calls = if eng().mods[m].cfg.starts_with("dbg") { calls / 16 } else { calls };
            let mut r = Rng::new(mix(&[self.seed, 0x11fe, m as u64, op as u64]));
            let mut wide: Vec<Spec> = vec![];
            let mut cost = 0u64;
            for _ in 0..300 {
                if wide.len() >= 61 {
                    break;
                }
                let s = match r.below(3) {
                    0 => *r.pick(&sp),
                    1 => self.gens[ci].relative(&mut r, &sp[0], &o),
                    _ => self.gens[ci].spec(&mut r, op, &o),
                };
                if wide.contains(&s) || matches!(solo(&s), Outcome::Crash(_)) {
                    continue;
                }
                rebegin(Guard::Mark);
                traced(&s, &clean_env(), 2500, false, false);
                if !eng().trace.overflow {
                    cost += eng().trace.steps;
                    wide.push(s);
                }
            }
            if wide.is_empty() {
                continue;
            }
            // about a second each
            let each = cost / wide.len() as u64 + 100;
            let calls = calls.min(3_000_000_000 / each);
            let u = 4_000_000 + i as u64;
            self.one_life(ci, &wide, calls, u, &mut r);
            // many different operands instead: what fills up stays full
            let size = (1_000_000_000 / each).min(if self.thorough { 40_000 } else { 4_000 });
            let mut many: Vec<Spec> = vec![];
            let mut base = wide[r.idx(wide.len())];
            for k in 0..size {
                if k % 64 == 0 {
                    base = wide[r.idx(wide.len())];
                }
                let s = match r.below(4) {
                    0 => self.gens[ci].spec(&mut r, op, &o),
                    1 => self.gens[ci].relative(&mut r, &base, &o),
                    _ => {
                        let mut s = base;
                        let j = r.idx((o.nf as usize).max(1));
                        s.x[j] = s.x[j].wrapping_add(k as u128 + 1) & mask(o.fw);
                        s
                    }
                };
                if s.op == op && !matches!(native_fresh(&s), Outcome::Crash(_)) {
                    many.push(s);
                }
            }
            if !many.is_empty() && self.found.is_none() {
                self.one_life(ci, &many, many.len() as u64 * 2, u, &mut r);
            }
            self.add("long_lives", 1);
            self.add("calls_in_long_lives", calls);
            let mx = self.stats.entry("longest_life_in_calls".into()).or_insert(0);
            *mx = (*mx).max(calls);
        }
    }
    fn one_life(&mut self, ci: usize, v: &[Spec], calls: u64, u: u64, r: &mut Rng) {
        let m = self.cfgs[ci];
        match self.prop.as_str() {
            "C08" | "C09" => self.resource_some(ci, v, calls, u),
            "C06" => self.life_state(m, v, calls, u, r),
            "C07" => self.life_budget(m, v, calls, u),
            "C11" | "C12" => {}
            _ => self.life_ambient(m, v, calls, u, r),
        }
    }
    fn life_hit(&mut self, m: usize, wide: &[Spec], k: u64, body: Body, u: u64) -> bool {
        let mut c = Case::new(&self.prop, m, body);
        let mut v = check(&c);
        if v.is_none() {
            c.pre = Some(used_by(wide, 0, k));
            v = check(&c);
        }
        match v {
            Some(v) => self.hit(c, v, u),
            None => {
                self.add("deviations_not_attributed", 1);
                false
            }
        }
    }
    fn life_state(&mut self, m: usize, wide: &[Spec], calls: u64, u: u64, r: &mut Rng) {
        // the ordinary caller most of the time: what it leaves behind is what a replay can rebuild
        let envs: Vec<(u32, u64, Env)> = (0..12)
            .map(|k| {
                let mask = if k < 9 { [0, ST_STICKY][k % 2] } else { ST_STICKY | ST_MODES };
                let seed = r.u64();
                (mask, seed, state_env(mask, &mut Rng::new(seed)))
            })
            .collect();
        let mut fails = 0;
        rebegin(Guard::Mark);
        for k in 0..calls {
            let s = wide[(k % wide.len() as u64) as usize];
            let e = &envs[(k % 12) as usize];
            set_errno(&e.2);
            if native(&s, &e.2) == Outcome::Crash(Crash::Hang) {
                return;
            }
            if state_verdict(&e.2, op_of(m, &s)).is_some() {
                if self.life_hit(m, wide, k, Body::State { spec: s, mask: e.0, seed: e.1 }, u) || fails > 2 {
                    return;
                }
                fails += 1;
                rebegin(Guard::Mark);
            }
        }
    }
    fn life_budget(&mut self, m: usize, wide: &[Spec], calls: u64, u: u64) {
        let mut env = CLEAN;
        env.flags = FL_TSC;
        let cfg = eng().mods[m].cfg.clone();
        let lim: Vec<u64> = wide.iter().map(|s| budget(&cfg, op_of(m, s), s.n) / 4).collect();
        let mut fails = 0;
        let mut slow = 0;
        rebegin(Guard::Mark);
        for k in 0..calls {
            let i = (k % wide.len() as u64) as usize;
            let oc = native(&wide[i], &env);
            let hang = oc == Outcome::Crash(Crash::Hang);
            // an interrupt of the machine looks the same: ask twice more before the expensive check
            let t = if hang { u64::MAX } else { frame().inv.tsc };
            if t > lim[i] {
                slow += 1;
            } else {
                slow = 0;
            }
            if hang || slow >= 3 || t > 400 * lim[i] {
                if self.life_hit(m, wide, k, Body::Budget { spec: wide[i] }, u) || fails > 3 || hang {
                    return;
                }
                fails += 1;
                slow = 0;
                rebegin(Guard::Mark);
                for j in 0..=k {
                    native(&wide[(j % wide.len() as u64) as usize], &CLEAN);
                }
            }
        }
    }
    fn life_ambient(&mut self, m: usize, wide: &[Spec], calls: u64, u: u64, r: &mut Rng) {
        // the same long life twice, in a clean environment and in dirty ones
        let refs: Vec<Outcome> = wide.iter().map(solo).collect();
        let envs: Vec<(u32, u64, Env)> = (0..8)
            .map(|_| {
                let mask = [AMB_STACK, AMB_REGS | AMB_STICKY, AMB_SHIFT | AMB_STACK][r.idx(3)];
                let seed = r.u64();
                // what it points at is reused: keep only what stands on its own
                let mut e = ambient_env(mask, &mut Rng::new(seed));
                e.dirty_len = 0;
                e.flags &= !FL_VEC;
                (mask, seed, e)
            })
            .collect();
        let mut fails = 0;
        rebegin(Guard::Mark);
        for k in 0..calls {
            let i = (k % wide.len() as u64) as usize;
            let e = &envs[(k % 8) as usize];
            let oc = native(&wide[i], &e.2);
            if oc == Outcome::Crash(Crash::Hang) {
                return;
            }
            if oc != refs[i] {
                if self.life_hit(m, wide, k, Body::Ambient { spec: wide[i], mask: e.0, seed: e.1 }, u) || fails > 2 {
                    return;
                }
                fails += 1;
                rebegin(Guard::Mark);
            }
        }
    }

    // ---------------------------------------------------------------- operands of every branch

    /// Every operand the coverage-guided search kept, in every configuration.
    fn sweep(&mut self) {
        let t0 = Instant::now();
        let mut unit = 0u64;
        for ci in 0..self.cfgs.len() {
            let m = self.cfgs[ci];
            for op in 0..eng().mods[m].ops.len() {
                unit += 1;
                let o = eng().mods[m].ops[op].clone();
                // every worker has its own copies of the modules, in other places
                let mine = unit % self.n == self.me;
                if (!mine && !matches!(self.prop.as_str(), "C05" | "C10")) || o.name.starts_with("Libm") {
                    continue;
                }
                let specs = self.gens[ci].corpus[op].clone();
                if specs.is_empty() || self.found.is_some() || Instant::now() > self.deadline {
                    continue;
                }
                use_module(m);
                if !mine {
                    self.sweep_places(m, &specs, 2_000_000 + unit);
                    continue;
                }
                let slow = eng().mods[m].cfg.starts_with("dbg");
                let mut r = Rng::new(mix(&[self.seed, 0x53ee, m as u64, op as u64]));
                let u = 2_000_000 + unit;
                match self.prop.as_str() {
                    "C04" => self.sweep_history(&mut r, m, &specs, u),
                    "C05" | "C10" => {
                        if self.prop == "C10" {
                            self.sweep_history(&mut r, m, &specs, u);
                        }
                        self.sweep_places(m, &specs, u);
                        if self.found.is_some() {
                            continue;
                        }
                        for (i, s) in specs.iter().enumerate() {
                            if !self.ambient_one(&mut r, m, *s, u, if slow && i % 8 != 0 { 4 } else { 0 }) {
                                break;
                            }
                        }
                    }
                    "C06" => {
                        let mut hangs = 0;
                        for (i, s) in specs.iter().enumerate() {
                            let step = ST_STEP | if r.pct(50) { ST_STICKY } else { ST_MODES };
                            let masks = [0, ST_STICKY, ST_MODES, ST_FRAME | ST_REGS, ST_STICKY | ST_MODES | ST_FRAME, ST_UNMASK, step];
                            let masks = if slow && i % 8 != 0 { &masks[..6] } else { &masks[..] };
                            if !self.state_one(&mut r, m, *s, u, 1, masks, &mut hangs) {
                                break;
                            }
                        }
                    }
                    "C07" => {
                        let mut confirms = 0;
                        for s in &specs {
                            let other = Spec { mode: 1 + r.below(15) as u8, ..*s };
                            self.add("ambient:non-default-modes", 1);
                            if !self.budget_one(m, *s, u, &mut confirms) || !self.budget_one(m, other, u, &mut confirms) {
                                break;
                            }
                        }
                    }
                    "C12" => {
                        for s in &specs {
                            let other = Spec { mode: 1 + r.below(15) as u8, ..*s };
                            if !self.cpu_one(&mut r, m, *s, u) || !self.cpu_one(&mut r, m, *s, u) || (r.pct(25) && !self.cpu_one(&mut r, m, other, u)) {
                                break;
                            }
                        }
                    }
                    "C11" => {
                        for s in &specs {
                            if !self.round_one(m, *s, u) {
                                break;
                            }
                        }
                    }
                    "C08" | "C09" => {
                        let mut specs = specs.clone();
                        for k in 0..specs.len() / 2 {
                            // and some in other floating-point modes
                            let mode = 1 + r.below(15) as u8;
                            specs.push(Spec { mode, ..specs[2 * k] });
                            self.add("ambient:non-default-modes", 1);
                        }
                        self.resource_some(ci, &specs, specs.len() as u64, u);
                        if self.prop == "C09" && self.found.is_none() {
                            let every = if self.thorough { 1 } else if slow { 6 } else { 2 };
                            for s in specs.iter().step_by(every) {
                                if !self.nest_one(m, s, u) {
                                    break;
                                }
                            }
                        }
                    }
                    _ => {}
                }
                self.add("swept_operands", specs.len() as u64);
            }
        }
        self.add("sweep_milliseconds_all_workers", t0.elapsed().as_millis() as u64);
    }

    /// The operands of every branch of one operation in every copy of the module.
    fn sweep_places(&mut self, m: usize, specs: &[Spec], u: u64) {
        let refs: Vec<Outcome> = specs.iter().map(solo).collect();
        for k in 0..COPIES {
            let mut bad = vec![];
            use_module(m + 1 + k);
            for (i, s) in specs.iter().enumerate() {
                let o = solo(s);
                if differs(&o, &refs[i]) && !matches!(refs[i], Outcome::Crash(_)) {
                    bad.push(*s);
                }
                if o == Outcome::Crash(Crash::Hang) {
                    break;
                }
            }
            use_module(m);
            self.add("runs", specs.len() as u64);
            self.add("ambient:moved-code-and-data", specs.len() as u64);
            for s in bad.iter().take(2) {
                // a seed that chooses this copy
                let seed = (0..10_000u64).find(|&x| ambient_copy(AMB_COPY, x) == k);
                let Some(seed) = seed else { continue };
                let c = Case::new(&self.prop, m, Body::Ambient { spec: *s, mask: AMB_COPY, seed });
                match check(&c) {
                    Some(v) => {
                        if self.hit(c, v, u) {
                            return;
                        }
                    }
                    None => self.add("deviations_not_attributed", 1),
                }
            }
        }
    }

    /// The operands of every branch of one operation in random order, each several times.
    fn sweep_history(&mut self, r: &mut Rng, m: usize, specs: &[Spec], u: u64) {
        let mut specs = specs.to_vec();
        for k in 0..specs.len() {
            // and by callers in other modes, or with flags raised
            let mode = [1 + r.below(255) as u8, 1 + r.below(15) as u8, 1, 2, 3][r.idx(5)];
            specs.push(Spec { mode, ..specs[k] });
            self.add("fault:callers-in-other-floating-point-modes", 1);
        }
        let refs: Vec<Outcome> = specs.iter().map(solo).collect();
        let mut h = vec![];
        let mut hr = vec![];
        for _ in 0..specs.len() * 6 {
            let k = r.idx(specs.len());
            h.push((specs[k], 1));
            hr.push(refs[k]);
        }
        let mut n = 0;
        let bad = run_hist(m, &h, &hr, &mut n);
        self.add("histories", 1);
        self.add("calls", n);
        self.distinct.set(mix(&[u, self.seed, 0x5157]));
        if let Some((k, j, _)) = bad {
            h.truncate(k + 1);
            h[k].1 = j + 1;
            let c = Case::new(&self.prop, m, Body::Hist(h));
            match check(&c) {
                Some(v) => {
                    self.hit(c, v, u);
                }
                None => self.add("deviations_not_attributed", 1),
            }
        }
    }

    // ---------------------------------------------------------------- driver

    fn phase(&mut self, units: u64, share: f64, t0: Instant, f: fn(&mut W<'a>, u64)) {
        let end = self.deadline;
        let part = t0 + (end - t0).mul_f64(share);
        let mut u = self.me;
        let mut done = 0;
        while u < units && self.found.is_none() && Instant::now() < part {
            f(self, u);
            u += self.n;
            done += 1;
        }
        self.add("units", done);
        if u < units && self.found.is_none() {
            self.add("units_cut_by_the_time_limit", (units - u).div_ceil(self.n));
        }
    }

    fn used(&mut self, k: u64) {
        let now = Instant::now();
        if self.stateful.is_empty() {
            self.phase(800 * k, 0.08, now, Self::used_unit);
        } else {
            self.walk(0.06);
            self.long_life(if self.thorough { 1 << 26 } else { 1 << 20 });
            let now = Instant::now();
            self.phase(20_000 * k, 0.45, now, Self::used_unit);
        }
    }

    pub fn work(&mut self) {
        self.sweep();
        let t0 = Instant::now();
        let k = if self.thorough { 1_000_000 } else { 1 };
        match self.prop.as_str() {
            "C01" | "C02" | "C03" => {
                self.walk(0.06);
                self.phase(40_000 * k, 1.0, t0, Self::scenario_unit)
            }
            "C04" => {
                // soaks over every operation, long ones over anything that has state
                let calls: u64 = if self.thorough { 1 << 22 } else { 1 << 17 };
                for ci in 0..self.cfgs.len() {
                    let m = self.cfgs[ci];
                    let slow = eng().mods[m].cfg.starts_with("dbg");
                    for op in 0..eng().mods[m].ops.len() {
                        if (op as u64 + ci as u64) % self.n == self.me && self.found.is_none() && Instant::now() < self.deadline {
                            self.soak_unit(ci, op, if slow { calls / 8 } else { calls }, &[]);
                        }
                    }
                }
                let now = Instant::now();
                if !self.stateful.is_empty() {
                    self.walk(0.2);
                    self.phase(4_000 * k, 0.35, now, Self::history_unit);
                }
                let until = now + self.deadline.saturating_duration_since(now).mul_f64(0.85);
                let n = self.stateful.len();
                let long: u64 = if self.thorough { 1 << 33 } else { 1 << 25 };
                for round in 0..2 {
                    for i in 0..n {
                        if (i as u64) % self.n == self.me && self.found.is_none() && Instant::now() < until {
                            let (m, op, sp) = (self.stateful[i].m, self.stateful[i].op, self.stateful[i].specs.clone());
                            let ci = self.cfgs.iter().position(|&x| x == m).unwrap();
                            if eng().mods[m].cfg.starts_with("dbg") || (round == 1) == (i % 5 == 0) {
                                continue;
                            }
                            self.soak_unit(ci, op, long, &sp);
                        }
                    }
                }
                self.phase(40_000 * k, 1.0, t0, |w, u| w.history_unit(u + (1 << 20)));
            }
            "C10" => {
                let n = self.stateful.len();
                let all = Instant::now();
                for ci in 0..self.cfgs.len() {
                    let m = self.cfgs[ci];
                    let slow = eng().mods[m].cfg.starts_with("dbg");
                    for op in 0..eng().mods[m].ops.len() {
                        if (op as u64 + ci as u64) % self.n == self.me && self.found.is_none() && Instant::now() < self.deadline {
                            self.soak_unit(ci, op, if slow { 1 << 12 } else { 1 << 15 }, &[]);
                        }
                    }
                }
                for i in 0..n {
                    if (i as u64) % self.n == self.me && self.found.is_none() && Instant::now() < all + (self.deadline - all).mul_f64(0.3) {
                        let (m, op, sp) = (self.stateful[i].m, self.stateful[i].op, self.stateful[i].specs.clone());
                        let ci = self.cfgs.iter().position(|&x| x == m).unwrap();
                        self.soak_unit(ci, op, if self.thorough { 1 << 26 } else { 1 << 20 }, &sp);
                    }
                }
                self.walk(0.1);
                let now = Instant::now();
                self.phase(8_000 * k, 0.3, now, Self::history_unit);
                let now = Instant::now();
                self.phase(20_000 * k, 0.7, now, Self::scenario_unit);
                let now = Instant::now();
                self.phase(20_000 * k, 1.0, now, Self::ambient_unit)
            }
            "C05" => {
                self.used(k);
                self.phase(60_000 * k, 1.0, t0, Self::ambient_unit)
            }
            "C12" => {
                self.used(k);
                self.phase(2_500_000 * k, 1.0, t0, Self::cpu_unit)
            }
            "C11" => {
                self.used(k);
                self.phase(150_000 * k, 1.0, t0, Self::round_unit)
            }
            "C06" => {
                self.used(k);
                self.phase(40_000 * k, 1.0, t0, Self::state_unit)
            }
            "C07" => {
                if self.stateful.is_empty() {
                    self.used(k);
                    self.phase(60_000 * k, 0.7, t0, Self::budget_unit);
                    self.phase(10_000 * k, 1.0, t0, Self::scenario_unit);
                } else {
                    self.phase(10_000 * k, 0.4, t0, Self::scenario_unit);
                    self.used(k);
                    self.phase(60_000 * k, 1.0, t0, Self::budget_unit);
                }
            }
            "C08" | "C09" => {
                self.used(k);
                self.phase(900_000 * k, 1.0, t0, Self::resource_unit)
            }
            p => crate::harness_error(&format!("unknown property {p}")),
        }
        let f = eng().fired.clone();
        for (k, v) in [
            ("fault:preempt", f.preempt),
            ("fault:stores-delayed-in-the-store-buffer", f.lag),
            ("stores_delayed", f.lagged_stores),
            ("fault:stall", f.stall),
            ("fault:kill-call", f.kill),
            ("fault:kill-thread", f.kill_thread),
            ("fault:interrupt", f.interrupt),
            ("fault:interrupt-then-kill", f.interrupt_kill),
            ("fault:forced-preempt", f.forced_preempt),
            ("shared_access_scheduling_points", f.access_points),
            ("events_at_shared_accesses", f.access_events),
            ("events_at_instructions", f.pc_events),
            ("special_instructions_met", f.odd_insns),
            ("clock_reads_answered", f.tsc_traps),
            ("cpu_model_queries_answered", f.cpuid_traps),
        ] {
            self.add(k, v);
        }
    }
}

pub fn signature(c: &Case, v: &Viol) -> String {
    let m = c.module;
    let mut names: Vec<String> = match &c.body {
        Body::Plan(p) => p.calls.iter().map(|x| op_of(m, &x.spec).name.clone()).collect(),
        Body::Hist(h) => h.iter().map(|x| op_of(m, &x.0).name.clone()).collect(),
        Body::Cycle(v, _) => v.iter().map(|x| op_of(m, x).name.clone()).collect(),
        Body::Ambient { spec, .. } | Body::State { spec, .. } | Body::Budget { spec } | Body::Resource { spec, .. } => vec![fmt_spec(m, spec)],
    };
    names.sort();
    names.dedup();
    format!("{} {} {}", c.prop, v.class, names.join(","))
}
