//! A case is one fully explicit simulated execution: what a replay file holds, what the oracle
//! judges, and what the minimiser shrinks.
use crate::asm::*;
use crate::engine::*;
use crate::rng::Rng;
use crate::sut::{Op, WORLD};
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum Body {
    /// interleaving / nesting / abandonment scenario
    Plan(Plan),
    /// sequence of (call, repeat) on one thread; the last call is the one judged, with all others
    Hist(Vec<(Spec, u64)>),
    /// round and round a list of calls on one thread, `.1` calls in all
    Cycle(Vec<Spec>, u64),
    /// one call under ambient variation `mask`, parameters derived from `seed`
    Ambient { spec: Spec, mask: u32, seed: u64 },
    /// one call with caller machine state derived from `seed`
    State { spec: Spec, mask: u32, seed: u64 },
    /// one call against the instruction budget
    Budget { spec: Spec },
    /// one call with a bounded stack, no allocator, no system calls
    Resource { spec: Spec, mask: u32 },
}
#[derive(Clone, Debug)]
pub struct Case {
    pub prop: String,
    pub module: usize,
    pub body: Body,
    /// C03: accept a violation that would happen without the abandonment as well
    pub any_kill: bool,
    /// what the process has been through before the call that is judged (C05 to C09)
    pub pre: Option<Pre>,
}
/// A process that has been used: completed calls, then calls of which some are suspended for ever,
/// killed or abandoned.
#[derive(Clone, Debug, Default)]
pub struct Pre {
    /// round each list, for so many calls
    pub hist: Vec<(Vec<Spec>, u64)>,
    pub plan: Plan,
}
static mut PRE: Option<Pre> = None;
/// The image every judged call starts from: pristine, or used as the case says.
fn fresh(guard: Guard) {
    let p = unsafe { &*&raw const PRE };
    let Some(p) = p else {
        rebegin(guard);
        return;
    };
    rebegin(Guard::Mark);
    for (v, n) in &p.hist {
        for k in 0..*n {
            if native(&v[(k % v.len() as u64) as usize], &CLEAN) == Outcome::Crash(Crash::Hang) {
                break;
            }
        }
    }
    if !p.plan.calls.is_empty() {
        reguard(Guard::Trap);
        run_plan_on(&p.plan, 1, true);
    }
    reguard(guard);
}
/// A schedule in a process that has completed some calls.
pub fn run_plan_pre(pre: &Option<Pre>, p: &Plan) -> RunResult {
    unsafe { PRE = pre.clone() };
    fresh(Guard::Trap);
    unsafe { PRE = None };
    run_plan_on(p, 0, false)
}
/// The call alone, from that image.
fn alone(s: &Spec) -> Outcome {
    fresh(Guard::Mark);
    native(s, &clean_env())
}
impl Case {
    pub fn new(prop: &str, module: usize, body: Body) -> Case {
        Case { prop: prop.into(), module, body, any_kill: false, pre: None }
    }
}
#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub text: String,
}

pub const AMB_STACK: u32 = 1;
pub const AMB_REGS: u32 = 2;
pub const AMB_STICKY: u32 = 4;
pub const AMB_SHIFT: u32 = 8;
pub const AMB_COPY: u32 = 16;
pub const AMB_CLOCK: u32 = 32;
pub const AMB_STEP: u32 = 64;
/// another rounding mode (C11)
pub const AMB_ROUND: u32 = 128;
/// another processor, or one whose extensions are not enabled (C12)
pub const AMB_CPU: u32 = 256;
pub const AMB_NAMES: &[(u32, &str)] = &[
    (AMB_STACK, "dirty-stack"),
    (AMB_REGS, "dirty-registers"),
    (AMB_STICKY, "raised-fp-flags"),
    (AMB_SHIFT, "moved-stack"),
    (AMB_COPY, "moved-code-and-data"),
    (AMB_CLOCK, "clock-cpu-model-environment-errno"),
    (AMB_STEP, "random-number-instruction"),
    (AMB_ROUND, "another-rounding-mode"),
    (AMB_CPU, "another-processor"),
];
pub const ST_MODES: u32 = 1;
pub const ST_STICKY: u32 = 2;
pub const ST_FRAME: u32 = 4;
pub const ST_REGS: u32 = 8;
pub const ST_UNMASK: u32 = 32;
pub const ST_STEP: u32 = 16;
pub const ST_NAMES: &[(u32, &str)] = &[
    (ST_MODES, "ambient:non-default-modes"),
    (ST_STICKY, "ambient:raised-fp-flags"),
    (ST_FRAME, "ambient:watched-caller-frame"),
    (ST_REGS, "ambient:dirty-registers"),
    (ST_UNMASK, "ambient:unmasked-exceptions"),
    (ST_STEP, "ambient:observed-at-every-instruction"),
];
/// Further placements of every configuration (C05).
pub const COPIES: usize = 10;
static PLACE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// Where the copies of the modules are: each worker puts them elsewhere.
pub fn place() -> u64 {
    PLACE.load(std::sync::atomic::Ordering::Relaxed)
}
pub fn set_place(p: u64) {
    PLACE.store(p, std::sync::atomic::Ordering::Relaxed)
}
pub const RS_STACK: u32 = 1;
pub const RS_ALLOC: u32 = 2;
pub const RS_SYSCALL: u32 = 4;
pub const RS_NEST: u32 = 8;
/// Activations of one function on top of each other in one call (the library has no recursion at
/// all; one or two levels, as for a reflection, do not depend on the operand's size).
pub const NEST_LIMIT: u32 = 5;

pub fn op_of(m: usize, s: &Spec) -> &'static Op {
    &eng().mods[m].ops[s.op]
}
pub fn fmt_spec(m: usize, s: &Spec) -> String {
    let op = op_of(m, s);
    let mut t = String::new();
    let _ = write!(t, "{}(", op.name);
    let mut first = true;
    if op.has_int {
        let _ = write!(t, "n={}", s.n);
        first = false;
    }
    for k in 0..op.nf as usize {
        if !first {
            t.push_str(", ");
        }
        first = false;
        let b = s.x[k];
        let _ = match op.fw {
            2 => write!(t, "{:?}f16[{:#06x}]", f16::from_bits(b as u16) as f64, b),
            4 => write!(t, "{:?}f32[{:#010x}]", f32::from_bits(b as u32), b),
            8 => write!(t, "{:?}[{:#018x}]", f64::from_bits(b as u64), b),
            _ => write!(t, "f128[{:#034x}]", b),
        };
    }
    t.push(')');
    if s.mode != 0 {
        t += [" rounding to nearest", " rounding down", " rounding up", " rounding towards zero"][s.mode as usize & 3];
        t += ["", ", flushing to zero", ", denormals are zero", ", flushing to zero, denormals are zero"][s.mode as usize >> 2 & 3];
        if s.mode >> 4 != 0 {
            t += &format!(", exception flags {:#04x} raised before", s.enter(0) & 0x3f);
        }
    }
    t
}
pub fn fmt_out(m: usize, s: &Spec, o: &Outcome) -> String {
    let op = op_of(m, s);
    let fl = |b: u128| match op.fw {
        2 => format!("{:#06x}", b),
        4 => format!("{:?}[{:#010x}]", f32::from_bits(b as u32), b),
        8 => format!("{:?}[{:#018x}]", f64::from_bits(b as u64), b),
        _ => format!("{:#034x}", b),
    };
    match o {
        Outcome::Done(v) if unsafe { WANT_FLAGS } => {
            let names = ["invalid", "denormal", "division by zero", "overflow", "underflow", "inexact"];
            let l: Vec<&str> = (0..6).filter(|k| v.raised >> k & 1 != 0).map(|k| names[k]).collect();
            if l.is_empty() { "no exception flag".into() } else { format!("the exception flags {}", l.join("+")) }
        }
        Outcome::Done(v) => {
            let mut p = vec![];
            match op.ret {
                1 => p.push(fl(v.ret)),
                2 => p.push(format!("{}", v.ret as u32 as i32)),
                _ => {}
            }
            match op.out {
                1 => p.push(fl(v.out[0])),
                2 => p.push(format!("{}", v.out[0] as u32 as i32)),
                3 => {
                    p.push(fl(v.out[0]));
                    p.push(fl(v.out[1]));
                }
                _ => {}
            }
            p.join(" and ")
        }
        Outcome::Crash(Crash::Hang) => "never returns".into(),
        Outcome::Crash(c) => format!("dies ({c:?})"),
        o => format!("{o:?}"),
    }
}

/// Measured worst cases of the unmodified library: "group operation instructions".
const MEASURED: &str = include_str!("../budgets.txt");
/// Largest number of machine instructions any call may take, by configuration and operation:
/// six times the measured worst case, at least 3000 (30000 unoptimised); for the Bessel functions
/// of order n plus a term linear in n.
pub fn budget(cfg: &str, op: &Op, n: i32) -> u64 {
    static mut TABLE: Option<std::collections::HashMap<(bool, String, u8), u64>> = None;
    #[allow(static_mut_refs)]
    let t = unsafe {
        TABLE.get_or_insert_with(|| {
            let mut t = std::collections::HashMap::new();
            for l in MEASURED.lines() {
                let w: Vec<&str> = l.split_whitespace().collect();
                if w.len() == 3 {
                    let fw = crate::args::width_of(w[1]);
                    let e = t.entry((w[0] == "dbg", crate::args::stem(w[1]), fw)).or_insert(0u64);
                    *e = (*e).max(w[2].parse().unwrap_or(0));
                }
            }
            t
        })
    };
    let slow = cfg.starts_with("dbg");
    let s = crate::args::stem(&op.name);
    let m = t.get(&(slow, s.clone(), op.fw)).copied().unwrap_or(2000);
    let base = (6 * m).max(if slow { 30_000 } else { 3_000 });
    let per_n = if matches!(s.as_str(), "jn" | "yn") { if slow { 6000 } else { 400 } } else { 0 };
    base + per_n * n.unsigned_abs() as u64
}
/// Stack a call may use, bytes.
pub fn stack_budget(cfg: &str) -> u64 {
    if cfg.starts_with("dbg") { 16 * 1024 } else { 4 * 1024 }
}

fn fill_random(r: &mut Rng, kind: u64, buf: &mut [u64]) {
    let one = r.u64();
    for b in buf.iter_mut() {
        *b = match kind {
            0 => r.u64(),
            1 => u64::MAX,
            2 => 0x3ff0_0000_0000_0000,
            3 => 0x3f80_0000_3f80_0000,
            4 => one,
            5 => r.u64() & 1,
            6 => 0x7ff8_0000_7fc0_0000,
            _ => r.u64() >> r.below(64),
        };
    }
}

pub struct Scratch {
    pub stack: Vec<u64>,
    pub vec: Vec<u64>,
}
pub fn scratch() -> &'static mut Scratch {
    static mut S: *mut Scratch = std::ptr::null_mut();
    unsafe {
        if S.is_null() {
            S = Box::into_raw(Box::new(Scratch { stack: vec![0; 2048], vec: vec![0; 64] }));
        }
        &mut *S
    }
}

pub fn ambient_env(mask: u32, r: &mut Rng) -> Env {
    let mut e = CLEAN;
    let s = scratch();
    if mask & AMB_STACK != 0 {
        let kind = r.below(8);
        let len = [64usize, 256, 768][r.idx(3)];
        fill_random(r, kind, &mut s.stack[..len]);
        e.dirty_src = s.stack.as_ptr() as u64;
        e.dirty_len = len as u64 * 8;
    }
    if mask & AMB_REGS != 0 {
        let kind = r.below(8);
        fill_random(r, kind, &mut s.vec);
        e.vec_src = s.vec.as_ptr() as u64;
        e.flags |= FL_VEC;
        e.n_hi = r.u64();
        for k in 0..3 {
            e.x_hi[k] = (r.u64() as u128) << 64 | r.u64() as u128;
        }
        for k in 0..6 {
            e.gpr[k] = r.u64();
        }
        e.cs = r.u64() | 1;
    }
    if mask & AMB_STICKY != 0 {
        e.mxcsr |= (r.u64() as u32) & 0x3f | [0, 0x3f, 1, 4, 8, 0x20][r.idx(6)];
        if r.pct(25) {
            e.sw = [0x3f, 1, 0x20, r.u64() as u16 & 0x3f][r.idx(4)];
        }
    }
    if mask & AMB_SHIFT != 0 {
        e.stack_sub = 16 * r.below(600);
    }
    if mask & AMB_ROUND != 0 {
        let k = 1 + r.below(3);
        e.mxcsr ^= (k as u32) << 13;
        e.cw |= (k as u16) << 10;
    }
    e
}
/// The rounding mode that an ambient variation of this kind chooses.
pub fn ambient_round(mask: u32, seed: u64) -> u32 {
    ambient_env(mask, &mut Rng::new(seed)).mxcsr >> 13 & 3
}
/// Operations whose exact result is representable (C11): no rounding is involved.
pub fn exact_op(name: &str) -> bool {
    let base = name.rsplit("::").next().unwrap_or(name);
    let base = base.strip_suffix("f16").or(base.strip_suffix("f128")).unwrap_or(base);
    let one = |b: &str| {
        ["ceil", "floor", "trunc", "fabs", "copysign", "modf", "frexp", "ilogb", "fmod", "remainder", "remquo", "nextafter", "fmin", "fmax", "fminimum", "fmaximum", "fminimum_num", "fmaximum_num", "ldexp", "scalbn"].contains(&b)
    };
    one(base) || base.strip_suffix('f').is_some_and(one)
}
/// Whether C11 speaks about this call: not about scaling that overflows or underflows.
pub fn exact_here(module: usize, s: &Spec, r: &Outcome) -> bool {
    let op = op_of(module, s);
    if !exact_op(&op.name) || s.mode != 0 {
        return false;
    }
    if !op.name.contains("ldexp") && !op.name.contains("scalbn") {
        return true;
    }
    let Outcome::Done(v) = r else { return false };
    let (sig, bits) = match op.fw {
        2 => (10, 16),
        4 => (23, 32),
        8 => (52, 64),
        _ => (112, 128),
    };
    let exp = |b: u128| (b >> sig) & ((1u128 << (bits - 1 - sig)) - 1);
    let top = (1u128 << (bits - 1 - sig)) - 1;
    let m = mask(op.fw);
    let x = s.x[0] & m;
    if exp(x) == top || x << 1 & m == 0 {
        return true;
    }
    // strictly inside the normal range
    let e = exp(v.ret);
    e > 1 && e < top
}

pub fn set_tsc(trap: bool) {
    unsafe {
        libc::prctl(libc::PR_SET_TSC, if trap { libc::PR_TSC_SIGSEGV } else { libc::PR_TSC_ENABLE }, 0, 0, 0);
        const ARCH_SET_CPUID: libc::c_int = 0x1012;
        libc::syscall(libc::SYS_arch_prctl, ARCH_SET_CPUID, if trap { 0 } else { 1 });
    }
}

pub fn ambient_run(module: usize, spec: &Spec, mask: u32, seed: u64) -> Outcome {
    let mut r = Rng::new(seed);
    let env = ambient_env(mask, &mut r);
    let e = eng();
    let copies = (1..=COPIES).take_while(|k| e.mods.len() > module + k && e.mods[module + k].cfg == e.mods[module].cfg).count();
    let other = mask & AMB_COPY != 0 && copies > 0;
    if other {
        use_module(module + 1 + r.idx(copies));
    }
    let clock = mask & (AMB_CLOCK | AMB_STEP | AMB_CPU) != 0;
    if mask & AMB_CPU == 0 {
        fresh(Guard::Mark);
    }
    if clock {
        eng().ambient = Some(Rng::new(r.u64()));
        eng().ambient_mask_cpuid = r.pct(50);
        unsafe {
            WORLD.seed = r.u64() | 1;
            WORLD.tid = r.below(8);
            let m = &eng().mods[eng().m];
            if m.tls.1 > 0 {
                *m.errno = [0, 1, 22, 33, 34, r.u64() as i32][r.idx(6)];
            }
        }
        if mask & AMB_CLOCK != 0 {
            set_tsc(true);
        }
        arm_odd(true);
    }
    if mask & AMB_CPU != 0 {
        // this process has always run on that processor
        eng().cpu = Some(ambient_cpu(seed));
        fresh(Guard::Mark);
    }
    let mut o = Outcome::NotRun;
    let sticky = env.mxcsr & 0x3f | (env.sw & 0x3f) as u32;
    if mask & AMB_CPU != 0 {
        o = native(spec, &env);
        eng().cpu = None;
    } else if mask & AMB_STEP != 0 && r.pct(1) {
        o = traced(spec, &env, 4000, false, true);
    } else if mask & AMB_SHIFT != 0 && r.pct(50) {
        // another stack altogether
        let k = 1 + r.idx(MAX_FIBERS);
        let k = if unsafe { (*&raw const PRE).is_some() } { 1 } else { k };
        on_fiber_k(k, &mut || o = native(spec, &env));
    } else {
        o = native(spec, &env);
    }
    if clock {
        arm_odd(false);
        if mask & AMB_CLOCK != 0 {
            set_tsc(false);
        }
        unsafe {
            WORLD.seed = 0;
            WORLD.tid = 0;
        }
        eng().ambient = None;
    }
    if other {
        use_module(module);
    }
    if let Outcome::Done(v) = &mut o {
        // what was raised already cannot be seen to be raised
        if unsafe { WANT_FLAGS } {
            v.raised |= sticky as u8;
        }
    }
    o
}
/// `r` as it looks to a caller who has those flags raised already.
fn with_sticky(r: &Outcome, mask: u32, seed: u64) -> Outcome {
    let mut r = *r;
    if let Outcome::Done(v) = &mut r {
        if unsafe { WANT_FLAGS } {
            let e = ambient_env(mask, &mut Rng::new(seed));
            v.raised |= (e.mxcsr as u16 | e.sw) as u8 & 0x3f;
        }
    }
    r
}
/// The processor that an ambient variation of this kind simulates.
pub fn ambient_cpu(seed: u64) -> &'static Cpu {
    let k = crate::rng::mix(&[seed, 0xC12]) as usize % 16;
    let other = crate::rng::mix(&[seed, 0xC120]) as usize % (CPUS.len() - 4);
    &CPUS[[0, 0, 0, 0, 0, 1, 1, 2, 3].get(k).copied().unwrap_or(4 + other)]
}
/// The copy (from 0) that an ambient variation of this kind uses.
pub fn ambient_copy(mask: u32, seed: u64) -> usize {
    let mut r = Rng::new(seed);
    let _ = ambient_env(mask, &mut r);
    r.idx(COPIES)
}
/// The expected outcome under an ambient variation.
pub fn ambient_want(spec: &Spec, mask: u32, seed: u64) -> Outcome {
    with_sticky(&alone(spec), mask, seed)
}

pub fn state_env(mask: u32, r: &mut Rng) -> Env {
    let mut e = CLEAN;
    e.flags = FL_FENV;
    if mask & ST_MODES != 0 {
        // rounding, flush-to-zero, denormals-are-zero; exceptions stay masked
        e.mxcsr |= (r.below(4) as u32) << 13 | (r.below(2) as u32) << 15 | (r.below(2) as u32) << 6;
        e.cw = 0x003f | (r.below(4) as u16) << 10 | [0x300u16, 0x200, 0x000][r.idx(3)] | 0x40 * (r.below(1) as u16);
        e.cw |= 0x40;
    }
    if mask & ST_STICKY != 0 {
        e.mxcsr |= [0x3fu32, 1, 2, 4, 8, 16, 32, 0x15, 0x2a][r.idx(9)];
        if r.pct(50) {
            e.sw = [0x3f, 1, 4, 0x20, r.u64() as u16 & 0x3f][r.idx(5)];
        }
    }
    if mask & ST_FRAME != 0 {
        e.stack_sub = 16 * (1 + r.below(64));
    }
    if mask & ST_REGS != 0 {
        let s = scratch();
        fill_random(r, 0, &mut s.vec);
        e.vec_src = s.vec.as_ptr() as u64;
        e.flags |= FL_VEC;
        e.n_hi = r.u64();
        for k in 0..6 {
            e.gpr[k] = r.u64();
        }
        e.cs = r.u64() | 1;
    }
    e
}

/// The same caller, with every exception unmasked that the call does not raise: the call is made
/// once with all of them masked to learn those. Underflow stays masked, because an unmasked one
/// traps on exact tiny results, which raise no flag when it is masked.
pub fn unmasked(spec: &Spec, env: &Env) -> Env {
    let mut e = *env;
    if matches!(native(spec, env), Outcome::Done(_)) {
        let i = &frame().inv;
        let set = 0x3f & !0x10 & !(i.mxcsr_out | i.mxcsr_in);
        e.mxcsr &= !(set << 7);
        e.cw &= !((set & !(i.sw_out as u32)) as u16 & 0x3f);
    }
    e
}

fn m_errno() -> Option<*mut i32> {
    let m = &eng().mods[eng().m];
    (m.tls.1 > 0).then_some(m.errno)
}
/// What the caller has in errno.
fn errno_of(env: &Env) -> i32 {
    [0, 2, 33, 34][(env.stack_sub >> 4 ^ env.mxcsr as u64) as usize & 3]
}
pub fn set_errno(env: &Env) {
    if let Some(p) = m_errno() {
        unsafe { *p = errno_of(env) };
    }
}

/// What a completed call did to its caller's machine state.
#[inline]
pub fn state_verdict(env: &Env, op: &Op) -> Option<Viol> {
    let f = frame();
    let i = &f.inv;
    if i.crash != 0 {
        return None;
    }
    let v = |c: &str, t: String| Some(Viol { class: c.into(), text: t });
    let mx = i.mxcsr_in;
    if (i.mxcsr_out ^ mx) & MXCSR_CTL != 0 {
        return v("mxcsr-control", format!("returns with MXCSR control bits {:#06x}, caller had {:#06x}", i.mxcsr_out & MXCSR_CTL, mx & MXCSR_CTL));
    }
    if i.mxcsr_out & mx & 0x3f != mx & 0x3f {
        return v("sticky-cleared", format!("clears raised exception flags: MXCSR flags {:#04x} before, {:#04x} after", mx & 0x3f, i.mxcsr_out & 0x3f));
    }
    if i.sw_out & i.sw_in != i.sw_in {
        return v("sticky-cleared", format!("clears raised exception flags: x87 flags {:#04x} before, {:#04x} after", i.sw_in, i.sw_out & 0x3f));
    }
    if i.cw_out != env.cw {
        return v("x87-control", format!("returns with x87 control word {:#06x}, caller had {:#06x}", i.cw_out, env.cw));
    }
    if i.sw_out & 0x3800 != 0 || (env.flags & FL_FENV != 0 && i.fenv[2] & 0xffff != 0xffff) {
        return v("x87-stack", format!("returns with a non-empty x87 register stack (status {:#06x})", i.sw_out));
    }
    if i.rflags_out & 0x400 != 0 {
        return v("direction-flag", "returns with the direction flag set".into());
    }
    if i.rflags_out & 0x40000 != 0 {
        return v("alignment-flag", "returns with the alignment-check flag set".into());
    }
    if i.cs != i.cs_in {
        return v("callee-saved", format!("callee-saved registers changed: {:x?}", i.cs));
    }
    if i.canary_bad != 0 {
        return v("caller-frame", "wrote into the caller's stack frame".into());
    }
    if m_errno().is_some_and(|p| unsafe { *p } != errno_of(env)) {
        return v("caller-memory", "wrote to errno, which is its caller's".into());
    }
    if out_overrun(f, op) {
        return v("caller-memory", "wrote outside the result slots it was given".into());
    }
    None
}

pub fn judge_plan(prop: &str, module: usize, plan: &Plan, refs: &[Outcome]) -> Option<Viol> {
    let e = eng();
    for (k, o) in e.results.iter().enumerate() {
        let bad = match (o, &refs[k]) {
            (Outcome::Killed, _) => false,
            (Outcome::NotRun, _) => false,
            (_, Outcome::Crash(_)) => false,
            (a, b) => differs(a, b),
        };
        if bad && (prop != "C07" || *o == Outcome::Crash(Crash::Hang)) {
            let class = match o {
                Outcome::Crash(c) => format!("{c:?}"),
                _ => "wrong-result".into(),
            };
            return Some(Viol {
                class,
                text: format!(
                    "call #{k} {} gives {}, alone it gives {}",
                    fmt_spec(module, &plan.calls[k].spec),
                    fmt_out(module, &plan.calls[k].spec, o),
                    fmt_out(module, &plan.calls[k].spec, &refs[k])
                ),
            });
        }
    }
    None
}
pub fn refs_of(plan: &Plan) -> Vec<Outcome> {
    plan.calls.iter().map(|c| solo(&c.spec)).collect()
}
fn without_kills(p: &Plan) -> Plan {
    let mut q = p.clone();
    for c in q.calls.iter_mut() {
        c.evs.retain(|e| !matches!(e.act, Act::Kill | Act::KillThread | Act::InterruptKill(_)));
    }
    q
}

/// Two outcomes of the same call are not the same.
pub fn differs(o: &Outcome, r: &Outcome) -> bool {
    if unsafe { WANT_FLAGS } {
        return matches!((o, r), (Outcome::Done(_), Outcome::Done(_))) && o != r;
    }
    o != r
}
/// The machine state after a call, for the next one. Its caller goes back to the default modes,
/// but undoes nothing the call itself has changed.
pub fn carry(env: &mut Env, s: &Spec) {
    if unsafe { WANT_FLAGS } {
        return;
    }
    let f = frame();
    env.mxcsr = f.inv.mxcsr_out ^ s.mode_bits();
    env.cw = f.inv.cw_out;
}
/// Sequence on one thread with machine state carried over; index and outcome of the first deviation.
pub fn run_hist(module: usize, h: &[(Spec, u64)], refs: &[Outcome], calls: &mut u64) -> Option<(usize, u64, Outcome)> {
    rebegin(Guard::Mark);
    let mut env = CLEAN;
    for (k, (s, rep)) in h.iter().enumerate() {
        if let Outcome::Crash(_) = refs[k] {
            continue;
        }
        for j in 0..*rep {
            let o = native(s, &env);
            *calls += 1;
            if differs(&o, &refs[k]) {
                return Some((k, j, o));
            }
            carry(&mut env, s);
        }
    }
    let _ = module;
    None
}

/// As `run_hist`, going round a list.
pub fn run_cycle(v: &[Spec], total: u64, refs: &[Outcome], calls: &mut u64) -> Option<(u64, Outcome)> {
    rebegin(Guard::Mark);
    let mut env = CLEAN;
    let mut k = 0u64;
    while k < total {
        for (s, r) in v.iter().zip(refs) {
            if k >= total {
                break;
            }
            if !matches!(r, Outcome::Crash(_)) {
                let o = native(s, &env);
                *calls += 1;
                if differs(&o, r) {
                    return Some((k, o));
                }
                carry(&mut env, s);
            }
            k += 1;
        }
    }
    None
}

/// Execute a case and judge it.
pub fn check(c: &Case) -> Option<Viol> {
    if eng().m != c.module {
        use_module(c.module);
    }
    unsafe {
        PRE = c.pre.clone();
        WANT_FLAGS = c.prop == "C10";
        OWN_LIMIT = c.prop == "C07";
    }
    let v = check_body(c);
    unsafe { PRE = None };
    let v = v.map(|mut v| {
        if let Some(p) = &c.pre {
            let done = p.hist.iter().map(|x| x.1).sum::<u64>();
            v.text += &format!(" (after {done} completed calls and {} suspended, killed or completed ones)", p.plan.calls.len());
        }
        v
    });
    if c.pre.is_some() {
        // stalled threads are gone with their process
        eng().touched = true;
        rebegin(Guard::Mark);
    }
    v
}
/// The plain call in the process the case describes.
pub fn outcome_after(c: &Case, s: &Spec) -> Outcome {
    unsafe { PRE = c.pre.clone() };
    let o = alone(s);
    unsafe { PRE = None };
    eng().touched = true;
    rebegin(Guard::Mark);
    o
}
fn check_body(c: &Case) -> Option<Viol> {
    match &c.body {
        Body::Plan(p) => {
            let refs = refs_of(p);
            fresh(Guard::Trap);
            run_plan_on(p, 0, false);
            let v = judge_plan(&c.prop, c.module, p, &refs)?;
            let kills = p.calls.iter().flat_map(|k| &k.evs).any(|e| matches!(e.act, Act::Kill | Act::KillThread | Act::InterruptKill(_)));
            if c.any_kill && !kills {
                return None;
            }
            if c.prop == "C03" && !c.any_kill {
                // The abandonment has to be what matters.
                let q = without_kills(p);
                fresh(Guard::Trap);
                run_plan_on(&q, 0, false);
                if judge_plan(&c.prop, c.module, &q, &refs).is_some() {
                    return None;
                }
            }
            Some(v)
        }
        Body::Hist(h) => {
            let refs: Vec<Outcome> = h.iter().map(|(s, _)| solo(s)).collect();
            let mut n = 0;
            let (k, j, o) = run_hist(c.module, h, &refs, &mut n)?;
            Some(Viol {
                class: if let Outcome::Crash(c) = o { format!("{c:?}") } else { "wrong-result".into() },
                text: format!(
                    "after {} earlier calls, {} gives {}, in a fresh process it gives {}",
                    h[..k].iter().map(|x| x.1).sum::<u64>() + j,
                    fmt_spec(c.module, &h[k].0),
                    fmt_out(c.module, &h[k].0, &o),
                    fmt_out(c.module, &h[k].0, &refs[k])
                ),
            })
        }
        Body::Cycle(v, total) => {
            let refs: Vec<Outcome> = v.iter().map(solo).collect();
            let mut n = 0;
            let (k, o) = run_cycle(v, *total, &refs, &mut n)?;
            let s = &v[(k % v.len() as u64) as usize];
            Some(Viol {
                class: if let Outcome::Crash(c) = o { format!("{c:?}") } else { "wrong-result".into() },
                text: format!(
                    "after {k} earlier calls, {} gives {}, in a fresh process it gives {}",
                    fmt_spec(c.module, s),
                    fmt_out(c.module, s, &o),
                    fmt_out(c.module, s, &refs[(k % v.len() as u64) as usize])
                ),
            })
        }
        Body::Ambient { spec, mask, seed } => {
            let r = ambient_want(spec, *mask, *seed);
            let o = ambient_run(c.module, spec, *mask, *seed);
            if !differs(&o, &r) || matches!(r, Outcome::Crash(_)) {
                return None;
            }
            if c.prop == "C11" && !exact_here(c.module, spec, &r) {
                return None;
            }
            let names: Vec<&str> = AMB_NAMES.iter().filter(|(b, _)| mask & b != 0).map(|x| x.1).collect();
            Some(Viol {
                class: if o == Outcome::Crash(Crash::Undefined) { "Undefined".into() } else { "ambient".into() },
                text: format!(
                    "{} gives {} under {}{}, {} in a clean environment",
                    fmt_spec(c.module, spec),
                    fmt_out(c.module, spec, &o),
                    names.join("+"),
                    match (mask & AMB_CPU != 0, eng().undefined.filter(|_| o == Outcome::Crash(Crash::Undefined))) {
                        (false, _) => String::new(),
                        (true, None) => format!(" ({})", ambient_cpu(*seed).name),
                        (true, Some((off, what))) => format!(" ({}: the instruction at +{off:#x} is {what})", ambient_cpu(*seed).name),
                    },
                    fmt_out(c.module, spec, &r)
                ),
            })
        }
        Body::State { spec, mask, seed } => {
            let mut r = Rng::new(*seed);
            let mut env = state_env(*mask, &mut r);
            fresh(Guard::Mark);
            let op = op_of(c.module, spec);
            if mask & ST_UNMASK != 0 {
                env = unmasked(spec, &env);
            }
            set_errno(&env);
            if mask & ST_STEP != 0 {
                traced(spec, &env, 4000, false, false);
                if let Some((off, mx, cw)) = eng().trace.ctl_bad {
                    return Some(Viol {
                        class: "mid-call".into(),
                        text: format!("{}: at +{off:#x}, inside the call, MXCSR is {mx:#x} and the x87 control word {cw:#x}; the caller's are {:#x} and {:#x}", fmt_spec(c.module, spec), env.mxcsr, env.cw),
                    });
                }
            } else {
                native(spec, &env);
            }
            let mut v = state_verdict(&env, op)?;
            v.text = format!("{} {}", fmt_spec(c.module, spec), v.text);
            Some(v)
        }
        Body::Budget { spec } => {
            let op = op_of(c.module, spec);
            let b = budget(&eng().mods[c.module].cfg, op, spec.n);
            fresh(Guard::Mark);
            let o = native(spec, &clean_env());
            if o == Outcome::Crash(Crash::Hang) {
                return Some(Viol { class: "Hang".into(), text: format!("{} does not return within two seconds of processor time", fmt_spec(c.module, spec)) });
            }
            if let Outcome::Crash(k) = o {
                return Some(Viol { class: format!("{k:?}"), text: format!("{} does not return: it dies ({k:?})", fmt_spec(c.module, spec)) });
            }
            fresh(Guard::Mark);
            let o = traced(spec, &clean_env(), b + 1, false, false);
            let n = eng().trace.steps;
            if n > b && !matches!(o, Outcome::Crash(Crash::Panic)) {
                return Some(Viol { class: "budget".into(), text: format!("{} takes more than {b} instructions", fmt_spec(c.module, spec)) });
            }
            None
        }
        Body::Resource { spec, mask } => resource(c.module, spec, *mask),
    }
}

/// Most activations of one function on top of each other, within `cap` instructions.
pub fn nesting(spec: &Spec, cap: u64) -> u32 {
    fresh(Guard::Mark);
    eng().trace.calls = true;
    traced(spec, &clean_env(), cap, false, false);
    eng().trace.nested.0
}

fn resource(module: usize, spec: &Spec, mask: u32) -> Option<Viol> {
    let mut v = None;
    if mask & RS_NEST != 0 {
        let k = nesting(spec, 200_000);
        if k > NEST_LIMIT {
            return Some(Viol { class: "recursion".into(), text: format!("{} has {k} activations of the function at +{:#x} on top of each other", fmt_spec(module, spec), eng().trace.nested.1) });
        }
        return None;
    }
    let limit = stack_budget(&eng().mods[module].cfg);
    let mut r = Outcome::NotRun;
    fresh(Guard::Mark);
    on_fiber(&mut || r = native(spec, &CLEAN));
    if let Outcome::Crash(Crash::StackOverflow) = r {
        return Some(Viol { class: "stack".into(), text: format!("{} overflows a 1 MiB stack", fmt_spec(module, spec)) });
    }
    if let Outcome::Crash(_) = r {
        return None;
    }
    if mask & RS_STACK == 0 {
        begin(Guard::Off);
        fresh(Guard::Off);
        on_fiber(&mut || v = res_call(module, spec, mask, &r));
        return v;
    }
    let sp = eng().ctxs[1].frames[0].inv.saved_rsp;
    let mut o = Outcome::NotRun;
    fresh(Guard::Mark);
    on_fiber(&mut || {
        let env = floor_env(sp, limit);
        o = native(spec, &env);
        stack_floor(None);
    });
    if let Outcome::Crash(Crash::StackOverflow) = o {
        v = Some(Viol { class: "stack".into(), text: format!("{} needs more than {limit} bytes of stack", fmt_spec(module, spec)) });
    }
    v
}

/// Put the end of the stack `limit` bytes below the point at which a call made from a frame at
/// `sp` is entered (exact to 16 bytes: the caller frame is padded).
pub fn floor_env(sp: u64, limit: u64) -> Env {
    let at = sp - 16;
    let a = stack_floor(Some(at - limit));
    let mut e = CLEAN;
    e.stack_sub = (at - limit - a) & !15;
    e
}

/// Allocation and system-call checks around one call; `r` is its ordinary outcome.
fn res_call(module: usize, spec: &Spec, mask: u32, r: &Outcome) -> Option<Viol> {
    reguard(Guard::Off);
    let st = eng().mods[module].alloc_state;
    unsafe {
        let before = std::ptr::read_volatile(st);
        if mask & RS_ALLOC != 0 {
            std::ptr::write_volatile(st.add(1), before);
        }
        eng().sud_on = mask & RS_SYSCALL != 0;
        let o = native(spec, &CLEAN);
        eng().sud_on = false;
        let after = std::ptr::read_volatile(st);
        std::ptr::write_volatile(st.add(1), usize::MAX);
        eng().touched = true;
        begin(Guard::Off);
        if o == Outcome::Crash(Crash::Syscall) {
            return Some(Viol { class: "syscall".into(), text: format!("{} enters the kernel (system call {})", fmt_spec(module, spec), eng().crash_info) });
        }
        if after != before && !matches!(o, Outcome::Crash(Crash::Panic | Crash::Abort)) || (after != before && !matches!(r, Outcome::Crash(_))) {
            return Some(Viol { class: "heap".into(), text: format!("{} asks the allocator for memory ({} times)", fmt_spec(module, spec), after - before) });
        }
        if o != *r {
            return Some(Viol { class: "resource".into(), text: format!("{} gives {} when resources are withheld, {} otherwise", fmt_spec(module, spec), fmt_out(module, spec, &o), fmt_out(module, spec, r)) });
        }
    }
    None
}

// ---------------------------------------------------------------- minimisation

pub fn minimise(c: &Case, v: &Viol, max: usize) -> (Case, Viol, usize) {
    let mut best = c.clone();
    let mut bv = v.clone();
    let mut tries = 0;
    let max = if v.class == "Hang" { max.min(40) } else { max };
    let t0 = std::time::Instant::now();
    loop {
        let mut improved = false;
        for cand in candidates(&best) {
            if tries >= max || t0.elapsed().as_secs() > 60 {
                return (best, bv, tries);
            }
            tries += 1;
            if let Some(v2) = check(&cand) {
                if v2.class == bv.class {
                    best = cand;
                    bv = v2;
                    improved = true;
                    break;
                }
            }
        }
        if !improved {
            return (best, bv, tries);
        }
    }
}

fn drop_calls(p: &Plan, from: usize, to: usize) -> Plan {
    let mut q = p.clone();
    let gone = |x: usize| x >= from && x < to;
    for f in q.fibers.iter_mut() {
        f.retain(|&x| !gone(x));
    }
    for c in q.calls.iter_mut() {
        for e in c.evs.iter_mut() {
            if matches!(e.act, Act::InterruptKill(k) if gone(k)) {
                e.act = Act::Kill;
            }
        }
        c.evs.retain(|e| !matches!(e.act, Act::Interrupt(k) if gone(k)));
    }
    compact(q)
}
/// Drop calls nothing refers to and renumber.
pub fn compact(p: Plan) -> Plan {
    let mut used = vec![false; p.calls.len()];
    let mut todo: Vec<usize> = p.fibers.iter().flatten().copied().collect();
    while let Some(i) = todo.pop() {
        if !used[i] {
            used[i] = true;
            for e in &p.calls[i].evs {
                if let Act::Interrupt(k) | Act::InterruptKill(k) = e.act {
                    todo.push(k);
                }
            }
        }
    }
    let mut map = vec![usize::MAX; p.calls.len()];
    let mut calls = vec![];
    for (i, c) in p.calls.into_iter().enumerate() {
        if used[i] {
            map[i] = calls.len();
            calls.push(c);
        }
    }
    for c in calls.iter_mut() {
        for e in c.evs.iter_mut() {
            match &mut e.act {
                Act::Interrupt(k) | Act::InterruptKill(k) => *k = map[*k],
                _ => {}
            }
        }
    }
    let fibers = p.fibers.into_iter().map(|f| f.into_iter().map(|i| map[i]).collect()).filter(|f: &Vec<usize>| !f.is_empty()).collect();
    Plan { calls, fibers, sched: p.sched }
}

fn simpler(m: usize, s: &Spec) -> Vec<Spec> {
    let op = op_of(m, s);
    let mut v = vec![];
    if s.mode != 0 {
        v.push(Spec { mode: 0, ..*s });
        v.push(Spec { mode: s.mode & 15, ..*s });
        v.push(Spec { mode: s.mode & 0xf0, ..*s });
    }
    for k in 0..op.nf as usize {
        for keep in [4u32, 8, 16, 24, 40] {
            let bits = op.fw as u32 * 8;
            if keep + 8 < bits {
                let mut t = *s;
                t.x[k] &= u128::MAX << (bits - 8 - keep);
                if t.x[k] != s.x[k] {
                    v.push(t);
                }
            }
        }
    }
    if op.has_int && s.n.unsigned_abs() > 4 {
        v.push(Spec { n: s.n / 2, ..*s });
    }
    v
}

fn candidates(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    if let Some(p) = &c.pre {
        let mut push = |q: Pre| {
            let pre = if q.hist.is_empty() && q.plan.calls.is_empty() { None } else { Some(q) };
            out.push(Case { pre, ..c.clone() });
        };
        for i in 0..p.hist.len() {
            let mut q = p.clone();
            q.hist.remove(i);
            push(q);
        }
        for i in 0..p.hist.len() {
            let (v, n) = &p.hist[i];
            for t in [n / 2, n - n / 4, n - n / 16, n - 1] {
                if t < *n && t > 0 {
                    let mut q = p.clone();
                    q.hist[i].1 = t;
                    push(q);
                }
            }
            if v.len() > 1 && *n == v.len() as u64 {
                let mut sz = v.len() / 2;
                while sz >= 1 {
                    let mut k = 0;
                    while k + sz <= v.len() {
                        let mut q = p.clone();
                        q.hist[i].0.drain(k..k + sz);
                        q.hist[i].1 = q.hist[i].0.len() as u64;
                        push(q);
                        k += sz;
                    }
                    sz /= 2;
                }
            } else if v.len() > 1 {
                for k in 0..v.len() {
                    let mut q = p.clone();
                    q.hist[i].0 = vec![v[k]];
                    push(q);
                }
            }
        }
        if !p.plan.calls.is_empty() {
            push(Pre { hist: p.hist.clone(), plan: Plan::default() });
            let inner = Case { body: Body::Plan(p.plan.clone()), pre: None, ..c.clone() };
            for d in candidates(&inner) {
                if let Body::Plan(plan) = d.body {
                    push(Pre { hist: p.hist.clone(), plan });
                }
            }
        }
    }
    let mut push = |b: Body| out.push(Case { body: b, ..c.clone() });
    match &c.body {
        Body::Plan(p) => {
            for f in 0..p.fibers.len() {
                if p.fibers.len() > 1 {
                    let mut q = p.clone();
                    q.fibers.remove(f);
                    push(Body::Plan(compact(q)));
                }
            }
            let n = p.calls.len();
            if n > 64 {
                // stretches first; call by call once few are left
                let mut size = n / 2;
                while size >= 1 && size * 64 >= n {
                    for from in (0..n).step_by(size) {
                        push(Body::Plan(drop_calls(p, from, (from + size).min(n))));
                    }
                    size /= 2;
                }
                return out;
            }
            for id in 0..n {
                push(Body::Plan(drop_calls(p, id, id + 1)));
            }
            for id in 0..p.calls.len() {
                for k in 0..p.calls[id].evs.len() {
                    let mut q = p.clone();
                    q.calls[id].evs.remove(k);
                    push(Body::Plan(compact(q)));
                    if let Act::Lag(n) = p.calls[id].evs[k].act {
                        let mut q = p.clone();
                        q.calls[id].evs[k].act = if n > 1 { Act::Lag(n - 1) } else { Act::Preempt };
                        push(Body::Plan(q));
                    }
                }
            }
            if !p.sched.is_empty() {
                let mut q = p.clone();
                q.sched.truncate(p.sched.len() / 2);
                push(Body::Plan(q));
                for k in 0..p.sched.len().min(8) {
                    if p.sched[k] != 0 {
                        let mut q = p.clone();
                        q.sched[k] = 0;
                        push(Body::Plan(q));
                    }
                }
            }
            if p.calls.len() <= 4 {
                for id in 0..p.calls.len() {
                    for s in simpler(c.module, &p.calls[id].spec) {
                        let mut q = p.clone();
                        q.calls[id].spec = s;
                        push(Body::Plan(q));
                    }
                }
            }
        }
        Body::Hist(h) => {
            let n = h.len();
            let mut sz = n / 2;
            while sz >= 1 {
                let mut i = 0;
                while i + sz <= n {
                    let mut g = h.clone();
                    g.drain(i..i + sz);
                    if !g.is_empty() {
                        push(Body::Hist(g));
                    }
                    i += sz;
                }
                sz /= 2;
            }
            for i in 0..n {
                if h[i].1 > 1 {
                    for d in [2, 1] {
                        let mut g = h.clone();
                        g[i].1 = if d == 2 { h[i].1 / 2 } else { h[i].1 - 1 };
                        if h[i].1 < 100_000_000 || d == 2 {
                            push(Body::Hist(g));
                        }
                    }
                }
            }
            if n <= 4 {
                for i in 0..n {
                    for s in simpler(c.module, &h[i].0) {
                        let mut g = h.clone();
                        g[i].0 = s;
                        push(Body::Hist(g));
                    }
                }
            }
        }
        Body::Cycle(v, total) => {
            let n = v.len();
            let mut sz = n / 2;
            while sz >= 1 {
                let mut i = 0;
                while i + sz <= n {
                    let mut g = v.clone();
                    g.drain(i..i + sz);
                    if !g.is_empty() {
                        push(Body::Cycle(g, *total));
                    }
                    i += sz;
                }
                sz /= 2;
            }
            for t in [total / 2, total - total / 4, total - total / 16, total - 1] {
                if t < *total {
                    push(Body::Cycle(v.clone(), t));
                }
            }
        }
        Body::Ambient { spec, mask, seed } => {
            for b in 0..9 {
                if mask & (1 << b) != 0 && mask & !(1 << b) != 0 {
                    push(Body::Ambient { spec: *spec, mask: mask & !(1 << b), seed: *seed });
                }
            }
            for s in simpler(c.module, spec) {
                push(Body::Ambient { spec: s, mask: *mask, seed: *seed });
            }
        }
        Body::State { spec, mask, seed } => {
            for b in 0..6 {
                if mask & (1 << b) != 0 {
                    push(Body::State { spec: *spec, mask: mask & !(1 << b), seed: *seed });
                }
            }
            for s in simpler(c.module, spec) {
                push(Body::State { spec: s, mask: *mask, seed: *seed });
            }
        }
        Body::Budget { spec } => {
            for s in simpler(c.module, spec) {
                push(Body::Budget { spec: s });
            }
        }
        Body::Resource { spec, mask } => {
            for b in 0..4 {
                if mask & (1 << b) != 0 && mask & !(1 << b) != 0 {
                    push(Body::Resource { spec: *spec, mask: mask & !(1 << b) });
                }
            }
            for s in simpler(c.module, spec) {
                push(Body::Resource { spec: s, mask: *mask });
            }
        }
    }
    out
}

// ---------------------------------------------------------------- replay files

fn ser_spec(m: usize, s: &Spec) -> String {
    let md = if s.mode != 0 { format!(" mode={}", s.mode) } else { String::new() };
    format!("{} {:#x} {:#x} {:#x} {}{md}", op_of(m, s).name, s.x[0], s.x[1], s.x[2], s.n)
}
fn act_str(a: &Act) -> String {
    match a {
        Act::Preempt => "preempt".into(),
        Act::Lag(k) => format!("preempt-with-delayed-stores {k}"),
        Act::Stall => "stall".into(),
        Act::Kill => "kill".into(),
        Act::KillThread => "kill-thread".into(),
        Act::Interrupt(k) => format!("interrupt {k}"),
        Act::InterruptKill(k) => format!("interrupt-kill {k}"),
    }
}
fn ser_plan(m: usize, p: &Plan) -> String {
    let mut t = String::new();
            for (i, k) in p.calls.iter().enumerate() {
                let _ = writeln!(t, "call {i} {}   # {}", ser_spec(m, &k.spec), fmt_spec(m, &k.spec));
                for e in &k.evs {
                    let at = match e.at {
                        Anchor::Pc(o, h) => format!("pc {o:#x} {h}"),
                        Anchor::Access(k) => format!("access {k} 0"),
                        Anchor::Each(k) => format!("each {k} 0"),
                    };
                    let _ = writeln!(t, "event {i} {at} {}", act_str(&e.act));
                }
            }
            for f in &p.fibers {
                let _ = writeln!(t, "thread {}", f.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
            }
            let _ = writeln!(t, "sched {}", p.sched.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    t
}
pub fn serialise(c: &Case) -> String {
    let mut t = String::new();
    let m = c.module;
    let _ = writeln!(t, "property {}", c.prop);
    if place() != 0 {
        let _ = writeln!(t, "place {}", place());
    }
    let _ = writeln!(t, "config {}", eng().mods[m].cfg);
    if c.any_kill {
        let _ = writeln!(t, "any-abandonment");
    }
    if let Some(p) = &c.pre {
        for (v, n) in &p.hist {
            let _ = writeln!(t, "before {n}");
            for s in v {
                let _ = writeln!(t, "earlier {}   # {}", ser_spec(m, s), fmt_spec(m, s));
            }
        }
        if !p.plan.calls.is_empty() {
            t += &ser_plan(m, &p.plan);
        }
        let _ = writeln!(t, "then");
    }
    match &c.body {
        Body::Plan(p) => {
            let _ = writeln!(t, "kind plan");
            t += &ser_plan(m, p);
        }
        Body::Hist(h) => {
            let _ = writeln!(t, "kind history");
            for (s, n) in h {
                let _ = writeln!(t, "repeat {n} {}   # {}", ser_spec(m, s), fmt_spec(m, s));
            }
        }
        Body::Cycle(v, total) => {
            let _ = writeln!(t, "kind cycle {total}");
            for s in v {
                let _ = writeln!(t, "repeat 1 {}   # {}", ser_spec(m, s), fmt_spec(m, s));
            }
        }
        Body::Ambient { spec, mask, seed } => {
            let _ = writeln!(t, "kind ambient {mask} {seed} {}   # {}", ser_spec(m, spec), fmt_spec(m, spec));
        }
        Body::State { spec, mask, seed } => {
            let _ = writeln!(t, "kind state {mask} {seed} {}   # {}", ser_spec(m, spec), fmt_spec(m, spec));
        }
        Body::Budget { spec } => {
            let _ = writeln!(t, "kind budget {}   # {}", ser_spec(m, spec), fmt_spec(m, spec));
        }
        Body::Resource { spec, mask } => {
            let _ = writeln!(t, "kind resource {mask} {}   # {}", ser_spec(m, spec), fmt_spec(m, spec));
        }
    }
    t
}

fn hexu(s: &str) -> Option<u128> {
    u128::from_str_radix(s.strip_prefix("0x")?, 16).ok()
}
fn de_spec(m: usize, w: &[&str]) -> Option<Spec> {
    let op = eng().mods[m].ops.iter().position(|o| o.name == w[0])?;
    Some(Spec { op, x: [hexu(w.get(1)?)?, hexu(w.get(2)?)?, hexu(w.get(3)?)?], n: w.get(4)?.parse().ok()?, mode: w.get(5).and_then(|s| s.strip_prefix("mode=")).map_or(Some(0), |s| s.parse().ok())? })
}
pub fn parse(text: &str) -> Option<Case> {
    let mut prop = String::new();
    let mut module = 0;
    let mut body: Option<Body> = None;
    let mut any_kill = false;
    let mut pre = Pre::default();
    let mut has_pre = false;
    for l in text.lines() {
        let l = l.split('#').next().unwrap_or("");
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.is_empty() {
            continue;
        }
        match w[0] {
            "any-abandonment" => any_kill = true,
            "place" => {} // taken when the modules are loaded
            "before" => pre.hist.push((vec![], w[1].parse().ok()?)),
            "earlier" => pre.hist.last_mut()?.0.push(de_spec(module, &w[1..])?),
            "then" => {
                has_pre = true;
                if let Some(Body::Plan(p)) = body.take() {
                    pre.plan = p;
                }
            }
            "property" => prop = w[1].into(),
            "config" => module = eng().mods.iter().position(|m| m.cfg == w[1])?,
            "kind" => {
                body = Some(match w[1] {
                    "plan" => Body::Plan(Plan::default()),
                    "history" => Body::Hist(vec![]),
                    "cycle" => Body::Cycle(vec![], w[2].parse().ok()?),
                    "ambient" => Body::Ambient { mask: w[2].parse().ok()?, seed: w[3].parse().ok()?, spec: de_spec(module, &w[4..])? },
                    "state" => Body::State { mask: w[2].parse().ok()?, seed: w[3].parse().ok()?, spec: de_spec(module, &w[4..])? },
                    "budget" => Body::Budget { spec: de_spec(module, &w[2..])? },
                    "resource" => Body::Resource { mask: w[2].parse().ok()?, spec: de_spec(module, &w[3..])? },
                    _ => return None,
                })
            }
            "call" => {
                if let Body::Plan(p) = body.get_or_insert(Body::Plan(Plan::default())) {
                    p.calls.push(CallPlan { spec: de_spec(module, &w[2..])?, evs: vec![] });
                }
            }
            "event" => {
                if let Some(Body::Plan(p)) = &mut body {
                    let i: usize = w[1].parse().ok()?;
                    let at = if w[2] == "pc" { Anchor::Pc(hexu(w[3])? as u32, w[4].parse().ok()?) } else if w[2] == "each" { Anchor::Each(w[3].parse::<u32>().ok()?.max(1)) } else { Anchor::Access(w[3].parse().ok()?) };
                    let act = match w[5] {
                        "preempt" => Act::Preempt,
                        "preempt-with-delayed-stores" => Act::Lag(w[6].parse().ok()?),
                        "stall" => Act::Stall,
                        "kill" => Act::Kill,
                        "kill-thread" => Act::KillThread,
                        "interrupt" => Act::Interrupt(w[6].parse().ok()?),
                        "interrupt-kill" => Act::InterruptKill(w[6].parse().ok()?),
                        _ => return None,
                    };
                    p.calls.get_mut(i)?.evs.push(Ev { at, act });
                }
            }
            "thread" => {
                if let Some(Body::Plan(p)) = &mut body {
                    p.fibers.push(w[1..].iter().map(|x| x.parse().unwrap_or(0)).collect());
                }
            }
            "sched" => {
                if let Some(Body::Plan(p)) = &mut body {
                    p.sched = w[1..].iter().map(|x| x.parse().unwrap_or(0)).collect();
                }
            }
            "repeat" => {
                if let Some(Body::Hist(h)) = &mut body {
                    h.push((de_spec(module, &w[2..])?, w[1].parse().ok()?));
                } else if let Some(Body::Cycle(v, _)) = &mut body {
                    v.push(de_spec(module, &w[2..])?);
                }
            }
            _ => {}
        }
    }
    Some(Case { prop, module, body: body?, any_kill, pre: has_pre.then_some(pre) })
}
