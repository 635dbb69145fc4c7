//! The simulator proper: simulated threads on their own stacks, scheduling points inside the real
//! machine code (patched breakpoints, protected data pages, single stepping), and every fault.
#![allow(static_mut_refs)]
use crate::asm::*;
use crate::sut::{Module, Op, WORLD};
use libc::{c_int, c_void, siginfo_t, ucontext_t};
use libc::{REG_EFL, REG_RDI, REG_RIP, REG_TRAPNO};

pub const TF: i64 = 0x100;
pub const MXCSR_CTL: u32 = 0xffc0;
pub const MXCSR_DEFAULT: u32 = 0x1f80;
pub const CW_DEFAULT: u16 = 0x37f;
/// Shared accesses in one call after which it is declared stuck.
/// A call that touches shared memory more often than it may execute instructions never ends (C07).
pub static mut OWN_LIMIT: bool = false;
pub const SPIN_LIMIT: u32 = 60_000;
const STACK_BASE: u64 = 0x6100_0000_0000;
const STACK_STRIDE: u64 = 0x100_0000;
const STACK_SIZE: u64 = 0x10_0000;
const MAX_DEPTH: usize = 16;
pub const MAX_FIBERS: usize = 24;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Crash {
    Panic = 1,
    Segv,
    StackOverflow,
    Fpe,
    Bus,
    Abort,
    Syscall,
    BadTrap,
    Hang,
    /// an instruction that the simulated processor does not have
    Undefined,
}
impl Crash {
    fn from(u: u64) -> Crash {
        use Crash::*;
        [Panic, Segv, StackOverflow, Fpe, Bus, Abort, Syscall, BadTrap, Hang, Undefined][(u as usize).clamp(1, 10) - 1]
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Val {
    pub ret: u128,
    pub out: [u128; 2],
    /// exception flags, where they are what is judged (and nothing else is)
    pub raised: u8,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Outcome {
    NotRun,
    Done(Val),
    Crash(Crash),
    /// Abandoned by an injected kill.
    Killed,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Anchor {
    /// `hit`-th time (from 1) execution reaches this module offset during the call
    Pc(u32, u32),
    /// `k`-th scheduling point (from 1) at an access to static mutable memory during the call
    Access(u32),
    /// every `k`-th such point, any number of times
    Each(u32),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    Preempt,
    /// as Preempt, with the last .0 stores of this thread not yet visible to the others
    Lag(u8),
    /// park until every other simulated thread has finished
    Stall,
    /// abandon the call; the thread goes on with its next call (longjmp / unwinding out)
    Kill,
    /// the thread dies; its remaining calls run on a fresh thread
    KillThread,
    /// run call number .0 of the plan on top of this one (signal or interrupt handler)
    Interrupt(usize),
    /// as Interrupt, but the handler then abandons the interrupted call
    InterruptKill(usize),
}
#[derive(Clone, Copy, Debug)]
pub struct Ev {
    pub at: Anchor,
    pub act: Act,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Spec {
    pub op: usize,
    pub x: [u128; 3],
    pub n: i32,
    /// floating-point modes of the caller: rounding (bits 0 and 1), flush to zero (2),
    /// denormals are zero (3); exception flags it has raised already (bits 4 to 7, an index);
    /// 0 is the default
    pub mode: u8,
}
const RAISED: [u32; 16] = [0, 0x3f, 1, 2, 4, 8, 0x10, 0x20, 0x3d, 0x15, 0x2a, 0x28, 0x30, 0x38, 0x0d, 0x1f];
impl Spec {
    pub fn mode_bits(&self) -> u32 {
        let m = self.mode as u32;
        (m & 3) << 13 | (m >> 2 & 1) << 15 | (m >> 3 & 1) << 6
    }
    /// MXCSR as the caller has it.
    pub fn enter(&self, mxcsr: u32) -> u32 {
        (mxcsr ^ self.mode_bits()) | RAISED[(self.mode >> 4) as usize]
    }
}
#[derive(Clone, Debug)]
pub struct CallPlan {
    pub spec: Spec,
    pub evs: Vec<Ev>,
}
#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub calls: Vec<CallPlan>,
    pub fibers: Vec<Vec<usize>>,
    pub sched: Vec<u8>,
}

/// Machine state the caller hands over.
#[derive(Clone, Copy)]
pub struct Env {
    pub mxcsr: u32,
    pub cw: u16,
    /// x87 exception flags raised already
    pub sw: u16,
    pub flags: u64,
    pub vec_src: u64,
    pub dirty_src: u64,
    pub dirty_len: u64,
    pub stack_sub: u64,
    pub n_hi: u64,
    pub x_hi: [u128; 3],
    pub gpr: [u64; 6],
    /// contents of callee-saved registers and arithmetic flags; 0: the usual ones
    pub cs: u64,
}
pub const CLEAN: Env = Env {
    mxcsr: MXCSR_DEFAULT,
    cw: CW_DEFAULT,
    sw: 0,
    flags: 0,
    vec_src: 0,
    dirty_src: 0,
    dirty_len: 0,
    stack_sub: 0,
    n_hi: 0,
    x_hi: [0; 3],
    gpr: [0; 6],
    cs: 0,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FState {
    Unused,
    Ready,
    Running,
    Stalled,
    Done,
    Killed,
}

pub struct Frame {
    pub call: usize,
    pub inv: Invoke,
    pub outb: [u128; 6],
    pub acc: u32,
    pub evs: Vec<(Ev, u32, bool)>,
}
pub struct Ctx {
    pub rsp: u64,
    pub state: FState,
    pub lo: u64,
    pub hi: u64,
    pub frames: Vec<Box<Frame>>,
    pub depth: usize,
    pub queue: Vec<usize>,
    pub qpos: usize,
    pub tls: Vec<u8>,
    pub fresh_thread: bool,
    pause_rip: i64,
    fault_addr: u64,
    /// the store about to be executed: address, width, what it overwrites
    storing: Option<(u64, u8, u128)>,
    /// stores that may still be in this processor's store buffer, oldest first
    sb: Vec<Pending>,
    step_access: bool,
    rearm: u64,
}
#[derive(Clone, Copy)]
struct Pending {
    addr: u64,
    len: u8,
    /// what the others see
    old: u128,
    new: u128,
}
struct Bp {
    addr: u64,
    orig: u8,
    rc: u32,
}
#[derive(Default, Clone)]
pub struct Trace {
    pub on: bool,
    pub pcs: Vec<u32>,
    /// indices into pcs at which static mutable memory was accessed
    pub acc_at: Vec<u32>,
    pub accesses: u32,
    pub steps: u64,
    pub cap: u64,
    /// record program counters (otherwise only count)
    pub rec: bool,
    pub ctl_bad: Option<(u32, u32, u16)>,
    pub want_mxcsr: u32,
    pub want_cw: u16,
    pub sticky_in: u32,
    pub sw_in: u16,
    pub overflow: bool,
    pub special: Vec<(u32, &'static str)>,
    pub emulate: bool,
    /// follow calls and count activations of one function on top of each other
    pub calls: bool,
    prev_pc: u64,
    stack: Vec<(u64, u64)>,
    /// most simultaneous activations of one function, and where it begins
    pub nested: (u32, u32),
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Guard {
    Off,
    Mark,
    Trap,
}
#[derive(Default, Clone)]
pub struct Fired {
    pub odd_insns: u64,
    pub preempt: u64,
    pub stall: u64,
    pub kill: u64,
    pub kill_thread: u64,
    pub interrupt: u64,
    pub interrupt_kill: u64,
    pub forced_preempt: u64,
    pub access_points: u64,
    pub access_events: u64,
    pub pc_events: u64,
    pub tsc_traps: u64,
    pub cpuid_traps: u64,
    pub lag: u64,
    pub lagged_stores: u64,
}

pub struct Eng {
    pub mods: Vec<Module>,
    pub m: usize,
    pub guard: Guard,
    pub prot: bool,
    pub touched: bool,
    pub touch_pc: u32,
    /// static memory addresses accessed, when asked for
    pub addrs: Option<Vec<u64>>,
    pub ctxs: Vec<Ctx>,
    pub cur: usize,
    bps: Vec<Bp>,
    pub trace: Trace,
    pub plan: Plan,
    pub results: Vec<Outcome>,
    pub ctl_viol: Option<String>,
    pub fired: Fired,
    pub hash: u64,
    pub log: Option<Vec<String>>,
    tick: u64,
    call_tick: u64,
    pub hang_ticks: u64,
    exe: (u64, u64),
    trace_start: u64,
    closure: Option<*mut dyn FnMut()>,
    pub ambient: Option<crate::rng::Rng>,
    pub ambient_mask_cpuid: bool,
    /// the processor that is simulated, if it is another than the real one
    pub cpu: Option<&'static Cpu>,
    /// armed instructions that only some processors have, or that read the outside world
    pub odd: Vec<u64>,
    /// where, and what: the instruction that the simulated processor does not have
    pub undefined: Option<(u32, &'static str)>,
    pub sud: u8,
    pub sud_on: bool,
    pub sud_ok: bool,
    pub crash_pc: u32,
    pub crash_info: u64,
    pub check_ctl: bool,
    plan_lags: bool,
    lag_clock: u64,
}
pub static mut ENG: *mut Eng = std::ptr::null_mut();
#[inline(always)]
pub fn eng() -> &'static mut Eng {
    unsafe { &mut *ENG }
}

extern "C" {
    static __executable_start: u8;
    static etext: u8;
}

fn mk_frame() -> Box<Frame> {
    Box::new(Frame { call: usize::MAX, inv: unsafe { std::mem::zeroed() }, outb: [0; 6], acc: 0, evs: Vec::with_capacity(16) })
}

pub fn init() {
    learn_host();
    unsafe {
        let mut ctxs = Vec::new();
        for i in 0..=MAX_FIBERS {
            let (lo, hi) = if i == 0 {
                (0, 0)
            } else {
                let a = STACK_BASE + i as u64 * STACK_STRIDE;
                let p = libc::mmap(
                    a as *mut c_void,
                    STACK_SIZE as usize,
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE | libc::MAP_NORESERVE,
                    -1,
                    0,
                );
                if p as u64 != a {
                    crate::harness_error("cannot map a fiber stack");
                }
                (a, a + STACK_SIZE)
            };
            ctxs.push(Ctx {
                rsp: 0,
                state: FState::Unused,
                lo,
                hi,
                frames: (0..MAX_DEPTH).map(|_| mk_frame()).collect(),
                depth: 0,
                queue: vec![],
                qpos: 0,
                tls: vec![],
                fresh_thread: false,
                pause_rip: 0,
                fault_addr: 0,
                storing: None,
                sb: vec![],
                step_access: false,
                rearm: 0,
            });
        }
        let e = Box::new(Eng {
            mods: vec![],
            m: 0,
            guard: Guard::Off,
            prot: false,
            touched: false,
            touch_pc: 0,
            addrs: None,
            ctxs,
            cur: 0,
            bps: Vec::with_capacity(64),
            trace: Trace::default(),
            plan: Plan::default(),
            results: vec![],
            ctl_viol: None,
            fired: Fired::default(),
            hash: 0,
            log: None,
            tick: 0,
            call_tick: 0,
            hang_ticks: 20,
            exe: (&raw const __executable_start as u64, &raw const etext as u64),
            trace_start: 0,
            closure: None,
            ambient: None,
            ambient_mask_cpuid: false,
            cpu: None,
            odd: vec![],
            undefined: None,
            sud: 0,
            sud_on: false,
            sud_ok: false,
            crash_pc: 0,
            crash_info: 0,
            plan_lags: false,
            lag_clock: 1,
            check_ctl: true,
        });
        ENG = Box::into_raw(e);
        // alternate stack for everything but SIGTRAP
        let sz = 1 << 20;
        let p = libc::mmap(std::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: p, ss_flags: 0, ss_size: sz };
        libc::sigaltstack(&ss, std::ptr::null_mut());
        install(libc::SIGTRAP, on_trap as usize, 0);
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT, libc::SIGSYS] {
            install(s, on_fault as usize, libc::SA_ONSTACK);
        }
        install(libc::SIGVTALRM, on_tick as usize, libc::SA_ONSTACK | libc::SA_RESTART);
        let tv = libc::timeval { tv_sec: 0, tv_usec: 100_000 };
        let it = libc::itimerval { it_interval: tv, it_value: tv };
        #[allow(deprecated)]
        libc::setitimer(libc::ITIMER_VIRTUAL, &it, std::ptr::null_mut());
    }
}

#[repr(C)]
struct KSig {
    handler: usize,
    flags: u64,
    restorer: usize,
    mask: u64,
}
/// rt_sigaction directly, so that the restorer is ours (it must stay callable under syscall dispatch).
unsafe fn install(sig: c_int, h: usize, fl: c_int) {
    let s = KSig {
        handler: h,
        flags: (fl | libc::SA_SIGINFO | libc::SA_NODEFER) as u32 as u64 | 0x0400_0000,
        restorer: sim_restorer as usize,
        mask: 0,
    };
    let r = libc::syscall(libc::SYS_rt_sigaction, sig, &s as *const KSig, 0usize, 8usize);
    if r != 0 {
        crate::harness_error("rt_sigaction failed");
    }
}

#[inline]
fn hash(e: &mut Eng, a: u64, b: u64) {
    let mut x = e.hash ^ a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.rotate_left(32);
    e.hash = crate::rng::splitmix(&mut x);
}
fn logf(e: &mut Eng, f: impl FnOnce() -> String) {
    if let Some(l) = &mut e.log {
        l.push(f());
    }
}

// ---------------------------------------------------------------- breakpoints

unsafe fn poke(addr: u64, b: u8) {
    std::ptr::write_volatile(addr as *mut u8, b);
}
unsafe fn arm(e: &mut Eng, addr: u64) {
    if let Some(b) = e.bps.iter_mut().find(|b| b.addr == addr) {
        b.rc += 1;
        poke(addr, 0xcc);
        return;
    }
    let orig = std::ptr::read_volatile(addr as *const u8);
    e.bps.push(Bp { addr, orig, rc: 1 });
    poke(addr, 0xcc);
}
unsafe fn disarm(e: &mut Eng, addr: u64) {
    if let Some(i) = e.bps.iter().position(|b| b.addr == addr) {
        e.bps[i].rc -= 1;
        if e.bps[i].rc == 0 {
            poke(addr, e.bps[i].orig);
            e.bps.swap_remove(i);
        }
    }
}
unsafe fn rearm(e: &mut Eng, addr: u64) {
    if e.bps.iter().any(|b| b.addr == addr) {
        poke(addr, 0xcc);
    }
}

unsafe fn set_prot(e: &mut Eng, on: bool) {
    if e.prot != on {
        e.mods[e.m].protect(on);
        e.prot = on;
    }
}

// ---------------------------------------------------------------- signal handlers

macro_rules! g {
    ($uc:expr, $r:expr) => {
        (*$uc).uc_mcontext.gregs[$r as usize]
    };
}

unsafe fn fp_sw(uc: *mut ucontext_t) -> u16 {
    let fp = (*uc).uc_mcontext.fpregs as *const u8;
    if fp.is_null() { 0x3f } else { std::ptr::read_unaligned(fp.add(2) as *const u16) }
}
unsafe fn fp_ctl(uc: *mut ucontext_t) -> (u32, u16) {
    let fp = (*uc).uc_mcontext.fpregs as *const u8;
    if fp.is_null() {
        return (MXCSR_DEFAULT, CW_DEFAULT);
    }
    (std::ptr::read_unaligned(fp.add(24) as *const u32), std::ptr::read_unaligned(fp as *const u16))
}

/// Redirect the interrupted context out of the innermost call.
unsafe fn crash_out(e: &mut Eng, uc: *mut ucontext_t, kind: Crash) {
    let c = &mut e.ctxs[e.cur];
    if c.depth == 0 {
        fatal(uc, "fault outside any call");
    }
    e.crash_pc = e.mods.get(e.m).map_or(0, |m| m.off(g!(uc, REG_RIP) as u64) as u32);
    let inv = &mut c.frames[c.depth - 1].inv;
    inv.crash = kind as u64;
    let p = inv as *mut Invoke as i64;
    g!(uc, REG_RIP) = sim_recover as usize as i64;
    g!(uc, REG_RDI) = p;
    g!(uc, REG_EFL) &= !(TF | 0x400 | 0x40000);
    // the frame's FP state is reset too
    let fp = (*uc).uc_mcontext.fpregs as *mut u8;
    if !fp.is_null() {
        std::ptr::write_unaligned(fp.add(24) as *mut u32, MXCSR_DEFAULT);
        std::ptr::write_unaligned(fp as *mut u16, CW_DEFAULT);
        // no x87 flags, no x87 registers
        std::ptr::write_unaligned(fp.add(2) as *mut u16, 0);
        *fp.add(4) = 0;
    }
}

unsafe fn fatal(uc: *mut ucontext_t, why: &str) -> ! {
    let e = eng();
    eprintln!(
        "HARNESS ERROR: {why}: rip={:#x} rsp={:#x} trapno={} cr2={:#x} exe={:#x}..{:#x} cur={} depth={}",
        g!(uc, REG_RIP),
        g!(uc, libc::REG_RSP),
        g!(uc, REG_TRAPNO),
        g!(uc, libc::REG_CR2),
        e.exe.0,
        e.exe.1,
        e.cur,
        e.ctxs[e.cur].depth
    );
    if let Some(m) = e.mods.get(e.m) {
        eprintln!("module {} base {:#x} text {:#x?} wr {:#x?}", m.cfg, m.base, m.text, m.wr);
    }
    libc::_exit(3)
}

unsafe extern "C" fn on_tick(_s: c_int, _i: *mut siginfo_t, uc: *mut c_void) {
    let sud = eng().sud;
    eng().sud = 0;
    let uc = uc as *mut ucontext_t;
    let e = eng();
    e.tick += 1;
    let rip = g!(uc, REG_RIP) as u64;
    if e.ctxs[e.cur].depth > 0 && e.tick > e.call_tick + e.hang_ticks && !(rip >= e.exe.0 && rip < e.exe.1) && !e.trace.on {
        // Only ever reached by a call that has used two seconds of CPU time.
        let a = rip;
        if e.mods[e.m].in_text(a) || !in_sim_libs(uc) {
            crash_out(e, uc, Crash::Hang);
        }
    }
    eng().sud = sud;
}
unsafe fn in_sim_libs(uc: *mut ucontext_t) -> bool {
    // Interrupted on the alternate stack: one of our own handlers is running.
    let mut ss: libc::stack_t = std::mem::zeroed();
    libc::sigaltstack(std::ptr::null(), &mut ss);
    let sp = g!(uc, libc::REG_RSP) as u64;
    sp >= ss.ss_sp as u64 && sp < ss.ss_sp as u64 + ss.ss_size as u64
}

unsafe extern "C" fn on_fault(sig: c_int, info: *mut siginfo_t, uc: *mut c_void) {
    let sud = eng().sud;
    eng().sud = 0;
    let uc = uc as *mut ucontext_t;
    let e = eng();
    let rip = g!(uc, REG_RIP) as u64;
    let trapno = g!(uc, REG_TRAPNO);
    if sig == libc::SIGSEGV && trapno == 14 {
        let addr = g!(uc, libc::REG_CR2) as u64;
        if e.prot && e.mods[e.m].in_wr(addr) && e.ctxs[e.cur].depth > 0 && !(rip >= e.exe.0 && rip < e.exe.1) {
            if !e.touched {
                e.touched = true;
                e.touch_pc = e.mods[e.m].off(rip) as u32;
            }
            if let Some(v) = &mut e.addrs {
                if v.len() < 64 {
                    v.push(addr);
                }
            }
            if e.guard == Guard::Mark {
                set_prot(e, false);
            } else if e.trace.on {
                set_prot(e, false);
                e.trace.accesses += 1;
                let k = e.trace.pcs.len() as u32;
                e.trace.acc_at.push(k);
                e.ctxs[e.cur].step_access = true;
            } else {
                let c = &mut e.ctxs[e.cur];
                c.pause_rip = rip as i64;
                c.fault_addr = addr;
                g!(uc, REG_RIP) = sim_pause as usize as i64;
            }
            eng().sud = sud;
            return;
        }
    }
    if rip >= e.exe.0 && rip < e.exe.1 {
        fatal(uc, "fault inside the simulator");
    }
    if sig == libc::SIGSEGV && trapno == 13 && e.ambient.is_some() && emulate(e, uc) {
        eng().sud = sud;
        return;
    }
    let kind = match sig {
        libc::SIGILL => Crash::Panic,
        libc::SIGFPE => Crash::Fpe,
        libc::SIGBUS => Crash::Bus,
        libc::SIGABRT => Crash::Abort,
        libc::SIGSYS => {
            e.crash_info = g!(uc, libc::REG_RAX) as u64;
            Crash::Syscall
        }
        _ => {
            let c = &e.ctxs[e.cur];
            let cr2 = g!(uc, libc::REG_CR2) as u64;
            let sp = g!(uc, libc::REG_RSP) as u64;
            let near = |a: u64| c.lo != 0 && a + STACK_STRIDE > c.hi && a < c.hi;
            if (trapno == 14 && near(cr2)) || (c.lo != 0 && sp < c.lo + 4096) { Crash::StackOverflow } else { Crash::Segv }
        }
    };
    let _ = info;
    crash_out(e, uc, kind);
    eng().sud = 0;
}

/// rdtsc, rdtscp and cpuid under the simulator's clock and CPU model.
unsafe fn emulate(e: &mut Eng, uc: *mut ucontext_t) -> bool {
    let rip = g!(uc, REG_RIP) as u64;
    let b = std::slice::from_raw_parts(rip as *const u8, 3);
    let r = e.ambient.as_mut().unwrap();
    match b {
        [0x0f, 0x31, _] => {
            let t = r.u64();
            g!(uc, libc::REG_RAX) = (t & 0xffff_ffff) as i64;
            g!(uc, libc::REG_RDX) = (t >> 32) as i64;
            g!(uc, REG_RIP) += 2;
            e.fired.tsc_traps += 1;
            true
        }
        [0x0f, 0x01, 0xf9] => {
            let t = r.u64();
            g!(uc, libc::REG_RAX) = (t & 0xffff_ffff) as i64;
            g!(uc, libc::REG_RDX) = (t >> 32) as i64;
            g!(uc, libc::REG_RCX) = (r.u64() & 0xff) as i64;
            g!(uc, REG_RIP) += 3;
            e.fired.tsc_traps += 1;
            true
        }
        [0x0f, 0xa2, _] => {
            // CPU model: either one with no optional feature, or one reporting random features.
            let leaf = g!(uc, libc::REG_RAX) as u32;
            let none = e.ambient_mask_cpuid;
            let (a, b2, c, d) = if let Some(cpu) = e.cpu {
                cpu.id(leaf, g!(uc, libc::REG_RCX) as u32)
            } else if leaf == 0 {
                (0x1f, 0x756e_6547u32, 0x6c65_746eu32, 0x4965_6e69u32)
            } else if leaf == 0x8000_0000 {
                (0x8000_0008u32, 0, 0, 0)
            } else if none {
                (0, 0, 0, 0)
            } else {
                (r.u64() as u32, r.u64() as u32, r.u64() as u32, r.u64() as u32)
            };
            g!(uc, libc::REG_RAX) = a as i64;
            g!(uc, libc::REG_RBX) = b2 as i64;
            g!(uc, libc::REG_RCX) = c as i64;
            g!(uc, libc::REG_RDX) = d as i64;
            g!(uc, REG_RIP) += 2;
            e.fired.cpuid_traps += 1;
            true
        }
        [0x0f, 0x01, 0xd0] => {
            // xgetbv: x87 and SSE state only, unless a certain processor is played
            g!(uc, libc::REG_RAX) = e.cpu.map_or(3, |c| c.xcr0.max(1)) as i64;
            g!(uc, libc::REG_RDX) = 0;
            g!(uc, REG_RIP) += 3;
            true
        }
        _ => false,
    }
}

/// A processor that has the baseline of x86-64 (SSE2), and perhaps more.
pub struct Cpu {
    pub name: &'static str,
    /// what the simulation counts it as
    pub kind: &'static str,
    /// how an identification leaf beyond the last is answered
    intel: bool,
    max: u32,
    sig: u32,
    /// leaf 1, ECX
    c1: u32,
    /// leaf 7, EBX
    b7: u32,
    /// leaf 0x80000001, ECX and EDX; no such leaf beyond it if both are zero
    ce: u32,
    de: u32,
    /// register state that the operating system has enabled
    xcr0: u32,
    rest: u32,
}
mod bit {
    pub const SSE3: u32 = 1;
    pub const CLMUL: u32 = 1 << 1;
    pub const SSSE3: u32 = 1 << 9;
    pub const FMA: u32 = 1 << 12;
    pub const CX16: u32 = 1 << 13;
    pub const SSE41: u32 = 1 << 19;
    pub const SSE42: u32 = 1 << 20;
    pub const MOVBE: u32 = 1 << 22;
    pub const POPCNT: u32 = 1 << 23;
    pub const AES: u32 = 1 << 25;
    pub const XSAVE: u32 = 1 << 26;
    pub const OSXSAVE: u32 = 1 << 27;
    pub const AVX: u32 = 1 << 28;
    pub const F16C: u32 = 1 << 29;
    pub const RDRAND: u32 = 1 << 30;
    pub const FSGS: u32 = 1;
    pub const BMI1: u32 = 1 << 3;
    pub const AVX2: u32 = 1 << 5;
    pub const BMI2: u32 = 1 << 8;
    pub const RTM: u32 = 1 << 11;
    pub const RDSEED: u32 = 1 << 18;
    pub const ADX: u32 = 1 << 19;
    pub const CLFLUSHOPT: u32 = 1 << 23;
    pub const SHA: u32 = 1 << 29;
    pub const LAHF: u32 = 1;
    pub const LZCNT: u32 = 1 << 5;
    pub const RDTSCP: u32 = 1 << 27;
}
use bit::*;
/// fpu tsc msr cx8 cmov clflush mmx fxsr sse sse2
const BASE: u32 = 1 | 1 << 4 | 1 << 5 | 1 << 8 | 1 << 15 | 1 << 19 | 1 << 23 | 1 << 24 | 1 << 25 | 1 << 26;
/// long mode, system calls
const LONG: u32 = 1 << 29 | 1 << 11;
const CORE2: u32 = SSE3 | SSSE3 | CX16 | SSE41;
const NEHALEM: u32 = CORE2 | SSE42 | POPCNT;
const SANDY: u32 = NEHALEM | CLMUL | AES | XSAVE | OSXSAVE | AVX;
const IVY: u32 = SANDY | F16C | RDRAND;
const fn old(name: &'static str, intel: bool, max: u32, c1: u32, b7: u32, ce: u32, de: u32, xcr0: u32) -> Cpu {
    Cpu { name, kind: "fault:processor-of-another-generation", intel, max, sig: 0x206a7, c1, b7, ce, de: de | LONG, xcr0, rest: 0 }
}
/// The first four come up most often.
pub static CPUS: [Cpu; 20] = [
    Cpu { name: "a processor with the baseline instructions only", kind: "fault:processor-without-extensions", intel: true, max: 1, sig: 0xf4a, c1: 0, b7: 0, ce: 0, de: LONG, xcr0: 0, rest: 0 },
    Cpu { name: "a processor with every extension under an operating system that enables no extended state", kind: "fault:extensions-not-enabled-by-the-system", intel: true, max: 0x1f, sig: 0x806f8, c1: !OSXSAVE, b7: !0, ce: !0, de: !0, xcr0: 0, rest: !0 },
    Cpu { name: "a processor with every extension under an operating system that enables SSE state only", kind: "fault:wider-registers-not-enabled-by-the-system", intel: true, max: 0x1f, sig: 0x806f8, c1: !0, b7: !0, ce: !0, de: !0, xcr0: 3, rest: !0 },
    Cpu { name: "a virtual processor that answers identification leaf 1 only, without AVX", kind: "fault:processor-identification-cut-short", intel: true, max: 1, sig: 0x306a9, c1: !(AVX | FMA | F16C | XSAVE | OSXSAVE), b7: 0, ce: 0, de: LONG, xcr0: 0, rest: 0 },
    old("an early 64-bit processor (SSE3)", true, 5, SSE3 | CX16, 0, LAHF, 0, 0),
    old("a Core 2 processor", true, 0xd, CORE2, 0, LAHF, 0, 0),
    old("a Nehalem processor", true, 0xb, NEHALEM, 0, LAHF, RDTSCP, 0),
    old("a K10 processor (LZCNT and POPCNT, no SSSE3 or SSE4.1)", false, 5, SSE3 | CX16 | POPCNT, 0, LAHF | LZCNT, RDTSCP, 0),
    old("a Bobcat processor (SSSE3, no SSE4.1)", false, 6, SSE3 | CX16 | POPCNT | SSSE3, 0, LAHF | LZCNT, RDTSCP, 0),
    old("a Silvermont processor (SSE4.2 and MOVBE, no AVX)", true, 0xb, NEHALEM | CLMUL | MOVBE | RDRAND, 0, LAHF, RDTSCP, 0),
    old("a Goldmont processor (SHA, no AVX)", true, 0x15, NEHALEM | CLMUL | AES | MOVBE | RDRAND | XSAVE | OSXSAVE, FSGS | RDSEED | CLFLUSHOPT | SHA, LAHF, RDTSCP, 3),
    old("a Sandy Bridge processor (AVX, no FMA)", true, 0xd, SANDY, 0, LAHF, RDTSCP, 7),
    old("an Ivy Bridge processor (AVX and F16C, no FMA)", true, 0xd, IVY, FSGS, LAHF, RDTSCP, 7),
    old("a Haswell processor (AVX2, FMA and BMI, no ADX or AVX-512)", true, 0xd, IVY | FMA | MOVBE, FSGS | BMI1 | AVX2 | BMI2, LAHF | LZCNT, RDTSCP, 7),
    old("a Zen processor (AVX2, FMA, BMI, ADX and SHA, no AVX-512)", false, 0xd, IVY | FMA | MOVBE, FSGS | BMI1 | AVX2 | BMI2 | RDSEED | ADX | CLFLUSHOPT | SHA, LAHF | LZCNT, RDTSCP, 7),
    Cpu { name: "a processor with every extension under an operating system that enables AVX but not AVX-512 state", kind: "fault:wider-registers-not-enabled-by-the-system", intel: true, max: 0x1f, sig: 0x806f8, c1: !0, b7: !0, ce: !0, de: !0, xcr0: 7, rest: !0 },
    old("a Bulldozer processor (AVX, no F16C or BMI)", false, 0xd, SANDY, 0, LAHF | LZCNT, RDTSCP, 7),
    old("a Piledriver processor (FMA and BMI1, no AVX2 or BMI2)", false, 0xd, SANDY | FMA | F16C, BMI1, LAHF | LZCNT, RDTSCP, 7),
    old("a Jaguar processor (AVX and BMI1, no FMA, AVX2 or BMI2)", false, 0xd, SANDY | F16C | MOVBE, BMI1, LAHF | LZCNT, RDTSCP, 7),
    old("a Haswell processor sold without AVX, FMA and BMI", true, 0xd, NEHALEM | CLMUL | MOVBE | RDRAND | XSAVE | OSXSAVE, FSGS, LAHF | LZCNT, RDTSCP, 3),
];
/// The features of the real processor: a simulated one offers no others.
static HOST: std::sync::OnceLock<[u32; 4]> = std::sync::OnceLock::new();
pub fn learn_host() {
    use std::arch::x86_64::{__cpuid, __cpuid_count};
    #[allow(unused_unsafe)]
    unsafe {
        let seven = if __cpuid(0).eax >= 7 { __cpuid_count(7, 0).ebx } else { 0 };
        let e = __cpuid(0x8000_0001);
        let _ = HOST.set([__cpuid(1).ecx, seven, e.ecx, e.edx]);
    }
}
fn host() -> &'static [u32; 4] {
    HOST.get().unwrap_or(&[!0; 4])
}
impl Cpu {
    fn c1(&self) -> u32 {
        self.c1 & host()[0]
    }
    fn b7(&self) -> u32 {
        if self.max >= 7 { self.b7 & host()[1] } else { 0 }
    }
    fn ce(&self) -> u32 {
        self.ce & host()[2]
    }
    fn de(&self) -> u32 {
        self.de & host()[3]
    }
    fn id(&self, leaf: u32, sub: u32) -> (u32, u32, u32, u32) {
        let ext = leaf >= 0x8000_0000;
        let emax = 0x8000_0008;
        // a leaf too far is answered like the last one, or with nothing
        let leaf = match (ext, self.intel) {
            (false, true) if leaf > self.max => self.max,
            (false, false) if leaf > self.max => return (0, 0, 0, 0),
            (true, true) if leaf > emax => self.max,
            _ => leaf,
        };
        match leaf {
            0 if self.intel => (self.max, 0x756e_6547, 0x6c65_746e, 0x4965_6e69),
            0 => (self.max, 0x6874_7541, 0x444d_4163, 0x6974_6e65),
            1 => (self.sig, 0x800, self.c1(), BASE | self.rest),
            7 if sub == 0 => (0, self.b7(), self.rest, self.rest),
            0xd if sub == 0 && self.c1() & OSXSAVE != 0 => (self.xcr0, 0x240, 0x240, 0),
            0x8000_0000 => (emax, 0, 0, 0),
            0x8000_0001 => (0, 0, self.ce(), self.de()),
            _ => (0, 0, 0, 0),
        }
    }
}
/// What the instruction needs that this processor, or what runs it, does not offer.
fn lacking(b: &[u8], cpu: &Cpu) -> Option<&'static str> {
    let (mut i, mut p66, mut pf2, mut pf3, mut rex) = (0, false, false, false, 0u8);
    loop {
        match b[i] {
            0x66 => p66 = true,
            0xf2 => pf2 = true,
            0xf3 => pf3 = true,
            0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 | 0xf0 => {}
            x if x & 0xf0 == 0x40 => {
                rex = x;
                i += 1;
                break;
            }
            _ => break,
        }
        i += 1;
        if i > 10 {
            return None;
        }
    }
    let (c1, b7, ce) = (cpu.c1(), cpu.b7(), cpu.ce());
    let need = |what, ok: bool| if ok { None } else { Some(what) };
    let n1 = |what, f: u32| need(what, c1 & f == f);
    let n7 = |what, f: u32| need(what, b7 & f == f);
    let late = |what| need(what, cpu.rest != 0);
    let xsave = c1 & (XSAVE | OSXSAVE) == XSAVE | OSXSAVE;
    let wide = xsave && cpu.xcr0 & 6 == 6;
    let avx = |what, ok: bool| need(what, wide && c1 & AVX != 0 && ok);
    let reg = b[i + 2] >> 3 & 7;
    let mem = b[i + 2] < 0xc0;
    if matches!(b[i], 0xc4 | 0xc5) {
        let (map, pp, l, op, modrm) = if b[i] == 0xc5 { (1, b[i + 1] & 3, b[i + 1] >> 2 & 1, b[i + 2], b[i + 3]) } else { (b[i + 1] & 0x1f, b[i + 2] & 3, b[i + 2] >> 2 & 1, b[i + 3], b[i + 4]) };
        return match (map, op) {
            (2, 0xf2 | 0xf3) => n7("BMI1", BMI1),
            (2, 0xf7) if pp == 0 => n7("BMI1", BMI1),
            (2, 0xf5..=0xf7) | (3, 0xf0) => n7("BMI2", BMI2),
            (2, 0x96..=0x9f | 0xa6..=0xaf | 0xb6..=0xbf) => avx("FMA", c1 & FMA != 0),
            (2, 0x13) | (3, 0x1d) => avx("F16C", c1 & F16C != 0),
            (3, 0x5c..=0x5f | 0x68..=0x6f | 0x78..=0x7f) => Some("FMA4"),
            (2, 0x50..=0x53 | 0xb4 | 0xb5 | 0xcf) | (3, 0xce | 0xcf) => Some("a late extension"),
            (2, 0x16 | 0x36 | 0x45..=0x47 | 0x58..=0x5a | 0x78 | 0x79 | 0x8c | 0x8e | 0x90..=0x93) => avx("AVX2", b7 & AVX2 != 0),
            (2, 0x18 | 0x19) if modrm >= 0xc0 => avx("AVX2", b7 & AVX2 != 0),
            (3, 0x00..=0x02 | 0x38 | 0x39 | 0x46) => avx("AVX2", b7 & AVX2 != 0),
            (2, 0x00..=0x0b | 0x1c..=0x1e | 0x20..=0x25 | 0x28..=0x2b | 0x30..=0x41) if l == 1 => avx("AVX2", b7 & AVX2 != 0),
            (3, 0x0e | 0x0f | 0x42 | 0x4c) if l == 1 => avx("AVX2", b7 & AVX2 != 0),
            (1, 0x60..=0x6d | 0x74..=0x76 | 0xd1..=0xd5 | 0xd8..=0xdf | 0xe0..=0xe5 | 0xe8..=0xef | 0xf1..=0xfe) if l == 1 && pp == 1 => avx("AVX2", b7 & AVX2 != 0),
            (1, 0x70..=0x73) if l == 1 => avx("AVX2", b7 & AVX2 != 0),
            _ => avx("AVX", true),
        };
    }
    match (b[i], b[i + 1]) {
        (0x62, _) => Some("AVX-512"),
        (0x8f, x) if x & 0x38 != 0 => Some("XOP"),
        (0x9e | 0x9f, _) => need("LAHF/SAHF", ce & LAHF != 0),
        (0x0f, 0x01) if b[i + 2] == 0xd0 => need("XGETBV", xsave),
        (0x0f, 0x01) if b[i + 2] == 0xf9 => need("RDTSCP", cpu.de() & RDTSCP != 0),
        (0x0f, 0x01) => Some("a privileged or virtualisation extension"),
        (0x0f, 0x0f) => Some("3DNow!"),
        // FISTTP
        (0xdb | 0xdd | 0xdf, x) if x < 0xc0 && x >> 3 & 7 == 1 => n1("SSE3", SSE3),
        (0xc6 | 0xc7, 0xf8) => n7("RTM", RTM),
        (0x0f, 0x12) if pf2 || pf3 => n1("SSE3", SSE3),
        (0x0f, 0x16) if pf3 => n1("SSE3", SSE3),
        (0x0f, 0x78 | 0x79) if p66 || pf2 => Some("SSE4a"),
        (0x0f, 0x7c | 0x7d) if p66 || pf2 => n1("SSE3", SSE3),
        (0x0f, 0xd0) if p66 || pf2 => n1("SSE3", SSE3),
        (0x0f, 0xf0) if pf2 => n1("SSE3", SSE3),
        (0x0f, 0x2b) if pf2 || pf3 => Some("SSE4a"),
        (0x0f, 0xb8) if pf3 => n1("POPCNT", POPCNT),
        // the same bytes mean another instruction on older processors
        (0x0f, 0xbd) if pf3 => need("LZCNT", ce & LZCNT != 0),
        (0x0f, 0x38) => match b[i + 2] {
            0xf0 | 0xf1 if pf2 => n1("SSE4.2", SSE42),
            0xf0 | 0xf1 => n1("MOVBE", MOVBE),
            0xf6 if p66 || pf3 => n7("ADX", ADX),
            0xc8..=0xcd if !p66 => n7("SHA", SHA),
            0xdb..=0xdf if p66 => n1("AES", AES),
            0xcf | 0xf5..=0xf9 | 0xd8..=0xdf => late("a late extension"),
            0x00..=0x0b | 0x1c..=0x1e => n1("SSSE3", SSSE3),
            0x37 => n1("SSE4.2", SSE42),
            _ => n1("SSE4.1", SSE41),
        },
        (0x0f, 0x3a) => match b[i + 2] {
            0xcc => n7("SHA", SHA),
            0xce | 0xcf => late("a late extension"),
            0x0f => n1("SSSE3", SSSE3),
            0x44 => n1("PCLMULQDQ", CLMUL),
            0xdf => n1("AES", AES),
            0x60..=0x63 => n1("SSE4.2", SSE42),
            _ => n1("SSE4.1", SSE41),
        },
        (0x0f, 0xae) if pf3 && !mem && reg < 4 => n7("FSGSBASE", FSGS),
        (0x0f, 0xae) if pf3 => late("a late extension"),
        (0x0f, 0xae) if mem && p66 && reg == 6 => late("CLWB"),
        (0x0f, 0xae) if mem && matches!(reg, 4 | 5 | 6) => need("XSAVE", xsave),
        (0x0f, 0xae) if mem && reg == 7 && p66 => n7("CLFLUSHOPT", CLFLUSHOPT),
        (0x0f, 0xc7) if mem && reg == 1 => need("CMPXCHG16B", rex & 8 == 0 || c1 & CX16 != 0),
        (0x0f, 0xc7) if !mem && reg == 6 => n1("RDRAND", RDRAND),
        (0x0f, 0xc7) if !mem && reg == 7 && pf3 => late("RDPID"),
        (0x0f, 0xc7) if !mem && reg == 7 => n7("RDSEED", RDSEED),
        (0x0f, 0xc7) => late("XSAVES"),
        _ => None,
    }
}
/// Whether the instruction is one that `odd_insn` has to see.
pub fn odd(b: &[u8]) -> bool {
    let mut v = b.to_vec();
    v.resize(16, 0x90);
    CPUS.iter().any(|c| lacking(&v, c).is_some()) || special_insn(&v).is_some_and(|n| !matches!(n, "syscall" | "sysenter" | "int"))
}

/// Instructions that read the outside world without trapping, or enter the kernel.
fn special_insn(b: &[u8]) -> Option<&'static str> {
    let mut i = 0;
    while i < 3 && (matches!(b[i], 0x66 | 0xf2 | 0xf3) || (b[i] & 0xf0) == 0x40) {
        i += 1;
    }
    match (b[i], b[i + 1]) {
        (0x0f, 0x05) => Some("syscall"),
        (0x0f, 0x34) => Some("sysenter"),
        (0xcd, _) => Some("int"),
        (0x0f, 0xc7) if b[i + 2] >> 3 == 0b11110 => Some("rdrand"),
        (0x0f, 0xc7) if b[i + 2] >> 3 == 0b11111 => Some("rdseed/rdpid"),
        (0x0f, 0x31) => Some("rdtsc"),
        (0x0f, 0xa2) => Some("cpuid"),
        (0x0f, 0x01) if b[i + 2] == 0xf9 => Some("rdtscp"),
        (0x0f, 0x01) if b[i + 2] == 0xd0 => Some("xgetbv"),
        _ => None,
    }
}

unsafe fn ctl_check(e: &mut Eng, uc: *mut ucontext_t) {
    let (mx, cw) = fp_ctl(uc);
    let (wm, wc) = {
        let c = &e.ctxs[e.cur];
        let i = &c.frames[c.depth - 1].inv;
        (i.mxcsr_in, i.cw_in)
    };
    if (mx & MXCSR_CTL) != (wm & MXCSR_CTL) || cw != wc {
        if e.ctl_viol.is_none() {
            let off = e.mods[e.m].off(g!(uc, REG_RIP) as u64);
            e.ctl_viol = Some(format!("control state changed during the call at +{off:#x}: mxcsr {wm:#x} -> {mx:#x}, x87 cw {wc:#x} -> {cw:#x}"));
        }
    } else if (mx & wm & 0x3f) != (wm & 0x3f) && e.ctl_viol.is_none() {
        let off = e.mods[e.m].off(g!(uc, REG_RIP) as u64);
        e.ctl_viol = Some(format!("sticky exception flags cleared during the call at +{off:#x}: mxcsr {wm:#x} -> {mx:#x}"));
    }
}

unsafe extern "C" fn on_trap(_s: c_int, _i: *mut siginfo_t, uc: *mut c_void) {
    let sud = eng().sud;
    eng().sud = 0;
    trap(uc as *mut ucontext_t);
    eng().sud = if eng().ctxs[eng().cur].depth > 0 { sud } else { 0 };
}

unsafe fn trap(uc: *mut ucontext_t) {
    let e = eng();
    let trapno = g!(uc, REG_TRAPNO);
    if e.ctxs[e.cur].depth == 0 {
        fatal(uc, "trap outside any call");
    }
    if trapno == 3 {
        let pc = g!(uc, REG_RIP) as u64 - 1;
        if pc == sim_pause as usize as u64 {
            g!(uc, REG_RIP) = e.ctxs[e.cur].pause_rip;
            if e.check_ctl {
                ctl_check(e, uc);
            }
            access_point(uc);
            let e = eng();
            if g!(uc, REG_RIP) == sim_recover as usize as i64 {
                return;
            }
            set_prot(e, false);
            note_access(e, e.ctxs[e.cur].pause_rip as u64);
            e.ctxs[e.cur].step_access = true;
            g!(uc, REG_EFL) |= TF;
            return;
        }
        if e.odd.contains(&pc) && odd_insn(e, uc, pc) {
            return;
        }
        if !e.bps.iter().any(|b| b.addr == pc) {
            crash_out(e, uc, Crash::BadTrap);
            return;
        }
        g!(uc, REG_RIP) = pc as i64;
        if e.trace_start == pc {
            e.trace_start = 0;
            disarm(e, pc);
            e.trace.on = true;
            trace_step(e, uc);
            g!(uc, REG_EFL) |= TF;
            return;
        }
        let off = e.mods[e.m].off(pc) as u32;
        if e.check_ctl {
            ctl_check(e, uc);
        }
        loop {
            let e = eng();
            let c = &mut e.ctxs[e.cur];
            let f = &mut c.frames[c.depth - 1];
            // count this arrival once, then fire every event that is due
            let mut due = None;
            for (k, (ev, cnt, fired)) in f.evs.iter_mut().enumerate() {
                if let Anchor::Pc(o, hit) = ev.at {
                    if o == off && !*fired {
                        if *cnt & 0x8000_0000 == 0 {
                            *cnt = (*cnt + 1) | 0x8000_0000;
                        }
                        if (*cnt & 0x7fff_ffff) == hit && due.is_none() {
                            due = Some(k);
                        }
                    }
                }
            }
            match due {
                None => break,
                Some(k) => {
                    f.evs[k].2 = true;
                    let act = f.evs[k].0.act;
                    disarm(e, pc);
                    e.fired.pc_events += 1;
                    fire(act, off as u64, uc);
                    if g!(uc, REG_RIP) == sim_recover as usize as i64 {
                        return;
                    }
                }
            }
        }
        let e = eng();
        let c = &mut e.ctxs[e.cur];
        let d = c.depth - 1;
        for (_, cnt, _) in c.frames[d].evs.iter_mut() {
            *cnt &= 0x7fff_ffff;
        }
        // The byte at pc has to be the real one for the next instruction.
        if let Some(b) = e.bps.iter().find(|b| b.addr == pc) {
            poke(pc, b.orig);
            c.rearm = pc;
            g!(uc, REG_EFL) |= TF;
        }
        return;
    }
    if trapno != 1 {
        fatal(uc, "unexpected trap");
    }
    // single step
    let was_access = e.ctxs[e.cur].step_access;
    if was_access {
        e.ctxs[e.cur].step_access = false;
        note_store(e);
        set_prot(e, e.guard == Guard::Trap);
    }
    let ra = e.ctxs[e.cur].rearm;
    if ra != 0 {
        e.ctxs[e.cur].rearm = 0;
        rearm(e, ra);
    }
    if e.trace.on {
        if trace_step(e, uc) {
            g!(uc, REG_EFL) |= TF;
        } else {
            e.trace.on = false;
            g!(uc, REG_EFL) &= !TF;
        }
        return;
    }
    g!(uc, REG_EFL) &= !TF;
    if was_access {
        access_point(uc);
    }
}

extern "C" {
    fn sim_after_call();
}

unsafe fn is_call(pc: u64) -> bool {
    let b = std::slice::from_raw_parts(pc as *const u8, 3);
    let b = if b[0] & 0xf0 == 0x40 || b[0] == 0x66 { &b[1..] } else { b };
    b[0] == 0xe8 || (b[0] == 0xff && (b[1] >> 3) & 7 == 2)
}

/// Record one step; false when tracing ends.
unsafe fn trace_step(e: &mut Eng, uc: *mut ucontext_t) -> bool {
    loop {
        let pc = g!(uc, REG_RIP) as u64;
        if pc == sim_after_call as usize as u64 {
            return false;
        }
        let t = &mut e.trace;
        t.steps += 1;
        let m = &e.mods[e.m];
        if t.rec && m.in_text(pc) {
            t.pcs.push(m.off(pc) as u32);
        }
        if t.calls {
            let sp = g!(uc, libc::REG_RSP) as u64;
            while t.stack.last().is_some_and(|x| x.1 < sp) {
                t.stack.pop();
            }
            if m.in_text(pc) && t.prev_pc != 0 && is_call(t.prev_pc) && pc.wrapping_sub(t.prev_pc) > 7 {
                t.stack.push((pc, sp));
                let k = t.stack.iter().filter(|x| x.0 == pc).count() as u32;
                if k > t.nested.0 {
                    t.nested = (k, m.off(pc) as u32);
                }
            }
            t.prev_pc = if m.in_text(pc) { pc } else { 0 };
        }
        let (mx, cw) = fp_ctl(uc);
        if t.ctl_bad.is_none() && ((mx & MXCSR_CTL) != (t.want_mxcsr & MXCSR_CTL) || cw != t.want_cw || (mx & t.sticky_in) != t.sticky_in || fp_sw(uc) & t.sw_in != t.sw_in) {
            t.ctl_bad = Some((m.off(pc) as u32, mx, cw));
        }
        if t.steps >= t.cap {
            t.overflow = true;
            return false;
        }
        if m.in_text(pc) {
            let b = std::slice::from_raw_parts(pc as *const u8, 8);
            if let Some(s) = special_insn(b) {
                t.special.push((m.off(pc) as u32, s));
                if t.emulate && emulate_special(e, uc) {
                    continue;
                }
            }
        }
        return true;
    }
}
/// Arm the odd instructions of the current module.
pub fn arm_odd(on: bool) {
    let e = eng();
    unsafe {
        if on {
            let m = &e.mods[e.m];
            e.odd = m.odd.iter().map(|o| m.base + *o as u64).collect();
            e.undefined = None;
            for k in 0..e.odd.len() {
                let a = e.odd[k];
                arm(e, a);
            }
        } else {
            for a in std::mem::take(&mut e.odd) {
                disarm(e, a);
            }
        }
    }
}
/// An instruction that the simulated processor lacks, or whose answer comes from the simulated world.
unsafe fn odd_insn(e: &mut Eng, uc: *mut ucontext_t, pc: u64) -> bool {
    let Some(orig) = e.bps.iter().find(|b| b.addr == pc).map(|b| b.orig) else { return false };
    let mut b = [0u8; 16];
    std::ptr::copy_nonoverlapping(pc as *const u8, b.as_mut_ptr(), 16);
    b[0] = orig;
    g!(uc, REG_RIP) = pc as i64;
    e.fired.odd_insns += 1;
    if let Some(what) = e.cpu.and_then(|c| lacking(&b, c)) {
        e.undefined = Some((e.mods[e.m].off(pc) as u32, what));
        crash_out(e, uc, Crash::Undefined);
        return true;
    }
    poke(pc, orig);
    let done = special_insn(&b).is_some() && emulate_special(e, uc);
    poke(pc, 0xcc);
    if !done {
        // executed as it is
        g!(uc, REG_RIP) = pc as i64 + 1;
    }
    done
}
unsafe fn emulate_special(e: &mut Eng, uc: *mut ucontext_t) -> bool {
    let rip = g!(uc, REG_RIP) as u64;
    if e.ambient.is_some() && emulate(e, uc) {
        return true;
    }
    let b = std::slice::from_raw_parts(rip as *const u8, 8);
    let mut i = 0;
    let mut rex = 0u8;
    while i < 3 && (matches!(b[i], 0x66 | 0xf2 | 0xf3) || (b[i] & 0xf0) == 0x40) {
        if b[i] & 0xf0 == 0x40 {
            rex = b[i];
        }
        i += 1;
    }
    if b[i] == 0x0f && b[i + 1] == 0xc7 && b[i + 2] >> 6 == 3 {
        let reg = (b[i + 2] & 7) | if rex & 1 != 0 { 8 } else { 0 };
        const MAP: [c_int; 16] = [
            libc::REG_RAX, libc::REG_RCX, libc::REG_RDX, libc::REG_RBX, libc::REG_RSP, libc::REG_RBP, libc::REG_RSI, libc::REG_RDI,
            libc::REG_R8, libc::REG_R9, libc::REG_R10, libc::REG_R11, libc::REG_R12, libc::REG_R13, libc::REG_R14, libc::REG_R15,
        ];
        let v = match e.ambient.as_mut() {
            Some(r) => r.u64(),
            None => return false,
        };
        g!(uc, MAP[reg as usize]) = if rex & 8 != 0 { v as i64 } else { (v & 0xffff_ffff) as i64 };
        g!(uc, REG_EFL) |= 1;
        g!(uc, REG_RIP) += (i + 3) as i64;
        return true;
    }
    false
}

unsafe fn others_runnable(e: &Eng) -> bool {
    (1..e.ctxs.len()).any(|i| i != e.cur && e.ctxs[i].state == FState::Ready)
}

/// A scheduling point next to an access to static mutable memory.
unsafe fn access_point(uc: *mut ucontext_t) {
    let e = eng();
    e.fired.access_points += 1;
    let cur = e.cur;
    let c = &mut e.ctxs[cur];
    let f = &mut c.frames[c.depth - 1];
    f.acc += 1;
    let acc = f.acc;
    let limit = if OWN_LIMIT && acc % 256 == 0 {
        let md = &e.mods[e.m];
        let id = f.call;
        e.plan.calls.get(id).map_or(SPIN_LIMIT, |c| (crate::case::budget(&md.cfg, &md.ops[c.spec.op], c.spec.n)).min(SPIN_LIMIT as u64) as u32)
    } else {
        SPIN_LIMIT
    };
    if acc >= limit {
        crash_out(e, uc, Crash::Hang);
        return;
    }
    let off = e.mods[e.m].off(g!(uc, REG_RIP) as u64);
    loop {
        let e = eng();
        let c = &mut e.ctxs[e.cur];
        let f = &mut c.frames[c.depth - 1];
        let due = f.evs.iter().position(|(ev, cnt, fired)| !*fired && matches!(ev.at, Anchor::Access(k) if k == acc) || matches!(ev.at, Anchor::Each(k) if acc % k == 0 && *cnt < acc));
        match due {
            None => break,
            Some(k) => {
                if matches!(f.evs[k].0.at, Anchor::Each(_)) {
                    f.evs[k].1 = acc;
                } else {
                    f.evs[k].2 = true;
                }
                let act = f.evs[k].0.act;
                e.fired.access_events += 1;
                fire(act, off, uc);
                if g!(uc, REG_RIP) == sim_recover as usize as i64 {
                    return;
                }
            }
        }
    }
    let e = eng();
    // Fairness: a call that keeps touching shared memory does not keep the processor.
    if acc % 300 == 0 && e.cur != 0 && others_runnable(e) {
        e.fired.forced_preempt += 1;
        switch_away(FState::Ready);
    }
}

unsafe fn fire(act: Act, off: u64, uc: *mut ucontext_t) {
    let e = eng();
    let cur = e.cur;
    hash(e, (cur as u64) << 8 | act_code(act), off);
    logf(e, || format!("thread {cur}: {act:?} at +{off:#x}"));
    match act {
        Act::Preempt => {
            e.fired.preempt += 1;
            if cur != 0 {
                switch_away(FState::Ready);
            }
        }
        Act::Lag(k) => {
            e.fired.preempt += 1;
            if cur != 0 {
                let sb = &mut e.ctxs[cur].sb;
                let n = sb.len().saturating_sub(k as usize);
                sb.drain(..n);
                if !sb.is_empty() {
                    e.fired.lag += 1;
                    e.fired.lagged_stores += e.ctxs[cur].sb.len() as u64;
                }
                hide(e, cur);
                switch_away_lagging(FState::Ready);
            }
        }
        Act::Stall => {
            e.fired.stall += 1;
            if cur != 0 {
                switch_away(FState::Stalled);
            }
        }
        Act::Kill | Act::KillThread => {
            if cur != 0 {
                if act == Act::Kill {
                    e.fired.kill += 1;
                } else {
                    e.fired.kill_thread += 1;
                    e.ctxs[cur].fresh_thread = true;
                }
                kill_current(e);
            }
        }
        Act::Interrupt(c) => {
            e.fired.interrupt += 1;
            run_call(c);
            let e = eng();
            if e.guard == Guard::Trap {
                set_prot(e, true);
            }
        }
        Act::InterruptKill(c) => {
            e.fired.interrupt_kill += 1;
            run_call(c);
            let e = eng();
            if cur != 0 {
                kill_current(e);
            }
        }
    }
    let _ = uc;
}
fn act_code(a: Act) -> u64 {
    match a {
        Act::Preempt => 1,
        Act::Lag(k) => 0x10 + k as u64,
        Act::Stall => 2,
        Act::Kill => 3,
        Act::KillThread => 4,
        Act::Interrupt(_) => 5,
        Act::InterruptKill(_) => 6,
    }
}

/// Abandon everything on the current simulated thread and hand over to the scheduler for good.
unsafe fn kill_current(e: &mut Eng) -> ! {
    let cur = e.cur;
    while e.ctxs[cur].depth > 0 {
        let d = e.ctxs[cur].depth - 1;
        let id = e.ctxs[cur].frames[d].call;
        if id < e.results.len() {
            e.results[id] = Outcome::Killed;
        }
        drop_events(e, cur, d);
        e.ctxs[cur].depth -= 1;
    }
    switch_away(FState::Killed);
    unreachable!()
}

unsafe fn drop_events(e: &mut Eng, ctx: usize, d: usize) {
    let ra = e.ctxs[ctx].rearm;
    if ra != 0 {
        e.ctxs[ctx].rearm = 0;
        rearm(e, ra);
    }
    let base = e.mods[e.m].base;
    let n = e.ctxs[ctx].frames[d].evs.len();
    for k in 0..n {
        let (ev, _, fired) = e.ctxs[ctx].frames[d].evs[k];
        if !fired {
            if let Anchor::Pc(o, _) = ev.at {
                disarm(e, base + o as u64);
            }
        }
    }
    e.ctxs[ctx].frames[d].evs.clear();
}

/// Total store order: a processor's own stores take effect for itself at once and for the others
/// later, in order. The stores of `sb` are in memory while their thread runs and taken back out
/// while another does.
unsafe fn hide(e: &mut Eng, cur: usize) {
    let p = e.prot;
    set_prot(e, false);
    for s in e.ctxs[cur].sb.iter().rev() {
        wr_mem(s.addr, s.len, s.old);
    }
    set_prot(e, p);
}
unsafe fn unhide(e: &mut Eng, cur: usize) {
    if e.ctxs[cur].sb.is_empty() {
        return;
    }
    let p = e.prot;
    set_prot(e, false);
    for s in e.ctxs[cur].sb.iter_mut() {
        s.old = rd_mem(s.addr, s.len);
        wr_mem(s.addr, s.len, s.new);
    }
    set_prot(e, p);
}
/// The oldest pending store of another thread becomes visible, now and then.
unsafe fn drain_others(e: &mut Eng) {
    for i in 1..e.ctxs.len() {
        if i == e.cur || e.ctxs[i].sb.is_empty() {
            continue;
        }
        e.lag_clock = e.lag_clock.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407 ^ e.hash);
        if e.lag_clock >> 60 == 0 {
            let s = e.ctxs[i].sb.remove(0);
            let p = e.prot;
            set_prot(e, false);
            wr_mem(s.addr, s.len, s.new);
            set_prot(e, p);
            hash(e, 0x500 + i as u64, s.addr.wrapping_sub(e.mods[e.m].base));
            logf(e, || format!("thread {i}: a store becomes visible"));
        }
    }
}
unsafe fn rd_mem(a: u64, n: u8) -> u128 {
    let mut v = 0u128;
    std::ptr::copy_nonoverlapping(a as *const u8, &mut v as *mut u128 as *mut u8, n as usize);
    v
}
unsafe fn wr_mem(a: u64, n: u8, v: u128) {
    std::ptr::copy_nonoverlapping(&v as *const u128 as *const u8, a as *mut u8, n as usize);
}
#[derive(PartialEq, Debug)]
enum Mem {
    Load,
    Store(u8),
    /// ordered with everything, or not understood
    Other,
}
/// What an instruction does to the memory operand it names.
fn mem_kind(b: &[u8]) -> Mem {
    let (mut i, mut o16, mut rep, mut rex) = (0, false, 0u8, 0u8);
    loop {
        match b[i] {
            0x66 => o16 = true,
            0xf2 | 0xf3 => rep = b[i],
            x if x & 0xf0 == 0x40 => rex = x,
            _ => break,
        }
        i += 1;
        if i > 4 {
            return Mem::Other;
        }
    }
    let w = if rex & 8 != 0 { 8 } else if o16 { 2 } else { 4 };
    let reg = b[i + 1] >> 3 & 7;
    match b[i] {
        0x88 | 0xc6 => Mem::Store(1),
        0x89 | 0xc7 => Mem::Store(w),
        x if x < 0x38 && x & 7 == 0 => Mem::Store(1),
        x if x < 0x38 && x & 7 == 1 => Mem::Store(w),
        x if x < 0x40 && matches!(x & 7, 2 | 3) => Mem::Load,
        0x38 | 0x39 | 0x84 | 0x85 | 0x8a | 0x8b | 0x63 | 0x69 | 0x6b => Mem::Load,
        0x80 if reg != 7 => Mem::Store(1),
        0x81 | 0x83 if reg != 7 => Mem::Store(w),
        0x80 | 0x81 | 0x83 => Mem::Load,
        0xfe if reg < 2 => Mem::Store(1),
        0xff if reg < 2 => Mem::Store(w),
        0xff => Mem::Load,
        0xf6 if matches!(reg, 2 | 3) => Mem::Store(1),
        0xf7 if matches!(reg, 2 | 3) => Mem::Store(w),
        0xf6 | 0xf7 => Mem::Load,
        0xc0 | 0xd0 | 0xd2 => Mem::Store(1),
        0xc1 | 0xd1 | 0xd3 => Mem::Store(w),
        0x0f => {
            let reg = b[i + 2] >> 3 & 7;
            match b[i + 1] {
                0x11 => Mem::Store(match rep {
                    0xf3 => 4,
                    0xf2 => 8,
                    _ => 16,
                }),
                0x29 => Mem::Store(16),
                0x13 | 0x17 if rep == 0 => Mem::Store(8),
                0x7f => Mem::Store(if o16 || rep != 0 { 16 } else { 8 }),
                0x7e if rep == 0 => Mem::Store(if rex & 8 != 0 { 8 } else { 4 }),
                0xd6 if o16 => Mem::Store(8),
                0x90..=0x9f => Mem::Store(1),
                0xba if reg == 4 => Mem::Load,
                0x10 | 0x12 | 0x14..=0x16 | 0x28 | 0x2a | 0x2c..=0x2f | 0x40..=0x6f | 0x70 | 0x74..=0x76 | 0x7e | 0xa3 | 0xaf | 0xb6..=0xb8 | 0xbc..=0xbf | 0xc6 => Mem::Load,
                _ => Mem::Other,
            }
        }
        _ => Mem::Other,
    }
}
/// Just before the instruction that accesses static memory is executed.
unsafe fn note_access(e: &mut Eng, rip: u64) {
    if !e.plan_lags {
        return;
    }
    drain_others(e);
    let ok = e.mods[e.m].in_text(rip);
    let wr = e.mods[e.m].wr;
    let c = &mut e.ctxs[e.cur];
    let k = if ok { mem_kind(std::slice::from_raw_parts(rip as *const u8, 16)) } else { Mem::Other };
    let a = c.fault_addr;
    c.storing = match k {
        Mem::Store(n) if a >= wr.0 && a + n as u64 <= wr.1 => Some((a, n, rd_mem(a, n))),
        Mem::Load => None,
        _ => {
            c.sb.clear();
            None
        }
    };
}
unsafe fn note_store(e: &mut Eng) {
    let c = &mut e.ctxs[e.cur];
    if let Some((addr, len, old)) = c.storing.take() {
        if c.sb.len() >= 8 {
            c.sb.remove(0);
        }
        c.sb.push(Pending { addr, len, old, new: rd_mem(addr, len) });
    }
}

unsafe fn switch_away(st: FState) {
    let e = eng();
    e.ctxs[e.cur].sb.clear();
    switch_away_lagging(st);
}
unsafe fn switch_away_lagging(st: FState) {
    let e = eng();
    let cur = e.cur;
    let m = &e.mods[e.m];
    let c = &mut e.ctxs[cur];
    c.state = st;
    if m.tls.1 > 0 {
        c.tls.clear();
        c.tls.extend_from_slice(std::slice::from_raw_parts(m.tls.0 as *const u8, m.tls.1));
    }
    let to = e.ctxs[0].rsp;
    let save = &mut e.ctxs[cur].rsp as *mut u64;
    sim_switch(save, to);
    let e = eng();
    unhide(e, e.cur);
}

unsafe fn switch_to(i: usize) {
    let e = eng();
    let m = &e.mods[e.m];
    if m.tls.1 > 0 {
        let c = &mut e.ctxs[i];
        if c.tls.len() != m.tls.1 || c.fresh_thread {
            c.tls = m.tls_image.clone();
            c.fresh_thread = false;
        }
        std::ptr::copy_nonoverlapping(c.tls.as_ptr(), m.tls.0 as *mut u8, m.tls.1);
    }
    e.cur = i;
    WORLD.tid = i as u64;
    e.ctxs[i].state = FState::Running;
    e.call_tick = e.tick;
    let to = e.ctxs[i].rsp;
    let save = &mut e.ctxs[0].rsp as *mut u64;
    sim_switch(save, to);
    eng().cur = 0;
    WORLD.tid = 0;
}

// ---------------------------------------------------------------- calls

pub fn mask(w: u8) -> u128 {
    if w >= 16 { u128::MAX } else { (1u128 << (8 * w as u32)) - 1 }
}
pub fn is_nan(w: u8, b: u128) -> bool {
    match w {
        2 => (b & 0x7fff) > 0x7c00,
        4 => (b & 0x7fff_ffff) > 0x7f80_0000,
        8 => (b & 0x7fff_ffff_ffff_ffff) > 0x7ff0_0000_0000_0000,
        _ => (b & (u128::MAX >> 1)) > (0x7fffu128 << 112),
    }
}
fn canon(w: u8, b: u128) -> u128 {
    let b = b & mask(w);
    if is_nan(w, b) { mask(w) } else { b }
}

const OUT_FILL: u128 = 0xA5A5_A5A5_A5A5_A5A5_5A5A_5A5A_5A5A_5A5A;

#[inline]
pub fn prep(f: &mut Frame, op: &Op, s: &Spec, env: &Env) {
    let m = mask(op.fw);
    f.outb = [OUT_FILL; 6];
    f.acc = 0;
    let out = f.outb.as_mut_ptr() as u64 + 32;
    let i = &mut f.inv;
    i.f = op.f;
    let mut n = s.n;
    if op.bessel != 0 && n.unsigned_abs() > 1 << 20 && !crate::args::short(op, s.x[0]) {
        // 2^31 steps of a recurrence would be right, but nobody waits for them
        n %= 1 << 9;
    }
    i.n = (n as u32 as u64) | (env.n_hi << 32);
    i.out = out;
    i.stack_sub = env.stack_sub;
    for k in 0..3 {
        i.x[k] = (s.x[k] & m) | (env.x_hi[k] & !m);
    }
    i.dirty_src = env.dirty_src;
    i.dirty_len = env.dirty_len;
    i.mxcsr_in = s.enter(env.mxcsr);
    i.cw_in = env.cw;
    i.sw_in = env.sw & env.cw & 0x3f;
    i.flags = if i.sw_in != 0 { env.flags | FL_SW } else { env.flags };
    i.vec_src = env.vec_src;
    i.gpr = env.gpr;
    i.ef = env.cs & 0xd500 | 0x200;
    i.cs_in = CS_MAGIC;
    if env.cs != 0 {
        for k in 0..6 {
            i.cs_in[k] = if env.cs >> (8 + k) & 3 == 0 { env.cs >> 58 } else { env.cs.rotate_left(11 * k as u32) };
        }
    }
    if unsafe { WANT_FLAGS } && env.flags & FL_VEC == 0 {
        // compiled code may compute on unused lanes, so their contents are part of the input
        i.flags |= FL_VEC;
        i.vec_src = ZEROS.as_ptr() as u64;
    }
    i.crash = 0;
    i.canary_bad = 0;
    i.sw_out = 0;
}
/// Outcomes are the exception flags raised (C10), not the values returned.
pub static mut WANT_FLAGS: bool = false;
#[inline]
pub fn outcome(f: &Frame, op: &Op) -> Outcome {
    if f.inv.crash != 0 {
        return Outcome::Crash(Crash::from(f.inv.crash));
    }
    if unsafe { WANT_FLAGS } {
        return Outcome::Done(Val { ret: 0, out: [0, 0], raised: ((f.inv.mxcsr_out & !f.inv.mxcsr_in | (f.inv.sw_out & !f.inv.sw_in) as u32) & 0x3f) as u8 });
    }
    let ret = match op.ret {
        1 => canon(op.fw, f.inv.xmm0),
        2 => f.inv.rax as u32 as u128,
        _ => 0,
    };
    let out = match op.out {
        1 => [canon(op.fw, f.outb[2]), 0],
        2 => [f.outb[2] as u32 as u128, 0],
        3 => [canon(op.fw, f.outb[2]), canon(op.fw, f.outb[3])],
        _ => [0, 0],
    };
    Outcome::Done(Val { ret, out, raised: 0 })
}
/// The call wrote to caller memory it was not given.
pub fn out_overrun(f: &Frame, op: &Op) -> bool {
    let o = &f.outb;
    let m = mask(op.fw);
    let bad_edges = o[0] != OUT_FILL || o[1] != OUT_FILL || o[4] != OUT_FILL || o[5] != OUT_FILL;
    let (k2, k3) = match op.out {
        0 => (0, 0),
        1 => (m, 0),
        2 => (0xffff_ffff, 0),
        _ => (m, m),
    };
    bad_edges || (o[2] ^ OUT_FILL) & !k2 != 0 || (o[3] ^ OUT_FILL) & !k3 != 0
}

/// Begin a stretch of native calls from the pristine image.
pub fn begin(guard: Guard) {
    unsafe {
        WORLD.ticks = 0;
        let e = eng();
        if e.touched || e.prot {
            set_prot(e, false);
            if e.touched {
                e.mods[e.m].restore();
            }
        }
        if e.mods[e.m].tls_dirty() {
            e.mods[e.m].restore_tls();
        }
        e.touched = false;
        e.guard = guard;
        set_prot(e, guard != Guard::Off);
    }
}
/// Cheap form of `begin` when nothing was touched and the guard is already as wanted.
#[inline]
pub fn rebegin(guard: Guard) {
    let e = eng();
    unsafe { WORLD.ticks = 0 };
    if e.touched || e.guard != guard || e.prot != (guard != Guard::Off) {
        begin(guard);
    } else if unsafe { e.mods[e.m].tls_dirty() } {
        unsafe { e.mods[e.m].restore_tls() };
    }
}
/// What shape the static and thread-local memory of the module is in; 0 is pristine. Small values
/// count, of large ones only their size and place.
pub fn image_class() -> u64 {
    unsafe {
        let e = eng();
        if e.touched {
            set_prot(e, false);
        }
        let md = &e.mods[e.m];
        let mut h = 0u64;
        let mut cmp = |now: *const u8, was: &[u8], tag: u64| {
            for k in 0..was.len() / 4 {
                let a = (now as *const u32).add(k).read_unaligned();
                let b = (was.as_ptr() as *const u32).add(k).read_unaligned();
                if a != b {
                    let v = if a < 64 { a as u64 } else { 64 + (a.leading_zeros() / 4) as u64 };
                    h = crate::rng::mix(&[h, tag, k as u64, v]);
                }
            }
        };
        if e.touched {
            cmp(md.wr.0 as *const u8, &md.image, 1);
        }
        if md.tls_dirty() {
            cmp(md.tls.0 as *const u8, &md.tls_image, 2);
        }
        h
    }
}
/// Change the guard without going back to the pristine image.
pub fn reguard(guard: Guard) {
    unsafe {
        let e = eng();
        e.guard = guard;
        set_prot(e, guard != Guard::Off);
    }
}
pub fn use_module(i: usize) {
    unsafe {
        let e = eng();
        set_prot(e, false);
        if e.touched {
            e.mods[e.m].restore();
            e.touched = false;
        }
        e.mods[e.m].restore_tls();
        e.m = i;
        e.guard = Guard::Off;
    }
}

/// One call on the current context, no events.
#[inline]
pub fn native(s: &Spec, env: &Env) -> Outcome {
    unsafe {
        let e = eng();
        let c = &mut e.ctxs[e.cur];
        let d = c.depth;
        let op = &e.mods[e.m].ops[s.op] as *const Op;
        let f = &mut *c.frames[d] as *mut Frame;
        prep(&mut *f, &*op, s, env);
        (*f).call = usize::MAX;
        c.depth = d + 1;
        e.call_tick = e.tick;
        if e.sud_on {
            std::ptr::write_volatile(&mut e.sud, 1);
        }
        sim_invoke(&mut (*f).inv);
        let e = eng();
        std::ptr::write_volatile(&mut e.sud, 0);
        e.ctxs[e.cur].depth = d;
        let o = outcome(&*f, &*op);
        if let Outcome::Crash(_) = o {
            after_crash(e);
        }
        o
    }
}
pub fn frame() -> &'static Frame {
    let e = eng();
    let c = &e.ctxs[e.cur];
    &c.frames[c.depth]
}
fn after_crash(e: &mut Eng) {
    let c = &mut e.ctxs[e.cur];
    c.step_access = false;
    let ra = c.rearm;
    c.rearm = 0;
    e.trace.on = false;
    unsafe {
        if ra != 0 {
            rearm(e, ra);
        }
        if e.trace_start != 0 {
            let a = e.trace_start;
            e.trace_start = 0;
            disarm(e, a);
        }
    }
}

static ZEROS: [u64; 1024] = [0; 1024];
pub fn clean_env() -> Env {
    Env { dirty_src: ZEROS.as_ptr() as u64, dirty_len: 4096, ..CLEAN }
}

/// Result of the call alone in a fresh process.
pub fn solo(s: &Spec) -> Outcome {
    rebegin(Guard::Mark);
    native(s, &clean_env())
}

/// One call single-stepped. `rec` keeps the program counters.
pub fn traced(s: &Spec, env: &Env, cap: u64, rec: bool, emulate: bool) -> Outcome {
    unsafe {
        let e = eng();
        let t = &mut e.trace;
        t.on = false;
        t.pcs.clear();
        t.acc_at.clear();
        t.special.clear();
        t.accesses = 0;
        t.steps = 0;
        t.cap = cap;
        t.rec = rec;
        t.ctl_bad = None;
        t.want_mxcsr = s.enter(env.mxcsr);
        t.want_cw = env.cw;
        t.sticky_in = env.mxcsr & 0x3f;
        t.sw_in = env.sw & env.cw & 0x3f;
        t.overflow = false;
        t.emulate = emulate;
        t.prev_pc = 0;
        t.stack.clear();
        t.nested = (0, 0);
        let addr = e.mods[e.m].ops[s.op].f;
        e.trace_start = addr;
        arm(e, addr);
        let o = native(s, env);
        let e = eng();
        e.trace.on = false;
        e.trace.calls = false;
        if e.guard == Guard::Trap {
            set_prot(e, true);
        }
        o
    }
}

/// One call of the plan on the current simulated thread (also used, nested, by interrupts).
unsafe fn run_call(id: usize) {
    let e = eng();
    let cur = e.cur;
    let d = e.ctxs[cur].depth;
    if d >= MAX_DEPTH {
        return;
    }
    let spec = e.plan.calls[id].spec;
    let op = &e.mods[e.m].ops[spec.op] as *const Op;
    let f = &mut *e.ctxs[cur].frames[d] as *mut Frame;
    prep(&mut *f, &*op, &spec, &CLEAN);
    (*f).call = id;
    (*f).evs.clear();
    let base = e.mods[e.m].base;
    for k in 0..e.plan.calls[id].evs.len() {
        let ev = e.plan.calls[id].evs[k];
        (*f).evs.push((ev, 0, false));
        if let Anchor::Pc(o, _) = ev.at {
            arm(e, base + o as u64);
        }
    }
    // A handler starts with its own stepping state.
    let (sa, ra) = (e.ctxs[cur].step_access, e.ctxs[cur].rearm);
    e.ctxs[cur].step_access = false;
    e.ctxs[cur].rearm = 0;
    hash(e, 0x100 + cur as u64, id as u64);
    logf(e, || format!("thread {cur}: call #{id} begins (depth {d})"));
    e.ctxs[cur].depth = d + 1;
    e.call_tick = e.tick;
    if e.guard == Guard::Trap {
        set_prot(e, true);
    }
    sim_invoke(&mut (*f).inv);
    let e = eng();
    let o = outcome(&*f, &*op);
    if let Outcome::Crash(_) = o {
        after_crash(e);
        if e.guard == Guard::Trap {
            set_prot(e, true);
        }
    }
    drop_events(e, cur, d);
    e.ctxs[cur].depth = d;
    e.ctxs[cur].step_access = sa;
    e.ctxs[cur].rearm = ra;
    e.results[id] = o;
    if e.check_ctl && e.ctl_viol.is_none() && (*f).inv.crash == 0 {
        let i = &(*f).inv;
        if (i.mxcsr_out & MXCSR_CTL) != i.mxcsr_in & MXCSR_CTL || i.cw_out != i.cw_in {
            e.ctl_viol = Some(format!("control state changed across call #{id}: mxcsr {:#x} -> {:#x}, x87 cw {:#x} -> {:#x}", i.mxcsr_in, i.mxcsr_out, i.cw_in, i.cw_out));
        }
    }
    hash(e, 0x200 + cur as u64, id as u64);
    logf(e, || format!("thread {cur}: call #{id} ends: {o:x?}"));
}

pub unsafe extern "C" fn fiber_main() -> ! {
    if let Some(c) = eng().closure {
        (*c)();
        switch_away(FState::Done);
    }
    loop {
        let e = eng();
        let c = &mut e.ctxs[e.cur];
        if c.qpos >= c.queue.len() {
            switch_away(FState::Done);
        }
        let id = c.queue[c.qpos];
        c.qpos += 1;
        run_call(id);
        // Between calls is a scheduling point as well.
        let e = eng();
        if e.ctxs[e.cur].qpos < e.ctxs[e.cur].queue.len() && others_runnable(e) {
            switch_away(FState::Ready);
        }
    }
}

unsafe fn spawn(i: usize) {
    let c = &mut eng().ctxs[i];
    let top = c.hi - 256;
    let sp = top - 56;
    for k in 0..6 {
        *((sp + 8 * k) as *mut u64) = 0;
    }
    *((sp + 48) as *mut u64) = sim_fiber_entry as usize as u64;
    c.rsp = sp;
    c.state = FState::Ready;
    c.depth = 0;
    c.step_access = false;
    c.rearm = 0;
}

/// Run `f` on fiber stack 1, of which only `limit` bytes below the first call are usable.
pub fn on_fiber(f: &mut dyn FnMut()) {
    on_fiber_k(1, f)
}
pub fn on_fiber_k(k: usize, f: &mut dyn FnMut()) {
    unsafe {
        let e = eng();
        e.closure = Some(std::mem::transmute::<*mut dyn FnMut(), *mut (dyn FnMut() + 'static)>(f as *mut dyn FnMut()));
        e.ctxs[k].tls.clear();
        spawn(k);
        switch_to(k);
        eng().closure = None;
        eng().ctxs[k].state = FState::Unused;
    }
}
/// Make the current fiber's stack unusable below `addr` (page rounded down), or usable again.
pub fn stack_floor(addr: Option<u64>) -> u64 {
    unsafe {
        let e = eng();
        let c = &e.ctxs[1];
        match addr {
            Some(a) => {
                let a = a & !4095;
                libc::mprotect(c.lo as *mut c_void, (a - c.lo) as usize, libc::PROT_NONE);
                a
            }
            None => {
                libc::mprotect(c.lo as *mut c_void, STACK_SIZE as usize, libc::PROT_READ | libc::PROT_WRITE);
                c.lo
            }
        }
    }
}

pub struct RunResult {
    pub hash: u64,
}

/// Execute a plan on the image as it is, on the simulated threads from `1 + off` on. With `leave`,
/// stalled threads stay where they are. Results are in `eng().results`.
pub fn run_plan_on(plan: &Plan, off: usize, leave: bool) -> RunResult {
    unsafe {
        let e = eng();
        e.plan = plan.clone();
        e.results.clear();
        e.results.resize(plan.calls.len(), Outcome::NotRun);
        e.ctl_viol = None;
        e.hash = 0;
        for i in 1..=MAX_FIBERS {
            e.ctxs[i].state = FState::Unused;
            e.ctxs[i].tls.clear();
            e.ctxs[i].fresh_thread = false;
            e.ctxs[i].depth = 0;
            e.ctxs[i].sb.clear();
            e.ctxs[i].storing = None;
        }
        e.lag_clock = 1;
        e.plan_lags = e.mods[e.m].tso && plan.calls.iter().any(|c| c.evs.iter().any(|v| matches!(v.act, Act::Lag(_))));
        for (k, q) in plan.fibers.iter().enumerate() {
            let c = &mut e.ctxs[k + 1 + off];
            c.queue.clear();
            c.queue.extend_from_slice(q);
            c.qpos = 0;
            spawn(k + 1 + off);
        }
        let mut pick = 0usize;
        let nf = plan.fibers.len() + off;
        let mut ready: Vec<usize> = Vec::with_capacity(MAX_FIBERS);
        loop {
            let e = eng();
            ready.clear();
            for i in 1 + off..=nf {
                if e.ctxs[i].state == FState::Killed {
                    spawn(i);
                }
                if e.ctxs[i].state == FState::Ready {
                    ready.push(i);
                }
            }
            if ready.is_empty() {
                if leave {
                    break;
                }
                // Everybody else is through: stalled threads come back.
                let mut any = false;
                for i in 1 + off..=nf {
                    if e.ctxs[i].state == FState::Stalled {
                        e.ctxs[i].state = FState::Ready;
                        any = true;
                    }
                }
                if !any {
                    break;
                }
                continue;
            }
            let k = if plan.sched.is_empty() { 0 } else { plan.sched[pick % plan.sched.len()] as usize };
            pick += 1;
            let who = ready[k % ready.len()];
            hash(e, 0x300, who as u64);
            logf(e, || format!("scheduler: runs thread {who}"));
            switch_to(who);
        }
        let e = eng();
        while let Some(b) = e.bps.pop() {
            poke(b.addr, b.orig);
        }
        for k in 0..e.odd.len() {
            let a = e.odd[k];
            arm(e, a);
        }
        for k in 0..e.results.len() {
            let h = match e.results[k] {
                Outcome::Done(v) => v.ret as u64 ^ (v.ret >> 64) as u64 ^ (v.out[0] as u64).rotate_left(7) ^ (v.out[1] as u64).rotate_left(13),
                Outcome::Crash(c) => 0xdead_0000 + c as u64,
                Outcome::Killed => 0xbeef,
                Outcome::NotRun => 0xfeed,
            };
            hash(e, 0x400 + k as u64, h);
        }
        e.mods[e.m].restore_tls();
        RunResult { hash: e.hash }
    }
}
