// Shared by the demonstrations: fresh processes by fork, one instruction at a
// time by the trap flag, and an action at a chosen instruction.
#![allow(dead_code, static_mut_refs)]
use std::arch::asm;
use std::cell::Cell;
use std::ffi::c_void;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn mmap(a: *mut c_void, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void;
    fn sigaction(s: i32, act: *const SigAction, old: *mut c_void) -> i32;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum End {
    Ok,
    Bad,
    NotReached,
    Hung,
    Crashed(i32),
}

/// Run `f` in a new process. Its result: 0 = ok, 1 = bad, 2 = not reached.
pub fn child(secs: u32, f: impl FnOnce() -> i32) -> End {
    unsafe {
        let p = fork();
        assert!(p >= 0);
        if p == 0 {
            alarm(secs);
            let c = f();
            _exit(c);
        }
        let mut st = 0;
        waitpid(p, &mut st, 0);
        match (st & 0x7f, (st >> 8) & 0xff) {
            (0, 0) => End::Ok,
            (0, 1) => End::Bad,
            (0, 2) => End::NotReached,
            (14, _) => End::Hung,
            (s, c) => End::Crashed(if s != 0 { s } else { c }),
        }
    }
}

fn page() -> *mut u64 {
    unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut u64 }
}

/// What the call returns as the first one of a new process.
pub fn fresh(f: impl FnOnce() -> Vec<u64>) -> Vec<u64> {
    let p = page();
    let e = child(20, || {
        let v = f();
        unsafe {
            *p = v.len() as u64;
            for (i, x) in v.iter().enumerate() {
                *p.add(1 + i) = *x;
            }
        }
        0
    });
    assert!(e == End::Ok, "{e:?}");
    unsafe { (0..*p as usize).map(|i| *p.add(1 + i)).collect() }
}

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static TARGET: Cell<u64> = const { Cell::new(0) };
    static ACTION: Cell<Option<*mut dyn FnMut(&mut Frame)>> = const { Cell::new(None) };
}

/// The interrupted thread's state.
pub struct Frame(*mut u8);
impl Frame {
    pub fn mxcsr(&self) -> u32 {
        unsafe {
            let fp = *(self.0.add(40 + 23 * 8) as *const *const u8);
            *(fp.add(24) as *const u32)
        }
    }
    pub fn rsp(&self) -> u64 {
        unsafe { *(self.0.add(40 + 15 * 8) as *const u64) }
    }
    /// General registers: 13 rax, 11 rbx, 14 rcx, 12 rdx, 16 rip.
    pub fn reg(&mut self, i: usize) -> &mut i64 {
        unsafe { &mut *(self.0.add(40 + i * 8) as *mut i64) }
    }
    pub fn bytes(&self) -> [u8; 12] {
        unsafe { *(self.rip() as *const [u8; 12]) }
    }
    pub fn rip(&self) -> u64 {
        unsafe { *(self.0.add(40 + 16 * 8) as *const u64) }
    }
}

/// `TARGET` of an action before every instruction.
pub const EACH: u64 = 0;

extern "C" fn on_trap(_s: i32, _i: *mut c_void, uc: *mut c_void) {
    unsafe {
        COUNT.set(COUNT.get() + 1);
        let each = TARGET.get() == EACH;
        if COUNT.get() == TARGET.get() || each {
            if !each {
                let eflags = (uc as *mut u8).add(40 + 17 * 8) as *mut u64;
                *eflags &= !0x100;
            }
            if let Some(a) = ACTION.get() {
                (*a)(&mut Frame(uc as *mut u8));
            }
        }
    }
}

/// Run `call` one instruction at a time and run `action`, on the same thread
/// and beneath it, before instruction `k` (or each). Was `k` reached?
pub fn stepped_f(k: u64, action: &mut dyn FnMut(&mut Frame), call: &mut dyn FnMut()) -> bool {
    unsafe {
        let sa = SigAction {
            handler: on_trap as usize,
            mask: [0; 16],
            flags: 4 | 0x40000000,
            restorer: 0,
        };
        assert!(sigaction(5, &sa, std::ptr::null_mut()) == 0);
        COUNT.set(0);
        TARGET.set(k);
        ACTION.set(Some(std::mem::transmute::<
            *mut dyn FnMut(&mut Frame),
            *mut dyn FnMut(&mut Frame),
        >(action)));
        asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        call();
        asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        COUNT.get() >= k
    }
}
pub fn stepped(k: u64, action: &mut dyn FnMut(), call: &mut dyn FnMut()) -> bool {
    stepped_f(k, &mut |_| action(), call)
}

/// `stepped`, inside an action.
pub fn nested(k: u64, action: &mut dyn FnMut(), call: &mut dyn FnMut()) -> bool {
    let (c, t, a) = (COUNT.get(), TARGET.get(), ACTION.get());
    let r = stepped(k, action, call);
    COUNT.set(c);
    TARGET.set(t);
    ACTION.set(a);
    r
}

/// Number of instructions of `call`.
pub fn steps(call: &mut dyn FnMut()) -> u64 {
    stepped(u64::MAX, &mut || (), call);
    COUNT.get()
}

/// Try every instruction `k` of a call (every `stride`-th); `f(k)` runs in its
/// own process. The first that is not Ok is returned.
pub fn every(stride: u64, secs: u32, mut f: impl FnMut(u64) -> i32) -> Option<(u64, End)> {
    let mut k = 1;
    loop {
        match child(secs, || f(k)) {
            End::Ok => {}
            End::NotReached => return None,
            e => return Some((k, e)),
        }
        k += stride;
    }
}

pub fn verdict(bad: Option<String>) -> ! {
    match bad {
        None => {
            println!("demo: holds");
            std::process::exit(0)
        }
        Some(m) => {
            println!("demo: BROKEN: {m}");
            std::process::exit(1)
        }
    }
}
