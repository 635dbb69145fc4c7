//! The outside world as seen by code that reaches for the C library directly: error number, random
//! numbers, clocks, environment, identities. The simulator answers; anything with state keeps it in
//! this module's own memory, so that it is part of the simulated process image. All hidden, so that
//! only this module is affected.
use core::ffi::{c_char, c_int, c_long, c_void};
use core::sync::atomic::{AtomicPtr, AtomicU32, AtomicU64, Ordering::SeqCst};

#[repr(C)]
pub struct World {
    /// enter the kernel for real where the C library does (C08, where that is trapped)
    pub real: u64,
    pub seed: u64,
    pub ticks: u64,
    pub tid: u64,
}
pub static WORLD: AtomicPtr<World> = AtomicPtr::new(core::ptr::null_mut());
static RAND: AtomicU64 = AtomicU64::new(1);
#[thread_local]
static mut ERRNO: c_int = 0;

core::arch::global_asm!(
    ".macro outside name, to",
    ".globl \\name",
    ".hidden \\name",
    "\\name: jmp \\to",
    ".endm",
    "outside __errno_location, {er}",
    "outside rand, {ra}",
    "outside random, {ra}",
    "outside lrand48, {ra}",
    "outside mrand48, {ra}",
    "outside drand48, {dr}",
    "outside srand, {sr}",
    "outside srandom, {sr}",
    "outside srand48, {sr}",
    "outside arc4random, {ra}",
    "outside getrandom, {gr}",
    "outside getentropy, {ge}",
    "outside time, {ti}",
    "outside clock, {cl}",
    "outside clock_gettime, {cg}",
    "outside gettimeofday, {gt}",
    "outside timespec_get, {tg}",
    "outside getenv, {en}",
    "outside secure_getenv, {en}",
    "outside getpid, {pid}",
    "outside getppid, {pid}",
    "outside gettid, {tid}",
    "outside getuid, {pid}",
    "outside pthread_self, {me}",
    "outside sched_getcpu, {cpu}",
    "outside getauxval, {aux}",
    "outside sleep, {sl}",
    "outside usleep, {sl}",
    "outside nanosleep, {ns}",
    "outside sched_yield, {yi}",
    "outside syscall, {sy}",
    "outside pthread_mutex_init, {mi}",
    "outside pthread_mutex_lock, {ml}",
    "outside pthread_mutex_trylock, {mt}",
    "outside pthread_mutex_unlock, {mu}",
    "outside pthread_mutex_destroy, {mu}",
    "outside pthread_spin_init, {mi}",
    "outside pthread_spin_lock, {ml}",
    "outside pthread_spin_trylock, {mt}",
    "outside pthread_spin_unlock, {mu}",
    "outside pthread_once, {po}",
    er = sym errno_location,
    ra = sym rand,
    dr = sym drand,
    sr = sym srand,
    gr = sym getrandom,
    ge = sym getentropy,
    ti = sym time,
    cl = sym clock,
    cg = sym clock_gettime,
    gt = sym gettimeofday,
    tg = sym timespec_get,
    en = sym getenv,
    pid = sym getpid,
    tid = sym gettid,
    me = sym pthread_self,
    cpu = sym getcpu,
    aux = sym getauxval,
    sl = sym sleep,
    ns = sym nanosleep,
    yi = sym sched_yield,
    sy = sym syscall,
    mi = sym lock_init,
    ml = sym lock,
    mt = sym trylock,
    mu = sym unlock,
    po = sym once,
);

fn mix(mut x: u64) -> u64 {
    x = (x ^ x >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ x >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ x >> 31
}
/// An answer that depends on what is asked and on the simulated world.
unsafe fn ask(what: u64) -> u64 {
    unsafe {
        let w = WORLD.load(SeqCst);
        if w.is_null() { mix(what) } else { mix((*w).seed ^ mix(what)) }
    }
}
/// Microseconds on the simulated clock; every look moves it.
unsafe fn now() -> u64 {
    unsafe {
        let w = WORLD.load(SeqCst);
        if w.is_null() {
            return 0;
        }
        (*w).ticks += 1;
        1_700_000_000_000_000 + ask(1) % 1_000_000_000_000_000 + (*w).ticks * 37
    }
}
/// In C08 the call has to go where the C library would go: into the (trapped) kernel.
unsafe fn kernel(n: c_long) {
    unsafe {
        let w = WORLD.load(SeqCst);
        if !w.is_null() && (*w).real != 0 {
            core::arch::asm!("syscall", inlateout("rax") n => _, in("rdi") 0, in("rsi") 0, in("rdx") 0, out("rcx") _, out("r11") _);
        }
    }
}

pub unsafe extern "C" fn errno_location() -> *mut c_int {
    &raw mut ERRNO
}
unsafe extern "C" fn rand() -> c_long {
    (mix(RAND.fetch_add(1, SeqCst) ^ unsafe { ask(2) }) & 0x7fff_ffff) as c_long
}
unsafe extern "C" fn drand() -> f64 {
    (unsafe { rand() }) as f64 / 2147483648.0
}
unsafe extern "C" fn srand(s: c_long) {
    RAND.store(mix(s as u64), SeqCst);
}
unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize {
    unsafe {
        kernel(318);
        for i in 0..n {
            p.add(i).write(rand() as u8);
        }
    }
    n as isize
}
unsafe extern "C" fn getentropy(p: *mut u8, n: usize) -> c_int {
    unsafe { getrandom(p, n, 0) };
    0
}
unsafe extern "C" fn time(p: *mut c_long) -> c_long {
    let t = (unsafe { now() } / 1_000_000) as c_long;
    if !p.is_null() {
        unsafe { p.write(t) };
    }
    t
}
unsafe extern "C" fn clock() -> c_long {
    unsafe {
        kernel(228);
        (now() & 0xffff_ffff) as c_long
    }
}
unsafe extern "C" fn clock_gettime(_c: c_int, p: *mut [c_long; 2]) -> c_int {
    unsafe {
        let t = now();
        p.write([(t / 1_000_000) as c_long, (t % 1_000_000 * 1000) as c_long]);
    }
    0
}
unsafe extern "C" fn gettimeofday(p: *mut [c_long; 2], _z: *mut c_void) -> c_int {
    unsafe {
        let t = now();
        p.write([(t / 1_000_000) as c_long, (t % 1_000_000) as c_long]);
    }
    0
}
unsafe extern "C" fn timespec_get(p: *mut [c_long; 2], base: c_int) -> c_int {
    unsafe { clock_gettime(0, p) };
    base
}
unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    unsafe {
        let w = WORLD.load(SeqCst);
        if w.is_null() || (*w).seed == 0 {
            return core::ptr::null_mut();
        }
        let mut h = 3;
        let mut p = name;
        while *p != 0 {
            h = mix(h ^ *p as u64);
            p = p.add(1);
        }
        const ANSWERS: [&core::ffi::CStr; 6] = [c"", c"0", c"1", c"true", c"C", c"fast"];
        match ask(h) % 8 {
            k @ 0..=5 => ANSWERS[k as usize].as_ptr() as *mut c_char,
            _ => core::ptr::null_mut(),
        }
    }
}
unsafe extern "C" fn getpid() -> c_int {
    unsafe {
        kernel(39);
        1 + (ask(4) % 0x3fffff) as c_int
    }
}
unsafe fn tid() -> u64 {
    let w = WORLD.load(SeqCst);
    if w.is_null() { 0 } else { unsafe { (*w).tid } }
}
unsafe extern "C" fn gettid() -> c_int {
    unsafe {
        kernel(186);
        1 + (ask(4) % 0x3fffff) as c_int + tid() as c_int
    }
}
unsafe extern "C" fn pthread_self() -> usize {
    unsafe { 0x7f00_0000_0000 + (ask(5) as usize & 0xffff_f000) + (tid() as usize) * 0x80_1000 }
}
unsafe extern "C" fn getcpu() -> c_int {
    unsafe {
        let w = WORLD.load(SeqCst);
        if w.is_null() {
            return 0;
        }
        (*w).ticks += 1;
        ((ask(6) + (*w).ticks / 3 + (*w).tid) % 64) as c_int
    }
}
unsafe extern "C" fn getauxval(k: c_long) -> c_long {
    let k = k as u64;
    // an entry that this world does not have reads as zero
    let v = unsafe { ask(0x100 + k) };
    if k == 6 { 4096 } else if v % 4 == 0 { 0 } else { v as c_long }
}
unsafe extern "C" fn sleep(_n: u32) -> c_int {
    unsafe {
        kernel(35);
        now();
    }
    0
}
unsafe extern "C" fn nanosleep(_a: *const c_void, _b: *mut c_void) -> c_int {
    unsafe { sleep(0) }
}
unsafe extern "C" fn sched_yield() -> c_int {
    unsafe { kernel(24) };
    0
}
unsafe extern "C" fn syscall(n: c_long) -> c_long {
    unsafe {
        kernel(n);
        if n == 186 { gettid() as c_long } else { 0 }
    }
}
/// The locks of the C library: the first word is the state, a waiter enters the kernel.
unsafe fn word<'a>(p: *mut u32) -> &'a AtomicU32 {
    unsafe { AtomicU32::from_ptr(p) }
}
unsafe extern "C" fn lock_init(p: *mut u32, _a: *const c_void) -> c_int {
    unsafe { word(p).store(0, SeqCst) };
    0
}
unsafe extern "C" fn trylock(p: *mut u32) -> c_int {
    match unsafe { word(p).compare_exchange(0, 1, SeqCst, SeqCst) } {
        Ok(_) => 0,
        Err(_) => 16,
    }
}
unsafe extern "C" fn lock(p: *mut u32) -> c_int {
    unsafe {
        while trylock(p) != 0 {
            kernel(202);
        }
    }
    0
}
unsafe extern "C" fn unlock(p: *mut u32) -> c_int {
    unsafe { word(p).store(0, SeqCst) };
    0
}
unsafe extern "C" fn once(p: *mut u32, f: extern "C" fn()) -> c_int {
    unsafe {
        loop {
            match word(p).compare_exchange(0, 1, SeqCst, SeqCst) {
                Ok(_) => {
                    f();
                    word(p).store(2, SeqCst);
                    return 0;
                }
                Err(2) => return 0,
                Err(_) => kernel(202),
            }
        }
    }
}
