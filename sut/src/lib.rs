//! System under test: every public libm operation behind one uniform `extern "C"` shape, built as
//! a shared object that the simulator loads. Nothing here has state except the allocator
//! bookkeeping, which only code under test that allocates (or a panic) ever touches.
#![feature(f16, f128, thread_local, alloc_error_hook)]
#![allow(clippy::missing_safety_doc)]

mod world;

use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

const ARENA: usize = 64 * 1024;
#[repr(align(64))]
struct Mem(core::cell::UnsafeCell<[u8; ARENA]>);
unsafe impl Sync for Mem {}
static MEM: Mem = Mem(core::cell::UnsafeCell::new([0; ARENA]));
static USED: AtomicUsize = AtomicUsize::new(0);
/// [0] allocations asked for, [1] allocation number from which the simulator makes them fail.
static STATE: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(usize::MAX)];

struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let k = STATE[0].fetch_add(1, SeqCst);
        if k >= STATE[1].load(SeqCst) {
            return core::ptr::null_mut();
        }
        loop {
            let u = USED.load(SeqCst);
            let s = (u + l.align() - 1) & !(l.align() - 1);
            if s + l.size() > ARENA {
                return core::ptr::null_mut();
            }
            if USED.compare_exchange(u, s + l.size(), SeqCst, SeqCst).is_ok() {
                return unsafe { (MEM.0.get() as *mut u8).add(s) };
            }
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        // Only the most recent block can be handed back.
        let s = p as usize - MEM.0.get() as usize;
        let _ = USED.compare_exchange(s + l.size(), s, SeqCst, SeqCst);
    }
}
#[global_allocator]
static GA: A = A;

// The C allocator, for code that reaches for it directly: same arena, same bookkeeping. Hidden, so
// that only this module is affected.
core::arch::global_asm!(
    ".macro sutalias name, to",
    ".globl \\name",
    ".hidden \\name",
    "\\name: jmp \\to",
    ".endm",
    "sutalias malloc, {m}",
    "sutalias calloc, {c}",
    "sutalias realloc, {r}",
    "sutalias reallocarray, {ra}",
    "sutalias free, {f}",
    "sutalias aligned_alloc, {al}",
    "sutalias memalign, {al}",
    "sutalias posix_memalign, {pm}",
    "sutalias valloc, {m}",
    m = sym c_malloc,
    c = sym c_calloc,
    r = sym c_realloc,
    ra = sym c_reallocarray,
    f = sym c_free,
    al = sym c_aligned,
    pm = sym c_posix_memalign,
);
unsafe fn c_take(align: usize, n: usize) -> *mut u8 {
    let a = align.max(16);
    let Ok(l) = Layout::from_size_align(n.saturating_add(a), a) else { return core::ptr::null_mut() };
    let p = unsafe { GA.alloc(l) };
    if p.is_null() {
        return p;
    }
    unsafe {
        (p.add(a) as *mut usize).sub(1).write(n);
        p.add(a)
    }
}
unsafe extern "C" fn c_malloc(n: usize) -> *mut u8 {
    unsafe { c_take(16, n) }
}
unsafe extern "C" fn c_calloc(n: usize, k: usize) -> *mut u8 {
    unsafe {
        let p = c_take(16, n.saturating_mul(k));
        if !p.is_null() {
            core::ptr::write_bytes(p, 0, n.saturating_mul(k));
        }
        p
    }
}
unsafe extern "C" fn c_realloc(p: *mut u8, n: usize) -> *mut u8 {
    unsafe {
        let q = c_take(16, n);
        if !q.is_null() && !p.is_null() {
            core::ptr::copy_nonoverlapping(p, q, n.min((p as *const usize).sub(1).read()));
        }
        q
    }
}
unsafe extern "C" fn c_reallocarray(p: *mut u8, n: usize, k: usize) -> *mut u8 {
    unsafe { c_realloc(p, n.saturating_mul(k)) }
}
unsafe extern "C" fn c_free(p: *mut u8) {
    STATE[0].fetch_add(1, SeqCst);
    if !p.is_null() {
        // hand the most recent block back
        unsafe {
            let n = (p as *const usize).sub(1).read();
            let s = p as usize - 16 - MEM.0.get() as usize;
            let _ = USED.compare_exchange(s + n + 16, s, SeqCst, SeqCst);
        }
    }
}
unsafe extern "C" fn c_aligned(a: usize, n: usize) -> *mut u8 {
    unsafe { c_take(a, n) }
}
unsafe extern "C" fn c_posix_memalign(p: *mut *mut u8, a: usize, n: usize) -> i32 {
    unsafe {
        let q = c_take(a, n);
        if q.is_null() {
            return 12;
        }
        p.write(q);
        0
    }
}

#[thread_local]
static mut TLS_ANCHOR: u64 = 0x5157_4f52_4c44;

/// Called once per loaded copy, before the pristine image is recorded.
#[no_mangle]
pub extern "C" fn sut_init(world: *mut world::World) -> usize {
    world::WORLD.store(world, SeqCst);
    std::panic::set_hook(Box::new(|_| unsafe { core::arch::asm!("ud2", options(noreturn)) }));
    std::alloc::set_alloc_error_hook(|_| unsafe { core::arch::asm!("ud2", options(noreturn)) });
    unsafe { core::ptr::read_volatile(&raw const TLS_ANCHOR) };
    &raw const TLS_ANCHOR as usize
}
/// The calling thread's error number.
#[no_mangle]
pub extern "C" fn sut_errno() -> *mut i32 {
    unsafe { world::errno_location() }
}
#[no_mangle]
pub extern "C" fn sut_alloc_state() -> *const AtomicUsize {
    STATE.as_ptr()
}

#[repr(C)]
pub struct OpDesc {
    pub name: *const u8,
    pub name_len: usize,
    pub f: usize,
    /// number of float operands, their width in bytes
    pub nf: u8,
    pub fw: u8,
    /// takes an i32 operand
    pub has_int: u8,
    /// 0 nothing, 1 float, 2 i32
    pub ret: u8,
    /// 0 nothing, 1 one float, 2 one i32, 3 two floats
    pub out: u8,
}
unsafe impl Sync for OpDesc {}

#[inline(always)]
fn st<T>(p: *mut u8, off: usize, v: T) {
    unsafe { core::ptr::write_unaligned(p.add(off) as *mut T, v) }
}

// Uniform shape: rdi = i32 operand, rsi = out buffer, xmm0.. = float operands.
macro_rules! ops {
    (@one $label:expr, $f:expr, $t:ty, U) => {{
        extern "C" fn w(_n: i32, _o: *mut u8, x: $t) -> $t { $f(x) }
        d($label, w as *const () as usize, 1, size_of::<$t>(), 0, 1, 0)
    }};
    (@one $label:expr, $f:expr, $t:ty, B) => {{
        extern "C" fn w(_n: i32, _o: *mut u8, x: $t, y: $t) -> $t { $f(x, y) }
        d($label, w as *const () as usize, 2, size_of::<$t>(), 0, 1, 0)
    }};
    (@one $label:expr, $f:expr, $t:ty, T) => {{
        extern "C" fn w(_n: i32, _o: *mut u8, x: $t, y: $t, z: $t) -> $t { $f(x, y, z) }
        d($label, w as *const () as usize, 3, size_of::<$t>(), 0, 1, 0)
    }};
    (@one $label:expr, $f:expr, $t:ty, UI) => {{
        extern "C" fn w(_n: i32, _o: *mut u8, x: $t) -> i32 { $f(x) }
        d($label, w as *const () as usize, 1, size_of::<$t>(), 0, 2, 0)
    }};
    (@one $label:expr, $f:expr, $t:ty, IF) => {{
        extern "C" fn w(n: i32, _o: *mut u8, x: $t) -> $t { $f(n, x) }
        d($label, w as *const () as usize, 1, size_of::<$t>(), 1, 1, 0)
    }};
    (@one $label:expr, $f:expr, $t:ty, FI) => {{
        extern "C" fn w(n: i32, _o: *mut u8, x: $t) -> $t { $f(x, n) }
        d($label, w as *const () as usize, 1, size_of::<$t>(), 1, 1, 0)
    }};
    // -> (f, f) with both in the out buffer
    (@one $label:expr, $f:expr, $t:ty, UFF) => {{
        extern "C" fn w(_n: i32, o: *mut u8, x: $t) { let (a, b) = $f(x); st(o, 0, a); st(o, 16, b); }
        d($label, w as *const () as usize, 1, size_of::<$t>(), 0, 0, 3)
    }};
    (@one $label:expr, $f:expr, $t:ty, UFI) => {{
        extern "C" fn w(_n: i32, o: *mut u8, x: $t) -> $t { let (a, b): ($t, i32) = $f(x); st(o, 0, b); a }
        d($label, w as *const () as usize, 1, size_of::<$t>(), 0, 1, 2)
    }};
    (@one $label:expr, $f:expr, $t:ty, BFI) => {{
        extern "C" fn w(_n: i32, o: *mut u8, x: $t, y: $t) -> $t { let (a, b): ($t, i32) = $f(x, y); st(o, 0, b); a }
        d($label, w as *const () as usize, 2, size_of::<$t>(), 0, 1, 2)
    }};
    ($v:ident; $($cls:ident $t:ident: $($n:ident)*;)*) => {
        $($($v.push(ops!(@one stringify!($n), libm::$n, $t, $cls));)*)*
    };
}
macro_rules! helper_ops {
    ($v:ident; $($cls:ident $t:ident: $($n:ident)*;)*) => {
        $($($v.push(ops!(@one concat!("Libm<", stringify!($t), ">::", stringify!($n)), libm::Libm::<$t>::$n, $t, $cls));)*)*
    };
}

fn d(name: &'static str, f: usize, nf: u8, fw: usize, has_int: u8, ret: u8, out: u8) -> OpDesc {
    OpDesc { name: name.as_ptr(), name_len: name.len(), f, nf, fw: fw as u8, has_int, ret, out }
}

/// Fills `buf` (capacity `cap`) with the operation table, returns how many there are.
#[no_mangle]
pub unsafe extern "C" fn sut_ops(buf: *mut OpDesc, cap: usize) -> usize {
    let mut v: Vec<OpDesc> = Vec::with_capacity(400);
    ops! { v;
        U f16: ceilf16 fabsf16 floorf16 rintf16 roundevenf16 roundf16 sqrtf16 truncf16;
        U f32: acosf acoshf asinf asinhf atanf atanhf cbrtf ceilf cosf coshf erfcf erff exp10f exp2f expf
            expm1f fabsf floorf j0f j1f lgammaf log10f log1pf log2f logf rintf roundevenf roundf sinf sinhf
            sqrtf tanf tanhf tgammaf truncf y0f y1f;
        U f64: acos acosh asin asinh atan atanh cbrt ceil cos cosh erf erfc exp exp10 exp2 expm1 fabs floor
            j0 j1 lgamma log log10 log1p log2 rint round roundeven sin sinh sqrt tan tanh tgamma trunc y0 y1;
        U f128: ceilf128 fabsf128 floorf128 rintf128 roundevenf128 roundf128 sqrtf128 truncf128;
        B f16: copysignf16 fdimf16 fmaxf16 fmaximum_numf16 fmaximumf16 fminf16 fminimum_numf16 fminimumf16 fmodf16;
        B f32: atan2f copysignf fdimf fmaxf fmaximum_numf fmaximumf fminf fminimum_numf fminimumf fmodf hypotf
            nextafterf powf remainderf;
        B f64: atan2 copysign fdim fmax fmaximum fmaximum_num fmin fminimum fminimum_num fmod hypot nextafter
            pow remainder;
        B f128: copysignf128 fdimf128 fmaxf128 fmaximum_numf128 fmaximumf128 fminf128 fminimum_numf128
            fminimumf128 fmodf128;
        T f32: fmaf;
        T f64: fma;
        T f128: fmaf128;
        UI f32: ilogbf;
        UI f64: ilogb;
        IF f32: jnf ynf;
        IF f64: jn yn;
        FI f16: ldexpf16 scalbnf16;
        FI f32: ldexpf scalbnf;
        FI f64: ldexp scalbn;
        FI f128: ldexpf128 scalbnf128;
        UFF f32: modff sincosf;
        UFF f64: modf sincos;
        UFI f32: frexpf lgammaf_r;
        UFI f64: frexp lgamma_r;
        BFI f32: remquof;
        BFI f64: remquo;
    }
    helper_ops! { v;
        U f32: acos acosh asin asinh atan atanh cbrt ceil cos cosh erf erfc exp exp10 exp2 expm1 fabs floor
            j0 j1 lgamma log log10 log1p log2 rint round roundeven sin sinh sqrt tan tanh tgamma trunc y0 y1;
        U f64: acos acosh asin asinh atan atanh cbrt ceil cos cosh erf erfc exp exp10 exp2 expm1 fabs floor
            j0 j1 lgamma log log10 log1p log2 rint round sin sinh sqrt tan tanh tgamma trunc y0 y1;
        B f32: atan2 copysign fdim fmax fmin fmod hypot nextafter pow remainder;
        B f64: atan2 copysign fdim fmax fmaximum fmaximum_num fmin fminimum fminimum_num fmod hypot nextafter
            pow remainder;
        T f32: fma;
        T f64: fma;
        T f128: fma;
        UI f32: ilogb;
        UI f64: ilogb;
        IF f32: jn yn;
        IF f64: jn yn;
        FI f32: ldexp scalbn;
        FI f64: ldexp scalbn;
        UFF f32: modf sincos;
        UFF f64: modf sincos;
        UFI f32: frexp lgamma_r;
        UFI f64: frexp lgamma_r;
        BFI f32: remquo;
        BFI f64: remquo;
    }
    let n = v.len();
    for (i, o) in v.into_iter().enumerate() {
        if i < cap {
            unsafe { buf.add(i).write(o) };
        }
    }
    n
}

// ---------------------------------------------------------------- coverage build (feature "cov")
// Used only to find operands worth simulating: which code an operand reaches, and what it is
// compared with on the way. No verdict comes from this build.
#[cfg(feature = "cov")]
mod cov {
    use core::arch::global_asm;
    pub const CAP: usize = 4096;
    static mut SUT_COV_LOG: [u64; 3 * CAP] = [0; 3 * CAP];
    static mut SUT_COV_POS: u64 = 0;
    static mut SUT_COV_RANGE: [u64; 4] = [0; 4];
    // One log entry per compare: return address, left, right.
    global_asm!(
        ".macro sutcmp name, ext_a, ext_b",
        ".globl \\name",
        ".hidden \\name",
        "\\name:",
        "\\ext_a",
        "\\ext_b",
        "jmp sut_cov_log",
        ".endm",
        "sut_cov_log:",
        "mov rax, [rip + {pos}]",
        "cmp rax, {cap}",
        "jae 1f",
        "lea rdx, [rax + rax*2]",
        "lea rcx, [rip + {log}]",
        "mov r8, [rsp]",
        "mov [rcx + rdx*8], r8",
        "mov [rcx + rdx*8 + 8], rdi",
        "mov [rcx + rdx*8 + 16], rsi",
        "inc rax",
        "mov [rip + {pos}], rax",
        "1: ret",
        "sutcmp __sanitizer_cov_trace_cmp1, \"movzx edi, dil\", \"movzx esi, sil\"",
        "sutcmp __sanitizer_cov_trace_const_cmp1, \"movzx edi, dil\", \"movzx esi, sil\"",
        "sutcmp __sanitizer_cov_trace_cmp2, \"movzx edi, di\", \"movzx esi, si\"",
        "sutcmp __sanitizer_cov_trace_const_cmp2, \"movzx edi, di\", \"movzx esi, si\"",
        "sutcmp __sanitizer_cov_trace_cmp4, \"movsxd rdi, edi\", \"movsxd rsi, esi\"",
        "sutcmp __sanitizer_cov_trace_const_cmp4, \"movsxd rdi, edi\", \"movsxd rsi, esi\"",
        "sutcmp __sanitizer_cov_trace_cmp8, \"nop\", \"nop\"",
        "sutcmp __sanitizer_cov_trace_const_cmp8, \"nop\", \"nop\"",
        // switch: value, table {{count, bits, values...}}: one entry per value, at most eight
        ".globl __sanitizer_cov_trace_switch",
        ".hidden __sanitizer_cov_trace_switch",
        "__sanitizer_cov_trace_switch:",
        "mov r9, rsi",
        "mov r10, [r9]",
        "xor r11d, r11d",
        "2: cmp r11, r10",
        "jae 3f",
        "cmp r11, 8",
        "jae 3f",
        "mov rsi, [r9 + r11*8 + 16]",
        "mov rax, [rip + {pos}]",
        "cmp rax, {cap}",
        "jae 3f",
        "lea rdx, [rax + rax*2]",
        "lea rcx, [rip + {log}]",
        "mov r8, [rsp]",
        "add r8, r11",
        "mov [rcx + rdx*8], r8",
        "mov [rcx + rdx*8 + 8], rdi",
        "mov [rcx + rdx*8 + 16], rsi",
        "inc rax",
        "mov [rip + {pos}], rax",
        "inc r11",
        "jmp 2b",
        "3: ret",
        ".globl __sanitizer_cov_8bit_counters_init",
        ".hidden __sanitizer_cov_8bit_counters_init",
        "__sanitizer_cov_8bit_counters_init:",
        "mov [rip + {range}], rdi",
        "mov [rip + {range} + 8], rsi",
        "ret",
        ".globl __sanitizer_cov_pcs_init",
        ".hidden __sanitizer_cov_pcs_init",
        "__sanitizer_cov_pcs_init:",
        "mov [rip + {range} + 16], rdi",
        "mov [rip + {range} + 24], rsi",
        "ret",
        pos = sym SUT_COV_POS,
        log = sym SUT_COV_LOG,
        range = sym SUT_COV_RANGE,
        cap = const CAP,
    );
    /// counters begin, counters end, log, log position, code address table, log capacity
    #[no_mangle]
    pub extern "C" fn sut_cov(k: usize) -> u64 {
        unsafe {
            match k {
                0 => SUT_COV_RANGE[0],
                1 => SUT_COV_RANGE[1],
                2 => &raw const SUT_COV_LOG as u64,
                3 => &raw const SUT_COV_POS as u64,
                4 => SUT_COV_RANGE[2],
                _ => CAP as u64,
            }
        }
    }
}
