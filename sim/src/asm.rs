//! Machine-level entry into the code under test, and cooperative stack switching.
use std::arch::global_asm;

#[repr(C, align(16))]
#[derive(Clone, Copy)]
pub struct Invoke {
    pub f: u64,             // 0
    pub n: u64,             // 8
    pub out: u64,           // 16
    pub stack_sub: u64,     // 24: caller frame filled with the canary, bytes, multiple of 16
    pub x: [u128; 3],       // 32
    pub dirty_src: u64,     // 80
    pub dirty_len: u64,     // 88: bytes written below the stack pointer before the call
    pub mxcsr_in: u32,      // 96
    pub cw_in: u16,         // 100
    pub sw_in: u16,         // 102: x87 exception flags raised at entry (with FL_SW)
    pub flags: u64,         // 104: 1 dirty vector regs, 2 measure tsc, 4 store x87 environment, 8 raise x87 flags
    pub vec_src: u64,       // 112
    pub saved_rsp: u64,     // 120
    pub xmm0: u128,         // 128
    pub rax: u64,           // 144
    pub mxcsr_out: u32,     // 152
    pub cw_out: u16,        // 156
    pub sw_out: u16,        // 158
    pub rflags_out: u64,    // 160
    pub cs: [u64; 6],       // 168
    pub tsc: u64,           // 216
    pub canary_bad: u64,    // 224
    pub crash: u64,         // 232
    pub fenv: [u32; 8],     // 240
    pub gpr: [u64; 6],      // 272: rax rcx rdx r8 r9 r10 at entry
    pub ef: u64,            // 320: arithmetic flags at entry, as for sahf
    pub _p1: u64,           // 328
    pub cs_in: [u64; 6],    // 336: callee-saved registers at entry (rbx rbp r12 r13 r14 r15)
}
pub const FL_VEC: u64 = 1;
pub const FL_TSC: u64 = 2;
pub const FL_FENV: u64 = 4;
pub const FL_SW: u64 = 8;
/// Values the callee-saved registers hold at entry unless a variation says otherwise.
pub const CS_MAGIC: [u64; 6] = [
    0x1B1B_0001_5AFE_0001,
    0x2B2B_0002_5AFE_0002,
    0x3C3C_0003_5AFE_0003,
    0x4D4D_0004_5AFE_0004,
    0x5E5E_0005_5AFE_0005,
    0x6F6F_0006_5AFE_0006,
];
pub const CANARY: u64 = 0xC0FF_EE11_D00D_FEED;

global_asm!(
    ".text",
    ".p2align 4",
    ".globl sim_invoke",
    "sim_invoke:",
    "push rbx", "push rbp", "push r12", "push r13", "push r14", "push r15",
    "sub rsp, 24",
    "mov [rdi+120], rsp",
    // caller frame canary
    "mov rdx, rdi",
    "sub rsp, [rdx+24]",
    "mov rcx, [rdx+24]",
    "shr rcx, 3",
    "jz 2f",
    "mov rdi, rsp",
    "mov rax, {canary}",
    "cld",
    "rep stosq",
    "2:",
    "push rdx", "push rdx",
    // dirty the dead stack below
    "mov rcx, [rdx+88]",
    "test rcx, rcx",
    "jz 3f",
    "mov rdi, rsp",
    "sub rdi, rcx",
    "mov rsi, [rdx+80]",
    "shr rcx, 3",
    "cld",
    "rep movsq",
    "3:",
    "test qword ptr [rdx+104], 1",
    "jz 4f",
    "mov rax, [rdx+112]",
    "vmovups ymm0, [rax]", "vmovups ymm1, [rax+32]", "vmovups ymm2, [rax+64]", "vmovups ymm3, [rax+96]",
    "vmovups ymm4, [rax+128]", "vmovups ymm5, [rax+160]", "vmovups ymm6, [rax+192]", "vmovups ymm7, [rax+224]",
    "vmovups ymm8, [rax+256]", "vmovups ymm9, [rax+288]", "vmovups ymm10, [rax+320]", "vmovups ymm11, [rax+352]",
    "vmovups ymm12, [rax+384]", "vmovups ymm13, [rax+416]", "vmovups ymm14, [rax+448]", "vmovups ymm15, [rax+480]",
    "4:",
    "test qword ptr [rdx+104], 2",
    "jz 5f",
    "mov r11, rdx",
    "lfence",
    "rdtsc",
    "shl rdx, 32",
    "or rax, rdx",
    "mov rdx, r11",
    "mov [rdx+216], rax",
    "5:",
    "mov r11, [rdx]",
    "movups xmm0, [rdx+32]", "movups xmm1, [rdx+48]", "movups xmm2, [rdx+64]",
    "mov rdi, [rdx+8]", "mov rsi, [rdx+16]",
    "mov rcx, [rdx+280]",
    "mov r8, [rdx+296]", "mov r9, [rdx+304]", "mov r10, [rdx+312]",
    "mov rbx, [rdx+336]", "mov rbp, [rdx+344]", "mov r12, [rdx+352]", "mov r13, [rdx+360]", "mov r14, [rdx+368]", "mov r15, [rdx+376]",
    "test qword ptr [rdx+104], 8",
    "jz 11f",
    "fnstenv [rdx+240]",
    "push rax",
    "movzx eax, word ptr [rdx+102]",
    "or [rdx+244], eax",
    "pop rax",
    "fldenv [rdx+240]",
    "11:",
    "fldcw [rdx+100]",
    "ldmxcsr [rdx+96]",
    "mov rax, [rdx+320]",
    "sahf",
    "mov rax, [rdx+272]",
    "mov rdx, [rdx+288]",
    "call r11",
    ".globl sim_after_call",
    "sim_after_call:",
    "mov rdi, [rsp]",
    "stmxcsr [rdi+152]",
    "fnstcw [rdi+156]",
    "fnstsw [rdi+158]",
    "ldmxcsr [rip+sim_mxcsr_default]",
    "mov [rdi+144], rax",
    "movups [rdi+128], xmm0",
    "pushfq",
    "pop qword ptr [rdi+160]",
    "cld",
    "mov [rdi+168], rbx", "mov [rdi+176], rbp", "mov [rdi+184], r12", "mov [rdi+192], r13", "mov [rdi+200], r14", "mov [rdi+208], r15",
    "test qword ptr [rdi+104], 2",
    "jz 6f",
    "lfence",
    "rdtsc",
    "shl rdx, 32",
    "or rax, rdx",
    "sub rax, [rdi+216]",
    "mov [rdi+216], rax",
    "6:",
    "test qword ptr [rdi+104], 4",
    "jz 7f",
    "fnstenv [rdi+240]",
    "fldenv [rdi+240]",
    "7:",
    "mov rdx, rdi",
    "mov rcx, [rdx+24]",
    "shr rcx, 3",
    "jz 8f",
    "lea rdi, [rsp+16]",
    "mov rax, {canary}",
    "repe scasq",
    "je 8f",
    "mov qword ptr [rdx+224], 1",
    "8:",
    "mov rdi, rdx",
    "jmp 9f",
    ".globl sim_recover",
    "sim_recover:",
    "cld",
    "vzeroupper",
    "9:",
    "test word ptr [rdi+158], 0x383f",
    "jz 10f",
    "fninit",
    "10:",
    "ldmxcsr [rip+sim_mxcsr_default]",
    "fldcw [rip+sim_cw_default]",
    "mov rsp, [rdi+120]",
    "add rsp, 24",
    "pop r15", "pop r14", "pop r13", "pop r12", "pop rbp", "pop rbx",
    "ret",
    ".globl sim_switch",
    ".p2align 4",
    "sim_switch:",
    "push rbx", "push rbp", "push r12", "push r13", "push r14", "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15", "pop r14", "pop r13", "pop r12", "pop rbp", "pop rbx",
    "ret",
    ".globl sim_pause",
    "sim_pause:",
    "int3",
    "ud2",
    ".globl sim_restorer",
    "sim_restorer:",
    "mov eax, 15",
    "syscall",
    "ud2",
    ".globl sim_restorer_end",
    "sim_restorer_end:",
    ".globl sim_fiber_entry",
    "sim_fiber_entry:",
    "call {fiber_main}",
    "ud2",
    ".p2align 3",
    "sim_mxcsr_default: .long 0x1f80",
    "sim_cw_default: .word 0x37f",
    ".p2align 4",
    canary = const CANARY,
    fiber_main = sym crate::engine::fiber_main,
);

#[allow(improper_ctypes)]
extern "C" {
    pub fn sim_invoke(inv: *mut Invoke);
    pub fn sim_recover();
    pub fn sim_switch(save: *mut u64, to: u64);
    pub fn sim_pause();
    pub fn sim_restorer();
    pub fn sim_restorer_end();
    pub fn sim_fiber_entry();
}
