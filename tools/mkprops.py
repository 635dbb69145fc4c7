#!/usr/bin/env python3
# Generates properties.jsonl (one place to keep ids, titles and statements).
import json
M = "libm/src/math/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ALL = ["libm/src/lib.rs", "libm/src/libm_helper.rs", M + "mod.rs", M + "rem_pio2_large.rs", M + "rem_pio2.rs", M + "lgamma_r.rs", M + "exp2.rs", M + "pow.rs", M + "jn.rs", M + "generic/", M + "arch/"]
NOSTATIC = ("no static mut, no interior-mutable static, no thread-local: every table is a const or an immutable static", M)
LOCAL = ("working arrays of the multi-word range reduction are locals", M + "rem_pio2_large.rs")
OUTS = ("second results (sign of gamma, quotient bits, exponent) are returned, not stored in a global such as C's signgam", M + "lgamma_r.rs, " + M + "remquo.rs, " + M + "frexp.rs")
OBS = ["the public functions of the crate root and the Libm<f32>/Libm<f64> helpers, called through the compiled library"]

p("C01", "Concurrent calls never influence each other",
  "Any number of threads may call any of the library's public functions at the same time, with equal or different arguments and with no synchronisation, each thread in its own floating-point modes. Whatever the interleaving of their instructions, every call returns exactly what the same call returns when it runs alone in the same modes in a fresh process (all returned values, bit for bit, any NaN counting as equal to any NaN).",
  ["schedules", "inputs"], "every interleaving, at machine-instruction granularity, of any number of calls on any number of threads, for all arguments",
  "The unit tests call one function at a time; the parallel test runner samples a few accidental interleavings on the host and would not replay a failure.",
  ALL, [NOSTATIC, LOCAL, OUTS], OBS, [("(none)", "the library is meant to have no mutable state at all", M)])
p("C02", "A call may be interrupted and re-entered at any instruction",
  "If a call is interrupted at any instruction and an interrupt or signal handler on the same thread calls any public function (the same one included, and itself interrupted again), then the handler's calls and, after it returns, the interrupted call all return exactly what they return when run alone. No call may wait for the call it interrupted.",
  ["schedules", "inputs"], "every instruction of every call as the point of interruption, every nesting, every choice of inner call, for all arguments",
  "No test re-enters the library from inside a call: the interrupt point is an instruction, which a test written against the API cannot address.",
  ALL, [NOSTATIC, LOCAL, ("no lock, flag or once-cell is ever held during a call", M)], OBS)
p("C03", "A call abandoned midway leaves nothing behind",
  "If a call is abandoned at any instruction (its thread is killed, or control leaves it by a long jump out of a signal handler) the library stays fully usable. Every later call on that thread, and every concurrent or later call on any other thread, still completes and returns exactly what it returns alone in a fresh process.",
  ["crash_points", "schedules", "inputs"], "every instruction of every call as the point of abandonment, followed by any further calls on any threads",
  "No test abandons a call; ordinary returns always run the whole function, so a half-done update of hidden state is never left behind.",
  ALL, [NOSTATIC, ("nothing to clean up: no lock, allocation, or saved mode that only a normal exit would restore", M)], OBS)
p("C04", "Results do not depend on earlier calls",
  "The result of a call is a function of its arguments alone: after any sequence of earlier calls to any public functions, however long, on the same thread or process, some of them perhaps made in other floating-point modes, a call returns exactly what it returns as the first call of a fresh process.",
  ["histories", "inputs"], "every finite history of calls with all arguments, in every order, including millions of repetitions",
  "Tests check each call against a reference once, in one fixed order; a stale cache, a counter that changes behaviour after many calls, or a table corrupted by a rare argument is only visible to particular later calls.",
  ALL, [NOSTATIC, LOCAL, OUTS], OBS)
p("C05", "Results depend on the arguments only, not on the surroundings",
  "A call returns the same result whatever is left over in dead stack memory, in scratch and vector registers and in the unused upper bits of argument registers, whichever floating-point exception flags are already raised, and wherever stack, code and data are placed in memory. Nor does the result depend on a clock, on random-number or CPU-identification instructions, or on anything else outside the arguments; the default floating-point modes are assumed.",
  ["fault_sequences", "configurations", "inputs"], "every surrounding machine state a caller can legally have in the default floating-point modes, for all arguments",
  "A test runs in the one environment the host happens to give it, nearly always a zeroed or identical one, so reads of uninitialised or ambient state come out the same every time.",
  ALL, [("no uninitialised memory is read; arrays are initialised before use", M + "rem_pio2_large.rs"), ("no floating-point status, clock, address or CPU feature is consulted at run time on this target", M + "arch/mod.rs"), ("the rounding mode and status types are plain values passed around, not the machine's", M + "support/env.rs")], OBS)
p("C06", "Calls leave the caller's machine state as they found it",
  "At every instruction of a call and on return, the rounding mode, exception masks, flush-to-zero and denormal modes and the legacy x87 control word are the caller's, whatever they are, and no exception flag that was already raised is ever cleared. On return the legacy register stack is empty, the direction flag is clear, the registers the calling convention preserves hold their old values, and no memory of the caller outside the result slots it provided has been written.",
  ["inputs", "configurations", "crash_points"], "every call with all arguments, from every legal caller machine state, observed at every instruction",
  "Tests look at returned values only and always run in the default modes; a mode changed inside the call and restored, or leaked on one early-return path, does not show in any returned value they check.",
  ALL, [("soft arithmetic and ordinary instructions only; no control-register writes on this target", M + "arch/mod.rs"), ("rounding mode handled as a value, not by switching the hardware", M + "support/env.rs"), ("bit-exact exception raising through plain arithmetic", M + "support/macros.rs")], OBS)
p("C07", "Every call finishes in a bounded number of its own steps",
  "Every call returns, rather than trapping or panicking, after a bounded number of its own instructions, for all arguments: a fixed bound per function, plus a term linear in the order n for the Bessel functions of order n. It never waits for any other call, so it finishes within that bound also when other calls, on other threads or interrupted beneath it, are stalled for ever or have been killed at any instruction.",
  ["schedules", "fault_sequences", "inputs"], "every argument, every schedule, every set of other callers stalled or killed at every instruction",
  "Tests cannot tell slow from stuck, never stall another caller inside the library, and reach the data-dependent loops (remainders, Bessel recurrences, large range reduction) at a few arguments.",
  [M + "generic/fmod.rs", M + "remquo.rs", M + "jn.rs", M + "jnf.rs", M + "rem_pio2_large.rs", M + "tgamma.rs", M + "support/big.rs"],
  [("loops are bounded by exponent differences or the fixed number of table words", M + "generic/fmod.rs, " + M + "rem_pio2_large.rs"), ("no lock, wait or retry loop", M)], OBS)
p("C08", "No call allocates memory or enters the operating system",
  "For all arguments a call neither requests, resizes nor frees heap memory nor makes any system call. It completes with the same result when every allocation is refused and when kernel entry is impossible.",
  ["fault_sequences", "inputs"], "every call with all arguments, with each allocation and system call made to fail",
  "The test binary links a working allocator and kernel, so a function that allocates or calls the system on a rare path passes all tests; only failing them shows it.",
  ["libm/src/lib.rs", M], [("no_std, no alloc crate, no dependencies", "libm/src/lib.rs"), LOCAL], OBS)
p("C09", "Every call runs in a small fixed amount of stack",
  "For all arguments a call completes normally when only 4 KiB of stack remain below its caller in an optimised build and 16 KiB in an unoptimised one. Stack use does not grow with the arguments: there is no recursion whose depth depends on them.",
  ["fault_sequences", "inputs"], "every call with all arguments, on a stack that ends in an inaccessible page at the limit",
  "Test threads have megabytes of stack; only the interrupt handlers and small embedded stacks of real users notice, and only for the argument that takes the deepest path.",
  ["libm/src/lib.rs", M + "rem_pio2_large.rs", M + "jn.rs", M + "support/big.rs", M + "generic/fmod.rs"],
  [("fixed-size local arrays, loops instead of recursion", M + "rem_pio2_large.rs, " + M + "jn.rs")], OBS)
p("C10", "The exception flags a call raises depend on no other call",
  "Entered with the same arguments, floating-point modes and register contents, a call raises the same set of floating-point exception flags every time: as the first call of a fresh process or after any history of calls, whatever other calls are in progress on other threads or have been interrupted beneath it, after any abandoned calls, whichever flags were raised before, and wherever stack, code and data are placed. A result that is remembered rather than computed still raises its flags.",
  ["schedules", "histories", "crash_points", "inputs"], "every history, interleaving, nesting and abandonment of calls, for all arguments",
  "The tests compare returned values; none reads the flag register, and each call is made once in one order, so flags that are missing from a repeated or a contended call go unnoticed.",
  ALL, [("flags are raised by carrying out the arithmetic in the call itself", M + "support/macros.rs"), NOSTATIC], ["the floating-point status register after every call of a public function"])
p("C11", "Exact operations return the same in every rounding mode",
  "The operations whose exact result is representable involve no rounding, so they return in every rounding mode of the caller, bit for bit, what they return in the default one: floor, ceil, trunc, fabs, copysign, modf, frexp, ilogb, fmod, remainder, remquo, nextafter, the fmin, fmax, fminimum, fmaximum and _num families in every format offered, and scalbn and ldexp whenever the scaled result is zero from zero, infinite from infinite, or a normal number inside the range (neither overflow nor underflow).",
  ["configurations", "fault_sequences", "inputs"], "every rounding mode a caller can have, after any earlier use of the library, for all arguments of the listed operations",
  "The tests run in the default rounding mode only, in which arithmetic tricks such as adding and subtracting a large constant happen to give the exact result.",
  ["libm/src/math/generic/", M + "frexp.rs", M + "modf.rs", M + "ilogb.rs", M + "remainder.rs", M + "remquo.rs", M + "nextafter.rs", M + "arch/mod.rs"],
  [("integer arithmetic on the bit pattern, or floating-point steps that are themselves exact", "libm/src/math/generic/, " + M + "remquo.rs"), ("'the returned value is exact and independent of the current rounding direction mode'", "libm/src/math/generic/scalbn.rs")], OBS)
p("C12", "Every call runs on any processor of its target",
  "Compiled for the baseline of its target (on x86-64: SSE2 and nothing later), every call completes with the same result on a processor that has no instruction beyond this baseline, and on a newer one whose further extensions or wider registers the operating system, hypervisor or enclave has not enabled: for all arguments it executes no instruction that processor and system have not both reported to be usable.",
  ["configurations", "fault_sequences", "inputs"], "every processor model and operating-system support of the target, for all arguments",
  "The tests run on one recent processor under one operating system, where every extension happens to work.",
  [M + "arch/mod.rs", M + "support/macros.rs", "libm/src/math/mod.rs"],
  [("architecture paths are chosen by compile-time target features only", M + "support/macros.rs"), ("portable code everywhere else", M)], OBS)

PURE = "pure function of the arguments"
def na(id, title, statement, over, text, why, files, mech):
    p(id, title, statement, over, text, why, files, mech, OBS)
I = ["inputs"]
na("C20", "Documented accuracy for every argument",
   "Every function's result is within its documented distance, in units in the last place, of the exact mathematical value, for every argument.",
   I, "all arguments of each function (2^32 to 2^256)", "The tests compare with MPFR or musl at sampled arguments.", [M], [("polynomial and table approximations with stated error bounds", M)])
na("C21", "Special arguments give the IEEE 754 / C Annex F results",
   "NaNs, infinities, signed zeros, subnormals and domain edges give the results that IEEE 754 and C's Annex F prescribe, for every combination of operands.",
   I, "all special operand combinations", "Tests list the cases their authors thought of.", [M], [("explicit special-case branches", M)])
na("C22", "sqrt, fma and rounding operations are exactly rounded",
   "Square root and fused multiply-add return the correctly rounded exact value, and ceil, floor, trunc, round, roundeven and rint the exactly specified integer, for every argument in all four formats.",
   I, "all arguments in f16, f32, f64, f128", "Exhaustive only for f16 and, in optional runs, f32.", [M + "generic/sqrt.rs", M + "fma.rs", M + "fma_wide.rs", M + "generic/"], [("integer arithmetic with sticky bits", M + "fma.rs")])
na("C23", "Remainder operations are exact",
   "fmod, remainder and remquo return the exact mathematical remainder with the prescribed sign, and remquo at least the low three bits of the quotient with its sign.",
   I, "all operand pairs", "Pairs are sampled.", [M + "generic/fmod.rs", M + "remquo.rs", M + "remainder.rs"], [("bitwise long division", M + "generic/fmod.rs")])
na("C24", "Minimum, maximum and difference operations follow their standards",
   "fmin, fmax, fminimum, fmaximum and their number variants, and fdim, treat NaN and signed zero exactly as the standard each implements prescribes.",
   I, "all operand pairs", "Pairs are sampled.", [M + "fmin_fmax.rs", M + "fminimum_fmaximum.rs", M + "fminimum_fmaximum_num.rs", M + "generic/"], [("explicit comparison order", M + "generic/")])
na("C25", "Sign operations touch the sign bit only",
   "fabs and copysign change nothing but the sign bit, for every value including NaN with any payload.",
   I, "all bit patterns", "Patterns are sampled.", [M + "generic/fabs.rs", M + "generic/copysign.rs"], [("bit masks", M + "generic/")])
na("C26", "Decompositions reassemble",
   "frexp with ldexp, modf with addition, and scalbn with its negative reassemble the argument exactly wherever representable; ilogb agrees with frexp.",
   I, "all arguments and exponents", "Arguments are sampled.", [M + "frexp.rs", M + "modf.rs", M + "generic/scalbn.rs", M + "ilogb.rs"], [("exponent field arithmetic", M)])
na("C27", "Paired entry points agree",
   "sincos agrees with sin and cos, lgamma_r with lgamma, and every Libm<T> helper with the plain function of its type.",
   I, "all arguments", "The pairs are tested separately against a reference.", [M + "sincos.rs", M + "lgamma_r.rs", "libm/src/libm_helper.rs"], [("shared kernels and delegation", "libm/src/libm_helper.rs")])
na("C28", "nextafter steps to the adjacent value",
   "nextafter returns the neighbouring representable value in the given direction for every pair, across zero, subnormals and infinity.",
   I, "all pairs", "Pairs are sampled.", [M + "nextafter.rs", M + "nextafterf.rs"], [("integer step on the bit pattern", M + "nextafter.rs")])
na("C29", "Symmetry, monotonicity and range hold",
   "Odd and even functions are exactly so, results stay in the mathematical range of the function, and functions that are weakly monotonic stay so between neighbouring arguments to within their error bound.",
   I, "all arguments and neighbouring pairs", "Not tested as relations.", [M], [("argument reduction to a symmetric interval", M)])
na("C30", "Every build configuration gives equivalent results",
   "Architecture-specific, portable and intrinsic-based builds agree bit for bit on exactly rounded operations and within the error bound elsewhere.",
   ["configurations", "inputs"], "all feature and target combinations, all arguments", "Each configuration is tested separately on samples.", [M + "arch/", M + "support/macros.rs", "libm/src/math/mod.rs"], [("selection macros", M + "support/macros.rs")])
na("C31", "No argument makes a function panic",
   "No function panics for any argument, with overflow checks and debug assertions on.",
   I, "all arguments", "Arguments are sampled.", [M], [("wrapping arithmetic, checked table indices", M)])
na("C32", "Hexadecimal float literals parse exactly",
   "The literal parser returns the correctly rounded value and status for every string it accepts and rejects every malformed one.",
   I, "all strings", "A table of strings.", [M + "support/hex_float.rs"], [("digit accumulation with sticky bit", M + "support/hex_float.rs")])
na("C33", "Wide integer arithmetic is exact",
   "The 256-bit helper integers add, multiply and shift exactly.",
   I, "all operands", "Operands are sampled.", [M + "support/big.rs"], [("limb arithmetic", M + "support/big.rs")])
na("C34", "The source can be embedded in compiler-builtins",
   "The crate builds for every target without std, alloc, dependencies or lang items that compiler-builtins lacks, and without recursing into the symbols it defines.",
   ["configurations"], "all targets", "Continuous integration builds a list of targets.", ["libm/src/lib.rs", "libm/Cargo.toml"], [("no_std and feature gates", "libm/src/lib.rs")])
na("C35", "The test harness derives its cases from its seed only",
   "The library's own test generators produce the same inputs for the same seed and configuration, cover what they announce, and the parallel runner runs every case exactly once.",
   ["configurations", "histories"], "all seeds, iteration counts and worker counts", "Nothing tests the harness itself.", ["crates/libm-test/src/"], [("seeded generators, sharded iteration", "crates/libm-test/src/generate/")])
with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
