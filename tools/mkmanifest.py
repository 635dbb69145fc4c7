#!/usr/bin/env python3
"""Generates MANIFEST.json from properties.jsonl."""
import json
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
T = {
 "C01": ("deterministic simulation: seeded instruction-level thread scheduler over the compiled library", "Seeded sampling of interleavings (not exhaustive) at machine-instruction granularity, with stores delayed as the store buffers of x86-64 may; no weaker memory model. Oracle is the same call alone from a pristine image. Scheduling points: any instruction, and every access to mutable static memory."),
 "C02": ("deterministic simulation: seeded interrupt injection at chosen instructions, nested handlers", "Seeded sampling of interrupt points, nestings and inner calls on the real machine code; oracle is the same call alone. Interrupts are delivered to one simulated thread at any instruction."),
 "C03": ("deterministic simulation: seeded kill and long-jump injection at chosen instructions", "Seeded sampling of abandonment points; static memory survives, stack and registers of the victim do not. Oracle is the same call alone from a pristine image."),
 "C04": ("deterministic simulation: seeded call histories against a fresh-process reference", "Seeded histories of up to 2^17 calls per operation (2^25 and more for operations that touch mutable memory); machine state carried from call to call."),
 "C05": ("deterministic simulation: seeded perturbation of every ambient input of a call", "Seeded sampling of operands and surroundings: dead stack, registers, raised flags, placement, clock, cpuid and random-number answers; oracle is the clean run. Default floating-point modes only (C11 covers rounding modes)."),
 "C06": ("deterministic simulation: seeded caller machine states, state checked at every simulated instruction", "Seeded sampling of caller states and operands; control state observed before every instruction in a part of the runs and on return in all."),
 "C07": ("deterministic simulation: seeded stall and kill injection, bounded-progress and instruction-budget checks", "Stalled and killed peers at sampled instructions, also in processes with a past; a trap or panic counts as not returning; progress judged by a spin limit and instruction budgets six times the measured worst case."),
 "C08": ("deterministic simulation: allocator refusal and kernel-entry trapping on every simulated call", "Seeded sampling of operands in five configurations; allocator replaced by a counting, refusing one; system calls trapped by syscall user dispatch."),
 "C10": ("deterministic simulation: seeded schedules, interrupts, kills and histories, exception flags compared with the call alone", "Seeded sampling as for C01 to C05, judged on the flags of the status register; vector registers hold the same bytes at every entry, because compiled code may compute on their unused lanes. x86-64 flags only."),
 "C11": ("deterministic simulation: seeded rounding-mode changes of the caller injected around every exact operation", "Seeded sampling of operands (every branch's operands included) in the three other rounding modes, five configurations, also in used processes; oracle is the same call in the default mode."),
 "C12": ("deterministic simulation: undefined-instruction faults injected by simulated processors and operating systems", "Seeded sampling of operands on four simulated processors (baseline only, extensions without system support, SSE state only, identification cut short); every instruction beyond the baseline in the compiled module is found by disassembly and faults when the simulated processor lacks it; identification instructions are answered accordingly. x86-64 only."),
 "C09": ("deterministic simulation: stack exhaustion injected at the stated limit", "Seeded sampling of operands in five configurations on a stack that ends in an inaccessible page exactly at the limit."),
}
WHY = {
 "C35": "the harness is test code outside the library: what it promises concerns the tests, its randomness is already a fixed seed, and its files are test files that no finding or repair may touch",
 "C34": "a property of builds, with no execution to schedule or fault to inject; only one target is installed here",
 "C30": "compares pure functions across builds: input generation, nothing nondeterministic to control (each configuration is nevertheless simulated for C01 to C12)",
}
PURE = "a pure function of its arguments: no schedule, time, I/O, fault or history enters it, so deciding it would be input generation against a numerical oracle, not simulation"
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: the simulator controls the compiled machine code", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Every check builds five configurations of /repo/libm as shared objects and runs them under the simulator in /verif/sim. Replay a reported violation with bin/replay.sh FILE. Known findings: known-findings.txt."}
for p in props:
    i = p["id"]
    if i in T:
        m["checks"].append({"property": i, "quick_cmd": f"bash bin/check.sh {i} quick", "thorough_cmd": f"bash bin/check.sh {i} thorough", "evidence_file": f"evidence/{i}.json", "technique": T[i][0], "level": "exploration", "level_note": T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": WHY.get(i, PURE)})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
