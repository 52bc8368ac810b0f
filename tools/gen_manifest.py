#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(os.path.join(here,"..","properties.jsonl"))]
ORACLE={
 "model":"lockstep reference model of the 68000 written from the manual, compared after every step (registers, memory, bus log, vectors)",
}
T="deterministic simulation with fault injection: seeded search over instruction streams, request schedules and bus faults; "
tech={
 "C01":T+"lockstep refinement against a reference model",
 "C02":T+"refused and torn bus accesses at every access position; lockstep model with a relaxed post-state for the aborted instruction",
 "C03":T+"misaligned pointers, stacks and program counters; bus invariant and lockstep model",
 "C04":T+"interrupt arrival schedules against masks; lockstep model of acceptance",
 "C05":T+"bursts of simultaneous requests; conservation (every request taken exactly once) over the observed history",
 "C06":T+"simultaneous exceptions with faults during stacking; partial-order check of the observed stacking order",
 "C07":T+"interrupt arrival before, at and after STOP; lockstep model and bounded liveness",
 "C08":T+"reset requested at arbitrary instants; lockstep model",
 "C09":T+"nested exception entry and return on both stack formats; byte-exact frame oracle",
 "C10":T+"user-mode streams under interrupts and faults; privilege invariants and lockstep model",
 "C11":T+"trace bit under interrupts and faults; per-instruction count of trace exceptions",
 "C12":T+"random splits and mixes of the run loops; refinement against single steps",
 "C13":T+"plain and disassembling twins in lockstep under identical faults",
 "C14":T+"twin cores driven through Rust and through the C functions under identical callback refusals",
 "C15":T+"clones, interleaved neighbour cores and re-execution alone on another thread, compared step by step",
 "C16":T+"slice-memory twins of a simulated RAM and direct probes at the edges of slices of all lengths",
 "C17":T+"hostile instruction streams and state; panics, aborts, hangs and unbounded steps detected from outside the process",
 "C18":T+"lockstep timing model per instruction and exception, under interrupts and faults",
 "C19":T+"random interrupt schedules over a program, compared boundary by boundary with its uninterrupted run; handler counts after draining",
 "C24":T+"the host decodes next to the running core while words of the instruction are refused; exact bus-access log, and the next disassembling step as oracle",
 "C25":T+"twin cores in Rust and behind the C functions live through the same history under a counting allocator; bound after every call, balance after the end of each life",
 "C20":T+"devices with read and write side effects; exact bus-access log against the lockstep model",
}
tech.update({
 "C21":T+"the host loads its programs through the assembler, with valid and spoilt requests; encoding and decoded operands against an independent reading of the words, and execution in lockstep with the model",
 "C22":T+"invariant on the status register after every step of streams that move, stack, unstack and test it",
 "C23":T+"texts of executed and of decoded instructions against a rendering made from the encoding alone",
})
base="Sampled, not enumerated: a clean run is evidence for the seeds explored. Trusts the reference model (written from the M68000 manual, independent of the crate's code), the simulated bus, and rustc. "
note={
 "C21":"One recorded finding: BTST #n,#imm is assembled, which no 68000 has. Immediate values wider than the operand are cut without a panic and are outside the property.",
 "C22":"Values of the interrupt mask above 7, which only a host can write into the structured form, are outside the property.",
 "C23":"Texts are compared by mnemonic, size, registers and values; spacing, letter case and number base are free.",
 "C01":"Undefined flag bits (BCD V and N, DIV overflow flags, CHK flags) are exempt.",
 "C02":"Order and identity of the accesses before the refused one are fixed by the model; where the manual leaves the order of operand reads open any order is accepted. ",
 "C06":"Pairs the property does not order may be stacked either way.",
 "C09":"One recorded finding: stacked PC of vectors 4, 8, 10 and 11 (both the manual's and the present value are accepted). Fields of the long frames that the crate leaves zero are not asserted beyond the layout.",
 "C12":"Budgets up to a few hundred cycles per call, in the very long runs up to 460000 (and, for a stopped core, up to 2^32-1).",
 "C13":"Text is compared with the library's own disassembly of the instruction the model says was executed.",
 "C18":"Timing figures are transcribed from the crate's tables as first read and cross-checked for internal consistency; a mistake in those constants themselves is not detected.",
 "C25":"Bounded means 64 KiB beyond the core's own struct. Memory the library takes without the Rust allocator (there is none at present) is not seen.",
 "C19":"Programs of 20 to 70 random instructions in loops, up to 160 boundaries, one in forty up to 4000; handlers save all registers.",
}
na={}
checks=[]
for p in props:
    i=p["id"]
    if i in na: continue
    checks.append(dict(property=i,quick_cmd=f"VERIF_TIER=quick ./check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",evidence_file=f"evidence/{i}.json",technique=tech[i],level="exploration",level_note=base+note.get(i,"")))
m=dict(version=1,setup_cmd="./check.sh setup",checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in na.items()],
 notes="No hooks: the crate's own seams (MemoryAccess, exception(), the choice of stepping method, the C callbacks) carry every source of nondeterminism. /repo carries only fix: commits, listed in known-findings.txt.")
json.dump(m,open(os.path.join(here,"..","MANIFEST.json"),"w"),indent=1,ensure_ascii=False); open(os.path.join(here,"..","MANIFEST.json"),"a").write("\n")
