#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or ["MemoryAccess bus calls", "public registers and stop flag", "return values of the interpreter methods"],
                          hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)
I="m68000/src/interpreter.rs"; F="m68000/src/interpreter_fast.rs"; D="m68000/src/interpreter_disassembler.rs"
X="m68000/src/exception.rs"; M="m68000/src/memory_access.rs"; A="m68000/src/addressing_modes.rs"; S="m68000/src/status_register.rs"
N="m68000/src/instruction.rs"; L="m68000/src/lib.rs"; C="m68000-ffi/src/lib.rs"; T1="m68000/src/cpu_details/mc68000.rs"; T2="m68000/src/cpu_details/scc68070.rs"; DEC="m68000/src/decoder.rs"; U="m68000/src/utils.rs"
NOI="The existing tests cover the assembler, slice reads and writes, a few decoder helpers and status-register conversion; not one of them runs the interpreter or an exception."

prop("C01","Every executed instruction has exactly its architectural effect",
 "Whatever happened before (any interleaving of instructions, interrupts, traps, resets, DMA and bus faults), an instruction that completes leaves data and address registers, program counter, condition codes, status register and memory exactly as the M68000 programmer's manual defines, for every opcode, operand size, addressing mode and operand value, in user and in supervisor mode. Nothing else changes, on both CPU types, and bits the manual leaves undefined are exempt.",
 ["inputs","programs","histories","fault_sequences"],"every valid opcode and extension word, every register and memory state, every history of interrupts and bus faults before it",
 NOI+" The state space (65536 opcodes x extension words x registers x history) cannot be sampled by hand-written cases.",
 [I,F,A,U,N,DEC,S],[("execute_* functions",I),("effective address calculation",A),("extension word decoding",N)])
prop("C02","A refused bus access aborts the instruction as an access error, nothing worse",
 "If the memory system refuses any access an instruction makes (opcode, extension word, operand read, operand write or stack), the core makes no further access for that instruction, reports vector 2 exactly once and never crashes the host program. The abandoned instruction changes no register or memory byte other than those the completed instruction would have changed, each byte holding either its old value or the value it would have received (an address register stepped by postincrement, predecrement or stacking may be left at any stage of its update), and execution continues correctly once the fault is gone. The only exceptions are an access or address error while stacking or vectoring an access or address error (double fault) and an unreadable reset vector, which panic with a message saying so.",
 ["fault_sequences","crash_points","inputs"],"every access of every instruction as the one that is refused, transiently or permanently, whole or half-way through a long access, in any history",
 NOI+" No test has a memory that refuses an access to a running core.",
 [M,N,A,I,F,D,X],[("Option-returning MemoryAccess calls mapped to ACCESS_ERROR",M),("MemoryIter over extension words",M)])
prop("C03","Misaligned word and long accesses raise address error and never reach memory",
 "The memory system is never asked for a word or long at an odd address. Every instruction that needs one, including fetching from an odd program counter and stacking on an odd stack pointer, raises vector 3 instead of vector 2 or a wrong transfer, without changing memory at that address; byte accesses may be odd and succeed.",
 ["inputs","histories","fault_sequences"],"every instruction, addressing mode, register value and stack pointer, including exception frames and interrupts arriving while the stack is misaligned",
 NOI+" Alignment depends on run-time register values.",
 [U,M,A,I,X],[("IsEven::even",U),("get/set word and long",M)])
prop("C04","An interrupt is taken exactly when its level is above the mask",
 "A pending interrupt of level 1 to 6 is accepted at an instruction boundary only if its level is greater than the interrupt mask then in force, and is then accepted before the next instruction executes; level 7 is always accepted. Accepting an interrupt of level L (external or on-chip) sets the mask to L, enters supervisor mode and clears trace, and a masked interrupt stays pending with no effect until the mask drops or the core is reset.",
 ["schedules","histories"],"every arrival order and instant of interrupts of every level relative to instructions that raise or lower the mask",
 NOI+" The outcome depends on when an interrupt arrives relative to mask changes.",
 [X,F,S],[("process_pending_exceptions eligibility test",X),("process_exception mask update",X)],[("exceptions","pending exceptions","m68000/src/lib.rs"),("sr.interrupt_mask","current level",S)])
prop("C05","No exception or interrupt is lost, duplicated or invented",
 "Every exception requested from the core, by the host or by an instruction, is eventually taken exactly once as soon as it is eligible, whatever other exceptions of equal or different priority are pending, masked or arriving at the same time. The only permitted losses are a repeat of a vector that is already pending (it coalesces) and exceptions pending when a reset is processed; no vector is ever taken that nobody requested.",
 ["schedules","histories","fault_sequences"],"every multiset of requested exceptions, arrival order, mask history and fault during their processing",
 NOI+" Loss shows only when particular exceptions are pending together.",
 [X,L],[("ordered pending set",X)],[("exceptions","pending exceptions","m68000/src/lib.rs")])
prop("C06","Simultaneous exceptions are prioritised in the documented order",
 "When several exceptions are taken at the same instruction boundary, they are stacked so that their handlers run in the order address error, access error, trace, interrupts (higher level first), illegal instruction, privilege violation, then all others, the handler of the highest running first and returning into the next. A pending reset takes precedence over everything else and discards it. When an exception cannot be stacked or vectored, the access error or address error met on the way (for a bus fault during an interrupt: a spurious interrupt) is taken in its place before any further program instruction.",
 ["schedules","histories","fault_sequences"],"every combination of simultaneously pending vectors, arrival orders and faults while stacking them",
 NOI+" Ordering is only visible with two or more pending exceptions.",
 [X],[("get_vector_priority and Ord for Exception",X),("lowest priority stacked first",X)])
prop("C07","STOP sleeps until an acceptable interrupt, and never misses one",
 "After STOP loads the status register the core executes nothing, makes no bus access and reports zero cycles until a reset, a trace or an interrupt that the loaded mask admits is requested, and a masked interrupt does not wake it. An admissible interrupt wakes it no matter whether it arrives after STOP or was already pending when STOP lowered the mask, and the handler is entered with the return address just after STOP. The run loops return instead of spinning while the core is stopped.",
 ["schedules","histories"],"every interleaving of STOP, mask values and interrupt arrivals, before, at and after the STOP",
 NOI+" Lost and spurious wake-ups depend on the instant of arrival.",
 [X,I,F,D],[("stop flag set by STOP",I),("stop flag cleared on exception request",X)],[("stop","core is stopped",L)])
prop("C08","Reset brings the core from any state to the documented initial state",
 "When a reset is requested, at any moment and in any state (stopped, masked, with exceptions pending, mid-handler), the next step reads the initial supervisor stack pointer and program counter from addresses 0 and 4, sets supervisor mode with trace off and mask 7, drops every pending exception, and executes the first instruction from the new program counter. No frame is pushed and general registers and memory are left alone; a newly created core behaves as if reset had been requested.",
 ["histories","crash_points"],"reset requested at every instruction boundary of every history, with any set of pending exceptions and faults",
 NOI,
 [X,L],[("reset()",X),("new() queues the reset vector",L)])
prop("C09","Exception frames have the CPU's layout and RTE undoes them exactly",
 "Taking an exception pushes on the supervisor stack exactly the frame of the selected CPU type (MC68000: program counter and status register, plus opcode and padding for vectors 2 and 3; SCC68070: additionally format and vector offset word, long format for vectors 2 and 3), writes nothing else and jumps through the right vector table entry. The stacked status register is the one before the exception, the stacked program counter is the resume address for interrupts, traps and trace and the address of the offending instruction for illegal, privileged, line A and line F opcodes. RTE on an intact frame restores status register, program counter and stack pointer to their values before the exception, and the SCC68070 raises format error for an unknown format.",
 ["histories","schedules","inputs"],"every vector, CPU type, stack address, status register and program counter, nested to any depth",
 NOI,
 [X,I],[("process_exception",X),("execute_rte",I)])
prop("C10","User code cannot gain supervisor state or touch the supervisor stack pointer",
 "In user mode every privileged instruction (ANDI, EORI, ORI and MOVE to SR, MOVE USP, RESET, RTE, STOP) raises vector 8 and has no other effect, and no other instruction changes the supervisor, trace or interrupt mask bits or the supervisor stack pointer. The only way from user to supervisor mode is an exception. The seventh address register always designates the user stack pointer in user mode and the supervisor stack pointer in supervisor mode, and the inactive one never changes except through MOVE USP.",
 ["programs","histories","inputs"],"every user-mode instruction stream and operand, with interrupts and faults switching modes at any point",
 NOI,
 [I,L,S],[("check_supervisor",I),("CCR/SR write masks",I),("sp() and sp_mut() banking",L)])
prop("C11","Tracing raises exactly one trace exception per traced instruction",
 "With the trace bit set when an instruction starts, an instruction that completes and is not privileged raises vector 9 exactly once, after its effects and before the next instruction, even if it cleared nothing and even when interrupts are pending. Privileged instructions, instructions that raise another exception and instructions started with trace off raise none, and exception processing turns tracing off in the handler and RTE restores it.",
 ["programs","schedules","histories"],"every instruction with trace on or off, with interrupts and faults at any boundary",
 NOI,
 [F,D,X],[("trace sampled before execution",F),("Isa::is_privileged","m68000/src/isa.rs")])
prop("C12","Run loops execute whole instructions and account for every cycle",
 "Running for a cycle budget executes the same instruction sequence as single-stepping, stops at the first instruction boundary where the budget is met, and returns the cycles actually consumed, which is at least the budget even when the core is stopped. Splitting a budget into any sequence of smaller ones, or mixing the stepping methods, changes no state at equal instruction counts. The until-exception variants stop right after the first step that raises an exception or stops the core, report that vector and all cycles so far, and leave the exception for the host to request.",
 ["schedules","histories","configurations"],"every budget split, mix of stepping methods and schedule of interrupts and faults between calls",
 NOI,
 [F,D],[("cycle, cycle_until_exception, loop_until_exception_stop",F)])
prop("C13","The disassembling interpreter is indistinguishable from the plain one",
 "Given the same state and the same memory behaviour, including refused accesses, interrupts, STOP and reset, stepping with disassembly and plain stepping produce the same registers, bus accesses, memory, cycle counts, vectors and pending exceptions at every step. The disassembling step also returns the address and the text of exactly the instruction it executed, and an empty text when it executed none.",
 ["programs","histories","fault_sequences"],"every opcode, history and fault pattern, switching between the two interpreters at any step",
 NOI+" Two separately written execution paths must agree for every opcode under every fault.",
 [D,F,N],[("two parallel execute tables",D),("get_next_instruction",D)])
prop("C14","The C interface behaves exactly like the Rust API",
 "Driving a core through the C functions and callbacks gives the same registers, memory effects, cycle counts, vectors and pending exceptions as driving the Rust API with the same memory, with every callback refusal treated as an access error and user data passed through unchanged. The disassembly functions write at most the given number of bytes to the caller's buffer, always NUL-terminated when the length is not zero, and register access functions read and write the live registers. All this holds for a program in C that knows the library from the shipped headers alone: they compile as documented and their declarations, structure layouts and vector names are those of the library.",
 ["histories","fault_sequences","inputs"],"every sequence of C calls, callback failures and buffer lengths from zero up",
 "No test calls the C interface at all.",
 [C,"m68000-ffi/src/mc68000.rs","m68000-ffi/src/scc68070.rs","include/m68000/m68000-ffi.h","include/m68000/m68000.h"],[("cinterface! macro",C),("MemoryAccess for m68000_callbacks_t",C)],None,["C entry points","callbacks","caller's buffer"])
prop("C15","Cores are deterministic, isolated and can be snapshotted anywhere",
 "Two cores given the same initial state, the same memory contents and the same sequence of requests behave identically, step for step. Any number of cores interleaved in any order on separate memories behave as if each ran alone, and a copy of a core taken at any instruction boundary (stopped, with exceptions pending, mid-handler) continues exactly as the original does.",
 ["schedules","crash_points","histories"],"every interleaving of several cores and every snapshot point, including with exceptions pending and after faults",
 NOI,
 [L,F],[("all state inside the core value; Clone",L)])
prop("C16","Built-in slice memories act as big-endian RAM with bus errors past the end",
 "A core running on a byte or word slice of any length sees big-endian RAM of exactly that many bytes: every byte, word or long inside is read and written at the right place with no neighbouring byte disturbed, and any access with at least one byte outside is refused as an access error, never a crash, a wrap-around or a partial acceptance reported as success. Byte and word slices holding the same image run a program identically.",
 ["inputs","histories","configurations"],"every slice length (odd ones too), address over the whole 32-bit range and access size, under running programs that stray past the end",
 "The tests check a few in-range reads and writes on one even-sized slice; the edges, odd lengths, longs straddling the end and accesses made by a running core are not covered.",
 [M],[("MemoryAccess for [u8], &[u8], [u16], &[u16]",M)])
prop("C17","No instruction stream can crash or hang the host",
 "For every possible content of memory and registers, every step terminates after a bounded number of bus accesses and never panics, overflows or indexes out of bounds, apart from the double fault and the unreadable reset vector, which panic deliberately. Opcodes that are not instructions of the CPU raise line A for 0xAxxx, line F for 0xFxxx and illegal instruction otherwise, exactly once, touching no register and no memory.",
 ["inputs","programs","histories"],"all 65536 opcodes with arbitrary extension words, registers and memory, arithmetic checked for overflow",
 NOI+" A crash needs one particular opcode and operand.",
 [DEC,F,D,I,N],[("65536-entry decode table",DEC),("execute_unknown_instruction",I)])
prop("C18","Reported cycle counts match the CPU's published timing",
 "For every instruction that completes, the reported cycle count is the one the selected CPU's timing tables give for that instruction, operand size, addressing mode, register count, shift count and branch outcome, and every processed exception adds its own published processing time exactly once. Timing never depends on how the step is driven or on earlier history.",
 ["inputs","histories","configurations"],"every instruction variant on both CPU types, alone and combined with any number of exceptions in the same step",
 NOI,
 [T1,T2,I,A],[("CpuDetails constants",T1),("exec_time accumulation",I)])
prop("C19","State-preserving interrupts are invisible to the interrupted program",
 "If interrupt handlers save and restore what they use and return with RTE, a program interrupted at any set of instruction boundaries, with any nesting, computes exactly the same registers, condition codes, user stack and memory as the same program run without interrupts. Every requested interrupt's handler runs exactly once, within a bounded number of steps after the last request.",
 ["schedules","histories"],"every placement and nesting of interrupts over the run of a program",
 NOI+" A corruption needs an interrupt between two particular instructions.",
 [X,I,F],[("exception entry",X),("RTE",I)])
prop("C20","Devices see exactly the bus accesses the instruction calls for",
 "Each instruction reads and writes every operand byte it designates exactly once, at the right address and in the right order (reads of an operand before its write-back), and touches no other address, so that registers with read or write side effects behave. Opcode and extension words are fetched once, from consecutive addresses, and the RESET instruction notifies the memory system exactly once, and only in supervisor mode.",
 ["inputs","histories"],"every instruction and addressing mode with operands in side-effecting device registers",
 NOI+" The tests use plain slices, where an extra or missing access is invisible.",
 [I,A,M],[("one get/set per operand",I),("effective address cached between read and write-back",A)])
prop("C21","Assembled code is the instruction that was asked for",
 "Every instruction the assembler returns, loaded at any address, is the encoding of the manual (bits no field covers zero) and decodes back to the instruction, size and operands it was asked for, program-counter relative operands with the address of their extension word, and the decoder stops just behind it; every request that names an instruction of the 68000 is answered. A request that names none (a register above 7, an addressing mode or size the instruction does not have) panics instead of yielding the code of another instruction.",
 ["inputs","histories"],"every instruction, size and operand combination at every address, and requests one step away from them",
 "The assembler tests compare fixed encodings, never decode or run what they assemble, and never ask for something invalid.",
 ["m68000/src/assembler.rs",N,DEC,A],[("assembler functions","m68000/src/assembler.rs"),("decoding of operands",N),("AddressingMode::assemble and from_memory",A)],None,["assembler output","decoded operands","panics of the assembler"])
prop("C22","Status register and condition conversions agree with the manual",
 "Whatever a running system leaves in the status register (instructions, exceptions, frames with arbitrary words, host writes), its structured form and its 16-bit image agree: converting either way is lossless on the eleven implemented bits and drops the others, the and, or and exclusive or operators and set_ccr act bit by bit, and the sixteen conditions follow the manual's truth table.",
 ["inputs","histories"],"all 65536 raw values, the sixteen conditions, every second operand, at every instant of a run",
 "The one test converts each raw value but combines it only with itself, 0 and FFFF, and never looks at a running core.",
 [S,I],[("From conversions, operators, set_ccr and condition()",S)],None,["the structured register and its image after each step","results of the conversions"])
prop("C23","Disassembly text is a faithful rendering of the instruction",
 "Whatever instruction a disassembling step executes, or a debugger decodes next to a running core, the text names that instruction, its size, all its operands with their values and, for a branch, its target; a word that is no instruction is named as unknown with its value. It does so at any address, whatever memory holds around it, and whether or not the instruction then succeeds.",
 ["inputs","histories","fault_sequences"],"every opcode and extension word at every address, executed or only decoded, with its operands accessible or refused",
 "No test renders more than a handful of instructions.",
 ["m68000/src/disassembler.rs",D,A],[("disassembler look-up table","m68000/src/disassembler.rs"),("Display of addressing modes and sizes",A)],None,["disassembly strings"])
prop("C24","Decoding from memory meets faults and reads exactly the instruction",
 "Whenever a host decodes an instruction from the memory of a living system (a debugger next to a running core), at any address and whatever memory holds, the decoder reads each word of that one instruction once, at consecutive even addresses, and nothing else, leaves the word iterator just behind it, and returns the instruction that a core arriving there executes: same opcode, same address, same text. The first word memory refuses ends it with an access error and an odd address with an address error, nothing further is read, and it never panics.",
 ["fault_sequences","inputs","histories"],"every address, opcode and extension word, every word of the instruction refused, at any moment of a run",
 "The tests decode from plain arrays that always hold the whole instruction.",
 [N,D,M],[("Instruction::from_memory",N),("MemoryIter",M)],None,["bus accesses made by the decoder","iterator position","decoded instruction and text"])
prop("C25","A core's host memory is bounded and given back",
 "However long a core lives and whatever is asked of it (requests for any vectors without end, faults, resets, STOP, run loops, disassembly, copies), it holds a bounded amount of host memory that does not grow with its history, no call takes more than that even for a moment, and giving the core up, by dropping it in Rust or deleting it through the C interface, gives all of it back.",
 ["histories","fault_sequences"],"histories of any length, up to hundreds of thousands of steps and requests on one core",
 "No test runs a core long enough, and none looks at allocations.",
 [L,X,C,D],[("pending exceptions",X),("new and delete functions",C),("disassembly strings",D)],None,["host memory held and taken by each call"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
