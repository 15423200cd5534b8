#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
S = "m68000/src/"
p("C01", "Every opcode word decodes to the instruction the 68000 defines for it",
  "For each of the 65536 opcode words, execution, disassembly and the public decoder agree on one instruction, operand size, operand registers, addressing mode and instruction length, namely those of the M68000 instruction set; a word that is not a 68000 instruction executes as none and raises illegal instruction, or line-A/line-F emulator for words starting with A or F.",
  ["inputs"], "all 65536 opcode words, with any extension words, on both CPU models and both interpreters",
  "The tests touch a few dozen assembled opcodes; a wrong entry in the 65536-entry table or a mis-extracted field for one encoding passes them all.",
  [S+"decoder.rs", S+"instruction.rs", S+"isa.rs", S+"addressing_modes.rs", S+"bin/decoder.rs"],
  [("opcode table indexed by the opcode word", S+"decoder.rs DECODER"), ("operand field extraction", S+"instruction.rs"), ("unknown opcode to vector", S+"interpreter.rs execute_unknown_instruction")],
  ["Isa::from(u16)", "Instruction::from_memory", "interpreter/disassembler_interpreter results"])
p("C02", "Arithmetic instructions compute the 68000 result and condition codes",
  "For every operand value, size and incoming flags, ADD/ADDA/ADDI/ADDQ/ADDX, SUB/SUBA/SUBI/SUBQ/SUBX, CMP/CMPA/CMPI/CMPM, NEG/NEGX, MULS/MULU, DIVS/DIVU, ABCD/SBCD/NBCD, EXT and CHK leave exactly the result and the X N Z V C flags the M68000 Programmer's Reference Manual gives, at the destination it names. Flags the manual leaves undefined are not constrained; a quotient that does not fit in 16 bits leaves the destination unchanged and sets V.",
  ["inputs"], "all operand values (8-bit operands exhaustively in the thorough tier), incoming X and Z, operand sizes, operand forms",
  "The tests check a handful of operand pairs per operator; carries, overflows, sign boundaries, extended arithmetic and decimal corrections are value-dependent over up to 2^65 cases.",
  [S+"interpreter.rs", S+"utils.rs", S+"status_register.rs"],
  [("shared add/sub helpers computing flags", S+"interpreter.rs add, sub, sbcd"), ("carry/borrow arithmetic", S+"utils.rs CarryingOps")],
  ["registers and memory after one interpreter call"])
p("C03", "Logic, shift, rotate, bit and move instructions compute the 68000 result",
  "For every operand value, size, count and incoming flags, AND/OR/EOR/NOT and their immediate and CCR forms, ASL/ASR/LSL/LSR/ROL/ROR/ROXL/ROXR, BTST/BCHG/BCLR/BSET, TAS/TST/CLR/SWAP/EXG/Scc, MOVE/MOVEA/MOVEQ and the moves to and from CCR/SR leave exactly the result and the X N Z V C flags the M68000 Programmer's Reference Manual gives.",
  ["inputs"], "all operand values, shift counts 0..63, bit numbers modulo 8/32, incoming flags, operand sizes and forms",
  "The tests run only a few values per instruction; count 0, counts beyond the operand size, X propagation and sign changes during a shift are not sampled.",
  [S+"interpreter.rs", S+"status_register.rs"],
  [("per instruction execute functions", S+"interpreter.rs"), ("status register bit operators", S+"status_register.rs")],
  ["registers and memory after one interpreter call"])
p("C04", "Operand addressing follows the twelve 68000 addressing modes",
  "The address of every memory operand, and the value of every address-forming instruction, is the one its addressing mode defines: displacements, absolute short addresses and word-sized index registers are sign-extended, PC-relative modes start from the address of their extension word, and arithmetic wraps at 32 bits. Post-increment and pre-decrement change the address register exactly once by the operand size (by 2 for a byte through the stack pointer), source before destination, and no other mode changes an address register.",
  ["inputs", "programs"], "all instruction/mode/size/register combinations with any register values, displacements and index words",
  "No test executes instructions over the modes; wrap-around, negative displacements, index size and A7 byte steps are only reached by specific register contents.",
  [S+"addressing_modes.rs", S+"instruction.rs", S+"memory_access.rs"],
  [("address computed once per operand", S+"addressing_modes.rs get_effective_address"), ("step of post-increment and pre-decrement", S+"addressing_modes.rs ariwpo, ariwpr")],
  ["addresses passed to the memory interface", "address registers after one interpreter call"])
p("C05", "An instruction touches only its own operands",
  "Executing one instruction reads only its own code words, its memory operands and the stack slots it names, and writes only the bytes of its destination, with values stored most significant byte first. Registers, register parts beyond the operand size, status bits and memory that are not a destination keep their value.",
  ["inputs", "programs"], "all instructions and addressing modes, any register and memory contents, histories of instructions on one core",
  "Tests look at the one register they expect to change; a stray write, an extra read of a device register or a clobbered upper half is invisible to them.",
  [S+"interpreter.rs", S+"memory_access.rs", S+"lib.rs"],
  [("byte/word merges into data registers", S+"lib.rs Registers::d_byte, d_word"), ("sized memory accessors", S+"memory_access.rs")],
  ["all calls on the memory interface", "the whole register file after each call"])
p("C06", "Misaligned accesses and failed accesses become address and access errors",
  "A word or long access at an odd address never reaches the memory and raises address error (vector 3), byte accesses are allowed anywhere, and a memory access that the memory refuses raises access error (vector 2); no other access raises either. The instruction stops there: on a failed operand read no data register, condition code or memory is updated and no address register other than by its own increment, except for what an instruction that loads several values has already loaded (registers of MOVEM and MOVEP, the condition codes of RTR, the stack pointer of RTE and UNLK); registers that are not operands of the instruction never change.",
  ["inputs", "fault_sequences"], "all instructions and modes with odd operand, stack or code addresses, and any set of refused addresses",
  "The tests never make an access fail; each operand of each instruction is a distinct failure point.",
  [S+"memory_access.rs", S+"utils.rs", S+"interpreter.rs", S+"exception.rs"],
  [("evenness check before word/long accesses", S+"utils.rs IsEven::even, "+S+"memory_access.rs"), ("refused access mapped to vector 2", S+"memory_access.rs")],
  ["vector returned by the exception-returning interpreters", "calls on the memory interface"])
p("C07", "Branches, calls and returns transfer control as the 68000 does",
  "Bcc/BRA/BSR/DBcc take the branch exactly when their condition holds (DBcc also decrementing the low word of its counter and stopping at -1) to the address after the opcode word plus the sign-extended displacement, and otherwise continue at the next instruction; JMP/JSR go to their effective address. BSR/JSR push the address of the next instruction, RTS/RTR pop it (RTR also restoring only the condition codes), and LINK/UNLK/PEA leave the frame the manual defines, so that matched call/return and LINK/UNLK pairs restore PC, stack pointer and frame register.",
  ["inputs", "programs", "histories"], "all conditions and flag combinations, displacements, counters, stack pointers, and nestings of calls",
  "No test executes control flow; correctness depends on flags, displacement signs and stack contents.",
  [S+"interpreter.rs", S+"status_register.rs", S+"instruction.rs"],
  [("condition evaluation", S+"status_register.rs condition"), ("branch and stack instructions", S+"interpreter.rs execute_bcc, execute_dbcc, execute_bsr, execute_jsr, execute_rts, execute_rtr, execute_link, execute_unlk")],
  ["PC, stack pointer and stack memory after each call"])
p("C08", "MOVEM and MOVEP transfer exactly the listed registers in order",
  "MOVEM moves exactly the registers of its mask, lowest register at the lowest address, in words or longs (words loaded sign-extended into the whole register), leaving the base register at the final address in post-increment and pre-decrement modes and storing its initial value when it is itself listed; no other register or byte is touched. MOVEP moves the 2 or 4 bytes of the data register to or from every other byte, high byte first.",
  ["inputs"], "all 65536 register masks, both sizes and directions, all legal modes, base register in or out of the list",
  "No test executes MOVEM or MOVEP; the mask space is 2^16 per mode.",
  [S+"interpreter.rs", S+"disassembler.rs"],
  [("register list loops", S+"interpreter.rs execute_movem"), ("byte stepping", S+"interpreter.rs execute_movep")],
  ["memory interface calls and registers after one call"])
p("C09", "User mode cannot gain privilege",
  "While the supervisor bit is clear, no instruction changes the trace bit, the supervisor bit, the interrupt mask, the user/supervisor separation or the supervisor stack pointer other than through an exception; STOP, RESET, RTE, MOVE to SR, ANDI/ORI/EORI to SR and MOVE USP raise privilege violation (vector 8) with no other effect. A7 always designates the user stack pointer in user mode and the supervisor stack pointer in supervisor mode, and the inactive one is never touched except by MOVE USP.",
  ["programs", "inputs", "histories"], "every opcode with any immediate executed in user mode, and programs that alternate modes",
  "No test runs in user mode; one leaking immediate bit in one encoding is enough to break isolation.",
  [S+"interpreter.rs", S+"lib.rs", S+"status_register.rs"],
  [("supervisor check before privileged instructions", S+"interpreter.rs check_supervisor"), ("stack pointer selection by mode", S+"lib.rs Registers::sp, sp_mut")],
  ["status register, stack pointers, returned vector, reset callback"])
p("C10", "Exceptions build the CPU model's stack frame and vector through memory",
  "Processing a pending exception saves the PC and the status register as they were before it on the supervisor stack in the frame format of the CPU model (MC68000: PC and SR, plus 4 words for address/access error; SCC68070: format word with vector offset, long format for address/access error), sets supervisor mode, clears trace, and continues at the long word stored at 4 times the vector number. The whole frame is written below the old supervisor stack pointer and nothing else is written.",
  ["inputs", "histories"], "all vectors 2..255, both CPU models, any status register, PC and stack pointer, user and supervisor origin",
  "No test processes an exception; frame layout per vector, model and origin mode is never looked at.",
  [S+"exception.rs", S+"cpu_details.rs", S+"memory_access.rs"],
  [("frame pushes and vector fetch", S+"exception.rs process_exception")],
  ["supervisor stack memory, registers, memory interface calls"])
p("C11", "RTE undoes exception entry",
  "After any exception entry with a normal frame, executing RTE restores the interrupted PC, the complete status register (including user/supervisor mode, trace and interrupt mask) and both stack pointers to their values before the entry, to any nesting depth, on both CPU models. On the SCC68070, RTE also unwinds the long frame completely and raises format error (vector 14) for any other format, without restoring the status register.",
  ["histories", "inputs"], "all nestings of exceptions and returns, any saved state, all format words",
  "No test executes RTE or nests exceptions.",
  [S+"interpreter.rs", S+"exception.rs"],
  [("frame pop per stack format", S+"interpreter.rs execute_rte"), ("frame push per stack format", S+"exception.rs process_exception")],
  ["registers after entry followed by RTE"])
p("C12", "Interrupt requests obey mask and priority and are never lost",
  "An interrupt request of level 1-6 is taken only while its level is above the interrupt mask, stays pending until then and is taken at the next instruction boundary once it is; level 7 is always taken. Every requested interrupt is taken exactly once (repeated requests of one pending vector count once, and an entry whose stack frame or vector access fails counts as taken) whatever other exceptions or requests are pending, unless a reset intervenes; taking it sets the mask to its level, and when several exceptions are taken together the handler of the one with the highest priority (address error, access error, trace, interrupts from highest level to lowest, then the others) runs first.",
  ["histories", "schedules"], "all sequences of interrupt and exception requests, mask changes, instructions and returns",
  "Loss, reordering and masking depend on the combination and order of requests; no test raises more than none.",
  [S+"exception.rs", S+"interpreter_fast.rs", S+"interpreter_disassembler.rs"],
  [("ordered set of pending exceptions", S+"exception.rs Exception Ord, process_pending_exceptions"), ("mask comparison", S+"exception.rs process_pending_exceptions")],
  ["sequence of vectors fetched and frames pushed"],
  state=[("pending exceptions", "requests not yet processed", S+"lib.rs M68000::exceptions")])
p("C13", "Reset always brings the CPU to its defined start state",
  "Requesting reset (including the request a new core starts with) makes the next step load the supervisor stack pointer from address 0 and the PC from address 4, set supervisor mode, trace off, interrupt mask 7 and leave the stopped state, before executing the first instruction, whatever was pending or executing; every other pending exception is discarded and data and address registers and the user stack pointer keep their value. A core created without reset starts stopped by nothing, with cleared registers and status register 0x2700.",
  ["histories"], "all states and sets of pending exceptions in which reset is requested",
  "The outcome depends on what else is pending or on the stopped state when reset arrives; no test requests a reset.",
  [S+"exception.rs", S+"lib.rs"],
  [("reset processing", S+"exception.rs reset, process_pending_exceptions"), ("initial reset request", S+"lib.rs M68000::new")],
  ["registers, vectors fetched after reset"])
p("C14", "STOP suspends execution until an enabling interrupt, trace or reset request",
  "STOP in supervisor mode loads the status register and suspends execution: while stopped, interpreter calls execute nothing, touch no memory and return no cycles. Execution resumes exactly when a reset, a trace request or an interrupt that the loaded mask does not inhibit is requested or was already pending; a masked interrupt stays pending without resuming execution, and the interrupted PC is the address after STOP.",
  ["histories", "schedules"], "all orders of interrupt requests before and after STOP, all masks, all run functions",
  "Whether the core wakes, sleeps or deadlocks depends on the order of requests relative to STOP; no test executes STOP.",
  [S+"interpreter.rs", S+"exception.rs", S+"interpreter_fast.rs"],
  [("stopped flag set by STOP and cleared on request", S+"interpreter.rs execute_stop, "+S+"exception.rs exception")],
  ["memory interface calls, cycles returned, stopped flag, vectors taken"],
  state=[("stopped", "execution suspended", S+"lib.rs M68000::stop")])
p("C15", "Trace exceptions follow exactly the instructions executed with trace set",
  "When the trace bit is set at the start of an instruction that completes, a trace exception (vector 9) follows it, including after the last instruction before trace is cleared by the instruction itself; no trace exception follows an instruction started with trace clear, an instruction that raised another exception, or a privileged instruction. Exception handlers run with trace off until they set it or return.",
  ["programs", "histories"], "all instructions with trace set and clear, both interpreters, mixes with other exceptions",
  "No test sets the trace bit.",
  [S+"interpreter_fast.rs", S+"interpreter_disassembler.rs", S+"isa.rs"],
  [("trace bit sampled before execution", S+"interpreter_fast.rs interpreter_exception"), ("privileged instruction list", S+"isa.rs is_privileged")],
  ["vector returned per step; vector taken at the next step"])
p("C16", "Run loops execute whole steps, stop where specified and account every cycle",
  "Running for N cycles, until an exception, or until exception or stop gives exactly the machine state of calling the single-step interpreter repeatedly, and returns the sum of its cycle counts; running for N cycles ends at the first step boundary at which the sum reaches N (never before, and with no step for N = 0), or when the CPU stops, for which the plain run reports N. The exception-returning variants stop at the first exception and return it unprocessed, and the others queue it so that the next step processes it.",
  ["programs", "histories", "inputs"], "all programs, cycle budgets and pending requests, both CPU models",
  "Depends on where in an instruction sequence the budget, an exception or STOP falls; the run functions are untested.",
  [S+"interpreter_fast.rs", S+"interpreter_disassembler.rs"],
  [("run loops", S+"interpreter_fast.rs cycle, cycle_until_exception, loop_until_exception_stop")],
  ["return values, registers and memory traffic of the run functions"])
p("C17", "Every instruction and exception takes the CPU model's documented time",
  "The cycle count returned for each completed instruction is the one the CPU model's timing table gives for its operation, size, addressing modes, register count, shift count and outcome (branch taken or not, condition true or false), plus the exception processing time of each exception processed in that step; it depends on nothing else.",
  ["inputs", "configurations"], "all instructions, modes and sizes, both CPU models, all vectors",
  "No test looks at cycle counts; there are some thousand instruction/mode/size/model combinations.",
  [S+"cpu_details.rs", S+"cpu_details/mc68000.rs", S+"cpu_details/scc68070.rs", S+"interpreter.rs", S+"memory_access.rs"],
  [("timing constants per CPU model", S+"cpu_details/mc68000.rs, "+S+"cpu_details/scc68070.rs"), ("addressing time accounting", S+"addressing_modes.rs get_effective_address, "+S+"memory_access.rs")],
  ["cycle count returned by interpreter calls"])
p("C18", "The fast and the disassembling interpreter are the same machine",
  "From any state, the plain and the disassembling single-step functions lead to the same registers, memory, pending exceptions, stopped state, cycle count and raised vector. The disassembling one additionally returns the address and the text of the instruction it executed, and an empty text when it executed none.",
  ["programs", "histories", "inputs"], "all instructions and programs, with exceptions, interrupts, stops and failed fetches",
  "Two parallel dispatch and operand-decoding paths exist per instruction and no test runs either.",
  [S+"interpreter_fast.rs", S+"interpreter_disassembler.rs", S+"instruction.rs"],
  [("two dispatch tables over shared execution", S+"interpreter_fast.rs, "+S+"interpreter_disassembler.rs")],
  ["all results of both functions"])
p("C19", "Assembled code means what was asked",
  "Every assembler function, for every operand combination it accepts, emits the 68000 encoding of that instruction with those operands: decoding the words gives back the instruction and operands, consuming exactly those words. Operand combinations it rejects are ones the 68000 does not have.",
  ["inputs"], "all assembler functions with all registers, sizes, addressing modes, conditions, counts and immediates",
  "The assembler tests compare one or two encodings per function.",
  [S+"assembler.rs", S+"addressing_modes.rs", S+"instruction.rs"],
  [("assembler functions", S+"assembler.rs"), ("addressing mode encoding", S+"addressing_modes.rs assemble, assemble_move_dst, verify")],
  ["words returned by the assembler functions"])
p("C20", "Disassembly text names the decoded instruction and operands",
  "For every opcode and extension words, the disassembly text gives the mnemonic, condition, size, registers, register list, displacement, absolute address and immediate value of the instruction in the library's syntax, so that two instructions that differ in any of these have different texts.",
  ["inputs"], "all 65536 opcode words with arbitrary extension words",
  "The tests compare the text of a few dozen assembled instructions.",
  [S+"disassembler.rs", S+"addressing_modes.rs", S+"instruction.rs", S+"status_register.rs"],
  [("per instruction formatting", S+"disassembler.rs"), ("addressing mode formatting", S+"addressing_modes.rs Display")],
  ["Instruction::disassemble, disassembler_interpreter text"])
p("C21", "Status register words and conditions have the 68000 layout",
  "Converting any 16-bit word to a status register and back keeps exactly the implemented bits (T, S, interrupt mask, X N Z V C) and clears the others; and/or/xor with a word act on those bits as on the word, setting the condition codes changes only them, new registers made with a status register have it and are otherwise zero, and each of the 16 condition tests is its defined function of N Z V C.",
  ["inputs"], "all 65536 words, all pairs with immediates per bit, all 16 conditions",
  "The tests check a handful of words.",
  [S+"status_register.rs"],
  [("conversions, operators and condition table", S+"status_register.rs")],
  ["StatusRegister conversions, operators and condition"])
p("C22", "Slices are big-endian memories that fail cleanly outside their bounds",
  "A byte or 16-bit-word slice used as memory behaves as one big-endian byte array: a read returns the bytes last written at those addresses whatever access sizes were used, byte-backed and word-backed memories agree, and long accesses are two consecutive words. On a slice of words, word and long accesses are made at even addresses. An access that is not entirely inside the slice is refused (so that the CPU sees an access error) and never crashes the host or wraps around; a refused read has no effect, and a refused long write changes at most the bytes of its first word.",
  ["histories", "inputs"], "all sequences of byte, word and long reads and writes on slices of any length, at any 32-bit address",
  "The tests access the first bytes of a 12-byte slice; bounds and mixed-size histories are not covered.",
  [S+"memory_access.rs"],
  [("slice implementations", S+"memory_access.rs MemoryAccess for [u8], &[u8], [u16], &[u16]"), ("default long accessors", S+"memory_access.rs get_long, set_long")],
  ["return values of the memory interface on slices"])
p("C23", "The C interface is the Rust core",
  "Each C function has, for both CPU models, the same effect and result as the Rust operation it stands for, through the caller's memory callbacks: same callback traffic, registers, cycles, vectors (0 for none) and instruction address and text. Callback failures become access errors, and a text buffer of a given length is never written past its end and is always NUL-terminated, holding the longest prefix of the text that fits.",
  ["programs", "histories", "inputs"], "all C functions, any callback behaviour, buffer lengths and register contents, both CPU models",
  "The C interface has no tests.",
  ["m68000-ffi/src/lib.rs", "m68000-ffi/src/mc68000.rs", "m68000-ffi/src/scc68070.rs"],
  [("exported function macro", "m68000-ffi/src/lib.rs cinterface!"), ("callback adapter", "m68000-ffi/src/lib.rs MemoryAccess for m68000_callbacks_t")],
  ["results of the exported functions and callback traffic"])
p("C24", "No guest program or memory fault can crash or hang the host",
  "For every register state, memory content, set of refused addresses and pending exceptions, each single-step call returns to its caller without aborting, and running for N cycles returns: whatever the guest executes becomes a 68000 exception, never a host failure.",
  ["programs", "inputs", "fault_sequences", "histories"], "all opcodes and extension words, all register values, any refused addresses, both interpreters and CPU models",
  "A host crash needs a specific opcode, operand or failing address; the tests execute none.",
  [S+"interpreter.rs", S+"addressing_modes.rs", S+"exception.rs", S+"instruction.rs"],
  [("errors as result values", S+"interpreter.rs InterpreterResult")],
  ["return or panic of interpreter calls"])
p("C25", "Instruction-raised exceptions fire exactly when their condition holds",
  "TRAP #n raises vector 32+n always, TRAPV vector 7 exactly when V is set, CHK vector 6 exactly when the low word of the register is negative or above the bound, DIVS/DIVU vector 5 exactly for a zero divisor, ILLEGAL vector 4, and no completed instruction raises a vector otherwise. When one is raised the instruction has no other effect on data registers or memory, and the PC the exception saves is that of the next instruction for TRAP, TRAPV, CHK and zero divide, and of the offending instruction itself for illegal instruction, line-A/line-F and privilege violation.",
  ["inputs", "programs"], "all trap numbers, operand values and flags, both interpreters and CPU models",
  "No test executes a trapping instruction.",
  [S+"interpreter.rs", S+"exception.rs"],
  [("vectors returned by execution", S+"interpreter.rs execute_trap, execute_trapv, execute_chk, execute_divs, execute_divu, execute_illegal")],
  ["vector returned, registers and stacked PC"])
p("C26", "A user-defined CPU model's details are honoured everywhere",
  "The core is generic over CpuDetails. For any implementation of that trait, every instruction, operand addressing mode, branch outcome, shift or rotate count, register count and exception costs exactly the time its own constants give (an instruction's own constant, not that of a sibling which the built-in models happen to give the same value), and exception frames and RTE use the declared stack format; everything else is as on the built-in model with that stack format.",
  ["inputs", "programs", "histories"], "all instruction forms, exceptions and request histories, on user-defined models whose constants are all different",
  "The tests use the built-in models only, where many constants are equal or zero, so that using the wrong one cannot be seen.",
  [S+"cpu_details.rs", S+"interpreter.rs", S+"addressing_modes.rs", S+"exception.rs"],
  [("constants of the trait", S+"cpu_details.rs CpuDetails"), ("their uses", S+"interpreter.rs execute_*, "+S+"exception.rs process_exception")],
  ["cycles returned by the interpreters, frames on the stack"])
p("C27", "Decoded instructions and addressing modes describe their operands exactly",
  "For every opcode word and the words after it, Instruction::from_memory, from_opcode and the per-instruction decode functions all give the operands the M68000 encoding defines (registers, sizes, directions, conditions, immediate data, sign-extended displacements, register lists, addressing modes with their extension words and the PC they are relative to), consume exactly the instruction's words, and the Operands accessors return them. An AddressingMode read from memory assembles back to the same field and words (source and MOVE destination), answers its own register, is_ and verify questions truly and prints in 68000 syntax; Size and BriefExtensionWord convert to and from their encoded fields without loss.",
  ["inputs"], "all 65536 opcode words with sampled extension words, all addressing modes and sizes with boundary words, all index words and sizes",
  "A tool that analyses code with the public decoder sees fields that execution recomputes for itself, so execution tests do not touch them; the tests decode a handful of opcodes.",
  [S+"instruction.rs", S+"addressing_modes.rs", S+"isa.rs", S+"assembler.rs"],
  [("operand decoding functions", S+"instruction.rs"), ("addressing mode decoding and encoding", S+"addressing_modes.rs AddressingMode, BriefExtensionWord"), ("size fields", S+"instruction.rs Size")],
  ["Instruction and Operands values", "AddressingMode, BriefExtensionWord and Size methods"])
p("C28", "A host can read code and registers through the core's public helpers",
  "A new core starts in supervisor mode with interrupts masked, registers zero, running; new() processes a reset at its first step and new_no_reset() does not. Between steps a host may use the core's helpers: get_next_word and get_next_long fetch the words at PC and advance PC past them, peek_next_word fetches without advancing, an odd PC is refused with an address error before anything is read and a refused access is an access error; d_byte and d_word replace only the low byte or word of a data register; a(), a_mut(), sp() and sp_mut() reach A7 of the current mode only. None changes anything else. A clone of a core behaves from then on as the original would.",
  ["inputs", "histories"], "all register numbers, values and PC values, both modes, faulty memories, helper calls interleaved with steps, requests and clones on all CPU models",
  "No test calls the helpers; what matters is that they change nothing else in any state and agree with the interpreter about PC and the active stack pointer.",
  [S+"lib.rs", S+"memory_access.rs"],
  [("code fetch helpers", S+"memory_access.rs get_next_word, get_next_long, peek_next_word"), ("register access", S+"lib.rs Registers"), ("construction and clone", S+"lib.rs M68000")],
  ["values returned, registers, status register, memory accesses", "later steps of a cloned core"])
p("C29", "Exceptions, vectors, instruction classes and number helpers tell the truth",
  "Exception::from keeps the vector, is_interrupt is true exactly for the autovectors 25-31 and the on-chip vectors 57-63, and exceptions form a total order that is the order in which the core processes them (equal only when the vectors are); every Vector has its 68000 number; is_privileged is true exactly of the privileged instructions; the public carrying and borrowing operations give the sum and difference modulo the size with the carry, borrow or signed overflow; even, bit, bits and the slice readers give what they are named for; the word iterator over a memory yields each word once and in order, reports refused and odd addresses as errors and stays where it is on an odd one.",
  ["inputs"], "all 256 vectors and all pairs of them, all 65536 opcodes, all byte operands with both carries, boundary-biased words and longs",
  "Few of these are tested and only at sample values; hosts and the interpreter build on all of them.",
  [S+"exception.rs", S+"isa.rs", S+"utils.rs", S+"memory_access.rs"],
  [("exception order", S+"exception.rs Exception, get_vector_priority"), ("privileged instructions", S+"isa.rs Isa::is_privileged"), ("carry arithmetic", S+"utils.rs CarryingOps"), ("word iterator", S+"memory_access.rs MemoryIter")],
  ["values returned"])
p("C30", "The shipped C headers describe the library",
  "A C or C++ program that includes include/m68000/m68000-ffi.h and nothing else compiles, links with the m68000-ffi library and, for both CPU models, gets from every function declared there what the Rust core does: same callback traffic, registers, cycles, vectors, addresses and text, with the callbacks, results and registers in the members the headers give them. The vectors, sizes and directions named in m68000.h are the library's, and an Instruction with its Operands, AddressingMode and BriefExtensionWord reads in C as in Rust; sizes of all these types agree.",
  ["inputs", "histories"], "instructions of all 65536 opcodes, all 45 vectors, random histories and closed-model paths played by a C program compiled with the headers",
  "The headers are generated files that no test compiles; a stale or wrong declaration silently gives every C host wrong registers, vectors or memory.",
  ["include/m68000/m68000-ffi.h", "include/m68000/m68000.h", "m68000-ffi/src/lib.rs"],
  [("function and callback declarations", "include/m68000/m68000-ffi.h"), ("data structures and enumerations", "include/m68000/m68000.h")],
  ["what a C program observes"])
p("C31", "The disassembler program and the decoder generator do their jobs",
  "The disassemble program lists every instruction of a file once and in order, from the beginning position until the end position or the end of the file (an instruction that starts before the end is listed whole), each with its position and its disassembly text, in the output file or, without one or when it cannot be made, on the standard output, and ends with status 0. The decoder program writes a decoder.rs that compiles and gives every opcode the instruction of the M68000 instruction set, so that regenerating the decoder never changes the machine. (Files whose last instruction is cut are not covered.)",
  ["inputs"], "random files of whole instructions, all combinations of the options; all 65536 opcodes",
  "No test runs the programs; the generator is the documented source of the decoding table.",
  [S+"bin/disassemble.rs", S+"bin/decoder.rs", S+"decoder.rs"],
  [("listing loop", S+"bin/disassemble.rs main"), ("opcode patterns", S+"bin/decoder.rs generate_isa")],
  ["listing", "decoder.rs written"])
p("C32", "The SCC68070 programs run their ROM and print what it writes to the port",
  "The scc68070 program starts an SCC68070 with the reset vector taken from the beginning of the ROM file, with the ROM at $400000 in a RAM of 5 MB, and a serial port whose status at $80002013 always says ready and whose other registers read 0; there is nothing at any other address (an access there is a bus error). It prints every byte written to the data register at $80002019, once and in order, in whatever size it was written, makes 1 000 000 000 steps (STOP only ends the work of the CPU), then prints the time taken and ends with status 0. The scc68070_ffi program is the same machine on the C interface: for every ROM that accesses the port with byte instructions only, it prints the same.",
  ["inputs", "histories"], "random ROMs of up to a few hundred steps with handlers, traps, bus errors, RAM and port accesses of all sizes; one ROM that prints at the last steps",
  "No test runs the programs, the examples of whole machines built on the library and on its C interface; what it prints depends on every step before.",
  [S+"bin/scc68070.rs", S+"lib.rs", "m68000-ffi/src/bin/scc68070_ffi.rs"],
  [("memory map and serial port", S+"bin/scc68070.rs Microcontroller"), ("run loop", S+"bin/scc68070.rs main"), ("the same on the C interface", "m68000-ffi/src/bin/scc68070_ffi.rs")],
  ["standard output", "exit status"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
