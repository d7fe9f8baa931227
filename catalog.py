"""Catalogue of the properties: the text published in properties.jsonl, and for
each one how it is decided.  `python3 gen.py` regenerates properties.jsonl,
MANIFEST.json and the per-property part of DESIGN.md from it."""

ONLY_REF = "The test programs run only on the reference model, with the operand values, encodings and control register settings that the programs happen to contain; "
NO_TEST = "No test executes this part of the simulator at all (the tests run only the reference model); "

C = []


def P(id, title, statement, over, text, why, files, mech, how, oracle, **kw):
    C.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, how=how, oracle=oracle, **kw))


P("R01", "Reference model: integer, multiply/divide and bit-manipulation instructions",
  "For every RV32IM and Zba/Zbb/Zbc/Zbs instruction and every register contents, one step of the reference model writes exactly the destination value the RISC-V manual defines and sets the next pc the manual defines. No other register, no control register, no memory word and no reservation changes, and register x0 stays zero.",
  ["inputs", "programs"], "all instruction words of these extensions, all register contents, all program counters, all control register contents",
  ONLY_REF + "a wrong result for one operand pair or one register combination is not reached.",
  ["diff/ref.cpp", "diff/include/ref.h"], [("instruction decode and execution", "RefCpu::RISCV, RefCpu::RV32IM in diff/ref.cpp")],
  "Executes one step of the reference model on a symbolic state (registers, CSRs, 1 GB RAM as an array, instruction word unconstrained inside one opcode group) and asserts destination, next pc and the frame.",
  "isa_spec.h: an executable statement of the manual written independently of the repository")
P("R02", "Reference model: loads and stores move exactly the addressed bytes",
  "A naturally aligned load from RAM returns exactly the addressed bytes with the sign or zero extension of its width, and a naturally aligned store to RAM changes exactly the addressed bytes and reports them as the committed store. This holds with and without address translation, and nothing else in the machine state changes apart from the next pc.",
  ["inputs", "programs"], "all loads and stores, base registers, offsets, store data, RAM contents, page tables that allow the access",
  ONLY_REF + "sub-word lanes, offsets and page layouts are sampled.",
  ["diff/ref.cpp"], [("loads, stores and their byte lanes", "RefCpu::RV32IM, RefCpu::store_data, RefCpu::load_word in diff/ref.cpp"), ("translation", "RefCpu::va2pa")],
  "One load or store from an arbitrary state; RAM is an SMT-style array, a probe address is symbolic so the memory frame is checked at every address at once.",
  "isa_spec.h and byte-wise recomputation")
P("R03", "Reference model: atomic memory operations and LR/SC",
  "Each RV32A read-modify-write returns the old word and stores the combined word as the manual defines, a load-reserved returns the word and sets a reservation on its physical address, and a store-conditional stores and returns 0 exactly when a reservation on that address is held, else leaves memory alone and returns 1. Every store-conditional that completes gives up the reservation, and no other state changes.",
  ["inputs", "programs"], "all nine AMOs, LR and SC, all operands, addresses in RAM, reservation states, histories of an earlier store",
  ONLY_REF + "reservation states and extreme operands are sampled.",
  ["diff/ref.cpp"], [("atomic execution", "RefCpu::RV32A in diff/ref.cpp"), ("store side effects", "RefCpu::store_data")],
  "One atomic instruction from an arbitrary state including arbitrary left-overs of the previous instruction.",
  "isa_spec.h")
P("R04", "Reference model: Sv32 translation and page faults",
  "A fetch, load, store or atomic under Sv32 translation reaches the physical address that the page tables give, and takes a page fault exactly when the privileged manual's walk (as this core implements it, with accessed and dirty bits managed by software) forbids it. A faulting instruction changes no memory and no integer register, and traps with the right cause, faulting address, return address, delegation target and status stack.",
  ["inputs", "programs", "configurations"], "all virtual addresses, page table contents in RAM, satp/mstatus/medeleg settings and privilege levels",
  ONLY_REF + "they run mostly untranslated.",
  ["diff/ref.cpp"], [("page walk and permission check", "RefCpu::va2pa in diff/ref.cpp"), ("trap entry", "RefCpu::exception")],
  "Page tables are the symbolic RAM itself, so the walk is decided for every table at once; each fault kind has its own entry.",
  "isa_spec.h walk and trap rules, written from the privileged manual")
P("R05", "Reference model: traps, returns and interrupts",
  "ECALL, MRET, SRET, illegal time reads and interrupts in the reference model update privilege, the status stack, epc, cause, tval and pc as the privileged manual defines, including delegation and vectored targets. An interrupt is taken exactly when one is pending, enabled and deliverable at the current privilege, its cause names the first deliverable one (external, then software, then timer), and a trap never delegates out of machine mode.",
  ["inputs", "configurations"], "all CSR contents, privileges, timer values and histories of the previous instruction",
  ONLY_REF + "combinations of delegation, enables, privilege and pending bits are sampled.",
  ["diff/ref.cpp"], [("interrupt detection", "RefCpu::RISCV in diff/ref.cpp"), ("trap entry and return", "RefCpu::exception in diff/ref.cpp")],
  "One step from an arbitrary state; the pending timer is a function of the symbolic time and compare registers.",
  "ref_priv.h: trap rules written from the privileged manual")
P("R06", "Reference model: control register instructions",
  "Each CSR instruction returns the old value of the addressed register, and writes the new value through that register's write mask, keeping the supervisor views equal to their slices of the machine registers. The set and clear forms with a zero source do not write, and no unrelated register changes.",
  ["inputs", "programs"], "all six CSR instructions, the 19 writable registers and the read-only ones, all source values and CSR contents",
  ONLY_REF + "few registers and values are written.",
  ["diff/ref.cpp"], [("CSR read, mask and write", "RefCpu::RV32CSR in diff/ref.cpp")],
  "One CSR instruction per entry, the register selected per entry, all values symbolic.",
  "write masks and views restated in ref_trap.cpp")
P("R07", "Reference model: floating-point instructions",
  "Each single-precision instruction of the reference model applies its IEEE operation, under the encoded rounding mode (dynamic means nearest even), to exactly the operand registers it names and writes the result to its destination, with the canonical NaN for NaN results, the manual's saturated values for out-of-range conversions, and its rules for NaN and signed zero in minimum, maximum, comparison, sign injection and classification. No other state changes, and an undefined computational encoding or rounding mode traps as an illegal instruction leaving every register as it was.",
  ["inputs", "programs"], "all single-precision instructions of the reference model, rounding modes, register numbers and operand bit patterns, and all undefined encodings of the computational opcode",
  ONLY_REF + "NaN payloads, signed zeros, out-of-range conversions and reserved encodings are sampled at best.",
  ["diff/ref.cpp"], [("floating-point execution", "RefCpu::RV32Zfinx, f32_min_riscv, f32_max_riscv, f32_classify in diff/ref.cpp"), ("dispatch and trap", "RefCpu::RISCV in diff/ref.cpp")],
  "Executes one step of the reference model on a symbolic state. The arithmetic library is only available as a binary, so its routines become uninterpreted functions of operands and rounding mode (comparisons are modelled exactly); what is decided is which routine is applied to which operands under which rounding mode, and all of the bit-level rules.",
  "fp_spec.h: the manual's rules, written independently of the repository, over the same uninterpreted library")
P("R08", "Reference model: serial port, interrupt controller and device words",
  "A store of the reference model to a device word changes exactly its bytes there and reports address and data, and a load returns them. A character sent to the serial port leaves its data byte zero; writing 7 to its second byte makes the claim word 10 and the machine external interrupt pending, writing 5 sets its identification bits to 3, and a write to the claim word with low byte 10 clears both the word and the pending bit. The supervisor's view of the pending interrupts follows.",
  ["inputs"], "all stores and loads to these words from all register and device contents",
  ONLY_REF + "they use the serial port only to print.",
  ["diff/ref.cpp"], [("device stores", "RefCpu::store_data, store_word in diff/ref.cpp"), ("device loads", "RefCpu::load_word")],
  "Executes one step of the reference model on a symbolic state whose three device words are arbitrary.",
  "the device words' rules as the repository's device model documents them")
P("C01", "Core control registers: traps, returns and interrupt pending state",
  "When the core takes an exception, a trap return or an interrupt, the privilege level, status stack, epc, cause, tval and the redirect address become what the privileged manual defines for the current delegation, vector mode and privilege. Pending interrupt bits follow the injected device state, an interrupt is requested exactly when one is pending, enabled and deliverable, several are taken external first, then software, then timer, and in a cycle with no such event nothing changes.",
  ["inputs", "configurations"], "all control register contents (supervisor views consistent), privileges, exception kinds, faulting values and injected interrupt lines, one clock cycle",
  NO_TEST + "and the combinations of delegation, vector mode, enables and privilege are too many to run.",
  ["back-end/Exu/Csr.cpp", "back-end/include/Csr.h"], [("trap entry, return and interrupt request", "Csr::comb_exception, Csr::comb_interrupt in back-end/Exu/Csr.cpp"), ("device interrupt lines", "Csr::comb_interrupt_inject")],
  "Runs the CSR unit's clock cycle, in the order the core calls it, from an arbitrary register state with a symbolic broadcast from the reorder buffer.",
  "priv_spec.h: trap rules written from the privileged manual, shared with the reference-model checks")
P("C02", "Core control registers: CSR instructions take effect once, at commit",
  "A CSR instruction executed by the core reads the old value and, if it commits, writes the value the manual defines through the register's mask while keeping the supervisor views equal to their machine registers. If it is squashed instead, no control register changes, neither then nor when a later CSR instruction that does not write commits.",
  ["inputs", "histories"], "all write commands, source values, control register contents, commit or squash of the instruction, followed by a second instruction",
  NO_TEST + "and a stale write shows only for particular squash histories.",
  ["back-end/Exu/Csr.cpp"], [("latched write applied at commit", "Csr::comb_csr_write in back-end/Exu/Csr.cpp"), ("read", "Csr::comb_csr_read")],
  "Five clock cycles of the CSR unit, symbolic register state and source, one entry per writable register.",
  "priv_spec.h write masks and views")
P("D01", "Core execution path: integer instructions write the right value once",
  "An RV32IM or Zba/Zbb/Zbc/Zbs instruction that is decoded, dispatched, reads its operands and executes in the core writes exactly the value the manual defines to its destination, exactly once, and reports completion of its own reorder buffer entry exactly once. It writes no other register, sends nothing to memory, branch recovery or the control registers, and writes nothing when rd is x0.",
  ["inputs", "programs"], "all instruction words of these extensions, all operand values, all program counters",
  NO_TEST + "and a wrong result for one operand pair, one immediate form or one register number is not sampled.",
  ["back-end/Idu.cpp", "back-end/Dispatch.cpp", "back-end/Prf.cpp", "back-end/Exu/Exu.cpp", "back-end/Exu/include/Fu.h", "back-end/Exu/include/AbstractFU.h"],
  [("decode", "Idu::decode"), ("splitting into operations", "Dispatch::comb_alloc, comb_dispatch"), ("operand read", "Prf::comb_read"), ("execution", "Exu::comb_exec and the functional units in back-end/Exu/include")],
  "One symbolic instruction word per encoding group goes through the real decode, dispatch, operand read, execution unit and writeback code, connected as the core connects them.",
  "isa_spec.h, the same executable statement of the manual that decides R01")
P("D02", "Core execution path: branches and jumps resolve correctly",
  "A branch or jump executed by the core is reported as mispredicted exactly when its real direction or target differs from the prediction, with the manual's target as the redirect address, and its link value is the manual's. It releases exactly its own branch tag, and when two branches execute in the same cycle the older mispredicted one decides the redirect.",
  ["inputs", "programs"], "all branch and jump encodings, operands, pcs, predictions, tags and ages",
  NO_TEST + "and prediction/outcome combinations are not controlled by programs.",
  ["back-end/Idu.cpp", "back-end/Dispatch.cpp", "back-end/Prf.cpp", "back-end/Exu/Exu.cpp", "back-end/Exu/include/Fu.h", "back-end/Exu/include/AbstractFU.h"],
  [("branch unit", "BruUnit in back-end/Exu/include"), ("choice of the oldest misprediction", "Exu::comb_exec / comb_ready")],
  "As D01 with the prediction symbolic; a second entry issues two branches with symbolic ages together.",
  "isa_spec.h control flow rules and a restatement of age order")
P("D03", "Core execution path: memory instructions send the right requests",
  "A load, store, load-reserved, store-conditional or atomic decoded and executed by the core sends exactly the address, width, data and queue slot the manual and its dispatch define, to the load or store side it belongs to, and the returned value (for an atomic: the old memory word) ends up in its destination register. For an atomic the value sent to be stored is the combination of the old word with the source operand that the manual defines.",
  ["inputs", "programs"], "all load, store and atomic encodings, base values, offsets, store data, returned memory values",
  NO_TEST + "and offset signs, widths and operand extremes are not sampled.",
  ["back-end/Idu.cpp", "back-end/Dispatch.cpp", "back-end/Prf.cpp", "back-end/Exu/Exu.cpp"],
  [("splitting into address, data and load operations", "Dispatch::comb_alloc"), ("address and store data units", "AguUnit, SduUnit in back-end/Exu/include")],
  "As D01; the memory side is replaced by an arbitrary returned value.",
  "isa_spec.h")
P("D04", "Core execution path: squashed operations vanish, survivors complete once",
  "An operation in the execution units that is squashed by a pipeline flush or by a misprediction of a branch it depends on never reports completion, never sends an address, data or control register access, and never redirects the front end. An operation that is not squashed completes exactly once even while unrelated branches mispredict or resolve.",
  ["schedules", "histories"], "all unit kinds, all branch masks, and in every cycle all flush, misprediction and branch resolution events",
  NO_TEST + "and the squash must hit in one particular cycle of a multi-cycle operation.",
  ["back-end/Exu/Exu.cpp", "back-end/Prf.cpp", "back-end/Exu/include/AbstractFU.h"],
  [("squash in the units", "comb_ctrl of the unit classes in back-end/Exu/include/AbstractFU.h"), ("squash in the stage registers", "Exu::comb_pipeline")],
  "One operation with symbolic branch mask, then a symbolic event in every cycle; branch conditions are decided by the solver during execution so that the unit's queues stay concrete.",
  "a count of completions against the squash rule")
P("D05", "Core execution path: floating-point instructions",
  "A single-precision computational instruction that is decoded, dispatched, reads its operands and executes in the core writes to its destination, exactly once, the value the manual defines for its operands and rounding mode (dynamic means nearest even), including canonical NaNs, saturated conversions and the NaN and signed zero rules of minimum, maximum, comparison, sign injection and classification. It completes exactly once and touches nothing else, and an undefined encoding of the computational opcode is decoded as an illegal instruction that writes no register and carries its own word as trap value.",
  ["inputs", "programs"], "all encodings of the computational floating-point opcode, rounding modes, register numbers and operand bit patterns",
  NO_TEST + "and NaN, signed zero, overflow and reserved encodings are rare in any program.",
  ["back-end/Idu.cpp", "back-end/Dispatch.cpp", "back-end/Prf.cpp", "back-end/Exu/Exu.cpp", "back-end/Exu/include/FPU.h", "back-end/Exu/include/AbstractFU.h"],
  [("operations and their results", "FPUSoftfloat::impl_compute in back-end/Exu/include/FPU.h"), ("decode", "Idu::decode in back-end/Idu.cpp")],
  "Pushes one symbolic instruction through the real decode, dispatch, operand read and execution stages for 13 cycles. The arithmetic library is an uninterpreted function of operands and rounding mode, as in R07.",
  "fp_spec.h, shared with R07")
P("O01", "Core operand read: newest value, x0 reads zero, squashed results dropped",
  "An operation reading a register receives the newest produced value, from a result just computed, a result being written back or the register file, and reading x0 always gives zero even while an instruction that targets x0 writes back. Results reach the register file unless squashed, other registers keep their values, and exactly the loads being written back wake the operations waiting for their register.",
  ["schedules", "inputs"], "all register contents, results in flight on every port, register numbers, squash events",
  NO_TEST + "and the wrong operand appears only for particular distances between producer and consumer.",
  ["back-end/Prf.cpp", "back-end/include/Prf.h"],
  [("operand selection", "read_operand_with_bypass, Prf::comb_read"), ("writeback", "Prf::comb_write, Prf::comb_pipeline"), ("wake-up", "Prf::comb_awake")],
  "One clock cycle from an arbitrary state; entries per issue queue kind, one for the writeback stage, two for the program counter ports.",
  "a restatement of the priority bypass, writeback, register file")
P("N01", "Register renaming: mapping, free registers, commit and recovery",
  "A renamed instruction reads the registers of the newest older writers and gets a register that no live value occupies; it waits when none is left. At retirement the register it replaced, and only that one, becomes free again; after a flush, exception, interrupt or branch misprediction the mapping and the free registers are exactly those of the surviving instructions.",
  ["histories", "schedules"], "all mappings, free lists, instruction pairs, retirements and recovery events; number of writers in flight as stated in the bounds",
  NO_TEST + "and a leaked or doubly owned register shows only after long histories.",
  ["back-end/Ren.cpp", "back-end/include/Ren.h"],
  [("allocation and mapping", "Ren::comb_alloc, comb_rename, comb_fire in back-end/Ren.cpp"), ("retirement and recovery", "Ren::comb_pipeline in back-end/Ren.cpp")],
  "One clock cycle of the rename stage from an arbitrary state that stands for a list of writers in flight; after it the state must stand for the updated list (one-step induction).",
  "a list of writers with their replaced registers, replayed into a map")
P("N02", "Branch tags: unique among unresolved branches, exact dependence masks",
  "Every decoded branch gets a tag no unresolved branch holds and every instruction depends on exactly the unresolved branches older than it; decoding stops when no tag is left. When branches resolve or are squashed by an older misprediction or a flush, exactly their tags become free and the order of the remaining branches is kept.",
  ["histories", "schedules"], "all sets and age orders of unresolved branches, all branch results, flushes, and pairs of instructions",
  NO_TEST + "and tag reuse errors need a particular order of resolution.",
  ["back-end/Idu.cpp", "back-end/include/Idu.h"],
  [("tag allocation", "Idu::comb_decode in back-end/Idu.cpp"), ("resolution and squash", "Idu::comb_branch, comb_fire in back-end/Idu.cpp")],
  "One clock cycle of the decode stage from an arbitrary state that stands for a set of unresolved branches with ages.",
  "set of live tags with ages")
P("I01", "Issue: ready operations only, once each, and no wake-up is lost",
  "An operation leaves the issue stage exactly once, when its operands are ready, to a unit that supports and accepts it; until then it waits unchanged, unless a flush or a misprediction it depends on removes it. Every result is announced when it becomes readable (even if several units finish together) and every waiting or arriving operation that reads it is marked ready by that announcement, by no other one.",
  ["schedules", "histories"], "all queue contents, arrivals, unit availability, results in flight, flush, misprediction and branch resolution events in the bounds",
  NO_TEST + "and a lost wake-up needs two results in one cycle or an arrival in the cycle of the announcement.",
  ["back-end/Isu.cpp", "back-end/include/Isu.h", "back-end/include/IssueQueue.h"],
  [("selection", "IssueQueue::schedule, comb_issue in back-end/include/IssueQueue.h"), ("wake-up", "Isu::comb_awake, comb_calc_latency_next in back-end/Isu.cpp; IssueQueue::comb_wakeup"), ("squash", "Isu::comb_flush")],
  "One clock cycle of the issue stage from an arbitrary state; one entry per pattern of ready operations.",
  "a set of waiting operations and a list of pending results")
P("W01", "Whole back end: short programs give the results of sequential execution",
  "For short programs of arithmetic, branches, jumps, loads, stores and atomics (translated or not), control register accesses, fences, system calls and faults, with any register and memory contents, the out-of-order back end retires the instructions in program order and leaves the registers, control registers, privilege mode and memory of a sequential execution, whatever was predicted, executed on a wrong path, delayed or retried; the program always finishes. A timer or external interrupt is taken exactly once, between two instructions and in the mode it is routed to, and the interrupted program is not disturbed. Device accesses happen exactly once, in program order, and never for an instruction that does not retire.",
  ["programs", "inputs", "schedules"], "all register, memory and device contents for the programs, predictions, answer times and interrupt moments in the bounds",
  NO_TEST + "and what a wrong interaction of two stages corrupts depends on the operands and on the cycle in which events meet.",
  ["back-end/BackTop.cpp", "back-end/PreIduQueue.cpp", "back-end/InstructionBuffer.cpp", "back-end/Idu.cpp", "back-end/Ren.cpp", "back-end/Dispatch.cpp", "back-end/Isu.cpp", "back-end/include/IssueQueue.h", "back-end/Prf.cpp", "back-end/Exu/Exu.cpp", "back-end/Exu/Csr.cpp", "back-end/Rob.cpp", "back-end/Lsu/RealLsu.cpp", "back-end/Lsu/TlbMmu.cpp"],
  [("order of the stages within a cycle and their connections", "BackTop::init, comb, seq in back-end/BackTop.cpp"), ("redirection of fetch", "BackTop::comb in back-end/BackTop.cpp"), ("taking over a state", "BackTop::restore_from_ref in back-end/BackTop.cpp"), ("retirement and interrupts", "Rob::comb_commit in back-end/Rob.cpp")],
  "The complete back end runs from reset, cycle by cycle, through the real stage functions, with symbolic register and memory contents; a small front end, memory, page table walker and device are part of the harness. After every cycle the retired state is compared with a sequential run of the same program. Control flow is kept concrete by asking the solver at every undecided branch.",
  "isa_spec.h, fp_spec.h and priv_spec.h applied to one instruction after the other")
P("W02", "Back end with caches and page tables: loads see the latest stores",
  "For short programs of loads, stores, atomics, branches, fences and device register accesses, running on the out-of-order back end joined to the data cache, its misses and write-backs and the page table walker, every register, the memory and the privilege mode end as in a sequential execution for all data, however lines are fetched, evicted, written back or delayed and whatever was executed on a wrong path or interrupted. Translated accesses use the page tables in memory, including entries just stored by the program once a translation fence has been executed, and fault exactly where those tables forbid the access. Every program finishes.",
  ["programs", "inputs", "schedules"], "all register and memory data for the programs, predictions, bus delays and interrupt moments in the bounds",
  NO_TEST + "and a lost or stale value needs a store, a miss, an eviction and a table walk to meet in particular cycles.",
  ["back-end/BackTop.cpp", "back-end/Rob.cpp", "back-end/Lsu/RealLsu.cpp", "back-end/Lsu/TlbMmu.cpp", "MemSubSystem/MemSubsystem.cpp", "MemSubSystem/RealDcache.cpp", "MemSubSystem/MSHR.cpp", "MemSubSystem/WriteBuffer.cpp", "MemSubSystem/MemRouteBlock.cpp", "MemSubSystem/include/MemPtwBlock.h", "MemSubSystem/PeripheralAxi.cpp", "MemSubSystem/include/PeripheralModel.h"],
  [("retry and wake-up of loads", "RealLsu in back-end/Lsu/RealLsu.cpp"), ("order of the memory subsystem within a cycle", "MemSubsystem::comb_outputs, comb_inputs, seq in MemSubSystem/MemSubsystem.cpp"), ("sharing of the cache by loads and walks", "MemRouteBlock in MemSubSystem/MemRouteBlock.cpp"), ("walks that see stores not yet written", "MemSubsystem::set_ptw_coherent_source")],
  "The real back end and the real memory subsystem run from reset, cycle by cycle, with symbolic data in registers and memory; fetch and the memory bus are part of the harness. After every cycle the retired state is compared with a sequential run, at the end the contents of cache, write buffer and memory too. Control flow is kept concrete by fixing addresses and asking the solver at every undecided branch.",
  "isa_spec.h and priv_spec.h applied to one instruction after the other; a two-level table walk on the sequential run's memory")
P("M01", "Data cache, misses in flight and write buffer act as one memory",
  "A completed load returns the value of the latest completed store to the address, or the memory's content if there was none, wherever the line is at that moment: cached, being fetched, being filled in, waiting to be written back, or only in memory. A completed store takes effect exactly once and on its bytes only, a request told to retry changes nothing, every request gets one answer with its own identity, and one told to wait for a line has a fetch of that line outstanding. A line is never in two places and a clean copy equals memory.",
  ["schedules", "histories"], "all cache contents, misses in flight, pending write backs, bus answers and combinations of two loads and two stores per cycle in the bounds",
  NO_TEST + "and a stale value needs a store to meet an eviction, fill or write back of the same line in one particular cycle.",
  ["MemSubSystem/MemSubsystem.cpp", "MemSubSystem/RealDcache.cpp", "MemSubSystem/MSHR.cpp", "MemSubSystem/WriteBuffer.cpp", "MemSubSystem/DcacheConfig.cpp"],
  [("lookup, fill and eviction", "RealDcache::stage1_comb, stage2_comb in MemSubSystem/RealDcache.cpp"), ("misses with merged stores", "MSHR::comb_outputs_dcache, comb_inputs_dcache in MemSubSystem/MSHR.cpp"), ("write back with bypass and merge", "WriteBuffer in MemSubSystem/WriteBuffer.cpp"), ("answering from a fill", "MemSubsystem::forward_pending_response_from_fill")],
  "One clock cycle of the whole memory subsystem from an arbitrary consistent state; an arbitrary word is watched through every place that can hold it; one entry per place.",
  "one memory word with a value")

P("F01", "Fetch follows the instructions where they contradict the prediction",
  "In a fetched group every jump counts as taken, every conditional branch follows its predicted direction and no other instruction is taken; fetching continues at the target of the first taken instruction where that is known from the instruction, at the predicted address for an indirect jump, and after the group otherwise. A correction is signalled exactly when that differs from the address that was predicted.",
  ["programs", "configurations"], "all four-instruction groups, addresses and predictions",
  NO_TEST + "and a wrong correction only slows execution down or sends fetch astray for particular neighbouring instructions and predictions.",
  ["front-end/predecode.cpp", "front-end/predecode_checker.cpp"],
  [("classification and target", "predecode_comb in front-end/predecode.cpp"), ("correction", "predecode_checker_comb in front-end/predecode_checker.cpp")],
  "Predecoding of four arbitrary words followed by the prediction check, against a direct reading of the instruction words.",
  "branch and jump targets of the RISC-V unprivileged specification")

P("F02", "Instructions reach decode once, in order, with their fetch group's data",
  "Fetched instructions are accepted whole groups at a time, offered to decode in fetch order and unchanged, and leave when decode takes them; a squash removes all of them and nothing else is lost or repeated. The address, the prediction and the predictor's data recorded for a group are what later lookups and retirement reports return, until the group's last instruction retires or a misprediction squashes it, and a group that is gone is reported as gone.",
  ["schedules", "histories"], "all fill levels, positions, group shapes, amounts consumed and retired, squashes and lookups in the bounds",
  NO_TEST + "and wrap-around, full queues and squashes in the same cycle as arrivals are rare.",
  ["back-end/PreIduQueue.cpp", "back-end/InstructionBuffer.cpp"],
  [("queue", "InstructionBuffer in back-end/InstructionBuffer.cpp"), ("group table", "FTQ in back-end/PreIduQueue.cpp"), ("lookups and retirement", "PreIduQueue::comb_ftq_lookup_rob, comb_ftq_lookup_prf, comb_commit_info")],
  "One cycle from an arbitrary consistent queue and table; one arbitrary instruction and one arbitrary group are followed; one-step induction over their representation invariants.",
  "a list of instructions and a list of groups")

P("F03", "Fetch groups come in program order and continue as decoded",
  "From a reset or a restart on, the front end hands over groups of consecutive instructions that start where the core asked, each next one starting where the one before said it continues, with the instructions, fetch faults and predictor data of that very address, cut at the end of the cache line. In every group jumps are marked taken, branches as predicted and nothing else, and it continues at the target of the first direct one taken or behind the group, whatever the predictor first claimed. Groups are handed over only when asked for and not in the cycle of a restart, none is lost or repeated, and they keep coming once cache and core are ready.",
  ["schedules", "histories"], "all predictions, cache response times, hand-over requests and restart targets in the bounds",
  NO_TEST + "and the cases that go wrong are coincidences: a correction, a restart, a full queue and a late cache answer in neighbouring cycles.",
  ["front-end/front_top.cpp", "front-end/predecode.cpp", "front-end/predecode_checker.cpp", "front-end/fifo/fetch_address_FIFO.cpp", "front-end/fifo/instruction_FIFO.cpp", "front-end/fifo/PTAB.cpp", "front-end/fifo/front2bank_FIFO.cpp"],
  [("per-cycle control", "front_top in front-end/front_top.cpp"), ("queues", "front-end/fifo"), ("correction", "predecode_checker in front-end/predecode_checker.cpp")],
  "The whole front end runs for several cycles from reset with an arbitrary predictor and an arbitrarily slow cache; each group handed over is compared with memory and with the end of the group before.",
  "instruction memory and the rule where a group continues")

P("F04", "Instructions fetched are those in memory at the translated address",
  "The instruction cache answers each fetch that is not dropped by a restart once, naming its address, with the current instructions at the translated address up to the end of the cache line, also when they are newer in the data cache, or with a page fault exactly when the page faults. A dropped fetch is not answered and its late memory answer is neither used nor left to block the port; after an instruction fence no line fetched before it is used, and a translation fence reaches the translations. A fetch stays pending until answered, asks memory for its own line until accepted, and is answered once the line and the data cache's answers are there.",
  ["schedules", "histories"], "all states and contents of the cache, fetch addresses, translations, restarts, fences, memory and data-cache answers in one cycle",
  NO_TEST + "and a stale or foreign instruction needs a restart, fence or eviction to fall into one particular cycle of a line's arrival.",
  ["front-end/icache/icache.cpp", "front-end/icache/icache_module.cpp", "front-end/icache/ICacheTop.cpp", "front-end/icache/GenericTable.h"],
  [("state machine of a fetch", "ICache in front-end/icache/icache_module.cpp"), ("arrays", "icache_comb_calc in front-end/icache/icache.cpp"), ("translation and ports", "TrueICacheTopT in front-end/icache/ICacheTop.cpp")],
  "One clock cycle from an arbitrary state in which valid lines agree with memory and the bookkeeping agrees with the reads outstanding; the agreement is re-established (one-step induction), starting from reset. The arrays are checked separately and stand in as arbitrary contents.",
  "one memory image and one translation of every page")

P("T01", "Translations agree with the page tables",
  "A translated access gets the physical address and the permission verdict the page tables, privilege and status bits give it, for pages and superpages, and an access is not faulted or allowed for another page's, address space's or privilege's reason; without translation the address passes unchanged. A miss waits for one walk of its own page and address space, a walk's result is not applied after the walk was cancelled, and a fence leaves no old translation behind.",
  ["schedules", "histories", "configurations"], "all translation-buffer contents that agree with the tables, pages, address spaces, privileges, status bits, table entries and walks in flight",
  ONLY_REF + "a wrong permission or a stale entry shows only for particular combinations of entry, privilege and an earlier walk.",
  ["back-end/Lsu/TlbMmu.cpp", "back-end/Lsu/include/TlbMmuKernel.h"],
  [("lookup and permission check", "TlbMmu::translate in back-end/Lsu/TlbMmu.cpp"), ("walk refill", "TlbMmu in back-end/Lsu/TlbMmu.cpp")],
  "One cycle of the data side with four accesses and of the instruction side with one, from arbitrary contents consistent with uninterpreted page tables; consistency is re-established (one-step induction).",
  "the Sv32 rules of the privileged specification applied to the leaf entry of the page")

P("T02", "Page walks and instruction lookups share the data cache without losing anything",
  "A page-table walk reads each entry as last stored, follows the two-level rules (invalid, misaligned superpage, pointer where a leaf is needed) and gives its client the leaf or the fault; requests of the two clients are served in turn, kept until served and dropped when cancelled, and a walk that has to wait is resumed. An instruction-side lookup in the data cache returns the current value and reports a line absent only when memory holds the current value; every lookup is answered or repeated, and a later one never gets an earlier one's answer. A load that loses its port to either is told to try again.",
  ["schedules", "histories"], "all cache states, walker states, client requests and cancellations, lookups and port conflicts in the bounds",
  NO_TEST + "and an instruction fetched stale needs modified code to be dirty, or still on its way into the cache, in the cycle a lookup collides with another access.",
  ["MemSubSystem/include/MemPtwBlock.h", "MemSubSystem/MemRouteBlock.cpp", "MemSubSystem/RealDcache.cpp", "MemSubSystem/MemSubsystem.cpp"],
  [("walk state machine", "MemPtwBlock in MemSubSystem/include/MemPtwBlock.h"), ("sharing the port", "MemRouteBlock::comb_request, comb_response in MemSubSystem/MemRouteBlock.cpp"), ("lookup", "RealDcache::stage2_comb")],
  "The cycle of M01 with the last load port owned by a walk or by the instruction cache. What the instruction cache makes of the answers is F04.",
  "one memory word with a value, and the Sv32 walk of the privileged specification")

P("B01", "Instructions retire once, in program order, and traps are precise",
  "Every instruction that enters the reorder buffer leaves it exactly once: by retiring, in program order and only when all its parts have completed and no fault, interrupt, return, CSR access or fence older than it restarts the program; or because it is younger than a mispredicted branch or a restart. A fence retires only when no retired store is still waiting to be written, and an interrupt replaces the oldest instruction in flight. A restart reports the address of the oldest instruction and exactly its own cause, with the faulting address or instruction as trap value in whichever order the parts of the access completed.",
  ["schedules", "histories", "programs"], "all contents and fill levels of the reorder buffer, completion reports of all ports, mispredictions, interrupts and arriving instructions in one cycle",
  NO_TEST + "and the failing cases need a wrapped or full buffer, a completion order or a restart in one particular cycle.",
  ["back-end/Rob.cpp", "back-end/include/Rob.h"],
  [("retirement and announcement of traps", "Rob::comb_commit in back-end/Rob.cpp"), ("completion reports", "Rob::comb_complete"), ("squash", "Rob::comb_branch, comb_flush"), ("arrival", "Rob::comb_fire")],
  "One whole cycle of the buffer from any content of its 64 places between any head and tail, for what retires and is announced and for what becomes of any one place; one cycle with reports on all ten ports for any one instruction.",
  "program order as the order of places from head to tail; the trap rules of the privileged architecture")
P("B02", "Dispatch in order, with every part placed once and every source tracked",
  "Instructions are handed to the reorder buffer in program order, each once, and only when every one of its parts has a place in its queue and it has its places in the load and store queues; each part arrives once with its instruction's fields, places, branch dependences and expected completions. A source is marked unavailable exactly when its writer has been dispatched and its result not announced, including a writer dispatched in the same cycle. CSR accesses and atomic operations wait until everything older has retired, and whatever is not dispatched waits unchanged until a restart or misprediction removes it.",
  ["schedules", "histories", "programs"], "all pairs of instructions, room in all queues, register availability, wake-ups, resolved branches, mispredictions and restarts in one cycle",
  NO_TEST + "and the failing cases need a nearly full queue, a wake-up or a resolved branch in the cycle of dispatch.",
  ["back-end/Dispatch.cpp", "back-end/include/Dispatch.h"],
  [("allocation", "Dispatch::comb_alloc in back-end/Dispatch.cpp"), ("availability of sources", "Dispatch::comb_wake, comb_fire"), ("split into parts", "Dispatch::decompose_inst, comb_dispatch"), ("order and serialisation", "Dispatch::comb_fire, comb_pipeline")],
  "One whole cycle of the stage for any two waiting and two arriving instructions.",
  "a list of the queues each kind of instruction needs; program order")
P("P01", "Timer, DMA engine, interrupt lines and console of the device model",
  "The 64-bit timer reads as the value software last gave it plus the cycles since, and its interrupt is raised exactly while it has reached the compare value; the external interrupt is raised exactly while a device has one pending, the claim register names such a device, and completing a source clears that source alone. A started DMA transfer whose ranges lie in RAM copies exactly its bytes as they were before it began, reports completion and interrupts only if that is enabled; any other is refused with an error and changes no memory. A byte stored to the transmit register is printed once and nothing else prints, and other device words read back as stored, for every width and extension.",
  ["inputs", "histories"], "all register contents, times, stored addresses, widths and data; all overlaps of a small transfer; all invalid ranges",
  NO_TEST + "and they never reprogram the timer halves around a carry, overlap a transfer with itself or complete one of two pending interrupts.",
  ["MemSubSystem/include/PeripheralModel.h", "back-end/PhysMemory.cpp"],
  [("stores to devices", "PeripheralModel::on_commit_store in MemSubSystem/include/PeripheralModel.h"), ("loads from devices", "PeripheralModel::read_load"), ("interrupt lines", "PeripheralModel::tick"), ("transfer", "PeripheralModel::start_dma_transfer")],
  "One store by the core from arbitrary device registers, then any number of cycles and one tick; every register and line is compared with the model of the statement.",
  "a model of the registers written from the statement; a byte-by-byte copy for transfers")
P("P02", "Every device access crosses the bus once and gets its own answer",
  "A load or store to a device outside the core is put on the bus exactly once, with its own address, size and, for a store, exactly its own bytes; it is answered exactly once, after the bus has answered it, and a load gets the bytes the device returned, extended as its width asks. A device inside the core is answered without using the bus, and no second access is taken before the first is answered.",
  ["schedules", "inputs"], "all accesses, all delays of the bus to accept and to answer within the bound, anything asked meanwhile",
  NO_TEST + "and a repeated or lost access depends on when the bus accepts and answers.",
  ["MemSubSystem/PeripheralAxi.cpp", "MemSubSystem/include/PeripheralAxi.h"],
  [("request", "PeripheralAxi::comb_outputs in MemSubSystem/PeripheralAxi.cpp"), ("acceptance and answer", "PeripheralAxi::comb_inputs"), ("state", "PeripheralAxi::seq")],
  "All cycles of one access, from an idle bridge with arbitrary leftovers to its answer, with the bus choosing its delays.",
  "the access as the core made it; one request and one answer")
P("P03", "Physical memory holds every word and block written to it",
  "A word of physical memory, in RAM or outside it, reads as what was last written to it, and writes change no other word. Blocks copied to and from RAM move exactly their bytes, of the same memory the words are in, lowest byte first. A range counts as RAM exactly if it is not empty and all of it lies in RAM.",
  ["inputs", "histories"], "all addresses, data and orders of the accesses in the bounds",
  NO_TEST + "and they reach no range ending at the edge of the address space.",
  ["back-end/PhysMemory.cpp", "include/PhysMemory.h"],
  [("words", "pmem_read, pmem_write in back-end/PhysMemory.cpp"), ("blocks", "pmem_memcpy_to_ram, pmem_memcpy_from_ram"), ("ranges", "pmem_is_ram_addr")],
  "Sequences of reads and writes at arbitrary addresses against a log of the writes.",
  "the log of the writes")
P("X01", "Lock-step comparison stops exactly the steps that differ",
  "With checking on, a step is stopped if core and reference model differ in the next program counter, the instruction (unless its fetch faults), a page fault, an integer register, a control register, or the reference's store (its presence, address or data); it is accepted if they agree, and with checking off always. The machine timer and external pending bits, and the supervisor's copy, count only for instructions that access the pending bits. The reference makes one step per instruction, knowing the core's page faults and time, and taking over the core's state gives it the core's registers, mode and reservation.",
  ["inputs"], "all core states and all differences in one item",
  "The existing tests never run the core, so they never compare; a comparison that misses a difference makes every run pass.",
  ["diff/diff.cpp", "diff/include/diff.h"],
  [("comparison", "checkregs, difftest_step in diff/diff.cpp"), ("taking over", "difftest_sync_from_dut, to_ref_state")],
  "One step with arbitrary core state and a reference state that agrees with it, or differs in one arbitrary item in an arbitrary way.",
  "the two states themselves")
P("L01", "A load gets the youngest older value of each byte, once",
  "A load is answered from older pending stores only with the bytes the youngest of them writes, never from a store whose address, data or outcome is open; it goes to the cache only when no older pending store can write its bytes, and a device is read only by the oldest unfinished instruction, after earlier device accesses have been answered. From dispatch to its single result a load keeps its address, translation, kind and place in the program, takes only the answers to its own requests, and is removed without trace exactly when it is squashed.",
  ["schedules", "histories", "programs"], "all combinations of older stores, addresses, widths, answers, retries, squashes and competing loads in the bounds",
  NO_TEST + "and a wrong value needs overlapping accesses in flight with particular timing.",
  ["back-end/Lsu/RealLsu.cpp", "back-end/Lsu/include/RealLsu.h", "back-end/Lsu/include/MemUtils.h"],
  [("forwarding", "RealLsu::comb_stlf in back-end/Lsu/RealLsu.cpp"), ("cache requests and answers", "RealLsu::comb_lsu2dcache_ldq, comb_dcache2lsu_ldq"), ("results", "RealLsu::comb_lsu2exe"), ("squash", "RealLsu::comb_flush"), ("devices", "RealLsu::comb_mmio_in, comb_mmio_out")],
  "Forwarding from an arbitrary store queue, one entry per number of older stores; one whole cycle of the unit for one arbitrary load in each of its stages among other loads, with one-step induction over its stage and queue; what dispatch is offered, from any fill level.",
  "per byte the youngest older store in program order; a stage per load")
P("L02", "A committed store reaches memory once, in order with its bytes; others never",
  "A store is reported complete once, with its own fault or with address and data present; only after its instruction has committed is it sent to the cache or device, with its own address, bytes and data, until it is accepted, and not before an older store to the same bytes is done. A squash removes exactly the stores that have not committed and are younger than its cause, and a store leaves when memory has it.",
  ["schedules", "histories"], "all stages, addresses, widths, answers, retries, commits and squashes with up to three older and one younger store",
  NO_TEST + "and a lost or reordered store needs a squash, a retry or two overlapping stores in the same few cycles.",
  ["back-end/Lsu/RealLsu.cpp", "back-end/Lsu/include/RealLsu.h", "back-end/Lsu/include/MemUtils.h"],
  [("commit", "RealLsu::comb_stq_commit in back-end/Lsu/RealLsu.cpp"), ("requests and answers", "RealLsu::comb_lsu2dcache_stq, comb_dcache2lsu_stq"), ("address and data", "RealLsu::handle_store_addr, handle_store_data, comb_tlb_in_stq"), ("squash and retirement", "RealLsu::comb_flush, comb_check")],
  "One whole cycle of the unit for one arbitrary store in each of its stages, with one-step induction over its stage, queue and contents.",
  "a store with address, data and stage; program order")
P("L03", "Store-conditional succeeds exactly under the reservation the program made",
  "A store-conditional reports success and writes its word exactly when the last load-reserved was for the same word and neither another store-conditional nor a store to that address has committed since; otherwise it reports failure and writes nothing, and either way the reservation ends when it commits. Faulting, squashed or speculative instructions leave the reservation alone, as in the reference model (a load-reserved that is itself squashed after it ran is not covered).",
  ["schedules", "histories", "programs"], "all reservations, addresses, commits, faults, mispredictions and flushes in one cycle, and a store-conditional from decision to write",
  NO_TEST + "and the loops of compilers and kernels hold reservations over few instructions.",
  ["back-end/Lsu/RealLsu.cpp"],
  [("decision", "RealLsu::comb_lsu2exe in back-end/Lsu/RealLsu.cpp"), ("reservation", "RealLsu::comb_stq_commit, comb_lsu2exe")],
  "One cycle with a load-reserved finishing or stores committing next to faulting and squashed accesses; four cycles of a store-conditional.",
  "the reservation rules of the reference model (diff/ref.cpp)")
