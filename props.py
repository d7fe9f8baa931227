"""Registry: for every property the harness units which decide it."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))


def E(name, **kw):
    return dict(name=name, **kw)


def U(name, harness, repo, entries, **kw):
    return dict(name=name, harness=harness, repo=repo, entries=entries, **kw)


KNOWN = json.load(open(os.path.join(HERE, "known_findings.json")))["open"]

PROPS = {}
REF = ["diff/ref.cpp"]
REFA = ["the physical RAM is the 1 GB at 0x80000000; accesses outside it and to devices are outside this property unless stated",
        "software floating point routines and the branch oracle are replaced by arbitrary deterministic functions"]
FPLIB = "the floating point library is shipped as a binary and is trusted: comparisons follow the IEEE rules, arithmetic and in-range conversions are fixed functions of operands and rounding mode, subtraction is addition of the negated operand"
PROPS["R01"] = dict(
    units=[U("ref", "ref_int.cpp", REF, [E("hx_lui"), E("hx_auipc"), E("hx_jal"), E("hx_jalr"), E("hx_branch"), E("hx_op"), E("hx_opimm"), E("hx_muldiv"), E("hx_fence")])],
    bounds="one instruction (one-step induction) from an arbitrary state; all encodings, register contents, pc, CSR values and RAM contents symbolic; loops of the code (32 iterations at most) fully unrolled",
    assumptions=["fetch untranslated from RAM", "no enabled interrupt pending"] + REFA)
PROPS["R02"] = dict(
    units=[U("ref", "ref_mem.cpp", REF, [E("hx_load"), E("hx_store"), E("hx_load_sv32"), E("hx_store_sv32")])],
    bounds="one load or store from an arbitrary state, any width, any naturally aligned RAM address, translated or not",
    assumptions=["no enabled interrupt pending", "for the translated entries the instruction has already been fetched"] + REFA)
PROPS["R08"] = dict(
    units=[U("dev", "ref_mem.cpp", REF, [E("hx_dev_store"), E("hx_dev_load")], incl=["small_map.h"])],
    bounds="one untranslated load or store of any width from an arbitrary state, to the serial port's first word, the interrupt controller's claim word or any word of its first two megabytes",
    assumptions=["no enabled interrupt pending", "naturally aligned accesses; the instruction is in RAM", "what is printed is not observed", "the standard hash map is replaced by a table of eight places with the same interface"])
PROPS["R03"] = dict(
    units=[U("ref", "ref_mem.cpp", REF, [E("hx_amo"), E("hx_lr"), E("hx_sc")])],
    bounds="one atomic instruction from an arbitrary state, any aligned RAM address, untranslated",
    assumptions=["no enabled interrupt pending", "reserved funct5 encodings are not claimed"] + REFA)
PROPS["R04"] = dict(
    units=[U("ref", "ref_trap.cpp", REF, [E("hx_sv32_fetch"), E("hx_sv32_load"), E("hx_sv32_store"), E("hx_fetch_sv32"), E("hx_pf_fetch"), E("hx_pf_load"), E("hx_pf_store"), E("hx_pf_lr"), E("hx_pf_sc"), E("hx_pf_amo")])],
    bounds="one access from an arbitrary state; the two-level walk over arbitrary RAM contents is fully unrolled",
    assumptions=["no enabled interrupt pending", "comparison of faults with the core is switched off (reference-only mode)", "page table words outside RAM read as zero"] + REFA)
PROPS["R05"] = dict(
    units=[U("ref", "ref_trap.cpp", REF, [E("hx_ecall"), E("hx_mret"), E("hx_sret"), E("hx_illegal"), E("hx_irq"), E("hx_irq_masked")])],
    bounds="one step from an arbitrary state",
    assumptions=["mstatus.MPP does not hold the reserved value 2 when MRET executes"] + REFA)
PROPS["R06"] = dict(
    units=[U("ref", "ref_trap.cpp", REF, [E("hx_csr%d" % i) for i in range(19)] + [E("hx_csr_ro")])],
    bounds="one CSR instruction from an arbitrary state, one entry per register",
    assumptions=["no enabled interrupt pending", "CSR access privilege is not checked by this core and not claimed"] + REFA)
PROPS["R07"] = dict(
    units=[U("ref", "ref_fp.cpp", REF, [E("hx_" + k) for k in ("fadd", "fsub", "fmul", "fdiv", "fsqrt", "fcvt_w", "fcvt_s", "fsgnj", "fminmax", "fcmp", "fclass", "fmadd", "fmsub", "fnmsub", "fnmadd", "fp_undef")])],
    bounds="one instruction from an arbitrary state; all encodings, rounding modes and operand bit patterns symbolic",
    assumptions=["fetch untranslated from RAM", "no enabled interrupt pending", FPLIB,
                 "dynamic rounding means round to nearest even (there is no floating point control register)", "fused multiply-add with a reserved format field is not claimed"] + REFA[:1])
PROPS["C01"] = dict(
    units=[U("csr", "csr_unit.cpp", ["back-end/Exu/Csr.cpp"], [E("hx_core_exc"), E("hx_core_ret"), E("hx_core_irq"), E("hx_core_idle")])],
    bounds="one clock cycle of the CSR unit from an arbitrary register state (supervisor views consistent)",
    assumptions=["at most one trap/return kind is broadcast in a cycle", "an exception or return is not broadcast while an interrupt is deliverable (the reorder buffer takes the interrupt first)", "MPP does not hold the reserved value 2 at MRET"])
PROPS["C02"] = dict(
    units=[U("csr", "csr_unit.cpp", ["back-end/Exu/Csr.cpp"], [E("hx_core_csr%d" % i) for i in range(19)])],
    bounds="five clock cycles: execute, wait, commit or squash, then a non-writing CSR instruction executes and commits; arbitrary register state, one entry per CSR",
    assumptions=["one CSR instruction is in flight at a time (dispatch serialises them)", "a committing CSR instruction also flushes the pipeline"])
_PATH = ["back-end/Idu.cpp", "back-end/Dispatch.cpp", "back-end/Prf.cpp", "back-end/Exu/Exu.cpp"]
_PATHA = ["the instruction is alone in the path: sources are renamed to physical registers 0-31 with final values, the destination to a fixed free one, and every queue has room",
          "the program counter port answers the request for this instruction with its pc and prediction and any other request with different values",
          "the issue queue is replaced by a direct hand-over of the dispatched operation (its stored form is the real conversion)"]
PROPS["D01"] = dict(
    units=[U("int", "core_int.cpp", _PATH,
             [E("hx_c_lui"), E("hx_c_auipc")] + [E("hx_c_%s%d" % (k, i)) for k in ("op", "opimm", "m") for i in range(8)])],
    bounds="one instruction followed until its result is in the register file (3 cycles, 5 for multiplication, 21 for division); all encodings, operand values and pc symbolic",
    assumptions=_PATHA + ["no squash while it is in flight (D04 covers squashes)"])
PROPS["D02"] = dict(
    units=[U("ctl", "core_ctl.cpp", _PATH, [E("hx_c_jal"), E("hx_c_jalr"), E("hx_c_two")] + [E("hx_c_br%d" % i) for i in (0, 1, 4, 5, 6, 7)])],
    bounds="one branch or jump followed for 3 cycles, and two branches executing in the same cycle; all encodings, operands, pc and predictions symbolic",
    assumptions=_PATHA + ["no squash while it is in flight (D04 covers squashes)"])
PROPS["D03"] = dict(
    units=[U("mem", "core_mem.cpp", _PATH, [E("hx_c_ld%d" % i) for i in (0, 1, 2, 4, 5)] + [E("hx_c_st%d" % i) for i in (0, 1, 2)] + [E("hx_c_lr"), E("hx_c_sc")] + [E("hx_c_amo%d" % i) for i in (0, 1, 4, 8, 12, 16, 20, 24, 28)])],
    bounds="one memory instruction followed from decode to the write of the value returned by the memory side; all encodings, operands and returned values symbolic",
    assumptions=_PATHA + ["the memory side is replaced by an arbitrary answer to the request", "the store-data part of an atomic issues after its load has returned (it depends on it)", "no squash while it is in flight"])
PROPS["D04"] = dict(
    units=[U("kill", "core_kill.cpp", _PATH,
             [E("hx_k_%s" % k) for k in ("alu", "csr", "ld", "sta", "std", "br")] +
             [E("hx_k_%s_%s" % (k, m), branch_check=".") for k, n in (("mul", 4), ("div", 20), ("fp", 7))
              for m in ["n"] + [x + str(c) for c in range(n) for x in "fh"]])],
    bounds="one operation per execution unit kind, followed until it must have completed (3 cycles; 4 for multiplication, 8 for floating-point addition, 21 for division); flush, misprediction, kill mask and resolved-branch mask symbolic in every cycle (for multiplication, division and floating point the squash that hits is in a cycle fixed per entry, every cycle has its entry)",
    assumptions=["branch tag 0 is never allocated (decode starts at tag 1)", "the operation is alone in its unit"])
PROPS["D05"] = dict(
    units=[U("fp", "core_fp.cpp", _PATH, [E("hx_c_" + k) for k in ("fadd", "fsub", "fmul", "fdiv", "fsqrt", "fcvt_w", "fcvt_s", "fsgnj", "fminmax", "fcmp", "fclass", "fundef")])],
    bounds="one instruction followed for 13 cycles (the slowest takes 10); all encodings, rounding modes, operand bit patterns and left-over rounding modes symbolic",
    assumptions=_PATHA + [FPLIB, "dynamic rounding means round to nearest even (there is no floating point control register)", "fused multiply-add is not decoded by the core and not claimed", "no squash while it is in flight"])
PROPS["O01"] = dict(
    units=[U("prf", "prf_unit.cpp", ["back-end/Prf.cpp"],
             [E("hx_read%d" % i) for i in range(6)] + [E("hx_writeback"), E("hx_pc_alu"), E("hx_pc_br")])],
    bounds="one clock cycle from an arbitrary register file and writeback stage with arbitrary results on every bypass; one reader per issue queue kind",
    assumptions=["a physical register other than 0 has at most one producer on the bypass and one in the writeback stage", "loads are written back through the load ports only"])
PROPS["N01"] = dict(
    units=[U("ren", "ren_unit.cpp", ["back-end/Ren.cpp"],
             [E("hx_ren%d" % i) for i in (0, 1, 3, 29, 30, 31)] +
             [E("hx_%s%d" % (k, n)) for k, ns in (("COMMIT", (0, 1, 2, 4, 30, 31)), ("FLUSH", (0, 1, 4, 31)), ("EXC", (0, 1, 4, 31)), ("MISPRED", (0, 1, 4, 31))) for n in ns])],
    bounds="one clock cycle from an arbitrary mapping and free list standing for N writers in flight; renaming for N in {0,1,3,29,30,31}, commit for {0,1,2,4,30,31}, flush, exception and misprediction for {0,1,4,31} of at most 31",
    assumptions=["instructions retire in the order of renaming", "nothing retires in the cycle a misprediction is broadcast", "exceptions and interrupts come with a flush", "two branches of one group hold different tags", "tag 0 is not used"])
PROPS["N02"] = dict(
    units=[U("idu", "idu_unit.cpp", ["back-end/Idu.cpp"], [E("hx_tags_" + k) for k in ("nn", "bn", "nb", "bb", "jj", "jb")])],
    bounds="one clock cycle from every set and age order of up to 15 unresolved branches, every branch result latched from the execution units, two instructions of each kind pair (other/branch/jal/jalr)",
    assumptions=["only unresolved branches are reported resolved, and a mispredicted one is among them", "renaming accepts nothing in a flush or misprediction cycle (shown by N01)"])
PROPS["I01"] = dict(
    units=[U("iss", "iss_unit.cpp", ["back-end/Isu.cpp"],
             [E("hx_%s%d_%d" % (q, k, i), branch_check="schedule", tier=t) for q, k, r, t in (
                 ("INT", 2, range(16), "quick"), ("INT", 3, (21, 27, 57), "quick"), ("LD", 2, range(4), "quick"), ("LD", 3, (3, 5, 7), "quick"),
                 ("STA", 2, range(4), "quick"), ("STD", 2, range(4), "quick"), ("BR", 2, range(4), "quick"),
                 ("INT", 3, sorted(set(range(64)) - {21, 27, 57}), "thorough"), ("LD", 3, (0, 1, 2, 4, 6), "thorough"), ("LD", 4, range(16), "thorough")) for i in r], vec=True)],
    bounds="one clock cycle; issue queues of 2 and 3 entries (the code is parametric in the size; the core uses 16 and 32) with arbitrary contents, two arriving operations, arbitrary pending wake-ups; for 3 entries only the cases with two or three ready operations",
    assumptions=["dispatch sends no more operations than the announced room", "waiting operations have different reorder buffer entries", "the divider and the FP unit accept a new operation only after the previous result has been announced", "the standard library vector starts with room for 32 elements"])
_MEM = ["MemSubSystem/" + f for f in ("MemSubsystem.cpp", "RealDcache.cpp", "DcacheConfig.cpp", "MSHR.cpp", "WriteBuffer.cpp", "MemRouteBlock.cpp", "PeripheralAxi.cpp", "PtwWalker.cpp")]
_MEMD = dict(defs=["CONFIG_ICACHE_USE_AXI_MEM_PORT=0"], incl=["axi_llc_shim.h"])
PROPS["M01"] = dict(
    units=[U("mem", "mem_dcache.cpp", _MEM, [E("hx_" + k + a, loop_check=8, **t) for a, t in (("", dict(timeout=400)), ("_any", dict(tier="thorough", timeout=600))) for k in ("cached", "buffered", "missing", "filling", "nowhere")], **_MEMD)],
    bounds="one clock cycle from an arbitrary consistent state of the cache, 8 miss registers and 8 write buffer entries (ring starting at entry 6; any start in the thorough tier); lines of two cache sets of one bank with any tag, words 6, 7, 14 and 15 of a line; two loads and two stores in the pipeline and two of each arriving",
    assumptions=["the memory bus answers a read with the memory's content, only for an issued request, and performs a write when it accepts it", "no instruction fetch, page walk or device access in the same cycle (T02)"])
PROPS["T02"] = dict(
    units=[U("mem", "mem_dcache.cpp", _MEM, [E("hx_" + o + k, loop_check=8, timeout=400) for o in ("walk_", "probe_") for k in ("cached", "buffered", "missing", "filling", "nowhere")], **_MEMD)],
    bounds="as M01, with a page-table read or an instruction-side lookup of the watched word on the last load port, and an arbitrary consistent state of the two-client page-table walker",
    assumptions=["as M01 for the memory bus", "a client does not cancel its walk and ask for another in the same cycle"])
PROPS["F01"] = dict(
    units=[U("chk", "front_check.cpp", ["front-end/predecode.cpp", "front-end/predecode_checker.cpp"], [E("hx_group")])],
    bounds="one fetch group of four arbitrary instruction words at an arbitrary address with arbitrary predictions",
    assumptions=[])
PROPS["F02"] = dict(
    units=[U("que", "front_queue.cpp", ["back-end/PreIduQueue.cpp", "back-end/InstructionBuffer.cpp"], [E("hx_queue"), E("hx_queue_squash"), E("hx_table"), E("hx_table_squash"), E("hx_lookup")])],
    bounds="one clock cycle from every fill level and position of the 32-entry queue and the 16-group table with arbitrary contents; one instruction and one group, at any position, are compared",
    assumptions=["decode consumes a prefix of what it is offered", "instructions retire in order, and their groups are in the table", "nothing retires in the cycle a misprediction is broadcast", "the group of a mispredicted branch is in the table"])
PROPS["F03"] = dict(
    units=[U("flow", "front_flow.cpp", ["front-end/front_top.cpp", "front-end/predecode.cpp", "front-end/predecode_checker.cpp", "front-end/host_profile.cpp"] + ["front-end/fifo/%s.cpp" % f for f in ("PTAB", "fetch_address_FIFO", "front2bank_FIFO", "instruction_FIFO")], [E("hx_" + k + j) for k in ("start", "start_r0", "run", "run_r0", "run_r1", "full", "full_r1", "waiting", "waiting_r0", "waiting_r2") for j in ("", "_j")], **_MEMD)],
    bounds="from reset: up to 3 cycles of arbitrary predictions or 24 cycles that fill every queue or 10 cycles in which the cache does not answer, then 2 or 3 cycles in which prediction, cache timing, hand-over requests and restart targets are arbitrary and a restart comes in none or in one given cycle, then 6 cycles in which everything answers; instruction memory is one fixed pattern with every kind of instruction in every place",
    assumptions=["the predictor continues where it predicts and gives one prediction per group (the predictor itself is replaced)", "the instruction cache has one request outstanding, answers it in any later cycle, and drops it at a restart (the cache itself is replaced)", "the memory-port and bus libraries that are not part of the repository are replaced by empty headers"])
PROPS["F04"] = dict(
    units=[U("icache", "front_icache.cpp", ["front-end/icache/icache.cpp", "front-end/icache/icache_module.cpp", "front-end/icache/ICacheTop.cpp", "front-end/host_profile.cpp", "MemSubSystem/PtwWalker.cpp"], [E("hx_" + k) for k in ("lookup", "fetching", "merging", "cancelled", "reset")], path=["shim/axi_io"], incl=["icache_tables.h"]),
           U("array", "icache_array.cpp", ["front-end/host_profile.cpp"], [E("hx_data"), E("hx_tag"), E("hx_valid")])],
    bounds="one clock cycle from arbitrary contents of the cache and arbitrary registers; address, page, fault, restart, fences, ready, acceptance and answer of the memory port, answer of the data cache symbolic; arrays of 64 sets with three writes (two for the data), a reset and a read",
    assumptions=["memory at an address being fetched and the page tables do not change without a fence, but the newest copy may be in the data cache when the fetch starts and move to memory meanwhile; then the first word's lookup finds it (T02)", "a read is accepted only while it is asked for or in the cycle after it was dropped, and answered after its acceptance or together with it", "the data cache answers one lookup at a time and never a dropped one (T02)", "the front end asks only when told ready, and a translation fence comes with a restart", "the address is a multiple of four"])
PROPS["T01"] = dict(
    units=[U("tlb", "mmu_tlb.cpp", ["back-end/Lsu/TlbMmu.cpp", "MemSubSystem/PtwWalker.cpp"], [E("hx_" + k) for k in ("load0", "load1", "store0", "store1", "fetch", "fence_d", "fence_i", "cancel_d", "cancel_i")])],
    bounds="one clock cycle of the data TLB with four accesses and of the instruction TLB with one, from arbitrary contents of the 16 entries that agree with the page tables; page, address space, privilege, status bits, table entry and walk in flight symbolic",
    assumptions=["the page tables of an address space, and pages marked global, do not change without a fence", "a walk's answer arrives while the walk is in flight and for its page (T02)", "reserved privilege encodings do not occur"])
_LSU = ["back-end/Lsu/RealLsu.cpp", "back-end/Lsu/RealLsuPerf.cpp", "MemSubSystem/DcacheConfig.cpp"]
PROPS["B01"] = dict(
    units=[U("rob", "rob_unit.cpp", ["back-end/Rob.cpp"], [E("hx_retire"), E("hx_slot"), E("hx_squash"), E("hx_complete")], **_MEMD)],
    bounds="one clock cycle; all 64 places with arbitrary occupancy, arbitrary head and tail; arbitrary contents of the head line and of one further place; two arriving instructions; reports on all ten ports",
    assumptions=["each part of an instruction reports once, on a port of its kind, and only instructions in flight report", "a misprediction names an instruction in flight and nothing arrives in that cycle", "instructions that fail to be fetched or decoded arrive as no-operations; only loads, stores and atomic accesses can fault later", "the two parts of an atomic access fault with the same address", "the deadlock counter is below its limit"])
PROPS["B02"] = dict(
    units=[U("dis", "dis_unit.cpp", ["back-end/Dispatch.cpp"], [E("hx_order"), E("hx_parts")])],
    bounds="one clock cycle; two arbitrary waiting instructions, arbitrary room in every queue, any availability of all 64 registers, all wake-up ports",
    assumptions=["two instructions have different destination registers, and only stores and branches have none by their kind", "the two places offered in the load queue differ"])
PROPS["P01"] = dict(
    units=[U("dev", "dev_unit.cpp", ["back-end/PhysMemory.cpp"], [E("hx_regs"), E("hx_irq"), E("hx_words"), E("hx_dma1"), E("hx_dma4"), E("hx_dma7"), E("hx_dma132"), E("hx_dmabad")], incl=["small_map.h"])],
    bounds="one store from arbitrary register contents, then any number of cycles below 2^20 and one clock tick; transfers of 1, 4 and 7 bytes between any two places of a 16-byte window, and of 132 bytes between places up to 4 bytes apart; any refused transfer; three stores to and one load from plain device words",
    assumptions=["timer and DMA registers are accessed as words", "accesses are naturally aligned", "a completion names a source below 256", "the standard hash map is replaced by a table of eight places with the same interface", "the standard output is replaced by a recorder"])
PROPS["P02"] = dict(
    units=[U("bus", "bus_unit.cpp", ["MemSubSystem/PeripheralAxi.cpp", "back-end/PhysMemory.cpp"], [E("hx_read"), E("hx_write"), E("hx_inner")], incl=["small_map.h"])],
    bounds="one access of any kind from idle, until it has been answered; the bus takes 0 to 3 cycles to accept and 0 to 3 further cycles to answer",
    assumptions=["the bus answers only a request it has accepted, once", "naturally aligned accesses"])
PROPS["P03"] = dict(
    units=[U("dev", "dev_unit.cpp", ["back-end/PhysMemory.cpp"], [E("hx_ram"), E("hx_block5"), E("hx_isram")], incl=["small_map.h"])],
    bounds="three word writes and one read at any addresses (in RAM, within a 16-byte window); one block of five bytes written and one read at any place of the window; any range",
    assumptions=["the standard hash map is replaced by a table of eight places with the same interface"])
PROPS["L01"] = dict(
    units=[U("ld", "lsu_load.cpp", _LSU, [E("hx_forward%d" % n, tier="quick" if n < 7 else "thorough") for n in range(17)] + [E("hx_second2"), E("hx_second4")] + [E("hx_" + p) for p in ("alloc", "tlb", "stlf", "cache", "finish", "device", "room")], **_MEMD)],
    bounds="one clock cycle; forwarding with 0 to 6 older stores (0 to 16 in the thorough tier) in arbitrary states, first in line or second; the stages of one load with up to two other loads in each queue, a store-conditional and a device access",
    assumptions=["naturally aligned accesses, physical addresses below 0xfffffff8", "the cache answers a request at most once and answers carry the number of their request", "a store suppresses its write or waits for commit only after its outcome is decided (L02, L03)", "the memory management unit answers in the cycle it is asked (T01)"])
PROPS["L02"] = dict(
    units=[U("st", "lsu_store.cpp", _LSU, [E("hx_%s%d" % (p, i)) for p in ("alloc", "tlb", "data", "done", "commit", "sending", "sent", "over") for i in (0, 1, 3)] + [E("hx_device")], **_MEMD)],
    bounds="one clock cycle; one store in each stage behind 0, 1 or 3 older stores and before one younger, in arbitrary states",
    assumptions=["stores commit in order and only when reported complete (the reorder buffer)", "the cache answers only outstanding requests", "committed stores depend on no unresolved branch", "no flush in the cycle of a misprediction broadcast, and a flush commits at most one instruction"])
PROPS["L03"] = dict(
    units=[U("st", "lsu_store.cpp", _LSU, [E("hx_reserve"), E("hx_conditional")], **_MEMD)],
    bounds="one clock cycle with two committing stores, one store and one load in translation and one finished load; four cycles of one store-conditional",
    assumptions=["a load-reserved and a store-conditional start only when every older instruction has committed, as dispatch ensures"])

_BACK = ["back-end/BackTop.cpp", "back-end/PreIduQueue.cpp", "back-end/InstructionBuffer.cpp", "back-end/Idu.cpp", "back-end/Ren.cpp", "back-end/Dispatch.cpp", "back-end/Isu.cpp", "back-end/Prf.cpp", "back-end/Exu/Exu.cpp", "back-end/Exu/Csr.cpp", "back-end/Rob.cpp", "back-end/Lsu/TlbMmu.cpp", "MemSubSystem/PtwWalker.cpp"] + _LSU
_WP = ["alu", "narrow", "long", "mem", "chain", "alias", "noalias", "retry", "br_nn", "br_nt", "br_tn", "br_tt", "br2_nn", "br2_nt", "br2_tt", "call", "loop", "csr", "ecall", "illegal", "amo", "lrsc", "dev", "devspec", "fence", "user", "wrong", "many", "stores", "loads", "dev_fence", "dev_fencei", "dev_sfence", "dev_csr", "dev_branch", "ops1", "ops2", "ops3", "width0", "width1", "width2", "width3", "jalr_right", "jalr_next", "jalr_wrong", "wrong3", "atomics", "scfail", "csrs", "csr_s", "scall_m", "scall_s", "p_same", "p_two"] + ["f_" + k for k in ("load", "load_s", "store", "store_s", "amo", "ro", "noa", "nod", "xo", "user", "user_m", "super", "fetch", "fetch_s", "fetch_u", "lr", "sc", "two")] + ["a_" + k for k in ("sum", "sums", "mxr", "mprv", "mprv_u", "user", "toggle", "space", "asid", "large", "device", "wrong")] + ["i%d_%s" % (n, k) for n in range(2, 23) for k in ("timer_m", "outer_m", "timer_s", "outer_s")] + ["%s_%s" % (b, k) for b in ("beq", "bne", "blt", "bge", "bltu", "bgeu") for k in ("nn", "nt", "tn", "tt")] + ["i%d_%s" % (n, k) for n in range(2, 19) for k in ("plain", "branch", "atomic", "device", "system", "fences")]
PROPS["W01"] = dict(
    units=[U("back", "back_whole.cpp", _BACK, [E("hx_w_" + k, branch_check=".", exec_limit=100) for k in _WP], path=["shim/refapi"], **_MEMD)],
    bounds="108 programs of 3 to 40 instructions (every register operation, dependency chains, different latencies, every kind of load, store and atomic, store to load forwarding, pointer chasing, cache retries, full queues, every kind of branch predicted rightly and wrongly, calls and loops, control registers, system calls and illegal instructions in all modes, fences, devices, translated addresses with every kind of page fault, two address spaces, large pages and fetch faults); six programs with a timer interrupt raised in each of the cycles 2 to 18; a program with page faults interrupted by the timer or from outside, taken in machine or supervisor mode, in each of the cycles 2 to 22; one schedule of fetch groups, memory, walker and device answers per program; up to 400 cycles",
    assumptions=["the instructions, predictions and answer times of a program are fixed; registers, memory and the control registers that do not steer traps are arbitrary, but branches go the way the program's entry says", "accesses are naturally aligned and, as stated per program, in memory or at the serial port; translated accesses stay in three pages mapped to arbitrary places in memory, and the page tables do not change", "the front end predicts direct jumps rightly (F01)", "the memory answers within the stated time or asks for a retry, and a device takes one access at a time", "the floating-point library is an uninterpreted function"])

_MP = ["one", "evict", "evict_slow", "evict_busy", "misses", "misses_slow", "merge", "merge_slow", "wrong", "device", "lrsc", "pages", "fault_load", "fault_store", "fault_user", "fault_far", "remap", "remap_cold", "remap_slow", "space", "asid"] + [k + "%d%d" % (a, b) for k in ("mix", "imix", "pmix") for a in range(1, 5) for b in range(8)]
PROPS["W02"] = dict(
    units=[U("sys", "back_mem.cpp", _BACK + [f for f in _MEM if f not in _BACK], [E("hx_m_" + k, branch_check=".", exec_limit=200) for k in _MP], path=["shim/refapi"], **_MEMD)],
    bounds="117 programs of 7 to 40 instructions with fixed addresses and arbitrary data: lines of one set evicting each other, more misses than miss registers, stores to lines on their way, wrong paths, reservations, device registers, tables in memory with faults, rewritten entries and two address spaces, and 96 mixed programs (plain, with an interrupt, and translated with faults) drawn from fixed seeds; bus delays of 2 to 20 cycles with and without refused requests; up to 1500 cycles",
    assumptions=["instructions, addresses, predictions and answer times of a program are fixed; the data in registers and memory is arbitrary except for page tables", "the bus answers reads in the order of acceptance with the memory's content and performs a write when it accepts it", "instructions are supplied by the harness and direct jumps are predicted rightly (F01)", "a retiring store is passed to the devices as the simulator's top level does"])

PROPS["X01"] = dict(
    units=[U("lock", "lock_step.cpp", [], [E("hx_agree"), E("hx_differ"), E("hx_take")], path=["shim/refapi"], **_MEMD)],
    bounds="one step with arbitrary core state; the reference model's state agrees with it, or differs from it in one item in any way",
    assumptions=["the reference library (not part of the repository) has one state before and one after the step", "the supervisor's view of the pending interrupts is that of the machine's", "stopping the simulation is recorded instead of ending the process, and output is dropped"])

for _p in ("R01", "R02", "R03", "R04", "R05", "R06", "R07", "R08"):
    for _u in PROPS[_p]["units"]:
        for _e in _u["entries"]:
            _e.setdefault("branch_check", ".")
