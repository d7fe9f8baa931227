// D01: integer results of the core's execution path.
#include "core_path.h"

static int done, wrote;
static uint32_t wbval;
static void watch(const Ran &r, int port) {
  for (int i = 0; i < ISSUE_WIDTH; i++) {
    if (exu2rob.entry[i].valid) {
      sx_assert(i == port && exu2rob.entry[i].uop.rob_idx == r.rob, "completion names the instruction");
      sx_assert(!exu2rob.entry[i].uop.mispred && !exu2rob.entry[i].uop.page_fault_inst && !exu2rob.entry[i].uop.flush_pipe, "no side effects on completion");
      done++;
    }
    if (exe2prf.entry[i].valid && exe2prf.entry[i].uop.dest_en)
      wrote++;
  }
  for (int i = 0; i < LSU_AGU_COUNT; i++)
    sx_assert(!exe2lsu.agu_req[i].valid, "no address sent to the LSU");
  for (int i = 0; i < LSU_SDU_COUNT; i++)
    sx_assert(!exe2lsu.sdu_req[i].valid, "no store data sent to the LSU");
  sx_assert(!exu2id.mispred && exu2id.clear_mask == 0 && !exe2csr.we && !exe2csr.re, "no branch or CSR activity");
}
template <class F> static void run(uint32_t fixed, uint32_t free, F spec, int port, int cycles) {
  path_init();
  uint32_t inst = (sx_var("inst", 0, 32) & free) | fixed;
  pc_ = sx_var("pc", 0, 32);
  pnext_ = sx_var("pnext", 0, 32);
  ptaken_ = sx_var("ptaken", 0, 1);
  IsaOut o = spec(inst, pc_, reg0[isa_rs1(inst)], reg0[isa_rs2(inst)]);
  sx_assume(o.known);
  Ran r = dispatch(inst);
  sx_assert(r.has[IQ_INT] && !r.has[IQ_LD] && !r.has[IQ_STA] && !r.has[IQ_STD] && !r.has[IQ_BR], "dispatched as one integer operation");
  sx_assert(!r.d.illegal_inst, "a defined encoding is not illegal");
  sx_assert(r.d.dest_en == (isa_rd(inst) != 0), "writes a register unless rd is x0");
  sx_assert(!r.d.dest_en || r.d.dest_areg == isa_rd(inst), "destination register number");
  issue(port, r.u[IQ_INT]);
  cycle(r);
  watch(r, port);
  no_issue();
  for (int c = 0; c < cycles; c++) {
    cycle(r);
    watch(r, port);
  }
  sx_assert(done == 1, "completes exactly once");
  sx_assert(wrote == (isa_rd(inst) != 0), "writes back exactly once");
  for (int p = 0; p < PRF_NUM; p++)
    if (p == DEST)
      sx_assert(prf.reg_file[p] == (isa_rd(inst) ? o.val : reg0[p]), "destination value");
    else
      sx_assert(prf.reg_file[p] == reg0[p], "other registers unchanged");
  sx_cover(isa_rd(inst) != 0, "writes a register");
  sx_observe("dest", 0, prf.reg_file[DEST]);
}
template <uint32_t OP> static void upper() {
  run(OP, ~0x7fu, [](uint32_t i, uint32_t pc, uint32_t a, uint32_t b) {
    return isa_ctl(i, pc, a, b);
  }, 1, 3);
}
extern "C" void hx_c_lui() { upper<0x37>(); }
extern "C" void hx_c_auipc() { upper<0x17>(); }
template <uint32_t F3> static void op() {
  run(0x33 | (F3 << 12), ~0x707fu, [](uint32_t i, uint32_t pc, uint32_t a, uint32_t b) {
    sx_assume(isa_f7(i) != 1);
    return isa_op(i, pc, a, b);
  }, 0, 3);
}
template <uint32_t F3> static void opimm() {
  run(0x13 | (F3 << 12), ~0x707fu, [](uint32_t i, uint32_t pc, uint32_t a, uint32_t) {
    return isa_opimm(i, pc, a);
  }, 1, 3);
}
template <uint32_t F3> static void m() {
  run(0x2000033 | (F3 << 12), ~0xfe00707fu, [](uint32_t i, uint32_t pc, uint32_t a, uint32_t b) {
    return isa_m(i, pc, a, b);
  }, F3 < 4 ? 0 : 1, F3 < 4 ? 4 : DIV_MAX_LATENCY + 3);
}
#define EIGHT(n) \
  extern "C" void hx_c_op##n() { op<n>(); } \
  extern "C" void hx_c_opimm##n() { opimm<n>(); } \
  extern "C" void hx_c_m##n() { m<n>(); }
EIGHT(0) EIGHT(1) EIGHT(2) EIGHT(3) EIGHT(4) EIGHT(5) EIGHT(6) EIGHT(7)
