// D05: floating point instructions of the core's execution path.
#include "core_path.h"
#include "fp_spec.h"

static int done, wrote;
static void watch(const Ran &r) {
  for (int i = 0; i < ISSUE_WIDTH; i++) {
    if (exu2rob.entry[i].valid) {
      sx_assert(i == 1 && exu2rob.entry[i].uop.rob_idx == r.rob, "completion names the instruction");
      sx_assert(!exu2rob.entry[i].uop.mispred && !exu2rob.entry[i].uop.page_fault_inst && !exu2rob.entry[i].uop.flush_pipe, "no side effects on completion");
      done++;
    }
    if (exe2prf.entry[i].valid && exe2prf.entry[i].uop.dest_en)
      wrote++;
  }
  for (int i = 0; i < LSU_AGU_COUNT; i++)
    sx_assert(!exe2lsu.agu_req[i].valid, "no address sent to the LSU");
  for (int i = 0; i < LSU_SDU_COUNT; i++)
    sx_assert(!exe2lsu.sdu_req[i].valid, "no store data sent to the LSU");
  sx_assert(!exu2id.mispred && exu2id.clear_mask == 0 && !exe2csr.we && !exe2csr.re, "no branch or CSR activity");
}
template <uint32_t F7, int CYCLES> static void run() {
  path_init();
  uint32_t inst = ((uint32_t)sx_var("inst", 0, 32) & ~0xfe00007fu) | F7 << 25 | 0x53;
  softfloat_roundingMode = sx_var("rmleft", 0, 3);
  sx_assume(fp_defined(inst));
  uint32_t val = fp_value(inst, reg0[isa_rs1(inst)], reg0[isa_rs2(inst)]);
  Ran r = dispatch(inst);
  sx_assert(r.has[IQ_INT] && !r.has[IQ_LD] && !r.has[IQ_STA] && !r.has[IQ_STD] && !r.has[IQ_BR], "dispatched as one operation");
  sx_assert(!r.d.illegal_inst, "a defined encoding is not illegal");
  sx_assert(r.d.dest_en == (isa_rd(inst) != 0), "writes a register unless rd is x0");
  sx_assert(!r.d.dest_en || r.d.dest_areg == isa_rd(inst), "destination register number");
  issue(1, r.u[IQ_INT]);
  for (int c = 0; c <= CYCLES; c++) {
    cycle(r);
    no_issue();
    watch(r);
  }
  sx_assert(done == 1, "completes exactly once");
  sx_assert(wrote == (isa_rd(inst) != 0), "writes back exactly once");
  for (int p = 0; p < PRF_NUM; p++)
    if (p == DEST)
      sx_assert(prf.reg_file[p] == (isa_rd(inst) ? val : reg0[p]), "destination value");
    else
      sx_assert(prf.reg_file[p] == reg0[p], "other registers unchanged");
  sx_cover(isa_rd(inst) != 0, "writes a register");
  sx_observe("dest", 0, prf.reg_file[DEST]);
}
// the last cycles: one more than the slowest latency
extern "C" void hx_c_fadd() { run<0x00, 12>(); }
extern "C" void hx_c_fsub() { run<0x04, 12>(); }
extern "C" void hx_c_fmul() { run<0x08, 12>(); }
extern "C" void hx_c_fdiv() { run<0x0c, 12>(); }
extern "C" void hx_c_fsqrt() { run<0x2c, 12>(); }
extern "C" void hx_c_fcvt_w() { run<0x60, 12>(); }
extern "C" void hx_c_fcvt_s() { run<0x68, 12>(); }
extern "C" void hx_c_fsgnj() { run<0x10, 12>(); }
extern "C" void hx_c_fminmax() { run<0x14, 12>(); }
extern "C" void hx_c_fcmp() { run<0x50, 12>(); }
extern "C" void hx_c_fclass() { run<0x70, 12>(); }
// undefined encodings are marked illegal, write nothing and carry their word
extern "C" void hx_c_fundef() {
  path_init();
  uint32_t inst = ((uint32_t)sx_var("inst", 0, 32) & ~0x7fu) | 0x53;
  sx_assume(!fp_defined(inst));
  DecRenIO::DecRenInst d{};
  idu.decode(d, inst);
  sx_assert(d.illegal_inst && !d.page_fault_inst, "an undefined encoding is illegal");
  sx_assert(!d.dest_en, "an undefined encoding writes no register");
  sx_assert(d.diag_val == inst, "trap value is the instruction word");
  sx_cover(true, "undefined");
  sx_observe("ill", 0, d.illegal_inst);
}
