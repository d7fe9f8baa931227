// R07: floating point instructions in the reference model.
#include "ref_priv.h"
#include "fp_spec.h"
static void finish(const Snap &s, uint32_t inst, uint32_t val, uint32_t probe, uint32_t pv) {
  sx_assert(cpu.state.pc == s.pc + 4, "next pc");
  gprs_except(s, true, isa_rd(inst), val, "integer registers");
  same_csrs(s, "control state unchanged");
  sx_assert(word_at(probe) == pv && !cpu.state.store, "memory unchanged");
  sx_cover(isa_rd(inst) != 0, "writes a register");
  sx_observe("pc", 0, cpu.state.pc);
  for (int i = 1; i < 32; i++)
    sx_observe("x", i, cpu.state.gpr[i]);
}
template <uint32_t F7> static void one() {
  arbitrary_state();
  softfloat_roundingMode = sx_var("rmleft", 0, 3);
  uint32_t i = bare_fetch();
  sx_assume((i & 0x7f) == 0x53 && isa_f7(i) == F7);
  sx_assume(fp_defined(i));
  no_interrupt();
  Snap s = snap();
  uint32_t probe = probe_addr(), pv = word_at(probe);
  uint32_t v = fp_value(i, s.gpr[isa_rs1(i)], s.gpr[isa_rs2(i)]);
  cpu.exec();
  finish(s, i, v, probe, pv);
}
extern "C" void hx_fadd() { one<0x00>(); }
extern "C" void hx_fsub() { one<0x04>(); }
extern "C" void hx_fmul() { one<0x08>(); }
extern "C" void hx_fdiv() { one<0x0c>(); }
extern "C" void hx_fsqrt() { one<0x2c>(); }
extern "C" void hx_fcvt_w() { one<0x60>(); }
extern "C" void hx_fcvt_s() { one<0x68>(); }
extern "C" void hx_fsgnj() { one<0x10>(); }
extern "C" void hx_fminmax() { one<0x14>(); }
extern "C" void hx_fcmp() { one<0x50>(); }
extern "C" void hx_fclass() { one<0x70>(); }
template <uint32_t OP> static void fma() {
  arbitrary_state();
  uint32_t i = bare_fetch();
  sx_assume((i & 0x7f) == OP && (i >> 25 & 3) == 0 && fp_rm_ok(i));
  no_interrupt();
  Snap s = snap();
  uint32_t probe = probe_addr(), pv = word_at(probe);
  uint32_t S = 0x80000000u, a = s.gpr[isa_rs1(i)], b = s.gpr[isa_rs2(i)], c = s.gpr[i >> 27];
  softfloat_roundingMode = isa_f3(i) == 7 ? 0 : isa_f3(i);
  // +-(a*b) +- c
  uint32_t v = fp_canon(f32_mulAdd({OP >= 0x4b ? a ^ S : a}, {b}, {OP == 0x47 || OP == 0x4f ? c ^ S : c}).v);
  softfloat_roundingMode = sx_var("rmleft", 0, 3);
  cpu.exec();
  finish(s, i, v, probe, pv);
}
extern "C" void hx_fmadd() { fma<0x43>(); }
extern "C" void hx_fmsub() { fma<0x47>(); }
extern "C" void hx_fnmsub() { fma<0x4b>(); }
extern "C" void hx_fnmadd() { fma<0x4f>(); }
// undefined encodings trap
extern "C" void hx_fp_undef() {
  arbitrary_state();
  uint32_t i = bare_fetch();
  uint32_t op = i & 0x7f;
  sx_assume(op == 0x53 ? !fp_defined(i) : (op == 0x43 || op == 0x47 || op == 0x4b || op == 0x4f) && !fp_rm_ok(i));
  no_interrupt();
  Snap s = snap();
  Trap t = spec_exc(s, 2, i);
  spec_trap(s, t);
  cpu.exec();
  sx_cover(t.to_s && op == 0x53, "delegated");
  sx_cover(!t.to_s && op == 0x43, "machine");
  check_state(s);
}
