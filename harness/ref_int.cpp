#include "ref_common.h"
static void finish(const Snap &s, const IsaOut &o, uint32_t inst, uint32_t probe, uint32_t pv) {
  sx_assume(o.known);
  sx_assert(cpu.state.pc == o.next, "next pc");
  gprs_except(s, o.wr, isa_rd(inst), o.val, "integer registers");
  same_csrs(s, "control state unchanged");
  sx_assert(word_at(probe) == pv, "memory unchanged");
  sx_assert(!cpu.state.store, "no store reported");
  sx_cover(isa_rd(inst) != 0, "writes a register");
  sx_observe("pc", 0, cpu.state.pc);
  for (int i = 1; i < 32; i++)
    sx_observe("x", i, cpu.state.gpr[i]);
}
template <class F> static void run(F spec) {
  arbitrary_state();
  uint32_t inst = bare_fetch();
  no_interrupt();
  Snap s = snap();
  uint32_t probe = probe_addr(), pv = word_at(probe);
  uint32_t a = s.gpr[isa_rs1(inst)], b = s.gpr[isa_rs2(inst)];
  IsaOut o = spec(inst, s.pc, a, b);
  cpu.exec();
  finish(s, o, inst, probe, pv);
}
template <uint32_t OP> static void ctl() {
  run([](uint32_t i, uint32_t pc, uint32_t a, uint32_t b) {
    sx_assume((i & 0x7f) == OP);
    return isa_ctl(i, pc, a, b);
  });
}
extern "C" void hx_lui() { ctl<0x37>(); }
extern "C" void hx_auipc() { ctl<0x17>(); }
extern "C" void hx_jal() { ctl<0x6f>(); }
extern "C" void hx_jalr() { ctl<0x67>(); }
extern "C" void hx_branch() { ctl<0x63>(); }
extern "C" void hx_op() {
  run([](uint32_t i, uint32_t pc, uint32_t a, uint32_t b) {
    sx_assume((i & 0x7f) == 0x33);
    sx_assume(isa_f7(i) != 1);
    return isa_op(i, pc, a, b);
  });
}
extern "C" void hx_muldiv() {
  run([](uint32_t i, uint32_t pc, uint32_t a, uint32_t b) {
    sx_assume((i & 0x7f) == 0x33);
    sx_assume(isa_f7(i) == 1);
    return isa_m(i, pc, a, b);
  });
}
extern "C" void hx_opimm() {
  run([](uint32_t i, uint32_t pc, uint32_t a, uint32_t) {
    sx_assume((i & 0x7f) == 0x13);
    return isa_opimm(i, pc, a);
  });
}
extern "C" void hx_fence() {
  run([](uint32_t i, uint32_t pc, uint32_t, uint32_t) {
    sx_assume((i & 0x7f) == 0x0f);
    return IsaOut{true, false, 0, pc + 4};
  });
}
