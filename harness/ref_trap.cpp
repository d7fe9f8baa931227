// Traps, returns, interrupts and control register instructions.
#include "ref_priv.h"
extern "C" void hx_ecall() {
  arbitrary_state();
  sx_assume(bare_fetch() == 0x00000073);
  no_interrupt();
  Snap s = snap();
  Trap t = spec_exc(s, s.priv == 0 ? 8 : s.priv == 1 ? 9 : 11, 0);
  spec_trap(s, t);
  cpu.exec();
  sx_cover(t.to_s, "delegated");
  sx_cover(!t.to_s, "machine");
  check_state(s);
}
extern "C" void hx_mret() {
  arbitrary_state();
  sx_assume(bare_fetch() == 0x30200073);
  no_interrupt();
  Snap s = snap();
  sx_assume((s.csr[csr_mstatus] >> 11 & 3) != 2);
  sx_cover(s.priv == 3, "mret");
  spec_mret(s);
  cpu.exec();
  check_state(s);
}
extern "C" void hx_sret() {
  arbitrary_state();
  sx_assume(bare_fetch() == 0x10200073);
  no_interrupt();
  Snap s = snap();
  sx_cover(s.priv == 1, "sret");
  spec_sret(s);
  cpu.exec();
  check_state(s);
}
extern "C" void hx_illegal() {
  arbitrary_state();
  uint32_t i = bare_fetch();
  sx_assume((i & 0x7f) == 0x73);
  sx_assume(isa_f3(i) != 0 && isa_f3(i) != 4);
  sx_assume((i >> 20) == 0xc01 || (i >> 20) == 0xc81);
  no_interrupt();
  Snap s = snap();
  Trap t = spec_exc(s, 2, i);
  spec_trap(s, t);
  cpu.exec();
  sx_cover(t.to_s, "delegated");
  sx_cover(!t.to_s, "machine");
  check_state(s);
}
static void pf_common(Snap &s, uint32_t cause, uint32_t va, uint32_t probe, uint32_t pv, bool fetch) {
  Trap t = spec_exc(s, cause, va);
  spec_trap(s, t);
  fetch ? cpu.exec() : cpu.RISCV();
  sx_cover(t.to_s, "delegated");
  sx_cover(!t.to_s, "machine");
  sx_assert(word_at(probe) == pv, "memory unchanged");
  check_state(s);
}
extern "C" void hx_pf_fetch() {
  arbitrary_state();
  sx_assume((cpu.state.csr[csr_satp] >> 31) && cpu.privilege != 3);
  no_interrupt();
  uint32_t pa;
  sx_assume(!spec_translate(cpu.state.pc, 0, pa));
  Snap s = snap();
  // a faulting fetch does not look at the timer yet
  s.csr[csr_mip] = cpu.state.csr[csr_mip];
  s.csr[csr_sip] = cpu.state.csr[csr_sip];
  uint32_t probe = probe_addr(), pv = word_at(probe);
  pf_common(s, 12, s.pc, probe, pv, true);
}
template <class VA> static void pf_data(uint32_t op, int type, uint32_t cause, VA va_of) {
  arbitrary_state();
  uint32_t i = fetched();
  no_interrupt();
  sx_assume((i & 0x7f) == op);
  translated_data();
  uint32_t va = va_of(i), pa;
  bool f = false;
  if (type & 1)
    f = f | !spec_translate(va, 1, pa);
  if (type & 2)
    f = f | !spec_translate(va, 2, pa);
  sx_assume(f);
  Snap s = snap();
  uint32_t probe = probe_addr(), pv = word_at(probe);
  pf_common(s, cause, va, probe, pv, false);
}
extern "C" void hx_pf_load() {
  pf_data(0x03, 1, 13, [](uint32_t i) { return cpu.state.gpr[isa_rs1(i)] + isa_immI(i); });
}
extern "C" void hx_pf_store() {
  pf_data(0x23, 2, 15, [](uint32_t i) { return cpu.state.gpr[isa_rs1(i)] + isa_immS(i); });
}
extern "C" void hx_pf_lr() {
  pf_data(0x2f, 1, 13, [](uint32_t i) {
    sx_assume((i >> 27) == 2);
    return cpu.state.gpr[isa_rs1(i)];
  });
}
extern "C" void hx_pf_sc() {
  pf_data(0x2f, 2, 15, [](uint32_t i) {
    sx_assume((i >> 27) == 3);
    return cpu.state.gpr[isa_rs1(i)];
  });
}
extern "C" void hx_pf_amo() {
  pf_data(0x2f, 3, 15, [](uint32_t i) {
    sx_assume((i >> 28) != 1);
    return cpu.state.gpr[isa_rs1(i)];
  });
}
// translation on its own: every access type, every page table content
template <int T> static void xlate() {
  arbitrary_state();
  uint32_t va = (uint32_t)sx_var("va", 0, 32), pa = 0, got = 0;
  bool ok = spec_translate(va, T, pa);
  bool g = cpu.va2pa(got, va, T);
  sx_assert(g == ok, "fault decision");
  sx_assert(!g || !ok || got == pa, "physical address");
  sx_cover(ok && (cpu.privilege == 1 || T), "translates");
  sx_cover(!ok, "faults");
  sx_observe("pa", 0, g ? got : 0);
}
extern "C" void hx_sv32_fetch() { xlate<0>(); }
extern "C" void hx_sv32_load() { xlate<1>(); }
extern "C" void hx_sv32_store() { xlate<2>(); }
extern "C" void hx_fetch_sv32() { // the instruction executed is the one at the translated address
  arbitrary_state();
  sx_assume((cpu.state.csr[csr_satp] >> 31) && cpu.privilege != 3);
  no_interrupt();
  uint32_t pa;
  sx_assume(spec_translate(cpu.state.pc, 0, pa));
  sx_assume(in_ram(pa));
  uint32_t i = word_at(pa);
  sx_assume((i & 0x7f) == 0x37);
  Snap s = snap();
  cpu.exec();
  sx_assert(cpu.state.pc == s.pc + 4, "next pc");
  gprs_except(s, true, isa_rd(i), isa_immU(i), "integer registers");
  same_csrs(s, "control state unchanged");
  sx_cover(isa_rd(i) != 0 && pa != s.pc, "translated fetch");
}
// interrupts
extern "C" void hx_irq() {
  arbitrary_state();
  uint32_t i = bare_fetch();
  (void)i;
  Snap s = snap();
  uint32_t m = spec_irq_m(s), sv = spec_irq_s(s);
  sx_assume(m || sv);
  sx_assume(i != 0x00100073);
  uint32_t probe = probe_addr(), pv = word_at(probe);
  cpu.exec();
  bool to_s = !m;
  uint32_t cs = to_s ? cpu.state.csr[csr_scause] : cpu.state.csr[csr_mcause];
  sx_assert(cs >> 31, "cause marks an interrupt");
  uint32_t code = cs & 0x7fffffff;
  sx_assert(code < 12 && ((to_s ? sv : m) >> (code & 31) & 1), "cause names a deliverable interrupt");
  sx_assert(code == spec_irq_first(to_s ? sv : m), "external before software before timer");
  Trap t{code, true, to_s, 0};
  spec_trap(s, t);
  sx_assert(word_at(probe) == pv, "memory unchanged");
  sx_cover(to_s && i == 0x00000073, "supervisor interrupt on ecall");
  sx_cover(!to_s && s.priv == 3, "machine interrupt in machine mode");
  check_state(s);
}
extern "C" void hx_irq_masked() { // nothing deliverable: the instruction executes
  arbitrary_state();
  uint32_t i = bare_fetch();
  sx_assume((i & 0x7f) == 0x37);
  Snap s = snap();
  sx_assume(!spec_irq_m(s) && !spec_irq_s(s));
  cpu.exec();
  sx_assert(cpu.state.pc == s.pc + 4, "next pc");
  gprs_except(s, true, isa_rd(i), isa_immU(i), "integer registers");
  same_csrs(s, "control state unchanged");
  sx_cover((s.csr[csr_mip] & s.csr[csr_mie]) != 0, "pending but masked");
}
static void csr_one(const CsrNo &c) {
  arbitrary_state();
  uint32_t i = bare_fetch();
  sx_assume((i & 0x7f) == 0x73);
  sx_assume((i >> 20) == c.no);
  uint32_t f3 = isa_f3(i);
  sx_assume((f3 & 3) != 0);
  no_interrupt();
  Snap s = snap();
  uint32_t old = s.csr[c.idx];
  uint32_t src = (f3 & 4) ? isa_rs1(i) : s.gpr[isa_rs1(i)];
  bool wr = (f3 & 3) == 1 || isa_rs1(i) != 0;
  if (wr)
    spec_csr_write(s, c, f3 & 3, src);
  cpu.exec();
  sx_assert(cpu.state.pc == s.pc + 4, "next pc");
  gprs_except(s, true, isa_rd(i), old, "integer registers");
  same_csrs(s, "control registers");
  sx_assert(!cpu.state.store, "no store reported");
  sx_cover(wr && (f3 & 3) == 3 && isa_rd(i), "clear");
  sx_cover(wr && f3 == 5 && isa_rs1(i) == 0, "immediate zero write");
  sx_observe("x", 5, cpu.state.gpr[5]);
  for (int k = 0; k < 21; k++)
    sx_observe("csr", k, cpu.state.csr[k]);
}
#define ONE(n) extern "C" void hx_csr##n() { csr_one(kCsr[n]); }
ONE(0) ONE(1) ONE(2) ONE(3) ONE(4) ONE(5) ONE(6) ONE(7) ONE(8) ONE(9)
ONE(10) ONE(11) ONE(12) ONE(13) ONE(14) ONE(15) ONE(16) ONE(17) ONE(18)
extern "C" void hx_csr_ro() { // identification registers read back their value
  arbitrary_state();
  uint32_t i = bare_fetch();
  sx_assume((i & 0x7f) == 0x73);
  sx_assume((i >> 20) == 0xf14 || (i >> 20) == 0x301);
  sx_assume(isa_f3(i) == 2 && isa_rs1(i) == 0);
  no_interrupt();
  Snap s = snap();
  uint32_t old = s.csr[(i >> 20) == 0x301 ? csr_misa : csr_mhartid];
  cpu.exec();
  sx_assert(cpu.state.pc == s.pc + 4, "next pc");
  gprs_except(s, true, isa_rd(i), old, "integer registers");
  same_csrs(s, "control registers");
  sx_cover(isa_rd(i) != 0, "read");
}
