// Loads and stores: untranslated and through Sv32.
#include "ref_priv.h"
struct Acc {
  Snap s;
  uint32_t inst, va, pa, f3, probe, pv;
};
template <bool ST> static Acc start(bool translated) {
  Acc a;
  arbitrary_state();
  a.inst = translated ? fetched() : bare_fetch();
  no_interrupt();
  sx_assume((a.inst & 0x7f) == (ST ? 0x23 : 0x03));
  a.f3 = isa_f3(a.inst);
  sx_assume(ST ? a.f3 <= 2 : a.f3 <= 5 && a.f3 != 3);
  a.s = snap();
  a.va = a.s.gpr[isa_rs1(a.inst)] + (ST ? isa_immS(a.inst) : isa_immI(a.inst));
  a.pa = a.va;
  if (translated) {
    translated_data();
    sx_assume(spec_translate(a.va, ST ? 2 : 1, a.pa));
  } else
    sx_assume(data_bare());
  uint32_t sz = a.f3 & 3;
  sx_assume(sz == 0 || (sz == 1 && !(a.pa & 1)) || (sz == 2 && !(a.pa & 3)));
  sx_assume(in_ram(a.pa));
  a.probe = probe_addr();
  a.pv = word_at(a.probe);
  return a;
}
static void load(bool tr) {
  Acc a = start<false>(tr);
  uint32_t val = isa_load(a.f3, a.pa, word_at(a.pa));
  tr ? cpu.RISCV() : cpu.exec();
  sx_assert(cpu.state.pc == a.s.pc + 4, "next pc");
  gprs_except(a.s, true, isa_rd(a.inst), val, "integer registers");
  same_csrs(a.s, "control state unchanged");
  sx_assert(word_at(a.probe) == a.pv, "memory unchanged");
  sx_assert(!cpu.state.store, "no store reported");
  sx_assert(cpu.state.reserve_valid == a.s.rv && cpu.state.reserve_addr == a.s.ra, "reservation unchanged");
  sx_cover(isa_rd(a.inst) != 0 && (val >> 31), "loads a negative value");
  for (int i = 1; i < 32; i++)
    sx_observe("x", i, cpu.state.gpr[i]);
}
static void store(bool tr) {
  Acc a = start<true>(tr);
  uint32_t b = a.s.gpr[isa_rs2(a.inst)];
  uint32_t m = isa_store_mask(a.f3, a.pa), old = word_at(a.pa);
  uint32_t lane = (b << ((a.pa & 3) * 8)) & m;
  tr ? cpu.RISCV() : cpu.exec();
  sx_assert(cpu.state.pc == a.s.pc + 4, "next pc");
  gprs_except(a.s, false, 0, 0, "integer registers");
  same_csrs(a.s, "control state unchanged");
  uint32_t now = word_at(a.pa);
  sx_assert(now == ((old & ~m) | lane), "stored bytes");
  sx_assert(word_at(a.probe) == ((a.probe ^ a.pa) < 4 ? now : a.pv), "other memory unchanged");
  sx_assert(cpu.state.store && cpu.state.store_addr == a.pa && cpu.state.store_data == lane, "store report");
  if (a.s.rv && a.s.ra == a.pa)
    sx_assert(!cpu.state.reserve_valid, "store to the reserved word ends the reservation");
  if ((a.s.ra ^ a.pa) >= 4)
    sx_assert(cpu.state.reserve_valid == a.s.rv && cpu.state.reserve_addr == a.s.ra, "unrelated reservation kept");
  sx_cover(a.f3 == 0 && (a.pa & 3) == 3 && lane, "byte store in the top lane");
  sx_observe("mem", 0, now);
}
extern "C" void hx_load() { load(false); }
extern "C" void hx_store() { store(false); }
extern "C" void hx_load_sv32() { load(true); }
extern "C" void hx_store_sv32() { store(true); }

// atomics
struct Amo {
  Snap s;
  uint32_t inst, pa, b, old, rd, probe, pv;
};
static Amo amo_start(uint32_t f5, bool all) {
  Amo a;
  arbitrary_state();
  a.inst = bare_fetch();
  no_interrupt();
  sx_assume((a.inst & 0x7f) == 0x2f);
  sx_assume(isa_f3(a.inst) == 2);
  if (!all)
    sx_assume((a.inst >> 27) == f5);
  sx_assume(data_bare());
  a.s = snap();
  a.pa = a.s.gpr[isa_rs1(a.inst)];
  a.b = a.s.gpr[isa_rs2(a.inst)];
  a.rd = isa_rd(a.inst);
  sx_assume(!(a.pa & 3));
  sx_assume(in_ram(a.pa));
  a.old = word_at(a.pa);
  a.probe = probe_addr();
  a.pv = word_at(a.probe);
  return a;
}
static void amo_end(const Amo &a, uint32_t rdv, bool st, uint32_t nv) {
  cpu.exec();
  sx_assert(cpu.state.pc == a.s.pc + 4, "next pc");
  gprs_except(a.s, true, a.rd, rdv, "integer registers");
  same_csrs(a.s, "control state unchanged");
  uint32_t now = word_at(a.pa);
  sx_assert(now == nv, "memory word");
  sx_assert(word_at(a.probe) == (a.probe == a.pa ? now : a.pv), "other memory unchanged");
  sx_assert(cpu.state.store == st, "store reported iff performed");
  sx_assert(!st || (cpu.state.store_addr == a.pa && cpu.state.store_data == nv), "store report");
  sx_observe("mem", 0, now);
  for (int i = 1; i < 32; i++)
    sx_observe("x", i, cpu.state.gpr[i]);
}
extern "C" void hx_amo() {
  Amo a = amo_start(0, true);
  uint32_t f5 = a.inst >> 27;
  sx_assume(isa_amo_known(f5));
  uint32_t nv = isa_amo(f5, a.old, a.b);
  amo_end(a, a.old, true, nv);
  if (a.s.rv && a.s.ra == a.pa)
    sx_assert(!cpu.state.reserve_valid, "reservation ended by a store to its word");
  if (a.s.ra != a.pa)
    sx_assert(cpu.state.reserve_valid == a.s.rv && cpu.state.reserve_addr == a.s.ra, "unrelated reservation kept");
  sx_cover(f5 == 16 && nv != a.old && a.rd == isa_rs1(a.inst) && a.rd, "amomin writes, rd aliases rs1");
}
extern "C" void hx_lr() {
  Amo a = amo_start(2, false);
  amo_end(a, a.old, false, a.old);
  sx_assert(cpu.state.reserve_valid && cpu.state.reserve_addr == a.pa, "reservation taken");
  sx_cover(a.rd != 0, "lr");
}
extern "C" void hx_sc() {
  Amo a = amo_start(3, false);
  bool ok = a.s.rv && a.s.ra == a.pa;
  amo_end(a, !ok, ok, ok ? a.b : a.old);
  sx_assert(!cpu.state.reserve_valid, "reservation consumed");
  sx_cover(ok, "sc succeeds");
  sx_cover(!ok, "sc fails");
}

// devices: the serial port's word, the interrupt controller's claim word and
// any plain word of the interrupt controller
static const uint32_t SERIAL = 0x10000000u, CLAIM = 0x0c201004u;
struct Dev {
  Snap s;
  uint32_t inst, pa, b, w[3], v[3], hit;
};
static Dev dev_start(bool st) {
  Dev d;
  arbitrary_state();
  d.inst = bare_fetch();
  no_interrupt();
  sx_assume((d.inst & 0x7f) == (st ? 0x23u : 0x03u));
  uint32_t f3 = isa_f3(d.inst);
  sx_assume(st ? f3 <= 2 : f3 <= 2 || f3 == 4 || f3 == 5);
  sx_assume(data_bare());
  d.w[0] = SERIAL;
  d.w[1] = CLAIM;
  d.w[2] = 0x0c000000u + ((uint32_t)sx_var("plain", 0, 19) << 2);
  for (int i = 0; i < 3; i++) {
    d.v[i] = (uint32_t)sx_var("io", i, 32);
    cpu.store_word(d.w[i], d.v[i]);
  }
  d.s = snap();
  d.pa = d.s.gpr[isa_rs1(d.inst)] + (st ? isa_immS(d.inst) : isa_immI(d.inst));
  d.b = d.s.gpr[isa_rs2(d.inst)];
  uint32_t sz = f3 & 3;
  sx_assume(sz == 0 || (sz == 1 && !(d.pa & 1)) || (sz == 2 && !(d.pa & 3)));
  d.hit = (d.pa & ~3u) == d.w[0] ? 0 : (d.pa & ~3u) == d.w[1] ? 1 : 2;
  sx_assume((d.pa & ~3u) == (d.hit == 0 ? d.w[0] : d.hit == 1 ? d.w[1] : d.w[2]));
  return d;
}
extern "C" void hx_dev_store() {
  Dev d = dev_start(true);
  uint32_t m = isa_store_mask(isa_f3(d.inst), d.pa), lane = (d.b << ((d.pa & 3) * 8)) & m;
  uint32_t n[3], mip = d.s.csr[csr_mip];
  for (uint32_t i = 0; i < 3; i++)
    n[i] = d.hit == i ? (d.v[i] & ~m) | lane : d.v[i];
  if (d.pa == SERIAL)
    n[0] &= ~0xffu; // the character has been sent
  if (d.pa == SERIAL + 1 && (d.b & 0xff) == 7) {
    n[1] = 10; // the serial port asks for an interrupt
    n[0] &= ~0xf0000u;
    mip |= 1u << 11;
  }
  if (d.pa == SERIAL + 1 && (d.b & 0xff) == 5)
    n[0] = (n[0] & ~0xf0000u) | 0x30000u;
  if (d.pa == CLAIM && (d.b & 0xff) == 10) {
    n[1] = 0; // the interrupt has been served
    mip &= ~(1u << 11);
  }
  cpu.exec();
  sx_assert(cpu.state.pc == d.s.pc + 4, "next pc");
  gprs_except(d.s, false, 0, 0, "integer registers");
  for (int i = 0; i < 3; i++)
    sx_assert(cpu.load_word(d.w[i]) == n[i], "device words");
  sx_assert(!((cpu.state.csr[csr_mip] ^ mip) & ~0x80u), "pending interrupts");
  sx_assert(cpu.state.csr[csr_sip] == (cpu.state.csr[csr_mip] & 0x333), "supervisor's pending interrupts");
  sx_assert(cpu.state.store && cpu.state.store_addr == d.pa && cpu.state.store_data == lane, "store report");
  sx_cover(n[1] == 10 && d.hit == 0, "the serial port asks for an interrupt");
  sx_cover(d.hit == 1 && mip != d.s.csr[csr_mip], "an interrupt is served");
  sx_cover(d.hit == 2 && lane, "a plain device word");
  for (int i = 0; i < 3; i++)
    sx_observe("io", i, cpu.load_word(d.w[i]));
}
extern "C" void hx_dev_load() {
  Dev d = dev_start(false);
  uint32_t word = d.hit == 0 ? d.v[0] : d.hit == 1 ? d.v[1] : d.v[2];
  uint32_t val = isa_load(isa_f3(d.inst), d.pa, word);
  cpu.exec();
  sx_assert(cpu.state.pc == d.s.pc + 4, "next pc");
  gprs_except(d.s, true, isa_rd(d.inst), val, "integer registers");
  for (int i = 0; i < 3; i++)
    sx_assert(cpu.load_word(d.w[i]) == d.v[i], "device words unchanged");
  same_csrs(d.s, "control state unchanged");
  sx_assert(!cpu.state.store, "no store reported");
  sx_cover(d.hit == 1 && isa_rd(d.inst) && val, "the claim word is read");
  for (int i = 1; i < 32; i++)
    sx_observe("x", i, cpu.state.gpr[i]);
}
