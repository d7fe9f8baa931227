// Independent statement of trap entry and return (privileged manual), of the
// interrupt selection rules of this core and of its CSR write masks.
#pragma once
#include "Csr.h"
#include <cstdint>
static const uint32_t SST = 0x800DE133u; // supervisor view of the status register
struct Snap {
  uint32_t gpr[32], csr[21];
  uint32_t pc;
  uint8_t priv;
  bool rv;
  uint32_t ra;
};
struct Trap {
  uint32_t cause;
  bool irq, to_s;
  uint32_t tval;
};
static void spec_trap(Snap &s, const Trap &t) {
  uint32_t st = s.csr[csr_mstatus];
  uint32_t full = t.cause | (t.irq ? 0x80000000u : 0);
  uint32_t tvec = t.to_s ? s.csr[csr_stvec] : s.csr[csr_mtvec];
  if (t.to_s) {
    uint32_t sie = st >> 1 & 1;
    st = (st & ~0x122u) | (sie << 5) | (s.priv == 1 ? 0x100u : 0);
    s.csr[csr_sepc] = s.pc;
    s.csr[csr_scause] = full;
    s.csr[csr_stval] = t.tval;
    s.priv = 1;
  } else {
    uint32_t mie = st >> 3 & 1;
    st = (st & ~0x1888u) | (mie << 7) | ((uint32_t)s.priv << 11);
    s.csr[csr_mepc] = s.pc;
    s.csr[csr_mcause] = full;
    s.csr[csr_mtval] = t.tval;
    s.priv = 3;
  }
  s.csr[csr_mstatus] = st;
  s.csr[csr_sstatus] = st & SST;
  s.pc = (tvec & ~3u) + ((t.irq && (tvec & 1)) ? 4 * t.cause : 0);
}
static Trap spec_exc(const Snap &s, uint32_t cause, uint32_t tval) {
  return Trap{cause, false, s.priv != 3 && (s.csr[csr_medeleg] >> cause & 1), tval};
}
static void spec_mret(Snap &s) {
  uint32_t st = s.csr[csr_mstatus];
  s.priv = st >> 11 & 3;
  st = (st & ~0x1888u) | (st >> 7 & 1) << 3 | 0x80u;
  s.csr[csr_mstatus] = st;
  s.csr[csr_sstatus] = st & SST;
  s.pc = s.csr[csr_mepc];
}
static void spec_sret(Snap &s) {
  uint32_t st = s.csr[csr_mstatus];
  s.priv = st >> 8 & 1;
  st = (st & ~0x122u) | (st >> 5 & 1) << 1 | 0x20u;
  s.csr[csr_mstatus] = st;
  s.csr[csr_sstatus] = st & SST;
  s.pc = s.csr[csr_sepc];
}
// deliverable interrupts: bit sets over the standard cause codes
static uint32_t spec_irq_m(const Snap &s) {
  bool en = s.priv < 3 || (s.csr[csr_mstatus] >> 3 & 1);
  return en ? s.csr[csr_mip] & s.csr[csr_mie] & ~s.csr[csr_mideleg] & 0x888u : 0;
}
static uint32_t spec_irq_s(const Snap &s) {
  bool en = s.priv == 0 || (s.priv == 1 && (s.csr[csr_mstatus] >> 1 & 1));
  uint32_t p = s.csr[csr_mip] & s.csr[csr_mie];
  return en ? (p & 0x222u) | ((p & s.csr[csr_mideleg] & 0x888u) >> 2) : 0;
}
// which of several is taken: external, software, timer
static uint32_t spec_irq_first(uint32_t set) {
  return set & 0xa00u ? (set & 0x800u ? 11 : 9) : set & 0xau ? (set & 8u ? 3 : 1) : set & 0x80u ? 7 : 5;
}
// control register instructions
struct CsrNo {
  uint32_t no;
  int idx;
  bool plain;
};
static const CsrNo kCsr[] = {
    {0x305, csr_mtvec, true},   {0x341, csr_mepc, true},    {0x342, csr_mcause, true},
    {0x343, csr_mtval, true},   {0x340, csr_mscratch, true}, {0x303, csr_mideleg, true},
    {0x302, csr_medeleg, true}, {0x141, csr_sepc, true},    {0x105, csr_stvec, true},
    {0x142, csr_scause, true},  {0x140, csr_sscratch, true}, {0x143, csr_stval, true},
    {0x180, csr_satp, true},    {0x300, csr_mstatus, false}, {0x100, csr_sstatus, false},
    {0x304, csr_mie, false},    {0x104, csr_sie, false},    {0x344, csr_mip, false},
    {0x144, csr_sip, false}};
// effect of a CSR instruction's write: cmd 1 write, 2 set, 3 clear
static void spec_csr_write(Snap &s, const CsrNo &c, uint32_t cmd, uint32_t src) {
  uint32_t old = s.csr[c.idx];
  uint32_t nv = cmd == 1 ? src : cmd == 2 ? old | src : old & ~src;
  uint32_t &ms = s.csr[csr_mstatus], &me = s.csr[csr_mie], &mp = s.csr[csr_mip];
  switch (c.no) {
  case 0x300: ms = (ms & ~0x807FF9BBu) | (nv & 0x807FF9BBu); break;
  case 0x100: ms = (ms & ~SST) | (nv & SST); break;
  case 0x304: me = nv & 0xbbb; break;
  case 0x104: me = (me & ~0x333u) | (nv & 0x333); break;
  case 0x344: mp = nv & 0xbbb; break;
  case 0x144: mp = (mp & ~0x333u) | (nv & 0x333); break;
  default: s.csr[c.idx] = nv;
  }
  s.csr[csr_sstatus] = ms & SST;
  s.csr[csr_sie] = me & 0x333;
  s.csr[csr_sip] = mp & 0x333;
}
