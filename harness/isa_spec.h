// Independent statement of the RV32IMA_Zba_Zbb_Zbc_Zbs user-level semantics
// (RISC-V unprivileged manual); used as oracle by several harnesses.
#pragma once
#include <cstdint>

struct IsaOut {
  bool known;    // encoding defined by the claim
  bool wr;       // writes rd
  uint32_t val;  // value for rd
  uint32_t next; // next pc
};

static inline uint32_t isa_rd(uint32_t i) { return (i >> 7) & 31; }
static inline uint32_t isa_rs1(uint32_t i) { return (i >> 15) & 31; }
static inline uint32_t isa_rs2(uint32_t i) { return (i >> 20) & 31; }
static inline uint32_t isa_f3(uint32_t i) { return (i >> 12) & 7; }
static inline uint32_t isa_f7(uint32_t i) { return i >> 25; }
static inline uint32_t isa_immI(uint32_t i) { return (uint32_t)((int32_t)i >> 20); }
static inline uint32_t isa_immS(uint32_t i) {
  return ((uint32_t)((int32_t)i >> 25) << 5) | ((i >> 7) & 31);
}
static inline uint32_t isa_immB(uint32_t i) {
  return ((uint32_t)((int32_t)i >> 31) << 12) | (((i >> 7) & 1) << 11) |
         (((i >> 25) & 0x3f) << 5) | (((i >> 8) & 0xf) << 1);
}
static inline uint32_t isa_immU(uint32_t i) { return i & 0xfffff000u; }
static inline uint32_t isa_immJ(uint32_t i) {
  return ((uint32_t)((int32_t)i >> 31) << 20) | (((i >> 12) & 0xff) << 12) |
         (((i >> 20) & 1) << 11) | (((i >> 21) & 0x3ff) << 1);
}
static inline uint32_t isa_rotr(uint32_t x, uint32_t s) {
  uint64_t d = ((uint64_t)x << 32) | x;
  return (uint32_t)(d >> (s & 31));
}
static inline uint32_t isa_clmul(uint32_t a, uint32_t b, bool high) {
  uint64_t r = 0;
  for (int i = 0; i < 32; i++)
    if ((b >> i) & 1)
      r ^= (uint64_t)a << i;
  return high ? (uint32_t)(r >> 32) : (uint32_t)r;
}
static inline uint32_t isa_clmulr(uint32_t a, uint32_t b) {
  uint64_t r = 0;
  for (int i = 0; i < 32; i++)
    if ((b >> i) & 1)
      r ^= (uint64_t)a << i;
  return (uint32_t)(r >> 31);
}

// LUI AUIPC JAL JALR BRANCH
static inline IsaOut isa_ctl(uint32_t i, uint32_t pc, uint32_t a, uint32_t b) {
  IsaOut o = {true, false, 0, pc + 4};
  switch (i & 0x7f) {
  case 0x37:
    o.wr = true;
    o.val = isa_immU(i);
    break;
  case 0x17:
    o.wr = true;
    o.val = pc + isa_immU(i);
    break;
  case 0x6f:
    o.wr = true;
    o.val = pc + 4;
    o.next = pc + isa_immJ(i);
    break;
  case 0x67:
    o.known = isa_f3(i) == 0;
    o.wr = true;
    o.val = pc + 4;
    o.next = (a + isa_immI(i)) & ~1u;
    break;
  case 0x63: {
    uint32_t f = isa_f3(i);
    o.known = f != 2 && f != 3;
    bool t = (f & 4) ? ((f & 2) ? a < b : (int32_t)a < (int32_t)b) : a == b;
    if (f & 1)
      t = !t;
    if (t)
      o.next = pc + isa_immB(i);
    break;
  }
  default:
    o.known = false;
  }
  return o;
}

// OP without M
static inline IsaOut isa_op(uint32_t i, uint32_t pc, uint32_t a, uint32_t b) {
  IsaOut o = {true, true, 0, pc + 4};
  uint32_t f3 = isa_f3(i), f7 = isa_f7(i), s = b & 31;
  switch ((f7 << 3) | f3) {
  case 0: o.val = a + b; break;
  case 1: o.val = a << s; break;
  case 2: o.val = (int32_t)a < (int32_t)b; break;
  case 3: o.val = a < b; break;
  case 4: o.val = a ^ b; break;
  case 5: o.val = a >> s; break;
  case 6: o.val = a | b; break;
  case 7: o.val = a & b; break;
  case (0x20 << 3) | 0: o.val = a - b; break;
  case (0x20 << 3) | 4: o.val = ~(a ^ b); break;               // xnor
  case (0x20 << 3) | 5: o.val = (uint32_t)((int32_t)a >> s); break;
  case (0x20 << 3) | 6: o.val = a | ~b; break;                 // orn
  case (0x20 << 3) | 7: o.val = a & ~b; break;                 // andn
  case (0x10 << 3) | 2: o.val = (a << 1) + b; break;           // sh1add
  case (0x10 << 3) | 4: o.val = (a << 2) + b; break;
  case (0x10 << 3) | 6: o.val = (a << 3) + b; break;
  case (0x05 << 3) | 1: o.val = isa_clmul(a, b, false); break;
  case (0x05 << 3) | 2: o.val = isa_clmulr(a, b); break;
  case (0x05 << 3) | 3: o.val = isa_clmul(a, b, true); break;
  case (0x05 << 3) | 4: o.val = (int32_t)a < (int32_t)b ? a : b; break;
  case (0x05 << 3) | 5: o.val = a < b ? a : b; break;
  case (0x05 << 3) | 6: o.val = (int32_t)a < (int32_t)b ? b : a; break;
  case (0x05 << 3) | 7: o.val = a < b ? b : a; break;
  case (0x30 << 3) | 1: o.val = isa_rotr(a, 32 - s); break;    // rol
  case (0x30 << 3) | 5: o.val = isa_rotr(a, s); break;         // ror
  case (0x24 << 3) | 1: o.val = a & ~(1u << s); break;         // bclr
  case (0x24 << 3) | 5: o.val = (a >> s) & 1; break;           // bext
  case (0x14 << 3) | 1: o.val = a | (1u << s); break;          // bset
  case (0x34 << 3) | 1: o.val = a ^ (1u << s); break;          // binv
  case (0x04 << 3) | 4: o.val = (a & 0xffff) | (b << 16); break; // pack / zext.h
  case (0x04 << 3) | 7: o.val = (a & 0xff) | ((b & 0xff) << 8); break; // packh
  default: o.known = false;
  }
  return o;
}
// OP, M extension
static inline IsaOut isa_m(uint32_t i, uint32_t pc, uint32_t a, uint32_t b) {
  IsaOut o = {isa_f7(i) == 1, true, 0, pc + 4};
  int64_t sa = (int32_t)a, sb = (int32_t)b;
  switch (isa_f3(i)) {
  case 0: o.val = a * b; break;
  case 1: o.val = (uint32_t)((uint64_t)(sa * sb) >> 32); break;
  case 2: o.val = (uint32_t)((uint64_t)(sa * (int64_t)(uint64_t)b) >> 32); break;
  case 3: o.val = (uint32_t)(((uint64_t)a * (uint64_t)b) >> 32); break;
  case 4:
    o.val = b == 0 ? ~0u : (a == 0x80000000u && b == ~0u) ? a : (uint32_t)((int32_t)a / (int32_t)b);
    break;
  case 5: o.val = b == 0 ? ~0u : a / b; break;
  case 6:
    o.val = b == 0 ? a : (a == 0x80000000u && b == ~0u) ? 0 : (uint32_t)((int32_t)a % (int32_t)b);
    break;
  case 7: o.val = b == 0 ? a : a % b; break;
  }
  return o;
}
// OP-IMM
static inline IsaOut isa_opimm(uint32_t i, uint32_t pc, uint32_t a) {
  IsaOut o = {true, true, 0, pc + 4};
  uint32_t im = isa_immI(i), s = isa_rs2(i), f7 = isa_f7(i);
  switch (isa_f3(i)) {
  case 0: o.val = a + im; break;
  case 2: o.val = (int32_t)a < (int32_t)im; break;
  case 3: o.val = a < im; break;
  case 4: o.val = a ^ im; break;
  case 6: o.val = a | im; break;
  case 7: o.val = a & im; break;
  case 1:
    if (f7 == 0)
      o.val = a << s;
    else if (f7 == 0x14)
      o.val = a | (1u << s);
    else if (f7 == 0x24)
      o.val = a & ~(1u << s);
    else if (f7 == 0x34)
      o.val = a ^ (1u << s);
    else if (f7 == 0x30 && s == 0) {
      uint32_t n = 0;
      for (int k = 0; k < 32; k++)
        n = ((a >> k) & 1) ? 0 : n + 1;
      o.val = n;
    } else if (f7 == 0x30 && s == 1) {
      uint32_t n = 0;
      for (int k = 31; k >= 0; k--)
        n = ((a >> k) & 1) ? 0 : n + 1;
      o.val = n;
    } else if (f7 == 0x30 && s == 2) {
      uint32_t n = 0;
      for (int k = 0; k < 32; k++)
        n += (a >> k) & 1;
      o.val = n;
    } else if (f7 == 0x30 && s == 4)
      o.val = (uint32_t)(int32_t)(int8_t)a;
    else if (f7 == 0x30 && s == 5)
      o.val = (uint32_t)(int32_t)(int16_t)a;
    else
      o.known = false;
    break;
  case 5:
    if (f7 == 0)
      o.val = a >> s;
    else if (f7 == 0x20)
      o.val = (uint32_t)((int32_t)a >> s);
    else if (f7 == 0x30)
      o.val = isa_rotr(a, s);
    else if (f7 == 0x24)
      o.val = (a >> s) & 1;
    else if (f7 == 0x34 && s == 24)
      o.val = (a << 24) | ((a & 0xff00) << 8) | ((a >> 8) & 0xff00) | (a >> 24);
    else if (f7 == 0x14 && s == 7)
      o.val = ((a & 0xff) ? 0xffu : 0) | ((a & 0xff00) ? 0xff00u : 0) |
              ((a & 0xff0000) ? 0xff0000u : 0) | ((a & 0xff000000) ? 0xff000000u : 0);
    else
      o.known = false;
    break;
  }
  return o;
}
static inline uint32_t isa_amo(uint32_t f5, uint32_t old, uint32_t b) {
  switch (f5) {
  case 0: return old + b;
  case 1: return b;
  case 4: return old ^ b;
  case 8: return old | b;
  case 12: return old & b;
  case 16: return (int32_t)old < (int32_t)b ? old : b;
  case 20: return (int32_t)old < (int32_t)b ? b : old;
  case 24: return old < b ? old : b;
  default: return old < b ? b : old; // 28
  }
}
static inline bool isa_amo_known(uint32_t f5) {
  return f5 == 0 || f5 == 1 || f5 == 4 || f5 == 8 || f5 == 12 || f5 == 16 ||
         f5 == 20 || f5 == 24 || f5 == 28;
}
// value a load of width funct3 returns from the aligned word w at addr
static inline uint32_t isa_load(uint32_t f3, uint32_t addr, uint32_t w) {
  uint32_t sh = (addr & 3) * 8, v = w >> sh;
  switch (f3) {
  case 0: return (uint32_t)(int32_t)(int8_t)v;
  case 1: return (uint32_t)(int32_t)(int16_t)v;
  case 2: return v;
  case 4: return v & 0xff;
  default: return v & 0xffff; // 5
  }
}
static inline uint32_t isa_store_mask(uint32_t f3, uint32_t addr) {
  uint32_t m = f3 == 0 ? 0xffu : f3 == 1 ? 0xffffu : 0xffffffffu;
  return m << ((addr & 3) * 8);
}
// Sv32. type: 0 fetch 1 load 2 store. Returns false on page fault.
template <class RD>
static inline bool isa_sv32(uint32_t va, int type, uint32_t satp, uint32_t mstatus, int priv, RD rd, uint32_t &pa) {
  bool mxr = mstatus >> 19 & 1, sum = mstatus >> 18 & 1, mprv = mstatus >> 17 & 1;
  int ep = (type != 0 && mprv) ? (int)(mstatus >> 11 & 3) : priv;
  uint32_t pte = 0, base = (satp & 0x3fffff) << 12;
  for (int lvl = 1; lvl >= 0; lvl--) {
    uint32_t vpn = lvl ? va >> 22 : (va >> 12) & 0x3ff;
    pte = rd(base + vpn * 4);
    bool v = pte & 1, r = pte & 2, w = pte & 4, x = pte & 8, u = pte & 16, a = pte & 64, d = pte & 128;
    if (!v || (!r && w))
      return false;
    if (!r && !x) {
      if (lvl == 0)
        return false;
      base = (pte >> 10) << 12;
      continue;
    }
    if (type == 0 ? !x : type == 1 ? !(r || (mxr && x)) : !w)
      return false;
    if (ep == 0 && !u)
      return false;
    if (ep == 1 && u && (type == 0 || !sum))
      return false;
    if (lvl == 1 && ((pte >> 10) & 0x3ff))
      return false;
    if (!a || (type == 2 && !d))
      return false;
    pa = lvl ? ((pte >> 20) << 22) | (va & 0x3fffff) : ((pte >> 10) << 12) | (va & 0xfff);
    return true;
  }
  return false;
}
