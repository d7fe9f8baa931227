// W02: the back end together with the data cache, the miss registers, the write
// buffer and the page table walker: programs with fixed addresses and arbitrary
// data.
#define CACHES
#include "back_whole.cpp"

// the page tables: a root whose first entry points to a table
static const uint32_t ROOT = 0x80100000u, TABLE = 0x80101000u, ROOT2 = 0x80102000u, TABLE2 = 0x80103000u;
static const uint32_t DATA = 0x80200000u; // way: 16 KiB
struct Fixed { uint32_t addr, val; };
static Fixed fixed[16];
static int nfixed;
static uint32_t initial(uint32_t addr) {
  if (regs(addr))
    return 0;
  for (int i = 0; i < nfixed; i++)
    if (fixed[i].addr == (addr & ~3u))
      return fixed[i].val;
  return sx_uf("mem", addr >> 2, 32);
}
static uint32_t pte(uint32_t pa, uint32_t flags) { return pa >> 12 << 10 | flags; }
static Map found;
static const Map *leaf(uint32_t satp, uint32_t va) {
  uint32_t e = mem_with(g_wr, g_nwr, (satp << 12) + (va >> 22) * 4);
  if (!(e & 1) || ((e & 4) && !(e & 2)))
    return nullptr;
  if (e & 0xe) {
    found = {satp, va >> 12, e, true};
    return e >> 10 & 0x3ff ? nullptr : &found;
  }
  e = mem_with(g_wr, g_nwr, (e >> 10 << 12) + (va >> 12 & 0x3ff) * 4);
  if (!(e & 1) || !(e & 0xe) || ((e & 4) && !(e & 2)))
    return nullptr;
  found = {satp, va >> 12, e, false};
  return &found;
}
static void at(int r, uint32_t v) { first.gpr[r] = v; }

static const uint32_t WAY = DCACHE_SETS_NUM * DCACHE_LINE_SIZE; // lines this far apart share a set

// a line is fetched, changed and read again
extern "C" void hx_m_one() {
  PROG({LW(5, 0, 3), -1}, {SW(1, 4, 3), -1}, {LW(6, 4, 3), -1}, {S(1, 2, 3, 0), -1}, {LW(7, 0, 3), -1}, {LW(8, 60, 3), -1}, {AMO(0, 2, 3, 9), -1}, {LW(10, 0, 3), -1});
  at(3, DATA);
  run(8, 260);
}
// more lines of one set than it has ways, changed and read back
template <int DELAY, uint64_t BUSY> static void evict() {
  static Ins p[28];
  for (int i = 0; i < 7; i++) {
    p[2 * i] = {(uint32_t)SW(1 + i % 2, 4 * i, 10 + i), -1};
    p[2 * i + 1] = {(uint32_t)S(2, 3, 10 + i, 0), -1};
    p[14 + 2 * i] = {(uint32_t)LW(17 + i, 4 * i, 10 + i), -1};
    p[15 + 2 * i] = {(uint32_t)LW(24 + i, 0, 10 + i), -1};
  }
  begin(p, 28);
  for (int i = 0; i < 7; i++)
    at(10 + i, DATA + 0x40 + i * WAY);
  env.delay = DELAY;
  env.again = BUSY;
  run(28, 900);
}
extern "C" void hx_m_evict() { evict<3, 0>(); }
extern "C" void hx_m_evict_slow() { evict<15, 0>(); }
extern "C" void hx_m_evict_busy() { evict<4, 0x9f3fe7c3f0ff0f33ull>(); }
// more misses than can be outstanding, two per line
template <int DELAY> static void misses() {
  static Ins p[24];
  for (int i = 0; i < 12; i++) {
    p[2 * i] = {(uint32_t)LW(8 + i, 4 * i, 3), -1};
    p[2 * i + 1] = {i & 1 ? (uint32_t)SW(1, 64 * i - 60, 3) : (uint32_t)LW(20 + i, 64 * i + 4, 3), -1};
  }
  begin(p, 24);
  at(3, DATA);
  env.delay = DELAY;
  run(24, 900);
}
extern "C" void hx_m_misses() { misses<4>(); }
extern "C" void hx_m_misses_slow() { misses<20>(); }
// stores and loads of a line that is on its way
template <int DELAY> static void merge() {
  PROG({LW(5, 0, 3), -1}, {SW(1, 4, 3), -1}, {S(9, 2, 3, 0), -1}, {LW(6, 4, 3), -1}, {LW(7, 8, 3), -1}, {SW(2, 12, 4), -1}, {LW(8, 12, 4), -1}, {LW(9, 16, 4), -1}, {S(18, 1, 4, 1), -1}, {AMO(4, 2, 3, 10), -1}, {LW(11, 16, 4), -1}, {LW(12, 8, 3), -1}, {LW(13, 0, 3), -1});
  at(3, DATA + 0x80);
  at(4, DATA + 0x80 + WAY);
  env.delay = DELAY;
  run(13, 600);
}
extern "C" void hx_m_merge() { merge<2>(); }
extern "C" void hx_m_merge_slow() { merge<17>(); }
// misses on a path that is not taken
extern "C" void hx_m_wrong() {
  PROG({LW(5, 0, 3), -1}, {B(20, 0, 0, 0), -1}, {LW(6, 0, 4), -1}, {SW(1, 0, 4), -1}, {AMO(0, 2, 4, 7), -1}, {SW(1, 4, 3), -1}, {SW(2, 0, 3), -1}, {LW(8, 0, 3), -1}, {LW(9, 0, 4), -1});
  at(3, DATA);
  at(4, DATA + WAY);
  env.delay = 9;
  run(5, 400);
}
// device registers among cached accesses
extern "C" void hx_m_device() {
  PROG({SW(1, 0, 3), -1}, {LW(5, 0, 4), -1}, {SW(1, 0, 4), -1}, {SW(2, 4, 4), -1}, {LW(6, 0, 4), -1}, {SW(6, 4, 3), -1}, {LW(7, 4, 3), -1}, {LW(8, 4, 4), -1}, {0x0ff0000f, -1}, {SW(7, 0, 4), -1}, {LW(9, 0, 4), -1});
  at(3, DATA);
  at(4, DMA_SRC_ADDR);
  run(11, 400);
}
extern "C" void hx_m_lrsc() {
  PROG({AMO(2, 0, 3, 5), -1}, {R(0, 1, 5, 0, 6), -1}, {AMO(3, 6, 3, 7), -1}, {AMO(3, 1, 3, 8), -1}, {LW(9, 0, 4), -1}, {AMO(2, 0, 4, 10), -1}, {AMO(3, 2, 3, 11), -1}, {LW(12, 0, 3), -1}, {LW(13, 0, 4), -1});
  at(3, DATA);
  at(4, DATA + WAY);
  env.delay = 6;
  run(9, 600);
}

// translated accesses through tables in memory
static const uint32_t SATP = 0x80400000u | ROOT >> 12, SATP2 = 0x80400000u | ROOT2 >> 12, SATP3 = 0x80800000u | ROOT2 >> 12;
static const uint32_t VA = 0x40000000u, PA = DATA, PB = DATA + 0x3000;
enum { RW = 0xc7, RO = 0x43, UW = 0xd7 };
static void handler(Ins *p, int n) {
  env.end = 22;
  for (int i = 0; i < n; i++)
    p[i] = {NOP, -1};
  const uint32_t h[6] = {CSR(0x342, 0, 2, 20), CSR(0x343, 0, 2, 21), CSR(0x341, 0, 2, 22), ADDI(22, 22, 4), CSR(0x341, 22, 1, 0), 0x30200073};
  for (int i = 0; i < 6; i++)
    p[24 + i] = {h[i], -1};
}
// a page table word with a value
static void put(uint32_t a, uint32_t v) { fixed[nfixed++] = {a, v}; }
static void space(Ins *p, int n) {
  begin(p, n);
  first.priv = 1;
  first.csr[csr_mstatus] = 0;
  first.csr[csr_satp] = SATP;
  put(ROOT, 0);
  put(ROOT + 0x400, pte(TABLE, 1));
  put(ROOT + 0x800, pte(0x80000000u, RW)); // 0x80000000: itself
  put(TABLE + 0, pte(PA, RW));
  put(TABLE + 4, pte(PB, RW));
  put(TABLE + 8, 0);
  put(TABLE + 12, pte(PA, RO));
  put(TABLE + 16, pte(PA, UW));
  put(ROOT2 + 0x400, pte(TABLE2, 1));
  put(ROOT2 + 0x800, pte(0x80000000u, RW));
  put(TABLE2 + 0, pte(PB, RW));
  at(3, VA), at(4, VA + 0x1000), at(5, VA + 0x2000), at(6, VA + 0x3000), at(7, VA + 0x4000), at(8, TABLE), at(9, pte(PB, RW));
}
extern "C" void hx_m_pages() {
  static Ins p[32];
  handler(p, 32);
  p[0] = {SW(1, 0, 3), -1}, p[1] = {LW(10, 0, 4), -1}, p[2] = {SW(10, 4, 4), -1}, p[3] = {LW(11, 0, 6), -1}, p[4] = {LW(12, 4, 4), -1}, p[5] = {AMO(0, 1, 3, 13), -1}, p[6] = {LW(14, 0, 6), -1};
  space(p, 32);
  run(7, 400);
}
template <uint32_t W> static void pfault() {
  static Ins p[32];
  handler(p, 32);
  p[0] = {SW(1, 0, 3), -1}, p[1] = {W, -1}, p[2] = {SW(2, 4, 3), -1}, p[3] = {LW(10, 0, 3), -1};
  space(p, 32);
  run(9, 400);
  sx_assert(traps == 1, "one trap");
}
extern "C" void hx_m_fault_load() { pfault<LW(11, 0, 5)>(); }
extern "C" void hx_m_fault_store() { pfault<SW(1, 0, 6)>(); }
extern "C" void hx_m_fault_user() { pfault<LW(11, 0, 7)>(); }
extern "C" void hx_m_fault_far() { pfault<LW(11, 0, 0)>(); } // no table at all
// an entry is rewritten: after the fence the new one counts
template <int DELAY, bool WARM> static void remap() {
  static Ins p[32];
  handler(p, 32);
  p[0] = {WARM ? (uint32_t)LW(10, 0, 3) : (uint32_t)LW(10, 0, 8), -1}, p[1] = {SW(1, 4, 3), -1}, p[2] = {SW(9, 0, 8), -1}, p[3] = {0x12000073, -1}, p[4] = {LW(11, 4, 3), -1}, p[5] = {SW(2, 8, 3), -1}, p[6] = {LW(12, 8, 4), -1};
  p[7] = {SW(0, 4, 8), -1}, p[8] = {0x12000073, -1}, p[9] = {LW(13, 8, 3), -1}, p[10] = {LW(14, 8, 4), -1}, p[11] = {LW(15, 8, 3), -1};
  space(p, 32);
  env.delay = DELAY;
  run(18, 900);
  sx_assert(traps == 1, "one trap");
}
extern "C" void hx_m_remap() { remap<3, true>(); }
extern "C" void hx_m_remap_cold() { remap<3, false>(); }
extern "C" void hx_m_remap_slow() { remap<14, true>(); }
// another address space
template <uint32_t NEW> static void other() {
  static Ins p[32];
  handler(p, 32);
  p[0] = {SW(1, 0, 3), -1}, p[1] = {SW(2, 0, 4), -1}, p[2] = {CSR(0x180, 9, 1, 10), -1}, p[3] = {0x12000073, -1}, p[4] = {LW(11, 0, 3), -1}, p[5] = {SW(1, 0, 3), -1}, p[6] = {CSR(0x180, 10, 1, 12), -1}, p[7] = {0x12000073, -1}, p[8] = {LW(13, 0, 3), -1}, p[9] = {LW(14, 0, 4), -1};
  space(p, 32);
  at(9, NEW);
  run(10, 900);
}
extern "C" void hx_m_space() { other<SATP2>(); }
extern "C" void hx_m_asid() { other<SATP3>(); }

// mixed programs: addresses, operations and answer times drawn from N
static uint32_t seed;
static int draw(int n) {
  seed = seed * 1664525u + 1013904223u;
  return (seed >> 16) % n;
}
template <int N> static void mixed(bool irq, bool paged = false) {
  static Ins p[64];
  seed = N * 7919 + 1;
  env.end = 48;
  for (Ins &i : p)
    i = {NOP, -1};
  for (int i = 0; i < 40; i++) {
    int b = 10 + draw(6), d = 16 + draw(16), s = draw(2) ? 1 + draw(3) : 16 + draw(16), o = 4 * draw(4) + (draw(3) ? 0 : 48), k = draw(20);
    uint32_t w = NOP;
    int to = -1;
    switch (k) {
    case 0: case 1: case 2: case 3: w = LW(d, o, b); break;
    case 4: case 5: case 6: w = SW(s, o, b); break;
    case 7: w = S(o + draw(4), s, b, 0); break;
    case 8: w = S(o + 2 * draw(2), s, b, 1); break;
    case 9: w = I(o + draw(4), b, draw(2) ? 0 : 4, d, 3); break;
    case 10: w = I(o + 2 * draw(2), b, draw(2) ? 1 : 5, d, 3); break;
    case 11: w = AMO(4 * draw(8), s, b, d); break;
    case 12: w = draw(2) ? AMO(2, 0, b, d) : AMO(3, s, b, d); break;
    case 13: w = draw(2) ? 0x0ff0000f : draw(2) ? 0x12000073 : 0x0000100f; break;
    case 14: w = CSR(paged ? 0x140 : 0x340, s, 1 + draw(2), d); break;
    case 15: // a branch over a few instructions, guessed wrong or right
      if (i < 36) {
        bool t = draw(2), g = draw(2);
        int l = 2 + draw(3);
        w = B(4 * l, 0, 0, t ? 0 : 1);
        to = g ? i + l : -1;
      }
      break;
    case 16: w = R(1, s, d, draw(4), 16 + draw(16)); break;
    default: w = R(draw(2) ? 0x20 : 0, s, d, 0, 16 + draw(16)); break;
    }
    p[i] = {w, to};
  }
  // the timer's handler, or that of the faults
  p[52] = {CSR(0x341, 0, 2, 9), -1};
  p[53] = {paged ? (uint32_t)ADDI(9, 9, 4) : (uint32_t)ADDI(8, 8, 1), -1};
  p[54] = {CSR(0x341, 9, 1, 0), -1};
  p[55] = {0x30200073, -1};
  if (paged)
    space(p, 64);
  else
    begin(p, 64);
  first.csr[csr_mtvec] = BASE + 4 * 52;
  first.rv = false;
  if (paged) {
    at(10, VA), at(11, VA + 0x1000), at(12, VA + 0x3000), at(13, draw(2) ? VA + 0x2000 : VA + 0x1040), at(14, PA + WAY), at(15, draw(2) ? VA + 0x4000 : VA + 0x40);
  } else {
    for (int i = 0; i < 6; i++)
      at(10 + i, DATA + (i < 5 ? i * WAY : 0x40));
  }
  env.delay = 2 + draw(4) * 4;
  env.width = 1 + draw(4);
  env.gaps = (uint64_t)draw(65536) << 16 | draw(65536);
  env.again = draw(2) ? 0 : (uint64_t)draw(65536) << 32 | draw(65536);
  if (irq) {
    first.csr[csr_mstatus] = 0x1808;
    first.csr[csr_mie] = 0x80;
    env.irq = 4 + draw(40);
  }
  run(30, 1500);
}
#define MIX(n) \
  extern "C" void hx_m_mix##n() { mixed<n>(false); } \
  extern "C" void hx_m_imix##n() { mixed<n>(true); } \
  extern "C" void hx_m_pmix##n() { mixed<n>(false, true); }
#define MIX8(n) MIX(n##0) MIX(n##1) MIX(n##2) MIX(n##3) MIX(n##4) MIX(n##5) MIX(n##6) MIX(n##7)
MIX8(1) MIX8(2) MIX8(3) MIX8(4)
