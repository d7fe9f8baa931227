// W01: the whole back end, from fetched instructions to retired results.
#include <array>
#include <cinttypes>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <vector>
#include <fstream>
#include <deque>
#define private public
#define protected public
#include "BackTop.h"
#include "Csr.h"
#include "Dispatch.h"
#include "Exu.h"
#include "Idu.h"
#include "Isu.h"
#include "PreIduQueue.h"
#include "Prf.h"
#include "RealLsu.h"
#include "Ren.h"
#include "Rob.h"
#undef private
#undef protected
#include "MemSubsystem.h"
#include "PhysMemory.h"
#include "PtwWalkPort.h"
#include "diff.h"
#include "isa_spec.h"
#include "priv_spec.h"
#include "sx.h"
extern "C" {
#include "softfloat.h"
THREAD_LOCAL uint_fast8_t softfloat_roundingMode, softfloat_exceptionFlags;
}
#include "fp_spec.h"
long long sim_time = 0;
CPU_state dut_cpu;
#ifndef CACHES
void MemSubsystem::dump_debug_state(FILE *) const {}
#endif
void init_difftest(int) {}
void init_diff_ckpt(CPU_state, uint8_t) {}
uint32_t *pmem_ram_ptr() { return nullptr; }
void pmem_write(uint32_t, uint32_t) {}
uint32_t pmem_read(uint32_t) { return 0; }

static SimContext ctx;
static BackTop back(&ctx);
static const uint32_t BASE = 0x80000000u, DEV = 0x10000000u;

// ---- the program and its sequential meaning ----
struct Ins {
  uint32_t word;
  int to; // predicted next instruction, -1: the following one
};
struct Env {
  int width = FETCH_WIDTH;  // instructions per fetch group
  uint64_t gaps = 0;        // cycles in which nothing is fetched
  int delay = 2, ddelay = 3; // memory and device answers
  uint64_t again = 0;       // cycles in which the cache asks for a retry
  bool dev = false;         // the program accesses devices
  int irq = -1;             // cycle at which the interrupt is raised
  uint32_t source = 0x80;   // the timer, or an external one
  int end = 62;             // where fetching ends
  int walk = 3;             // answers of the page table walker
  int badfetch = -1;        // instruction whose fetch faults
};
static Env env;
static const Ins *prog;
static int plen;
static Snap g;
struct Wr { uint32_t addr, data, mask; };
static Wr g_wr[64], d_wr[64];
static int g_nwr, d_nwr;
struct Dev { bool wr; uint32_t addr, data; };
static Dev g_dev[8], d_dev[8];
static int g_ndev, d_ndev;
static int retired, traps, interrupts;
#ifdef CACHES
static uint32_t initial(uint32_t addr);
#else
static uint32_t initial(uint32_t addr) { return sx_uf("mem", addr >> 2, 32); }
#endif
static uint32_t mem_with(const Wr *w, int n, uint32_t addr) {
  uint32_t v = initial(addr);
  for (int i = 0; i < n; i++)
    v = (w[i].addr >> 2) == (addr >> 2) ? (v & ~w[i].mask) | (w[i].data & w[i].mask) : v;
  return v;
}
static uint32_t word_of(uint32_t pc) {
  uint32_t k = (pc - BASE) >> 2;
  return k < (uint32_t)plen ? prog[k].word : 0x13;
}
// an address of the program as a constant
static uint32_t place(uint32_t pc) {
  for (int k = 0; k < 64; k++)
    if (pc == BASE + 4 * k)
      return BASE + 4 * k;
  sx_assume(false);
  return 0;
}
static bool regs(uint32_t a) { return a >= DMA_SRC_ADDR && a < DMA_SRC_ADDR + 12; }
static bool ram_word(uint32_t a) {
#ifdef CACHES
  if (regs(a))
    return true;
#endif
  return a >= 0x80010000u && a < 0x90000000u;
}
static bool is_dev(uint32_t a) { return a >= DEV && a < DEV + 0x10; }
// page tables: the mapped pages of the address spaces, by root
struct Map { uint32_t satp, vpn, pte; bool super; };
static Map maps[8];
static int nmaps;
#ifdef CACHES
static const Map *leaf(uint32_t satp, uint32_t va);
#else
static const Map *leaf(uint32_t satp, uint32_t va) {
  for (int i = 0; i < nmaps; i++)
    if (maps[i].satp == satp && (maps[i].super ? maps[i].vpn >> 10 == va >> 22 : maps[i].vpn == va >> 12))
      return &maps[i];
  return nullptr;
}
#endif
// the physical address; false: page fault
static bool reach(const Snap &s, bool store, uint32_t va, uint32_t &pa) {
  uint32_t st = s.csr[csr_mstatus], p = st >> 17 & 1 ? st >> 11 & 3 : s.priv;
  pa = va;
  if (p == 3 || !(s.csr[csr_satp] >> 31))
    return true;
  const Map *m = leaf(s.csr[csr_satp], va);
  if (!m)
    return false;
  uint32_t e = m->pte;
  bool r = e >> 1 & 1, w = e >> 2 & 1, x = e >> 3 & 1, u = e >> 4 & 1, a = e >> 6 & 1, d = e >> 7 & 1;
  bool ok = (store ? w && d : r || (x && (st >> 19 & 1))) && a && (p == 0 ? u : !u || (st >> 18 & 1));
  pa = m->super ? (e >> 20) << 22 | (va & 0x3fffff) : (e >> 10) << 12 | (va & 0xfff);
  return ok;
}
static bool fault(Snap &s, bool store, uint32_t va, uint32_t &pa) {
  if (reach(s, store, va, pa))
    return false;
  spec_trap(s, spec_exc(s, store ? 15 : 13, va));
  traps++;
  return true;
}
// one sequential step
static void gold(Snap &s) {
  if (s.pc == BASE + 4 * env.badfetch && s.priv != 3) {
    spec_trap(s, spec_exc(s, 12, s.pc));
    traps++;
    return;
  }
  uint32_t i = word_of(s.pc), a = s.gpr[isa_rs1(i)], b = s.gpr[isa_rs2(i)], f3 = isa_f3(i);
  IsaOut o{true, false, 0, s.pc + 4};
  switch (i & 0x7f) {
  case 0x37: case 0x17: case 0x6f: case 0x67: case 0x63: o = isa_ctl(i, s.pc, a, b); break;
  case 0x13: o = isa_opimm(i, s.pc, a); break;
  case 0x33: o = isa_f7(i) == 1 ? isa_m(i, s.pc, a, b) : isa_op(i, s.pc, a, b); break;
  case 0x53: o.wr = true, o.val = fp_value(i, a, b); break;
  case 0x0f: break;
  case 0x03: {
    uint32_t ad = a + isa_immI(i);
    if (fault(s, false, ad, ad))
      return;
    o.wr = true;
    if (env.dev && is_dev(ad)) {
      sx_assume((ad & 3) == 0);
      g_dev[g_ndev] = {false, ad, 0};
      o.val = sx_var("device", g_ndev++, 32);
      break;
    }
    sx_assume(ram_word(ad) && (ad & ((1u << (f3 & 3)) - 1)) == 0);
    o.val = isa_load(f3, ad, mem_with(g_wr, g_nwr, ad));
    break;
  }
  case 0x23: {
    uint32_t ad = a + isa_immS(i);
    if (fault(s, true, ad, ad))
      return;
    if (env.dev && is_dev(ad)) {
      sx_assume((ad & 3) == 0);
      g_dev[g_ndev++] = {true, ad, b};
      break;
    }
    sx_assume(ram_word(ad) && (ad & ((1u << f3) - 1)) == 0);
    g_wr[g_nwr++] = {ad, b << (ad & 3) * 8, isa_store_mask(f3, ad)};
    break;
  }
  case 0x2f: {
    uint32_t f5 = i >> 27;
    if (fault(s, f5 != 2, a, a))
      return;
    uint32_t old = mem_with(g_wr, g_nwr, a);
    sx_assume(ram_word(a) && (a & 3) == 0);
    o.wr = true, o.val = old;
    if (f5 == 2)
      s.rv = true, s.ra = a;
    else if (f5 == 3) {
      bool ok = s.rv && s.ra == a;
      o.val = !ok;
      s.rv = false;
      if (ok)
        g_wr[g_nwr++] = {a, b, ~0u};
    } else
      g_wr[g_nwr++] = {a, isa_amo(f5, old, b), ~0u};
    break;
  }
  case 0x73:
    if (f3) {
      for (const CsrNo &c : kCsr)
        if (c.no == i >> 20) {
          o.wr = true, o.val = s.csr[c.idx];
          if ((f3 & 3) == 1 || isa_rs1(i))
            spec_csr_write(s, c, f3 & 3, f3 & 4 ? isa_rs1(i) : a);
        }
      break;
    }
    if (i == 0x73) {
      spec_trap(s, spec_exc(s, 8 + s.priv, 0));
      traps++;
      return;
    }
    if (i == 0x30200073)
      return spec_mret(s);
    if (i == 0x10200073)
      return spec_sret(s);
    break; // wfi, sfence.vma
  default:
    spec_trap(s, spec_exc(s, 2, i));
    traps++;
    return;
  }
  if (o.wr && isa_rd(i))
    s.gpr[isa_rd(i)] = o.val;
  s.pc = o.next;
}
#ifndef CACHES
void SimContext::run_commit_inst(InstEntry *, int) {}
#endif
void SimContext::run_difftest_inst(InstEntry *e) {
  sx_assert(e->uop.dbg.pc == g.pc, "instructions retire in program order");
  g.pc = place(g.pc);
  if (back.rob_bcast.interrupt) {
    uint32_t m = g.csr[csr_mip];
    g.csr[csr_mip] |= env.source;
    uint32_t bits = spec_irq_m(g), sb = spec_irq_s(g);
    sx_assert(bits || sb, "an interrupt is taken only when one is deliverable");
    Trap t{bits ? spec_irq_first(bits) : spec_irq_first(sb), true, !bits, 0};
    spec_trap(g, t);
    g.csr[csr_mip] = m;
    interrupts++;
  } else {
    gold(g);
    retired++;
  }
}

// ---- the front end and the memory side ----
static Snap first;
static int cyc;
static uint32_t fpc;
static void fetch() {
  bool on = cyc > 63 || !(env.gaps >> cyc & 1);
  for (int j = 0; j < FETCH_WIDTH; j++) {
    uint32_t k = (fpc - BASE) >> 2;
    on = on && j < env.width && (int)k != env.end && k < 62;
    uint32_t to = k < (uint32_t)plen && prog[k].to >= 0 ? BASE + 4 * prog[k].to : fpc + 4;
    back.in.valid[j] = on;
    back.in.pc[j] = fpc;
    back.in.inst[j] = word_of(fpc);
    back.in.predict_dir[j] = on && to != fpc + 4;
    back.in.page_fault_inst[j] = on && k == (uint32_t)env.badfetch && first.priv != 3;
    if (on) {
      for (int l = 0; l < FETCH_WIDTH; l++)
        back.in.predict_next_fetch_address[l] = to;
      if (to != fpc + 4)
        on = false;
      fpc = to;
    }
  }
}
#ifdef CACHES
#include "back_caches.h"
#else
static const int DEEP = 8;
struct Pend { bool valid, again; uint32_t addr, id; };
static Pend pl[DEEP][LSU_LDU_COUNT], ps[DEEP][LSU_STA_COUNT];
static int dev_left, dev_resp;
static uint32_t dev_data;
struct Walker : PtwWalkPort {
  PtwWalkPortCombOut o = {};
  PtwWalkReq req = {};
  int left = 0;
  void tick() {
    if (left > 0 && --left == 0) {
      const Map *m = leaf(req.satp, req.vaddr);
      o.resp_valid = true;
      o.resp.fault = !m;
      o.resp.vaddr = req.vaddr;
      o.resp.leaf_pte = m ? m->pte : 0;
      o.resp.leaf_level = m && m->super;
    }
    o.req_ready = left == 0 && !o.resp_valid;
  }
  bool send_walk_req(const PtwWalkReq &r) override {
    if (!o.req_ready)
      return false;
    req = r;
    left = env.walk;
    o.req_ready = false;
    return true;
  }
  bool resp_valid() const override { return o.resp_valid; }
  PtwWalkResp resp() const override { return o.resp; }
  PtwWalkPortCombOut comb_output() const override { return o; }
  void consume_resp() override { o.resp_valid = false; }
  void flush_client() override { o.resp_valid = false, left = 0; }
};
static Walker walker;
static void memory_answers() {
  walker.tick();
  back.in.dcache2lsu.resp_ports.clear();
  for (int i = 0; i < LSU_LDU_COUNT; i++) {
    const Pend &p = pl[env.delay - 1][i];
    auto &r = back.in.dcache2lsu.resp_ports.load_resps[i];
    r.valid = p.valid;
    r.req_id = p.id;
    r.replay = p.again ? ReplayType::CONFLICT : ReplayType::HIT;
    if (p.valid && !p.again)
      r.data = mem_with(d_wr, d_nwr, p.addr);
  }
  for (int i = 0; i < LSU_STA_COUNT; i++) {
    const Pend &p = ps[env.delay - 1][i];
    auto &r = back.in.dcache2lsu.resp_ports.store_resps[i];
    r.valid = p.valid;
    r.req_id = p.id;
    r.replay = p.again ? ReplayType::CONFLICT : ReplayType::HIT;
  }
  auto &d = back.in.peripheral_resp;
  d.is_mmio = dev_left == 1;
  d.ready = dev_left == 0;
  d.mmio_rdata = dev_data;
  if (dev_left)
    dev_left--;
}
static void memory_takes() {
  bool again = cyc < 64 && (env.again >> cyc & 1);
  for (int k = DEEP - 1; k > 0; k--) {
    for (int i = 0; i < LSU_LDU_COUNT; i++)
      pl[k][i] = pl[k - 1][i];
    for (int i = 0; i < LSU_STA_COUNT; i++)
      ps[k][i] = ps[k - 1][i];
  }
  for (int i = 0; i < LSU_LDU_COUNT; i++) {
    auto &q = back.out.lsu2dcache.req_ports.load_ports[i];
    pl[0][i] = {(bool)q.valid, again, q.addr, q.req_id};
  }
  for (int i = 0; i < LSU_STA_COUNT; i++) {
    auto &q = back.out.lsu2dcache.req_ports.store_ports[i];
    ps[0][i] = {(bool)q.valid, again, q.addr, q.req_id};
    if (q.valid && !again) {
      uint32_t m = 0;
      for (int b = 0; b < 4; b++)
        m |= (q.strb >> b & 1) ? 0xffu << b * 8 : 0;
      d_wr[d_nwr++] = {q.addr, q.data, m};
    }
  }
  auto &q = back.out.peripheral_req;
  if (q.is_mmio && back.in.peripheral_resp.ready) {
    sx_assert(d_ndev < 8, "device accesses are not repeated");
    dev_data = q.wen ? 0 : (uint32_t)sx_var("device", d_ndev, 32);
    d_dev[d_ndev++] = {(bool)q.wen, q.mmio_addr, q.wen ? (uint32_t)q.mmio_wdata : 0};
    dev_left = env.ddelay;
  }
}
static void connect() { back.set_lsu_ptw_walk_port(&walker); }
static void memory_seq() {}
static void memory_same() {
  uint32_t q = sx_var("where", 0, 32);
  sx_assert(mem_with(d_wr, d_nwr, q) == mem_with(g_wr, g_nwr, q), "memory equals that of the sequential run");
}
#endif
void get_state(CPU_state &s, uint8_t &priv) {
  for (int i = 0; i < 32; i++)
    s.gpr[i] = first.gpr[i];
  for (int i = 0; i < 21; i++)
    s.csr[i] = first.csr[i];
  s.pc = first.pc;
  s.reserve_valid = first.rv;
  s.reserve_addr = first.ra;
  priv = first.priv;
}
static void begin(const Ins *p, int n) {
  prog = p, plen = n;
  for (int i = 0; i < 32; i++)
    first.gpr[i] = i ? (uint32_t)sx_var("x", i, 32) : 0;
  for (int i = 0; i < 21; i++)
    first.csr[i] = sx_var("csr", i, 32);
  first.csr[csr_mtvec] = BASE + 4 * 24;
  first.csr[csr_stvec] = BASE + 4 * 28;
  first.csr[csr_mepc] = first.csr[csr_sepc] = BASE;
  first.csr[csr_satp] = 0;
  first.csr[csr_mstatus] = 0x1800;
  first.csr[csr_mip] = first.csr[csr_mie] = first.csr[csr_mideleg] = first.csr[csr_medeleg] = 0;
  first.pc = BASE;
  first.priv = 3;
}
static void tidy() {
  first.csr[csr_sstatus] = first.csr[csr_mstatus] & SST;
  first.csr[csr_sip] = first.csr[csr_mip] & 0x333;
  first.csr[csr_sie] = first.csr[csr_mie] & 0x333;
}
// the whole run: `want` instructions retire within `maxc` cycles
static void run(int want, int maxc) {
  tidy();
  // sequential run alone: states the assumptions on addresses and outcomes
  g = first;
  for (int k = 0; k < want; k++) {
    gold(g);
    g.pc = place(g.pc);
  }
  g = first;
  g_nwr = g_ndev = traps = 0;
  back.init();
  connect();
  back.restore_from_ref();
  ctx.perf.perf_start = false;
  bool redirect = back.out.flush;
  fpc = place(back.out.redirect_pc);
#ifdef CACHES
  int tail = 150;
#else
  int tail = 12;
#endif
  for (cyc = 0; cyc < maxc && (retired < want || tail > 0); cyc++) {
    if (retired >= want)
      tail--;
    back.comb_csr_status();
    if (!back.out.stall || redirect)
      fetch();
    memory_answers();
    auto &pin = back.csr_interrupt_inject_io;
    bool raised = env.irq >= 0 && cyc >= env.irq && !interrupts;
    pin.timer_irq_pending_valid = pin.external_irq_pending_valid = env.irq >= 0;
    pin.timer_irq_pending = raised && env.source == 0x80;
    pin.external_irq_pending = raised && env.source == 0x800;
    back.comb();
    memory_takes();
    redirect = back.out.mispred || back.out.flush;
    if (redirect)
      fpc = place(back.out.redirect_pc);
    back.seq();
    memory_seq();
    if (!redirect && back.out.stall)
      for (int j = 0; j < FETCH_WIDTH; j++)
        if (back.out.fire[j])
          back.in.valid[j] = false;
    bool same = true, csame = true;
    for (int i = 0; i < 32; i++)
      same &= back.prf->reg_file[back.rename->arch_RAT[i]] == g.gpr[i];
    for (int i = 0; i < 21; i++)
      if (i != csr_mip && i != csr_sip)
        csame &= back.csr->CSR_RegFile[i] == g.csr[i];
    sx_assert(same, "registers equal those of the sequential run");
    sx_assert(csame && back.csr->privilege == g.priv, "control registers and mode equal those of the sequential run");
    sim_time++;
  }
  sx_assert(retired >= want, "the program finishes in time");
  sx_assert((env.irq >= 0) == (interrupts == 1), "the interrupt is taken");
  memory_same();
  sx_assert(d_ndev >= g_ndev, "every device access happens");
  sx_assert(d_ndev <= g_ndev, "no device access is repeated");
  for (int i = 0; i < d_ndev; i++)
    sx_assert(d_dev[i].wr == g_dev[i].wr && d_dev[i].addr == g_dev[i].addr && (!g_dev[i].wr || d_dev[i].data == g_dev[i].data), "device accesses happen in program order");
  sx_cover(true, "finished");
  for (int i = 1; i < 32; i++)
    sx_observe("x", i, back.prf->reg_file[back.rename->arch_RAT[i]]);
  sx_observe("cycles", 0, cyc);
}
#define R(f7, r2, r1, f3, rd) ((f7) << 25 | (r2) << 20 | (r1) << 15 | (f3) << 12 | (rd) << 7 | 0x33)
#define FP(f7, r2, r1, f3, rd) (R(f7, r2, r1, f3, rd) ^ 0x60)
#define AMO(f5, r2, r1, rd) (R((f5) << 2, r2, r1, 2, rd) ^ 0x1c)
#define I(im, r1, f3, rd, op) (((im) & 0xfff) << 20 | (r1) << 15 | (f3) << 12 | (rd) << 7 | (op))
#define ADDI(rd, r1, im) I(im, r1, 0, rd, 0x13)
#define LW(rd, im, r1) I(im, r1, 2, rd, 0x03)
#define S(im, r2, r1, f3) (((im) >> 5 & 0x7f) << 25 | (r2) << 20 | (r1) << 15 | (f3) << 12 | ((im) & 31) << 7 | 0x23)
#define SW(r2, im, r1) S(im, r2, r1, 2)
#define B(im, r2, r1, f3) (((im) >> 12 & 1) << 31 | ((im) >> 5 & 0x3f) << 25 | (r2) << 20 | (r1) << 15 | (f3) << 12 | ((im) >> 1 & 15) << 8 | ((im) >> 11 & 1) << 7 | 0x63)
#define J(im, rd) (((im) >> 20 & 1) << 31 | ((im) >> 1 & 0x3ff) << 21 | ((im) >> 11 & 1) << 20 | ((im) >> 12 & 0xff) << 12 | (rd) << 7 | 0x6f)
#define CSR(no, r1, f3, rd) I(no, r1, f3, rd, 0x73)
#define NOP 0x13
#define PROG(...) static const Ins p[] = {__VA_ARGS__}; begin(p, sizeof(p) / sizeof(p[0]))
#ifndef CACHES
extern "C" void hx_w_alu() {
  PROG({R(0, 2, 1, 0, 5), -1},     // add x5, x1, x2
       {R(0x20, 3, 5, 0, 6), -1},  // sub x6, x5, x3
       {R(0, 6, 5, 4, 5), -1},     // xor x5, x5, x6
       {ADDI(5, 5, 7), -1},
       {R(1, 5, 6, 0, 7), -1},     // mul x7, x6, x5
       {R(0, 5, 7, 6, 8), -1},     // or x8, x7, x5
       {R(0, 8, 8, 0, 0), -1},     // add x0, x8, x8
       {R(0, 8, 0, 0, 9), -1});    // add x9, x0, x8
  run(8, 60);
}
// the same, one instruction per fetch group and with gaps
extern "C" void hx_w_narrow() {
  PROG({R(0, 2, 1, 0, 5), -1}, {R(0x20, 3, 5, 0, 6), -1}, {R(0, 6, 5, 4, 5), -1}, {R(1, 5, 6, 0, 7), -1}, {R(0, 7, 5, 0, 5), -1});
  env.width = 1;
  env.gaps = 0x25;
  run(5, 60);
}
// results of different latencies, written to the same register
extern "C" void hx_w_long() {
  PROG({R(1, 2, 1, 5, 5), -1},    // divu x5, x1, x2
       {R(1, 2, 1, 3, 6), -1},    // mulhu x6
       {FP(0, 2, 1, 0, 7), -1},   // fadd x7
       {R(0, 6, 5, 0, 5), -1},    // add x5, x5, x6
       {R(0, 7, 5, 4, 6), -1},    // xor x6, x5, x7
       {ADDI(7, 0, 3), -1});
  sx_assume(first.gpr[2] == 3);
  run(6, 100);
}
// store then loads of the same word, of a part of it and of another word
extern "C" void hx_w_mem() {
  PROG({SW(2, 0, 1), -1}, {LW(5, 0, 1), -1}, {S(1, 3, 1, 0), -1}, {I(1, 1, 4, 6, 3), -1}, {LW(7, 0, 1), -1}, {LW(8, 4, 1), -1}, {R(0, 8, 7, 0, 9), -1});
  run(7, 90);
}
// a load whose address comes from a load, and a store of loaded data
extern "C" void hx_w_chain() {
  PROG({LW(5, 0, 1), -1}, {LW(6, 4, 5), -1}, {SW(6, 8, 5), -1}, {LW(7, 8, 5), -1}, {SW(7, 0, 1), -1}, {LW(8, 0, 1), -1});
  env.delay = 4;
  run(6, 110);
}
// two addresses: the same or not
extern "C" void hx_w_alias() {
  PROG({SW(2, 0, 1), -1}, {SW(4, 0, 3), -1}, {LW(5, 0, 1), -1}, {LW(6, 0, 3), -1});
  sx_assume(first.gpr[1] == first.gpr[3]);
  run(4, 90);
}
extern "C" void hx_w_noalias() {
  PROG({SW(2, 0, 1), -1}, {SW(4, 0, 3), -1}, {LW(5, 0, 1), -1}, {LW(6, 0, 3), -1});
  sx_assume((first.gpr[1] >> 2) != (first.gpr[3] >> 2));
  run(4, 90);
}
// the cache asks for retries
extern "C" void hx_w_retry() {
  PROG({SW(2, 0, 1), -1}, {LW(5, 4, 1), -1}, {LW(6, 8, 1), -1}, {SW(5, 12, 1), -1}, {LW(7, 12, 1), -1});
  env.again = 0x0003333300ull;
  run(5, 110);
}
// branches: T outcome, predicted P; the skipped instructions write and store
template <bool T, bool P> static void branch() {
  PROG({B(16, 2, 1, 0), P ? 4 : -1}, {ADDI(5, 5, 1), -1}, {SW(2, 0, 3), -1}, {ADDI(6, 5, 1), -1}, {R(0, 6, 5, 0, 7), -1}, {LW(8, 0, 3), -1}, {R(0, 8, 7, 0, 5), -1});
  sx_assume((first.gpr[1] == first.gpr[2]) == T && ram_word(first.gpr[3]) && (first.gpr[3] & 3) == 0);
  run(T ? 4 : 7, 100);
  sx_assert(back.prf->reg_file[back.rename->arch_RAT[5]] == first.gpr[5] * 0 + g.gpr[5], "last register");
}
extern "C" void hx_w_br_nn() { branch<false, false>(); }
extern "C" void hx_w_br_nt() { branch<false, true>(); }
extern "C" void hx_w_br_tn() { branch<true, false>(); }
extern "C" void hx_w_br_tt() { branch<true, true>(); }
// two branches in flight, the older one decided later
template <bool P, bool Q> static void branch2() {
  PROG({R(1, 2, 1, 0, 5), -1},      // mul x5, x1, x2
       {B(20, 0, 5, 1), P ? 6 : -1}, // bne x5, x0, +20: taken
       {B(12, 4, 4, 0), Q ? 5 : -1}, // beq x4, x4
       {ADDI(6, 6, 1), -1}, {SW(6, 0, 3), -1}, {ADDI(7, 7, 2), -1},
       {R(0, 7, 6, 0, 8), -1},
       {J(8, 1), 9}, {ADDI(8, 8, 5), -1},
       {R(0, 8, 1, 0, 9), -1});
  sx_assume((first.gpr[1] & 1) && (first.gpr[2] & 1) && ram_word(first.gpr[3]) && (first.gpr[3] & 3) == 0);
  run(5, 100);
}
extern "C" void hx_w_br2_nn() { branch2<false, false>(); }
extern "C" void hx_w_br2_nt() { branch2<false, true>(); }
extern "C" void hx_w_br2_tt() { branch2<true, true>(); }
// call and return through a register, the return mispredicted
extern "C" void hx_w_call() {
  PROG({J(16, 1), 4}, {ADDI(5, 5, 1), -1}, {J(20, 0), 7}, {ADDI(5, 5, 9), -1},
       {ADDI(6, 5, 3), -1}, {I(0, 1, 0, 0, 0x67), -1}, {ADDI(6, 6, 9), -1},
       {R(0, 6, 5, 0, 7), -1});
  run(6, 100);
}
// a counted loop with its branch predicted taken every time
extern "C" void hx_w_loop() {
  PROG({ADDI(5, 0, 3), -1}, {R(0, 2, 1, 0, 1), -1}, {ADDI(5, 5, -1), -1}, {B(-8, 0, 5, 1), 1}, {R(0, 5, 1, 0, 6), -1});
  run(11, 110);
}
// control registers
extern "C" void hx_w_csr() {
  PROG({CSR(0x340, 1, 1, 5), -1}, {CSR(0x340, 2, 2, 6), -1}, {R(0, 6, 5, 0, 7), -1}, {CSR(0x340, 3, 7, 8), -1}, {CSR(0x140, 7, 1, 9), -1});
  run(5, 120);
}
// traps: what follows the trapping instruction has no effect
template <uint32_t W> static void trap() {
  static Ins p[32];
  for (Ins &i : p)
    i = {NOP, -1};
  p[0] = {R(0, 2, 1, 0, 5), -1}, p[1] = {W, -1}, p[2] = {ADDI(5, 5, 1), -1}, p[3] = {SW(5, 0, 3), -1};
  p[24] = {CSR(0x342, 0, 2, 6), -1}; // handler: read the cause, skip the instruction
  p[25] = {CSR(0x341, 0, 2, 7), -1};
  p[26] = {ADDI(7, 7, 4), -1};
  p[27] = {CSR(0x341, 7, 1, 0), -1};
  p[28] = {0x30200073, -1};
  begin(p, 32);
  run(10, 200);
  sx_assert(traps == 1, "one trap");
}
extern "C" void hx_w_ecall() { trap<0x73>(); }
extern "C" void hx_w_illegal() { trap<0xffffffffu>(); }
// atomics
extern "C" void hx_w_amo() {
  PROG({SW(2, 0, 1), -1}, {AMO(0, 3, 1, 5), -1}, {LW(6, 0, 1), -1}, {AMO(20, 6, 1, 7), -1}, {LW(8, 0, 1), -1});
  run(5, 160);
}
extern "C" void hx_w_lrsc() {
  PROG({AMO(2, 0, 1, 5), -1}, {R(0, 2, 5, 0, 6), -1}, {AMO(3, 6, 1, 7), -1}, {AMO(3, 2, 1, 8), -1}, {LW(9, 0, 1), -1});
  run(5, 160);
}
// devices
extern "C" void hx_w_dev() {
  PROG({LW(5, 0, 1), -1}, {SW(5, 4, 1), -1}, {LW(6, 0, 1), -1}, {SW(6, 0, 2), -1}, {LW(7, 0, 2), -1});
  env.dev = true;
  sx_assume(first.gpr[1] >= DEV && first.gpr[1] < DEV + 8 && ram_word(first.gpr[2]));
  run(5, 160);
}
extern "C" void hx_w_devspec() {
  PROG({R(1, 2, 1, 0, 5), -1}, {B(12, 0, 5, 1), -1}, {LW(6, 0, 3), -1}, {SW(6, 0, 3), -1}, {ADDI(7, 5, 1), -1});
  env.dev = true;
  sx_assume((first.gpr[1] & 1) && (first.gpr[2] & 1) && first.gpr[3] >= DEV && first.gpr[3] < DEV + 8 && (first.gpr[3] & 3) == 0);
  run(3, 160);
}
// fences
extern "C" void hx_w_fence() {
  PROG({SW(2, 0, 1), -1}, {0x0ff0000f, -1}, {LW(5, 0, 1), -1}, {SW(3, 0, 1), -1}, {0x0000100f, -1}, {LW(6, 0, 1), -1}, {0x12000073, -1}, {LW(7, 0, 1), -1});
  run(8, 200);
}

// user mode: a system call handled by the supervisor, which returns
extern "C" void hx_w_user() {
  static Ins p[32];
  for (Ins &i : p)
    i = {NOP, -1};
  p[0] = {R(0, 2, 1, 0, 5), -1}, p[1] = {0x73, -1}, p[2] = {R(0, 6, 5, 0, 7), -1};
  p[28] = {CSR(0x142, 0, 2, 6), -1};
  p[29] = {CSR(0x141, 8, 1, 0), -1};
  p[30] = {0x10200073, -1};
  begin(p, 32);
  first.priv = 0;
  first.csr[csr_mstatus] = 0;
  first.csr[csr_medeleg] = 0x100;
  sx_assume(first.gpr[8] == BASE + 8);
  run(6, 200);
  sx_assert(traps == 1, "one trap");
}
// a mispredicted branch, wrong-path trap and wrong-path control register write
extern "C" void hx_w_wrong() {
  PROG({R(1, 2, 1, 0, 5), -1}, {B(20, 0, 5, 1), -1}, {CSR(0x340, 2, 1, 6), -1}, {0x73, -1}, {0xffffffffu, -1}, {0x0000100f, -1}, {ADDI(7, 5, 1), -1}, {CSR(0x340, 7, 1, 8), -1});
  sx_assume((first.gpr[1] & 1) && (first.gpr[2] & 1));
  run(4, 160);
}
// more results than there are free registers, more stores than the queue holds
extern "C" void hx_w_many() {
  static Ins p[40];
  for (int i = 0; i < 40; i++)
    p[i] = {(uint32_t)R(0, 1 + i % 3, 5 + i % 7, 0, 5 + (i + 3) % 7), -1};
  p[0] = {R(1, 2, 1, 5, 4), -1}; // divu x4, x1, x2
  begin(p, 40);
  sx_assume(first.gpr[2] == 5);
  run(40, 200);
}
extern "C" void hx_w_stores() {
  static Ins p[24];
  for (int i = 0; i < 24; i++)
    p[i] = {i == 23 ? (uint32_t)LW(6, 4, 3) : (uint32_t)SW(1 + i % 3, 4 * (i % 5), 3), -1};
  begin(p, 24);
  run(24, 260);
}
extern "C" void hx_w_loads() {
  static Ins p[24];
  for (int i = 0; i < 24; i++)
    p[i] = {(uint32_t)LW(5 + i, 4 * i, 3), -1};
  begin(p, 24);
  env.delay = 6;
  run(24, 260);
}

// a device read right behind an instruction that restarts the pipeline
template <uint32_t W> static void devafter() {
  PROG({SW(2, 0, 1), -1}, {R(0, 2, 1, 0, 5), -1}, {W, -1}, {LW(6, 0, 3), -1}, {ADDI(7, 6, 1), -1});
  env.dev = true;
  sx_assume(ram_word(first.gpr[1]) && first.gpr[3] >= DEV && first.gpr[3] < DEV + 8 && (first.gpr[3] & 3) == 0);
  run(5, 160);
}
extern "C" void hx_w_dev_fence() { devafter<0x0ff0000f>(); }
extern "C" void hx_w_dev_fencei() { devafter<0x0000100f>(); }
extern "C" void hx_w_dev_sfence() { devafter<0x12000073>(); }
extern "C" void hx_w_dev_csr() { devafter<CSR(0x340, 2, 1, 8)>(); }
extern "C" void hx_w_dev_branch() {
  PROG({R(1, 2, 1, 0, 5), -1}, {ADDI(4, 4, 1), -1}, {B(12, 0, 5, 1), -1}, {LW(6, 0, 3), -1}, {SW(6, 0, 3), -1}, {ADDI(7, 5, 1), -1});
  env.dev = true;
  sx_assume((first.gpr[1] & 1) && (first.gpr[2] & 1) && first.gpr[3] >= DEV && first.gpr[3] < DEV + 8 && (first.gpr[3] & 3) == 0);
  run(4, 160);
}

// a timer interrupt at each of many moments of several programs
enum { PLAIN, BRANCH, ATOMIC, DEVICE, SYSTEM, FENCES };
template <int KIND, int AT> static void irq() {
  static Ins p[40];
  for (Ins &i : p)
    i = {NOP, -1};
  const Ins body[6][6] = {
      {{R(0, 2, 1, 0, 5), -1}, {LW(6, 0, 3), -1}, {ADDI(5, 5, 1), -1}, {SW(5, 0, 3), -1}, {R(1, 5, 6, 0, 7), -1}, {LW(9, 0, 3), -1}},
      {{R(1, 2, 1, 0, 5), -1}, {B(12, 0, 5, 1), -1}, {ADDI(6, 6, 1), -1}, {SW(6, 0, 3), -1}, {R(0, 6, 5, 0, 7), -1}, {B(-12, 0, 5, 0), 2}},
      {{AMO(0, 2, 3, 5), -1}, {AMO(2, 0, 3, 6), -1}, {AMO(3, 6, 4, 7), -1}, {AMO(28, 5, 3, 9), -1}, {LW(10, 0, 3), -1}, {NOP, -1}},
      {{R(0, 2, 1, 0, 5), -1}, {LW(6, 0, 3), -1}, {SW(6, 4, 3), -1}, {LW(7, 0, 3), -1}, {ADDI(9, 7, 1), -1}, {NOP, -1}},
      {{CSR(0x340, 1, 1, 5), -1}, {0x73, -1}, {R(0, 6, 5, 0, 9), -1}, {CSR(0x340, 9, 2, 10), -1}, {0xffffffffu, -1}, {NOP, -1}},
      {{SW(2, 0, 3), -1}, {0x0000100f, -1}, {LW(5, 0, 3), -1}, {0x12000073, -1}, {SW(5, 4, 3), -1}, {0x0ff0000f, -1}},
  };
  for (int i = 0; i < 6; i++)
    p[i] = body[KIND][i];
  p[24] = {CSR(0x342, 0, 2, 6), -1}; // exceptions: read the cause, skip the instruction
  p[25] = {CSR(0x341, 0, 2, 7), -1};
  p[26] = {ADDI(7, 7, 4), -1};
  p[27] = {CSR(0x341, 7, 1, 0), -1};
  p[28] = {0x30200073, -1};
  p[31] = {ADDI(8, 8, 1), -1}; // the timer
  p[32] = {0x30200073, -1};
  begin(p, 40);
  first.csr[csr_mtvec] = BASE + 4 * 24 + 1;
  first.csr[csr_mstatus] = 0x1808;
  first.csr[csr_mie] = 0x80;
  env.irq = AT;
  env.dev = KIND == DEVICE;
  if (KIND == BRANCH)
    sx_assume((first.gpr[1] & 1) && (first.gpr[2] & 1));
  if (KIND == ATOMIC)
    sx_assume(first.gpr[3] != first.gpr[4]);
  if (KIND == DEVICE)
    sx_assume(first.gpr[3] >= DEV && first.gpr[3] < DEV + 8 && (first.gpr[3] & 3) == 0);
  else
    sx_assume(ram_word(first.gpr[3]) && first.gpr[3] < 0x8ffffff0u && (first.gpr[3] & 3) == 0);
  run(KIND == SYSTEM ? 22 : 14, 200);
}
#define AT(n) \
  extern "C" void hx_w_i##n##_plain() { irq<PLAIN, n>(); } \
  extern "C" void hx_w_i##n##_branch() { irq<BRANCH, n>(); } \
  extern "C" void hx_w_i##n##_atomic() { irq<ATOMIC, n>(); } \
  extern "C" void hx_w_i##n##_device() { irq<DEVICE, n>(); } \
  extern "C" void hx_w_i##n##_system() { irq<SYSTEM, n>(); } \
  extern "C" void hx_w_i##n##_fences() { irq<FENCES, n>(); }
AT(2) AT(3) AT(4) AT(5) AT(6) AT(7) AT(8) AT(9) AT(10) AT(11) AT(12) AT(13) AT(14) AT(15) AT(16) AT(17) AT(18)

// every register operation, on the same two operands
static void ops(const Ins *p, int n, int w) {
  begin(p, n);
  env.width = w;
  run(n, 200);
}
extern "C" void hx_w_ops1() {
  static Ins p[20];
  int n = 0;
  for (int f3 = 0; f3 < 8; f3++)
    p[n] = {(uint32_t)R(0, 2, 1, f3, 5 + n), -1}, n++;
  const int f[6] = {0, 4, 5, 6, 7, 0};
  for (int k = 0; k < 5; k++)
    p[n] = {(uint32_t)R(0x20, 2, 1, f[k], 5 + n), -1}, n++;
  for (int f3 = 2; f3 < 8; f3 += 2)
    p[n] = {(uint32_t)R(0x10, 2, 1, f3, 5 + n), -1}, n++;
  p[n] = {0x12345037u | 5 + n << 7, -1}, n++;
  p[n] = {0xfedcb017u | 5 + n << 7, -1}, n++;
  ops(p, n, 3);
}
extern "C" void hx_w_ops2() {
  static Ins p[20];
  int n = 0;
  for (int f3 = 4; f3 < 8; f3++)
    p[n] = {(uint32_t)R(5, 2, 1, f3, 5 + n), -1}, n++;
  const int f[8][2] = {{0x30, 1}, {0x30, 5}, {0x24, 1}, {0x24, 5}, {0x14, 1}, {0x34, 1}, {4, 4}, {4, 7}};
  for (auto &k : f)
    p[n] = {(uint32_t)R(k[0], k[1] == 4 ? 0 : 2, 1, k[1], 5 + n), -1}, n++;
  const int g[4] = {0x600, 0x601, 0x602, 0x604};
  for (int k : g)
    p[n] = {(uint32_t)I(k, 1, 1, 5 + n, 0x13), -1}, n++;
  ops(p, n, 4);
}
extern "C" void hx_w_ops3() {
  static Ins p[20];
  int n = 0;
  const int f[6] = {0, 2, 3, 4, 6, 7};
  for (int k : f)
    p[n] = {(uint32_t)I(-1234, 1, k, 5 + n, 0x13), -1}, n++;
  p[n] = {(uint32_t)I(7, 1, 1, 5 + n, 0x13), -1}, n++;
  p[n] = {(uint32_t)I(9, 1, 5, 5 + n, 0x13), -1}, n++;
  p[n] = {(uint32_t)I(0x400 | 30, 1, 5, 5 + n, 0x13), -1}, n++;
  p[n] = {(uint32_t)I(0x600 | 3, 1, 5, 5 + n, 0x13), -1}, n++;
  p[n] = {(uint32_t)I(0x698, 1, 5, 5 + n, 0x13), -1}, n++;
  p[n] = {(uint32_t)I(0x287, 1, 5, 5 + n, 0x13), -1}, n++;
  ops(p, n, 2);
}
// every kind of load and store, through the queue and from memory
template <int O> static void widths() {
  PROG({S(O, 2, 3, 0), -1}, {I(O, 3, 0, 5, 3), -1}, {I(O, 3, 4, 6, 3), -1}, {I(O ^ 1, 3, 4, 7, 3), -1}, {S((O & 2), 1, 3, 1), -1}, {I((O & 2), 3, 1, 8, 3), -1}, {I((O & 2), 3, 5, 9, 3), -1}, {LW(10, 0, 3), -1}, {I(4 + O, 3, 0, 11, 3), -1}, {I(4 + (O & 2), 3, 1, 12, 3), -1});
  sx_assume((first.gpr[3] & 3) == 0);
  run(10, 200);
}
extern "C" void hx_w_width0() { widths<0>(); }
extern "C" void hx_w_width1() { widths<1>(); }
extern "C" void hx_w_width2() { widths<2>(); }
extern "C" void hx_w_width3() { widths<3>(); }
// every kind of branch, outcome and prediction; an indirect jump guessed wrong or right
template <int F3, bool T, bool P> static void branches() {
  PROG({B(12, 2, 1, F3), P ? 3 : -1}, {ADDI(5, 5, 1), -1}, {ADDI(6, 5, 1), -1}, {R(0, 6, 5, 0, 7), -1}, {R(0, 7, 5, 0, 5), -1});
  uint32_t a = first.gpr[1], b = first.gpr[2];
  bool t = F3 & 4 ? (F3 & 2 ? a < b : (int32_t)a < (int32_t)b) : a == b;
  sx_assume((t != (F3 & 1)) == T);
  run(T ? 3 : 5, 100);
}
#define BR(f, n) \
  extern "C" void hx_w_##n##_nn() { branches<f, false, false>(); } \
  extern "C" void hx_w_##n##_nt() { branches<f, false, true>(); } \
  extern "C" void hx_w_##n##_tn() { branches<f, true, false>(); } \
  extern "C" void hx_w_##n##_tt() { branches<f, true, true>(); }
BR(0, beq) BR(1, bne) BR(4, blt) BR(5, bge) BR(6, bltu) BR(7, bgeu)
template <int P> static void indirect() {
  PROG({I(8, 1, 0, 1, 0x67), P}, {ADDI(5, 5, 1), -1}, {ADDI(6, 5, 1), -1}, {R(0, 6, 5, 0, 7), -1}, {R(0, 7, 1, 0, 5), -1});
  sx_assume((first.gpr[1] & ~1u) == BASE + 4);
  run(3, 100);
}
extern "C" void hx_w_jalr_right() { indirect<3>(); }
extern "C" void hx_w_jalr_next() { indirect<-1>(); }
extern "C" void hx_w_jalr_wrong() { indirect<2>(); }
// three branches in a row, each guessed wrong
extern "C" void hx_w_wrong3() {
  PROG({B(8, 2, 1, 0), -1}, {ADDI(5, 5, 1), -1}, {B(8, 2, 1, 5), -1}, {ADDI(6, 6, 1), -1}, {B(8, 2, 1, 1), 6}, {ADDI(7, 7, 1), -1}, {R(0, 6, 5, 0, 8), -1});
  sx_assume(first.gpr[1] == first.gpr[2]);
  run(5, 120);
}
// every atomic operation
extern "C" void hx_w_atomics() {
  PROG({AMO(1, 2, 3, 5), -1}, {AMO(0, 4, 3, 6), -1}, {AMO(4, 2, 3, 7), -1}, {AMO(12, 4, 3, 8), -1}, {AMO(8, 2, 3, 9), -1}, {AMO(16, 4, 3, 10), -1}, {AMO(20, 2, 3, 11), -1}, {AMO(24, 4, 3, 12), -1}, {AMO(28, 2, 3, 13), -1});
  run(9, 400);
}
// a conditional store after the reservation was given up, and one elsewhere
extern "C" void hx_w_scfail() {
  PROG({AMO(3, 2, 3, 5), -1}, {AMO(2, 0, 3, 6), -1}, {AMO(3, 2, 4, 7), -1}, {AMO(3, 2, 3, 8), -1}, {LW(9, 0, 3), -1});
  first.rv = false;
  sx_assume(first.gpr[3] != first.gpr[4]);
  run(5, 260);
}
// every form of control register access
extern "C" void hx_w_csrs() {
  PROG({CSR(0x340, 1, 1, 5), -1}, {CSR(0x340, 2, 2, 6), -1}, {CSR(0x340, 3, 3, 7), -1}, {CSR(0x340, 21, 5, 8), -1}, {CSR(0x340, 10, 6, 9), -1}, {CSR(0x340, 3, 7, 10), -1}, {CSR(0x340, 0, 2, 11), -1});
  run(7, 260);
}
extern "C" void hx_w_csr_s() {
  PROG({CSR(0x140, 1, 1, 5), -1}, {CSR(0x143, 2, 1, 6), -1}, {CSR(0x142, 3, 1, 7), -1}, {CSR(0x343, 4, 1, 8), -1}, {CSR(0x140, 0, 2, 9), -1}, {CSR(0x343, 0, 2, 10), -1});
  run(6, 260);
}
// system calls from supervisor mode, taken in machine mode and by the supervisor
template <bool DELEG> static void scall() {
  static Ins p[40];
  for (Ins &i : p)
    i = {NOP, -1};
  p[0] = {ADDI(5, 1, 1), -1}, p[1] = {0x73, -1}, p[2] = {ADDI(6, 5, 1), -1};
  p[24] = {CSR(0x341, 8, 1, 0), -1}, p[25] = {0x30200073, -1};
  p[28] = {CSR(0x141, 8, 1, 0), -1}, p[29] = {0x10200073, -1};
  begin(p, 40);
  first.priv = 1;
  first.csr[csr_mstatus] = 0x2;
  first.csr[csr_medeleg] = DELEG ? 0x200 : 0;
  sx_assume(first.gpr[8] == BASE + 8);
  run(5, 200);
  sx_assert(traps == 1, "one trap");
}
extern "C" void hx_w_scall_m() { scall<false>(); }
extern "C" void hx_w_scall_s() { scall<true>(); }

// translated addresses: page A at 0x40000 is readable and writable, B at 0x40001
// is another name of a page chosen by the program, C at 0x40002 is not mapped
static const uint32_t TBL = 0x80400000u | 0x80001u;
static const uint32_t VA = 0x40000000u, VB = 0x40001000u, VC = 0x40002000u;
static void map(uint32_t va, uint32_t flags, int k, uint32_t satp = TBL, bool super = false) {
  uint32_t ppn = super ? 0x80400 + ((uint32_t)sx_var("large", k, 5) << 10) : 0x80010 + (uint32_t)sx_var("ppn", k, 15);
  maps[nmaps++] = {satp, va >> 12, ppn << 10 | flags, super};
}
static uint32_t off(int k) { return (uint32_t)sx_var("off", k, 9) << 2; }
// handlers: note the cause and the address, skip the instruction
static void handlers(Ins *p, int n) {
  for (int i = 0; i < n; i++)
    p[i] = {NOP, -1};
  const uint32_t h[8] = {CSR(0x342, 0, 2, 20), CSR(0x343, 0, 2, 21), CSR(0x341, 0, 2, 22), ADDI(22, 22, 4), CSR(0x341, 22, 1, 0), 0x30200073, NOP, NOP};
  for (int i = 0; i < 6; i++) {
    p[24 + i] = {h[i], -1};
    p[32 + i] = {i == 5 ? 0x10200073 : i == 3 ? h[i] : h[i] - 0x20000000u, -1};
  }
}
enum { RW = 0xc7, RO = 0x43, NOA = 0x87, NOD = 0x47, XO = 0x49, UW = 0xd7 };
static void space(Ins *p, int n, int priv, bool deleg, uint32_t st = 0) {
  begin(p, n);
  first.priv = priv;
  first.csr[csr_mstatus] = st;
  first.csr[csr_stvec] = BASE + 4 * 32;
  first.csr[csr_medeleg] = deleg ? 0xb000 : 0;
  first.csr[csr_satp] = TBL;
  first.gpr[3] = VA + off(0);
  first.gpr[4] = VB + off(1);
  first.gpr[5] = VC + off(2);
}
// loads and stores in two pages, which may be one
template <bool SAME> static void pages() {
  static Ins p[48];
  handlers(p, 48);
  p[0] = {SW(1, 0, 3), -1}, p[1] = {LW(6, 0, 4), -1}, p[2] = {SW(6, 4, 4), -1}, p[3] = {LW(7, 4, 3), -1}, p[4] = {AMO(0, 7, 3, 8), -1}, p[5] = {LW(9, 0, 4), -1};
  space(p, 48, 1, false);
  map(VA, RW, 0);
  map(VB, RW, SAME ? 0 : 1);
  if (SAME)
    first.gpr[4] = first.gpr[3] - VA + VB;
  else
    sx_assume(maps[0].pte != maps[1].pte);
  run(6, 200);
}
extern "C" void hx_w_p_same() { pages<true>(); }
extern "C" void hx_w_p_two() { pages<false>(); }
// accesses that fault: W the instruction, FL the flags of page A
template <uint32_t W, uint32_t FL, int PRIV, bool DELEG> static void faults(uint32_t st = 0) {
  static Ins p[48];
  handlers(p, 48);
  p[0] = {SW(1, 8, 4), -1}, p[1] = {ADDI(6, 1, 1), -1}, p[2] = {W, -1}, p[3] = {ADDI(6, 6, 1), -1}, p[4] = {LW(7, 8, 4), -1};
  space(p, 48, PRIV, DELEG, st);
  map(VA, FL, 0);
  map(VB, PRIV ? RW : UW, 1);
  run(11, 240);
  sx_assert(traps == 1, "one trap");
}
extern "C" void hx_w_f_load() { faults<LW(8, 0, 5), RW, 1, false>(); }
extern "C" void hx_w_f_load_s() { faults<LW(8, 0, 5), RW, 1, true>(); }
extern "C" void hx_w_f_store() { faults<SW(1, 0, 5), RW, 1, false>(); }
extern "C" void hx_w_f_store_s() { faults<SW(1, 0, 5), RW, 1, true>(); }
extern "C" void hx_w_f_amo() { faults<AMO(0, 1, 5, 8), RW, 1, false>(); }
extern "C" void hx_w_f_ro() { faults<SW(1, 0, 3), RO, 1, true>(); }
extern "C" void hx_w_f_noa() { faults<LW(8, 0, 3), NOA, 1, true>(); }
extern "C" void hx_w_f_nod() { faults<SW(1, 0, 3), NOD, 1, true>(); }
extern "C" void hx_w_f_xo() { faults<LW(8, 0, 3), XO, 1, true>(); }
extern "C" void hx_w_f_user() { faults<LW(8, 0, 3), RW, 0, true>(); }
extern "C" void hx_w_f_user_m() { faults<SW(1, 0, 3), RW, 0, false>(); }
extern "C" void hx_w_f_super() { faults<LW(8, 0, 3), UW, 1, true>(); }
// fetch faults
extern "C" void hx_w_f_fetch() { env.badfetch = 2; faults<NOP, RW, 1, false>(); }
extern "C" void hx_w_f_fetch_s() { env.badfetch = 2; faults<SW(1, 0, 3), RW, 1, true>(); }
extern "C" void hx_w_f_fetch_u() { env.badfetch = 2; faults<LW(8, 0, 3), UW, 0, true>(); }
extern "C" void hx_w_f_lr() { faults<AMO(2, 0, 5, 8), RW, 1, true>(); }
extern "C" void hx_w_f_sc() { first.rv = false; faults<AMO(3, 1, 5, 8), RW, 1, true>(); }
// permissions that the status register changes
template <uint32_t W, uint32_t FL, int PRIV, uint32_t ST> static void allowed() {
  static Ins p[48];
  handlers(p, 48);
  p[0] = {SW(1, 8, 4), -1}, p[1] = {W, -1}, p[2] = {LW(7, 8, 4), -1}, p[3] = {R(0, 8, 7, 0, 9), -1};
  space(p, 48, PRIV, true, ST);
  map(VA, FL, 0);
  map(VB, PRIV == 0 || (PRIV == 3 && !(ST & 0x1800)) ? UW : RW, 1);
  sx_assume(maps[0].pte >> 10 != maps[1].pte >> 10);
  run(4, 200);
  sx_assert(traps == 0, "no trap");
}
extern "C" void hx_w_a_sum() { allowed<LW(8, 0, 3), UW, 1, 0x40000>(); }
extern "C" void hx_w_a_sums() { allowed<SW(1, 0, 3), UW, 1, 0x40000>(); }
extern "C" void hx_w_a_mxr() { allowed<LW(8, 0, 3), XO, 1, 0x80000>(); }
extern "C" void hx_w_a_mprv() { allowed<LW(8, 0, 3), RW, 3, 0x20800>(); }
extern "C" void hx_w_a_mprv_u() { allowed<SW(1, 0, 3), UW, 3, 0x20000>(); }
extern "C" void hx_w_a_user() { allowed<SW(1, 0, 3), UW, 0, 0>(); }
// the right to touch user pages given and taken back between two accesses
extern "C" void hx_w_a_toggle() {
  static Ins p[48];
  handlers(p, 48);
  p[0] = {LW(6, 0, 4), -1}, p[1] = {CSR(0x100, 2, 2, 0), -1}, p[2] = {LW(7, 0, 3), -1}, p[3] = {SW(7, 4, 3), -1}, p[4] = {CSR(0x100, 2, 3, 0), -1}, p[5] = {LW(8, 4, 3), -1}, p[6] = {LW(9, 0, 4), -1};
  space(p, 48, 1, true);
  first.gpr[2] = 0x40000;
  map(VA, UW, 0);
  map(VB, RW, 1);
  run(13, 300);
  sx_assert(traps == 1, "one trap");
}
// another address space, with and without a new identifier
template <uint32_t NEW> static void other() {
  static Ins p[48];
  handlers(p, 48);
  p[0] = {LW(6, 0, 3), -1}, p[1] = {SW(1, 4, 3), -1}, p[2] = {CSR(0x180, 2, 1, 7), -1}, p[3] = {0x12000073, -1}, p[4] = {LW(8, 4, 3), -1}, p[5] = {SW(8, 0, 3), -1}, p[6] = {CSR(0x180, 7, 1, 0), -1}, p[7] = {0x12000073, -1}, p[8] = {LW(9, 0, 3), -1};
  space(p, 48, 1, true);
  first.gpr[2] = NEW;
  map(VA, RW, 0);
  map(VA, RW, 1, NEW);
  run(9, 400);
  sx_assert(traps == 0, "no trap");
}
extern "C" void hx_w_a_space() { other<0x80400000u | 0x80002u>(); }
extern "C" void hx_w_a_asid() { other<0x80800000u | 0x80002u>(); }
// a large page
extern "C" void hx_w_a_large() {
  static Ins p[48];
  handlers(p, 48);
  p[0] = {SW(1, 0, 3), -1}, p[1] = {LW(6, 0, 4), -1}, p[2] = {SW(6, 4, 4), -1}, p[3] = {LW(7, 4, 3), -1};
  space(p, 48, 1, true);
  map(VA, RW, 0, TBL, true);
  run(4, 200);
}
// a device behind a page
extern "C" void hx_w_a_device() {
  static Ins p[48];
  handlers(p, 48);
  p[0] = {LW(6, 0, 3), -1}, p[1] = {SW(6, 4, 3), -1}, p[2] = {LW(7, 0, 4), -1}, p[3] = {LW(8, 0, 3), -1};
  space(p, 48, 1, true);
  env.dev = true;
  first.gpr[3] = VA + (sx_var("reg", 0, 1) << 2);
  maps[nmaps++] = {TBL, VA >> 12, DEV >> 12 << 10 | RW, false};
  map(VB, RW, 1);
  run(4, 200);
}
// faults on a path that is not taken, and an older fault behind a younger one
extern "C" void hx_w_a_wrong() {
  static Ins p[48];
  handlers(p, 48);
  p[0] = {R(1, 2, 1, 0, 8), -1}, p[1] = {B(16, 0, 8, 1), -1}, p[2] = {LW(6, 0, 5), -1}, p[3] = {SW(6, 0, 5), -1}, p[4] = {SW(1, 0, 3), -1}, p[5] = {LW(9, 0, 3), -1};
  space(p, 48, 1, true);
  sx_assume((first.gpr[1] & 1) && (first.gpr[2] & 1));
  map(VA, RW, 0);
  run(3, 200);
  sx_assert(traps == 0, "no trap");
}
extern "C" void hx_w_f_two() {
  static Ins p[48];
  handlers(p, 48);
  p[0] = {R(1, 2, 1, 5, 8), -1}, p[1] = {R(0, 8, 5, 0, 8), -1}, p[2] = {R(0x20, 8, 8, 0, 8), -1}, p[3] = {R(0, 8, 5, 0, 8), -1}, p[4] = {SW(1, 0, 8), -1}, p[5] = {LW(6, 4, 5), -1}, p[6] = {SW(1, 0, 3), -1}, p[7] = {LW(9, 0, 3), -1};
  space(p, 48, 1, true);
  sx_assume(first.gpr[2] == 3);
  map(VA, RW, 0);
  run(20, 300);
  sx_assert(traps == 2, "two traps");
}
// interrupts among translated accesses and faults, for each mode that takes them
enum { TIMER_M, OUTER_M, TIMER_S, OUTER_S };
template <int KIND, int AT> static void pirq() {
  static Ins p[48];
  handlers(p, 48);
  p[0] = {SW(1, 0, 3), -1}, p[1] = {LW(6, 0, 4), -1}, p[2] = {LW(7, 0, 5), -1}, p[3] = {SW(6, 4, 3), -1}, p[4] = {LW(9, 4, 3), -1}, p[5] = {SW(9, 4, 5), -1};
  space(p, 48, 1, true, 2);
  p[40] = {ADDI(10, 10, 1), -1}, p[41] = {CSR(KIND < TIMER_S ? 0x342 : 0x142, 0, 2, 11), -1}, p[42] = {KIND < TIMER_S ? 0x30200073u : 0x10200073u, -1};
  env.source = KIND & 1 ? 0x800 : 0x80;
  env.irq = AT;
  first.csr[csr_mie] = 0xaaa;
  first.csr[csr_mideleg] = KIND < TIMER_S ? 0 : env.source;
  if (KIND < TIMER_S) {
    first.csr[csr_mtvec] = BASE + 4 * 40;
  } else {
    // both kinds of trap arrive at one place: branch on the cause
    p[32] = {CSR(0x142, 0, 2, 20), -1}, p[33] = {B(4 * (40 - 33), 0, 20, 4), -1}, p[34] = {CSR(0x141, 0, 2, 22), -1}, p[35] = {ADDI(22, 22, 4), -1}, p[36] = {CSR(0x141, 22, 1, 0), -1}, p[37] = {0x10200073u, -1};
  }
  map(VA, RW, 0);
  map(VB, RW, 1);
  sx_assume(maps[0].pte >> 10 != maps[1].pte >> 10);
  run(21, 400);
  sx_assert(traps >= 2, "two faults");
}
#define PAT(n) \
  extern "C" void hx_w_i##n##_timer_m() { pirq<TIMER_M, n>(); } \
  extern "C" void hx_w_i##n##_outer_m() { pirq<OUTER_M, n>(); } \
  extern "C" void hx_w_i##n##_timer_s() { pirq<TIMER_S, n>(); } \
  extern "C" void hx_w_i##n##_outer_s() { pirq<OUTER_S, n>(); }
PAT(2) PAT(3) PAT(4) PAT(5) PAT(6) PAT(7) PAT(8) PAT(9) PAT(10) PAT(11) PAT(12) PAT(13) PAT(14) PAT(15) PAT(16) PAT(17) PAT(18) PAT(19) PAT(20) PAT(21) PAT(22)
#endif
