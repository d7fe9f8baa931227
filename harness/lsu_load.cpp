// L01: a load's value in the presence of older stores that have not reached
// the cache, and the way of a load from translation to its result.
#include "lsu_common.h"

// natural alignment
static uint32_t aligned(const char *n, int i, uint32_t f3) {
  uint32_t a = sx_var(n, i, 32);
  sx_assume((a & (width(f3) - 1)) == 0);
  return a;
}
// the store has decided whether it writes (only store-conditionals decide late)
static bool undecided(const StqEntry &e) { return e.is_lrsc && e.store_state < SS::WaitCommit; }
static bool writes(const StqEntry &e) { return !e.suppress_write; }

// an arbitrary store queue: HEAD is the oldest entry's place
static void stores(LsuState &s, int head) {
  s.stq_head = head;
  s.stq_head_flag = false;
  s.stq_count = sx_var("cnt", 0, STQ_IDX_WIDTH + 1);
  sx_assume(s.stq_count <= NT);
  for (int i = 0; i < NT; i++) {
    auto &e = s.stq[i];
    uint32_t st = sx_var("ss", i, 4);
    e.store_state = (SS)st;
    e.func3 = f3_of("sf3", i, true);
    e.paddr_valid = sx_var("spv", i, 1);
    e.paddr = aligned("spa", i, e.func3);
    sx_assume(e.paddr < 0xfffffff8u);
    e.data_valid = sx_var("sdv", i, 1);
    e.data = sx_var("sd", i, 32);
    e.is_lrsc = sx_var("slr", i, 1);
    e.suppress_write = sx_var("ssw", i, 1);
    e.sc_pass = e.is_lrsc && e.store_state >= SS::WaitCommit && !e.suppress_write;
    // a store waits for commit only with its address and data known, and
    // suppressing is decided when it is ready
    sx_assume(st < (int)SS::WaitCommit || st == (int)SS::PageFault || (e.paddr_valid && e.data_valid));
    sx_assume(!e.suppress_write || (e.is_lrsc && st >= (int)SS::WaitCommit));
  }
}

// HEAD: place of the oldest store; the queue of loads to check starts at Q
template <int HEAD, int Q, int POS, uint32_t OLDER> static void forward() {
  RealLsu &u = unit();
  LsuState &s = u.nxt;
  stores(s, HEAD);
  // loads 0..POS-1 are in front of the load that is followed
  constexpr int IDX[3] = {9, 2, 14};
  s.stlf_queue_head = Q;
  s.stlf_queue_count = POS + 1;
  s.wait_dcache_ldq_head = 13;
  s.wait_dcache_ldq_count = sx_var("wdc", 0, LDQ_IDX_WIDTH);
  s.finish_head = 12;
  s.finish_count = sx_var("fc", 0, LDQ_IDX_WIDTH);
  sx_assume(s.wait_dcache_ldq_count < NQ - 2 && s.finish_count < NQ - 2);
  s.uncached_unit.valid = sx_var("uv", 0, 1);
  per_resp.ready = sx_var("pr", 0, 1);
  rob_bcast.head_valid = sx_var("rh", 0, 1);
  rob_bcast.head_rob_idx = sx_var("rh", 1, ROB_IDX_WIDTH);
  rob_bcast.head_incomplete_valid = sx_var("rh", 2, 1);
  rob_bcast.head_incomplete_rob_idx = sx_var("rh", 3, ROB_IDX_WIDTH);
  for (int i = 0; i <= POS; i++) {
    auto &q = s.stlf_queue[(Q + i) % NQ];
    q.valid = i == POS ? true : (bool)sx_var("qv", i, 1);
    q.ldq_idx = IDX[i];
    auto &l = s.ldq[IDX[i]];
    l.load_state = q.valid ? LS::CheckStlf : LS::Empty;
    l.func3 = f3_of("lf3", i, false);
    l.p_addr_valid = true;
    l.p_addr = aligned("lpa", i, l.func3);
    sx_assume(l.p_addr < 0xfffffff8u); // memory ends before
    l.is_mmio = sx_var("lmm", i, 1);
    l.rob_idx = sx_var("lrob", i, ROB_IDX_WIDTH);
    // OLDER stores come before the load
    l.stq_snapshot.idx = (HEAD + OLDER) % NT;
    l.stq_snapshot.flag = (HEAD + OLDER) / NT;
    sx_assume(s.stq_count >= OLDER);
  }
  LsuState &o = u.cur; // before
  o = s;
  u.comb_stlf();

  auto &l = s.ldq[IDX[POS]], &l0 = o.ldq[IDX[POS]];
  constexpr uint32_t older = OLDER;
  // byte by byte, the youngest older store that writes it (an address or an
  // outcome not known yet counts as writing)
  uint32_t n = width(l0.func3);
  bool fwd = l.load_state == LS::ReadyToWb, dc = l.load_state == LS::ReadyToIssue, io = l.load_state == LS::WaitMmioResp, again = l.load_state == LS::CheckStlf;
  bool touched = false, by[4] = {};
  for (int j = NT - 1; j >= 0; j--) {
    auto &e = o.stq[(HEAD + j) % NT];
    bool in = (uint32_t)j < older, addr = e.paddr_valid && e.store_state != SS::Allocated;
    bool any = false;
    for (uint32_t b = 0; b < 4; b++) {
      uint32_t k = l0.p_addr + b - e.paddr;
      bool hit = in && b < n && (!addr || (k < width(e.func3) && (undecided(e) || writes(e))));
      any |= hit;
      bool mine = hit && !by[b];
      by[b] |= hit;
      uint32_t d = k == 0 ? e.data & 0xff : k == 1 ? e.data >> 8 & 0xff : k == 2 ? e.data >> 16 & 0xff : e.data >> 24;
      sx_assert(!(fwd && mine) || (addr && !undecided(e) && e.data_valid && (l.result >> 8 * b & 0xff) == d), "a load answered by stores gets what they write");
    }
    touched |= any;
    sx_assert(!(dc && any), "a load goes to the cache only past stores that leave its bytes alone");
  }
  uint32_t top = n == 1 ? (uint32_t)(int32_t)(int8_t)l.result : n == 2 ? (uint32_t)(int32_t)(int16_t)l.result : l.result;
  if (l0.func3 & 4)
    top = n == 1 ? l.result & 0xff : l.result & 0xffff;
  sx_assert(!fwd || l.result == top, "a load answered by stores is extended");
  for (uint32_t b = 0; b < 4; b++)
    sx_assert(!fwd || b >= n || by[b], "a load answered by stores has all its bytes from them");
  bool oldest = rob_bcast.head_incomplete_valid ? rob_bcast.head_incomplete_rob_idx == l0.rob_idx : rob_bcast.head_valid && rob_bcast.head_rob_idx == l0.rob_idx;
  sx_assert(fwd || dc || io || again, "a load is answered by a store, sent on, or kept");
  sx_assert(!(fwd || dc) || !l0.is_mmio, "a device is not asked for through the cache");
  sx_assert(!io || (l0.is_mmio && older == 0 && oldest && !o.uncached_unit.valid), "a device is read only by the oldest instruction");
  sx_assert(!io || per_resp.ready, "a device access starts only when the one before has ended");
  sx_assert(!io || (s.uncached_unit.valid && s.uncached_unit.is_load && s.uncached_unit.addr == l0.p_addr && s.uncached_unit.func3 == l0.func3 && s.uncached_unit.idx == IDX[POS]), "the device access is the load's");
  // the load is in exactly one queue
  auto in = [&](auto *q, uint32_t head, uint32_t count) {
    uint32_t k = 0;
    for (uint32_t i = 0; i < (uint32_t)NQ; i++)
      k += ((i - head) & (NQ - 1)) < count && q[i].valid && q[i].ldq_idx == IDX[POS];
    return k;
  };
  sx_assert(in(s.stlf_queue, s.stlf_queue_head, s.stlf_queue_count) == again, "a kept load stays in line");
  sx_assert(in(s.wait_dcache_ldq, s.wait_dcache_ldq_head, s.wait_dcache_ldq_count) == dc, "a load sent on is in line for the cache");
  sx_assert(in(s.finish, s.finish_head, s.finish_count) == fwd, "an answered load is in line for its result");
  sx_assert(l.p_addr == l0.p_addr && l.func3 == l0.func3 && l.rob_idx == l0.rob_idx, "the load is the same");
  sx_cover(fwd || !older, "answered by a store");
  sx_cover(dc, "passes the stores");
  sx_cover(io || older, "device");
  sx_cover(again && (older || l0.is_mmio), "kept");
}
#define F(n)                                                                   \
  extern "C" void hx_forward##n() { forward<11, 15, 0, n>(); }
F(0) F(1) F(2) F(3) F(4) F(5) F(6) F(7) F(8) F(9) F(10) F(11) F(12) F(13) F(14) F(15) F(16)
extern "C" void hx_second2() { forward<5, 3, 1, 2>(); }
extern "C" void hx_second4() { forward<14, 3, 1, 4>(); }

// ---- the way of one load ----------------------------------------------------
// One whole cycle of the unit.  Load X sits in one of the queues, other loads
// around it; the other queues hold other loads.
constexpr int X = 9;
enum Place { ALLOC, TLB, STLF, DC, FIN, IO };
static uint32_t take(uint32_t word, uint32_t addr, uint32_t f3) {
  uint32_t v = word >> 8 * (addr & 3);
  switch (f3) {
  case 0: return (uint32_t)(int32_t)(int8_t)v;
  case 1: return (uint32_t)(int32_t)(int16_t)v;
  case 4: return v & 0xff;
  case 5: return v & 0xffff;
  default: return v;
  }
}
template <class Q> static uint32_t held(const Q *q) {
  uint32_t k = 0;
  for (int i = 0; i < NQ; i++)
    k += q[i].valid && q[i].ldq_idx == X;
  return k;
}
template <class Q> static uint32_t held(const Q *q, uint32_t head, uint32_t count) {
  uint32_t k = 0;
  for (int i = 0; i < NQ; i++)
    k += ((i - head) & (NQ - 1)) < count && q[i].valid && q[i].ldq_idx == X;
  return k;
}
struct Ghost {
  uint32_t vaddr, paddr, data, gen;
};
// the loads other than X of queue number Q
constexpr int OTHER[5][2] = {{2, 14}, {5, 0}, {11, 7}, {3, 12}, {8, 15}};
template <class T> static void fill(T *q, int id, int head, bool mine) {
  for (int k = 0; k < 3; k++) {
    auto &e = q[(head + k) % NQ];
    bool x = mine && k == 1;
    e.valid = x ? true : (bool)sx_var("qv", id * 4 + k, 1);
    e.ldq_idx = x ? X : OTHER[id][k ? 1 : 0];
    sx_assume(mine || k < 2 || !e.valid);
  }
}
static bool translated(LS s) { return s == LS::WaitSTLF || s == LS::CheckStlf || s == LS::ReadyToIssue || s == LS::WaitDcacheResp || s == LS::WaitMmioResp || s == LS::ReadyToWb; }

template <int P> static void walk() {
  RealLsu &u = unit();
  LsuState &s = u.cur;
  Ghost g = {sx_var("va", 0, 32), sx_var("pa", 0, 32), sx_var("md", 0, 32), sx_var("gen", 0, 31 - LDQ_IDX_WIDTH)};
  s.wait_mmu_ldq_head = 15, s.stlf_queue_head = 6, s.wait_dcache_ldq_head = 14, s.finish_head = 3;
  fill(s.wait_mmu_ldq, 0, 15, P == TLB);
  fill(s.stlf_queue, 1, 6, P == STLF);
  fill(s.wait_dcache_ldq, 2, 14, P == DC);
  fill(s.finish, 3, 3, P == FIN);
  s.wait_mmu_ldq_count = (P == TLB ? 2 : 1) + sx_var("qc", 0, 1);
  s.stlf_queue_count = (P == STLF ? 2 : 1) + sx_var("qc", 1, 1);
  s.wait_dcache_ldq_count = (P == DC ? 2 : 1) + sx_var("qc", 2, 1);
  s.finish_count = (P == FIN ? 2 : 1) + sx_var("qc", 3, 1);
  for (int k = 0; k < NQ; k++)
    s.wait_dcache_ldq[k].req_gen = sx_var("wg", k, 31 - LDQ_IDX_WIDTH), s.wait_dcache_ldq[k].replay_wait_cycles = sx_var("wr", k, LSU_REPLAY_WAIT_CYCLES_WIDTH);
  uint32_t xrob = sx_var("xrob", 0, ROB_IDX_WIDTH);
  for (int k = 0; k < NQ; k++) {
    auto &l = s.ldq[k];
    uint32_t st = sx_var("ls", k, 5);
    sx_assume(st <= (uint32_t)LS::Done);
    l.load_state = (LS)st;
    l.v_addr = k == X ? g.vaddr : sx_var("lva", k, 32);
    l.func3 = f3_of("lf3", k, false);
    l.p_addr = k == X ? g.paddr : sx_var("lpa", k, 32);
    l.is_mmio = k == X ? is_io(g.paddr) : (bool)sx_var("lmm", k, 1);
    l.rob_idx = k == X ? xrob : sx_var("lrob", k, ROB_IDX_WIDTH);
    l.rob_flag = sx_var("lrf", k, 1);
    l.dest_preg = sx_var("lpr", k, PRF_IDX_WIDTH);
    l.br_mask = sx_var("lbm", k, BR_MASK_WIDTH);
    l.result = sx_var("lres", k, 32);
    l.page_fault = false;
    l.is_lrsc = sx_var("llr", k, 1);
    l.replay_type = (ReplayType)sx_var("lrt", k, 2);
    sx_assume(k == X || l.rob_idx != xrob);
    // no older stores: what stores do to a load is the other half
    l.stq_snapshot.idx = P == ALLOC ? 0 : 5;
    l.stq_snapshot.flag = P != ALLOC;
  }
  s.stq_head = 5;
  s.stq_head_flag = true;
  for (int k : OTHER[1])
    sx_assume(s.ldq[k].load_state == LS::CheckStlf || !(s.stlf_queue[6].valid && s.stlf_queue[6].ldq_idx == k) && !(s.stlf_queue[7].valid && s.stlf_queue[7].ldq_idx == k) && !(s.stlf_queue[8].valid && s.stlf_queue[8].ldq_idx == k));
  auto &x = s.ldq[X];
  LS st = x.load_state;
  x.page_fault = st == LS::PageFault || st == LS::WaitFinish;
  x.diag_val = g.vaddr;
  sx_assume(!x.page_fault || x.result == g.vaddr);
  sx_assume(P == ALLOC ? st == LS::Allocated : P == TLB ? st == LS::WaitTlb || st == LS::WaitSTLF || st == LS::WaitFinish : P == STLF ? st == LS::CheckStlf : P == DC ? st == LS::ReadyToIssue || st == LS::WaitDcacheResp : P == FIN ? st == LS::ReadyToWb || st == LS::PageFault : st == LS::WaitMmioResp);
  sx_assume(P != DC || !x.is_mmio);
  sx_assume(P != IO || x.is_mmio);
  s.req_gen = g.gen;
  // at most one device access
  s.uncached_unit.valid = P == IO ? true : (bool)sx_var("uv", 0, 1);
  s.uncached_unit.is_load = P == IO;
  s.uncached_unit.idx = P == IO ? X : 4;
  s.uncached_unit.addr = x.p_addr;
  s.uncached_unit.func3 = x.func3;
  // one store-conditional waiting to write its result
  s.stq[4].store_state = (SS)sx_var("ss", 4, 4);
  s.stq[4].is_lrsc = sx_var("slr", 4, 1);
  s.stq[4].rob_idx = sx_var("srob", 4, ROB_IDX_WIDTH);
  sx_assume(s.stq[4].rob_idx != xrob);
  s.mmu_done_stq_head = 2;
  s.mmu_done_stq_count = sx_var("mdc", 0, 1);
  s.mmu_done_stq[2].valid = true;
  s.mmu_done_stq[2].stq_idx = 4;

  // the outside
  per_resp.ready = sx_var("pr", 0, 1);
  per_resp.is_mmio = sx_var("pr", 1, 1);
  per_resp.mmio_rdata = sx_var("prd", 0, 32);
  rob_bcast.head_valid = sx_var("rh", 0, 1);
  rob_bcast.head_rob_idx = sx_var("rh", 1, ROB_IDX_WIDTH);
  rob_bcast.head_incomplete_valid = sx_var("rh", 2, 1);
  rob_bcast.head_incomplete_rob_idx = sx_var("rh", 3, ROB_IDX_WIDTH);
  rob_bcast.flush = sx_var("fl", 0, 1);
  dec_bcast.mispred = sx_var("mp", 0, 1);
  dec_bcast.br_mask = sx_var("mpm", 0, BR_MASK_WIDTH);
  dec_bcast.clear_mask = sx_var("mpc", 0, BR_MASK_WIDTH);
  // the cache answers a request once; an answer to an earlier request of the
  // place carries another number
  for (int i = 0; i < LSU_LDU_COUNT; i++) {
    auto &r = dcache2lsu.resp_ports.load_resps[i];
    r.valid = sx_var("dv", i, 1);
    r.req_id = sx_var("did", i, 31);
    r.data = sx_var("dd", i, 32);
    r.replay = (ReplayType)sx_var("dr", i, 2);
  }
  auto &r0 = dcache2lsu.resp_ports.load_resps[0], &r1 = dcache2lsu.resp_ports.load_resps[1];
  sx_assume(!r0.valid || !r1.valid || r0.req_id != r1.req_id);
  dcache2lsu.mshr_fill = sx_var("mf", 0, 1);
  dcache2lsu.mshr_fill_addr = sx_var("mfa", 0, 32);
  // the address of X or of another load
  for (int i = 0; i < 2; i++) {
    auto &a = exe2lsu.agu_req[i];
    a.valid = sx_var("av", i, 1);
    a.uop.op = UOP_LOAD;
    a.uop.ldq_idx = i ? X : 6;
    a.uop.rob_idx = s.ldq[a.uop.ldq_idx].rob_idx;
    a.uop.rob_flag = s.ldq[a.uop.ldq_idx].rob_flag;
    a.uop.result = i ? g.vaddr : sx_var("ava", i, 32);
    a.uop.func3 = s.ldq[a.uop.ldq_idx].func3;
    a.uop.stq_idx = 5;
    a.uop.stq_flag = true;
    a.uop.dest_preg = s.ldq[a.uop.ldq_idx].dest_preg;
    a.uop.is_atomic = s.ldq[a.uop.ldq_idx].is_lrsc;
    a.uop.func7 = a.uop.is_atomic ? AmoOp::LR << 2 : 0;
    sx_assume(!a.valid || s.ldq[a.uop.ldq_idx].load_state == LS::Allocated);
  }
  const LdqEntry x0 = x;
  const uint32_t w0 = 15; // X's place in line for the cache
  uint32_t id0 = make_lsu_load_req_id(w0, s.wait_dcache_ldq[w0].req_gen);

  u.nxt = u.cur;
  u.comb_cal();
  u.comb_lsu2dis();
  u.comb_lsu2rob();
  u.comb_stq_commit();
  u.comb_mmio_in();
  u.comb_dcache2lsu_ldq();
  u.comb_dcache2lsu_stq();
  u.comb_lsu2exe();
  u.comb_exe2lsu();
  u.comb_tlb_out();
  bool asked = false, fault = false;
  for (int i = 0; i < LSU_LDU_COUNT; i++) {
    auto &q = lsu2mmu.ldq_req[i];
    auto &r = mmu2lsu.ldq_resp[i];
    r.valid = q.valid && sx_var("tv", i, 1);
    r.result = (MMUResultType)sx_var("tr", i, 2);
    sx_assume((uint32_t)r.result < 3);
    r.entry_idx = q.entry_idx;
    r.wait_idx = q.wait_idx;
    bool me = q.valid && q.entry_idx == X;
    sx_assert(!me || q.vaddr == g.vaddr, "the load's own address is translated");
    r.paddr = me ? g.paddr : (uint32_t)sx_var("tp", i, 32);
    sx_assert(!me || !asked, "the load is translated once at a time");
    asked |= me;
    fault |= me && r.valid && r.result == MMUResultType::PAGE_FAULT;
  }
  u.comb_tlb_in_ldq();
  u.comb_tlb_in_stq();
  u.comb_stlf();
  u.comb_dis2lsu();
  u.comb_flush();
  u.comb_lsu2dcache_ldq();
  u.comb_lsu2dcache_stq();
  u.comb_mmio_out();
  u.comb_check();

  LsuState &n = u.nxt;
  auto &y = n.ldq[X];
  LS t = y.load_state;
  bool killed = rob_bcast.flush || (dec_bcast.mispred && (x0.br_mask & dec_bcast.br_mask));
  // answers that X is waiting for
  bool hit = false, replayed = false, dev = P == IO && per_resp.is_mmio;
  uint32_t word = 0;
  for (auto &r : dcache2lsu.resp_ports.load_resps)
    if (P == DC && st == LS::WaitDcacheResp && r.valid && r.req_id == id0) {
      hit |= r.replay == ReplayType::HIT;
      replayed |= r.replay != ReplayType::HIT;
      word = r.data;
    }
  bool pf = x0.page_fault;
  uint32_t res = pf ? g.vaddr : hit ? take(word, g.paddr, x0.func3) : dev ? per_resp.mmio_rdata : x0.result;
  // results written
  uint32_t wb = 0;
  for (int i = 0; i < LSU_LDU_COUNT; i++) {
    auto &r = lsu2exe.wb_req[i];
    bool me = r.valid && r.uop.rob_idx == xrob;
    sx_assert(!me || wb == 0, "a load has one result");
    wb += me;
    sx_assert(!me || ((hit || dev || P == FIN) && r.uop.result == res && r.uop.dest_en && r.uop.dest_preg == x0.dest_preg && r.uop.br_mask == x0.br_mask && (bool)r.uop.page_fault_load == pf && !r.uop.page_fault_store && (!pf || r.uop.diag_val == g.vaddr)), "the result is the load's");
  }
  sx_assert(!wb || t == LS::Empty, "a load with a result is over");
  // requests to the cache
  uint32_t rq = 0;
  for (int i = 0; i < LSU_LDU_COUNT; i++) {
    auto &r = lsu2dcache.req_ports.load_ports[i];
    uint32_t w = lsu_req_id_wait_idx(r.req_id);
    bool me = r.valid && n.wait_dcache_ldq[w].valid && n.wait_dcache_ldq[w].ldq_idx == X;
    sx_assert(!me || rq == 0, "a load asks the cache once");
    rq += me;
    sx_assert(!me || (t == LS::WaitDcacheResp && (r.addr & ~3u) == (g.paddr & ~3u) && n.wait_dcache_ldq[w].req_gen == lsu_req_id_gen(r.req_id) && !is_io(g.paddr)), "the cache is asked for the load's word under the load's number");
  }
  sx_assert(t != LS::WaitDcacheResp || rq || (P == DC && st == LS::WaitDcacheResp && !hit && !replayed), "a load waiting for the cache has asked");
  sx_assert(!(rq && lsu_req_id_gen(lsu2dcache.req_ports.load_ports[0].req_id) == lsu_req_id_gen(lsu2dcache.req_ports.load_ports[1].req_id)) || !lsu2dcache.req_ports.load_ports[0].valid || !lsu2dcache.req_ports.load_ports[1].valid, "requests are numbered apart");
  // device
  sx_assert(t != LS::WaitMmioResp || (n.uncached_unit.valid && n.uncached_unit.is_load && n.uncached_unit.idx == X && n.uncached_unit.addr == g.paddr && n.uncached_unit.func3 == x0.func3 && is_io(g.paddr)), "the device access is the load's");
  bool started = P != IO && t == LS::WaitMmioResp;
  sx_assert(!started || (per_req.is_mmio && !per_req.wen && per_req.mmio_addr == g.paddr && per_req.mmio_fun3 == x0.func3), "a device is read at the load's address");
  sx_assert(!dev || !n.uncached_unit.valid || n.uncached_unit.idx != X || !n.uncached_unit.is_load, "an answered device access is not repeated");

  // where X is now
  uint32_t a = held(n.wait_mmu_ldq, n.wait_mmu_ldq_head, n.wait_mmu_ldq_count), b = held(n.stlf_queue, n.stlf_queue_head, n.stlf_queue_count), c = held(n.wait_dcache_ldq, n.wait_dcache_ldq_head, n.wait_dcache_ldq_count), d = held(n.finish, n.finish_head, n.finish_count);
  sx_assert(held(n.wait_mmu_ldq) == a && held(n.stlf_queue) == b && held(n.wait_dcache_ldq) == c && held(n.finish) == d, "nothing outside a queue's range is marked used");
  bool io = n.uncached_unit.valid && n.uncached_unit.is_load && n.uncached_unit.idx == X;
  sx_assert(!killed || (t == LS::Empty && a + b + c + d == 0 && !io), "a squashed load is gone");
  sx_assert(killed || wb || t != LS::Empty, "a load is not lost");
  bool q1 = t == LS::WaitTlb || t == LS::WaitTlbRetry || t == LS::WaitSTLF || t == LS::WaitFinish, q3 = t == LS::ReadyToIssue || t == LS::WaitDcacheResp || (t == LS::ReadyToWb && c), q4 = (t == LS::ReadyToWb && !c) || t == LS::PageFault;
  sx_assert(a == q1 && b == (t == LS::CheckStlf) && c == q3 && d == q4 && io == (t == LS::WaitMmioResp), "a load waits in the one queue of its stage");
  sx_assert(t == LS::Empty || (t == LS::Allocated) == (P == ALLOC && !exe2lsu.agu_req[1].valid), "a load starts with its address");
  bool live = t != LS::Empty;
  sx_assert(!live || (y.rob_idx == xrob && y.rob_flag == x0.rob_flag && y.br_mask == (mask_t)(x0.br_mask & ~dec_bcast.clear_mask)), "a load keeps its place in the program");
  sx_assert(!live || t == LS::Allocated || (y.v_addr == g.vaddr && y.func3 == x0.func3 && y.dest_preg == x0.dest_preg && y.is_lrsc == x0.is_lrsc && y.stq_snapshot.idx == 5 && y.stq_snapshot.flag), "a load keeps its address, kind and older stores");
  sx_assert(!translated(t) || (y.p_addr == g.paddr && (bool)y.is_mmio == is_io(g.paddr)), "a load keeps its translation");
  sx_assert(t != LS::ReadyToWb || y.result == res, "a load keeps its value");
  sx_assert(t != LS::ReadyToWb || hit || dev || (P == FIN && !pf), "a value comes from memory");
  bool pf1 = t == LS::WaitFinish || t == LS::PageFault;
  sx_assert(!pf1 || ((pf || fault) && y.page_fault && y.diag_val == g.vaddr), "a fault is the load's");
  sx_assert(!live || t == LS::Allocated || pf1 || !y.page_fault, "no fault without one");
  sx_assert(!fault || killed || pf1, "a fault is kept");
  sx_assert(t != LS::ReadyToIssue || !hit, "an answer is taken");
  // progress
  auto both = [](auto *p) { return p[0].valid && p[1].valid; };
  sx_assert(P != FIN || wb || both(lsu2exe.wb_req), "a finished load writes its result");
  sx_assert(killed || P != DC || st != LS::ReadyToIssue || s.wait_dcache_ldq[w0].replay_wait_cycles > 1 || rq || both(lsu2dcache.req_ports.load_ports), "a load asks the cache");
  sx_assert(killed || P != STLF || is_io(g.paddr) || t != LS::CheckStlf, "a load with no older stores goes on");
  bool oldest = rob_bcast.head_incomplete_valid ? rob_bcast.head_incomplete_rob_idx == xrob : rob_bcast.head_valid && rob_bcast.head_rob_idx == xrob;
  sx_assert(killed || P != STLF || !is_io(g.paddr) || !oldest || !per_resp.ready || s.uncached_unit.valid || started || n.uncached_unit.valid, "the oldest load reads its device");
  sx_assert(killed || P != TLB || st == LS::WaitTlb || (t != LS::WaitSTLF && t != LS::WaitFinish), "a translated load goes on");
  sx_cover(wb || P == ALLOC || P == TLB || P == STLF, "result");
  sx_cover(killed, "squashed");
  sx_cover(!live || t != st, "moves");
}
extern "C" void hx_alloc() { walk<ALLOC>(); }
extern "C" void hx_tlb() { walk<TLB>(); }
extern "C" void hx_stlf() { walk<STLF>(); }
extern "C" void hx_cache() { walk<DC>(); }
extern "C" void hx_finish() { walk<FIN>(); }
extern "C" void hx_device() { walk<IO>(); }

// ---- room -------------------------------------------------------------------
// What the unit offers to dispatch is free, and taking it overfills no queue.
extern "C" void hx_room() {
  RealLsu &u = unit();
  LsuState &s = u.cur;
  uint32_t alloc = 0, salloc = 0;
  for (int k = 0; k < NQ; k++) {
    uint32_t st = sx_var("ls", k, 5);
    sx_assume(st <= (uint32_t)LS::Done);
    s.ldq[k].load_state = (LS)st;
    alloc += s.ldq[k].load_state == LS::Allocated;
  }
  s.stq_head = sx_var("sh", 0, STQ_IDX_WIDTH);
  s.stq_head_flag = sx_var("sh", 1, 1);
  s.stq_count = sx_var("sc", 0, STQ_IDX_WIDTH + 1);
  s.wait_mmu_ldq_count = sx_var("wl", 0, LDQ_IDX_WIDTH + 1);
  s.wait_mmu_stq_count = sx_var("ws", 0, STQ_IDX_WIDTH + 1);
  s.mmu_done_stq_count = sx_var("ms", 0, STQ_IDX_WIDTH + 1);
  for (int k = 0; k < NT; k++) {
    uint32_t st = sx_var("ss", k, 4);
    s.stq[k].store_state = (SS)st;
    salloc += st == (uint32_t)SS::Allocated && ((k - s.stq_head) & (NT - 1)) < s.stq_count;
  }
  sx_assume(s.stq_count <= NT);
  sx_assume(alloc + s.wait_mmu_ldq_count <= NQ && salloc + s.wait_mmu_stq_count <= NT && salloc + s.mmu_done_stq_count <= NT);
  u.nxt = u.cur;
  u.comb_cal();
  u.comb_lsu2dis();
  u.comb_lsu2rob();
  uint32_t offered = 0;
  for (int i = 0; i < MAX_LDQ_DISPATCH_WIDTH; i++) {
    uint32_t k = lsu2dis.ldq_alloc_idx[i];
    offered += lsu2dis.ldq_alloc_valid[i];
    for (int j = 0; j < NQ; j++)
      sx_assert(!lsu2dis.ldq_alloc_valid[i] || k != (uint32_t)j || s.ldq[j].load_state == LS::Empty, "a load is given a free place");
    for (int j = 0; j < i; j++)
      sx_assert(!lsu2dis.ldq_alloc_valid[i] || !lsu2dis.ldq_alloc_valid[j] || lsu2dis.ldq_alloc_idx[j] != k, "two loads are given two places");
  }
  uint32_t lf = lsu2dis.ldq_free, sf = lsu2dis.stq_free;
  sx_assert(lf <= NQ && alloc + lf + s.wait_mmu_ldq_count <= NQ, "the loads let in fit the translation queue");
  sx_assert(sf <= NT && sf + s.stq_count <= NT && salloc + sf + s.wait_mmu_stq_count <= NT, "the stores let in fit the queues");
  sx_assert(lsu2dis.stq_tail == ((s.stq_head + s.stq_count) & (NT - 1)), "a store is given the next place");
  sx_assert((bool)lsu2dis.stq_tail_flag == (s.stq_head_flag ^ (s.stq_head + s.stq_count >= NT)), "a store is given the next lap");
  sx_cover(lf > 1 && sf > 1, "room");
  sx_cover(offered == 2, "offered");
}
