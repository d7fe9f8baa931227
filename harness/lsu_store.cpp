// L02: a store from dispatch to memory.  L03: load-reserved/store-conditional.
#include "lsu_common.h"

// ---- the way of one store --------------------------------------------------
// Oldest store at HEAD, the store that is followed is number POS from it.
constexpr int HEAD = 13;
enum Place { ALLOC, TLB, DATA, DONE, COMMIT, SENDING, SENT, DEV, OVER };
struct Ghost {
  uint32_t vaddr, paddr, data;
};
static bool fine(SS s) { return s == SS::WaitCommit || s == SS::Committed || s == SS::WaitDcacheResp || s == SS::WaitMmioResp || s == SS::Done; }
template <class Q> static uint32_t held(const Q *q, int x) {
  uint32_t k = 0;
  for (int i = 0; i < NT; i++)
    k += q[i].valid && q[i].stq_idx == x;
  return k;
}
template <class Q> static uint32_t held(const Q *q, int x, uint32_t head, uint32_t count) {
  uint32_t k = 0;
  for (int i = 0; i < NT; i++)
    k += ((i - head) & (NT - 1)) < count && q[i].valid && q[i].stq_idx == x;
  return k;
}
static uint8_t bytes_of(uint32_t addr, uint32_t f3) { return ((1u << width(f3)) - 1) << (addr & 3); }

// POS stores are older, one or two younger
template <int P, int POS> static void walk() {
  RealLsu &u = unit();
  LsuState &s = u.cur;
  constexpr int X = (HEAD + POS) % NT;
  Ghost g = {sx_var("va", 0, 32), sx_var("pa", 0, 32), sx_var("sdx", 0, 32)};
  s.stq_head = HEAD;
  s.stq_head_flag = false;
  s.stq_count = POS + 1 + sx_var("cnt", 0, 1);
  s.stq_commit_count = sx_var("cc", 0, STQ_IDX_WIDTH);
  s.stq_commit = (HEAD + s.stq_commit_count) % NT;
  constexpr bool committed = P >= SENDING;
  sx_assume(s.stq_commit_count <= s.stq_count && committed == (s.stq_commit_count > POS));
  uint32_t xrob = sx_var("xrob", 0, ROB_IDX_WIDTH);
  for (int k = 0; k <= POS + 1; k++) {
    int i = (HEAD + k) % NT;
    auto &e = s.stq[i];
    uint32_t st = sx_var("ss", i, 4);
    e.store_state = (SS)st;
    e.func3 = f3_of("sf3", i, true);
    e.vaddr = k == POS ? g.vaddr : (uint32_t)sx_var("sva", i, 32);
    e.paddr = k == POS ? g.paddr : (uint32_t)sx_var("spa", i, 32);
    sx_assume((e.paddr & (width(e.func3) - 1)) == 0);
    e.paddr_valid = sx_var("spv", i, 1);
    e.page_fault = sx_var("spf", i, 1);
    e.data = sx_var("sd", i, 32);
    e.data_valid = sx_var("sdv", i, 1);
    e.is_lrsc = sx_var("slr", i, 1);
    e.sc_pass = sx_var("scp", i, 1);
    e.suppress_write = sx_var("ssw", i, 1);
    e.is_mmio = k == POS ? is_io(g.paddr) : (bool)sx_var("smm", i, 1);
    e.br_mask = sx_var("sbm", i, BR_MASK_WIDTH);
    e.rob_idx = k == POS ? xrob : (uint32_t)sx_var("srob", i, ROB_IDX_WIDTH);
    e.rob_flag = sx_var("srf", i, 1);
    e.dest_preg = sx_var("spr", i, PRF_IDX_WIDTH);
    e.replay_wait_cycles = sx_var("srw", i, 2);
    e.replay_type = (ReplayType)sx_var("srt", i, 2);
    sx_assume(k == POS || e.rob_idx != xrob);
    // committed stores are no longer speculative
    sx_assume(k >= s.stq_commit_count || (!e.br_mask && st >= (int)SS::Committed && st <= (int)SS::WaitMmioResp) || (!e.br_mask && st == (int)SS::Done));
    sx_assume(k < s.stq_commit_count || st < (int)SS::Committed || st == (int)SS::PageFault);
    // a squashed store squashes the younger
    sx_assume(k == 0 || (s.stq[(HEAD + k - 1) % NT].br_mask & ~e.br_mask) == 0);
    sx_assume(k == POS || k >= s.stq_commit_count || !e.is_mmio || k == 0 || st != (int)SS::WaitMmioResp);
  }
  auto &x = s.stq[X];
  SS st = x.store_state;
  sx_assume(P == ALLOC ? st == SS::Allocated : P == TLB ? st == SS::WaitTlb : P == DATA ? st == SS::WaitData : P == DONE ? st == SS::Ready || st == SS::PageFault : P == COMMIT ? st == SS::WaitCommit : P == SENDING ? st == SS::Committed : P == SENT ? st == SS::WaitDcacheResp : P == DEV ? st == SS::WaitMmioResp : st == SS::Done);
  if (P == ALLOC || P == TLB)
    x.paddr_valid = false, x.page_fault = false;
  else {
    x.page_fault = P == DONE ? st == SS::PageFault : P == COMMIT ? (bool)sx_var("xpf", 0, 1) : false;
    x.paddr_valid = !x.page_fault;
  }
  if (P == ALLOC)
    x.is_lrsc = false;
  if (P == DATA)
    x.data_valid = false;
  if (P >= DONE && !x.page_fault)
    x.data_valid = true;
  if (P < COMMIT)
    x.sc_pass = false, x.suppress_write = false;
  else if (P == COMMIT) {
    sx_assume(!x.page_fault || !x.sc_pass);
    x.suppress_write = x.is_lrsc && !x.page_fault && !x.sc_pass;
  } else if (P != OVER) {
    x.suppress_write = false;
    x.sc_pass = x.is_lrsc;
  }
  sx_assume(!x.data_valid || x.data == g.data);
  sx_assume(P != SENT || !x.is_mmio);
  sx_assume(P != DEV || (x.is_mmio && POS == 0));
  // queues: an older one, the store, the younger
  s.wait_mmu_stq_head = 14;
  s.mmu_done_stq_head = 15;
  auto fill = [&](auto *q, int id, int head, bool mine) {
    for (int k = 0; k < 3; k++) {
      auto &e = q[(head + k) % NT];
      e.valid = mine && k == 1 ? true : (bool)sx_var("qv", id * 4 + k, 1);
      e.stq_idx = mine && k == 1 ? X : k == 0 && POS > 0 ? HEAD : (X + 1) % NT;
      sx_assume(!e.valid || k != 0 || POS > 0);
      sx_assume(mine || k != 1 || !e.valid);
      uint32_t es = (uint32_t)s.stq[e.stq_idx].store_state;
      sx_assume(!e.valid || (id ? es == (uint32_t)SS::Ready || es == (uint32_t)SS::PageFault : es == (uint32_t)SS::WaitTlb || es == (uint32_t)SS::WaitDone));
    }
    return 2 + sx_var("qc", id, 1);
  };
  s.wait_mmu_stq_count = fill(s.wait_mmu_stq, 0, 14, P == TLB);
  s.mmu_done_stq_count = fill(s.mmu_done_stq, 1, 15, P == DONE);
  s.uncached_unit.valid = P == DEV || sx_var("uv", 0, 1);
  s.uncached_unit.is_load = P == DEV ? false : (bool)sx_var("ul", 0, 1);
  s.uncached_unit.idx = P == DEV ? X : s.uncached_unit.is_load ? 5 : HEAD;
  s.uncached_unit.addr = g.paddr, s.uncached_unit.wdata = g.data, s.uncached_unit.func3 = x.func3;
  sx_assume(P == DEV || !s.uncached_unit.valid || s.uncached_unit.is_load || (POS > 0 && s.stq[HEAD].store_state == SS::WaitMmioResp));
  sx_assume(POS == 0 || s.stq[HEAD].store_state != SS::WaitMmioResp || (s.uncached_unit.valid && !s.uncached_unit.is_load));
  s.lrsc_unit.reserve_valid = sx_var("rv", 0, 1);
  s.lrsc_unit.reserve_addr = sx_var("ra", 0, 32);

  // the outside
  per_resp.ready = sx_var("pr", 0, 1);
  per_resp.is_mmio = sx_var("pr", 1, 1);
  rob_bcast.flush = sx_var("fl", 0, 1);
  dec_bcast.mispred = sx_var("mp", 0, 1);
  dec_bcast.br_mask = sx_var("mpm", 0, BR_MASK_WIDTH);
  dec_bcast.clear_mask = sx_var("mpc", 0, BR_MASK_WIDTH);
  for (int i = 0; i < LSU_STA_COUNT; i++) {
    auto &r = dcache2lsu.resp_ports.store_resps[i];
    r.valid = sx_var("dv", i, 1);
    r.req_id = sx_var("did", i, 1) ? X : HEAD;
    r.replay = (ReplayType)sx_var("dr", i, 2);
    // the cache answers what it was asked
    sx_assume(!r.valid || s.stq[r.req_id].store_state == SS::WaitDcacheResp);
  }
  auto &r0 = dcache2lsu.resp_ports.store_resps[0], &r1 = dcache2lsu.resp_ports.store_resps[1];
  sx_assume(!r0.valid || !r1.valid || r0.req_id != r1.req_id);
  dcache2lsu.mshr_fill = sx_var("mf", 0, 1);
  dcache2lsu.mshr_fill_addr = sx_var("mfa", 0, 32);
  // address and data of X
  auto &a = exe2lsu.agu_req[1];
  a.valid = P == ALLOC && sx_var("av", 0, 1);
  a.uop.op = UOP_STA;
  a.uop.stq_idx = X, a.uop.rob_idx = xrob, a.uop.rob_flag = x.rob_flag, a.uop.result = g.vaddr, a.uop.func3 = x.func3, a.uop.dest_preg = x.dest_preg;
  a.uop.is_atomic = sx_var("aat", 0, 1);
  a.uop.func7 = sx_var("af7", 0, 7);
  auto &d = exe2lsu.sdu_req[0];
  d.valid = !x.data_valid && P < COMMIT && sx_var("dav", 0, 1);
  d.uop.stq_idx = X, d.uop.rob_idx = xrob, d.uop.rob_flag = x.rob_flag, d.uop.result = g.data;
  // commit of X, alone or behind the store before it
  bool fire = false;
  for (int i = 0; i < COMMIT_WIDTH; i++) {
    auto &c = rob_commit.commit_entry[i];
    c.valid = sx_var("cv", i, 1);
    c.uop.type = encode_inst_type(STORE);
    int k = sx_var("ck", i, 1) ? POS : 0;
    c.uop.stq_idx = k ? X : HEAD;
    // in order, complete stores only
    uint32_t at = s.stq_commit_count + (i == 1 && rob_commit.commit_entry[0].valid);
    sx_assume(!c.valid || (at == (uint32_t)k && s.stq[c.uop.stq_idx].store_state == SS::WaitCommit));
    fire |= c.valid && k == POS;
  }
  sx_assume(!rob_bcast.flush || !dec_bcast.mispred);
  sx_assume(!rob_bcast.flush || !rob_commit.commit_entry[0].valid || !rob_commit.commit_entry[1].valid);
  sx_assume(!(fire && x.page_fault) || rob_bcast.flush);
  sx_assume(!fire || !x.br_mask);
  const StqEntry x0 = x;
  const LsuState &o = u.cur;

  u.nxt = u.cur;
  u.comb_cal();
  u.comb_lsu2dis();
  u.comb_lsu2rob();
  u.comb_stq_commit();
  u.comb_mmio_in();
  u.comb_dcache2lsu_ldq();
  u.comb_dcache2lsu_stq();
  u.comb_lsu2exe();
  u.comb_exe2lsu();
  u.comb_tlb_out();
  bool asked = false, fault = false, hit = false;
  for (int i = 0; i < LSU_STA_COUNT; i++) {
    auto &q = lsu2mmu.stq_req[i];
    auto &r = mmu2lsu.stq_resp[i];
    r.valid = q.valid && sx_var("tv", i, 1);
    r.result = (MMUResultType)sx_var("tr", i, 2);
    sx_assume((uint32_t)r.result < 3);
    r.entry_idx = q.entry_idx;
    r.wait_idx = q.wait_idx;
    bool me = q.valid && q.entry_idx == X;
    sx_assert(!me || q.vaddr == g.vaddr, "the store's own address is translated");
    sx_assert(!me || !asked, "the store is translated once at a time");
    asked |= me;
    r.paddr = me ? g.paddr : (uint32_t)sx_var("tp", i, 32);
    fault |= me && r.valid && r.result == MMUResultType::PAGE_FAULT;
    hit |= me && r.valid && r.result == MMUResultType::HIT;
  }
  u.comb_tlb_in_ldq();
  u.comb_tlb_in_stq();
  u.comb_stlf();
  u.comb_dis2lsu();
  u.comb_flush();
  u.comb_lsu2dcache_ldq();
  u.comb_lsu2dcache_stq();
  u.comb_mmio_out();
  u.comb_check();

  LsuState &n = u.nxt;
  auto &y = n.stq[X];
  SS t = y.store_state;
  uint32_t pos = (X - n.stq_head) & (NT - 1);
  bool squash = !committed && ((rob_bcast.flush && !fire) || (dec_bcast.mispred && (x0.br_mask & dec_bcast.br_mask)));
  uint32_t gone = (n.stq_head - HEAD) & (NT - 1); // how many left the queue
  bool left = gone > POS;
  bool in = !left && pos < n.stq_count;
  sx_assert(!squash || (!in && !left), "a squashed store is gone");
  sx_assert(squash || in || left, "a store is not lost");
  sx_assert(n.stq_commit_count <= n.stq_count && n.stq_commit == ((n.stq_head + n.stq_commit_count) & (NT - 1)), "the committed stores are the oldest");
  sx_assert(!in || (pos < n.stq_commit_count) == (committed || fire), "a store is committed by its instruction");
  sx_assert(n.stq_head_flag == (n.stq_head < HEAD), "the queue's lap is kept");
  sx_assert(!left || t == SS::Done, "a store leaves when it is over");

  // requests to the cache
  uint32_t rq = 0;
  for (int i = 0; i < LSU_STA_COUNT; i++) {
    auto &r = lsu2dcache.req_ports.store_ports[i];
    bool me = r.valid && r.req_id == X;
    sx_assert(!me || rq == 0, "a store asks the cache once");
    rq += me;
    uint8_t b = bytes_of(g.paddr, x0.func3);
    uint32_t m = (b & 1 ? 0xffu : 0) | (b & 2 ? 0xff00u : 0) | (b & 4 ? 0xff0000u : 0) | (b & 8 ? 0xff000000u : 0);
    sx_assert(!me || ((r.addr & ~3u) == (g.paddr & ~3u) && r.strb == b && (r.data & m) == (g.data << 8 * (g.paddr & 3) & m)), "the cache gets the store's bytes");
    sx_assert(!me || (in && (committed || (fire && !rob_bcast.flush)) && !is_io(g.paddr)), "only committed stores reach the cache");
    sx_assert(!me || P == SENDING || P == COMMIT, "a store reaches the cache once");
    sx_assert(!me || !x0.is_lrsc || x0.sc_pass, "a failed store-conditional writes nothing");
    sx_assert(!me || t == SS::WaitDcacheResp, "a store that asked waits");
    // older stores to the same bytes are over
    for (int k = 0; k < POS; k++) {
      auto &e = n.stq[(HEAD + k) % NT];
      bool same = (e.paddr & ~3u) == (g.paddr & ~3u) && (bytes_of(e.paddr, e.func3) & b);
      sx_assert(!me || !same || gone > (uint32_t)k || e.store_state == SS::Done, "stores to the same bytes keep their order");
    }
  }
  bool ack = false, again = false;
  for (auto &r : dcache2lsu.resp_ports.store_resps) {
    ack |= P == SENT && r.valid && r.req_id == X && r.replay == ReplayType::HIT;
    again |= P == SENT && r.valid && r.req_id == X && r.replay != ReplayType::HIT;
  }
  bool dev = P == DEV && per_resp.is_mmio;
  bool none = fire && (rob_bcast.flush || (x0.is_lrsc && !x0.sc_pass));
  sx_assert(!(in || left) || t != SS::Done || P == OVER || ack || dev || none, "a store is over when memory has it");
  sx_assert(!(in || left) || !(ack || dev || none) || t == SS::Done, "a store in memory is over");
  sx_assert(!(in || left) || t != SS::WaitDcacheResp || rq || (P == SENT && !again), "a store waiting for the cache has asked");
  sx_assert(!again || rq || t == SS::Committed, "a store turned away asks again");
  bool started = P != DEV && t == SS::WaitMmioResp && in;
  sx_assert(!started || (POS == 0 && is_io(g.paddr) && per_resp.ready && per_req.is_mmio && per_req.wen && per_req.mmio_addr == g.paddr && per_req.mmio_wdata == g.data && per_req.mmio_fun3 == x0.func3 && n.uncached_unit.valid && !n.uncached_unit.is_load && n.uncached_unit.idx == X), "a device is written with the store's data");
  sx_assert(!(P == DEV && !dev) || (n.uncached_unit.valid && n.uncached_unit.idx == X && !n.uncached_unit.is_load && t == SS::WaitMmioResp), "a device access waits for its answer");
  sx_assert(!dev || !n.uncached_unit.valid || n.uncached_unit.is_load || n.uncached_unit.idx != X, "an answered device access is not repeated");
  sx_assert(P == DEV || started || !per_req.is_mmio || !per_req.wen || POS > 0 || (left && n.uncached_unit.idx != X), "nothing else is written to the device");

  // report to the reorder buffer
  uint32_t rep = 0;
  for (int i = 0; i < LSU_STA_COUNT; i++) {
    auto &r = lsu2exe.sta_wb_req[i];
    bool me = r.valid && r.uop.rob_idx == xrob;
    rep += me;
    sx_assert(!me || (P == DONE && !x0.is_lrsc && (bool)r.uop.page_fault_store == (bool)x0.page_fault && !r.uop.dest_en && (!x0.page_fault || r.uop.diag_val == g.vaddr) && r.uop.br_mask == x0.br_mask), "a store is reported complete when it is");
  }
  for (int i = 0; i < LSU_LDU_COUNT; i++) {
    auto &r = lsu2exe.wb_req[i];
    bool me = r.valid && r.uop.rob_idx == xrob;
    rep += me;
    bool pass = o.lrsc_unit.reserve_valid && o.lrsc_unit.reserve_addr == g.paddr;
    sx_assert(!me || (P == DONE && x0.is_lrsc && (bool)r.uop.page_fault_store == (bool)x0.page_fault && (x0.page_fault ? !r.uop.dest_en && r.uop.diag_val == g.vaddr : r.uop.dest_en && r.uop.dest_preg == x0.dest_preg && r.uop.result == !pass && (bool)y.sc_pass == pass && (bool)y.suppress_write == !pass)), "a store-conditional reports its outcome");
  }
  sx_assert(rep <= 1 && (!rep || squash || t == SS::WaitCommit), "a store is reported once");
  sx_assert(t != SS::WaitCommit || !in || rep || P == COMMIT, "a store waits for commit after its report");

  // where it is now
  uint32_t qa = held(n.wait_mmu_stq, X, n.wait_mmu_stq_head, n.wait_mmu_stq_count), qb = held(n.mmu_done_stq, X, n.mmu_done_stq_head, n.mmu_done_stq_count);
  sx_assert(held(n.wait_mmu_stq, X) == qa && held(n.mmu_done_stq, X) == qb, "nothing outside a queue's range is marked used");
  sx_assert(in || qa + qb == 0, "a store that is gone is in no queue");
  sx_assert(!in || (qa == (t == SS::WaitTlb) && qb == (t == SS::Ready || t == SS::PageFault)), "a store waits in the one queue of its stage");
  sx_assert(!in || (t == SS::Allocated) == (P == ALLOC && !a.valid), "a store starts with its address");
  sx_assert(!in || (y.rob_idx == xrob && y.rob_flag == x0.rob_flag && y.br_mask == (mask_t)(x0.br_mask & ~dec_bcast.clear_mask) && y.func3 == x0.func3), "a store keeps its place in the program");
  bool haspa = x0.paddr_valid || hit;
  sx_assert(!in || t == SS::Allocated || (bool)y.paddr_valid == haspa, "a store is translated by its translation");
  sx_assert(!in || !y.paddr_valid || (y.paddr == g.paddr && (bool)y.is_mmio == is_io(g.paddr)), "a store keeps its translation");
  sx_assert(!in || ((bool)y.data_valid == (x0.data_valid || d.valid) && (!y.data_valid || y.data == g.data)), "a store keeps its data");
  sx_assert(!in || (bool)y.page_fault == (x0.page_fault || fault), "a fault is the store's");
  sx_assert(!in || !(t == SS::Ready || fine(t)) || (y.paddr_valid && y.data_valid) || y.page_fault, "a store is ready with address and data");
  sx_assert(!in || (bool)y.is_lrsc == (a.valid ? a.uop.is_atomic && a.uop.func7 >> 2 == AmoOp::SC : (bool)x0.is_lrsc), "a store keeps its kind");
  // progress
  sx_assert(!in || P != DATA || !d.valid || t == SS::Ready, "data makes a store ready");
  sx_assert(!in || !hit || t == ((x0.data_valid || d.valid) ? SS::Ready : SS::WaitData), "a translation takes a store on");
  sx_assert(!in || !fault || t == SS::PageFault, "a fault takes a store on");
  sx_assert(P != DONE || rep, "a ready store is reported");
  sx_assert(!in || P != COMMIT || !fire || t != SS::WaitCommit, "a commit takes a store on");
  sx_assert(POS || P != SENDING || x0.is_mmio || x0.replay_wait_cycles > 1 || rq, "a committed store is sent");
  sx_assert(POS || P != SENDING || !x0.is_mmio || x0.replay_wait_cycles > 1 || !per_resp.ready || o.uncached_unit.valid || started, "a committed store is sent to the device");
  sx_assert(POS || !(P == OVER || ack || dev) || left, "a store that is over leaves");
  sx_cover(left || (in && t != st), "moves");
  sx_cover(squash || committed, "squashed");
  sx_cover(rq || (P != SENDING && P != COMMIT), "asks");
}
#define W(name, P)                                                             \
  extern "C" void hx_##name##0() { walk<P, 0>(); }                             \
  extern "C" void hx_##name##1() { walk<P, 1>(); }                             \
  extern "C" void hx_##name##3() { walk<P, 3>(); }
W(alloc, ALLOC) W(tlb, TLB) W(data, DATA) W(done, DONE) W(commit, COMMIT) W(sending, SENDING) W(sent, SENT) W(over, OVER)
extern "C" void hx_device() { walk<DEV, 0>(); }

// ---- reservations -----------------------------------------------------------
// One cycle with a load-reserved and a store-conditional on their way, faults,
// squashes and commits of stores: the reservation is what the program made it.
extern "C" void hx_reserve() {
  RealLsu &u = unit();
  LsuState &s = u.cur;
  s.lrsc_unit.reserve_valid = sx_var("rv", 0, 1);
  s.lrsc_unit.reserve_addr = sx_var("ra", 0, 32);
  // two stores to commit, the second may be a store-conditional
  s.stq_head = HEAD;
  s.stq_count = 3;
  s.stq_commit = HEAD;
  for (int k = 0; k < 3; k++) {
    auto &e = s.stq[(HEAD + k) % NT];
    e.store_state = k < 2 ? SS::WaitCommit : SS::WaitTlb;
    e.paddr_valid = e.data_valid = true;
    e.func3 = f3_of("sf3", k, true);
    e.paddr = sx_var("spa", k, 32);
    e.vaddr = sx_var("sva", k, 32);
    e.is_mmio = is_io(e.paddr);
    e.is_lrsc = sx_var("slr", k, 1);
    e.sc_pass = e.is_lrsc && sx_var("scp", k, 1);
    e.suppress_write = e.is_lrsc && !e.sc_pass;
    e.br_mask = k < 2 ? 0 : sx_var("sbm", k, BR_MASK_WIDTH);
    e.rob_idx = k;
  }
  s.wait_mmu_stq_count = 1;
  s.wait_mmu_stq[0].valid = true;
  s.wait_mmu_stq[0].stq_idx = (HEAD + 2) % NT;
  // a load on its way, perhaps down a wrong path, and a finished one
  s.ldq[6].load_state = LS::WaitTlb;
  s.ldq[6].v_addr = sx_var("lva", 0, 32);
  s.ldq[6].br_mask = sx_var("lbm", 0, BR_MASK_WIDTH);
  s.wait_mmu_ldq_count = 1;
  s.wait_mmu_ldq[0].valid = true;
  s.wait_mmu_ldq[0].ldq_idx = 6;
  auto &l = s.ldq[9];
  l.load_state = sx_var("lpf", 0, 1) ? LS::PageFault : LS::ReadyToWb;
  l.page_fault = l.load_state == LS::PageFault;
  l.is_lrsc = sx_var("llr", 0, 1);
  l.p_addr = sx_var("lpa", 0, 32);
  l.br_mask = l.is_lrsc ? 0 : sx_var("lbm", 1, BR_MASK_WIDTH);
  s.finish_count = 1;
  s.finish[0].valid = true;
  s.finish[0].ldq_idx = 9;
  rob_bcast.flush = sx_var("fl", 0, 1);
  dec_bcast.mispred = sx_var("mp", 0, 1);
  dec_bcast.br_mask = sx_var("mpm", 0, BR_MASK_WIDTH);
  dec_bcast.clear_mask = sx_var("mpc", 0, BR_MASK_WIDTH);
  per_resp.ready = sx_var("pr", 0, 1);
  bool c[2];
  for (int i = 0; i < 2; i++) {
    auto &e = rob_commit.commit_entry[i];
    c[i] = sx_var("cv", i, 1);
    e.valid = c[i];
    bool amo = sx_var("cam", i, 1);
    e.uop.type = encode_inst_type(amo ? AMO : STORE);
    e.uop.func7 = (s.stq[(HEAD + i) % NT].is_lrsc ? AmoOp::SC : AmoOp::ADD) << 2;
    sx_assume(amo || !s.stq[(HEAD + i) % NT].is_lrsc);
    e.uop.stq_idx = (HEAD + i) % NT;
  }
  // a store-conditional commits alone; a load-reserved starts after every
  // older instruction has committed
  sx_assume(c[0] || !c[1]);
  sx_assume(!(c[0] && c[1]) || (!s.stq[HEAD].is_lrsc && !s.stq[(HEAD + 1) % NT].is_lrsc && !rob_bcast.flush));
  sx_assume(!l.is_lrsc || !c[0]);
  const LsuState o = u.cur;

  u.nxt = u.cur;
  u.comb_cal();
  u.comb_lsu2dis();
  u.comb_lsu2rob();
  u.comb_stq_commit();
  u.comb_mmio_in();
  u.comb_dcache2lsu_ldq();
  u.comb_dcache2lsu_stq();
  u.comb_lsu2exe();
  u.comb_exe2lsu();
  u.comb_tlb_out();
  auto answer = [&](MMUReq &q, MMUResp &r, int i) {
    r.valid = q.valid && sx_var("tv", i, 1);
    r.result = (MMUResultType)sx_var("tr", i, 2);
    sx_assume((uint32_t)r.result < 3);
    r.entry_idx = q.entry_idx;
    r.wait_idx = q.wait_idx;
    r.paddr = sx_var("tp", i, 32);
  };
  for (int i = 0; i < 2; i++) {
    answer(lsu2mmu.ldq_req[i], mmu2lsu.ldq_resp[i], i);
    answer(lsu2mmu.stq_req[i], mmu2lsu.stq_resp[i], 2 + i);
  }
  u.comb_tlb_in_ldq();
  u.comb_tlb_in_stq();
  u.comb_stlf();
  u.comb_dis2lsu();
  u.comb_flush();
  u.comb_lsu2dcache_ldq();
  u.comb_lsu2dcache_stq();
  u.comb_mmio_out();
  u.comb_check();

  bool v = o.lrsc_unit.reserve_valid;
  uint32_t a = o.lrsc_unit.reserve_addr;
  for (int i = 0; i < 2; i++) {
    auto &e = o.stq[(HEAD + i) % NT];
    if (c[i] && !rob_bcast.flush)
      v = v && !e.is_lrsc && e.paddr != a;
  }
  bool lr = o.ldq[9].is_lrsc && !o.ldq[9].page_fault;
  if (lr)
    v = true, a = o.ldq[9].p_addr;
  auto &r = u.nxt.lrsc_unit;
  // a load-reserved squashed before it commits starts over
  sx_assume(!(lr && rob_bcast.flush));
  sx_assert((bool)r.reserve_valid == v, "a reservation lasts until the next store-conditional or store to the word");
  sx_assert(!v || r.reserve_addr == a, "the reservation is for the word last reserved");
  sx_cover(lr, "reserved");
  sx_cover(o.lrsc_unit.reserve_valid && !v, "ended");
}

// from the reservation to the committed store: the outcome decides the write
extern "C" void hx_conditional() {
  RealLsu &u = unit();
  LsuState &s = u.cur;
  s.lrsc_unit.reserve_valid = sx_var("rv", 0, 1);
  s.lrsc_unit.reserve_addr = sx_var("ra", 0, 32);
  s.stq_head = s.stq_commit = HEAD;
  s.stq_count = 1;
  auto &e = s.stq[HEAD];
  e.store_state = SS::Ready;
  e.paddr_valid = e.data_valid = true;
  e.paddr = sx_var("spa", 0, 32);
  sx_assume((e.paddr & 3) == 0 && !is_io(e.paddr));
  e.data = sx_var("sd", 0, 32);
  e.func3 = 2;
  e.is_lrsc = true;
  e.dest_preg = sx_var("spr", 0, PRF_IDX_WIDTH);
  s.mmu_done_stq_count = 1;
  s.mmu_done_stq[0].valid = true;
  s.mmu_done_stq[0].stq_idx = HEAD;
  bool pass = s.lrsc_unit.reserve_valid && s.lrsc_unit.reserve_addr == e.paddr;
  uint32_t addr = e.paddr, data = e.data;
  uint32_t wrote = 0, told = 0, res = 0;
  bool bad = false, squashed = false;
  for (int t = 0; t < 4; t++) {
    rob_bcast.flush = t == 1 && sx_var("fl", t, 1);
    auto &c = rob_commit.commit_entry[0];
    c.valid = t == 1;
    c.uop.type = encode_inst_type(AMO);
    c.uop.func7 = AmoOp::SC << 2;
    c.uop.stq_idx = HEAD;
    squashed |= rob_bcast.flush;
    auto &p = dcache2lsu.resp_ports.store_resps[0];
    p.valid = lsu2dcache.req_ports.store_ports[0].valid;
    p.req_id = lsu2dcache.req_ports.store_ports[0].req_id;
    p.replay = ReplayType::HIT;
    u.nxt = u.cur;
    u.comb_cal();
    u.comb_lsu2dis();
    u.comb_lsu2rob();
    u.comb_stq_commit();
    u.comb_mmio_in();
    u.comb_dcache2lsu_ldq();
    u.comb_dcache2lsu_stq();
    u.comb_lsu2exe();
    u.comb_exe2lsu();
    u.comb_tlb_out();
    u.comb_tlb_in_ldq();
    u.comb_tlb_in_stq();
    u.comb_stlf();
    u.comb_dis2lsu();
    u.comb_flush();
    u.comb_lsu2dcache_ldq();
    u.comb_lsu2dcache_stq();
    u.comb_mmio_out();
    u.comb_check();
    u.seq();
    for (auto &r : lsu2dcache.req_ports.store_ports) {
      wrote += r.valid;
      bad |= r.valid && (r.addr != addr || r.data != data || r.strb != 15);
    }
    for (auto &r : lsu2exe.wb_req)
      if (r.valid)
        told++, res = r.uop.result;
    for (auto &r : lsu2exe.sta_wb_req)
      told += r.valid;
  }
  sx_assert(told == 1 && res == !pass, "the outcome is reported");
  sx_assert(wrote == (pass && !squashed) && !bad, "the word is written when the outcome is success");
  sx_assert(squashed || !u.cur.lrsc_unit.reserve_valid, "a store-conditional ends the reservation");
  sx_assert(!squashed || (bool)u.cur.lrsc_unit.reserve_valid == (bool)sx_var("rv", 0, 1), "a squashed store-conditional leaves the reservation");
  sx_assert(u.cur.stq_count == 0, "the store leaves the queue");
  sx_cover(pass && squashed, "squashed");
  sx_cover(pass && !squashed, "success");
}
