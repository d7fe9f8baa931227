// F04: the instruction cache. One clock cycle from an arbitrary state; the
// translation buffer, the memory port, the data-cache port and the arrays of
// the cache are the environment.
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <memory>
#include <string>
#include <vector>
#define private public
#include "AXI_Interconnect_IO.h"
#include "FrontTop.h"
#include "TlbMmu.h"
#include "front_IO.h"
#include "front_module.h"
#include "icache/GenericTable.h"
#include "icache/include/ICacheTop.h"
#include "icache/include/icache_module.h"
#include "sx.h"
#undef private
using namespace icache_module_n;
long long sim_time = 0;
extern icache_module_n::ICache icache;
uint32_t pmem_read(uint32_t) {
  sx_assert(false, "instructions are read through the memory port");
  return 0;
}

static constexpr int W = ICACHE_WAY_NUM, N = ICACHE_WORD_NUM;
static constexpr uint32_t LOW = ICACHE_LINE_SIZE - 1;

// ---- memory: any word anywhere, no two addresses alike
static uint32_t key;
static uint32_t mem(uint32_t a) { return a ^ key; }
static uint32_t line_of(uint32_t ppn, uint32_t index) {
  return ppn << 12 | index << ICACHE_OFFSET_BITS;
}

// the line being fetched was newer in the data cache when the fetch started:
// memory itself may still hold anything, and the line may move there meanwhile
static bool newer;

// ---- translation: a fixed function of the page
static uint32_t ppn_of(uint32_t vpn) { return (uint32_t)sx_uf("ppn", vpn, 20); }
static bool bad(uint32_t vpn) { return sx_uf("fault", vpn, 1); }
static bool retry, asked;
static uint32_t asked_page;
static CsrStatusIO csr;
TlbMmu::TlbMmu(SimContext *, PtwMemPort *, int, TlbMmu::Kind) {}
TlbMmu::Result TlbMmu::translate(uint32_t &pa, uint32_t va, uint32_t type, CsrStatusIO *s) {
  sx_assert(type == 0 && s == &csr, "translated as a fetch in the current context");
  asked = true;
  asked_page = va >> 12;
  if (retry)
    return Result::RETRY;
  if (bad(va >> 12))
    return Result::FAULT;
  pa = ppn_of(va >> 12) << 12 | (va & 0xfff);
  return Result::OK;
}
static bool tlb_flushed, tlb_cancelled;
void TlbMmu::flush() { tlb_flushed = true; }
void TlbMmu::cancel_pending_walk() { tlb_cancelled = true; }
void TlbMmu::seq() {}
void TlbMmu::set_ptw_mem_port(PtwMemPort *) {}
void TlbMmu::set_ptw_walk_port(PtwWalkPort *) {}

// ---- arrays: what is valid agrees with memory
typedef HxData Data;
typedef HxTag Tag;
typedef HxValid Valid;
static uint32_t tag(uint32_t a, int w) { return (uint32_t)sx_uf("tag", a << 3 | w, 20); }
static bool valid(uint32_t a, int w) { return sx_uf("valid", a << 3 | w, 1); }
static Data::WriteReq wdata;
static Tag::WriteReq wtag;
static Valid::WriteReq wvalid;
static bool cleared;
template <> void Data::comb(const Data::ReadReq &r, Data::ReadResp &o) const {
  o.valid = r.enable;
  for (int w = 0; w < W; w++)
    for (int k = 0; k < N; k++)
      o.payload.chunks[w][k] = r.enable ? valid(r.address, w) ? mem(line_of(tag(r.address, w), r.address) + 4 * k) : (uint32_t)sx_var("junk", w * N + k, 32) : 0;
}
template <> void Tag::comb(const Tag::ReadReq &r, Tag::ReadResp &o) const {
  o.valid = r.enable;
  for (int w = 0; w < W; w++)
    o.payload.chunks[w][0] = r.enable ? tag(r.address, w) : 0;
}
template <> void Valid::comb(const Valid::ReadReq &r, Valid::ReadResp &o) const {
  o.valid = r.enable;
  for (int w = 0; w < W; w++)
    o.payload.chunks[w][0] = r.enable && valid(r.address, w);
}
template <> void Data::seq(const Data::ReadReq &, const Data::WriteReq &r) { wdata = r; }
template <> void Tag::seq(const Tag::ReadReq &, const Tag::WriteReq &r) { wtag = r; }
template <> void Valid::seq(const Valid::ReadReq &, const Valid::WriteReq &r) { wvalid = r; }
template <> void Data::reset() {}
template <> void Tag::reset() {}
template <> void Valid::reset() { cleared = true; wvalid.enable = false; }

// ---- what holds between cycles
static bool busy(const ICache_regs_t &r) { return r.state == SWAP_IN || r.state == WAIT_DCACHE_AFTER_MEM; }
static bool agrees(const ICache_regs_t &r, const bool *out) {
  uint32_t idx = r.req_pc_r >> ICACHE_OFFSET_BITS & (ICACHE_SET_NUM - 1), id = r.miss_txid_r;
  uint32_t la = line_of(r.ppn_r, idx);
  bool ok = r.req_index_r == idx && !r.lookup_pending_r;
  ok &= r.state == IDLE || busy(r) || r.state == CANCEL_WAIT_ACCEPT;
  ok &= !busy(r) || (r.req_valid_r && r.ppn_r == ppn_of(r.req_pc_r >> 12) && !bad(r.req_pc_r >> 12));
  ok &= (bool)r.miss_txid_valid_r == (r.state == SWAP_IN || r.state == CANCEL_WAIT_ACCEPT);
  ok &= r.state != CANCEL_WAIT_ACCEPT || !r.req_valid_r;
  ok &= !r.mem_axi_state || r.state == SWAP_IN;
  ok &= r.replace_idx < W;
  bool mine = false, lost = false;
  for (uint32_t i = 0; i < 16; i++) {
    ok &= (bool)r.txid_inflight_r[i] == out[i];
    ok &= !r.txid_canceled_r[i] || r.txid_inflight_r[i];
    bool me = r.miss_txid_valid_r && id == i;
    mine |= me && r.txid_inflight_r[i] && !r.txid_canceled_r[i];
    lost |= me && !r.mem_axi_state && r.txid_inflight_r[i];
    ok &= me || !r.txid_inflight_r[i] || r.txid_canceled_r[i];
  }
  ok &= !lost && (!r.mem_axi_state || mine);
  ok &= r.dcache_probe_word_r < N;
  ok &= r.state != WAIT_DCACHE_AFTER_MEM || !r.dcache_probe_done_r;
  ok &= !r.dcache_probe_done_r || !r.dcache_probe_inflight_r;
  ok &= !busy(r) || !newer || !r.dcache_probe_done_r || r.dcache_probe_hit_r || r.dcache_probe_word_r != 0;
  for (int k = 0; k < N; k++) {
    ok &= r.state != WAIT_DCACHE_AFTER_MEM || newer || r.mem_resp_data_r[k] == mem(la + 4 * k);
    ok &= !busy(r) || !(k < r.dcache_probe_word_r || (r.dcache_probe_done_r && r.dcache_probe_hit_r)) || r.dcache_probe_data_r[k] == mem(la + 4 * k);
  }
  return ok;
}

static icache_in in;
static icache_out out;
static axi_interconnect::ReadMasterPort_t port;
static ICacheMemPortReq preq;
static ICacheMemPortResp presp;
static char context[sizeof(SimContext)];
enum { LOOKUP, FETCHING, MERGING, CANCELLED };

static void cycle(int where) {
  key = sx_var("key", 0, 32);
  newer = sx_var("newer", 0, 1);
  icache_mem_read_port = &port;
  icache_mem_req_port = &preq;
  icache_mem_resp_port = &presp;
  icache_set_context((SimContext *)context);
  auto &r = icache.io.regs;
  r.state = where == LOOKUP ? IDLE : where == FETCHING ? SWAP_IN : where == MERGING ? WAIT_DCACHE_AFTER_MEM : CANCEL_WAIT_ACCEPT;
  r.req_valid_r = sx_var("req", 0, 1);
  r.req_pc_r = (uint32_t)sx_var("req", 1, 30) << 2;
  r.req_index_r = r.req_pc_r >> ICACHE_OFFSET_BITS & (ICACHE_SET_NUM - 1);
  r.ifu_req_ready_r = sx_var("rdy", 0, 1);
  r.mem_axi_state = where == FETCHING && sx_var("axi", 0, 1);
  r.replace_idx = sx_var("rep", 0, 3);
  r.ppn_r = sx_var("ppn_r", 0, 20);
  r.miss_txid_valid_r = where == FETCHING || where == CANCELLED;
  r.miss_txid_r = sx_var("txid", 0, 4);
  r.miss_ready_seen_r = sx_var("seen", 0, 1);
  bool busy_id[16];
  for (int i = 0; i < 16; i++) {
    r.txid_inflight_r[i] = busy_id[i] = sx_var("inflight", i, 1);
    r.txid_canceled_r[i] = sx_var("cancelled", i, 1);
  }
  r.dcache_probe_inflight_r = sx_var("probe", 0, 1);
  r.dcache_probe_done_r = sx_var("probe", 1, 1);
  r.dcache_probe_hit_r = sx_var("probe", 2, 1);
  r.dcache_probe_word_r = sx_var("probe", 3, 4);
  for (int k = 0; k < N; k++) {
    r.mem_resp_data_r[k] = sx_var("mline", k, 32);
    r.dcache_probe_data_r[k] = sx_var("dline", k, 32);
  }
  icache.io.out.ifu_req_ready = sx_var("rdy", 1, 1);
  sx_assume(agrees(r, busy_id));
  const ICache_regs_t r0 = r;

  // the rest of the machine
  in = {};
  in.csr_status = &csr;
  in.refetch = sx_var("refetch", 0, 1);
  in.itlb_flush = sx_var("itlb", 0, 1);
  in.fence_i = sx_var("fence", 0, 1);
  sx_assume(!in.itlb_flush || in.refetch);
  bool drop = in.refetch || in.fence_i;
  icache_peek_ready(&in, &out);
  bool ready = out.icache_read_ready;
  in.icache_read_valid = ready && !in.refetch && sx_var("ask", 0, 1);
  in.fetch_address = (uint32_t)sx_var("ask", 1, 30) << 2;
  retry = sx_var("retry", 0, 1);
  uint32_t la = line_of(r0.ppn_r, r0.req_index_r);
  port.req.ready = sx_var("port", 0, 1);
  port.req.accepted = r0.miss_txid_valid_r && !r0.mem_axi_state && sx_var("port", 1, 1);
  port.req.accepted_id = r0.miss_txid_r;
  port.resp.valid = sx_var("port", 2, 1);
  port.resp.id = sx_var("port", 3, 4);
  bool mine = r0.miss_txid_valid_r && port.resp.id == r0.miss_txid_r, known = mine && port.req.accepted;
  for (int i = 0; i < 16; i++)
    known |= port.resp.id == i && busy_id[i];
  sx_assume(!port.resp.valid || known);
  for (int k = 0; k < N; k++)
    port.resp.data[k] = mine && where == FETCHING && !newer ? mem(la + 4 * k) : (uint32_t)sx_var("other", k, 32);
  presp.resp_valid = sx_var("presp", 0, 1);
  presp.resp_miss = sx_var("presp", 1, 1);
  presp.resp_data = busy(r0) && r0.dcache_probe_inflight_r && !presp.resp_miss ? mem(la + 4 * r0.dcache_probe_word_r) : (uint32_t)sx_var("presp", 2, 32);
  sx_assume(!newer || r0.dcache_probe_word_r != 0 || !presp.resp_miss);
  bool pend0 = r0.req_valid_r, fresh = in.icache_read_valid;
  uint32_t pc = pend0 ? (uint32_t)r0.req_pc_r : (uint32_t)in.fetch_address;

  icache_comb_calc(&in, &out);
  icache_seq_write();

  sx_assert(!pend0 || !ready, "one request at a time");
  sx_assert(!out.icache_read_complete || (!drop && (pend0 || fresh)), "an answer belongs to a request that was not dropped");
  sx_assert(!out.icache_read_complete_2 && !out.icache_read_ready_2, "one group at a time");
  if (out.icache_read_complete) {
    uint32_t vpn = pc >> 12;
    sx_assert(out.fetch_pc == pc, "the answer names the request's address");
    for (int i = 0; i < FETCH_WIDTH; i++) {
      uint32_t a = pc + 4 * i;
      bool same = (a & ~LOW) == (pc & ~LOW);
      sx_assert((bool)out.inst_valid[i] == same, "a group ends at the end of the cache line");
      sx_assert((bool)out.page_fault_inst[i] == (same && bad(vpn)), "a fetch faults exactly when its page does");
      sx_assert(!same || bad(vpn) || out.fetch_group[i] == mem(ppn_of(vpn) << 12 | (a & 0xfff)), "the instructions are those in memory at the translated address");
    }
  }
  bool pend1 = (pend0 || fresh) && !drop && !out.icache_read_complete;
  sx_assert((bool)r.req_valid_r == pend1 && (!pend1 || r.req_pc_r == pc), "a request is kept until it is answered or dropped");
  sx_assert(tlb_flushed == (bool)in.itlb_flush && (tlb_cancelled || !in.refetch), "a fence reaches the translations and a restart ends the walk");
  sx_assert(!asked || asked_page == pc >> 12, "only the request's page is translated");

  // ports
  bool took = port.resp.valid && port.resp.ready;
  bool left[16];
  for (int i = 0; i < 16; i++)
    left[i] = (busy_id[i] || (port.req.accepted && r0.miss_txid_r == i)) && !(took && port.resp.id == i);
  sx_assert(!port.req.valid || (where == FETCHING && port.req.addr == la && port.req.total_size == ICACHE_LINE_SIZE - 1 && port.req.id == r0.miss_txid_r), "a read asks for the request's line");
  sx_assert(!preq.req_valid || (busy(r0) && preq.req_addr == la + 4 * r0.dcache_probe_word_r), "a lookup in the data cache asks for the next word of the line");
  sx_assert(!preq.req_valid || !r0.dcache_probe_inflight_r, "one lookup at a time");

  // the arrays afterwards, at any place
  uint32_t x = sx_var("x", 0, ICACHE_INDEX_BITS), w = sx_var("x", 1, 3), k = sx_var("x", 2, 4);
  bool v1 = valid(x, w) && !cleared;
  uint32_t t1 = tag(x, w), d1 = v1 ? mem(line_of(t1, x) + 4 * k) : (uint32_t)sx_var("x", 3, 32);
  for (int i = 0; i < W; i++) {
    if (wvalid.enable && wvalid.address == x && w == (uint32_t)i && wvalid.chunk_enable[i])
      v1 = wvalid.payload.chunks[i][0];
    if (wtag.enable && wtag.address == x && w == (uint32_t)i && wtag.chunk_enable[i])
      t1 = wtag.payload.chunks[i][0];
    for (int j = 0; j < N; j++)
      if (wdata.enable && wdata.address == x && w == (uint32_t)i && wdata.chunk_enable[i] && k == (uint32_t)j)
        d1 = wdata.payload.chunks[i][j];
  }
  // without a write, an invalid entry holds anything; a valid one what it held
  sx_assert(!v1 || d1 == mem(line_of(t1, x) + 4 * k), "a valid line holds what memory holds");
  sx_assert(!in.fence_i || !v1, "after a fence nothing is valid");

  // a fetch that starts now finds the line anywhere
  if (where == LOOKUP)
    newer = sx_var("newer", 1, 1);
  // after a restart translations may differ, after a fence memory may
  if (drop && in.fence_i)
    key = sx_var("key", 1, 32);
  sx_assert(agrees(r, left), "the cache's state agrees with the requests outstanding");
  if (in.fence_i || in.refetch)
    sx_assert(!busy(r), "nothing fetched before a restart is used after it");

  // it goes on
  sx_assert(!port.resp.valid || took || mine, "an answer nobody waits for does not block the port");
  if (!drop && where == LOOKUP && (pend0 || fresh) && !retry) {
    bool free = false;
    for (int i = 0; i < 16; i++)
      free |= !busy_id[i];
    sx_assert(out.icache_read_complete || !pend0 || !free || busy(r), "a miss starts a fetch");
  }
  if (!drop && busy(r0)) {
    sx_assert(where != FETCHING || r0.mem_axi_state || port.req.accepted || port.req.valid, "a fetch asks until it is accepted");
    sx_assert(r0.dcache_probe_done_r || r0.dcache_probe_inflight_r || preq.req_valid, "every word of the line is looked up");
    bool last = r0.dcache_probe_done_r || (r0.dcache_probe_inflight_r && presp.resp_valid && (presp.resp_miss || r0.dcache_probe_word_r == N - 1));
    bool here = where == MERGING || (mine && port.resp.valid);
    bool moved = last && r0.dcache_probe_word_r != 0 && (r0.dcache_probe_done_r ? !r0.dcache_probe_hit_r : (bool)presp.resp_miss);
    sx_assert(!last || !here || (moved ? r.state == IDLE : (bool)out.icache_read_complete), "a line that is there is handed over");
    sx_assert(where != FETCHING || !mine || !port.resp.valid || took, "the line is taken");
  }
  if (!drop && where == LOOKUP && !pend0 && !fresh) {
    in = {};
    in.csr_status = &csr;
    icache_peek_ready(&in, &out);
    sx_assert(out.icache_read_ready, "an idle cache takes requests");
  }
  if (where == LOOKUP) {
    sx_cover(out.icache_read_complete && fresh && !bad(pc >> 12), "hit at once");
    sx_cover(out.icache_read_complete && pend0 && bad(pc >> 12), "late fault");
  } else if (where == FETCHING || where == MERGING)
    sx_cover(out.icache_read_complete, "a line arrives");
  else
    sx_cover(port.req.accepted, "accepted after the restart");
}
extern "C" void hx_lookup() { cycle(LOOKUP); }
extern "C" void hx_fetching() { cycle(FETCHING); }
extern "C" void hx_merging() { cycle(MERGING); }
extern "C" void hx_cancelled() { cycle(CANCELLED); }

extern "C" void hx_reset() {
  key = sx_var("key", 0, 32);
  auto &r = icache.io.regs;
  icache_mem_read_port = &port;
  icache_mem_req_port = &preq;
  icache_mem_resp_port = &presp;
  icache_set_context((SimContext *)context);
  r.state = CANCEL_WAIT_ACCEPT;
  r.req_valid_r = sx_var("req", 0, 1);
  r.req_pc_r = (uint32_t)sx_var("req", 1, 30) << 2;
  r.miss_txid_valid_r = true;
  r.mem_axi_state = 1;
  for (int i = 0; i < 16; i++)
    r.txid_inflight_r[i] = r.txid_canceled_r[i] = sx_var("inflight", i, 1);
  in = {};
  in.csr_status = &csr;
  in.reset = true;
  icache_comb_calc(&in, &out);
  const bool none[16] = {};
  sx_assert(agrees(r, none) && !r.req_valid_r && cleared && tlb_flushed && !wvalid.enable, "a reset leaves an empty cache");
  sx_assert(!out.icache_read_complete && !preq.req_valid, "a reset answers and asks nothing");
  in.reset = false;
  icache_comb_calc(&in, &out);
  icache_peek_ready(&in, &out);
  sx_assert(out.icache_read_ready, "after a reset requests are taken");
  sx_cover(true, "reset");
}
