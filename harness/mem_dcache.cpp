// M01/T02: the data cache, its miss registers and its write buffer behave as one
// coherent memory. One clock cycle from an arbitrary consistent state; one
// watched word (any line, any word of it) is followed through all places that
// can hold it.
#include <array>
#include <cinttypes>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <vector>
#define private public
#include "MemSubsystem.h"
#undef private
#include "sx.h"

static SimContext ctx;
static LsuDcacheIO lsu_req;
static DcacheLsuIO lsu_resp;
static ICacheMemPortReq ic_req;
static ICacheMemPortResp ic_resp;
static PeripheralReqIO per_req;
static PeripheralRespIO per_resp;
static CsrInterruptInjectIO inject;
static uint32_t ram[4];
long long sim_time = 0;
// devices are idle
uint32_t pmem_read(uint32_t) { return 0; }
void pmem_write(uint32_t, uint32_t) {}
bool pmem_is_ram_addr(uint32_t, uint32_t) { return false; }
void pmem_memcpy_from_ram(void *, uint32_t, size_t) {}
void pmem_memcpy_to_ram(uint32_t, const void *, size_t) {}

constexpr int NL = LSU_LDU_COUNT, NS = LSU_STA_COUNT;
constexpr uint32_t SETS[2] = {5, 5 + DCACHE_BANK_NUM};

// any line of the two sets
static uint32_t line(const char *name, int i) {
  uint32_t v = sx_var(name, i, DCACHE_TAG_BITS + 1);
  return (v >> 1 << (DCACHE_SET_BITS + DCACHE_OFFSET_BITS)) | (SETS[0] << DCACHE_OFFSET_BITS) |
         ((v & 1) << (clog2(DCACHE_BANK_NUM) + DCACHE_OFFSET_BITS));
}
static uint32_t tag_of(uint32_t a) { return a >> (DCACHE_SET_BITS + DCACHE_OFFSET_BITS); }
static uint32_t set_of(uint32_t a) { return a >> DCACHE_OFFSET_BITS & (DCACHE_SETS_NUM - 1); }
static uint32_t strobe(uint32_t old, uint32_t d, uint32_t s) {
  for (int b = 0; b < 4; b++)
    if (s >> b & 1)
      old = (old & ~(0xffu << 8 * b)) | (d & 0xffu << 8 * b);
  return old;
}

static uint32_t A, LA, W; // watched word, its line, its place in the line
static uint32_t pick(const uint32_t *d) {
  uint32_t r = d[0];
  for (uint32_t i = 1; i < DCACHE_WORD_NUM; i++)
    r = W == i ? d[i] : r;
  return r;
}
static uint32_t pick8(const uint8_t *d) {
  uint32_t r = d[0];
  for (uint32_t i = 1; i < DCACHE_WORD_NUM; i++)
    r = W == i ? d[i] : r;
  return r;
}

// where the watched word is, and what it holds
struct View {
  bool some, twice; // places holding the line: at least one, more than one
  bool cached, filling, buffered, missing;
  uint32_t value;
  bool ok; // consistency with the memory behind
  void see(bool h) {
    twice |= some & h;
    some |= h;
  }
};
static View view(MemSubsystem &m, uint32_t mem) {
  View v = {};
  v.ok = true;
  v.value = mem;
  auto &ms = m.mshr_.cur;
  for (int i = 0; i < DCACHE_MSHR_ENTRIES; i++) {
    auto &e = ms.mshr_entries[i];
    bool h = e.valid && e.addr == LA;
    v.see(h);
    v.missing |= h;
    v.value = h ? strobe(mem, pick(e.merged_store_data), pick8(e.merged_store_strb)) : v.value;
  }
  auto &f = m.dcache_.s1s2_cur.fill_write;
  v.filling = f.valid && f.tag == tag_of(LA) && f.set_idx == set_of(LA);
  v.value = v.filling ? pick(f.data) : v.value;
  v.ok &= !v.filling || f.dirty || pick(f.data) == mem;
  auto &wb = m.wb_.cur;
  for (uint32_t i = 0; i < DCACHE_WB_ENTRIES; i++) {
    bool live = ((i - wb.head) & (DCACHE_WB_ENTRIES - 1)) < wb.count;
    bool h = live && wb.write_buffer[i].addr == LA;
    v.see(h);
    v.buffered |= h;
    v.value = h ? pick(wb.write_buffer[i].data) : v.value;
    v.ok &= !(h && wb.send && wb.head == i) || pick(wb.write_buffer[i].data) == mem;
  }
  for (int s = 0; s < 2; s++)
    for (int w = 0; w < DCACHE_WAYS_NUM; w++) {
      bool h = SETS[s] == set_of(LA) && valid_array[SETS[s]][w] && tag_array[SETS[s]][w] == tag_of(LA);
      v.see(h);
      v.cached |= h;
      v.value = h ? pick(data_array[SETS[s]][w]) : v.value;
      v.ok &= !h || dirty_array[SETS[s]][w] || pick(data_array[SETS[s]][w]) == mem;
    }
  return v;
}
// bookkeeping of the structures themselves
static bool shape(MemSubsystem &m) {
  auto &ms = m.mshr_.cur;
  auto &wb = m.wb_.cur;
  auto &f = m.dcache_.s1s2_cur.fill_write;
  uint32_t n = 0;
  bool holds = false;
  for (uint32_t i = 0; i < DCACHE_MSHR_ENTRIES; i++) {
    auto &e = ms.mshr_entries[i];
    n += e.valid;
    holds |= ms.axi_resp_hold_id == i && e.valid && e.issued && tag_of(e.addr) == f.tag && set_of(e.addr) == f.set_idx;
  }
  bool ok = ms.mshr_count == n && wb.count <= DCACHE_WB_ENTRIES && wb.head < DCACHE_WB_ENTRIES && (!wb.send || wb.count > 0);
  ok &= (bool)ms.axi_resp_hold_valid == (bool)f.valid && (bool)m.fill_out_.valid == (bool)f.valid;
  ok &= !f.valid || (holds && f.id == ms.axi_resp_hold_id && m.fill_out_.set_idx == f.set_idx);
  return ok;
}

// the invariant "a line is in one place", for the line L
static bool one_place(MemSubsystem &m, uint32_t L) {
  View v = {};
  auto &wb = m.wb_.cur;
  for (auto &e : m.mshr_.cur.mshr_entries)
    v.see(e.valid && e.addr == L);
  for (uint32_t i = 0; i < DCACHE_WB_ENTRIES; i++)
    v.see(((i - wb.head) & (DCACHE_WB_ENTRIES - 1)) < wb.count && wb.write_buffer[i].addr == L);
  for (int s = 0; s < 2; s++)
    for (int w = 0; w < DCACHE_WAYS_NUM; w++)
      v.see(SETS[s] == set_of(L) && valid_array[SETS[s]][w] && tag_array[SETS[s]][w] == tag_of(L));
  return !v.twice;
}

static uint32_t word_addr(const char *name, int i) { uint32_t v = sx_var(name, 100 + i, 4); return line(name, i) | 6u << 2 | (v & 8) << 2 | (v & 7); }

enum Place { CACHED, BUFFERED, MISSING, FILLING, NOWHERE };

// T02: page-table walks, and the instruction cache's lookups, share the last
// load port
constexpr uint32_t PV = 1, PR = 2, PW = 4, PX = 8;
typedef MemPtwBlock::WalkState WS;
static bool waiting(const MemPtwBlock::State &p) { return p.walk_state == WS::L1_WAIT_RESP || p.walk_state == WS::L2_WAIT_RESP; }
static bool second(const MemPtwBlock::State &p) { return p.walk_state == WS::L2_REQ || p.walk_state == WS::L2_WAIT_RESP; }
static const PtwWalkReq &walked(const MemPtwBlock::State &p) { return p.walk_clients[p.walk_owner == MemPtwBlock::Client::ITLB].req; }
static uint32_t entry_addr(const MemPtwBlock::State &p) {
  auto &q = walked(p);
  return second(p) ? (p.walk_l1_pte >> 10 << 12) + (q.vaddr >> 12 & 0x3ff) * 4 : (q.satp << 12) + (q.vaddr >> 22) * 4;
}
// the walker and the port it shares agree
static bool linked(MemSubsystem &m) {
  auto &p = m.ptw_block.cur_;
  auto &r = m.mem_route_block.cur;
  auto &s = m.dcache_.s1s2_cur;
  auto &ld = s.loads[NL - 1];
  auto &meta = m.dcache_resp_meta_cur_[NL - 1];
  bool ok = (bool)p.walk_active == (p.walk_state != WS::IDLE) && p.walk_req_id_valid == waiting(p);
  for (int i = 0; i < 2; i++) {
    auto &c = p.walk_clients[i];
    ok &= c.req_inflight == (p.walk_active && (int)p.walk_owner == i);
    ok &= !(c.req_pending && c.req_inflight) && !(c.resp_valid && (c.req_pending || c.req_inflight));
  }
  bool issued = r.issued_tags.owner == Owner::PTW_WALK && p.walk_req_id == r.issued_tags.req_id && entry_addr(p) == r.issued_tags.req_addr;
  ok &= !waiting(p) || issued || (r.ptw_wait.walk && r.issued_tags.owner != Owner::PTW_WALK);
  ok &= !second(p) || (p.walk_l1_pte & 15) == PV;
  ok &= !r.ptw_wait.walk || m.mshr_.cur.mshr_count > 0;
  ok &= dcache_req_id_is_route(r.next_req_id);
  bool none = r.issued_tags.owner == Owner::NONE;
  ok &= none || (ld.valid && ld.addr == r.issued_tags.req_addr && ld.req_id == r.issued_tags.req_id && meta.valid && meta.addr == ld.addr && !meta.is_store && dcache_req_id_is_route(ld.req_id));
  ok &= s.icache_req == (r.issued_tags.owner == Owner::ICACHE ? NL - 1 : NL);
  ok &= !ld.valid || none == !dcache_req_id_is_route(ld.req_id);
  return ok;
}
static bool same(const PtwWalkReq &a, const PtwWalkReq &b) { return a.vaddr == b.vaddr && a.satp == b.satp && a.access_type == b.access_type; }
static bool same(const PtwWalkResp &a, const PtwWalkResp &b) { return a.fault == b.fault && a.vaddr == b.vaddr && a.leaf_pte == b.leaf_pte && a.leaf_level == b.leaf_level; }

template <int P, int HEAD, Owner OWN = Owner::NONE> static void cycle() {
  constexpr bool LSU = OWN == Owner::NONE;
  static MemSubsystem m(&ctx);
  m.lsu2dcache = &lsu_req;
  m.dcache2lsu = &lsu_resp;
  m.icache_req = &ic_req;
  m.icache_resp = &ic_resp;
  m.peripheral_req = &per_req;
  m.peripheral_resp = &per_resp;
  m.csr_interrupt_inject = &inject;
  m.memory = ram;
  m.init();
  LA = line("watch", 0);
  uint32_t wv = sx_var("word", 0, 2);
  W = 6 | (wv & 2) << 2 | (wv & 1);
  A = LA | W << 2;
  uint32_t mem = sx_var("mem", 0, 32);
  // cache arrays
  for (int s = 0; s < 2; s++) {
    for (int w = 0; w < DCACHE_WAYS_NUM; w++) {
      int k = s * DCACHE_WAYS_NUM + w;
      valid_array[SETS[s]][w] = sx_var("cv", k, 1);
      dirty_array[SETS[s]][w] = sx_var("cd", k, 1);
      tag_array[SETS[s]][w] = sx_var("ct", k, DCACHE_TAG_BITS);
      for (int d = 0; d < DCACHE_WORD_NUM; d++)
        data_array[SETS[s]][w][d] = sx_var("cw", k * 16 + d, 32);
    }
    for (int i = 0; i < DCACHE_PLRU_TREE_BITS; i++)
      plru_tree_state[SETS[s]][i] = sx_var("plru", s * 8 + i, 1);
  }
  // miss registers
  auto &ms = m.mshr_.cur;
  uint32_t n = 0;
  for (int i = 0; i < DCACHE_MSHR_ENTRIES; i++) {
    auto &e = ms.mshr_entries[i];
    e.valid = sx_var("mv", i, 1);
    e.issued = sx_var("mi", i, 1);
    e.addr = line("ma", i);
    e.merged_store_dirty = sx_var("md", i, 1);
    bool any = false;
    for (int d = 0; d < DCACHE_WORD_NUM; d++) {
      e.merged_store_data[d] = sx_var("mw", i * 16 + d, 32);
      e.merged_store_strb[d] = sx_var("mb", i * 16 + d, 4);
      any |= e.merged_store_strb[d] != 0;
    }
    sx_assume(!any || e.merged_store_dirty);
    n += e.valid;
  }
  ms.mshr_count = n;
  ms.axi_resp_hold_valid = sx_var("hv", 0, 1);
  ms.axi_resp_hold_id = sx_var("hi", 0, DCACHE_MSHR_BITS);
  for (int d = 0; d < DCACHE_WORD_NUM; d++)
    ms.axi_resp_hold_data[d] = sx_var("hw", d, 32);
  m.mshr_.nxt = ms;
  // write buffer
  auto &wb = m.wb_.cur;
  uint32_t bc = sx_var("bc", 0, DCACHE_WB_COUNT_BITS), cnt = 0;
  for (uint32_t i = 1; i <= DCACHE_WB_ENTRIES; i++)
    cnt = bc == i ? i : cnt;
  wb.count = cnt;
  wb.head = HEAD < 0 ? sx_var("bh", 0, DCACHE_WB_BITS) : HEAD;
  wb.send = sx_var("bs", 0, 1);
  for (int i = 0; i < DCACHE_WB_ENTRIES; i++) {
    wb.write_buffer[i].addr = line("ba", i);
    for (int d = 0; d < DCACHE_WORD_NUM; d++)
      wb.write_buffer[i].data[d] = sx_var("bw", i * 16 + d, 32);
  }
  m.wb_.nxt = wb;
  // stage registers
  auto &st = m.dcache_.s1s2_cur;
  st.icache_req = NL;
  st.fill_write.valid = ms.axi_resp_hold_valid;
  st.fill_write.id = ms.axi_resp_hold_id;
  st.fill_write.dirty = sx_var("fd", 0, 1);
  uint32_t fa = line("fa", 0);
  st.fill_write.tag = tag_of(fa);
  st.fill_write.set_idx = set_of(fa);
  for (int d = 0; d < DCACHE_WORD_NUM; d++)
    st.fill_write.data[d] = sx_var("fw", d, 32);
  m.fill_out_.valid = st.fill_write.valid;
  m.fill_out_.set_idx = st.fill_write.valid ? set_of(fa) : 0;
  uint32_t ids[NL + NS], addr[NL + NS], data[NS], strb[NS];
  bool val[NL + NS], rep[NL + NS];
  for (int i = 0; i < NL + NS; i++) {
    bool v = val[i] = sx_var("rv", i, 1), r = rep[i] = sx_var("rr", i, 1);
    uint32_t a = addr[i] = word_addr("ra", i);
    ids[i] = sx_var("rid", i, 31);
    auto &meta = m.dcache_resp_meta_cur_[i];
    meta.valid = v;
    meta.addr = a;
    if (i < NL) {
      auto &s = st.loads[i];
      s.valid = v;
      s.addr = a;
      s.req_id = ids[i];
      s.replayed = s.bank_conflict = r;
      m.dcache_wb_io_.bypass_req[i].valid = v && !r;
      m.dcache_wb_io_.bypass_req[i].addr = a;
    } else {
      int k = i - NL;
      auto &s = st.stores[k];
      s.valid = v;
      s.addr = a;
      s.req_id = ids[i];
      s.replayed = s.bank_conflict = r;
      s.data = data[k] = sx_var("sd", k, 32);
      s.strb = strb[k] = sx_var("ss", k, 4);
      m.dcache_wb_io_.merge_req[k] = {v && !r, a, data[k], (uint8_t)strb[k]};
      meta.is_store = true;
      meta.data = data[k];
      meta.strb = strb[k];
    }
    m.dcache_mshr_io_.find_req[i].valid = v && !r;
    m.dcache_mshr_io_.find_req[i].set_idx = set_of(a);
    m.dcache_mshr_io_.find_req[i].tag = tag_of(a);
    m.dcache_line_read_req_[i].set_idx = set_of(a);
  }
  auto &pt = m.ptw_block.cur_;
  auto &rt = m.mem_route_block.cur;
  MemPtwBlock::State pt0;
  bool lost = false;
  uint32_t lost_id = 0;
  if (!LSU) {
    // the last load port's access is not the load unit's
    auto &s = st.loads[NL - 1];
    s.valid = val[NL - 1] = true;
    s.addr = A;
    s.req_id = 1u << 31 | ids[NL - 1];
    m.dcache_resp_meta_cur_[NL - 1].valid = true;
    m.dcache_resp_meta_cur_[NL - 1].addr = A;
    m.dcache_wb_io_.bypass_req[NL - 1].valid = !rep[NL - 1];
    m.dcache_wb_io_.bypass_req[NL - 1].addr = A;
    m.dcache_mshr_io_.find_req[NL - 1].valid = !rep[NL - 1];
    m.dcache_mshr_io_.find_req[NL - 1].set_idx = set_of(A);
    m.dcache_mshr_io_.find_req[NL - 1].tag = tag_of(A);
    m.dcache_line_read_req_[NL - 1].set_idx = set_of(A);
    st.icache_req = OWN == Owner::ICACHE ? NL - 1 : NL;
    rt.issued_tags = {OWN, A, s.req_id};
    rt.ptw_wait.walk = sx_var("pw", 0, 1);
    rt.lsu_replay_valid = lost = sx_var("lost", 0, 1);
    rt.lsu_replay_req_id = lost_id = sx_var("lost", 1, 31);
    rt.next_req_id = 1u << 31 | sx_var("next", 0, 31);
    m.mem_route_block.nxt = rt;
    uint32_t ws = sx_var("ws", 0, 3);
    sx_assume(ws <= 4);
    pt.walk_state = (WS)ws;
    pt.walk_active = ws != 0;
    pt.walk_owner = (MemPtwBlock::Client)sx_var("ws", 1, 1);
    pt.walk_rr_next = (MemPtwBlock::Client)sx_var("ws", 2, 1);
    pt.walk_l1_pte = sx_var("pte1", 0, 32);
    pt.walk_req_id_valid = waiting(pt);
    pt.walk_req_id = 1u << 31 | sx_var("wid", 0, 31);
    pt.walk_drop_resp_credit = sx_var("drop", 0, 32);
    for (int i = 0; i < 2; i++) {
      auto &c = pt.walk_clients[i];
      c.req_pending = sx_var("wp", i, 1);
      c.req_inflight = pt.walk_active && (int)pt.walk_owner == i;
      c.resp_valid = sx_var("wr", i, 1);
      c.req.vaddr = sx_var("wva", i, 32);
      c.req.satp = sx_var("wsatp", i, 32);
      c.req.access_type = sx_var("wat", i, 2);
      c.resp.fault = sx_var("wf", i, 1);
      c.resp.vaddr = sx_var("wrva", i, 32);
      c.resp.leaf_pte = sx_var("wpte", i, 32);
      c.resp.leaf_level = sx_var("wlev", i, 1);
    }
    pt0 = m.ptw_block.nxt_ = pt;
    m.ptw_block.refresh_outputs();
    m.sync_ptw_port_outputs();
    sx_assume(linked(m));
  }
  sx_assume(shape(m));
  View v0 = view(m, mem);
  sx_assume(one_place(m, fa));
  sx_assume(!v0.twice && v0.ok && (!v0.filling || v0.missing));
  sx_assume(P == CACHED ? v0.cached : P == BUFFERED ? v0.buffered : P == FILLING ? v0.filling : P == MISSING ? v0.missing && !v0.filling : !v0.some);

  // the memory behind: a read answers with the memory's content, a write is
  // performed when it is accepted
  uint32_t acc = sx_var("acc", 0, DCACHE_MSHR_BITS), rid = sx_var("rsp", 0, DCACHE_MSHR_BITS);
  m.mshr_axi_in.req_accepted = sx_var("acc", 1, 1);
  m.mshr_axi_in.req_accepted_id = acc;
  m.mshr_axi_in.resp_valid = sx_var("rsp", 1, 1);
  m.mshr_axi_in.resp_id = rid;
  for (int d = 0; d < DCACHE_WORD_NUM; d++)
    m.mshr_axi_in.resp_data[d] = sx_var("rspw", d, 32);
  for (uint32_t i = 0; i < DCACHE_MSHR_ENTRIES; i++) {
    auto &e = ms.mshr_entries[i];
    sx_assume(!(m.mshr_axi_in.req_accepted && acc == i) || (e.valid && !e.issued));
    sx_assume(!(m.mshr_axi_in.resp_valid && rid == i) || (e.valid && (e.issued || (m.mshr_axi_in.req_accepted && acc == i))));
    sx_assume(!(m.mshr_axi_in.resp_valid && rid == i && e.addr == LA) || pick(m.mshr_axi_in.resp_data) == mem);
  }
  m.wb_axi_in.req_accepted = sx_var("wacc", 0, 1);
  m.wb_axi_in.resp_valid = sx_var("wrsp", 0, 1);
  sx_assume(!m.wb_axi_in.req_accepted || (wb.count > 0 && !wb.send));
  sx_assume(!m.wb_axi_in.resp_valid || wb.send || m.wb_axi_in.req_accepted);
  uint32_t mem1 = mem;
  for (uint32_t i = 0; i < DCACHE_WB_ENTRIES; i++)
    mem1 = m.wb_axi_in.req_accepted && wb.head == i && wb.write_buffer[i].addr == LA ? pick(wb.write_buffer[i].data) : mem1;

  // the front end runs before the memory in a cycle; it may have dropped a
  // lookup without waiting for its answer
  bool ic_new = ic_req.req_valid = !LSU && sx_var("icn", 0, 1);
  ic_req.req_addr = word_addr("ica", 0) & ~3u;
  m.comb_outputs();
  bool fill = lsu_resp.mshr_fill && lsu_resp.mshr_fill_addr >> DCACHE_OFFSET_BITS == LA >> DCACHE_OFFSET_BITS;
  uint32_t want = v0.value;
  bool waits = false;
  if (!LSU) {
    auto &r = lsu_resp.resp_ports.load_resps[NL - 1];
    sx_assert((bool)r.valid == lost && (!lost || (r.req_id == lost_id && r.replay == ReplayType::CONFLICT)), "the load that lost its port is told to try again");
  }
  for (int i = 0; i < (LSU ? NL : NL - 1); i++) {
    auto &r = lsu_resp.resp_ports.load_resps[i];
    sx_assert((bool)r.valid == val[i], "a load gets exactly one answer");
    if (!val[i])
      continue;
    sx_assert(r.req_id == ids[i], "the answer names the load");
    if (addr[i] >> 2 == A >> 2 && r.replay == ReplayType::HIT)
      sx_assert(r.data == want, "a load reads the last value stored");
    waits |= addr[i] >> DCACHE_OFFSET_BITS == LA >> DCACHE_OFFSET_BITS && r.replay == ReplayType::MSHR_HIT;
  }
  for (int i = 0; i < NS; i++) {
    auto &r = lsu_resp.resp_ports.store_resps[i];
    sx_assert((bool)r.valid == val[NL + i], "a store gets exactly one answer");
    if (!val[NL + i])
      continue;
    sx_assert(r.req_id == ids[NL + i], "the answer names the store");
    if (addr[NL + i] >> 2 == A >> 2 && r.replay == ReplayType::HIT)
      want = strobe(want, data[i], strb[i]);
    waits |= addr[NL + i] >> DCACHE_OFFSET_BITS == LA >> DCACHE_OFFSET_BITS && r.replay == ReplayType::MSHR_HIT;
  }
  // next requests
  for (int i = 0; i < NL; i++) {
    auto &r = lsu_req.req_ports.load_ports[i];
    r.valid = sx_var("nv", i, 1);
    r.addr = word_addr("na", i);
    r.req_id = sx_var("nid", i, 31);
  }
  for (int i = 0; i < NS; i++) {
    auto &r = lsu_req.req_ports.store_ports[i];
    r.valid = sx_var("nv", NL + i, 1);
    r.addr = word_addr("na", NL + i);
    r.data = sx_var("nd", i, 32);
    r.strb = sx_var("nb", i, 4);
    r.req_id = sx_var("nid", NL + i, 31);
  }
  bool sent[2] = {}, used[2] = {}, flushed[2] = {}, event = false, ic_ans = false;
  PtwWalkReq req[2];
  if (!LSU) {
    // what the translation side does in this cycle
    event = m.ptw_events.valid;
    sx_assert(!event || (OWN == Owner::PTW_WALK && m.ptw_events.owner == OWN && m.ptw_events.data == v0.value), "a page-table entry is read as last stored");
    PtwWalkPort *port[2] = {m.dtlb_walk_port, m.itlb_walk_port};
    for (int i = 0; i < 2; i++) {
      uint32_t op = sx_var("op", i, 2);
      req[i].vaddr = sx_var("qva", i, 32);
      req[i].satp = sx_var("qsatp", i, 32);
      req[i].access_type = sx_var("qat", i, 2);
      used[i] = op == 1 && pt.walk_clients[i].resp_valid;
      flushed[i] = op == 3;
      sx_assert(port[i]->resp_valid() == pt.walk_clients[i].resp_valid, "the client sees its answer");
      if (used[i])
        port[i]->consume_resp();
      if (op == 2)
        sent[i] = port[i]->send_walk_req(req[i]);
      if (flushed[i])
        port[i]->flush_client();
    }
    ic_ans = ic_resp.resp_valid;
    if (OWN == Owner::ICACHE) {
      sx_assert(!ic_resp.resp_valid || ic_resp.resp_miss || ic_resp.resp_data == v0.value, "an instruction-side lookup reads the last value stored");
      sx_assert(!ic_resp.resp_valid || !ic_resp.resp_miss || mem1 == v0.value, "a line is reported absent only when memory is current");
      if (P == MISSING || P == FILLING)
        sx_cover(mem != v0.value, "a line in flight with newer data");
      if (P == NOWHERE)
        sx_cover(ic_resp.resp_valid && ic_resp.resp_miss, "absent");
      else
        sx_cover(ic_resp.resp_valid && !ic_resp.resp_miss, "present");
    } else
      sx_assert(!ic_resp.resp_valid, "no answer without a lookup");
    sx_assert(!ic_new || !ic_ans, "an earlier lookup's answer is not given to a later one");
  }
  m.comb_inputs();
  m.seq();
  if (!LSU) {
    sx_assert(linked(m), "a walk or lookup on the shared port is not lost");
    bool again = OWN == Owner::ICACHE && !ic_ans;
    sx_assert(!ic_new || (rt.issued_tags.owner == Owner::ICACHE && rt.issued_tags.req_addr == ic_req.req_addr), "a lookup gets the port");
    sx_assert(!again || ic_new || (rt.issued_tags.owner == Owner::ICACHE && rt.issued_tags.req_addr == A), "an unanswered lookup is repeated");
    auto &q = lsu_req.req_ports.load_ports[NL - 1];
    bool took = rt.issued_tags.owner != Owner::NONE;
    sx_assert(!took || ((bool)rt.lsu_replay_valid == (bool)q.valid && (!q.valid || rt.lsu_replay_req_id == q.req_id)), "a load that lost its port is remembered");
    sx_assert(took || !q.valid || (st.loads[NL - 1].valid && st.loads[NL - 1].addr == q.addr && st.loads[NL - 1].req_id == q.req_id), "a load keeps its port when nothing else needs it");
    int o = (int)pt0.walk_owner;
    bool mine = event && waiting(pt0), done = false, fault = false, super = false;
    uint32_t e = v0.value;
    if (mine) {
      bool bad = !(e & PV) || ((e & PW) && !(e & PR)), leaf = e & (PR | PX);
      super = !second(pt0);
      fault = bad || (super ? leaf && (e >> 10 & 0x3ff) : !leaf);
      done = fault || leaf;
    }
    for (int i = 0; i < 2; i++) {
      auto &c = pt.walk_clients[i];
      auto &c0 = pt0.walk_clients[i];
      sx_assert(!flushed[i] || (!c.req_pending && !c.req_inflight && !c.resp_valid), "a cancelled client has nothing left");
      sx_assert(sent[i] == (sx_var("op", i, 2) == 2 && !c0.req_pending && !c0.req_inflight), "an idle client can ask");
      if (flushed[i])
        continue;
      bool asked = sent[i] || c0.req_pending;
      if (asked)
        sx_assert((c.req_pending || c.req_inflight) && same(c.req, sent[i] ? req[i] : c0.req), "a request is kept");
      else if (c0.req_inflight && done) {
        sx_assert(c.resp_valid && c.resp.vaddr == c0.req.vaddr && (bool)c.resp.fault == fault, "a finished walk answers its client");
        sx_assert(fault || (c.resp.leaf_pte == e && c.resp.leaf_level == super), "the answer is the leaf entry found");
      } else if (c0.req_inflight)
        sx_assert(c.req_inflight && same(c.req, c0.req) && (second(pt) == (second(pt0) || mine)), "a walk goes on level by level");
      else
        sx_assert(c.resp_valid == (c0.resp_valid && !used[i]) && (!c.resp_valid || same(c.resp, c0.resp)), "an answer stays until it is used");
    }
    if (pt0.walk_active && !done && !flushed[o]) {
      sx_assert(pt.walk_owner == pt0.walk_owner && (!second(pt) || pt.walk_l1_pte == (mine ? e : pt0.walk_l1_pte)), "a walk follows the entry it read");
      bool wants = !waiting(pt0);
      sx_assert(!wants || ic_new || again || OWN == Owner::PTW_WALK || waiting(pt) || rt.issued_tags.owner == Owner::PTW_WALK, "a walk gets the free port");
    }
    if (!pt0.walk_active) {
      bool w0 = sent[0] || pt0.walk_clients[0].req_pending, w1 = sent[1] || pt0.walk_clients[1].req_pending;
      int n = w0 && w1 ? (int)pt0.walk_rr_next : w1;
      sx_assert(!(w0 || w1) || flushed[n] || (pt.walk_active && (int)pt.walk_owner == n && !second(pt)), "a waiting request starts its walk, in turn");
      sx_assert((int)pt.walk_rr_next == ((w0 || w1) ? !n : (int)pt0.walk_rr_next), "the turn passes to the other client");
    }
    if (OWN == Owner::PTW_WALK) {
      if (P == NOWHERE || P == MISSING)
        sx_cover(rt.ptw_wait.walk, "walk waits for a line");
      else {
        sx_cover(done && !fault && super, "superpage");
        sx_cover(done && fault, "fault");
        sx_cover(mine && !done, "next level");
      }
    } else
      sx_cover(!pt0.walk_active && pt.walk_active, "walk starts");
    return;
  }

  // the requests are in the pipeline now, as the state above assumed them
  for (int i = 0; i < NL + NS; i++) {
    bool ld = i < NL, v, r, in;
    uint32_t a, k = i - NL;
    auto &meta = m.dcache_resp_meta_cur_[i];
    if (ld) {
      auto &q = lsu_req.req_ports.load_ports[i];
      auto &s = st.loads[i];
      v = q.valid, r = s.replayed, a = q.addr;
      in = s.addr == a && s.req_id == q.req_id && !meta.is_store;
      in &= r || (m.dcache_wb_io_.bypass_req[i].valid && m.dcache_wb_io_.bypass_req[i].addr == a);
      sx_assert((bool)s.valid == v, "a request enters the pipeline");
    } else {
      auto &q = lsu_req.req_ports.store_ports[k];
      auto &s = st.stores[k];
      auto &g = m.dcache_wb_io_.merge_req[k];
      v = q.valid, r = s.replayed, a = q.addr;
      in = s.addr == a && s.req_id == q.req_id && s.data == q.data && s.strb == q.strb && meta.is_store && meta.data == q.data && meta.strb == q.strb;
      in &= r || (g.valid && g.addr == a && g.data == q.data && g.strb == q.strb);
      sx_assert((bool)s.valid == v, "a request enters the pipeline");
    }
    auto &f = m.dcache_mshr_io_.find_req[i];
    in &= r || (f.valid && f.set_idx == set_of(a) && f.tag == tag_of(a) && m.dcache_line_read_req_[i].set_idx == set_of(a));
    sx_assert(!v || (in && meta.valid && meta.addr == a), "a request enters the pipeline unchanged");
  }
  View v1 = view(m, mem1);
  sx_assert(shape(m), "the counters of the miss registers and the write buffer stay consistent");
  sx_assert(!v1.twice, "a line is in one place");
  sx_assert(!v1.filling || v1.missing, "a fill belongs to a miss");
  sx_assert(v1.ok, "a clean copy equals memory");
  sx_assert(v1.value == want, "completed stores, and only they, change the word");
  sx_assert(!waits || fill || v1.missing, "an access waiting for a fill will be woken");
  if (P == CACHED)
    sx_cover(v1.buffered, "eviction");
  if (P == BUFFERED)
    sx_cover(!v1.buffered, "write back");
  if (P == MISSING)
    sx_cover(v1.filling, "the line arrives");
  if (P == FILLING)
    sx_cover(v1.cached, "fill");
  if (P == NOWHERE)
    sx_cover(v1.missing, "new miss");
  sx_cover(want != v0.value, "a store completes");
}
extern "C" void hx_cached() { cycle<CACHED, 6>(); }
extern "C" void hx_buffered() { cycle<BUFFERED, 6>(); }
extern "C" void hx_missing() { cycle<MISSING, 6>(); }
extern "C" void hx_filling() { cycle<FILLING, 6>(); }
extern "C" void hx_nowhere() { cycle<NOWHERE, 6>(); }
extern "C" void hx_cached_any() { cycle<CACHED, -1>(); }
extern "C" void hx_buffered_any() { cycle<BUFFERED, -1>(); }
extern "C" void hx_missing_any() { cycle<MISSING, -1>(); }
extern "C" void hx_filling_any() { cycle<FILLING, -1>(); }
extern "C" void hx_nowhere_any() { cycle<NOWHERE, -1>(); }
extern "C" void hx_walk_cached() { cycle<CACHED, 6, Owner::PTW_WALK>(); }
extern "C" void hx_walk_buffered() { cycle<BUFFERED, 6, Owner::PTW_WALK>(); }
extern "C" void hx_walk_missing() { cycle<MISSING, 6, Owner::PTW_WALK>(); }
extern "C" void hx_walk_filling() { cycle<FILLING, 6, Owner::PTW_WALK>(); }
extern "C" void hx_walk_nowhere() { cycle<NOWHERE, 6, Owner::PTW_WALK>(); }
extern "C" void hx_probe_cached() { cycle<CACHED, 6, Owner::ICACHE>(); }
extern "C" void hx_probe_buffered() { cycle<BUFFERED, 6, Owner::ICACHE>(); }
extern "C" void hx_probe_missing() { cycle<MISSING, 6, Owner::ICACHE>(); }
extern "C" void hx_probe_filling() { cycle<FILLING, 6, Owner::ICACHE>(); }
extern "C" void hx_probe_nowhere() { cycle<NOWHERE, 6, Owner::ICACHE>(); }
