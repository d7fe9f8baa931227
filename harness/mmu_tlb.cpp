// T01: translation through the TLBs. One clock cycle from an arbitrary TLB that
// agrees with the page tables; an arbitrary page of the current address space
// is watched.
#include <array>
#include <cinttypes>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <vector>
#define private public
#include "TlbMmu.h"
#undef private
#include "sx.h"

long long sim_time = 0;
static SimContext ctx;
constexpr int N = DTLB_ENTRIES;
static_assert(ITLB_ENTRIES == DTLB_ENTRIES, "");

// the page table walker: one request outstanding, answers with the tables'
// content
struct Walker : PtwWalkPort {
  PtwWalkPortCombOut o = {};
  PtwWalkReq req = {};
  int sent = 0, consumed = 0, flushed = 0;
  bool send_walk_req(const PtwWalkReq &r) override {
    if (!o.req_ready)
      return false;
    req = r;
    sent++;
    return true;
  }
  bool resp_valid() const override { return o.resp_valid; }
  PtwWalkResp resp() const override { return o.resp; }
  PtwWalkPortCombOut comb_output() const override { return o; }
  void consume_resp() override {
    consumed++;
    o.resp_valid = false;
  }
  void flush_client() override {
    flushed++;
    o.resp_valid = false;
  }
};
static Walker port;

static uint32_t page, satp, mstatus, priv; // watched page, current address space
static bool bad;                           // the tables do not map the page
static uint32_t pte;                       // its leaf entry
static bool super;
static uint32_t asid(uint32_t s) { return s >> 22 & 0x1ff; }

static bool covers(const TlbMmu::TlbEntry &e) {
  return e.valid && (e.global || e.asid == asid(satp)) && e.vpn1 == page >> 10 && (e.level == 1 || e.vpn0 == (page & 0x3ff));
}
static bool agrees(const TlbMmu::TlbEntry &e) {
  return !covers(e) || (!bad && e.level == super && e.ppn == pte >> 10 && (uint8_t)e.perm == (uint8_t)pte && (bool)e.global == (bool)(pte >> 5 & 1));
}
// what the architecture says about an access to the watched page
static bool allowed(uint32_t type, uint32_t p) {
  bool r = pte >> 1 & 1, w = pte >> 2 & 1, x = pte >> 3 & 1, u = pte >> 4 & 1, a = pte >> 6 & 1, d = pte >> 7 & 1;
  bool sum = mstatus >> 18 & 1, mxr = mstatus >> 19 & 1;
  bool ok = type == 0 ? x : type == 1 ? r || (mxr && x) : w && d;
  return ok && a && (p == 0 ? u : !u || (sum && type != 0));
}
static uint32_t eff(uint32_t type) { return type != 0 && (mstatus >> 17 & 1) ? mstatus >> 11 & 3 : priv; }
static uint32_t target(uint32_t off) {
  uint32_t p = pte >> 10 << 12;
  return super ? (p & 0xffc00000) | (page & 0x3ff) << 12 | off : p | off;
}

static void setup(TlbMmu &m) {
  page = sx_var("page", 0, 20);
  satp = sx_var("satp", 0, 32);
  mstatus = sx_var("mstatus", 0, 32);
  priv = sx_var("priv", 0, 2);
  sx_assume(priv != 2 && (mstatus >> 11 & 3) != 2);
  bad = sx_var("bad", 0, 1);
  pte = sx_var("pte", 0, 32);
  super = sx_var("super", 0, 1);
  sx_assume((pte & 1) && (pte & 10) && ((pte & 2) || !(pte & 4)) && (!super || !(pte >> 10 & 0x3ff)));
  m.set_ptw_walk_port(&port);
  for (int i = 0; i < N; i++) {
    auto &e = m.tlb_entries_[i];
    e.valid = sx_var("v", i, 1);
    e.global = sx_var("g", i, 1);
    e.asid = sx_var("a", i, 9);
    e.level = sx_var("l", i, 1);
    e.vpn1 = sx_var("vp", i, 10);
    e.vpn0 = sx_var("vp", 100 + i, 10);
    e.ppn = sx_var("pp", i, 22);
    e.perm = sx_var("pe", i, 8);
    sx_assume(agrees(e));
  }
  m.repl_ptr_ = sx_var("repl", 0, 4);
  auto &w = m.walk_regs_;
  w.active = sx_var("wa", 0, 1);
  w.req_sent = sx_var("ws", 0, 1);
  w.v_addr = sx_var("wv", 0, 32);
  w.type = sx_var("wt", 0, 2);
  w.satp = sx_var("wp", 0, 32);
  w.eff_priv = sx_var("we", 0, 2);
  w.mxr = sx_var("wm", 0, 1);
  w.sum = sx_var("wu", 0, 1);
  // an address space keeps its tables until a fence
  sx_assume(!w.active || asid(w.satp) != asid(satp) || w.satp == satp);
  port.o.req_ready = sx_var("ready", 0, 1);
  port.o.resp_valid = sx_var("rv", 0, 1);
  auto &r = port.o.resp;
  r.fault = sx_var("rf", 0, 1);
  r.vaddr = (uint32_t)sx_var("ra", 0, 20) << 12;
  r.leaf_pte = sx_var("rp", 0, 32);
  r.leaf_level = sx_var("rl", 0, 1);
  sx_assume(!port.o.resp_valid || (w.active && w.req_sent && r.vaddr >> 12 == w.v_addr >> 12));
  sx_assume(!r.leaf_level || r.fault || !(r.leaf_pte >> 10 & 0x3ff));
  // the tables the walker reads are the ones above
  bool here = w.satp == satp, same = r.vaddr >> 12 == page, around = r.leaf_level && r.vaddr >> 22 == page >> 10;
  sx_assume(!(here && same) || (r.fault ? bad : !bad && r.leaf_pte == pte && (bool)r.leaf_level == super));
  sx_assume(!(!r.fault && (here || (r.leaf_pte >> 5 & 1)) && (same || around)) || (!bad && r.leaf_pte == pte && (bool)r.leaf_level == super));
}
static void after(TlbMmu &m) {
  m.seq();
  bool ok = true;
  for (int i = 0; i < N; i++)
    ok &= agrees(m.tlb_entries_[i]);
  sx_assert(ok, "the TLB agrees with the page tables");
  auto &w = m.walk_regs_;
  sx_assert(!w.active || asid(w.satp) != asid(satp) || w.satp == satp, "walks are for the current tables");
  sx_assert(!m.refill_comb_.valid && !m.walk_comb_valid_, "nothing is left over from the cycle");
  sx_assert(port.sent <= 1 && port.consumed <= 1, "one request, one answer");
  if (port.sent)
    sx_assert(w.active && w.req_sent && port.req.vaddr >> 12 == w.v_addr >> 12 && port.req.satp == w.satp, "a walk is requested for the page and address space that wait for it");
}

static void check(uint32_t type, uint32_t off, bool hit, bool fault, bool miss, uint32_t paddr, TlbMmu &m, bool had) {
  uint32_t p = eff(type), v = page << 12 | off;
  sx_assert(hit + fault + miss == 1, "an access gets one answer");
  if (p == 3 || !(satp >> 31))
    sx_assert(hit && paddr == v, "no translation in machine mode or with translation off");
  else {
    sx_assert(!hit || (!bad && allowed(type, p)), "no access without permission");
    sx_assert(!hit || paddr == target(off), "the tables' physical address");
    sx_assert(!fault || bad || !allowed(type, p), "a fault only if the tables deny the access");
    sx_assert(!miss || !had, "an entry in the TLB answers");
    sx_assert(!miss || port.consumed || (m.walk_comb_valid_ ? m.walk_comb_.active : m.walk_regs_.active), "a miss waits for a walk in flight");
  }
}
static bool present(TlbMmu &m) {
  bool had = false;
  for (int i = 0; i < N; i++)
    had |= covers(m.tlb_entries_[i]);
  return had;
}

static void data(int which) {
  static TlbMmu m(&ctx, nullptr, N, TlbMmu::Kind::DTLB);
  setup(m);
  bool had = present(m);
  LsuMMUIO req = {};
  MMULsuIO resp = {};
  req.csr_status.satp = satp;
  req.csr_status.mstatus = mstatus;
  req.csr_status.privilege = priv;
  for (int i = 0; i < LSU_LDU_COUNT + LSU_STA_COUNT; i++) {
    auto &q = i < LSU_LDU_COUNT ? req.ldq_req[i] : req.stq_req[i - LSU_LDU_COUNT];
    q.valid = i == which || sx_var("qv", i, 1);
    q.vaddr = i == which ? page << 12 | (uint32_t)sx_var("off", 0, 12) : sx_var("qa", i, 32);
    q.entry_idx = sx_var("qe", i, 4);
    q.wait_idx = sx_var("qw", i, 4);
  }
  m.translate_lsu_ports(req, resp);
  bool st = which >= LSU_LDU_COUNT;
  auto &q = st ? req.stq_req[which - LSU_LDU_COUNT] : req.ldq_req[which];
  auto &r = st ? resp.stq_resp[which - LSU_LDU_COUNT] : resp.ldq_resp[which];
  sx_assert(r.valid && r.entry_idx == q.entry_idx && r.wait_idx == q.wait_idx, "the answer names the access");
  bool hit = r.result == MMUResultType::HIT, fault = r.result == MMUResultType::PAGE_FAULT, miss = r.result == MMUResultType::MISS;
  check(st ? 2 : 1, q.vaddr & 0xfff, hit, fault, miss, r.paddr, m, had);
  sx_cover(hit && !had && satp >> 31 && eff(1 + st) != 3, "answered from a walk");
  sx_cover(hit && had && super, "large page");
  sx_cover(fault && had, "denied from the TLB");
  sx_cover(miss && port.sent, "walk");
  after(m);
}
extern "C" void hx_load0() { data(0); }
extern "C" void hx_load1() { data(1); }
extern "C" void hx_store0() { data(LSU_LDU_COUNT); }
extern "C" void hx_store1() { data(LSU_LDU_COUNT + 1); }
extern "C" void hx_fetch() {
  static TlbMmu m(&ctx, nullptr, N, TlbMmu::Kind::ITLB);
  setup(m);
  bool had = present(m);
  CsrStatusIO s;
  s.satp = satp;
  s.mstatus = mstatus;
  s.privilege = priv;
  uint32_t pa = 0, off = sx_var("off", 0, 12);
  auto r = m.translate(pa, page << 12 | off, 0, &s);
  bool hit = r == TlbMmu::Result::OK, fault = r == TlbMmu::Result::FAULT, miss = r == TlbMmu::Result::RETRY;
  check(0, off, hit, fault, miss, pa, m, had);
  sx_cover(hit && !had && satp >> 31 && priv != 3, "answered from a walk");
  sx_cover(hit && had && super, "large page");
  sx_cover(fault && had, "denied from the TLB");
  sx_cover(miss && port.sent, "walk");
  after(m);
}
// a fence and a cancelled walk
static void drop(bool fence, TlbMmu::Kind k) {
  static TlbMmu m(&ctx, nullptr, N, k);
  setup(m);
  bool had = present(m);
  if (fence)
    m.flush();
  else
    m.cancel_pending_walk();
  sx_assert(port.flushed == 1 && port.sent == 0, "the walk in flight is dropped");
  after(m);
  sx_assert(!m.walk_regs_.active, "no walk is in flight");
  if (fence) {
    bool any = false;
    for (auto &e : m.tlb_entries_)
      any |= e.valid;
    sx_assert(!any, "a fence empties the TLB");
  }
  if (!fence)
    sx_cover(had && present(m), "entries survive");
  sx_cover(port.consumed == 0, "no answer yet");
}
extern "C" void hx_fence_d() { drop(true, TlbMmu::Kind::DTLB); }
extern "C" void hx_fence_i() { drop(true, TlbMmu::Kind::ITLB); }
extern "C" void hx_cancel_d() { drop(false, TlbMmu::Kind::DTLB); }
extern "C" void hx_cancel_i() { drop(false, TlbMmu::Kind::ITLB); }
