// I01: issue. One clock cycle of the issue stage from an arbitrary content of
// one issue queue and of the pending wake-ups.
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstring>
#include <deque>
#include <string>
#include <vector>
#define private public
#include "Isu.h"
#undef private
#include "sx.h"
long long sim_time = 0;
static SimContext ctx;
static Isu isu(&ctx);
static DisIssIO dis2iss;
static PrfAwakeIO prf_awake;
static ExeIssIO exe2iss;
static RobBroadcastIO rob_bcast;
static DecBroadcastIO dec_bcast;
static IssPrfIO iss2prf;
static IssDisIO iss2dis;
static IssAwakeIO iss_awake;

static const int NENQ = DECODE_WIDTH;
struct Op {
  bool valid;
  IqStoredUop u;
};
static uint64_t kinds[IQ_NUM];

static IqStoredUop any_uop(const char *n, int i, int q) {
  IqStoredUop u;
  u.rob_idx = sx_var(n, i * 32 + 0, ROB_IDX_WIDTH);
  u.rob_flag = sx_var(n, i * 32 + 1, 1);
  u.src1_preg = sx_var(n, i * 32 + 2, PRF_IDX_WIDTH);
  u.src2_preg = sx_var(n, i * 32 + 3, PRF_IDX_WIDTH);
  u.dest_preg = sx_var(n, i * 32 + 4, PRF_IDX_WIDTH);
  u.src1_en = sx_var(n, i * 32 + 5, 1);
  u.src2_en = sx_var(n, i * 32 + 6, 1);
  u.src1_busy = sx_var(n, i * 32 + 7, 1);
  u.src2_busy = sx_var(n, i * 32 + 8, 1);
  u.dest_en = sx_var(n, i * 32 + 9, 1);
  u.br_mask = sx_var(n, i * 32 + 10, BR_MASK_WIDTH);
  u.imm = sx_var(n, i * 32 + 11, 32);
  u.func3 = sx_var(n, i * 32 + 12, 3);
  u.func7 = sx_var(n, i * 32 + 13, 7);
  u.op = sx_var(n, i * 32 + 14, UOP_TYPE_WIDTH);
  u.stq_idx = sx_var(n, i * 32 + 15, STQ_IDX_WIDTH);
  u.stq_flag = sx_var(n, i * 32 + 16, 1);
  u.ldq_idx = sx_var(n, i * 32 + 17, LDQ_IDX_WIDTH);
  u.br_id = sx_var(n, i * 32 + 18, BR_TAG_WIDTH);
  u.csr_idx = sx_var(n, i * 32 + 19, CSR_IDX_WIDTH);
  u.ftq_idx = sx_var(n, i * 32 + 20, FTQ_IDX_WIDTH);
  u.ftq_offset = sx_var(n, i * 32 + 21, FTQ_OFFSET_WIDTH);
  u.is_atomic = sx_var(n, i * 32 + 22, 1);
  u.src1_is_pc = sx_var(n, i * 32 + 23, 1);
  u.src2_is_imm = sx_var(n, i * 32 + 24, 1);
  sx_assume(u.op < MAX_UOP_TYPE && (kinds[q] >> u.op & 1));
  return u;
}
template <class A, class B> static bool same(const A &a, const B &b) {
  return a.dest_preg == b.dest_preg && a.src1_preg == b.src1_preg && a.src2_preg == b.src2_preg && a.ftq_idx == b.ftq_idx &&
         a.ftq_offset == b.ftq_offset && a.is_atomic == b.is_atomic && a.dest_en == b.dest_en && a.src1_en == b.src1_en &&
         a.src2_en == b.src2_en && a.src1_is_pc == b.src1_is_pc && a.src2_is_imm == b.src2_is_imm && a.func3 == b.func3 &&
         a.func7 == b.func7 && a.imm == b.imm && a.br_id == b.br_id && a.csr_idx == b.csr_idx && a.rob_idx == b.rob_idx &&
         a.stq_idx == b.stq_idx && a.stq_flag == b.stq_flag && a.ldq_idx == b.ldq_idx && a.rob_flag == b.rob_flag && a.op == b.op;
}
static bool ready(const IqStoredUop &u) { return !(u.src1_en && u.src1_busy) && !(u.src2_en && u.src2_busy); }
// cycles from issue until the result can be read
static int latency(const IqStoredUop &u) {
  if (u.op == UOP_MUL)
    return MUL_MAX_LATENCY;
  if (u.op == UOP_DIV)
    return DIV_MAX_LATENCY;
  if (u.op != UOP_FP)
    return 1;
  uint32_t f = u.func7;
  return f >> 2 == 2 ? 3 : f >> 2 == 3 || f == 0x2c ? 10 : f == 0x60 || f == 0x68 ? 3 : 5;
}
struct Slot {
  bool v;
  int cd;
  uint32_t preg, mask;
};

// what each waiting operation may do in this cycle
enum { IDLE, ANY, P0, P1 }; // empty or not ready; ready for any/the first/the second port
template <int Q, int K> static void step(int pat) {
  isu.in = {&dis2iss, &prf_awake, &exe2iss, &rob_bcast, &dec_bcast};
  isu.out = {&iss2prf, &iss2dis, &iss_awake};
  isu.init();
  uint64_t cap[ISSUE_WIDTH];
  for (int p = 0; p < ISSUE_WIDTH; p++)
    cap[p] = GLOBAL_ISSUE_PORT_CONFIG[p].support_mask;
  for (int q = 0; q < IQ_NUM; q++) {
    kinds[q] = 0;
    for (auto &b : isu.configs[q].ports)
      kinds[q] |= b.capability_mask;
    IssueQueueConfig c = isu.configs[q];
    c.size = q == Q ? K : 1;
    isu.iqs[q] = IssueQueue(c);
  }
  IssueQueue &iq = isu.iqs[Q];
  Op e[K], w[NENQ];
  int cnt = 0;
  for (int i = 0; i < K; i++) {
    e[i].valid = sx_var("valid", i, 1);
    e[i].u = any_uop("e", i, Q);
    int st = Q == IQ_INT ? pat >> (2 * i) & 3 : pat >> i & 1;
    sx_assume(st == IDLE ? !e[i].valid || !ready(e[i].u) : e[i].valid && ready(e[i].u));
    bool f0 = cap[isu.configs[Q].ports[0].port_idx] >> e[i].u.op & 1, f1 = cap[isu.configs[Q].ports[1].port_idx] >> e[i].u.op & 1;
    sx_assume(Q != IQ_INT || st == IDLE || (st == ANY ? f0 && f1 : st == P0 ? f0 && !f1 : f1 && !f0));
    iq.entry[i].valid = e[i].valid;
    iq.entry[i].uop = e[i].u;
    cnt += e[i].valid;
  }
  iq.count = cnt;
  for (int r = 0; r < PRF_NUM; r++) {
    uint64_t a = 0, b = 0;
    for (int i = 0; i < K; i++) {
      a |= (uint64_t)(e[i].valid && e[i].u.src1_en && e[i].u.src1_busy && e[i].u.src1_preg == r) << i;
      b |= (uint64_t)(e[i].valid && e[i].u.src2_en && e[i].u.src2_busy && e[i].u.src2_preg == r) << i;
    }
    iq.wake_matrix_src1[r] = a;
    iq.wake_matrix_src2[r] = b;
  }
  int enq = 0;
  for (int i = 0; i < NENQ; i++) {
    w[i].valid = sx_var("nvalid", i, 1);
    w[i].u = any_uop("n", i, Q);
    enq += w[i].valid;
    auto &d = dis2iss.req[Q][i];
    d.valid = w[i].valid;
#define F(x) d.uop.x = w[i].u.x;
    F(rob_idx) F(rob_flag) F(src1_preg) F(src2_preg) F(dest_preg) F(src1_en) F(src2_en) F(src1_busy) F(src2_busy) F(dest_en) F(br_mask)
    F(imm) F(func3) F(func7) F(op) F(stq_idx) F(stq_flag) F(ldq_idx) F(br_id) F(csr_idx) F(ftq_idx) F(ftq_offset) F(is_atomic) F(src1_is_pc) F(src2_is_imm)
#undef F
  }
  sx_assume(cnt + enq <= K); // dispatch sends no more than the announced room
  // operations are told apart by their reorder buffer entry
  for (int i = 0; i < K + NENQ; i++)
    for (int j = 0; j < i; j++) {
      const Op &a = i < K ? e[i] : w[i - K], &b = j < K ? e[j] : w[j - K];
      sx_assume(!(a.valid && b.valid && a.u.rob_idx == b.u.rob_idx));
    }
  // pending wake-ups
  Slot dv = {(bool)sx_var("dv", 0, 1), (int)sx_var("dv", 1, 5), (uint32_t)sx_var("dv", 2, PRF_IDX_WIDTH), (uint32_t)sx_var("dv", 3, BR_MASK_WIDTH)};
  Slot fp = {(bool)sx_var("fp", 0, 1), (int)sx_var("fp", 1, 5), (uint32_t)sx_var("fp", 2, PRF_IDX_WIDTH), (uint32_t)sx_var("fp", 3, BR_MASK_WIDTH)};
  Slot mu = {(bool)sx_var("mu", 0, 1), 0, (uint32_t)sx_var("mu", 2, PRF_IDX_WIDTH), (uint32_t)sx_var("mu", 3, BR_MASK_WIDTH)};
  static_assert(ISU_DIV_WAKE_SLOT_NUM == 1 && ISU_FP_WAKE_SLOT_NUM == 1 && ISU_MUL_WAKE_SLOT_NUM == 1 && ISU_MUL_WAKE_DEPTH == 1, "");
  auto put = [](auto &s, const Slot &x) {
    s.valid = x.v;
    s.dest_preg = x.preg;
    s.br_mask = x.mask;
  };
  put(isu.div_wake_slots[0], dv);
  isu.div_wake_slots[0].countdown = dv.cd;
  put(isu.fp_wake_slots[0], fp);
  isu.fp_wake_slots[0].countdown = fp.cd;
  put(isu.mul_wake_pipe[0][0], mu);
  for (int i = 0; i < LSU_LOAD_WB_WIDTH; i++) {
    prf_awake.wake[i].valid = sx_var("ldw", i, 1);
    prf_awake.wake[i].preg = sx_var("ldp", i, PRF_IDX_WIDTH);
  }
  rob_bcast.flush = sx_var("flush", 0, 1);
  dec_bcast.mispred = sx_var("mis", 0, 1);
  dec_bcast.br_mask = sx_var("misbit", 0, BR_MASK_WIDTH);
  dec_bcast.clear_mask = sx_var("clear", 0, BR_MASK_WIDTH);
  // what the execution units accept: a divider or FP unit is free only after
  // its previous result has been announced
  uint64_t acc[ISSUE_WIDTH];
  for (int p = 0; p < ISSUE_WIDTH; p++) {
    acc[p] = sx_var("acc", p, MAX_UOP_TYPE) & cap[p];
    if (dv.v && dv.cd > 0)
      acc[p] &= ~OP_MASK_DIV;
    if (fp.v && fp.cd > 0)
      acc[p] &= ~OP_MASK_FP;
    exe2iss.fu_ready_mask[p] = acc[p];
  }
  bool blocked = rob_bcast.flush || dec_bcast.mispred;

  isu.comb_begin();
  isu.comb_ready();
  sx_assert(iss2dis.ready_num[Q] == K - cnt, "announced room");
  isu.comb_issue();
  isu.comb_awake();
  isu.comb_calc_latency_next();
  isu.comb_enq();
  isu.comb_flush();
  isu.seq();

  // issued operations
  bool gone[K] = {};
  for (int p = 0; p < ISSUE_WIDTH; p++) {
    auto &g = iss2prf.iss_entry[p];
    bool ok = !g.valid;
    for (int i = 0; i < K; i++) {
      bool me = g.valid && e[i].valid && same(g.uop, e[i].u) && g.uop.br_mask == e[i].u.br_mask;
      ok = ok || (me && !gone[i] && ready(e[i].u) && (cap[p] >> e[i].u.op & 1) && (acc[p] >> e[i].u.op & 1) && !blocked);
      gone[i] = gone[i] || me;
    }
    sx_assert(ok, "only a waiting operation with its operands ready issues, once, to a port that takes it");
  }
  bool all = !blocked;
  for (auto &b : isu.configs[Q].ports)
    all = all && acc[b.port_idx] == cap[b.port_idx];
  for (auto &b : isu.configs[Q].ports) {
    int p = b.port_idx;
    if (all && !iss2prf.iss_entry[p].valid)
      for (int i = 0; i < K; i++)
        sx_assert(!(e[i].valid && ready(e[i].u) && (cap[p] >> e[i].u.op & 1)) || gone[i], "with all units free no port is left idle while an operation for it is ready");
  }
  // wake-ups
  uint32_t q = sx_var("probe", 0, PRF_IDX_WIDTH);
  bool want = (dv.v && dv.cd == 0 && dv.preg == q) || (fp.v && fp.cd == 0 && fp.preg == q) || (mu.v && mu.preg == q);
  for (int i = 0; i < LSU_LOAD_WB_WIDTH; i++)
    want = want || (prf_awake.wake[i].valid && prf_awake.wake[i].preg == q);
  for (int i = 0; i < K; i++)
    want = want || (gone[i] && e[i].u.dest_en && e[i].u.dest_preg == q && latency(e[i].u) == 1 && (kinds[Q] & OP_MASK_ALU));
  bool woken = false;
  for (int i = 0; i < MAX_WAKEUP_PORTS; i++)
    woken = woken || (iss_awake.wake[i].valid && iss_awake.wake[i].preg == q);
  sx_assert(woken || !want, "every result that becomes readable is announced");
  sx_assert(!woken || want, "nothing else is announced");
  // what is left
  int left = 0;
  for (int i = 0; i < K + NENQ; i++) {
    const Op &o = i < K ? e[i] : w[i - K];
    bool stay = o.valid && !(i < K && gone[i]) && !rob_bcast.flush && !(dec_bcast.mispred && (o.u.br_mask & dec_bcast.br_mask));
    left += stay;
    int found = 0;
    bool good = true;
    bool hit1 = false, hit2 = false;
    for (int k = 0; k < MAX_WAKEUP_PORTS; k++) {
      hit1 = hit1 || (iss_awake.wake[k].valid && iss_awake.wake[k].preg == o.u.src1_preg);
      hit2 = hit2 || (iss_awake.wake[k].valid && iss_awake.wake[k].preg == o.u.src2_preg);
    }
    for (int k = 0; k < K; k++) {
      bool me = iq.entry[k].valid && iq.entry[k].uop.rob_idx == o.u.rob_idx;
      auto &n = iq.entry[k].uop;
      found += me;
      good = good && (!me || (same(n, o.u) && n.br_mask == (o.u.br_mask & ~dec_bcast.clear_mask)));
      good = good && (!me || !o.u.src1_en || n.src1_busy == (o.u.src1_busy && !hit1));
      good = good && (!me || !o.u.src2_en || n.src2_busy == (o.u.src2_busy && !hit2));
    }
    sx_assert(!o.valid || found == (stay ? 1 : 0), "an operation waits until it issues or is squashed");
    sx_assert(!stay || good, "a waiting operation changes only by wake-ups and resolved branches");
  }
  int cnt1 = 0;
  bool rows = true;
  for (int k = 0; k < K; k++) {
    auto &n = iq.entry[k];
    cnt1 += n.valid;
    rows = rows && (iq.wake_matrix_src1[q] >> k & 1) == (uint64_t)(n.valid && n.uop.src1_en && n.uop.src1_busy && n.uop.src1_preg == q);
    rows = rows && (iq.wake_matrix_src2[q] >> k & 1) == (uint64_t)(n.valid && n.uop.src2_en && n.uop.src2_busy && n.uop.src2_preg == q);
  }
  sx_assert(cnt1 == left && iq.count == left, "number of waiting operations");
  sx_assert(rows, "every waiting operand is registered for its wake-up");
  // pending wake-ups afterwards
  auto age = [&](Slot s, int op) {
    s.v = s.v && s.cd > 0;
    s.cd = s.cd - 1;
    for (int i = 0; i < K; i++)
      if (gone[i] && e[i].u.op == op && e[i].u.dest_en)
        s = {true, latency(e[i].u) - 1, e[i].u.dest_preg, e[i].u.br_mask};
    s.v = s.v && !rob_bcast.flush && !(dec_bcast.mispred && (s.mask & dec_bcast.br_mask));
    s.mask &= ~dec_bcast.clear_mask;
    return s;
  };
  auto is = [](const auto &s, const Slot &x) { return s.valid == x.v && (!x.v || (s.dest_preg == x.preg && s.br_mask == x.mask)); };
  Slot d1 = age(dv, UOP_DIV), f1 = age(fp, UOP_FP), m1 = age(mu, UOP_MUL);
  sx_assert(is(isu.div_wake_slots[0], d1) && (!d1.v || isu.div_wake_slots[0].countdown == d1.cd), "division is announced after its latency unless squashed");
  sx_assert(is(isu.fp_wake_slots[0], f1) && (!f1.v || isu.fp_wake_slots[0].countdown == f1.cd), "floating point result is announced after its latency unless squashed");
  sx_assert(is(isu.mul_wake_pipe[0][0], m1), "product is announced after its latency unless squashed");
  int ports = 0;
  for (int p = 0; p < ISSUE_WIDTH; p++)
    ports += iss2prf.iss_entry[p].valid;
  int nready = 0;
  for (int i = 0; i < K; i++)
    nready += (Q == IQ_INT ? pat >> (2 * i) & 3 : pat >> i & 1) != IDLE;
  sx_cover(nready == 0 || ports >= 1, "issue");
  sx_cover(nready == K || left + ports >= 2, "operations wait");
  sx_observe("cnt", 0, iq.count);
}
#define C1(q, k, n) extern "C" void hx_##q##k##_##n() { step<IQ_##q, k>(n); }
C1(INT, 2, 0) C1(INT, 2, 1) C1(INT, 2, 2) C1(INT, 2, 3) C1(INT, 2, 4) C1(INT, 2, 5) C1(INT, 2, 6) C1(INT, 2, 7)
C1(INT, 2, 8) C1(INT, 2, 9) C1(INT, 2, 10) C1(INT, 2, 11) C1(INT, 2, 12) C1(INT, 2, 13) C1(INT, 2, 14) C1(INT, 2, 15)
C1(INT, 3, 0) C1(INT, 3, 1) C1(INT, 3, 2) C1(INT, 3, 3) C1(INT, 3, 4) C1(INT, 3, 5) C1(INT, 3, 6) C1(INT, 3, 7)
C1(INT, 3, 8) C1(INT, 3, 9) C1(INT, 3, 10) C1(INT, 3, 11) C1(INT, 3, 12) C1(INT, 3, 13) C1(INT, 3, 14) C1(INT, 3, 15)
C1(INT, 3, 16) C1(INT, 3, 17) C1(INT, 3, 18) C1(INT, 3, 19) C1(INT, 3, 20) C1(INT, 3, 21) C1(INT, 3, 22) C1(INT, 3, 23)
C1(INT, 3, 24) C1(INT, 3, 25) C1(INT, 3, 26) C1(INT, 3, 27) C1(INT, 3, 28) C1(INT, 3, 29) C1(INT, 3, 30) C1(INT, 3, 31)
C1(INT, 3, 32) C1(INT, 3, 33) C1(INT, 3, 34) C1(INT, 3, 35) C1(INT, 3, 36) C1(INT, 3, 37) C1(INT, 3, 38) C1(INT, 3, 39)
C1(INT, 3, 40) C1(INT, 3, 41) C1(INT, 3, 42) C1(INT, 3, 43) C1(INT, 3, 44) C1(INT, 3, 45) C1(INT, 3, 46) C1(INT, 3, 47)
C1(INT, 3, 48) C1(INT, 3, 49) C1(INT, 3, 50) C1(INT, 3, 51) C1(INT, 3, 52) C1(INT, 3, 53) C1(INT, 3, 54) C1(INT, 3, 55)
C1(INT, 3, 56) C1(INT, 3, 57) C1(INT, 3, 58) C1(INT, 3, 59) C1(INT, 3, 60) C1(INT, 3, 61) C1(INT, 3, 62) C1(INT, 3, 63)
C1(LD, 4, 0) C1(LD, 4, 1) C1(LD, 4, 2) C1(LD, 4, 3) C1(LD, 4, 4) C1(LD, 4, 5) C1(LD, 4, 6) C1(LD, 4, 7) C1(LD, 4, 8) C1(LD, 4, 9) C1(LD, 4, 10) C1(LD, 4, 11) C1(LD, 4, 12) C1(LD, 4, 13) C1(LD, 4, 14) C1(LD, 4, 15)
C1(LD, 2, 0) C1(LD, 2, 1) C1(LD, 2, 2) C1(LD, 2, 3)
C1(LD, 3, 0) C1(LD, 3, 1) C1(LD, 3, 2) C1(LD, 3, 3) C1(LD, 3, 4) C1(LD, 3, 5) C1(LD, 3, 6) C1(LD, 3, 7)
C1(STA, 2, 0) C1(STA, 2, 1) C1(STA, 2, 2) C1(STA, 2, 3)
C1(STA, 3, 0) C1(STA, 3, 1) C1(STA, 3, 2) C1(STA, 3, 3) C1(STA, 3, 4) C1(STA, 3, 5) C1(STA, 3, 6) C1(STA, 3, 7)
C1(STD, 2, 0) C1(STD, 2, 1) C1(STD, 2, 2) C1(STD, 2, 3)
C1(STD, 3, 0) C1(STD, 3, 1) C1(STD, 3, 2) C1(STD, 3, 3) C1(STD, 3, 4) C1(STD, 3, 5) C1(STD, 3, 6) C1(STD, 3, 7)
C1(BR, 2, 0) C1(BR, 2, 1) C1(BR, 2, 2) C1(BR, 2, 3)
C1(BR, 3, 0) C1(BR, 3, 1) C1(BR, 3, 2) C1(BR, 3, 3) C1(BR, 3, 4) C1(BR, 3, 5) C1(BR, 3, 6) C1(BR, 3, 7)
