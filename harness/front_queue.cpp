// F02: the instruction queue in front of decode and the table of fetch groups.
#include <array>
#include <cinttypes>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <vector>
#define private public
#include "PreIduQueue.h"
#include "types.h"
#undef private
#include "sx.h"

static FrontPreIO front;
static IduConsumeIO consume;
static RobBroadcastIO bcast;
static RobCommitIO commit;
static ExuIdIO latch;
static FtqPrfPcReqIO preq;
static FtqRobPcReqIO rreq;
static PreFrontIO pre2front;
static PreIssueIO issue;
static FtqPrfPcRespIO presp;
static FtqRobPcRespIO rresp;
static FtqCommitInfoIO info;
constexpr uint32_t IB = IDU_INST_BUFFER_SIZE, FQ = FTQ_SIZE;

#define FOR_META(X) X(alt_pred, 1) X(altpcpn, 3) X(pcpn, 3) X(sc_used, 1) X(sc_pred, 1) X(sc_sum, 8) X(loop_used, 1) X(loop_hit, 1) X(loop_pred, 1) X(loop_idx, 6) X(loop_tag, 8)

static bool same(const InstructionBufferEntry &a, const InstructionBufferEntry &b) {
  return a.valid == b.valid && a.inst == b.inst && a.pc == b.pc && a.page_fault_inst == b.page_fault_inst && a.ftq_idx == b.ftq_idx && a.ftq_offset == b.ftq_offset && a.ftq_is_last == b.ftq_is_last;
}
template <class A, class B> static bool same_meta(const A &a, const B &b, int i) {
  bool r = true;
#define X(f, w) r &= a.f[i] == b.f[i];
  FOR_META(X)
#undef X
  for (int t = 0; t < BPU_SCL_META_NTABLE; t++)
    r &= a.sc_idx[i][t] == b.sc_idx[i][t];
  for (int t = 0; t < 4; t++)
    r &= a.tage_idx[i][t] == b.tage_idx[i][t] && a.tage_tag[i][t] == b.tage_tag[i][t];
  return r;
}
static bool same_info(const FtqCommitInfoResp &a, const FTQTrainMetaEntry &b, int i) {
  bool r = true;
#define X(f, w) r &= a.f == b.f[i];
  FOR_META(X)
#undef X
  for (int t = 0; t < BPU_SCL_META_NTABLE; t++)
    r &= a.sc_idx[t] == b.sc_idx[i][t];
  for (int t = 0; t < 4; t++)
    r &= a.tage_idx[t] == b.tage_idx[i][t] && a.tage_tag[t] == b.tage_tag[i][t];
  return r;
}
template <class T> static void any_meta(T &m, const char *name, int base) {
  for (int i = 0; i < FETCH_WIDTH; i++) {
    int k = (base * FETCH_WIDTH + i) * 64, n = 0;
#define X(f, w) m.f[i] = sx_var(name, k + n++, w);
    FOR_META(X)
#undef X
    for (int t = 0; t < BPU_SCL_META_NTABLE; t++)
      m.sc_idx[i][t] = sx_var(name, k + n++, 8);
    for (int t = 0; t < 4; t++) {
      m.tage_idx[i][t] = sx_var(name, k + n++, 8);
      m.tage_tag[i][t] = sx_var(name, k + n++, 8);
    }
  }
}
static uint32_t upto(const char *name, uint32_t n, int w) {
  uint32_t v = sx_var(name, 0, w), r = 0;
  for (uint32_t i = 1; i <= n; i++)
    r = v == i ? i : r;
  return r;
}
static bool live(uint32_t i, uint32_t head, uint32_t count) { return ((i - head) & (FQ - 1)) < count; }

static PreIduQueue q;
static InstructionBufferEntry old[IB];
static FTQEntry groups[FQ];
static FTQTrainMetaEntry metas[FQ];
static uint32_t h, c, fh, fc;

static void setup() {
  q.in = {&front, &consume, &bcast, &commit, &latch, &preq, &rreq};
  q.out = {&pre2front, &issue, &presp, &rresp, &info};
  q.init();
  h = sx_var("head", 0, 5);
  c = upto("count", IB, 6);
  for (uint32_t i = 0; i < IB; i++) {
    auto &e = q.ibuf.entries[i];
    e.valid = ((i - h) & (IB - 1)) < c;
    e.inst = sx_var("inst", i, 32);
    e.pc = sx_var("pc", i, 32);
    e.page_fault_inst = sx_var("pf", i, 1);
    e.ftq_idx = sx_var("fi", i, 4);
    e.ftq_offset = sx_var("fo", i, 2);
    e.ftq_is_last = sx_var("fl", i, 1);
    old[i] = e;
  }
  q.ibuf.head_r = h;
  q.ibuf.count_r = c;
  q.ibuf.tail_r = (h + c) % IB;
  fh = sx_var("fhead", 0, 4);
  fc = upto("fcount", FQ, 5);
  q.ftq_head = fh;
  q.ftq_count = fc;
  q.ftq_tail = (fh + fc) % FQ;
  for (uint32_t i = 0; i < FQ; i++) {
    q.ftq_valid[i] = live(i, fh, fc);
    auto &g = q.ftq_lookup_entries[i];
    for (int s = 0; s < FETCH_WIDTH; s++) {
      g.slot_pc[s] = sx_var("gpc", i * 4 + s, 32);
      g.pred_taken_mask[s] = sx_var("gdir", i * 4 + s, 1);
    }
    g.next_pc = sx_var("gnext", i, 32);
    groups[i] = g;
    any_meta(q.ftq_train_meta_fifo[i], "gmeta", i);
    metas[i] = q.ftq_train_meta_fifo[i];
  }
}
static void events(bool squash) {
  for (int i = 0; i < FETCH_WIDTH; i++) {
    front.valid[i] = sx_var("iv", i, 1);
    front.inst[i] = sx_var("ii", i, 32);
    front.pc[i] = sx_var("ip", i, 32);
    front.page_fault_inst[i] = sx_var("if", i, 1);
    front.predict_dir[i] = sx_var("id", i, 1);
    front.predict_next_fetch_address[i] = sx_var("in", 0, 32);
  }
  any_meta(front, "imeta", 0);
  bcast.flush = squash && sx_var("flush", 0, 1);
  latch.mispred = squash && sx_var("mispred", 0, 1);
  latch.ftq_idx = sx_var("mi", 0, 4);
  sx_assume(!latch.mispred || live(latch.ftq_idx, fh, fc));
  uint32_t cur = fh, left = fc;
  for (int i = 0; i < COMMIT_WIDTH; i++) {
    auto &e = commit.commit_entry[i];
    e.valid = !latch.mispred && sx_var("cv", i, 1);
    sx_assume(!e.valid || left > 0);
    e.uop.ftq_idx = cur;
    e.uop.ftq_offset = sx_var("co", i, 2);
    e.uop.ftq_is_last = sx_var("cl", i, 1);
    bool pop = e.valid && e.uop.ftq_is_last;
    cur = (cur + pop) & (FQ - 1);
    left -= pop;
  }
}
static void run() {
  q.comb_begin();
  bool prefix = true;
  for (int i = 0; i < DECODE_WIDTH; i++) {
    prefix &= (uint32_t)i < c && sx_var("fire", i, 1);
    consume.fire[i] = prefix;
  }
  q.comb_accept_front();
  q.comb_ftq_lookup_rob();
  q.comb_commit_info();
  q.comb_ftq_lookup_prf();
  q.comb_fire();
  q.seq();
}

// the queue of instructions
static void queue(bool squash) {
  setup();
  events(squash);
  run();
  for (uint32_t i = 0; i < DECODE_WIDTH; i++) {
    bool v = i < c;
    sx_assert((bool)issue.entries[i].valid == v, "decode is offered the oldest instructions");
    sx_assert(!v || same(issue.entries[i], old[(h + i) % IB]), "instructions are offered in order, unchanged");
  }
  uint32_t n = 0, p = 0;
  bool kill = bcast.flush || latch.mispred, all = true, none = true;
  for (int i = 0; i < FETCH_WIDTH; i++) {
    n += front.valid[i];
    all &= pre2front.fire[i] == front.valid[i];
    none &= !pre2front.fire[i];
  }
  for (int i = 0; i < DECODE_WIDTH; i++)
    p += consume.fire[i];
  bool take = n > 0 && !none;
  sx_assert(all || none, "a group is accepted whole or not at all");
  sx_assert(!take || pre2front.ready, "only an announced acceptance takes effect");
  sx_assert(!pre2front.ready || n == 0 || take, "an announced acceptance takes effect");
  sx_assert(!take || (!kill && c + n <= IB && fc < FQ), "a group is accepted only with room for it and without a squash");
  sx_assert(kill || c > 0 || fc > 0 || pre2front.ready, "an empty queue accepts");
  uint32_t nc = kill ? 0 : c - p + (take ? n : 0);
  sx_assert((uint32_t)q.ibuf.count() == nc, "the queue holds what arrived and was not consumed");
  uint32_t k = sx_var("k", 0, 5);
  if (k < nc) {
    auto &e = q.ibuf.entries[(q.ibuf.head_r + k) % IB];
    if (k < c - p)
      sx_assert(same(e, old[(h + p + k) % IB]), "waiting instructions keep their order and content");
    else {
      uint32_t j = k - (c - p), at = 0, seen = 0, last = 0;
      for (uint32_t i = 0; i < FETCH_WIDTH; i++)
        if (front.valid[i]) {
          at = seen == j ? i : at;
          seen++;
          last = i;
        }
      InstructionBufferEntry w;
      w.valid = true;
      w.inst = front.inst[at];
      w.pc = front.pc[at];
      w.page_fault_inst = front.page_fault_inst[at];
      w.ftq_idx = (fh + fc) & (FQ - 1);
      w.ftq_offset = at;
      w.ftq_is_last = at == last;
      sx_assert(same(e, w), "arriving instructions join in order with their group");
    }
  }
  sx_assert((uint32_t)q.ibuf.tail_r == (q.ibuf.head_r + nc) % IB && (uint32_t)q.ibuf.head_r < IB, "the queue stays consistent");
  sx_cover(take && p == 2 && n == 4, "arrival and consumption");
  if (squash)
    sx_cover(kill, "squash");
}
extern "C" void hx_queue() { queue(false); }
extern "C" void hx_queue_squash() { queue(true); }

// the table of groups
static void table(bool squash) {
  setup();
  events(squash);
  run();
  uint32_t pops = 0;
  bool take = false;
  for (int i = 0; i < COMMIT_WIDTH; i++)
    pops += commit.commit_entry[i].valid && commit.commit_entry[i].uop.ftq_is_last;
  for (int i = 0; i < FETCH_WIDTH; i++)
    take |= pre2front.fire[i];
  uint32_t nh = (fh + pops) & (FQ - 1), nc = fc - pops + take, ni = (fh + fc) & (FQ - 1);
  if (latch.mispred)
    nh = fh, nc = ((latch.ftq_idx - fh) & (FQ - 1)) + 1;
  if (bcast.flush)
    nh = q.ftq_head, nc = 0;
  sx_assert(q.ftq_head == nh && q.ftq_count == nc && q.ftq_tail == ((nh + nc) & (FQ - 1)), "exactly the completed and the squashed groups leave");
  uint32_t x = sx_var("x", 0, 4), s = sx_var("s", 0, 2);
  bool lx = live(x, nh, nc);
  sx_assert((bool)q.ftq_valid[x] == lx, "a group is valid while it is in the table");
  if (lx) {
    auto &g = q.ftq_lookup_entries[x];
    auto &m = q.ftq_train_meta_fifo[x];
    if (take && x == ni) {
      sx_assert(g.slot_pc[s] == front.pc[s] && g.pred_taken_mask[s] == front.predict_dir[s] && g.next_pc == front.predict_next_fetch_address[0], "a new group records its addresses and predictions");
      sx_assert(same_meta(m, front, s), "a new group records the predictor's data");
    } else {
      sx_assert(live(x, fh, fc), "no group appears from nowhere");
      sx_assert(g.slot_pc[s] == groups[x].slot_pc[s] && g.pred_taken_mask[s] == groups[x].pred_taken_mask[s] && g.next_pc == groups[x].next_pc, "a group keeps its addresses and predictions");
      sx_assert(same_meta(m, metas[x], s), "a group keeps the predictor's data");
    }
  }
  sx_cover(take && pops == 2, "arrival and departure");
  if (squash)
    sx_cover(latch.mispred && nc < fc && nc > 1, "squash of some groups");
}
extern "C" void hx_table() { table(false); }
extern "C" void hx_table_squash() { table(true); }

extern "C" void hx_lookup() {
  setup();
  events(true);
  for (int i = 0; i < FTQ_PRF_PC_PORT_NUM; i++) {
    preq.req[i].valid = sx_var("pv", i, 1);
    preq.req[i].ftq_idx = sx_var("pi", i, 4);
    preq.req[i].ftq_offset = sx_var("po", i, 2);
  }
  for (int i = 0; i < FTQ_ROB_PC_PORT_NUM; i++) {
    rreq.req[i].valid = sx_var("rv", i, 1);
    rreq.req[i].ftq_idx = sx_var("ri", i, 4);
    rreq.req[i].ftq_offset = sx_var("ro", i, 2);
  }
  run();
  for (int i = 0; i < FTQ_PRF_PC_PORT_NUM + FTQ_ROB_PC_PORT_NUM; i++) {
    auto &r = i < FTQ_PRF_PC_PORT_NUM ? preq.req[i] : rreq.req[i - FTQ_PRF_PC_PORT_NUM];
    auto &o = i < FTQ_PRF_PC_PORT_NUM ? presp.resp[i] : rresp.resp[i - FTQ_PRF_PC_PORT_NUM];
    sx_assert((bool)o.valid == (bool)r.valid, "every lookup is answered");
    if (r.valid && live(r.ftq_idx, fh, fc)) {
      auto &g = groups[r.ftq_idx];
      sx_assert(o.entry_valid && o.pc == g.slot_pc[r.ftq_offset] && o.pred_taken == g.pred_taken_mask[r.ftq_offset] && o.next_pc == g.next_pc, "a lookup returns the instruction's address and prediction");
    }
    if (r.valid && !live(r.ftq_idx, fh, fc))
      sx_assert(!o.entry_valid, "a group that is gone is reported so");
  }
  for (int i = 0; i < COMMIT_WIDTH; i++) {
    auto &e = commit.commit_entry[i];
    if (!e.valid)
      continue;
    uint32_t x = e.uop.ftq_idx, s = e.uop.ftq_offset;
    sx_assert(info.resp[i].pc == groups[x].slot_pc[s] && info.resp[i].pred_taken == groups[x].pred_taken_mask[s], "a retired instruction is reported with its address and prediction");
    sx_assert(same_info(info.resp[i], metas[x], s), "a retired instruction is reported with the predictor's data");
  }
  sx_cover(commit.commit_entry[0].valid && commit.commit_entry[1].valid && commit.commit_entry[0].uop.ftq_is_last, "two groups retire");
}
