// N02: branch tags. The state stands for the set of unresolved branches in age
// order (age[t] is the rank of the branch holding tag t).
#include "Idu.h"
#include "sx.h"
long long sim_time = 0;
static SimContext ctx;
static Idu idu(&ctx, MAX_BR_PER_CYCLE);
static PreIduIssueIO issue_;
static RenDecIO ren2dec;
static RobBroadcastIO rob_bcast;
static ExuIdIO exu2id;
static DecRenIO dec2ren;
static DecBroadcastIO dec_bcast;
static IduConsumeIO consume;
static const uint32_t ALL = (1u << BR_MASK_WIDTH) - 1;

static bool live[MAX_BR_NUM];
static uint32_t age[MAX_BR_NUM];
static uint32_t upto(int t) { // unresolved branches not younger than t
  uint32_t m = 0;
  for (int u = 1; u < MAX_BR_NUM; u++)
    m |= live[u] && age[u] <= age[t] ? 1u << u : 0;
  return m;
}
static uint32_t inst0[DECODE_WIDTH];

template <int KIND0, int KIND1> static void step() {
  idu.in = {&issue_, &ren2dec, &rob_bcast, &exu2id};
  idu.out = {&dec2ren, &dec_bcast, &consume};
  idu.init();
  uint32_t now = 0;
  for (int t = 1; t < MAX_BR_NUM; t++) {
    live[t] = sx_var("live", t, 1);
    age[t] = sx_var("age", t, 5);
    sx_assume(age[t] < MAX_BR_NUM);
    for (int u = 1; u < t; u++)
      sx_assume(!(live[t] && live[u] && age[t] == age[u]));
    now |= live[t] ? 1u << t : 0;
  }
  idu.now_br_mask = now;
  for (int t = 1; t < MAX_BR_NUM; t++) {
    idu.tag_vec[t] = !live[t];
    idu.br_mask_cp[t] = live[t] ? upto(t) : (uint32_t)sx_var("oldcp", t, BR_MASK_WIDTH);
  }
  // what the branch units reported in the previous cycle
  auto &l = idu.br_latch;
  l.clear_mask = sx_var("clear", 0, BR_MASK_WIDTH) & now;
  l.mispred = sx_var("mis", 0, 1);
  l.br_id = sx_var("misid", 0, BR_TAG_WIDTH);
  l.redirect_rob_idx = sx_var("misrob", 0, ROB_IDX_WIDTH);
  sx_assume(!l.mispred || (l.clear_mask >> l.br_id & 1));
  ExuIdIO l0 = l;
  exu2id.mispred = sx_var("nmis", 0, 1);
  exu2id.clear_mask = sx_var("nclear", 0, BR_MASK_WIDTH);
  exu2id.br_id = sx_var("nid", 0, BR_TAG_WIDTH);
  exu2id.redirect_pc = sx_var("npc", 0, 32);
  exu2id.redirect_rob_idx = sx_var("nrob", 0, ROB_IDX_WIDTH);
  rob_bcast.flush = sx_var("flush", 0, 1);
  bool ready = sx_var("ready", 0, 1);
  const int kind[2] = {KIND0, KIND1};
  static const uint32_t word[4] = {0x00000033, 0x00000063, 0x0000006f, 0x00000067};
  bool val[DECODE_WIDTH], br[DECODE_WIDTH];
  for (int i = 0; i < DECODE_WIDTH; i++) {
    auto &e = issue_.entries[i];
    e.valid = sx_var("valid", i, 1);
    uint32_t any = sx_var("inst", i, 32);
    int k = kind[i & 1];
    e.inst = k == 0 ? (any & 0x01ff8f80) | 0x33 : k == 2 ? (any & ~0x7fu) | 0x6f : (any & 0xffff8f80) | word[k];
    inst0[i] = e.inst;
    e.page_fault_inst = sx_var("pf", i, 1);
    e.pc = sx_var("pc", i, 32);
    e.ftq_idx = sx_var("ftq", i, FTQ_IDX_WIDTH);
    e.ftq_offset = sx_var("ftqo", i, FTQ_OFFSET_WIDTH);
    e.ftq_is_last = sx_var("ftql", i, 1);
    val[i] = e.valid;
    br[i] = (k & 1) && !e.page_fault_inst;
  }
  uint32_t freemask = ALL & ~1u & ~now;
  idu.comb_begin();
  idu.comb_decode();
  idu.comb_branch();
  // renaming accepts nothing while the pipeline is being recovered
  ren2dec.ready = ready && !rob_bcast.flush && !l0.mispred;
  idu.comb_fire();
  idu.seq();

  // dependences given to the decoded instructions
  uint32_t run = now & ~l0.clear_mask;
  uint32_t used = 0;
  bool cut = false, fired = ren2dec.ready;
  int nb = 0;
  for (int i = 0; i < DECODE_WIDTH; i++) {
    bool b = val[i] && br[i];
    cut = cut || (b && ((freemask & ~used) == 0 || nb >= MAX_BR_PER_CYCLE));
    auto &u = dec2ren.uop[i];
    sx_assert(dec2ren.valid[i] == (val[i] && !cut), "decoded unless no tag is left");
    sx_assert(consume.fire[i] == (val[i] && !cut && fired), "taken from the queue exactly when renamed");
    if (val[i] && !cut) {
      sx_assert(u.br_mask == run, "depends on exactly the unresolved older branches");
      sx_assert(is_branch(u.type) == br[i], "branches are recognised");
      sx_assert(u.page_fault_inst == issue_.entries[i].page_fault_inst, "fetch fault is kept");
      sx_assert(!u.page_fault_inst || (!u.dest_en && !u.src1_en && !u.src2_en && decode_inst_type(u.type) == NOP), "a faulting fetch does nothing else");
      sx_assert(u.ftq_idx == issue_.entries[i].ftq_idx && u.ftq_offset == issue_.entries[i].ftq_offset && u.ftq_is_last == issue_.entries[i].ftq_is_last && u.dbg.pc == issue_.entries[i].pc, "identity of the instruction is kept");
    }
    if (b && !cut) {
      nb++;
      uint32_t id = u.br_id;
      sx_assert(freemask & ~used & (1u << id), "the tag is not held by any branch in flight");
      used |= 1u << id;
      run |= 1u << id;
      if (fired) {
        live[id] = true;
        age[id] = MAX_BR_NUM + i;
      }
    }
  }
  // recovery
  uint32_t misage = 0;
  for (int t = 1; t < MAX_BR_NUM; t++)
    misage = l0.br_id == t ? age[t] : misage;
  for (int t = 1; t < MAX_BR_NUM; t++) {
    if (rob_bcast.flush || (l0.clear_mask >> t & 1) || (l0.mispred && age[t] > misage))
      live[t] = false;
  }
  uint32_t now1 = 0;
  for (int t = 1; t < MAX_BR_NUM; t++)
    now1 |= live[t] ? 1u << t : 0;
  sx_assert(idu.now_br_mask == now1, "unresolved branches");
  sx_assert(!idu.tag_vec[0], "tag 0 is never handed out");
  for (int t = 1; t < MAX_BR_NUM; t++) {
    sx_assert(idu.tag_vec[t] == !live[t], "tags of resolved and squashed branches become free");
    sx_assert(!live[t] || idu.br_mask_cp[t] == upto(t), "age order of unresolved branches");
  }
  // broadcast
  sx_assert(dec_bcast.mispred == l0.mispred && dec_bcast.clear_mask == l0.clear_mask, "branch results are broadcast");
  sx_assert(l0.mispred ? dec_bcast.br_id == l0.br_id && dec_bcast.redirect_rob_idx == l0.redirect_rob_idx && dec_bcast.br_mask == 1u << l0.br_id : dec_bcast.br_mask == 0, "the mispredicted branch is named");
  sx_assert(rob_bcast.flush ? !idu.br_latch.mispred && idu.br_latch.clear_mask == 0 : idu.br_latch.mispred == exu2id.mispred && idu.br_latch.clear_mask == exu2id.clear_mask && idu.br_latch.br_id == exu2id.br_id && idu.br_latch.redirect_pc == exu2id.redirect_pc && idu.br_latch.redirect_rob_idx == exu2id.redirect_rob_idx, "new results are taken over unless flushed");
  sx_cover(l0.mispred && now1 != 0 && now1 != (now & ~l0.clear_mask) && !rob_bcast.flush, "some younger branches squashed");
  sx_cover((KIND0 | KIND1) % 2 == 0 || cut, "out of tags");
  sx_cover((KIND0 | KIND1) % 2 == 0 || (used != 0 && fired && l0.clear_mask), "allocated while others resolve");
  sx_observe("now", 0, idu.now_br_mask);
}
extern "C" void hx_tags_nn() { step<0, 0>(); }
extern "C" void hx_tags_bn() { step<1, 0>(); }
extern "C" void hx_tags_nb() { step<0, 1>(); }
extern "C" void hx_tags_bb() { step<1, 1>(); }
extern "C" void hx_tags_jj() { step<2, 3>(); }
extern "C" void hx_tags_jb() { step<3, 1>(); }
