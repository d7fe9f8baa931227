// B02: dispatch. One clock cycle with any two instructions waiting and any
// room in the queues behind.
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#define private public
#include "Dispatch.h"
#undef private
#include "util.h"
#include "sx.h"
long long sim_time = 0;
static SimContext ctx;
static Dispatch dis(&ctx);
static RenDisIO ren2dis;
static RobDisIO rob2dis;
static IssDisIO iss2dis;
static LsuDisIO lsu2dis;
static PrfAwakeIO prf_awake;
static IssAwakeIO iss_awake;
static RobBroadcastIO rob_bcast;
static DecBroadcastIO dec_bcast;
static DisRenIO dis2ren;
static DisRobIO dis2rob;
static DisIssIO dis2iss;
static DisLsuIO dis2lsu;

typedef RenDisIO::RenDisInst Inst;
constexpr int W = DECODE_WIDTH;

static Inst any_inst(const char *n, int i) {
  Inst u;
  int k = i * 32;
  u.diag_val = sx_var(n, k++, 32);
  u.dest_areg = sx_var(n, k++, AREG_IDX_WIDTH);
  u.src1_areg = sx_var(n, k++, AREG_IDX_WIDTH);
  u.src2_areg = sx_var(n, k++, AREG_IDX_WIDTH);
  u.dest_preg = sx_var(n, k++, PRF_IDX_WIDTH);
  u.src1_preg = sx_var(n, k++, PRF_IDX_WIDTH);
  u.src2_preg = sx_var(n, k++, PRF_IDX_WIDTH);
  u.old_dest_preg = sx_var(n, k++, PRF_IDX_WIDTH);
  u.ftq_idx = sx_var(n, k++, FTQ_IDX_WIDTH);
  u.ftq_offset = sx_var(n, k++, FTQ_OFFSET_WIDTH);
  u.ftq_is_last = sx_var(n, k++, 1);
  u.type = sx_var(n, k++, INST_TYPE_WIDTH);
  u.dest_en = sx_var(n, k++, 1);
  u.src1_en = sx_var(n, k++, 1);
  u.src2_en = sx_var(n, k++, 1);
  u.is_atomic = u.type == AMO;
  u.src1_busy = sx_var(n, k++, 1);
  u.src2_busy = sx_var(n, k++, 1);
  u.src1_is_pc = sx_var(n, k++, 1);
  u.src2_is_imm = sx_var(n, k++, 1);
  u.func3 = sx_var(n, k++, 3);
  u.func7 = sx_var(n, k++, 7);
  u.imm = sx_var(n, k++, 32);
  u.br_id = sx_var(n, k++, BR_TAG_WIDTH);
  u.br_mask = sx_var(n, k++, BR_MASK_WIDTH);
  u.csr_idx = sx_var(n, k++, CSR_IDX_WIDTH);
  u.page_fault_inst = sx_var(n, k++, 1);
  u.illegal_inst = sx_var(n, k++, 1);
  u.is_ret = sx_var(n, k++, 1);
  sx_assume(u.type < INST_TYPE_COUNT && (u.dest_areg == 0 || u.dest_en == (u.dest_preg != 0)) && (u.dest_areg != 0 || !u.dest_en || u.dest_preg != 0) && (!u.dest_en || (u.type != STORE && u.type != BR)));
  return u;
}
static bool same(const Inst &a, const Inst &b, uint32_t mask) {
  return a.diag_val == b.diag_val && a.dest_areg == b.dest_areg && a.src1_areg == b.src1_areg && a.src2_areg == b.src2_areg && a.dest_preg == b.dest_preg &&
         a.src1_preg == b.src1_preg && a.src2_preg == b.src2_preg && a.old_dest_preg == b.old_dest_preg && a.ftq_idx == b.ftq_idx && a.ftq_offset == b.ftq_offset &&
         a.ftq_is_last == b.ftq_is_last && a.type == b.type && a.dest_en == b.dest_en && a.src1_en == b.src1_en && a.src2_en == b.src2_en && a.is_atomic == b.is_atomic &&
         a.src1_is_pc == b.src1_is_pc && a.src2_is_imm == b.src2_is_imm && a.func3 == b.func3 && a.func7 == b.func7 && a.imm == b.imm && a.br_id == b.br_id &&
         a.br_mask == (b.br_mask & ~mask) && a.csr_idx == b.csr_idx && a.page_fault_inst == b.page_fault_inst && a.illegal_inst == b.illegal_inst && a.is_ret == b.is_ret;
}
static bool loads(const Inst &u) { return u.type == LOAD || (u.type == AMO && (u.func7 >> 2) != AmoOp::SC); }
static bool stores(const Inst &u) { return u.type == STORE || (u.type == AMO && (u.func7 >> 2) != AmoOp::LR); }
// the queues an instruction needs
static bool needs(const Inst &u, int q) {
  bool jump = u.type == JAL || u.type == JALR, mem = loads(u) || stores(u);
  return q == IQ_LD ? loads(u) : q == IQ_STA || q == IQ_STD ? stores(u) : q == IQ_BR ? u.type == BR || jump : !mem && u.type != BR;
}
static uint32_t parts(const Inst &u) {
  if (u.type == AMO && (u.func7 >> 2) == AmoOp::SC)
    return ROB_CPLT_G0 | ROB_CPLT_G2;
  return (needs(u, IQ_INT) || needs(u, IQ_LD) ? ROB_CPLT_G0 : 0) | (needs(u, IQ_BR) || needs(u, IQ_STA) ? ROB_CPLT_G1 : 0) | (needs(u, IQ_STD) ? ROB_CPLT_G2 : 0);
}

static Inst I[W], N[W];
static bool V[W], F[W], busy[PRF_NUM];
static uint32_t clear_, line_;
static bool flush_, mis_, stall_, ready_, empty_;

static bool woken(uint32_t p) {
  bool r = false;
  for (int i = 0; i < LSU_LOAD_WB_WIDTH; i++)
    r = r || (prf_awake.wake[i].valid && prf_awake.wake[i].preg == p);
  for (int i = 0; i < MAX_WAKEUP_PORTS; i++)
    r = r || (iss_awake.wake[i].valid && iss_awake.wake[i].preg == p);
  return r;
}
static void run() {
  dis.in = {&ren2dis, &rob2dis, &iss2dis, &lsu2dis, &prf_awake, &iss_awake, &rob_bcast, &dec_bcast};
  dis.out = {&dis2ren, &dis2rob, &dis2iss, &dis2lsu};
  dis.init();
  for (int i = 0; i < W; i++) {
    I[i] = any_inst("inst", i);
    V[i] = sx_var("valid", i, 1);
    dis.inst_r[i] = I[i];
    dis.inst_valid[i] = V[i];
    N[i] = any_inst("new", i);
    ren2dis.uop[i] = N[i];
    ren2dis.valid[i] = sx_var("newvalid", i, 1);
    // left over from the previous cycle
    dis.dispatch_success_flags[i] = sx_var("left", i, 1);
    dis2rob.dis_fire[i] = sx_var("left", 2 + i, 1);
    dis2rob.valid[i] = sx_var("left", 4 + i, 1);
    for (int q = 0; q < IQ_NUM; q++)
      dis2iss.req[q][i].valid = sx_var("left", 6 + q * 2 + i, 1);
  }
  for (int i = 0; i < PRF_NUM; i++)
    busy[i] = dis.busy_table[i] = i ? sx_var("busy", i, 1) : 0;
  for (int i = 0; i < LSU_LOAD_WB_WIDTH; i++) {
    prf_awake.wake[i].valid = sx_var("pw", i, 1);
    prf_awake.wake[i].preg = sx_var("pwr", i, PRF_IDX_WIDTH);
  }
  for (int i = 0; i < MAX_WAKEUP_PORTS; i++) {
    iss_awake.wake[i].valid = sx_var("iw", i, 1);
    iss_awake.wake[i].preg = sx_var("iwr", i, PRF_IDX_WIDTH);
  }
  for (int q = 0; q < IQ_NUM; q++)
    iss2dis.ready_num[q] = sx_var("room", q, 2);
  rob_bcast.flush = flush_ = sx_var("flush", 0, 1);
  dec_bcast.mispred = mis_ = sx_var("mispred", 0, 1);
  dec_bcast.clear_mask = clear_ = sx_var("clear", 0, BR_MASK_WIDTH);
  rob2dis.stall = stall_ = sx_var("stall", 0, 1);
  rob2dis.ready = ready_ = sx_var("robready", 0, 1);
  rob2dis.empty = empty_ = sx_var("robempty", 0, 1);
  rob2dis.enq_idx = line_ = sx_var("line", 0, clog2(ROB_LINE_NUM));
  rob2dis.rob_flag = sx_var("robflag", 0, 1);
  lsu2dis.stq_tail = sx_var("stqtail", 0, STQ_IDX_WIDTH);
  lsu2dis.stq_tail_flag = sx_var("stqflag", 0, 1);
  lsu2dis.stq_free = sx_var("stqfree", 0, 5);
  lsu2dis.ldq_free = sx_var("ldqfree", 0, 5);
  sx_assume(lsu2dis.stq_free <= STQ_SIZE && lsu2dis.ldq_free <= LDQ_SIZE);
  for (int i = 0; i < MAX_LDQ_DISPATCH_WIDTH; i++) {
    lsu2dis.ldq_alloc_idx[i] = sx_var("ldqidx", i, LDQ_IDX_WIDTH);
    lsu2dis.ldq_alloc_valid[i] = sx_var("ldqvalid", i, 1);
  }
  sx_assume(lsu2dis.ldq_alloc_idx[0] != lsu2dis.ldq_alloc_idx[1]);
  // different instructions write different registers
  sx_assume(!I[0].dest_en || !I[1].dest_en || I[0].dest_preg != I[1].dest_preg);
  dis.comb_begin();
  dis.comb_alloc();
  dis.comb_wake();
  dis.comb_dispatch();
  dis.comb_fire();
  dis.comb_pipeline();
  dis.seq();
  for (int i = 0; i < W; i++)
    F[i] = dis2rob.dis_fire[i];
}

// Who is dispatched, and what stays.
extern "C" void hx_order() {
  run();
  bool kill = flush_ || mis_;
  for (int i = 0; i < W; i++) {
    sx_assert(!F[i] || V[i], "only waiting instructions are dispatched");
    sx_assert(!F[i] || (!kill && !stall_ && ready_), "nothing is dispatched into a full buffer or a restart");
    bool alone = I[i].type == CSR || I[i].type == AMO;
    // other instructions that restart or stop the program may wait as well
    bool may_wait = alone || (I[i].type >= CSR && I[i].type <= SRET);
    sx_assert(!F[i] || !alone || (empty_ && !(i && F[0])), "CSR accesses and atomic operations wait for everything before them");
    uint32_t older_st = i && V[0] && stores(I[0]), older_ld = i && V[0] && loads(I[0]);
    sx_assert(!F[i] || !stores(I[i]) || lsu2dis.stq_free > older_st, "a store has a place in the store queue");
    sx_assert(!F[i] || !loads(I[i]) || (lsu2dis.ldq_free > older_ld && lsu2dis.ldq_alloc_valid[older_ld]), "a load has a place in the load queue");
    bool fits = true;
    for (int q = 0; q < IQ_NUM; q++)
      fits = fits && (!needs(I[i], q) || iss2dis.ready_num[q] > (i && V[0] && needs(I[0], q)));
    sx_assert(!F[i] || fits, "every part has a place in its queue");
    bool can = V[i] && !kill && !stall_ && ready_ && fits && (!stores(I[i]) || lsu2dis.stq_free > older_st) && (!loads(I[i]) || (lsu2dis.ldq_free > older_ld && lsu2dis.ldq_alloc_valid[older_ld])) &&
               (!may_wait || empty_);
    if (i == 0 || !V[0])
      sx_assert(F[i] || !can, "the oldest instruction is dispatched as soon as there is room");
    else
      sx_assert(F[i] || !can || may_wait || !F[0] || I[0].type == AMO || I[0].type == WFI, "the second instruction is dispatched with the first");
  }
  sx_assert(!F[1] || !V[0] || F[0], "instructions are dispatched in order");
  sx_assert(!(F[0] && F[1]) || (I[0].type != AMO && I[0].type != WFI), "nothing is dispatched together with an older atomic operation or WFI");
  bool rdy = dis2ren.ready;
  sx_assert(!rdy || ((!V[0] || F[0]) && (!V[1] || F[1])), "new instructions are taken only when the old ones have left");
  sx_assert(rdy || kill || (V[0] && !F[0]) || (V[1] && !F[1]) || (F[0] && (I[0].type == AMO || I[0].type == WFI)) || (F[1] && (I[1].type == AMO || I[1].type == WFI)), "new instructions are taken when the old ones have left");
  for (int i = 0; i < W; i++) {
    bool stays = V[i] && !F[i] && !kill;
    bool comes = rdy && ren2dis.valid[i] && !kill;
    sx_assert(dis.inst_valid[i] == (stays || comes), "an instruction waits until it is dispatched or squashed");
    sx_assert(!stays || same(dis.inst_r[i], I[i], clear_), "a waiting instruction is not changed");
    sx_assert(!comes || same(dis.inst_r[i], N[i], clear_), "an arriving instruction is taken over");
  }
  sx_cover(F[0] && F[1], "two instructions");
  sx_cover(F[1] && !V[0] && I[1].type == AMO, "an atomic operation in the second place");
  sx_cover(F[0] && V[1] && !F[1] && I[0].type == STORE && I[1].type == STORE && lsu2dis.stq_free == 1, "one place in the store queue");
}
// What is sent to the queues and to the reorder buffer.
extern "C" void hx_parts() {
  run();
  for (int q = 0; q < IQ_NUM; q++)
    for (int s = 0; s < W; s++) {
      const auto &r = dis2iss.req[q][s];
      bool of0 = F[0] && needs(I[0], q), of1 = F[1] && needs(I[1], q);
      sx_assert(!r.valid || (r.uop.rob_idx == line_ * 2 && of0) || (r.uop.rob_idx == line_ * 2 + 1 && of1), "a queue gets only parts of dispatched instructions");
    }
  for (int i = 0; i < W; i++) {
    const Inst &n = I[i];
    uint32_t idx = line_ * 2 + i;
    int older_st = i && V[0] && stores(I[0]), older_ld = i && V[0] && loads(I[0]);
    uint32_t spos = lsu2dis.stq_tail + older_st, sidx = spos % STQ_SIZE;
    bool sflag = lsu2dis.stq_tail_flag ^ (spos / STQ_SIZE);
    auto src_busy = [&](uint32_t p) { return (busy[p] && !woken(p)) || (i && F[0] && I[0].dest_en && I[0].dest_areg != 0 && I[0].dest_preg == p); };
    bool b1 = src_busy(n.src1_preg), b2 = src_busy(n.src2_preg);
    for (int q = 0; q < IQ_NUM; q++) {
      const auto &a = dis2iss.req[q][0], &b = dis2iss.req[q][1];
      bool ia = a.valid && a.uop.rob_idx == idx, ib = b.valid && b.uop.rob_idx == idx;
      sx_assert(!F[i] || !needs(n, q) || (ia != ib), "every part of a dispatched instruction reaches its queue once");
      const auto &u = ia ? a.uop : b.uop;
      if (!F[i] || !needs(n, q) || !(ia || ib))
        continue;
      sx_assert(u.ftq_idx == n.ftq_idx && u.ftq_offset == n.ftq_offset && u.func3 == n.func3 && u.func7 == n.func7 && u.br_id == n.br_id && u.csr_idx == n.csr_idx && u.rob_flag == rob2dis.rob_flag &&
                    u.src1_is_pc == n.src1_is_pc && u.src2_is_imm == n.src2_is_imm && u.dest_preg == n.dest_preg && u.src2_preg == n.src2_preg,
                "a part carries the fields of its instruction");
      sx_assert(u.br_mask == (n.br_mask & ~clear_), "a part depends on the unresolved branches before it");
      sx_assert(!stores(n) || (u.stq_idx == sidx && u.stq_flag == sflag), "a store knows its place");
      sx_assert(!loads(n) || (u.stq_idx == sidx && u.stq_flag == sflag && u.ldq_idx == lsu2dis.ldq_alloc_idx[older_ld]), "a load knows its place and the stores before it");
      bool rmw_std = q == IQ_STD && n.type == AMO && (n.func7 >> 2) != AmoOp::SC;
      if (rmw_std) {
        sx_assert(u.src1_preg == n.dest_preg && u.src1_busy == ((n.func7 >> 2) != AmoOp::SWAP), "the write of an atomic operation waits for its read");
      } else {
        sx_assert(u.src1_preg == n.src1_preg && (!u.src1_en || !n.src1_en || u.src1_busy == b1), "a source is waited for exactly while it is not available");
      }
      sx_assert(!u.src2_en || !n.src2_en || u.src2_busy == b2, "a source is waited for exactly while it is not available");
      bool sc = n.type == AMO && (n.func7 >> 2) == AmoOp::SC;
      sx_assert(u.dest_en == (q == IQ_INT || q == IQ_LD ? n.dest_en : sc && q == IQ_STA), "one part writes the destination");
    }
    if (F[i]) {
      const auto &r = dis2rob.uop[i];
      sx_assert(r.rob_idx == idx && r.rob_flag == rob2dis.rob_flag && r.expect_mask == parts(n) && r.cplt_mask == 0, "the reorder buffer expects every part once");
      sx_assert(r.type == n.type && r.dest_areg == n.dest_areg && r.dest_preg == n.dest_preg && r.old_dest_preg == n.old_dest_preg && r.dest_en == n.dest_en && r.ftq_idx == n.ftq_idx && r.ftq_offset == n.ftq_offset &&
                    r.ftq_is_last == n.ftq_is_last && r.func3 == n.func3 && r.func7 == n.func7 && r.page_fault_inst == n.page_fault_inst && r.illegal_inst == n.illegal_inst && r.is_ret == n.is_ret && r.diag_val == n.diag_val,
                "the reorder buffer gets the instruction");
      sx_assert(!stores(n) || (r.stq_idx == sidx && r.stq_flag == sflag), "the reorder buffer knows the place of a store");
    }
  }
  // places taken in the load and store queues
  bool st[2] = {F[0] && stores(I[0]), F[1] && stores(I[1])}, ld[2] = {F[0] && loads(I[0]), F[1] && loads(I[1])};
  for (int k = 0; k < 2; k++) {
    int so = k == 0 ? (st[0] ? 0 : st[1] ? 1 : -1) : (st[0] && st[1] ? 1 : -1);
    int lo = k == 0 ? (ld[0] ? 0 : ld[1] ? 1 : -1) : (ld[0] && ld[1] ? 1 : -1);
    sx_assert(dis2lsu.alloc_req[k] == (so >= 0), "one place per dispatched store");
    if (so >= 0)
      sx_assert(dis2lsu.rob_idx[k] == line_ * 2 + so && dis2lsu.rob_flag[k] == rob2dis.rob_flag && dis2lsu.br_mask[k] == (I[so].br_mask & ~clear_) && dis2lsu.func3[k] == I[so].func3 &&
                    dis2lsu.stq_flag[k] == (lsu2dis.stq_tail_flag ^ ((lsu2dis.stq_tail + k) / STQ_SIZE)),
                "the place belongs to the store");
    sx_assert(dis2lsu.ldq_alloc_req[k] == (lo >= 0), "one place per dispatched load");
    if (lo >= 0)
      sx_assert(dis2lsu.ldq_rob_idx[k] == line_ * 2 + lo && dis2lsu.ldq_rob_flag[k] == rob2dis.rob_flag && dis2lsu.ldq_br_mask[k] == (I[lo].br_mask & ~clear_) && dis2lsu.ldq_idx[k] == lsu2dis.ldq_alloc_idx[k],
                "the place belongs to the load");
  }
  // availability of registers
  uint32_t p = sx_var("anyreg", 0, PRF_IDX_WIDTH);
  bool made = (F[0] && I[0].dest_en && I[0].dest_preg == p) || (F[1] && I[1].dest_en && I[1].dest_preg == p);
  sx_assert(dis.busy_table[p] == ((busy[p] && !woken(p)) || made), "a register is unavailable from the dispatch of its writer to its result");
  sx_cover(F[1] && I[0].type == STORE && I[1].type == LOAD, "a load after a store");
  sx_cover(F[0] && F[1] && I[1].src1_en && I[0].dest_en && I[1].src1_preg == I[0].dest_preg && I[0].dest_areg != 0, "dependent instructions together");
}
