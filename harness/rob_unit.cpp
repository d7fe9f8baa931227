// B01, B02: the reorder buffer. One clock cycle from an arbitrary content.
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#define private public
#include "Rob.h"
#undef private
#include "RealLsu.h"
#include "MemSubsystem.h"
#include "util.h"
#include "sx.h"
long long sim_time = 0;
void RealLsu::dump_debug_state(FILE *) const {}
void MemSubsystem::dump_debug_state(FILE *) const {}

static SimContext ctx;
static Rob rob(&ctx);
static DisRobIO dis2rob;
static CsrRobIO csr2rob;
static LsuRobIO lsu2rob;
static DecBroadcastIO dec_bcast;
static ExuRobIO exu2rob;
static FtqRobPcRespIO ftq_pc_resp;
static RobDisIO rob2dis;
static RobCsrIO rob2csr;
static RobCommitIO rob_commit;
static RobBroadcastIO rob_bcast;
static FtqRobPcReqIO ftq_pc_req;
static wire<1> front_stall;

constexpr int NB = ROB_BANK_NUM, NL = ROB_LINE_NUM;
static uint32_t deq, enq;
static bool deqf, enqf;

// What retirement looks at, and the identity of an instruction.
static void any_state(RobStoredInst &u, int i) {
  u.type = sx_var("type", i, INST_TYPE_WIDTH);
  u.expect_mask = sx_var("expect", i, ROB_CPLT_MASK_WIDTH);
  u.cplt_mask = sx_var("done", i, ROB_CPLT_MASK_WIDTH);
  u.page_fault_inst = sx_var("pfi", i, 1);
  u.page_fault_load = sx_var("pfl", i, 1);
  u.page_fault_store = sx_var("pfs", i, 1);
  u.illegal_inst = sx_var("ill", i, 1);
  u.flush_pipe = sx_var("fp", i, 1);
  u.diag_val = sx_var("diag", i, 32);
  u.dbg.inst_idx = i;
  sx_assume(u.type < INST_TYPE_COUNT && (u.cplt_mask & ~u.expect_mask) == 0);
  bool mem = u.type == LOAD || u.type == STORE || u.type == AMO;
  bool early = u.page_fault_inst || u.illegal_inst;
  sx_assume(!(u.page_fault_inst && u.illegal_inst) && (!early || u.type == NOP) && (mem || (!u.page_fault_load && !u.page_fault_store && !u.flush_pipe)));
  u.tma.mem_commit_is_load = u.type == LOAD;
  u.tma.mem_commit_is_store = u.type == STORE;
}
// Everything else an instruction carries to retirement.
static void any_rest(RobStoredInst &u, int i) {
  u.dest_areg = sx_var("areg", i, AREG_IDX_WIDTH);
  u.dest_preg = sx_var("preg", i, PRF_IDX_WIDTH);
  u.old_dest_preg = sx_var("old", i, PRF_IDX_WIDTH);
  u.dest_en = sx_var("den", i, 1);
  u.ftq_idx = sx_var("ftq", i, FTQ_IDX_WIDTH);
  u.ftq_offset = sx_var("off", i, FTQ_OFFSET_WIDTH);
  u.ftq_is_last = sx_var("last", i, 1);
  u.mispred = sx_var("mis", i, 1);
  u.br_taken = sx_var("taken", i, 1);
  u.func3 = sx_var("f3", i, 3);
  u.func7 = sx_var("f7", i, 7);
  u.rob_idx = sx_var("ridx", i, ROB_IDX_WIDTH);
  u.rob_flag = sx_var("rflag", i, 1);
  u.stq_idx = sx_var("stq", i, STQ_IDX_WIDTH);
  u.stq_flag = sx_var("stqf", i, 1);
  u.is_ret = sx_var("ret", i, 1);
}
static bool same_rest(const RobCommitIO::RobCommitInst &a, const RobStoredInst &b) {
  return a.dest_areg == b.dest_areg && a.dest_preg == b.dest_preg && a.old_dest_preg == b.old_dest_preg && a.dest_en == b.dest_en && a.ftq_idx == b.ftq_idx &&
         a.ftq_offset == b.ftq_offset && a.ftq_is_last == b.ftq_is_last && a.mispred == b.mispred && a.br_taken == b.br_taken && a.func7 == b.func7 &&
         a.rob_idx == b.rob_idx && a.rob_flag == b.rob_flag && a.stq_idx == b.stq_idx && a.stq_flag == b.stq_flag && a.is_ret == b.is_ret;
}
static bool same_stored(const RobStoredInst &a, const RobStoredInst &b, bool last) {
  return a.dest_areg == b.dest_areg && a.dest_preg == b.dest_preg && a.old_dest_preg == b.old_dest_preg && a.dest_en == b.dest_en && a.ftq_idx == b.ftq_idx &&
         a.ftq_offset == b.ftq_offset && a.ftq_is_last == last && a.func3 == b.func3 && a.func7 == b.func7 && a.rob_idx == b.rob_idx && a.rob_flag == b.rob_flag &&
         a.stq_idx == b.stq_idx && a.stq_flag == b.stq_flag && a.is_ret == b.is_ret && a.type == b.type && a.expect_mask == b.expect_mask && a.illegal_inst == b.illegal_inst;
}
static bool fault(const RobStoredInst &u) { return u.page_fault_inst || u.page_fault_load || u.page_fault_store || u.illegal_inst; }
static bool restarts(const RobStoredInst &u) {
  return u.type == CSR || u.type == ECALL || u.type == EBREAK || u.type == MRET || u.type == SRET || u.type == SFENCE_VMA || u.type == FENCE_I || fault(u) || u.flush_pipe;
}
static bool fence(const RobStoredInst &u) { return u.type == FENCE || u.type == FENCE_I || u.type == SFENCE_VMA; }
static bool done(const RobStoredInst &u) { return u.cplt_mask == u.expect_mask; }

// The lines from deq up to enq are in use; nothing else is.
static uint32_t used_lines(uint32_t d, bool df, uint32_t e, bool ef) { return ((e - d) & (NL - 1)) | (e == d && ef != df ? NL : 0); }
static bool in_use(uint32_t line, uint32_t d, uint32_t n) { return ((line - d) & (NL - 1)) < n; }
static bool pointers_ok(uint32_t d, bool df, uint32_t e, bool ef) { return e == d || (e > d) == (ef == df); }

static void state() {
  rob.in = {&dis2rob, &csr2rob, &lsu2rob, &dec_bcast, &exu2rob, &ftq_pc_resp, &front_stall};
  rob.out = {&rob2dis, &rob2csr, &rob_commit, &rob_bcast, &ftq_pc_req};
  rob.init();
  deq = sx_var("deq", 0, clog2(NL));
  enq = sx_var("enq", 0, clog2(NL));
  deqf = sx_var("deqf", 0, 1);
  enqf = sx_var("enqf", 0, 1);
  sx_assume(pointers_ok(deq, deqf, enq, enqf));
  rob.deq_ptr = deq;
  rob.enq_ptr = enq;
  rob.deq_flag = deqf;
  rob.enq_flag = enqf;
  rob.stall_cycle = sx_var("stalled", 0, 15);
  uint32_t n = used_lines(deq, deqf, enq, enqf);
  for (int b = 0; b < NB; b++)
    for (int l = 0; l < NL; l++) {
      auto &e = rob.entry[b][l];
      e.valid = sx_var("valid", l * NB + b, 1);
      sx_assume(!e.valid || in_use(l, deq, n));
    }
  csr2rob.interrupt_req = sx_var("irq", 0, 1);
  lsu2rob.committed_store_pending = sx_var("pending", 0, 1);
  front_stall = sx_var("fstall", 0, 1);
  ctx.exit_reason = ExitReason::NONE;
  // outputs hold what the previous cycle left
  rob_bcast.flush = sx_var("left", 0, 1);
  rob_bcast.exception = sx_var("left", 1, 1);
  rob_bcast.mret = sx_var("left", 2, 1);
  rob_bcast.sret = sx_var("left", 3, 1);
  rob_bcast.ecall = sx_var("left", 4, 1);
  rob_bcast.fence = sx_var("left", 5, 1);
  rob_bcast.fence_i = sx_var("left", 6, 1);
  rob_bcast.page_fault_inst = sx_var("left", 7, 1);
  rob_bcast.page_fault_load = sx_var("left", 8, 1);
  rob_bcast.page_fault_store = sx_var("left", 9, 1);
  rob_bcast.illegal_inst = sx_var("left", 10, 1);
  rob_bcast.interrupt = sx_var("left", 11, 1);
  rob_bcast.head_valid = sx_var("left", 12, 1);
  rob_bcast.head_incomplete_valid = sx_var("left", 13, 1);
  rob2csr.commit = sx_var("left", 14, 1);
  rob2csr.interrupt_resp = sx_var("left", 15, 1);
  rob2dis.stall = sx_var("left", 16, 1);
  rob_commit.commit_entry[0].valid = sx_var("left", 17, 1);
  rob_commit.commit_entry[1].valid = sx_var("left", 18, 1);
}
static uint32_t pc_of(uint32_t idx, uint32_t off) { return sx_uf("pc", idx << 8 | off, 32); }
static void cycle() {
  rob.comb_begin();
  rob.comb_ready();
  rob.comb_ftq_pc_req();
  ftq_pc_resp.resp[0].valid = ftq_pc_req.req[0].valid;
  ftq_pc_resp.resp[0].pc = pc_of(ftq_pc_req.req[0].ftq_idx, ftq_pc_req.req[0].ftq_offset);
  rob.comb_commit();
  rob.comb_complete();
  rob.comb_branch();
  rob.comb_fire();
  rob.comb_flush();
  rob.seq();
}

// What retires, and what is announced.
extern "C" void hx_retire() {
  state();
  RobStoredInst head[NB];
  bool v[NB];
  for (int b = 0; b < NB; b++) {
    any_state(head[b], b);
    any_rest(head[b], b);
    v[b] = rob.entry[b][deq].valid;
    rob.entry[b][deq].uop = head[b];
  }
  bool mis = sx_var("mispred", 0, 1);
  dec_bcast.mispred = mis;
  dec_bcast.redirect_rob_idx = sx_var("redirect", 0, ROB_IDX_WIDTH);
  sx_assume(!mis || in_use(dec_bcast.redirect_rob_idx / NB, deq, used_lines(deq, deqf, enq, enqf)));
  bool irq = csr2rob.interrupt_req, pend = lsu2rob.committed_store_pending;
  cycle();
  bool empty = deq == enq && deqf == enqf;
  int o = v[0] ? 0 : 1; // oldest
  const RobStoredInst &h = head[o];
  const bool any = v[0] || v[1];
  bool c[NB] = {(bool)rob_commit.commit_entry[0].valid, (bool)rob_commit.commit_entry[1].valid};
  bool retires = c[0] || c[1];
  bool irq_taken = rob2csr.interrupt_resp;

  for (int b = 0; b < NB; b++) {
    const auto &u = rob_commit.commit_entry[b].uop;
    sx_assert(!c[b] || v[b], "only instructions in flight retire");
    sx_assert(!c[b] || b == o || (c[o] && !irq_taken), "instructions retire in order");
    sx_assert(!c[b] || irq_taken || done(head[b]), "only completed instructions retire");
    sx_assert(!c[b] || b == o || (!restarts(h) && !fence(h) && h.type != WFI), "nothing retires together with an older instruction that restarts or stops the program");
    sx_assert(!c[b] || b == o || (!restarts(head[b]) && !fence(head[b]) && head[b].type != WFI), "an instruction that restarts or stops the program retires alone");
    sx_assert(!c[b] || irq_taken || !fence(head[b]) || !pend, "a fence waits for the stores before it");
    sx_assert(!c[b] || same_rest(u, head[b]), "what retires is what was stored");
    sx_assert(!c[b] || (u.type == head[b].type && u.page_fault_inst == head[b].page_fault_inst && u.page_fault_load == head[b].page_fault_load &&
                        u.page_fault_store == head[b].page_fault_store && u.illegal_inst == head[b].illegal_inst && u.diag_val == head[b].diag_val && u.flush_pipe == head[b].flush_pipe),
              "what retires is what was stored");
  }
  sx_assert(!retires || !mis, "nothing retires in the cycle of a misprediction");
  sx_assert(!irq_taken || (irq && retires), "an interrupt is taken when one is pending, in place of the oldest instruction");
  sx_assert(!retires || !irq || irq_taken, "a pending interrupt is taken before the next instruction");
  sx_assert(rob_bcast.interrupt == irq_taken, "an interrupt is announced as it is answered");
  // announcements
  const bool t = retires && !irq_taken;
  sx_assert(rob_bcast.flush == (irq_taken || (t && restarts(h))), "the pipeline restarts at an interrupt, a trap, a return, a CSR access or a fence");
  sx_assert(rob_bcast.exception == (irq_taken || (t && (fault(h) || h.type == ECALL))), "a trap is announced exactly for a fault, an environment call or an interrupt");
  sx_assert(!rob_bcast.flush || rob_bcast.pc == pc_of(h.ftq_idx, h.ftq_offset), "the restart reports the address of the retiring instruction");
  sx_assert(rob_bcast.mret == (t && h.type == MRET) && rob_bcast.sret == (t && h.type == SRET) && rob_bcast.ecall == (t && h.type == ECALL), "returns and calls are announced as such");
  sx_assert(rob_bcast.fence == (t && h.type == SFENCE_VMA) && rob_bcast.fence_i == (t && h.type == FENCE_I), "fences are announced as such");
  sx_assert(rob2csr.commit == (t && h.type == CSR), "a CSR access takes effect when it retires");
  sx_assert(rob_bcast.page_fault_store == (t && h.page_fault_store), "store page fault");
  sx_assert(rob_bcast.page_fault_load == (t && h.page_fault_load && !h.page_fault_store), "load page fault");
  sx_assert(rob_bcast.page_fault_inst == (t && h.page_fault_inst), "fetch page fault");
  sx_assert(rob_bcast.illegal_inst == (t && h.illegal_inst), "illegal instruction");
  if (t && fault(h))
    sx_assert(rob_bcast.trap_val == (h.page_fault_inst ? rob_bcast.pc : h.diag_val), "the trap value is the faulting address or instruction");
  sx_assert((ctx.exit_reason == ExitReason::EBREAK) == (t && h.type == EBREAK) && (ctx.exit_reason == ExitReason::WFI) == (t && h.type == WFI), "the simulation stops at EBREAK and WFI");
  // the oldest instruction, for accesses that wait for it
  sx_assert(rob_bcast.head_valid == any && (!any || rob_bcast.head_rob_idx == deq * NB + o), "the oldest instruction is announced");
  bool i0 = v[0] && !done(head[0]), i1 = v[1] && !done(head[1]);
  sx_assert(rob_bcast.head_incomplete_valid == (i0 || i1) && (!(i0 || i1) || rob_bcast.head_incomplete_rob_idx == deq * NB + (i0 ? 0 : 1)), "the oldest unfinished instruction is announced");
  // dispatch
  sx_assert(rob2dis.stall == ((v[0] && restarts(head[0])) || (v[1] && restarts(head[1]))), "dispatch stops for an instruction that restarts");
  sx_assert(rob2dis.empty == empty && rob2dis.ready == !(deq == enq && deqf != enqf), "room is announced");
  sx_assert(rob2dis.enq_idx == enq && rob2dis.rob_flag == enqf, "the next place is announced");
  // progress
  sx_assert(mis || !any || retires || (!irq && (!done(h) || (fence(h) && pend))) , "the oldest completed instruction retires");
  sx_assert(mis || empty || any || irq || rob.deq_ptr == ((deq + 1) & (NL - 1)), "an empty line is left");
  sx_cover(c[0] && c[1], "two instructions retire");
  sx_cover(irq_taken && !done(h), "an interrupt replaces an unfinished instruction");
  sx_cover(rob_bcast.flush && !irq_taken && c[1], "a restart from the second place");
  sx_cover(t && h.page_fault_store && h.page_fault_load, "store fault with load fault");
}

// Which instructions are in flight afterwards, for any one place.
static void slot(bool mis) {
  state();
  for (int b = 0; b < NB; b++)
    any_state(rob.entry[b][deq].uop, b);
  uint32_t xb = sx_var("bank", 0, 1), xl = sx_var("line", 0, clog2(NL));
  bool xv = rob.entry[xb][xl].valid;
  RobStoredInst X = rob.entry[xb][xl].uop;
  any_rest(X, 2);
  if (xl != deq)
    any_state(X, 2);
  rob.entry[xb][xl].uop = X;
  uint32_t n = used_lines(deq, deqf, enq, enqf), ri = 0;
  bool red_is_x = false;
  if (mis) {
    dec_bcast.mispred = true;
    ri = sx_var("redirect", 0, ROB_IDX_WIDTH);
    dec_bcast.redirect_rob_idx = ri;
    sx_assume(in_use(ri / NB, deq, n) && rob.entry[ri % NB][ri / NB].valid);
    red_is_x = ri == xl * NB + xb;
  } else {
    dec_bcast.mispred = false;
    for (int i = 0; i < DECODE_WIDTH; i++) {
      auto &u = dis2rob.uop[i];
      RobStoredInst s;
      any_rest(s, 8 + i);
      dis2rob.dis_fire[i] = sx_var("fire", i, 1);
      u.dest_areg = s.dest_areg, u.dest_preg = s.dest_preg, u.old_dest_preg = s.old_dest_preg, u.dest_en = s.dest_en, u.ftq_idx = s.ftq_idx, u.ftq_offset = s.ftq_offset,
      u.ftq_is_last = s.ftq_is_last, u.func3 = s.func3, u.func7 = s.func7, u.rob_idx = s.rob_idx, u.rob_flag = s.rob_flag, u.stq_idx = s.stq_idx, u.stq_flag = s.stq_flag, u.is_ret = s.is_ret;
      u.diag_val = sx_var("ndiag", i, 32);
      u.type = sx_var("ntype", i, INST_TYPE_WIDTH);
      u.expect_mask = sx_var("nexp", i, ROB_CPLT_MASK_WIDTH);
      u.cplt_mask = sx_var("ncplt", i, ROB_CPLT_MASK_WIDTH);
      u.page_fault_inst = sx_var("npfi", i, 1);
      u.illegal_inst = sx_var("nill", i, 1);
      u.mispred = u.br_taken = u.flush_pipe = false;
    }
  }
  cycle();
  bool c[NB] = {(bool)rob_commit.commit_entry[0].valid, (bool)rob_commit.commit_entry[1].valid};
  bool full = deq == enq && deqf != enqf;
  const auto &N = rob.entry[xb][xl];
  bool committed = xl == deq && c[xb];
  uint32_t pos = ((xl - deq) & (NL - 1)) * NB + xb, rpos = ((ri / NB - deq) & (NL - 1)) * NB + ri % NB;
  bool squashed = mis && pos > rpos;
  bool f[2] = {!mis && !full && dis2rob.dis_fire[0], !mis && !full && dis2rob.dis_fire[1]};
  bool arrives = f[xb] && xl == enq && !rob_bcast.flush;
  bool stays = xv && !committed && !squashed && !rob_bcast.flush;
  sx_assert(N.valid == (stays || arrives), "an instruction leaves by retirement, restart or an older misprediction, and by nothing else");
  if (stays) {
    sx_assert(same_stored(N.uop, X, X.ftq_is_last || red_is_x), "an instruction in flight is not changed");
    sx_assert(N.uop.cplt_mask == X.cplt_mask && N.uop.page_fault_inst == X.page_fault_inst && N.uop.page_fault_load == X.page_fault_load &&
                  N.uop.page_fault_store == X.page_fault_store && N.uop.diag_val == X.diag_val && N.uop.flush_pipe == X.flush_pipe && N.uop.mispred == X.mispred && N.uop.br_taken == X.br_taken,
              "an instruction in flight is not changed");
  }
  if (arrives) {
    const auto &u = dis2rob.uop[xb];
    RobStoredInst s;
    s.dest_areg = u.dest_areg, s.dest_preg = u.dest_preg, s.old_dest_preg = u.old_dest_preg, s.dest_en = u.dest_en, s.ftq_idx = u.ftq_idx, s.ftq_offset = u.ftq_offset,
    s.ftq_is_last = u.ftq_is_last, s.func3 = u.func3, s.func7 = u.func7, s.rob_idx = u.rob_idx, s.rob_flag = u.rob_flag, s.stq_idx = u.stq_idx, s.stq_flag = u.stq_flag, s.is_ret = u.is_ret;
    s.type = u.type, s.expect_mask = u.expect_mask, s.illegal_inst = u.illegal_inst;
    sx_assert(same_stored(N.uop, s, u.ftq_is_last), "an arriving instruction is stored");
    sx_assert(N.uop.cplt_mask == 0 && N.uop.page_fault_inst == u.page_fault_inst && !N.uop.page_fault_load && !N.uop.page_fault_store && N.uop.diag_val == u.diag_val, "an arriving instruction starts afresh");
  }
  uint32_t d = rob.deq_ptr, e = rob.enq_ptr, m = used_lines(d, rob.deq_flag, e, rob.enq_flag);
  sx_assert(pointers_ok(d, rob.deq_flag, e, rob.enq_flag), "the pointers agree");
  sx_assert(!N.valid || in_use(xl, d, m), "every instruction in flight is between head and tail");
  sx_assert(!N.valid || arrives || ((xl - d) & (NL - 1)) * NB + xb + 2 >= pos || d == deq, "the order is kept");
  sx_assert(rob_bcast.flush ? m == 0 : d == deq || (d == ((deq + 1) & (NL - 1)) && n > 0), "the head moves by one line at most");
  if (!rob_bcast.flush)
    sx_assert(e == (mis ? ((ri / NB + 1) & (NL - 1)) : (f[0] || f[1]) ? ((enq + 1) & (NL - 1)) : enq), "the tail follows the newest instruction");
  sx_assert(rob_bcast.flush || m <= NL, "no more lines than there are");
  if (mis) {
    sx_cover(squashed && xv && full, "squashed in a full buffer");
    sx_cover(stays && red_is_x, "the branch itself stays");
    sx_cover(stays && xl == deq && ri / NB < deq, "wrapped around");
  } else {
    sx_cover(arrives && xl == NL - 1, "arrives in the last line");
    sx_cover(arrives && c[0] && c[1], "arrives while two retire");
    sx_cover(stays && xl == deq && c[0], "stays behind");
  }
}
extern "C" void hx_slot() { slot(false); }
extern "C" void hx_squash() { slot(true); }

// Completion reports: any one instruction under the reports of all ports.
extern "C" void hx_complete() {
  state();
  uint32_t xb = sx_var("bank", 0, 1), xl = sx_var("line", 0, clog2(NL));
  RobStoredInst X;
  any_state(X, 2);
  any_rest(X, 2);
  sx_assume(rob.entry[xb][xl].valid && xl != deq && !csr2rob.interrupt_req);
  rob.entry[xb][xl].uop = X;
  dec_bcast.mispred = false;
  uint32_t bits = 0;
  bool mis = X.mispred, taken = X.br_taken, pfl = X.page_fault_load, pfs = X.page_fault_store, flush = X.flush_pipe;
  bool faulted = pfl || pfs, brv = false;
  uint32_t addr = X.diag_val, ndiag = 0;
  const bool amo = X.type == AMO, ld = X.type == LOAD, st = X.type == STORE, sc = amo && (X.func7 >> 2) == AmoOp::SC, br = X.type == BR || X.type == JALR;
  sx_assume(!faulted || addr == sx_var("vaddr", 0, 32));
  for (int i = 0; i < ISSUE_WIDTH; i++) {
    auto &p = exu2rob.entry[i];
    p.valid = sx_var("p", i, 1);
    p.uop.rob_idx = sx_var("pidx", i, ROB_IDX_WIDTH);
    p.uop.op = sx_var("pop", i, UOP_TYPE_WIDTH);
    p.uop.diag_val = sx_var("pdiag", i, 32);
    p.uop.result = sx_var("pres", i, 32);
    p.uop.mispred = sx_var("pmis", i, 1);
    p.uop.br_taken = sx_var("ptk", i, 1);
    p.uop.page_fault_load = sx_var("ppfl", i, 1);
    p.uop.page_fault_store = sx_var("ppfs", i, 1);
    p.uop.flush_pipe = sx_var("pfp", i, 1);
    bool isld = i >= IQ_LD_PORT_BASE && i < IQ_LD_PORT_BASE + LSU_LDU_COUNT, issta = i >= IQ_STA_PORT_BASE && i < IQ_STA_PORT_BASE + LSU_STA_COUNT, isbr = i >= IQ_BR_PORT_BASE && i < IQ_BR_PORT_BASE + BRU_NUM;
    bool isstd = i >= IQ_STD_PORT_BASE && i < IQ_STD_PORT_BASE + 2, isalu = !isld && !issta && !isbr && !isstd;
    sx_assume(p.uop.op < MAX_UOP_TYPE && (isbr || !is_branch_uop(decode_uop_type(p.uop.op))) && (!isbr || p.uop.op == UOP_BR || p.uop.op == UOP_JUMP));
    sx_assume((isld || (issta && !p.uop.page_fault_load)) || (!p.uop.page_fault_load && !p.uop.page_fault_store));
    // a group reports once
    bool mine = p.valid && p.uop.rob_idx == xl * NB + xb;
    uint32_t bit = isld || isalu ? ROB_CPLT_G0 : isbr || issta ? ROB_CPLT_G1 : ROB_CPLT_G2;
    sx_assume(!mine || ((bits & bit) == 0 && (X.cplt_mask & bit) == 0 && (X.expect_mask & bit)));
    sx_assume(!mine || (isld ? ld || amo : issta ? st || (amo && !sc) : isbr ? br : isstd ? st || amo : !ld && !st && !amo && !br));
    sx_assume(!mine || (isld && p.uop.page_fault_store ? sc && !p.uop.page_fault_load : true));
    sx_assume(!(mine && (p.uop.page_fault_load || p.uop.page_fault_store)) || p.uop.result == sx_var("vaddr", 0, 32));
    if (mine) {
      bits |= bit;
      flush = flush || p.uop.flush_pipe;
      pfl = pfl || (isld && p.uop.page_fault_load);
      pfs = pfs || p.uop.page_fault_store;
      if (isbr) {
        brv = true, mis = p.uop.mispred, taken = p.uop.br_taken, ndiag = p.uop.diag_val;
      }
    }
  }
  cycle();
  const auto &N = rob.entry[xb][xl];
  sx_assert(N.valid, "a report removes nothing");
  sx_assert(N.uop.cplt_mask == (X.cplt_mask | bits), "an instruction is complete exactly when all its parts have reported");
  sx_assert(N.uop.page_fault_store == pfs && (N.uop.page_fault_load == pfl || (pfs && !N.uop.page_fault_load)) && N.uop.page_fault_inst == X.page_fault_inst, "faults are kept until retirement");
  sx_assert(!(pfl || pfs) || N.uop.diag_val == sx_var("vaddr", 0, 32), "the trap value is the address of the access that faulted, in whichever order its parts report");
  sx_assert(N.uop.flush_pipe == flush, "a demand for a restart is kept");
  sx_assert(N.uop.mispred == mis && N.uop.br_taken == taken && (!brv || N.uop.diag_val == ndiag), "a branch keeps its outcome");
  sx_assert(bits != 0 || (N.uop.diag_val == X.diag_val), "reports of others do not matter");
  sx_assert(same_stored(N.uop, X, X.ftq_is_last), "a report changes nothing else");
  sx_cover(amo && X.page_fault_store && bits == ROB_CPLT_G0, "the read of an atomic access reports after the fault of its write");
  sx_cover(amo && bits == (ROB_CPLT_G0 | ROB_CPLT_G1), "two parts report together");
}
