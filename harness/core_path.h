// One instruction pushed through the core's decode, dispatch, operand read and
// execution stages, with every neighbour of that path replaced by free inputs.
#pragma once
#include "Dispatch.h"
#include "Exu.h"
#include "Idu.h"
#include "IssueQueue.h"
#include "Prf.h"
#include "isa_spec.h"
#include "sx.h"
extern "C" {
#include "softfloat.h"
THREAD_LOCAL uint_fast8_t softfloat_roundingMode, softfloat_exceptionFlags;
}
long long sim_time = 0;
static SimContext ctx;
static Idu idu(&ctx);
static Dispatch dis(&ctx);
static Prf prf(&ctx);
static Exu exu(&ctx);

static RenDisIO ren2dis;
static RobDisIO rob2dis;
static IssDisIO iss2dis;
static LsuDisIO lsu2dis;
static PrfAwakeIO prf_awake;
static IssAwakeIO iss_awake;
static RobBroadcastIO rob_bcast;
static DecBroadcastIO dec_bcast;
static DisRenIO dis2ren;
static DisRobIO dis2rob;
static DisIssIO dis2iss;
static DisLsuIO dis2lsu;
static IssPrfIO iss2prf;
static ExePrfIO exe2prf;
static FtqPrfPcReqIO ftq_req;
static FtqPrfPcRespIO ftq_resp;
static PrfExeIO prf2exe;
static CsrExeIO csr2exe;
static LsuExeIO lsu2exe;
static CsrStatusIO csr_status;
static ExeIssIO exe2iss;
static ExeCsrIO exe2csr;
static ExeLsuIO exe2lsu;
static ExuIdIO exu2id;
static ExuRobIO exu2rob;

static const uint32_t DEST = 40; // physical register given to the destination
static uint32_t reg0[PRF_NUM];   // register file before

static void path_init() {
  dis.in = {&ren2dis, &rob2dis, &iss2dis, &lsu2dis, &prf_awake, &iss_awake, &rob_bcast, &dec_bcast};
  dis.out = {&dis2ren, &dis2rob, &dis2iss, &dis2lsu};
  prf.in = {&iss2prf, &exe2prf, &dec_bcast, &rob_bcast, &ftq_resp};
  prf.out = {&prf2exe, &prf_awake, &ftq_req};
  exu.in.prf2exe = &prf2exe;
  exu.in.dec_bcast = &dec_bcast;
  exu.in.rob_bcast = &rob_bcast;
  exu.in.csr2exe = &csr2exe;
  exu.in.lsu2exe = &lsu2exe;
  exu.in.csr_status = &csr_status;
  exu.out.exe2prf = &exe2prf;
  exu.out.exe2iss = &exe2iss;
  exu.out.exe2csr = &exe2csr;
  exu.out.exe2lsu = &exe2lsu;
  exu.out.exu2id = &exu2id;
  exu.out.exu2rob = &exu2rob;
  dis.init();
  prf.init();
  exu.init();
  for (int i = 0; i < PRF_NUM; i++) {
    prf.reg_file[i] = i ? (uint32_t)sx_var("preg", i, 32) : 0;
    reg0[i] = prf.reg_file[i];
  }
}

struct Ran {
  DecRenIO::DecRenInst d;
  bool has[IQ_NUM];           // an operation was dispatched to this queue
  DisIssIO::DisIssUop u[IQ_NUM];
  uint32_t rob;
  bool robflag;
};

// decode and dispatch inst; its sources are renamed to the physical registers
// of the same number, its destination to DEST
static Ran dispatch(uint32_t inst) {
  Ran r{};
  idu.decode(r.d, inst);
  auto &u = dis.inst_r[0];
  u = RenDisIO::RenDisInst::from_dec_ren_inst(r.d);
  u.src1_preg = r.d.src1_areg;
  u.src2_preg = r.d.src2_areg;
  u.dest_preg = r.d.dest_en ? DEST : 0;
  u.ftq_idx = sx_var("ftq", 0, 4);
  u.ftq_offset = sx_var("ftq", 1, 2);
  u.br_id = sx_var("brid", 0, 4);
  u.br_mask = sx_var("brmask", 0, 16);
  dis.inst_valid[0] = true;
  rob2dis.ready = true;
  rob2dis.empty = true;
  rob2dis.enq_idx = sx_var("robline", 0, 5) * 2;
  rob2dis.rob_flag = sx_var("robflag", 0, 1);
  for (int i = 0; i < IQ_NUM; i++)
    iss2dis.ready_num[i] = 2;
  lsu2dis.stq_tail = sx_var("stqtail", 0, 4);
  lsu2dis.stq_tail_flag = sx_var("stqflag", 0, 1);
  lsu2dis.stq_free = 4;
  lsu2dis.ldq_free = 4;
  for (int i = 0; i < MAX_LDQ_DISPATCH_WIDTH; i++) {
    lsu2dis.ldq_alloc_idx[i] = sx_var("ldqidx", i, 4);
    lsu2dis.ldq_alloc_valid[i] = true;
  }
  dis.comb_begin();
  dis.comb_alloc();
  dis.comb_wake();
  dis.comb_dispatch();
  dis.comb_fire();
  dis.comb_pipeline();
  dis.seq();
  sx_assert(dis2rob.dis_fire[0], "an instruction with room everywhere is dispatched");
  for (int q = 0; q < IQ_NUM; q++) {
    r.has[q] = dis2iss.req[q][0].valid;
    r.u[q] = dis2iss.req[q][0].uop;
    sx_assert(!dis2iss.req[q][1].valid, "one operation per queue");
  }
  r.rob = make_rob_idx(rob2dis.enq_idx, 0);
  r.robflag = rob2dis.rob_flag;
  return r;
}
static void issue(int port, const DisIssIO::DisIssUop &u) {
  iss2prf.iss_entry[port].valid = true;
  iss2prf.iss_entry[port].uop = IqStoredUop::from_dis_iss_uop(u).to_iss_prf_uop();
}
static void no_issue() {
  for (int i = 0; i < ISSUE_WIDTH; i++)
    iss2prf.iss_entry[i].valid = false;
}
static uint32_t pc_, pnext_;
static bool ptaken_;
// program counter read port: a request is answered with pc, prediction and
// predicted target of that instruction
static void ftq_answer(const Ran &r) {
  for (int i = 0; i < FTQ_PRF_PC_PORT_NUM; i++) {
    bool mine = ftq_req.req[i].valid && ftq_req.req[i].ftq_idx == r.u[IQ_INT].ftq_idx + 0u &&
                ftq_req.req[i].ftq_offset == r.u[IQ_INT].ftq_offset + 0u;
    bool mine2 = ftq_req.req[i].valid && ftq_req.req[i].ftq_idx == r.u[IQ_BR].ftq_idx + 0u &&
                 ftq_req.req[i].ftq_offset == r.u[IQ_BR].ftq_offset + 0u;
    ftq_resp.resp[i].valid = ftq_req.req[i].valid;
    ftq_resp.resp[i].entry_valid = ftq_req.req[i].valid;
    bool m = mine || mine2;
    ftq_resp.resp[i].pc = m ? pc_ : ~pc_;
    ftq_resp.resp[i].pred_taken = m ? ptaken_ : !ptaken_;
    ftq_resp.resp[i].next_pc = m ? pnext_ : ~pnext_;
  }
}
static void cycle(const Ran &r) {
  exu.comb_begin();
  prf.comb_begin();
  prf.comb_complete();
  prf.comb_awake();
  prf.comb_write();
  exu.comb_to_csr();
  exu.comb_exec();
  exu.comb_ready();
  prf.comb_req_ftq();
  ftq_answer(r);
  prf.comb_read();
  prf.comb_pipeline();
  exu.comb_pipeline();
  prf.seq();
  exu.seq();
  sim_time++;
}
