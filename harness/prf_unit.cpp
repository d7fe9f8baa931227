// O01: operands read by the core are the newest values of their registers.
#include "Prf.h"
#include "sx.h"
static SimContext ctx;
static Prf prf(&ctx);
static IssPrfIO iss2prf;
static ExePrfIO exe2prf;
static DecBroadcastIO dec_bcast;
static RobBroadcastIO rob_bcast;
static FtqPrfPcRespIO ftq_resp;
static PrfExeIO prf2exe;
static PrfAwakeIO awake;
static FtqPrfPcReqIO ftq_req;
typedef ExePrfIO::ExePrfEntry Ent;

static Ent ent(const char *name, int i) {
  Ent e;
  uint64_t v = sx_var(name, i, 64);
  e.valid = v & 1;
  e.uop.dest_en = v >> 1 & 1;
  e.uop.dest_preg = v >> 2 & (PRF_NUM - 1);
  e.uop.br_mask = v >> 8;
  e.uop.result = v >> 24;
  // only the load writeback ports carry loads
  e.uop.op = (v >> 56 & 1) && i >= IQ_LD_PORT_BASE && i < IQ_LD_PORT_BASE + LSU_LOAD_WB_WIDTH ? UOP_LOAD : UOP_ADD;
  return e;
}
static bool writes(const Ent &e, uint32_t p) { return e.valid && e.uop.dest_en && e.uop.dest_preg == p; }
static uint32_t reg0[PRF_NUM];
static Ent wb0[ISSUE_WIDTH];

static void init() {
  prf.in = {&iss2prf, &exe2prf, &dec_bcast, &rob_bcast, &ftq_resp};
  prf.out = {&prf2exe, &awake, &ftq_req};
  prf.init();
  for (int i = 1; i < PRF_NUM; i++)
    prf.reg_file[i] = reg0[i] = sx_var("preg", i, 32);
  for (int i = 0; i < ISSUE_WIDTH; i++)
    prf.inst_r[i] = wb0[i] = ent("wb", i);
  for (int i = 0; i < ISSUE_WIDTH; i++)
    exe2prf.entry[i] = ent("ex", i);
  for (int i = 0; i < TOTAL_FU_COUNT; i++)
    exe2prf.bypass[i] = ent("byp", i);
  rob_bcast.flush = sx_var("flush", 0, 1);
  dec_bcast.mispred = sx_var("mis", 0, 1);
  dec_bcast.br_mask = sx_var("kill", 0, BR_MASK_WIDTH);
  dec_bcast.clear_mask = sx_var("clear", 0, BR_MASK_WIDTH);
}
static void cycle() {
  prf.comb_begin();
  prf.comb_complete();
  prf.comb_awake();
  prf.comb_write();
  prf.comb_req_ftq();
  prf.comb_read();
  prf.comb_pipeline();
  prf.seq();
}

// one operand of one issue port
template <int PORT> static void read_op() {
  init();
  auto &u = iss2prf.iss_entry[PORT].uop;
  iss2prf.iss_entry[PORT].valid = true;
  u.op = UOP_ADD;
  u.src1_en = sx_var("en", 0, 1);
  u.src2_en = sx_var("en", 1, 1);
  u.src1_preg = sx_var("src", 0, PRF_IDX_WIDTH);
  u.src2_preg = sx_var("src", 1, PRF_IDX_WIDTH);
  // a register has one producer in flight
  uint32_t want[2];
  for (int s = 0; s < 2; s++) {
    uint32_t p = s ? u.src2_preg : u.src1_preg;
    bool en = s ? u.src2_en : u.src1_en;
    int nb = 0, nw = 0;
    uint32_t v = 0;
    for (int i = 0; i < PRF_NUM; i++)
      v = (uint32_t)i == p ? reg0[i] : v;
    for (int i = 0; i < ISSUE_WIDTH; i++) {
      nw += writes(wb0[i], p);
      v = writes(wb0[i], p) ? wb0[i].uop.result : v;
    }
    for (int i = 0; i < TOTAL_FU_COUNT; i++) {
      nb += writes(exe2prf.bypass[i], p);
      v = writes(exe2prf.bypass[i], p) ? exe2prf.bypass[i].uop.result : v;
    }
    // (physical register 0 stands for x0 and is not allocated)
    sx_assume(p == 0 || (nb <= 1 && nw <= 1));
    want[s] = en && p != 0 ? v : 0;
  }
  cycle();
  auto &e = prf2exe.iss_entry[PORT];
  sx_assert(e.valid, "an issued operation is passed on");
  sx_assert(e.uop.src1_rdata == want[0], "first operand is the newest value");
  sx_assert(e.uop.src2_rdata == want[1], "second operand is the newest value");
  for (int i = 0; i < ISSUE_WIDTH; i++)
    sx_assert(i == PORT || !prf2exe.iss_entry[i].valid, "nothing else is passed on");
  sx_cover(u.src1_en && u.src1_preg == 0 && wb0[2].valid && wb0[2].uop.dest_en && wb0[2].uop.dest_preg == 0 && wb0[2].uop.result, "x0 read while a discarded result is written back");
  sx_cover(u.src2_en && writes(exe2prf.bypass[1], u.src2_preg) && writes(wb0[3], u.src2_preg), "two generations in flight");
  sx_observe("src1", 0, e.uop.src1_rdata);
  sx_observe("src2", 0, e.uop.src2_rdata);
}
extern "C" void hx_read0() { read_op<0>(); }
extern "C" void hx_read1() { read_op<IQ_ALU_PORT_BASE + 1>(); }
extern "C" void hx_read2() { read_op<IQ_LD_PORT_BASE>(); }
extern "C" void hx_read3() { read_op<IQ_STA_PORT_BASE>(); }
extern "C" void hx_read4() { read_op<IQ_STD_PORT_BASE + 1>(); }
extern "C" void hx_read5() { read_op<IQ_BR_PORT_BASE>(); }

// results enter the writeback stage unless squashed, and the register file one
// cycle later; loads announce their register then
extern "C" void hx_writeback() {
  init();
  for (int i = 0; i < ISSUE_WIDTH; i++)
    for (int j = 0; j < i; j++)
      sx_assume(!(wb0[i].uop.dest_preg != 0 && writes(wb0[j], wb0[i].uop.dest_preg) && writes(wb0[i], wb0[i].uop.dest_preg)));
  cycle();
  for (int p = 0; p < PRF_NUM; p++) {
    uint32_t v = reg0[p];
    for (int i = 0; i < ISSUE_WIDTH; i++)
      v = p && writes(wb0[i], p) ? wb0[i].uop.result : v;
    sx_assert(prf.reg_file[p] == v, "register file takes the written back results only");
  }
  for (int i = 0; i < ISSUE_WIDTH; i++) {
    const auto &e = exe2prf.entry[i];
    bool keep = e.valid && !rob_bcast.flush && !(dec_bcast.mispred && (e.uop.br_mask & dec_bcast.br_mask));
    const auto &n = prf.inst_r[i];
    sx_assert(n.valid == keep, "a result is kept unless squashed");
    sx_assert(!keep || (n.uop.dest_en == e.uop.dest_en && n.uop.dest_preg == e.uop.dest_preg && n.uop.result == e.uop.result && n.uop.op == e.uop.op), "kept results are unchanged");
    sx_assert(!keep || n.uop.br_mask == (e.uop.br_mask & ~dec_bcast.clear_mask & ((1u << BR_MASK_WIDTH) - 1)), "resolved branches leave the mask");
  }
  uint32_t probe = sx_var("probe", 0, PRF_IDX_WIDTH);
  bool want = false, got = false;
  for (int i = 0; i < ISSUE_WIDTH; i++)
    want = want || (writes(wb0[i], probe) && decode_uop_type(wb0[i].uop.op) == UOP_LOAD &&
                    !(dec_bcast.mispred && (wb0[i].uop.br_mask & dec_bcast.br_mask)));
  for (int i = 0; i < LSU_LOAD_WB_WIDTH; i++)
    got = got || (awake.wake[i].valid && awake.wake[i].preg == probe);
  sx_assert(want == got, "exactly the loads written back wake their consumers");
  sx_cover(want && rob_bcast.flush, "wake during flush");
  sx_cover(prf.inst_r[4].valid && dec_bcast.mispred && dec_bcast.clear_mask, "kept in a misprediction");
  sx_observe("reg", 5, prf.reg_file[5]);
}

// the program counter and prediction of an operation that needs them
template <int PORT, int OP, int SLOT> static void pcread() {
  init();
  auto &u = iss2prf.iss_entry[PORT].uop;
  iss2prf.iss_entry[PORT].valid = true;
  u.op = OP;
  u.src1_is_pc = OP == UOP_ADD;
  u.ftq_idx = sx_var("ftq", 0, FTQ_IDX_WIDTH);
  u.ftq_offset = sx_var("ftq", 1, FTQ_OFFSET_WIDTH);
  prf.comb_begin();
  prf.comb_req_ftq();
  for (int i = 0; i < FTQ_PRF_PC_PORT_NUM; i++) {
    auto &q = ftq_req.req[i];
    auto &r = ftq_resp.resp[i];
    r.valid = q.valid;
    uint32_t key = (uint32_t)q.ftq_idx << 8 | q.ftq_offset;
    r.pc = sx_uf("pc", key, 32);
    r.pred_taken = sx_uf("taken", key, 1);
    r.next_pc = sx_uf("next", key, 32);
  }
  prf.comb_read();
  uint32_t key = (uint32_t)u.ftq_idx << 8 | u.ftq_offset;
  auto &e = prf2exe.iss_entry[PORT].uop;
  sx_assert(e.pc == (uint32_t)sx_uf("pc", key, 32), "program counter of this operation");
  sx_assert(e.ftq_resp_valid && e.ftq_pred_taken == (bool)sx_uf("taken", key, 1) && e.ftq_next_pc == (uint32_t)sx_uf("next", key, 32), "prediction of this operation");
  sx_cover(e.pc == 0x80000000u, "some pc");
}
extern "C" void hx_pc_alu() { pcread<IQ_ALU_PORT_BASE + 1, UOP_ADD, 1>(); }
extern "C" void hx_pc_br() { pcread<IQ_BR_PORT_BASE + 1, UOP_BR, 1>(); }
