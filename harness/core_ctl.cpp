// D02: jumps and branches through the core's execution path.
#include "core_path.h"

static void run(uint32_t fixed, uint32_t free, int brport) {
  path_init();
  uint32_t inst = (sx_var("inst", 0, 32) & free) | fixed;
  pc_ = sx_var("pc", 0, 32);
  pnext_ = sx_var("pnext", 0, 32);
  ptaken_ = sx_var("ptaken", 0, 1);
  bool branch = (fixed & 0x7f) == 0x63;
  IsaOut o = isa_ctl(inst, pc_, reg0[isa_rs1(inst)], reg0[isa_rs2(inst)]);
  sx_assume(o.known);
  Ran r = dispatch(inst);
  sx_assert(r.has[IQ_BR] && r.has[IQ_INT] == !branch && !r.has[IQ_LD] && !r.has[IQ_STA] && !r.has[IQ_STD], "dispatched as a branch operation (and a link operation for jumps)");
  sx_assert(!r.d.illegal_inst, "a defined encoding is not illegal");
  sx_assert(r.d.dest_en == (!branch && isa_rd(inst) != 0), "writes a register only for a jump with rd other than x0");
  sx_assert(!r.d.dest_en || r.d.dest_areg == isa_rd(inst), "destination register number");
  uint32_t brid = r.u[IQ_BR].br_id;
  if (!branch)
    issue(1, r.u[IQ_INT]);
  issue(brport, r.u[IQ_BR]);
  int resolved = 0, wrote = 0, linkdone = 0;
  bool mispred = false;
  uint32_t target = 0;
  for (int c = 0; c < 4; c++) {
    cycle(r);
    no_issue();
    for (int i = 0; i < ISSUE_WIDTH; i++) {
      if (exu2rob.entry[i].valid) {
        sx_assert(exu2rob.entry[i].uop.rob_idx == r.rob, "completion names the instruction");
        if (i == brport) {
          resolved++;
          mispred = exu2rob.entry[i].uop.mispred;
          target = exu2rob.entry[i].uop.diag_val;
          sx_assert(exu2id.clear_mask == (1u << brid), "the resolved branch's tag is released");
          sx_assert(exu2id.mispred == mispred, "redirect request agrees with the completion");
          if (mispred) {
            sx_assert(exu2id.redirect_pc == o.next, "redirect to the next pc");
            sx_assert(exu2id.br_id == brid && exu2id.redirect_rob_idx == r.rob && exu2id.ftq_idx == r.u[IQ_BR].ftq_idx, "redirect names the branch");
          }
          sx_assert(branch == 0 || exu2rob.entry[i].uop.br_taken == (o.next != pc_ + 4) || o.next == pc_ + 4, "direction recorded");
        } else {
          linkdone++;
          sx_assert(i == 1 && !exu2rob.entry[i].uop.mispred, "link completion");
        }
      } else if (i == brport)
        sx_assert(!exu2id.mispred && exu2id.clear_mask == 0, "no redirect without a branch");
      if (exe2prf.entry[i].valid && exe2prf.entry[i].uop.dest_en)
        wrote++;
    }
  }
  sx_assert(resolved == 1 && linkdone == !branch, "completes exactly once");
  sx_assert(wrote == r.d.dest_en, "writes back once");
  sx_assert(target == o.next, "next pc reported at completion");
  uint32_t predicted = ptaken_ ? pnext_ : pc_ + 4;
  sx_assert(predicted == o.next || mispred, "a wrong prediction is detected");
  // no spurious recovery: jumps and taken branches predicted taken to the right
  // place, and not-taken branches predicted not taken
  bool istaken = !branch || o.next != pc_ + 4;
  if (istaken)
    sx_assert(!(ptaken_ && pnext_ == o.next) || !mispred, "a right prediction is kept");
  else if (!ptaken_)
    sx_assert(!mispred || isa_immB(inst) == 4, "a right prediction is kept");
  for (int p = 0; p < PRF_NUM; p++)
    sx_assert(prf.reg_file[p] == (p == DEST && r.d.dest_en ? pc_ + 4 : reg0[p]), "registers");
  sx_cover(mispred && istaken, "mispredicted");
  sx_cover(!mispred, "predicted");
  sx_observe("next", 0, target);
}
extern "C" void hx_c_jal() { run(0x6f, ~0x7fu, 8); }
extern "C" void hx_c_jalr() { run(0x67, ~0x707fu, 9); }
#define BR(n) extern "C" void hx_c_br##n() { run(0x63 | (n << 12), ~0x707fu, n & 1 ? 8 : 9); }
BR(0) BR(1) BR(4) BR(5) BR(6) BR(7)

// two branches resolved in the same cycle: the older mispredict wins
extern "C" void hx_c_two() {
  path_init();
  Ran r{};
  DisIssIO::DisIssUop u[2];
  for (int k = 0; k < 2; k++) {
    u[k].op = UOP_BR;
    u[k].src1_en = u[k].src2_en = true;
    u[k].src1_preg = sx_var("s1", k, 6);
    u[k].src2_preg = sx_var("s2", k, 6);
    u[k].func3 = sx_var("f3", k, 3);
    sx_assume(u[k].func3 != 2 && u[k].func3 != 3);
    u[k].imm = sx_var("imm", k, 32);
    u[k].br_id = sx_var("brid", k, 4);
    u[k].br_mask = sx_var("brmask", k, 16);
    u[k].rob_idx = sx_var("rob", k, 6);
    u[k].rob_flag = sx_var("robf", k, 1);
    u[k].ftq_idx = sx_var("ftqi", k, 4);
    u[k].ftq_offset = k;
    issue(8 + k, u[k]);
  }
  sx_assume(u[0].br_id != u[1].br_id);
  sx_assume(u[0].rob_idx != u[1].rob_idx);
  uint32_t pc[2], pn[2];
  bool pt[2];
  for (int k = 0; k < 2; k++) {
    pc[k] = sx_var("pc", k, 32);
    pn[k] = sx_var("pn", k, 32);
    pt[k] = sx_var("pt", k, 1);
  }
  pc_ = pn[0];
  // same order of calls as cycle(), answering each port with its own branch
  exu.comb_begin();
  prf.comb_begin();
  exu.comb_exec();
  prf.comb_req_ftq();
  for (int k = 0; k < 2; k++) {
    auto &q = ftq_resp.resp[ALU_NUM + k];
    sx_assert(ftq_req.req[ALU_NUM + k].valid && ftq_req.req[ALU_NUM + k].ftq_idx == u[k].ftq_idx && ftq_req.req[ALU_NUM + k].ftq_offset == u[k].ftq_offset, "asks for the pc of each branch");
    q.valid = q.entry_valid = true;
    q.pc = pc[k];
    q.pred_taken = pt[k];
    q.next_pc = pn[k];
  }
  prf.comb_read();
  prf.comb_pipeline();
  exu.comb_pipeline();
  prf.seq();
  exu.seq();
  sim_time++;
  no_issue();
  cycle(r);
  bool mis[2];
  uint32_t next[2];
  for (int k = 0; k < 2; k++) {
    sx_assert(exu2rob.entry[8 + k].valid && exu2rob.entry[8 + k].uop.rob_idx == u[k].rob_idx, "both complete");
    uint32_t a = reg0[u[k].src1_preg], b = reg0[u[k].src2_preg];
    uint32_t f = u[k].func3;
    bool t = (f & 4) ? ((f & 2) ? a < b : (int32_t)a < (int32_t)b) : a == b;
    if (f & 1)
      t = !t;
    next[k] = t ? pc[k] + u[k].imm : pc[k] + 4;
    mis[k] = exu2rob.entry[8 + k].uop.mispred;
    uint32_t pred = pt[k] ? pn[k] : pc[k] + 4;
    sx_assert(mis[k] || pred == next[k], "a wrong prediction is detected");
  }
  sx_assert(exu2id.clear_mask == ((1u << u[0].br_id) | (1u << u[1].br_id)), "both tags are released");
  sx_assert(exu2id.mispred == (mis[0] || mis[1]), "redirect if either is wrong");
  bool zero_older = u[0].rob_flag == u[1].rob_flag ? u[0].rob_idx < u[1].rob_idx : u[0].rob_idx > u[1].rob_idx;
  int w = mis[0] && mis[1] ? (zero_older ? 0 : 1) : mis[0] ? 0 : 1;
  if (mis[0] || mis[1])
    sx_assert(exu2id.redirect_pc == next[w] && exu2id.br_id == u[w].br_id && exu2id.redirect_rob_idx == u[w].rob_idx && exu2id.ftq_idx == u[w].ftq_idx, "redirect to the oldest wrong branch's successor");
  sx_cover(mis[0] && mis[1] && !zero_older, "both wrong, port 1 older");
  sx_observe("redir", 0, exu2id.redirect_pc);
}
