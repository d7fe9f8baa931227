// D03: addresses and data the core sends to its load/store unit.
#include "core_path.h"

static bool ld, sta, std_;
static ExeLsuIO::ExeLsuReqUop uld, usta, ustd;
static int nld, nsta, nstd;
static void collect(const Ran &r) {
  for (int i = 0; i < LSU_AGU_COUNT; i++)
    if (exe2lsu.agu_req[i].valid) {
      if (i < 2) {
        nld++;
        uld = exe2lsu.agu_req[i].uop;
      } else {
        nsta++;
        usta = exe2lsu.agu_req[i].uop;
      }
    }
  for (int i = 0; i < LSU_SDU_COUNT; i++)
    if (exe2lsu.sdu_req[i].valid) {
      nstd++;
      ustd = exe2lsu.sdu_req[i].uop;
    }
  for (int i = 0; i < ISSUE_WIDTH; i++) {
    sx_assert(!(exe2prf.entry[i].valid && exe2prf.entry[i].uop.dest_en), "no register write before the LSU answers");
    if (exu2rob.entry[i].valid)
      sx_assert(i >= IQ_STD_PORT_BASE && i < IQ_BR_PORT_BASE && exu2rob.entry[i].uop.rob_idx == r.rob, "only the store data part completes here");
  }
}
enum Kind { LD, ST, LRK, SCK, AMOK };
static void run(Kind k, uint32_t fixed, uint32_t free) {
  path_init();
  uint32_t inst = (sx_var("inst", 0, 32) & free) | fixed;
  uint32_t f5 = inst >> 27;
  uint32_t a = reg0[isa_rs1(inst)], b = reg0[isa_rs2(inst)];
  Ran r = dispatch(inst);
  bool wl = k == LD || k == LRK || k == AMOK, ws = k == ST || k == SCK || k == AMOK;
  sx_assert(r.has[IQ_LD] == wl && r.has[IQ_STA] == ws && r.has[IQ_STD] == ws && !r.has[IQ_INT] && !r.has[IQ_BR], "split into load, store address and store data parts");
  sx_assert(!r.d.illegal_inst, "a defined encoding is not illegal");
  uint32_t rd = isa_rd(inst);
  if (k == ST)
    sx_assert(!r.d.dest_en, "stores write no register");
  else if (k == AMOK) // needs the old value even when rd is x0
    sx_assert(r.d.dest_en && r.d.dest_areg == (rd ? rd : 32), "destination register number");
  else {
    sx_assert(r.d.dest_en == (rd != 0), "writes a register unless rd is x0");
    sx_assert(!r.d.dest_en || r.d.dest_areg == rd, "destination register number");
  }
  if (wl)
    issue(3, r.u[IQ_LD]);
  if (ws)
    issue(4, r.u[IQ_STA]);
  cycle(r);
  collect(r);
  no_issue();
  cycle(r);
  collect(r);
  // the store data part of an AMO is issued when the load has returned the old
  // value into the destination register
  uint32_t old = sx_var("old", 0, 32);
  if (k == AMOK)
    prf.reg_file[DEST] = old;
  if (ws)
    issue(7, r.u[IQ_STD]);
  cycle(r);
  collect(r);
  no_issue();
  for (int c = 0; c < 2; c++) {
    cycle(r);
    collect(r);
  }
  sx_assert(nld == wl && nsta == ws && nstd == ws, "each part sent once");
  uint32_t addr = a + (k == LD ? isa_immI(inst) : k == ST ? isa_immS(inst) : 0);
  if (wl) {
    sx_assert(uld.result == addr, "load address");
    sx_assert(uld.func3 == isa_f3(inst) && uld.rob_idx == r.rob && uld.rob_flag == r.robflag && uld.ldq_idx == lsu2dis.ldq_alloc_idx[0] && uld.op == UOP_LOAD, "load request names its queue entry and width");
    sx_assert(r.d.dest_en ? uld.dest_en && uld.dest_preg == DEST : !uld.dest_en || uld.dest_preg == 0, "load destination");
    // a load must know which stores are older
    sx_assert(uld.stq_idx == lsu2dis.stq_tail && uld.stq_flag == lsu2dis.stq_tail_flag, "load remembers the store queue position");
    sx_assert(uld.is_atomic == (k != LD), "atomic mark of the load");
  }
  if (ws) {
    sx_assert(usta.result == addr, "store address");
    sx_assert(usta.func3 == isa_f3(inst) && usta.rob_idx == r.rob && usta.rob_flag == r.robflag && usta.stq_idx == lsu2dis.stq_tail && usta.stq_flag == lsu2dis.stq_tail_flag && usta.op == UOP_STA, "store address request names its queue entry");
    sx_assert(k == SCK && r.d.dest_en ? usta.dest_en && usta.dest_preg == DEST : !usta.dest_en || (k == SCK && usta.dest_preg == 0), "only a store-conditional returns a value");
    uint32_t data = k == AMOK ? isa_amo(f5, old, b) : b;
    sx_assert(ustd.result == data, "store data");
    sx_assert(ustd.stq_idx == lsu2dis.stq_tail && ustd.stq_flag == lsu2dis.stq_tail_flag && ustd.rob_idx == r.rob && ustd.op == UOP_STD && !ustd.dest_en, "store data request names its queue entry");
    sx_assert(dis2lsu.alloc_req[0] && !dis2lsu.alloc_req[1] && dis2lsu.rob_idx[0] == r.rob && dis2lsu.rob_flag[0] == r.robflag && dis2lsu.stq_flag[0] == lsu2dis.stq_tail_flag && dis2lsu.func3[0] == isa_f3(inst), "one store queue entry allocated");
  } else
    sx_assert(!dis2lsu.alloc_req[0], "no store queue entry");
  sx_assert(dis2lsu.ldq_alloc_req[0] == wl && !dis2lsu.ldq_alloc_req[1], "one load queue entry per load");
  if (wl)
    sx_assert(dis2lsu.ldq_idx[0] == lsu2dis.ldq_alloc_idx[0] && dis2lsu.ldq_rob_idx[0] == r.rob && dis2lsu.ldq_rob_flag[0] == r.robflag, "load queue entry");
  for (int p = 0; p < PRF_NUM; p++)
    if (!(k == AMOK && p == DEST))
      sx_assert(prf.reg_file[p] == reg0[p], "registers unchanged");
  sx_cover(rd == 0, "rd is x0");
  sx_cover(rd != 0, "rd is not x0");
  sx_observe("addr", 0, wl ? uld.result : usta.result);
  sx_observe("data", 0, ustd.result);
}
#define LDE(n) extern "C" void hx_c_ld##n() { run(LD, 0x03 | (n << 12), ~0x707fu); }
LDE(0) LDE(1) LDE(2) LDE(4) LDE(5)
#define STE(n) extern "C" void hx_c_st##n() { run(ST, 0x23 | (n << 12), ~0x707fu); }
STE(0) STE(1) STE(2)
extern "C" void hx_c_lr() { run(LRK, 0x1000202f, 0x06ff8f80 & ~0x01f00000u); }
extern "C" void hx_c_sc() { run(SCK, 0x1800202f, 0x07ff8f80); }
#define AME(n) extern "C" void hx_c_amo##n() { run(AMOK, 0x202f | ((uint32_t)n << 27), 0x07ff8f80); }
AME(0) AME(1) AME(4) AME(8) AME(12) AME(16) AME(20) AME(24) AME(28)
