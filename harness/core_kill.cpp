// D04: squashed operations leave the execution units without a trace, and
// surviving ones complete exactly once.
#include "core_path.h"
#include "softfloat_model.h"

// FREE: every cycle brings an arbitrary squash. For the multi-cycle units the
// squash that hits happens in cycle "at" (FLUSH or HIT), all other cycles bring
// arbitrary mispredictions of unrelated branches.
enum { FREE, NONE, FLUSH, HIT };
static void run(uint32_t op, int port, int cycles, int kind = FREE, int at = 0) {
  path_init();
  DisIssIO::DisIssUop u;
  u.op = op;
  u.dest_en = sx_var("den", 0, 1);
  u.dest_preg = DEST;
  u.src1_en = u.src2_en = true;
  u.src1_preg = 1;
  u.src2_preg = 2;
  u.func3 = op == UOP_DIV ? 5 : op == UOP_CSR ? 1 : 0;
  u.imm = sx_var("imm", 0, 32);
  u.br_id = sx_var("brid", 0, 4);
  // tag 0 is never given to a branch
  u.br_mask = sx_var("brmask", 0, 16) & ~1u;
  if (kind == HIT)
    u.br_mask |= 1u << 5;
  u.rob_idx = sx_var("rob", 0, 6);
  u.rob_flag = sx_var("robf", 0, 1);
  pc_ = sx_var("pc", 0, 32);
  Ran r{};
  r.u[IQ_INT] = u;
  r.u[IQ_BR] = u;
  issue(port, u);
  bool alive = true;
  uint32_t mask = u.br_mask;
  int done = 0;
  for (int c = 0; c <= cycles; c++) {
    rob_bcast.flush = sx_var("flush", c, 1);
    dec_bcast.mispred = sx_var("mis", c, 1);
    dec_bcast.br_mask = sx_var("kill", c, 16) & ~1u;
    dec_bcast.clear_mask = sx_var("clear", c, 16);
    if (kind != FREE) {
      rob_bcast.flush = kind == FLUSH && c == at;
      if (kind == HIT && c == at) {
        dec_bcast.mispred = true;
        dec_bcast.br_mask |= 1u << 5;
      } else {
        dec_bcast.br_mask &= ~mask;
      }
      if (kind == HIT && c <= at)
        dec_bcast.clear_mask &= ~(1u << 5);
    }
    cycle(r);
    no_issue();
    alive = alive && !rob_bcast.flush && !(dec_bcast.mispred && (mask & dec_bcast.br_mask));
    mask &= ~(uint32_t)dec_bcast.clear_mask;
    int seen = 0;
    for (int i = 0; i < ISSUE_WIDTH; i++)
      if (exu2rob.entry[i].valid) {
        seen++;
        sx_assert(i == port && exu2rob.entry[i].uop.rob_idx == u.rob_idx, "completion names the operation");
      }
    for (int i = 0; i < LSU_AGU_COUNT; i++)
      if (exe2lsu.agu_req[i].valid) {
        seen++;
        sx_assert((op == UOP_LOAD || op == UOP_STA) && exe2lsu.agu_req[i].uop.rob_idx == u.rob_idx, "address request names the operation");
        sx_assert((exe2lsu.agu_req[i].uop.br_mask & ~mask & 0xffff) == 0 || dec_bcast.clear_mask, "branch mask of the address request");
      }
    int sd = 0;
    for (int i = 0; i < LSU_SDU_COUNT; i++)
      if (exe2lsu.sdu_req[i].valid)
        sd++;
    sx_assert(sd == 0 || (op == UOP_STD && seen), "store data only together with its completion");
    sx_assert(op == UOP_STD ? sd == (seen != 0) : sd == 0, "store data sent on completion");
    sx_assert(!(exe2csr.we || exe2csr.re) || (op == UOP_CSR && alive), "a squashed CSR operation does not reach the CSR unit");
    sx_assert(op == UOP_BR || (!exu2id.mispred && exu2id.clear_mask == 0), "only branches redirect");
    sx_assert((!exu2id.mispred && exu2id.clear_mask == 0) || seen, "a squashed branch does not redirect");
    sx_assert(!seen || alive, "a squashed operation does not complete");
    done += seen;
    sx_assert(done <= 1, "completes at most once");
  }
  sx_assert(!alive || done == 1, "a surviving operation completes");
  sx_cover((kind > NONE || alive) && mask != u.br_mask, "survives, mask partly cleared");
  sx_cover(kind == NONE || (kind != FREE && at >= cycles) || (!alive && !done), "squashed before completion");
  sx_observe("done", 0, done);
}
extern "C" void hx_k_alu() { run(UOP_ADD, 0, 2); }
extern "C" void hx_k_csr() { run(UOP_CSR, 0, 2); }
#define AT(name, op, port, n, c)                                           \
  extern "C" void hx_k_##name##_f##c() { run(op, port, n, FLUSH, c); }     \
  extern "C" void hx_k_##name##_h##c() { run(op, port, n, HIT, c); }
#define MUL(c) AT(mul, UOP_MUL, 0, MUL_MAX_LATENCY + 1, c)
#define DIV(c) AT(div, UOP_DIV, 1, DIV_MAX_LATENCY + 2, c)
extern "C" void hx_k_mul_n() { run(UOP_MUL, 0, MUL_MAX_LATENCY + 1, NONE); }
extern "C" void hx_k_div_n() { run(UOP_DIV, 1, DIV_MAX_LATENCY + 2, NONE); }
MUL(0) MUL(1) MUL(2) MUL(3)
DIV(0) DIV(1) DIV(2) DIV(3) DIV(4) DIV(5) DIV(6) DIV(7) DIV(8) DIV(9) DIV(10)
DIV(11) DIV(12) DIV(13) DIV(14) DIV(15) DIV(16) DIV(17) DIV(18) DIV(19)
#define FP(c) AT(fp, UOP_FP, 1, 7, c)
extern "C" void hx_k_fp_n() { run(UOP_FP, 1, 7, NONE); }
FP(0) FP(1) FP(2) FP(3) FP(4) FP(5) FP(6)
extern "C" void hx_k_ld() { run(UOP_LOAD, 2, 2); }
extern "C" void hx_k_sta() { run(UOP_STA, 5, 2); }
extern "C" void hx_k_std() { run(UOP_STD, 6, 2); }
extern "C" void hx_k_br() { run(UOP_BR, 8, 2); }
