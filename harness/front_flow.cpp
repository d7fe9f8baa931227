// F03: the front end as a whole. The branch predictor and the instruction
// cache are replaced by ones that answer anything at any time; the queues
// between them, the correction of predictions and the hand-over are real.
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include "BPU/BPU.h"
#include "front_IO.h"
#include "front_module.h"
#include "train_IO.h"
#include "util.h"
#include "sx.h"
long long sim_time = 0;

static constexpr uint32_t LINE = ~(uint32_t)(ICACHE_LINE_SIZE - 1);
static int cyc;
static bool steady; // everything answers at once
static bool dull;   // nothing is predicted to jump
static bool jumps;  // look at how groups continue, else at what they hold

// ---- memory: every address holds a different word; jumps, branches and other
// instructions in every arrangement
static uint32_t mem(uint32_t a) {
  if (a - RESET_PC < 0x1000)
    return 0x13;
  static const uint8_t kind[8] = {0x63, 0x6f, 0x67, 0x13, 0x63, 0x13, 0x6f, 0x33};
  uint32_t k = (a >> 2 ^ a >> 5) & 7, op = 0;
  for (int i = 0; i < 8; i++)
    op = k == (uint32_t)i ? kind[i] : op;
  return (a >> 2 ^ a >> 7) << 7 | op;
}
static bool bad_page(uint32_t a) {
  return a - RESET_PC >= 0x1000 && (a >> 12 & 1);
}
static uint32_t after(uint32_t a) {
  uint32_t n = a + 4 * FETCH_WIDTH;
  return (n & LINE) != (a & LINE) ? n & LINE : n;
}

// ---- predictor: any prediction; it carries on where it predicts
static uint32_t bp_pc, bp_next_pc;
static bool bp_called;
typedef BPU_TOP::OutputPayload BpOut;
static uint32_t tag_of(uint32_t pc, int k) { return pc >> (2 + k); }
static bool guess(uint32_t pc, int i) {
  return pc >> (8 + i) & 1;
}
static void meta(BpOut &o, uint32_t pc) {
  for (int i = 0; i < FETCH_WIDTH; i++) {
    o.out_alt_pred[i] = tag_of(pc, i) & 1;
    o.out_pcpn[i] = (pcpn_t)(tag_of(pc, i + 1) & 3);
    o.out_altpcpn[i] = (pcpn_t)(tag_of(pc, i + 2) & 3);
    for (int k = 0; k < TN_MAX; k++) {
      o.out_tage_tags[i][k] = (tage_tag_t)(tag_of(pc, i + k) & ((1u << tage_tag_t_BITS) - 1));
      o.out_tage_idxs[i][k] = (tage_idx_t)(tag_of(pc, i + 2 * k) & ((1u << tage_idx_t_BITS) - 1));
    }
    o.out_sc_used[i] = tag_of(pc, i) >> 1 & 1;
    o.out_sc_pred[i] = tag_of(pc, i) >> 2 & 1;
    o.out_sc_sum[i] = (tage_scl_meta_sum_t)(tag_of(pc, i) & 0x3f);
    for (int t = 0; t < BPU_SCL_META_NTABLE; t++)
      o.out_sc_idx[i][t] = (tage_scl_meta_idx_t)(tag_of(pc, i + t) & 0x3f);
    o.out_loop_used[i] = tag_of(pc, i) >> 3 & 1;
    o.out_loop_hit[i] = tag_of(pc, i) >> 4 & 1;
    o.out_loop_pred[i] = tag_of(pc, i) >> 5 & 1;
    o.out_loop_idx[i] = (tage_loop_meta_idx_t)(tag_of(pc, i + 3) & 0xf);
    o.out_loop_tag[i] = (tage_loop_meta_tag_t)(tag_of(pc, i + 4) & 0xff);
  }
}
void sx_bp_init(BPU_TOP *) asm("_ZN7BPU_TOPC2Ev");
void sx_bp_init(BPU_TOP *) {}
void sx_bp_fini(BPU_TOP *) asm("_ZN7BPU_TOPD2Ev");
void sx_bp_fini(BPU_TOP *) {}
void sx_bp_read(const BPU_TOP *, const BPU_TOP::InputPayload &, BPU_TOP::ReadData &)
    asm("_ZNK7BPU_TOP12bpu_seq_readERKNS_12InputPayloadERNS_8ReadDataE");
void sx_bp_read(const BPU_TOP *, const BPU_TOP::InputPayload &, BPU_TOP::ReadData &) {}
void sx_bp_comb(BPU_TOP *, const BPU_TOP::InputPayload &in, BPU_TOP::ReadData &,
                BpOut &out, BPU_TOP::UpdateRequest &)
    asm("_ZN7BPU_TOP13bpu_comb_calcERKNS_12InputPayloadERNS_8ReadDataERNS_13OutputPayloadERNS_13UpdateRequestE");
void sx_bp_comb(BPU_TOP *, const BPU_TOP::InputPayload &in, BPU_TOP::ReadData &,
                BpOut &out, BPU_TOP::UpdateRequest &) {
  bp_called = true;
  memset(&out, 0, sizeof(out));
  uint32_t pc = in.refetch ? in.refetch_address : bp_pc;
  out.icache_read_valid = !in.refetch;
  out.fetch_address = pc;
  out.out_pred_base_pc = pc;
  bool go = in.icache_read_ready && !in.refetch;
  uint32_t next = after(pc);
  if (!dull && sx_var("jumps", cyc, 1))
    next = (uint32_t)sx_var("target", cyc, 30) << 2;
  for (int i = 0; i < FETCH_WIDTH; i++)
    out.out_pred_dir[i] = guess(pc, i);
  out.predict_next_fetch_address = next;
  out.PTAB_write_enable = go;
  meta(out, pc);
  bp_next_pc = in.refetch ? (uint32_t)in.refetch_address : go ? next : bp_pc;
}
void sx_bp_write(BPU_TOP *, const BPU_TOP::InputPayload &, const BPU_TOP::UpdateRequest &, bool)
    asm("_ZN7BPU_TOP13bpu_seq_writeERKNS_12InputPayloadERKNS_13UpdateRequestEb");
void sx_bp_write(BPU_TOP *, const BPU_TOP::InputPayload &, const BPU_TOP::UpdateRequest &,
                 bool reset) {
  bp_pc = reset ? (uint32_t)RESET_PC : bp_next_pc;
}

// ---- instruction cache: one request at a time, answered whenever it likes
static bool ic_busy, ic_done, ic_ready, ic_stuck;
static uint32_t ic_addr;
static bool ic_next_busy;
static uint32_t ic_next_addr;
void icache_seq_read(struct icache_in *, struct icache_out *) {}
void icache_dump_debug_state() {}
void icache_peek_ready(struct icache_in *, struct icache_out *out) {
  out->icache_read_ready = ic_ready;
  out->icache_read_ready_2 = false;
}
void icache_comb_calc(struct icache_in *in, struct icache_out *out) {
  memset(out, 0, sizeof(*out));
  if (in->reset || in->refetch || in->invalidate_req) {
    ic_next_busy = false;
    return;
  }
  sx_assert(!in->icache_read_valid || ic_ready,
            "the cache is asked only when it is ready");
  out->icache_read_ready = ic_ready;
  out->icache_read_complete = ic_done;
  out->fetch_pc = ic_addr;
  for (int i = 0; i < FETCH_WIDTH; i++) {
    uint32_t a = ic_addr + 4 * i;
    out->inst_valid[i] = ic_done && (a & LINE) == (ic_addr & LINE);
    out->fetch_group[i] = mem(a);
    out->page_fault_inst[i] = bad_page(a);
  }
  ic_next_busy = in->icache_read_valid || (ic_busy && !ic_done);
  ic_next_addr = in->icache_read_valid ? (uint32_t)in->fetch_address : ic_addr;
}
void icache_seq_write() {
  ic_busy = ic_next_busy;
  ic_addr = ic_next_addr;
}

// ---- back end
static CsrStatusIO csr_status;
static uint32_t expected, groups;
static front_top_in fin;
static front_top_out fout;

static void cycle(bool reset, bool refetch, uint32_t target, bool take) {
  memset(&fin, 0, sizeof(fin));
  fin.csr_status = &csr_status;
  fin.reset = reset;
  fin.refetch = refetch;
  fin.refetch_address = target;
  fin.FIFO_read_enable = take;
  ic_done = ic_busy && !ic_stuck && (steady || sx_var("done", cyc, 1));
  ic_ready = (!ic_busy || ic_done) && (steady || sx_var("ready", cyc, 1));
  front_top(&fin, &fout);
  cyc++;
  sx_assert(!fout.FIFO_valid || (take && !reset && !refetch),
            "a group is handed over only when asked for, and not in the cycle "
            "of a restart");
  if (reset)
    expected = RESET_PC;
  else if (refetch)
    expected = target;
  if (fout.FIFO_valid && !jumps) {
    BpOut m;
    meta(m, expected);
    for (int i = 0; i < FETCH_WIDTH; i++) {
      uint32_t a = expected + 4 * i;
      bool v = (a & LINE) == (expected & LINE);
      sx_assert(fout.pc[i] == a,
                "groups arrive in order, each where its predecessor says it "
                "continues, starting where the core restarted");
      sx_assert(fout.inst_valid[i] == v,
                "a group ends at the end of the cache line");
      sx_assert(fout.instructions[i] == mem(a),
                "the instructions are those at the group's address");
      sx_assert(fout.page_fault_inst[i] == bad_page(a),
                "a fetch fault stays with its instruction");
      bool t = true;
#define SAME(x, y) { t = t && x == y; }
      SAME(fout.alt_pred[i], m.out_alt_pred[i])
      SAME(fout.pcpn[i], m.out_pcpn[i])
      SAME(fout.altpcpn[i], m.out_altpcpn[i])
      SAME(fout.sc_used[i], m.out_sc_used[i])
      SAME(fout.sc_pred[i], m.out_sc_pred[i])
      SAME(fout.sc_sum[i], m.out_sc_sum[i])
      SAME(fout.loop_used[i], m.out_loop_used[i])
      SAME(fout.loop_hit[i], m.out_loop_hit[i])
      SAME(fout.loop_pred[i], m.out_loop_pred[i])
      SAME(fout.loop_idx[i], m.out_loop_idx[i])
      SAME(fout.loop_tag[i], m.out_loop_tag[i])
      for (int k = 0; k < TN_MAX; k++) {
        SAME(fout.tage_tag[i][k], m.out_tage_tags[i][k])
        SAME(fout.tage_idx[i][k], m.out_tage_idxs[i][k])
      }
      for (int k = 0; k < BPU_SCL_META_NTABLE; k++)
        SAME(fout.sc_idx[i][k], m.out_sc_idx[i][k])
      sx_assert(t, "what the predictor noted for a group stays with it");
    }
  }
  if (fout.FIFO_valid && jumps) {
    // where it goes on: at the first jump taken in it, or behind it
    uint32_t next = after(expected);
    bool free = false;
    for (int i = FETCH_WIDTH - 1; i >= 0; i--) {
      uint32_t a = expected + 4 * i, w = mem(a), op = w & 0x7f;
      bool v = (a & LINE) == (expected & LINE);
      bool dir = v && (op == 0x6f || op == 0x67 || (op == 0x63 && guess(expected, i)));
      sx_assert(fout.predict_dir[i] == dir,
                "jumps are taken, branches as predicted, nothing else");
      uint32_t j = (uint32_t)((int32_t)w >> 31) << 20 | (w & 0xff000) |
                   (w >> 20 & 1) << 11 | (w >> 20 & 0x7fe);
      uint32_t b = (uint32_t)((int32_t)w >> 31) << 12 | (w >> 7 & 1) << 11 |
                   (w >> 20 & 0x7e0) | (w >> 7 & 0x1e);
      if (dir) {
        next = a + (op == 0x6f ? j : b);
        free = op == 0x67;
      }
    }
    sx_assert(free || fout.predict_next_fetch_address == next,
              "a group continues at the first jump taken in it, or behind it");
  }
  if (fout.FIFO_valid) {
    expected = fout.predict_next_fetch_address;
    groups++;
  }
}

// A start of fixed timing that fills the queues (pre cycles with any prediction,
// then fill cycles without jumps and, if stuck, without answers from the cache),
// S arbitrary cycles with restarts in those marked, then a quiet end.
static void flow(bool j, int pre, int fill, bool stuck, int S, int restarts) {
  jumps = j;
  steady = dull = true;
  bp_pc = sx_var("junk", 0, 32);
  cycle(true, false, 0, false);
  ic_stuck = stuck;
  dull = false;
  for (int i = 0; i < pre; i++)
    cycle(false, false, 0, false);
  dull = true;
  for (int i = 0; i < fill; i++)
    cycle(false, false, 0, false);
  steady = dull = false;
  ic_stuck = false;
  for (int i = 0; i < S; i++)
    cycle(false, restarts >> i & 1, (uint32_t)sx_var("restart_at", i, 30) << 2,
          sx_var("take", i, 1));
  uint32_t before = groups;
  steady = dull = true;
  for (int i = 0; i < 6; i++)
    cycle(false, false, 0, true);
  sx_cover(groups > before, "a group was handed over");
  sx_assert(groups > before, "groups keep coming");
  sx_assert(bp_called, "the predictor was replaced");
}
#define FLOW(n, pre, fill, stuck, S, restarts)                                 \
  extern "C" void hx_##n() { flow(false, pre, fill, stuck, S, restarts); }     \
  extern "C" void hx_##n##_j() {                                               \
    flow(true, pre, fill, stuck, restarts == 1 ? 2 : S, restarts);             \
  }
FLOW(start, 0, 0, false, 3, 0)
FLOW(start_r0, 0, 0, false, 3, 1)
FLOW(run, 3, 0, false, 2, 0)
FLOW(run_r0, 3, 0, false, 2, 1)
FLOW(run_r1, 3, 0, false, 2, 2)
FLOW(full, 0, 24, false, 3, 0)
FLOW(full_r1, 0, 24, false, 3, 2)
FLOW(waiting, 2, 10, true, 2, 0)
FLOW(waiting_r0, 2, 10, true, 3, 1)
FLOW(waiting_r2, 2, 10, true, 3, 4)
