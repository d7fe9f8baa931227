// F01: predecoding and the correction of the prediction of a fetch group.
#include "predecode_checker.h"
#include "sx.h"

extern "C" void hx_group() {
  uint32_t pc = sx_var("pc", 0, 32), predicted = sx_var("next", 0, 32), seq = sx_var("seq", 0, 32);
  predecode_checker_in in = {};
  bool dir[FETCH_WIDTH];
  uint32_t inst[FETCH_WIDTH];
  for (int i = 0; i < FETCH_WIDTH; i++) {
    inst[i] = sx_var("inst", i, 32);
    predecode_in pi = {};
    pi.inst = inst[i];
    pi.pc = pc + 4 * i;
    predecode_read_data rd = {};
    PredecodeResult r = {};
    predecode_seq_read(&pi, &rd);
    predecode_comb(rd, r);
    in.predecode_type[i] = r.type;
    in.predecode_target_address[i] = r.target_address;
    in.predict_dir[i] = dir[i] = sx_var("dir", i, 1);
  }
  in.predict_next_fetch_address = predicted;
  in.seq_next_pc = seq;
  predecode_checker_read_data rd;
  predecode_checker_out out;
  predecode_checker_seq_read(&in, &rd);
  predecode_checker_comb(rd, out);

  uint32_t next = seq;
  bool found = false;
  for (int i = 0; i < FETCH_WIDTH; i++) {
    uint32_t w = inst[i], op = w & 0x7f;
    int32_t s = (int32_t)w;
    bool jal = op == 0x6f, jalr = op == 0x67, br = op == 0x63;
    uint32_t jt = pc + 4 * i + ((s >> 31) * (1 << 20) | (w & 0xff000) | (w >> 9 & 0x800) | (w >> 20 & 0x7fe));
    uint32_t bt = pc + 4 * i + ((s >> 31) * (1 << 12) | (w << 4 & 0x800) | (w >> 20 & 0x7e0) | (w >> 7 & 0x1e));
    bool taken = jal || jalr || (br && dir[i]);
    sx_assert((bool)out.predict_dir_corrected[i] == taken, "predicted taken exactly for jumps and for branches predicted taken");
    if (taken && !found)
      next = jal ? jt : br ? bt : predicted;
    found |= taken;
  }
  sx_assert(out.predict_next_fetch_address_corrected == next, "fetch continues where the first taken instruction leads");
  sx_assert((bool)out.predecode_flush_enable == (next != predicted), "a correction is signalled exactly when the prediction was wrong");
  sx_cover(found && next != predicted, "correction");
  sx_cover(!found && next == predicted, "sequential");
}
