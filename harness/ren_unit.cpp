// N01: register renaming. The state is an arbitrary one that stands for a list
// of N in-flight register writers; one clock cycle later it must stand for the
// list after renaming, commit and recovery.
#include "Ren.h"
#include "sx.h"
#include "util.h"
long long sim_time = 0;
static int committed;
void SimContext::run_commit_inst(InstEntry *, int) { committed++; }
void SimContext::run_difftest_inst(InstEntry *) {}
static SimContext ctx;
static Ren ren(&ctx);
static DecRenIO dec2ren;
static DecBroadcastIO dec_bcast;
static DisRenIO dis2ren;
static RobBroadcastIO rob_bcast;
static RobCommitIO commit;
static RenDecIO ren2dec;
static RenDisIO ren2dis;

static const int NA = ARF_NUM + 1;
static const int POOL = PRF_NUM - NA;
struct Writer {
  uint32_t areg, preg, old;
};
static uint32_t pick(const reg<PRF_IDX_WIDTH> *t, int n, uint32_t i) {
  uint32_t v = 0;
  for (int k = 0; k < n; k++)
    v = (uint32_t)k == i ? t[k] : v;
  return v;
}
struct Map {
  reg<PRF_IDX_WIDTH> m[NA];
  uint32_t get(uint32_t a) const { return pick(m, NA, a); }
  void put(uint32_t a, uint32_t p, bool en) {
    for (int k = 0; k < NA; k++)
      m[k] = en && (uint32_t)k == a ? (reg<PRF_IDX_WIDTH>)p : m[k];
  }
};
static Writer L[POOL + 4];
static Map arch, spec, ck;
static uint32_t fhc, fh;
static uint32_t ring(uint32_t x) { return x & (PRF_NUM - 1); }
static uint32_t fl(uint32_t i) { return pick(ren.free_list, PRF_NUM, ring(i)); }

// free_spec: the speculative mapping is arbitrary
static void init(int n, bool free_spec) {
  static_assert((PRF_NUM & (PRF_NUM - 1)) == 0, "ring size");
  ren.in = {&dec2ren, &dec_bcast, &dis2ren, &rob_bcast, &commit};
  ren.out = {&ren2dec, &ren2dis};
  ren.init();
  for (int i = 0; i < PRF_NUM; i++)
    ren.free_list[i] = sx_var("fl", i, PRF_IDX_WIDTH);
  for (int i = 0; i < NA; i++)
    arch.m[i] = i ? sx_var("arch", i, PRF_IDX_WIDTH) : 0;
  fhc = sx_var("fhc", 0, PRF_IDX_WIDTH);
  fh = ring(fhc + n);
  ren.free_head_commit = fhc;
  ren.free_head = fh;
  ren.free_tail = ring(fhc + POOL);
  spec = arch;
  for (int i = 1; i < NA; i++)
    if (free_spec)
      spec.m[i] = sx_var("spec", i, PRF_IDX_WIDTH);
  for (int k = 0; k < n && !free_spec; k++) {
    L[k].areg = sx_var("areg", k, AREG_IDX_WIDTH);
    sx_assume(L[k].areg >= 1 && L[k].areg < NA);
    L[k].preg = fl(fhc + k);
    L[k].old = spec.get(L[k].areg);
    spec.put(L[k].areg, L[k].preg, true);
  }
  for (int i = 0; i < NA; i++) {
    ren.arch_RAT[i] = arch.m[i];
    ren.spec_RAT[i] = spec.m[i];
  }
  for (int i = 0; i < DECODE_WIDTH; i++) {
    ren.inst_valid[i] = sx_var("valid", i, 1);
    auto &u = ren.inst_r[i];
    u.src1_areg = sx_var("s1", i, AREG_IDX_WIDTH);
    u.src2_areg = sx_var("s2", i, AREG_IDX_WIDTH);
    u.dest_areg = sx_var("d", i, AREG_IDX_WIDTH);
    u.dest_en = sx_var("den", i, 1);
    u.type = sx_var("isbr", i, 1) ? BR : ADD;
    u.br_id = sx_var("brid", i, BR_TAG_WIDTH);
    u.br_mask = sx_var("brmask", i, BR_MASK_WIDTH);
    u.imm = sx_var("imm", i, 32);
    sx_assume(u.src1_areg < NA && u.src2_areg < NA && u.dest_areg < NA && !(u.dest_en && u.dest_areg == 0));
  }
  for (int i = 0; i < DECODE_WIDTH; i++) {
    dec2ren.valid[i] = sx_var("nvalid", i, 1);
    dec2ren.uop[i].dest_areg = sx_var("nd", i, AREG_IDX_WIDTH);
    dec2ren.uop[i].br_mask = sx_var("nmask", i, BR_MASK_WIDTH);
  }
  dis2ren.ready = sx_var("ready", 0, 1);
  dec_bcast.clear_mask = sx_var("clear", 0, BR_MASK_WIDTH);
}
static void cycle() {
  ren.comb_begin();
  ren.comb_alloc();
  ren.comb_rename();
  ren.comb_fire();
  ren.comb_pipeline();
  ren.seq();
}
// the state now stands for map a, spec s, window starting at fhc1, head fh1
static void check_maps(const Map &a, const Map &s) {
  for (int i = 0; i < NA; i++) {
    sx_assert(ren.arch_RAT[i] == a.m[i], "committed mapping");
    sx_assert(ren.spec_RAT[i] == s.m[i], "speculative mapping");
  }
}
// renaming: operands, fresh destinations, back-pressure, checkpoints
template <int N> static void rename_step() {
  init(N, true);
  // registers each exist once: in the committed map or in the pool; the
  // speculative map holds none of the unallocated ones
  uint32_t v = fl(fhc + N);
  if (N < POOL) {
    for (int i = 0; i < NA; i++)
      sx_assume(arch.m[i] != v && spec.m[i] != v);
  }
  bool val0[DECODE_WIDTH];
  DecRenIO::DecRenInst in0[DECODE_WIDTH];
  for (int i = 0; i < DECODE_WIDTH; i++) {
    val0[i] = ren.inst_valid[i];
    in0[i] = ren.inst_r[i];
  }
  for (int i = 0; i < DECODE_WIDTH; i++)
    for (int j = 0; j < i; j++)
      sx_assume(!(is_branch(in0[i].type) && is_branch(in0[j].type)) || in0[i].br_id != in0[j].br_id);
  uint32_t tag = sx_var("tag", 0, BR_TAG_WIDTH);
  Map ck0;
  for (int i = 0; i < NA; i++)
    ck0.m[i] = ren.RAT_checkpoint[tag][i] = sx_var("ck", i, PRF_IDX_WIDTH);
  uint32_t ckh0 = ren.alloc_checkpoint_head[tag] = sx_var("ckh", 0, PRF_IDX_WIDTH);
  cycle();
  Map s = spec, g = spec; // g: as if the group leaves
  int n = N, m = N;
  bool blocked = false, allout = true;
  for (int i = 0; i < DECODE_WIDTH; i++) {
    bool wr = val0[i] && in0[i].dest_en;
    blocked = blocked || (wr && m >= POOL);
    bool ok = val0[i] && !blocked;
    sx_assert(ren2dis.valid[i] == ok, "passed on exactly when registers are left");
    auto &u = ren2dis.uop[i];
    sx_assert(!ok || (u.src1_preg == g.get(in0[i].src1_areg) && u.src2_preg == g.get(in0[i].src2_areg)), "sources are the newest older mappings");
    uint32_t fresh = fl(fhc + m);
    sx_assert(!(ok && in0[i].dest_en) || u.dest_preg == fresh, "destination is the next free register");
    sx_assert(!(ok && in0[i].dest_en) || u.old_dest_preg == g.get(in0[i].dest_areg), "previous mapping is remembered");
    sx_assert(!(ok && !in0[i].dest_en) || u.dest_preg == 0, "no register for an instruction that writes none");
    sx_assert(!ok || (u.dest_en == in0[i].dest_en && u.imm == in0[i].imm && u.br_id == in0[i].br_id && u.br_mask == in0[i].br_mask && u.dest_areg == in0[i].dest_areg && u.type == in0[i].type), "the rest of the instruction is passed unchanged");
    if (i == 0 && N < POOL && ok && in0[i].dest_en) {
      bool live = false;
      for (int k = 0; k < NA; k++)
        live = live || arch.m[k] == u.dest_preg || spec.m[k] == u.dest_preg;
      sx_assert(!live, "a register still mapped is not handed out");
    }
    bool fire = ok && dis2ren.ready;
    allout = allout && (fire || !val0[i]);
    s.put(in0[i].dest_areg, fresh, fire && in0[i].dest_en);
    g.put(in0[i].dest_areg, fresh, ok && in0[i].dest_en);
    m += ok && in0[i].dest_en;
    n += fire && in0[i].dest_en;
    if (fire && is_branch(in0[i].type) && in0[i].br_id == tag) {
      ck0 = s;
      ckh0 = ring(fhc + n);
    }
  }
  check_maps(arch, s);
  sx_assert(ren.free_head == ring(fhc + n) && ren.free_head_commit == fhc && ren.free_tail == ring(fhc + POOL), "free list position");
  for (int i = 0; i < NA; i++)
    sx_assert(ren.RAT_checkpoint[tag][i] == ck0.m[i], "checkpoint of a branch holds the mapping after it");
  sx_assert(ren.alloc_checkpoint_head[tag] == ckh0, "checkpoint of the free list");
  sx_assert(ren2dec.ready == allout, "ready when everything has left");
  for (int i = 0; i < DECODE_WIDTH; i++) {
    bool fire = ren2dis.valid[i] && dis2ren.ready;
    sx_assert(ren.inst_valid[i] == (allout ? (bool)dec2ren.valid[i] : val0[i] && !fire), "instructions wait or are replaced");
    uint32_t bm = allout ? dec2ren.uop[i].br_mask : in0[i].br_mask;
    uint32_t d = allout ? dec2ren.uop[i].dest_areg : in0[i].dest_areg;
    sx_assert(!ren.inst_valid[i] || (ren.inst_r[i].dest_areg == d && ren.inst_r[i].br_mask == (bm & ~dec_bcast.clear_mask & ((1u << BR_MASK_WIDTH) - 1))), "waiting instructions lose resolved branches only");
  }
  sx_cover(N == POOL || n == N + (N + 1 == POOL ? 1 : 2), "all destinations allocated");
  sx_cover(N < POOL - 1 || (val0[0] && !allout && dis2ren.ready), "free list empty");
  sx_observe("spec", 7, ren.spec_RAT[7]);
}
extern "C" void hx_ren0() { rename_step<0>(); }
extern "C" void hx_ren1() { rename_step<1>(); }
extern "C" void hx_ren3() { rename_step<3>(); }
extern "C" void hx_ren29() { rename_step<POOL - 2>(); }
extern "C" void hx_ren30() { rename_step<POOL - 1>(); }
extern "C" void hx_ren31() { rename_step<POOL>(); }

// commit and recovery; nothing is renamed in this cycle unless both go on
enum { COMMIT, FLUSH, EXC, MISPRED };
template <int N, int KIND> static void recover() {
  init(N, false);
  committed = 0;
  bool renaming = KIND == COMMIT;
  DecRenIO::DecRenInst in0 = ren.inst_r[0];
  if (renaming) {
    for (int i = 1; i < DECODE_WIDTH; i++)
      sx_assume(!ren.inst_valid[i]);
  }
  bool v0 = ren.inst_valid[0];
  int c = 0; // committed writers
  Map a = arch;
  bool exc = KIND == EXC;
  rob_bcast.flush = KIND == FLUSH || KIND == EXC;
  rob_bcast.interrupt = exc && sx_var("irq", 0, 1);
  int ncommit = 0;
  if (KIND != MISPRED)
    for (int i = 0; i < COMMIT_WIDTH; i++) {
      auto &e = commit.commit_entry[i];
      if (exc && i)
        break;
      e.valid = sx_var("cvalid", i, 1);
      e.uop.type = ADD;
      bool den = sx_var("cden", i, 1);
      sx_assume(!den || c < N || !e.valid);
      if (exc) {
        uint32_t k = sx_var("ckind", 0, 3);
        sx_assume(e.valid && (k || rob_bcast.interrupt));
        e.uop.page_fault_inst = k == 1;
        e.uop.page_fault_load = k == 2;
        e.uop.page_fault_store = k == 3;
        e.uop.illegal_inst = k == 4;
        if (k > 4)
          e.uop.type = ECALL;
      }
      if (!e.valid)
        continue;
      ncommit++;
      e.uop.dest_en = den;
      if (den && c < N) {
        e.uop.dest_areg = L[c].areg;
        e.uop.dest_preg = L[c].preg;
        e.uop.old_dest_preg = L[c].old;
        if (!exc) {
          a.put(L[c].areg, L[c].preg, true);
          c++;
        }
      }
    }
  // a mispredicted branch with P of the writers older than it
  uint32_t P = 0;
  Map ckm = arch;
  if (KIND == MISPRED) {
    P = sx_var("P", 0, 6);
    sx_assume(P <= N);
    for (int k = 0; k < N; k++)
      ckm.put(L[k].areg, L[k].preg, (uint32_t)k < P);
    dec_bcast.mispred = true;
    uint32_t tag = sx_var("tag", 0, BR_TAG_WIDTH);
    sx_assume(tag != 0);
    dec_bcast.br_id = tag;
    for (int i = 0; i < NA; i++)
      ren.RAT_checkpoint[tag][i] = ckm.m[i];
    ren.alloc_checkpoint_head[tag] = ring(fhc + P);
  }
  uint32_t fresh = fl(fhc + N);
  reg<PRF_IDX_WIDTH> fl0[PRF_NUM];
  for (int i = 0; i < PRF_NUM; i++)
    fl0[i] = ren.free_list[i];
  cycle();
  Map s = KIND == COMMIT ? spec : KIND == MISPRED ? ckm : a;
  int left = N; // writers in flight counted from the old commit position
  if (renaming) {
    bool fire = v0 && dis2ren.ready && (!in0.dest_en || N < POOL);
    s.put(in0.dest_areg, fresh, fire && in0.dest_en);
    left += fire && in0.dest_en;
  }
  uint32_t head = KIND == COMMIT ? ring(fhc + left) : KIND == MISPRED ? ring(fhc + P) : ring(fhc + c);
  check_maps(a, s);
  sx_assert(ren.free_head_commit == ring(fhc + c), "committed position of the free list");
  sx_assert(ren.free_head == head, "speculative position of the free list");
  sx_assert(ren.free_tail == ring(fhc + c + POOL), "registers are given back");
  // the pool: what was in it, without the retired registers, then the replaced ones
  uint32_t q = sx_var("probe", 0, PRF_IDX_WIDTH);
  sx_assume(q < POOL);
  uint32_t was = pick(fl0, PRF_NUM, ring(fhc + c + q));
  if (c >= 1 && q == (uint32_t)(POOL - c))
    was = L[0].old;
  if (c >= 2 && q == (uint32_t)(POOL - 1))
    was = L[1].old;
  sx_assert(fl(fhc + c + q) == was, "retired instructions give back the register they replaced");
  sx_assert(committed == ncommit, "commit reported once per instruction");
  if (KIND != COMMIT) {
    sx_assert(!ren2dec.ready, "nothing accepted during recovery");
    for (int i = 0; i < DECODE_WIDTH; i++)
      sx_assert(!ren.inst_valid[i], "squashed instructions leave the stage");
  }
  sx_cover(N < 2 || KIND >= EXC || c == 2, "two writers retire");
  sx_cover(KIND != MISPRED || N < 2 || P == 1, "mispredicted branch in the middle");
  sx_observe("spec", 7, ren.spec_RAT[7]);
}
#define R(n, k) extern "C" void hx_##k##n() { recover<n, k>(); }
R(0, COMMIT) R(1, COMMIT) R(2, COMMIT) R(4, COMMIT) R(30, COMMIT) R(31, COMMIT)
R(0, FLUSH) R(1, FLUSH) R(4, FLUSH) R(31, FLUSH)
R(0, EXC) R(1, EXC) R(4, EXC) R(31, EXC)
R(0, MISPRED) R(1, MISPRED) R(4, MISPRED) R(31, MISPRED)
