// X01: the comparison of the core with the reference model after each instruction.
// The reference library is outside the repository; here it is any state that is
// there before the step and any state that is there after it.
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <string>
#include <vector>
#include "Csr.h"
#include "DcacheConfig.h"
#include "PhysMemory.h"
#include "RISCV.h"
#include "config.h"
#include "ref.h"
#include "refcpu_api.h"
#include "util.h"
#include "sx.h"
// stopping the simulation is recorded, and what is printed is dropped
static bool stopped;
namespace sx_out {
struct Console {
  template <class T> Console &operator<<(const T &) { return *this; }
  Console &operator<<(std::ostream &(*)(std::ostream &)) { return *this; }
  Console &operator<<(std::ios_base &(*)(std::ios_base &)) { return *this; }
  void flush() {}
};
static inline void stop(int = 0) { stopped = true; }
} // namespace sx_out
namespace std {
static sx_out::Console sx_cout;
static int sx_endl, sx_dec, sx_hex;
static inline void sx_exit(int) { sx_out::stop(); }
static inline void sx_abort() { sx_out::stop(); }
template <class... A> static inline int sx_printf(const char *, A &&...) { return 0; }
} // namespace std
using namespace std;
#define cout sx_cout
#define endl sx_endl
#define dec sx_dec
#define hex sx_hex
#define exit sx_exit
#define abort sx_abort
#define printf sx_printf
#include "diff/diff.cpp"
#undef cout
#undef endl
#undef dec
#undef hex
#undef exit
#undef abort
#undef printf

long long sim_time = 0;
struct RefCpuContext {
  int dummy;
};
static RefCpuContext one;
static RefCpuState now, later;
static RefCpuStepInfo info, info_later;
static uint32_t made, steps, handed;
static uint64_t told_time;
static bool told_faults[3], told;
static uint32_t told_steps;
RefCpuContext *refcpu_init(uint32_t, uint32_t) {
  made++;
  return &one;
}
void refcpu_destroy(RefCpuContext *) {}
void refcpu_step(RefCpuContext *, uint64_t n) {
  steps += n;
  now = later;
  info = info_later;
}
void refcpu_get_state(RefCpuContext *, RefCpuState *s) { *s = now; }
void refcpu_set_state(RefCpuContext *, const RefCpuState *s) {
  now = *s;
  handed++;
}
void refcpu_get_step_info(RefCpuContext *, RefCpuStepInfo *s) { *s = info; }
void refcpu_set_device_effects(RefCpuContext *, bool) {}
void refcpu_set_dut_expected_faults(RefCpuContext *, bool i, bool l, bool s) {
  told_faults[0] = i;
  told_faults[1] = l;
  told_faults[2] = s;
  told = true;
  told_steps = steps;
}
void refcpu_set_sim_time(RefCpuContext *, uint64_t t) { told_time = t; }
void refcpu_set_sim_end(RefCpuContext *, bool) {}
void refcpu_set_uart_print(RefCpuContext *, bool) {}
void refcpu_set_ref_only(RefCpuContext *, bool) {}
void refcpu_clear_io_words(RefCpuContext *) {}
void refcpu_set_io_word(RefCpuContext *, uint32_t, uint32_t) {}
uint32_t refcpu_get_io_word(RefCpuContext *, uint32_t) { return 0; }
uint32_t refcpu_load_word(RefCpuContext *, uint32_t) { return 0; }
uint32_t *refcpu_get_ram_ptr(RefCpuContext *) { return nullptr; }
bool refcpu_probe_pc_translation(RefCpuContext *) { return true; }
void refcpu_sync_ram_from_dut(RefCpuContext *, const uint32_t *, size_t) {}
void refcpu_sync_ram_range_from_dut(RefCpuContext *, uint32_t, const void *, size_t) {}
uint32_t pmem_read(uint32_t) { return 0; }
void pmem_write(uint32_t, uint32_t) {}
uint32_t *pmem_ram_ptr() { return nullptr; }
bool pmem_is_ram_addr(uint32_t, uint32_t) { return false; }
void pmem_memcpy_from_ram(void *, uint32_t, size_t) {}

static void any_core() {
  for (int i = 0; i < 32; i++)
    dut_cpu.gpr[i] = sx_var("gpr", i, 32);
  for (int i = 0; i < CSR_NUM; i++)
    dut_cpu.csr[i] = sx_var("csr", i, 32);
  dut_cpu.pc = sx_var("pc", 0, 32);
  dut_cpu.instruction = sx_var("inst", 0, 32);
  dut_cpu.store = sx_var("store", 0, 1);
  dut_cpu.store_addr = sx_var("store_addr", 0, 32);
  dut_cpu.store_data = sx_var("store_data", 0, 32);
  dut_cpu.store_strb = sx_var("store_strb", 0, 4);
  dut_cpu.page_fault_inst = sx_var("fault", 0, 1);
  dut_cpu.page_fault_load = sx_var("fault", 1, 1);
  dut_cpu.page_fault_store = sx_var("fault", 2, 1);
  dut_cpu.commit_pc = sx_var("commit_pc", 0, 32);
  dut_cpu.inst_idx = sx_var("inst_idx", 0, 32);
  dut_cpu.reserve_valid = sx_var("reserve", 0, 1);
  dut_cpu.reserve_addr = sx_var("reserve_addr", 0, 32);
  sim_time = sx_var("time", 0, 48);
}
static void same_state(RefCpuState &s, RefCpuStepInfo &f) {
  memset(&s, 0, sizeof s);
  memset(&f, 0, sizeof f);
  memcpy(s.gpr, dut_cpu.gpr, sizeof s.gpr);
  memcpy(s.csr, dut_cpu.csr, sizeof s.csr);
  s.pc = dut_cpu.pc;
  s.instruction = f.instruction = dut_cpu.instruction;
  s.store = dut_cpu.store;
  s.store_addr = dut_cpu.store_addr;
  s.store_data = dut_cpu.store_data;
  s.store_strb = dut_cpu.store_strb;
  s.page_fault_inst = f.page_fault_inst = dut_cpu.page_fault_inst;
  s.page_fault_load = f.page_fault_load = dut_cpu.page_fault_load;
  s.page_fault_store = f.page_fault_store = dut_cpu.page_fault_store;
  s.inst_idx = dut_cpu.inst_idx;
  s.commit_pc = dut_cpu.commit_pc;
  s.reserve_valid = dut_cpu.reserve_valid;
  s.reserve_addr = dut_cpu.reserve_addr;
}
// an instruction that reads or writes the pending interrupts
static bool pending_access(uint32_t inst) {
  return (inst & 0x7f) == 0x73 && (inst >> 20 == 0x344 || inst >> 20 == 0x144);
}
static const uint32_t LINES = 1u << 11 | 1u << 7;

static void step_done() {
  sx_observe("stopped", 0, stopped);
  sx_observe("time", 0, told_time);
  sx_assert(steps == 1, "the reference model makes one step per instruction");
  sx_assert(told && told_steps == 0 && told_faults[0] == dut_cpu.page_fault_inst && told_faults[1] == dut_cpu.page_fault_load && told_faults[2] == dut_cpu.page_fault_store, "the reference model knows the core's page faults before it steps");
  sx_assert(told_time == (uint64_t)sim_time, "the reference model knows the time");
}

// everything agrees, apart from interrupt lines that the instruction does not look at
extern "C" void hx_agree() {
  any_core();
  same_state(later, info_later);
  uint32_t diff = sx_var("lines", 0, 32) & LINES;
  if (!pending_access(later.instruction))
    later.csr[csr_mip] ^= diff;
  // without an instruction there is none to compare
  uint32_t other = sx_var("other", 0, 32);
  if (dut_cpu.page_fault_inst)
    dut_cpu.instruction ^= other;
  sx_assume(dut_cpu.csr[csr_sip] == (dut_cpu.csr[csr_mip] & 0x333));
  bool look = sx_var("look", 0, 1);
  difftest_step(look);
  step_done();
  sx_assert(!stopped, "a step on which core and reference model agree is accepted");
  sx_cover(look && diff && !pending_access(later.instruction), "the interrupt lines differ");
  sx_cover(look && dut_cpu.page_fault_inst && other, "the instruction could not be fetched");
  sx_cover(look && pending_access(later.instruction), "an instruction looks at the interrupt lines");
}
// one thing differs, in any way; the rest agrees
extern "C" void hx_differ() {
  any_core();
  same_state(later, info_later);
  sx_assume(dut_cpu.csr[csr_sip] == (dut_cpu.csr[csr_mip] & 0x333));
  uint32_t what = sx_var("what", 0, 7), bits = sx_var("bits", 0, 32);
  sx_assume(bits != 0);
  bool reads = pending_access(dut_cpu.instruction);
  bool seen = true;
  if (what < 32)
    later.gpr[what] ^= bits;
  else if (what < 32 + CSR_NUM) {
    uint32_t c = what - 32;
    for (uint32_t i = 0; i < CSR_NUM; i++)
      if (c == i)
        later.csr[i] ^= bits;
    if (c == csr_mip)
      seen = reads || (bits & ~LINES);
    if (c == csr_sip)
      seen = reads;
  } else if (what == 64)
    later.pc ^= bits;
  else if (what == 65) {
    later.instruction ^= bits;
    info_later.instruction ^= bits;
    seen = !dut_cpu.page_fault_inst;
  } else if (what == 66)
    later.page_fault_inst = info_later.page_fault_inst = !dut_cpu.page_fault_inst;
  else if (what == 67)
    later.page_fault_load = info_later.page_fault_load = !dut_cpu.page_fault_load;
  else if (what == 68)
    later.page_fault_store = info_later.page_fault_store = !dut_cpu.page_fault_store;
  else if (what == 69) {
    later.store = 1;
    seen = !dut_cpu.store;
  } else if (what == 70) {
    later.store_addr ^= bits;
    seen = later.store;
  } else if (what == 71) {
    later.store_data ^= bits;
    seen = later.store;
  } else
    sx_assume(false);
  bool look = sx_var("look", 0, 1);
  difftest_step(look);
  step_done();
  sx_assert(look || !stopped, "nothing is compared unless asked for");
  sx_assert(!look || !seen || stopped, "a step on which core and reference model differ stops the simulation");
  sx_cover(look && seen && what < 32, "a register differs");
  sx_cover(look && seen && what == 32 + csr_mip && !reads, "a pending bit differs");
  sx_cover(look && seen && what == 71, "stored data differ");
}
// the reference model takes over the core's state
extern "C" void hx_take() {
  any_core();
  uint8_t priv = sx_var("priv", 0, 2);
  difftest_sync_from_dut(priv);
  sx_observe("pc", 0, now.pc);
  sx_observe("csr", 3, now.csr[3]);
  RefCpuState want;
  RefCpuStepInfo f;
  same_state(want, f);
  uint32_t bad = 0;
  for (int i = 0; i < 32; i++)
    bad |= now.gpr[i] ^ want.gpr[i];
  sx_assert(!bad, "the reference model takes over the registers");
  for (int i = 0; i < CSR_NUM; i++)
    bad |= now.csr[i] ^ want.csr[i];
  sx_assert(!bad, "the reference model takes over the control registers");
  sx_assert(now.pc == want.pc && now.privilege == priv, "the reference model takes over the program counter and mode");
  sx_assert(now.reserve_valid == want.reserve_valid && now.reserve_addr == want.reserve_addr, "the reference model takes over the reservation");
  sx_assert(handed == 1 && steps == 0 && !stopped, "the state is handed over once, without a step");
  sx_cover(priv == 3 && now.reserve_valid, "machine mode with a reservation");
}
