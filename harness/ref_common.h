#pragma once
#include "Csr.h"
#include "RISCV.h"
#include "config.h"
#include "isa_spec.h"
#include "priv_spec.h"
#include "ref.h"
#include "sx.h"
#include <cstdlib>
extern "C" {
#include "softfloat.h"
}
static const uint32_t RAM0 = 0x80000000u, RAM1 = 0xC0000000u;
long long sim_time = 0;
void push_oracle_timer(uint32_t) {}

extern "C" {
THREAD_LOCAL uint_fast8_t softfloat_roundingMode, softfloat_exceptionFlags;
}
#include "softfloat_model.h"

static RefCpu cpu;
static uint32_t *ram;

// Arbitrary architectural state: registers, control registers (with their
// shadow relations), privilege, reservation, RAM contents, timer.
static void arbitrary_state() {
  ram = (uint32_t *)calloc(0x10000000u, 4);
  sx_array(ram, 0x10000000u, 4, "ram");
  cpu.memory = ram;
  for (int i = 0; i < 32; i++)
    cpu.state.gpr[i] = i ? (uint32_t)sx_var("x", i, 32) : 0;
  for (int i = 0; i < 21; i++)
    cpu.state.csr[i] = (uint32_t)sx_var("csr", i, 32);
  cpu.state.csr[csr_sstatus] = cpu.state.csr[csr_mstatus] & SST;
  cpu.state.csr[csr_sie] = cpu.state.csr[csr_mie] & 0x333;
  cpu.state.csr[csr_sip] = cpu.state.csr[csr_mip] & 0x333;
  cpu.state.pc = (uint32_t)sx_var("pc", 0, 30) << 2;
  cpu.privilege = (uint8_t)sx_var("priv", 0, 2);
  sx_assume(cpu.privilege != 2);
  cpu.state.reserve_valid = sx_var("resv", 0, 1);
  cpu.state.reserve_addr = (uint32_t)sx_var("resa", 0, 32);
  cpu.state.store = sx_var("st", 0, 1);
  cpu.state.store_addr = (uint32_t)sx_var("sta", 0, 32);
  cpu.state.store_data = (uint32_t)sx_var("std", 0, 32);
  cpu.state.store_strb = (uint32_t)sx_var("sts", 0, 4);
  cpu.Instruction = (uint32_t)sx_var("oldinst", 0, 32);
  sim_time = (long long)sx_var("time", 0, 48);
  cpu.store_word(OPENSBI_TIMERCMP_LOW_ADDR, (uint32_t)sx_var("tcmp", 0, 32));
  cpu.store_word(OPENSBI_TIMERCMP_HIGH_ADDR, (uint32_t)sx_var("tcmp", 1, 32));
  cpu.ref_only = true;
  cpu.dut_pf_check_enable = false;
  cpu.uart_print = false;
  cpu.M_software_interrupt = sx_var("oldirq", 0, 1);
  cpu.M_timer_interrupt = sx_var("oldirq", 1, 1);
  cpu.M_external_interrupt = sx_var("oldirq", 2, 1);
  cpu.S_software_interrupt = sx_var("oldirq", 3, 1);
  cpu.S_timer_interrupt = sx_var("oldirq", 4, 1);
  cpu.S_external_interrupt = sx_var("oldirq", 5, 1);
}
static uint32_t mip_now() {
  uint64_t cmp = ((uint64_t)(uint32_t)sx_var("tcmp", 1, 32) << 32) | (uint32_t)sx_var("tcmp", 0, 32);
  uint32_t m = (uint32_t)sx_var("csr", csr_mip, 32);
  return (uint64_t)sim_time >= cmp ? m | 0x80u : m & ~0x80u;
}
static uint32_t word_at(uint32_t pa) { return ram[(pa - RAM0) >> 2]; }
static bool in_ram(uint32_t pa) { return pa >= RAM0 && pa < RAM1; }
// fetch is untranslated and hits RAM; returns the instruction word
static uint32_t bare_fetch() {
  sx_assume(!(cpu.state.csr[csr_satp] >> 31) || cpu.privilege == 3);
  sx_assume(in_ram(cpu.state.pc));
  return word_at(cpu.state.pc);
}
static void no_interrupt() { sx_assume((mip_now() & cpu.state.csr[csr_mie]) == 0); }
static bool data_bare() {
  uint32_t ms = cpu.state.csr[csr_mstatus];
  int ep = (ms >> 17 & 1) ? (int)(ms >> 11 & 3) : cpu.privilege;
  return !(cpu.state.csr[csr_satp] >> 31) || ep == 3;
}

static Snap snap() {
  Snap s;
  for (int i = 0; i < 32; i++)
    s.gpr[i] = cpu.state.gpr[i];
  for (int i = 0; i < 21; i++)
    s.csr[i] = cpu.state.csr[i];
  s.csr[csr_mip] = mip_now();
  s.csr[csr_sip] = mip_now() & 0x333;
  s.pc = cpu.state.pc;
  s.priv = cpu.privilege;
  s.rv = cpu.state.reserve_valid;
  s.ra = cpu.state.reserve_addr;
  return s;
}
static uint32_t probe_addr() { return RAM0 + ((uint32_t)sx_var("probe", 0, 28) << 2); }
static void same_csrs(const Snap &s, const char *msg) {
  bool ok = cpu.privilege == s.priv;
  for (int i = 0; i < 21; i++)
    ok = ok & (cpu.state.csr[i] == s.csr[i]);
  sx_assert(ok, msg);
}
static void gprs_except(const Snap &s, bool wr, uint32_t rd, uint32_t val, const char *msg) {
  uint32_t got = cpu.state.gpr[rd];
  sx_assert(!wr || rd == 0 || got == val, "destination register value");
  bool ok = true;
  for (uint32_t i = 0; i < 32; i++) {
    uint32_t e = (wr && i == rd && i != 0) ? got : s.gpr[i];
    ok = ok & (cpu.state.gpr[i] == e);
  }
  sx_assert(ok, msg);
}
