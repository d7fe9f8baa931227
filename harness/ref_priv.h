// Reference-model side of the privileged checks.
#pragma once
#include "ref_common.h"
static void check_state(const Snap &s) {
  sx_assert(cpu.state.pc == s.pc, "next pc");
  sx_assert(cpu.privilege == s.priv, "privilege");
  sx_assert(cpu.state.csr[csr_mstatus] == s.csr[csr_mstatus], "mstatus");
  bool ok = true;
  for (int i = 0; i < 21; i++)
    ok = ok & (cpu.state.csr[i] == s.csr[i]);
  sx_assert(ok, "control registers");
  ok = true;
  for (int i = 0; i < 32; i++)
    ok = ok & (cpu.state.gpr[i] == s.gpr[i]);
  sx_assert(ok, "integer registers unchanged");
  sx_assert(!cpu.state.store, "no store reported");
  sx_assert(cpu.state.reserve_valid == s.rv && cpu.state.reserve_addr == s.ra, "reservation unchanged");
  sx_observe("pc", 0, cpu.state.pc);
  sx_observe("priv", 0, cpu.privilege);
  for (int i = 0; i < 21; i++)
    sx_observe("csr", i, cpu.state.csr[i]);
}
static uint32_t rd_pte(uint32_t a) { return in_ram(a) ? word_at(a) : 0; }
static bool spec_translate(uint32_t va, int type, uint32_t &pa) {
  return isa_sv32(va, type, cpu.state.csr[csr_satp], cpu.state.csr[csr_mstatus], cpu.privilege, rd_pte, pa);
}

// execute one already fetched instruction (the fetch path has its own entries)
static uint32_t fetched() {
  cpu.Instruction = (uint32_t)sx_var("inst", 0, 32);
  cpu.illegal_exception = cpu.page_fault_load = cpu.page_fault_inst = cpu.page_fault_store = false;
  cpu.state.store = false;
  cpu.M_software_interrupt = cpu.M_timer_interrupt = cpu.M_external_interrupt = false;
  cpu.S_software_interrupt = cpu.S_timer_interrupt = cpu.S_external_interrupt = false;
  return cpu.Instruction;
}
static void translated_data() {
  sx_assume(cpu.state.csr[csr_satp] >> 31);
  uint32_t ms = cpu.state.csr[csr_mstatus];
  int ep = (ms >> 17 & 1) ? (int)(ms >> 11 & 3) : cpu.privilege;
  sx_assume(ep == 0 || ep == 1);
}
