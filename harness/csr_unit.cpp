// The core's CSR unit: trap entry, return, interrupts and committed CSR writes.
#include "Csr.h"
#include "priv_spec.h"
#include "sx.h"
long long sim_time = 0;
static Csr c;
static ExeCsrIO exe;
static RobCsrIO rob;
static RobBroadcastIO bc;
static CsrInterruptInjectIO inj;
static CsrExeIO oexe;
static CsrRobIO orob;
static CsrFrontIO ofr;
static CsrStatusIO ost;

static void setup() {
  c.in = {&exe, &rob, &bc, &inj};
  c.out = {&oexe, &orob, &ofr, &ost};
  for (int i = 0; i < 21; i++)
    c.CSR_RegFile[i] = (uint32_t)sx_var("csr", i, 32);
  c.CSR_RegFile[csr_sstatus] = (uint32_t)c.CSR_RegFile[csr_mstatus] & SST;
  c.CSR_RegFile[csr_sie] = (uint32_t)c.CSR_RegFile[csr_mie] & 0x333;
  c.CSR_RegFile[csr_sip] = (uint32_t)c.CSR_RegFile[csr_mip] & 0x333;
  c.privilege = sx_var("priv", 0, 2);
  sx_assume(c.privilege != 2);
}
// the CSR unit's part of one clock cycle, in the order the core calls it
static void cycle() {
  c.comb_csr_status();
  c.comb_begin();
  c.comb_interrupt();
  c.comb_csr_read();
  c.comb_exception();
  c.comb_csr_write();
  c.comb_interrupt_inject();
  c.seq();
}
static Snap snap() {
  Snap s{};
  for (int i = 0; i < 21; i++)
    s.csr[i] = c.CSR_RegFile[i];
  s.priv = c.privilege;
  s.pc = bc.pc;
  return s;
}
static void inject(Snap &s, const char *n, bool on) {
  inj.external_irq_pending_valid = on && sx_var(n, 0, 1);
  inj.external_irq_pending = sx_var(n, 1, 1);
  inj.timer_irq_pending_valid = on && sx_var(n, 2, 1);
  inj.timer_irq_pending = sx_var(n, 3, 1);
}
static void spec_inject(Snap &s) {
  uint32_t &m = s.csr[csr_mip];
  if (inj.external_irq_pending_valid)
    m = inj.external_irq_pending ? m | 0x800u : m & ~0x800u;
  if (inj.timer_irq_pending_valid)
    m = inj.timer_irq_pending ? m | 0x80u : m & ~0x80u;
  s.csr[csr_sip] = m & 0x333;
}
static void check(const Snap &s) {
  sx_assert(c.privilege == s.priv, "privilege");
  sx_assert(c.CSR_RegFile[csr_mstatus] == s.csr[csr_mstatus], "mstatus");
  sx_assert(c.CSR_RegFile[csr_mcause] == s.csr[csr_mcause], "mcause");
  sx_assert(c.CSR_RegFile[csr_scause] == s.csr[csr_scause], "scause");
  bool ok = true;
  for (int i = 0; i < 21; i++) {
    ok = ok & (c.CSR_RegFile[i] == s.csr[i]);
    sx_observe("csr", i, c.CSR_RegFile[i]);
  }
  sx_assert(ok, "control registers");
  sx_observe("priv", 0, c.privilege);
}
static void broadcast() {
  bc.pc = (uint32_t)sx_var("pc", 0, 32);
  bc.trap_val = (uint32_t)sx_var("tval", 0, 32);
  bc.flush = true;
}
extern "C" void hx_core_exc() {
  setup();
  broadcast();
  uint32_t k = (uint32_t)sx_var("kind", 0, 3);
  sx_assume(k < 5);
  bc.exception = true;
  bc.ecall = k == 0;
  bc.page_fault_inst = k == 1;
  bc.page_fault_load = k == 2;
  bc.page_fault_store = k == 3;
  bc.illegal_inst = k == 4;
  Snap s = snap();
  sx_assume(!spec_irq_m(s) && !spec_irq_s(s)); // an interrupt would have been taken instead
  uint32_t cause = k == 0 ? (s.priv == 0 ? 8 : s.priv == 1 ? 9 : 11) : k == 1 ? 12 : k == 2 ? 13 : k == 3 ? 15 : 2;
  Trap t = spec_exc(s, cause, k == 0 ? 0 : (uint32_t)bc.trap_val);
  spec_trap(s, t);
  inject(s, "inj", true);
  spec_inject(s);
  cycle();
  sx_assert(ofr.trap_pc == s.pc, "trap target");
  check(s);
  sx_cover(t.to_s && k == 2, "delegated load fault");
  sx_cover(!t.to_s && k == 4, "illegal instruction to machine mode");
}
extern "C" void hx_core_ret() {
  setup();
  broadcast();
  bool m = sx_var("kind", 0, 1);
  bc.mret = m;
  bc.sret = !m;
  Snap s = snap();
  sx_assume(!spec_irq_m(s) && !spec_irq_s(s));
  sx_assume(!m || (s.csr[csr_mstatus] >> 11 & 3) != 2);
  if (m)
    spec_mret(s);
  else
    spec_sret(s);
  inject(s, "inj", true);
  spec_inject(s);
  cycle();
  sx_assert(ofr.epc == s.pc, "return target");
  check(s);
  sx_cover(m, "mret");
  sx_cover(!m, "sret");
}
extern "C" void hx_core_irq() {
  setup();
  broadcast();
  bc.exception = true;
  bc.interrupt = true;
  rob.interrupt_resp = true;
  Snap s = snap();
  uint32_t m = spec_irq_m(s), sv = spec_irq_s(s);
  sx_assume(m || sv);
  inject(s, "inj", true);
  CsrInterruptInjectIO was = inj;
  cycle();
  sx_assert(orob.interrupt_req, "interrupt requested");
  bool to_s = !m;
  uint32_t cs = to_s ? c.CSR_RegFile[csr_scause] : c.CSR_RegFile[csr_mcause];
  sx_assert(cs >> 31, "cause marks an interrupt");
  uint32_t code = cs & 0x7fffffff;
  sx_assert(code < 12 && ((to_s ? sv : m) >> (code & 31) & 1), "cause names a deliverable interrupt");
  sx_assert(code == spec_irq_first(to_s ? sv : m), "external before software before timer");
  Trap t{code, true, to_s, 0};
  spec_trap(s, t);
  inj = was;
  spec_inject(s);
  sx_assert(ofr.trap_pc == s.pc, "trap target");
  check(s);
  sx_cover(to_s, "supervisor");
  sx_cover(!to_s, "machine");
}
extern "C" void hx_core_idle() { // nothing retires: only interrupt lines move
  setup();
  bc.pc = (uint32_t)sx_var("pc", 0, 32);
  bc.trap_val = (uint32_t)sx_var("tval", 0, 32);
  bc.flush = sx_var("flush", 0, 1);
  bc.fence = sx_var("flush", 1, 1);
  bc.fence_i = sx_var("flush", 2, 1);
  Snap s = snap();
  bool want = spec_irq_m(s) || spec_irq_s(s);
  inject(s, "inj", true);
  spec_inject(s);
  uint32_t ms = s.csr[csr_mstatus], sa = s.csr[csr_satp];
  uint8_t pr = s.priv;
  cycle();
  sx_assert(orob.interrupt_req == want, "interrupt requested exactly when one is deliverable");
  sx_assert(ost.mstatus == ms && ost.sstatus == (ms & SST) && ost.satp == sa && ost.privilege == pr, "status published to the memory and front end");
  check(s);
  sx_cover(want, "request");
  sx_cover(!want && s.csr[csr_mip] != 0, "masked");
}
// a CSR instruction: executes, waits, then commits or is squashed
static void csr_one(const CsrNo &n) {
  setup();
  exe.we = sx_var("we", 0, 1);
  exe.re = sx_var("re", 0, 1);
  exe.idx = n.no;
  exe.wdata = (uint32_t)sx_var("wdata", 0, 32);
  uint32_t cmd = (uint32_t)sx_var("wcmd", 0, 2);
  sx_assume(cmd != 0);
  exe.wcmd = cmd;
  Snap s = snap();
  bool we = exe.we, re = exe.re;
  uint32_t src = exe.wdata, old = s.csr[n.idx];
  inject(s, "inj0", n.no != 0x344 && n.no != 0x144);
  spec_inject(s);
  cycle();
  sx_assert(!re || oexe.rdata == old, "CSR read value");
  check(s); // nothing happens before commit
  // one further cycle without an event
  exe = ExeCsrIO();
  inject(s, "inj1", n.no != 0x344 && n.no != 0x144);
  spec_inject(s);
  cycle();
  check(s);
  // commit, or squash by a flush
  bool commit = sx_var("commit", 0, 1);
  bc.flush = true;
  rob.commit = commit;
  if (commit && we)
    spec_csr_write(s, n, cmd, src);
  inject(s, "inj2", true);
  spec_inject(s);
  cycle();
  check(s);
  // afterwards a CSR instruction which does not write commits
  rob.commit = false;
  bc.flush = false;
  exe.re = true;
  exe.idx = 0x340;
  cycle();
  exe = ExeCsrIO();
  rob.commit = true;
  bc.flush = true;
  cycle();
  check(s);
  sx_cover(commit && we, "committed write");
  sx_cover(!commit && we, "squashed write");
}
#define ONE(n) extern "C" void hx_core_csr##n() { csr_one(kCsr[n]); }
ONE(0) ONE(1) ONE(2) ONE(3) ONE(4) ONE(5) ONE(6) ONE(7) ONE(8) ONE(9)
ONE(10) ONE(11) ONE(12) ONE(13) ONE(14) ONE(15) ONE(16) ONE(17) ONE(18)
