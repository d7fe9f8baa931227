// the memory side of back_whole.cpp with the real caches: the bus and the
// memory behind it
static MemSubsystem mem(&ctx);
static ICacheMemPortReq ic_req;
static ICacheMemPortResp ic_resp;
static CsrInterruptInjectIO no_inject;
static uint32_t ram[4];
bool pmem_is_ram_addr(uint32_t, uint32_t) { return false; }
void pmem_memcpy_from_ram(void *, uint32_t, size_t) {}
void pmem_memcpy_to_ram(uint32_t, const void *, size_t) {}
struct Line { uint32_t addr, w[16]; };
static Line lines[64];
static int nlines;
static Line &line_at(uint32_t a) {
  a &= ~63u;
  for (int i = 0; i < nlines; i++)
    if (lines[i].addr == a)
      return lines[i];
  lines[nlines].addr = a;
  for (int i = 0; i < 16; i++)
    lines[nlines].w[i] = initial(a + 4 * i);
  return lines[nlines++];
}
// what the simulator does for a retiring store
void SimContext::run_commit_inst(InstEntry *x, int) {
  InstInfo *inst = &x->uop;
  if (inst->tma.mem_commit_is_store && !inst->page_fault_store) {
    StqEntry e = back.lsu->get_stq_entry(inst->stq_idx, inst->stq_flag);
    bool off = e.suppress_write && e.rob_idx == inst->rob_idx && e.rob_flag == inst->rob_flag;
    if (!off && e.paddr_valid && e.data_valid)
      mem.on_commit_store(e.paddr, e.data, e.func3);
  }
}
struct Bus {
  // reads: requests in the order of their acceptance
  struct { uint32_t addr, id; int due; } q[16];
  int n, acc = -1;
  bool giving;
  // writes
  bool wacc;
  int wleft;
} bus;
static void connect() {
  mem.csr_interrupt_inject = &no_inject;
  mem.memory = ram;
  mem.peripheral_req = &back.out.peripheral_req;
  mem.peripheral_resp = &back.in.peripheral_resp;
  mem.set_ptw_coherent_source(back.lsu);
  back.set_lsu_ptw_walk_port(mem.dtlb_walk_port);
  back.set_lsu_ptw_mem_port(mem.dtlb_ptw_port);
  mem.lsu2dcache = &back.out.lsu2dcache;
  mem.dcache2lsu = &back.in.dcache2lsu;
  mem.icache_req = &ic_req;
  mem.icache_resp = &ic_resp;
  mem.set_internal_axi_runtime_active(false);
  mem.init();
}
static void memory_answers() {
  auto &r = mem.mshr_axi_in;
  r.req_ready = true;
  r.req_accepted = bus.acc >= 0;
  r.req_accepted_id = bus.acc >= 0 ? bus.acc : 0;
  bus.giving = bus.n && cyc >= bus.q[0].due;
  r.resp_valid = bus.giving;
  r.resp_id = bus.giving ? bus.q[0].id : 0;
  if (bus.giving) {
    const Line &l = line_at(bus.q[0].addr);
    for (int i = 0; i < 16; i++)
      r.resp_data[i] = l.w[i];
  }
  auto &w = mem.wb_axi_in;
  w.req_ready = true;
  w.req_accepted = bus.wacc;
  w.resp_valid = bus.wleft == 1;
  mem.comb_outputs();
}
static void memory_takes() {
  mem.comb_inputs();
  bool again = env.again >> (cyc & 63) & 1; // the bus takes nothing
  auto &r = mem.mshr_axi_out;
  if (bus.giving && r.resp_ready) {
    for (int i = 1; i < bus.n; i++)
      bus.q[i - 1] = bus.q[i];
    bus.n--;
  }
  bus.acc = -1;
  if (r.req_valid && !again) {
    sx_assert((r.req_addr & 63) == 0 && r.req_total_size == 63, "whole lines are read");
    bus.acc = r.req_id;
    bus.q[bus.n++] = {r.req_addr, r.req_id, cyc + env.delay};
  }
  auto &w = mem.wb_axi_out;
  if (bus.wleft > 1 || (bus.wleft == 1 && w.resp_ready))
    bus.wleft--;
  bus.wacc = false;
  if (w.req_valid && !again && !bus.wleft) {
    Line &l = line_at(w.req_addr);
    for (int i = 0; i < 16; i++)
      l.w[i] = w.req_wdata[i];
    bus.wacc = true;
    bus.wleft = env.delay;
  }
}
static void memory_seq() { mem.seq(); }
// a word wherever it is
static uint32_t held(uint32_t a) {
  uint32_t la = a & ~63u, i = a >> 2 & 15, set = a >> DCACHE_OFFSET_BITS & (DCACHE_SETS_NUM - 1);
  for (int w = 0; w < DCACHE_WAYS_NUM; w++)
    if (valid_array[set][w] && tag_array[set][w] == a >> (DCACHE_SET_BITS + DCACHE_OFFSET_BITS))
      return data_array[set][w][i];
  for (int k = 0; k < (int)mem.get_wb().cur.count; k++) {
    auto &e = mem.get_wb().cur.write_buffer[(mem.get_wb().cur.head + k) % DCACHE_WB_ENTRIES];
    if (e.addr == la)
      return e.data[i];
  }
  return line_at(a).w[i];
}
static void memory_same() {
  bool same = true;
  for (int k = 0; k < g_nwr; k++)
    if (!regs(g_wr[k].addr))
      same &= held(g_wr[k].addr) == mem_with(g_wr, g_nwr, g_wr[k].addr);
  sx_assert(same, "memory equals that of the sequential run");
}
