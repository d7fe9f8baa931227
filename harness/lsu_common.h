// The load/store unit with its ports.
#pragma once
#include <array>
#include <cinttypes>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <vector>
#define private public
#include "RealLsu.h"
#include "types.h"
#undef private
#include "sx.h"

static SimContext ctx;
static RobCommitIO rob_commit;
static RobBroadcastIO rob_bcast;
static DecBroadcastIO dec_bcast;
static CsrStatusIO csr_status;
static DisLsuIO dis2lsu;
static ExeLsuIO exe2lsu;
static PeripheralRespIO per_resp;
static DcacheLsuIO dcache2lsu;
static MMULsuIO mmu2lsu;
static LsuDisIO lsu2dis;
static LsuRobIO lsu2rob;
static LsuExeIO lsu2exe;
static PeripheralReqIO per_req;
static LsuDcacheIO lsu2dcache;
static LsuMMUIO lsu2mmu;
long long sim_time = 0;

constexpr int NQ = LDQ_SIZE, NT = STQ_SIZE;
typedef StoreState SS;
typedef LoadState LS;

static RealLsu &unit() {
  static RealLsu u(&ctx);
  u.in = {&rob_commit, &rob_bcast, &dec_bcast, &csr_status, &dis2lsu, &exe2lsu, &per_resp, &dcache2lsu, &mmu2lsu};
  u.out = {&lsu2dis, &lsu2rob, &lsu2exe, &per_req, &lsu2dcache, &lsu2mmu};
  u.init();
  return u;
}
static uint32_t width(uint32_t f3) { return 1u << (f3 & 3); }
static uint32_t f3_of(const char *n, int i, bool store) {
  uint32_t v = sx_var(n, i, 3);
  sx_assume((v & 3) < 3 && (store ? v < 3 : v != 6));
  return v;
}
static bool is_io(uint32_t a) {
  auto in = [&](uint32_t b, uint32_t n) { return a - b < n; };
  return in(UART_ADDR_BASE, ~UART_ADDR_MASK + 1) || in(PLIC_ADDR_BASE, ~PLIC_ADDR_MASK + 1) ||
         in(XPS_INTC_ADDR_BASE, XPS_INTC_MMIO_SIZE) || in(DMA_ADDR_BASE, DMA_MMIO_SIZE) || a == OPENSBI_TIMER_LOW_ADDR || a == OPENSBI_TIMER_HIGH_ADDR ||
         a == OPENSBI_TIMERCMP_LOW_ADDR || a == OPENSBI_TIMERCMP_HIGH_ADDR;
}
