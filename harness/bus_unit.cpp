// P02: the bridge between the core and the device bus. One cycle from any
// state, any answer from the bus.
#include <cstdint>
#include <cstring>
#include <iostream>
#include <vector>
#define private public
#include "PeripheralAxi.h"
#include "PeripheralModel.h"
#undef private
#include "util.h"
#include "sx.h"
long long sim_time = 0;
static PeripheralAxi br;
static PeripheralModel dev;
static CsrInterruptInjectIO inj;
static uint32_t win[4];
static PeripheralReqIO req;
static PeripheralRespIO resp;

static uint32_t ext(uint32_t v, uint8_t g) {
  return g == 0   ? (uint32_t)(int8_t)v
         : g == 1 ? (uint32_t)(int16_t)v
         : g == 4 ? (uint8_t)v
         : g == 5 ? (uint16_t)v
                  : v;
}

// A request of the core and every cycle until its answer has been taken.
// Each wait lasts any number of cycles up to N.
static void transaction(bool write, bool modelled) {
  constexpr int N = 3;
  p_memory = win;
  dev.bind(&inj, win);
  br.peripheral_req = &req;
  br.peripheral_resp = &resp;
  br.peripheral_model = &dev;
  // left over from any earlier access, possibly answered just now
  br.cur.busy = false;
  br.cur.req_accepted = false;
  br.cur.write = sx_var("left", 0, 1);
  br.cur.resp_valid = sx_var("left", 1, 1);
  br.cur.addr = sx_var("left", 2, 32);
  br.cur.wdata = sx_var("left", 3, 32);
  br.cur.func3 = sx_var("left", 4, 3);
  br.cur.rdata = sx_var("left", 5, 32);
  br.cur.req_id = 0;
  br.nxt = br.cur;
  sim_time = (long long)sx_var("now", 0, 63);
  dev.timer_offset_ = sx_var("offset", 0, 64);

  uint32_t a = sx_var("addr", 0, 32), d = sx_var("data", 0, 32);
  uint8_t g = sx_var("func3", 0, 3);
  sx_assume((g & 3) != 3 && g != 6 && !(a & ((1u << (g & 3)) - 1)));
  sx_assume(!write || g < 3);
  if (modelled) {
    uint32_t hi = sx_var("half", 0, 1);
    a = OPENSBI_TIMER_BASE + 4 * hi;
    g = 2;
  } else {
    sx_assume(!PeripheralModel::is_modeled_mmio(a));
  }
  uint32_t n = 1u << (g & 3);

  bool sent = false, answered = false, resp_in = false;
  uint32_t got = 0, raw = 0;
  uint32_t requests = 0, answers = 0;
  for (int c = 0; c < 2 * N + 3; c++) {
    // outputs of the bridge this cycle
    br.comb_outputs();
    if (c == 0)
      sx_assert(resp.ready, "an idle bridge takes a request");
    const auto &ro = br.out.read;
    const auto &wo = br.out.write;
    bool rq = ro.req_valid || wo.req_valid;
    sx_assert(!rq || (c > 0 && !modelled && !sent),
              "the bus is asked once for each access, and never for a device "
              "inside the core");
    if (rq && c > 0) {
      sx_assert(ro.req_valid == !write && wo.req_valid == write,
                "a load reads and a store writes");
      if (write) {
        sx_assert(wo.req_addr == a && wo.req_total_size == n - 1,
                  "a write goes to its own address with its own size");
        sx_assert(wo.req_wstrb == (1u << n) - 1,
                  "a write enables exactly its own bytes");
        uint32_t m = n == 4 ? ~0u : (1u << (8 * n)) - 1;
        sx_assert((wo.req_wdata[0] & m) == (d & m),
                  "a write carries the data stored");
      } else {
        sx_assert(ro.req_addr == a && ro.req_total_size == n - 1,
                  "a read goes to its own address with its own size");
      }
    }
    if (c > 0 && resp.is_mmio) {
      answers++;
      got = resp.mmio_rdata;
      sx_assert(modelled ? c == 1 : resp_in,
                "an access is answered only once the bus has answered it");
      if (!write)
        sx_assert(got == (modelled
                              ? (uint32_t)(((uint64_t)sim_time +
                                            dev.timer_offset_) >>
                                           (32 * (a >> 2 & 1)))
                              : ext(raw, g)),
                  "a load gets the bytes the device answered, extended as "
                  "asked");
    }
    if (c > 0 && !answers && !modelled)
      sx_assert(!resp.ready, "a busy bridge takes no other request");
    bool want = (write ? wo.resp_ready : ro.resp_ready);
    // the bus
    bool acc = sx_var("accept", c, 1), rsp = sx_var("respond", c, 1);
    if (c >= N)
      acc = true;
    if (c >= 2 * N)
      rsp = true;
    acc = acc && rq;
    bool back = rsp && sent && !resp_in;
    sx_assert(!back || want, "an answer of the bus is taken when it comes");
    br.in.read.req_accepted = acc && !write;
    br.in.write.req_accepted = acc && write;
    br.in.read.resp_valid = back && !write;
    br.in.write.resp_valid = back && write;
    uint32_t rd = sx_var("rdata", c, 32);
    br.in.read.resp_data[0] = rd;
    if (back) {
      raw = rd;
      resp_in = true;
    }
    if (acc) {
      sent = true;
      requests++;
    }
    // the core: this access in the first cycle, nothing afterwards (a held
    // request is another access and waits for `ready`)
    req.is_mmio = c == 0;
    req.wen = c == 0 ? write : sx_var("junk", 4 * c, 1);
    req.mmio_addr = c == 0 ? a : (uint32_t)sx_var("junk", 4 * c + 1, 32);
    req.mmio_wdata = c == 0 ? d : (uint32_t)sx_var("junk", 4 * c + 2, 32);
    req.mmio_fun3 = c == 0 ? g : (uint8_t)sx_var("junk", 4 * c + 3, 3);
    if (c > 0 && sx_var("pressing", c, 1) && !resp.ready)
      req.is_mmio = 1; // not ready: must be ignored
    br.comb_inputs();
    br.seq();
  }
  br.comb_outputs();
  sx_assert(!resp.is_mmio && resp.ready, "the bridge is idle afterwards");
  sx_assert(answers == 1, "every access is answered exactly once");
  sx_assert(requests == (modelled ? 0u : 1u),
            "the bus is asked exactly once for each access");
  sx_cover(answers == 1, "answered");
}
extern "C" void hx_read() { transaction(false, false); }
extern "C" void hx_write() { transaction(true, false); }
extern "C" void hx_inner() { transaction(false, true); }
