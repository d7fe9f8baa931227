// P01: timer, DMA engine, interrupt lines and console of the device model.
// Any register contents, then one store from the core, then one clock tick.
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <iostream>
#include <vector>
#include "sx.h"
// The console is the standard output: every character sent to it is recorded.
static uint32_t printed_n, printed_last;
namespace sx_out {
struct Console {
  Console &put(char c) {
    printed_n++;
    printed_last = (uint8_t)c;
    return *this;
  }
  Console &write(const char *p, long n) {
    for (long i = 0; i < n; i++)
      put(p[i]);
    return *this;
  }
  Console &flush() { return *this; }
  Console &operator<<(char c) { return put(c); }
  Console &operator<<(unsigned char c) { return put((char)c); }
  Console &operator<<(std::ostream &(*)(std::ostream &)) { return *this; }
};
} // namespace sx_out
namespace std {
static sx_out::Console sx_cout;
}
#define cout sx_cout
#define private public
#include "PeripheralModel.h"
#undef private
#undef cout
#include "util.h"
long long sim_time = 0;
static PeripheralModel dev;
static CsrInterruptInjectIO inj;
static uint32_t win[66];

struct Spec {
  uint64_t now, off, cmp;
  uint32_t src, dst, len, ctrl, status;
  bool uart, dma;
};

static Spec any_state() {
  Spec s;
  s.now = sx_var("now", 0, 63);
  s.off = sx_var("offset", 0, 64);
  s.cmp = sx_var("compare", 0, 64);
  s.src = sx_var("src", 0, 32);
  s.dst = sx_var("dst", 0, 32);
  s.len = sx_var("len", 0, 32);
  s.ctrl = sx_var("irq_enabled", 0, 1) << 1;
  s.status = sx_var("status", 0, 3);
  s.uart = sx_var("uart_pending", 0, 1);
  s.dma = sx_var("dma_pending", 0, 1);
  sim_time = (long long)s.now;
  dev.timer_offset_ = s.off;
  dev.timer_cmp_ = s.cmp;
  dev.dma_src_ = s.src;
  dev.dma_dst_ = s.dst;
  dev.dma_len_ = s.len;
  dev.dma_ctrl_ = s.ctrl;
  dev.dma_status_ = s.status;
  dev.uart_irq_pending_ = s.uart;
  dev.dma_irq_pending_ = s.dma;
  p_memory = win;
  dev.bind(&inj, win);
  inj.external_irq_pending_valid = sx_var("left", 0, 1);
  inj.external_irq_pending = sx_var("left", 1, 1);
  inj.timer_irq_pending_valid = sx_var("left", 2, 1);
  inj.timer_irq_pending = sx_var("left", 3, 1);
  pmem_write(PLIC_CLAIM_ADDR, s.dma    ? DMA_PLIC_IRQ_ID
                              : s.uart ? UART_PLIC_IRQ_ID
                                       : 0u);
  printed_n = 0;
  return s;
}

static void lines(const Spec &s) {
  sx_assert(inj.timer_irq_pending_valid &&
                inj.timer_irq_pending == (s.now + s.off >= s.cmp),
            "the timer interrupt is raised exactly while the timer has reached "
            "the compare value");
  sx_assert(inj.external_irq_pending_valid &&
                inj.external_irq_pending == (s.uart || s.dma),
            "the external interrupt is raised exactly while a device has one "
            "pending");
  uint32_t claim = dev.read_load(PLIC_CLAIM_ADDR, 2);
  sx_assert(claim == (s.dma    ? (uint32_t)DMA_PLIC_IRQ_ID
                      : s.uart ? (uint32_t)UART_PLIC_IRQ_ID
                               : 0u),
            "the claim register names a device with an interrupt pending");
}

static void regs(const Spec &s) {
  uint64_t t = s.now + s.off;
  sx_assert(dev.read_load(OPENSBI_TIMER_LOW_ADDR, 2) == (uint32_t)t &&
                dev.read_load(OPENSBI_TIMER_HIGH_ADDR, 2) ==
                    (uint32_t)(t >> 32),
            "the timer reads as the value last set plus the cycles since");
  sx_assert(dev.read_load(OPENSBI_TIMERCMP_LOW_ADDR, 2) == (uint32_t)s.cmp &&
                dev.read_load(OPENSBI_TIMERCMP_HIGH_ADDR, 2) ==
                    (uint32_t)(s.cmp >> 32),
            "the compare register reads as written");
  sx_assert(dev.read_load(DMA_SRC_ADDR, 2) == s.src &&
                dev.read_load(DMA_DST_ADDR, 2) == s.dst &&
                dev.read_load(DMA_LEN_ADDR, 2) == s.len,
            "the DMA address and length registers read as written");
  sx_assert(dev.read_load(DMA_CTRL_ADDR, 2) == s.ctrl,
            "the DMA control register shows the interrupt enable and nothing "
            "else");
  sx_assert(dev.read_load(DMA_STATUS_ADDR, 2) == s.status,
            "the DMA status register shows the outcome of the last transfer "
            "until it is cleared");
}

// Some cycles pass, then the devices are ticked and looked at.
static void later(Spec &s) {
  s.now += sx_var("passed", 0, 20);
  sx_assume(!(s.now >> 63));
  sim_time = (long long)s.now;
  dev.tick();
  lines(s);
  regs(s);
}

extern "C" void hx_regs() {
  Spec s = any_state();
  uint32_t a = sx_var("addr", 0, 32);
  uint32_t d = sx_var("data", 0, 32);
  bool tm = a >= OPENSBI_TIMER_BASE && a < OPENSBI_TIMER_BASE + 16;
  bool dm = a >= DMA_ADDR_BASE && a < DMA_ADDR_BASE + 20;
  sx_assume((tm || dm) && !(a & 3));
  sx_assume(!(a == DMA_CTRL_ADDR && (d & 1)));
  uint64_t t = s.now + s.off;
  dev.on_commit_store(a, d, 2);
  switch (a) {
  case OPENSBI_TIMER_LOW_ADDR:
    s.off = ((t >> 32 << 32) | d) - s.now;
    break;
  case OPENSBI_TIMER_HIGH_ADDR:
    s.off = (((uint64_t)d << 32) | (uint32_t)t) - s.now;
    break;
  case OPENSBI_TIMERCMP_LOW_ADDR:
    s.cmp = (s.cmp >> 32 << 32) | d;
    break;
  case OPENSBI_TIMERCMP_HIGH_ADDR:
    s.cmp = ((uint64_t)d << 32) | (uint32_t)s.cmp;
    break;
  case DMA_SRC_ADDR:
    s.src = d;
    break;
  case DMA_DST_ADDR:
    s.dst = d;
    break;
  case DMA_LEN_ADDR:
    s.len = d;
    break;
  case DMA_CTRL_ADDR:
    s.ctrl = d & 2;
    break;
  case DMA_STATUS_ADDR:
    s.status &= ~d;
    break;
  }
  sx_cover(a == OPENSBI_TIMER_HIGH_ADDR && s.now + s.off >= s.cmp, "timer set");
  sx_cover(a == DMA_STATUS_ADDR && s.status == 2, "status cleared in part");
  sx_assert(printed_n == 0, "a store to another device prints nothing");
  later(s);
}

// Device interrupts are raised and completed.
extern "C" void hx_irq() {
  Spec s = any_state();
  uint32_t a = sx_var("addr", 0, 32);
  uint32_t d = sx_var("data", 0, 32);
  uint8_t f = sx_var("size", 0, 2);
  sx_assume(f <= 2 && !(a & ((1u << f) - 1)));
  bool plic = a >= PLIC_ADDR_BASE && a - PLIC_ADDR_BASE < PLIC_MMIO_SIZE;
  bool uart = a >= UART_ADDR_BASE && a - UART_ADDR_BASE < UART_MMIO_SIZE;
  sx_assume(plic || uart);
  sx_assume(f != 2 || a != PLIC_CLAIM_ADDR || d < 256);
  dev.on_commit_store(a, d, f);
  if (a == UART_ADDR_BASE + 1 && (d & 255) == 7)
    s.uart = true;
  if (a == PLIC_CLAIM_ADDR && (d & 255) == UART_PLIC_IRQ_ID)
    s.uart = false;
  if (a == PLIC_CLAIM_ADDR && (d & 255) == DMA_PLIC_IRQ_ID)
    s.dma = false;
  sx_assert(printed_n == (a == UART_ADDR_BASE),
            "exactly one character is printed for a store to the transmit "
            "register, and none for any other");
  sx_assert(!printed_n || printed_last == (d & 255),
            "the character printed is the one stored");
  sx_cover(printed_n && f == 0, "character printed");
  sx_cover(a == PLIC_CLAIM_ADDR && s.uart && !s.dma, "one of two completed");
  later(s);
}

// The other device words are plain storage.
extern "C" void hx_words() {
  Spec s = any_state();
  uint32_t wa[2], wd[2];
  auto plain = [](uint32_t a) {
    bool plic = a >= PLIC_ADDR_BASE && a - PLIC_ADDR_BASE < PLIC_MMIO_SIZE &&
                (a & ~3u) != PLIC_CLAIM_ADDR;
    bool uart = a >= UART_ADDR_BASE + 4 && a - UART_ADDR_BASE < UART_MMIO_SIZE;
    bool dma = a >= DMA_ADDR_BASE + 20 && a - DMA_ADDR_BASE < DMA_MMIO_SIZE;
    bool tm = a >= OPENSBI_TIMER_BASE + 16 &&
              a - OPENSBI_TIMER_BASE < OPENSBI_TIMER_MMIO_SIZE;
    return plic || uart || dma || tm;
  };
  for (int i = 0; i < 2; i++) {
    wa[i] = sx_var("word", i, 32);
    wd[i] = sx_var("content", i, 32);
    sx_assume(!(wa[i] & 3) && plain(wa[i]));
    dev.on_commit_store(wa[i], wd[i], 2);
  }
  uint32_t a = sx_var("addr", 0, 32), d = sx_var("data", 0, 32);
  uint8_t f = sx_var("size", 0, 2);
  sx_assume(f <= 2 && !(a & ((1u << f) - 1)) && plain(a));
  dev.on_commit_store(a, d, f);
  dev.tick();
  uint32_t r = sx_var("raddr", 0, 32);
  uint8_t g = sx_var("rfunc3", 0, 3);
  sx_assume((g & 3) != 3 && g != 6 && !(r & ((1u << (g & 3)) - 1)) && plain(r));
  uint32_t v = 0;
  for (int i = 0; i < 2; i++)
    if (wa[i] == (r & ~3u))
      v = wd[i];
  if ((a & ~3u) == (r & ~3u)) {
    uint32_t m = (f == 0 ? 0xffu : f == 1 ? 0xffffu : ~0u) << ((a & 3) * 8);
    v = (v & ~m) | ((d << ((a & 3) * 8)) & m);
  }
  v >>= (r & 3) * 8;
  v = g == 0 ? (uint32_t)(int8_t)v : g == 1 ? (uint32_t)(int16_t)v
    : g == 4 ? (uint8_t)v : g == 5 ? (uint16_t)v : v;
  sx_assert(dev.read_load(r, g) == v,
            "a device word reads back as stored, sized and extended as asked");
  sx_assert(printed_n == 0, "a store to another device prints nothing");
  sx_cover(f == 0 && g == 1 && a == r + 1, "byte store read as half word");
  (void)s;
}

static uint32_t hook_addr, hook_n;
static size_t hook_size;
static void hook(uint32_t a, size_t n) {
  hook_addr = a;
  hook_size = n;
  hook_n++;
}

// L bytes between any two places of a window of W bytes
template <uint32_t L, uint32_t W> static void dma_copy() {
  Spec s = any_state();
  uint8_t *b = (uint8_t *)win, old[W];
  for (uint32_t i = 0; i < W; i++)
    b[i] = old[i] = sx_var("ram", i, 8);
  uint32_t so = sx_var("from", 0, 4), to = sx_var("to", 0, 4);
  sx_assume(so + L <= W && to + L <= W);
  s.src = dev.dma_src_ = PMEM_RAM_BASE + so;
  s.dst = dev.dma_dst_ = PMEM_RAM_BASE + to;
  s.len = dev.dma_len_ = L;
  bool en = sx_var("enable", 0, 1);
  uint32_t rest = sx_var("rest", 0, 30);
  dev.set_ram_sync_hook(hook);
  hook_n = 0;
  dev.on_commit_store(DMA_CTRL_ADDR, (rest << 2) | (en << 1) | 1, 2);
  s.ctrl = en << 1;
  s.status = PeripheralModel::kDmaStatusDone;
  s.dma = s.dma || en;
  for (uint32_t i = 0; i < W; i++) {
    uint8_t v = old[i];
    for (uint32_t j = i < W - L ? 0 : i - (W - L); j < W && j <= i + (W - L); j++)
      if (i >= to && i < to + L && j == i - to + so)
        v = old[j];
    sx_assert(b[i] == v, "a transfer copies exactly its bytes, as they were "
                         "before it began");
  }
  sx_assert(hook_n == 1 && hook_addr == s.dst && hook_size == L,
            "the reference is told of exactly the bytes the transfer wrote");
  sx_cover(to == so + (L > 1), "overlapping transfer");
  later(s);
}
extern "C" void hx_dma1() { dma_copy<1, 16>(); }
extern "C" void hx_dma4() { dma_copy<4, 16>(); }
extern "C" void hx_dma7() { dma_copy<7, 16>(); }
extern "C" void hx_dma132() { dma_copy<132, 136>(); }

extern "C" void hx_dmabad() {
  Spec s = any_state();
  auto bad = [&](uint32_t a) {
    return a < PMEM_RAM_BASE ||
           (uint64_t)a + s.len > (uint64_t)PMEM_RAM_BASE + RAM_SIZE;
  };
  sx_assume(s.len == 0 || bad(s.src) || bad(s.dst));
  uint32_t old[4];
  for (int i = 0; i < 4; i++)
    win[i] = old[i] = sx_var("ram", i, 32);
  uint32_t d = sx_var("data", 0, 32) | 1;
  dev.set_ram_sync_hook(hook);
  hook_n = 0;
  dev.on_commit_store(DMA_CTRL_ADDR, d, 2);
  s.ctrl = d & 2;
  s.status = PeripheralModel::kDmaStatusError;
  sx_cover(s.len && !bad(s.src), "only the destination is outside");
  sx_cover(s.len == 0, "nothing to copy");
  for (int i = 0; i < 4; i++)
    sx_assert(win[i] == old[i], "a refused transfer changes no memory");
  sx_assert(hook_n == 0, "a refused transfer writes nothing");
  later(s);
}

// Physical memory: words of the RAM and words outside it.
extern "C" void hx_ram() {
  p_memory = win;
  auto ok = [](uint32_t a) {
    return a < PMEM_RAM_BASE || a - PMEM_RAM_BASE < 16 ||
           a - PMEM_RAM_BASE >= RAM_SIZE;
  };
  for (int i = 0; i < 4; i++)
    win[i] = sx_var("ram", i, 32);
  uint32_t r = sx_var("raddr", 0, 32);
  sx_assume(ok(r));
  bool ram = r >= PMEM_RAM_BASE && r - PMEM_RAM_BASE < RAM_SIZE;
  uint32_t v = ram ? win[(r - PMEM_RAM_BASE) >> 2 & 3] : 0u;
  for (int i = 0; i < 3; i++) {
    uint32_t a = sx_var("waddr", i, 32), d = sx_var("wdata", i, 32);
    sx_assume(ok(a));
    pmem_write(a, d);
    if (a >> 2 == r >> 2)
      v = d;
  }
  sx_assert(pmem_read(r) == v, "a word of memory holds what was last written "
                               "to it, or its first contents");
  sx_cover(!ram && v, "word outside RAM");
  sx_cover(ram && v != win[1], "word of RAM");
}

template <uint32_t L> static void block() {
  p_memory = win;
  uint8_t *b = (uint8_t *)win, old[16], buf[L], back[L];
  for (int i = 0; i < 16; i++)
    b[i] = old[i] = sx_var("ram", i, 8);
  for (uint32_t i = 0; i < L; i++)
    buf[i] = sx_var("buf", i, 8);
  uint32_t to = sx_var("to", 0, 4), from = sx_var("from", 0, 4);
  sx_assume(to + L <= 16 && from + L <= 16);
  pmem_memcpy_to_ram(PMEM_RAM_BASE + to, buf, L);
  for (uint32_t i = 0; i < 16; i++) {
    uint8_t v = old[i];
    for (uint32_t j = 0; j < L; j++)
      if (i == to + j)
        v = buf[j];
    old[i] = v;
    sx_assert(b[i] == v, "a block is written exactly where it belongs");
  }
  pmem_memcpy_from_ram(back, PMEM_RAM_BASE + from, L);
  for (uint32_t j = 0; j < L; j++) {
    uint8_t v = 0;
    for (uint32_t i = 0; i < 16; i++)
      if (i == from + j)
        v = old[i];
    sx_assert(back[j] == v, "a block is read from where it is");
  }
  uint32_t w = sx_var("word", 0, 2);
  sx_assert(pmem_read(PMEM_RAM_BASE + 4 * w) ==
                (old[4 * w] | old[4 * w + 1] << 8 | old[4 * w + 2] << 16 |
                 (uint32_t)old[4 * w + 3] << 24),
            "words and bytes of the RAM are the same memory, lowest byte "
            "first");
  sx_cover(to == 9 && from == 0, "unaligned block");
}
extern "C" void hx_block5() { block<5>(); }

extern "C" void hx_isram() {
  uint32_t a = sx_var("addr", 0, 32), n = sx_var("size", 0, 32);
  bool in = n && a >= PMEM_RAM_BASE &&
            (uint64_t)a + n <= (uint64_t)PMEM_RAM_BASE + RAM_SIZE;
  sx_assert(pmem_is_ram_addr(a, n) == in,
            "a range is RAM exactly if all of it is");
  sx_cover(in, "inside");
  sx_cover(!in && a >= PMEM_RAM_BASE && n, "outside");
}
