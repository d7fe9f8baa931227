// F04: the arrays of the instruction cache keep what was written.
#include <cstdint>
#include "config.h"
#include "frontend.h"
#include "icache/GenericTable.h"
#include "sx.h"

template <int Bits, int Cycles> static void array() {
  typedef GenericTable<ICACHE_SET_NUM, ICACHE_WAY_NUM, Bits, RegfileTablePolicy> Table;
  static Table t;
  constexpr int K = (Bits + 31) / 32;
  constexpr uint64_t WIDTH = Bits < 32 ? Bits : 32;
  uint32_t a = sx_var("a", 0, ICACHE_INDEX_BITS), w = sx_var("w", 0, 3), k = K == 1 ? 0 : (uint32_t)sx_var("k", 0, 4);
  uint32_t kept = 0;
  for (int c = 0; c < Cycles; c++) {
    typename Table::WriteReq q;
    q.enable = sx_var("we", c, 1);
    q.address = sx_var("wa", c, ICACHE_INDEX_BITS);
    for (int i = 0; i < ICACHE_WAY_NUM; i++) {
      q.chunk_enable[i] = sx_var("wc", c * 8 + i, 1);
      for (int j = 0; j < K; j++) {
        q.payload.chunks[i][j] = sx_var("d", (c * 8 + i) * K + j, WIDTH);
        if (q.enable && q.address == a && q.chunk_enable[i] && w == (uint32_t)i && k == (uint32_t)j)
          kept = q.payload.chunks[i][j];
      }
    }
    typename Table::ReadReq r;
    r.enable = sx_var("re", c, 1);
    r.address = a;
    if (c == Cycles - 1 && sx_var("reset", 0, 1)) {
      t.reset();
      bool now = false;
      for (int i = 0; i < ICACHE_WAY_NUM; i++)
        now |= q.enable && q.address == a && q.chunk_enable[i] && w == (uint32_t)i;
      kept = now ? kept : 0;
    }
    t.seq(r, q);
    typename Table::ReadResp o;
    t.comb(r, o);
    sx_assert((bool)o.valid == (bool)r.enable, "a read is answered at once");
    uint32_t seen = 0;
    for (int i = 0; i < ICACHE_WAY_NUM; i++)
      for (int j = 0; j < K; j++)
        if (w == (uint32_t)i && k == (uint32_t)j)
          seen = o.payload.chunks[i][j];
    sx_assert(!r.enable || seen == kept, "a place holds what was last written there");
  }
  sx_cover(kept != 0, "written");
}
extern "C" void hx_data() { array<ICACHE_LINE_SIZE * 8, 2>(); }
extern "C" void hx_tag() { array<ICACHE_TAG_BITS, 3>(); }
extern "C" void hx_valid() { array<1, 3>(); }
