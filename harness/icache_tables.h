// The arrays of the instruction cache, left to the harness.
#pragma once
#include <cstdint>
#include "config.h"
#include "frontend.h"
#include "icache/GenericTable.h"
#define ICACHE_TABLE(name, bits)                                                                   \
  typedef GenericTable<ICACHE_SET_NUM, ICACHE_WAY_NUM, bits, RegfileTablePolicy> name;             \
  template <> void name::reset();                                                                  \
  template <> void name::comb(const name::ReadReq &, name::ReadResp &) const;                      \
  template <> void name::seq(const name::ReadReq &, const name::WriteReq &);
ICACHE_TABLE(HxData, ICACHE_LINE_SIZE * 8)
ICACHE_TABLE(HxTag, ICACHE_TAG_BITS)
ICACHE_TABLE(HxValid, 1)
