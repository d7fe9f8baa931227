// Single precision instructions on integer registers (Zfinx), from the manual.
// The rounded arithmetic itself is the library's (softfloat_model.h). Dynamic
// rounding is to nearest even: the core has no floating point control register.
#pragma once
#include "isa_spec.h"
#include "softfloat_model.h"
static bool fp_rm_ok(uint32_t i) { return isa_f3(i) != 5 && isa_f3(i) != 6; }
static bool fp_defined(uint32_t i) {
  uint32_t f7 = isa_f7(i), f3 = isa_f3(i), r2 = isa_rs2(i);
  switch (f7) {
  case 0x00: case 0x04: case 0x08: case 0x0c: return fp_rm_ok(i);
  case 0x2c: return fp_rm_ok(i) && r2 == 0;
  case 0x60: case 0x68: return fp_rm_ok(i) && r2 < 2;
  case 0x10: case 0x50: return f3 < 3;
  case 0x14: return f3 < 2;
  case 0x70: return f3 == 1 && r2 == 0;
  }
  return false;
}
static uint32_t fp_canon(uint32_t v) { return fm_nan(v) ? 0x7fc00000u : v; }
// numbers in order: a strictly below b, with -0 below +0
static bool fp_below(uint32_t a, uint32_t b) {
  int64_t x = a >> 31 ? -(int64_t)(a & 0x7fffffffu) - 1 : (int64_t)a;
  int64_t y = b >> 31 ? -(int64_t)(b & 0x7fffffffu) - 1 : (int64_t)b;
  return x < y;
}
static uint32_t fp_class(uint32_t a) {
  bool s = a >> 31;
  uint32_t m = a & 0x7fffffffu;
  int k = m > 0x7fbfffffu ? 9 : m > 0x7f800000u ? 8 : m == 0x7f800000u ? (s ? 0 : 7) : m > 0x7fffffu ? (s ? 1 : 6) : m ? (s ? 2 : 5) : s ? 3 : 4;
  return 1u << k;
}
static uint32_t fp_value(uint32_t i, uint32_t a, uint32_t b) {
  uint32_t f3 = isa_f3(i), sel = isa_rs2(i), rm = f3 == 7 ? 0 : f3, S = 0x80000000u;
  bool na = fm_nan(a), nb = fm_nan(b), zero = ((a | b) << 1) == 0;
  uint32_t old = softfloat_roundingMode, v = 0;
  softfloat_roundingMode = rm;
  switch (isa_f7(i)) {
  case 0x00: v = fp_canon(f32_add({a}, {b}).v); break;
  case 0x04: v = fp_canon(f32_add({a}, {b ^ S}).v); break;
  case 0x08: v = fp_canon(f32_mul({a}, {b}).v); break;
  case 0x0c: v = fp_canon(f32_div({a}, {b}).v); break;
  case 0x2c: v = fp_canon(f32_sqrt({a}).v); break;
  case 0x60:
    if (sel == 0)
      v = na || (!(a & S) && a >= 0x4f000000u) ? 0x7fffffffu : (a & S) && a > 0xcf000000u ? S : (uint32_t)f32_to_i32({a}, rm, true);
    else
      v = na ? ~0u : a & S ? 0 : a >= 0x4f800000u ? ~0u : (uint32_t)f32_to_ui32({a}, rm, true);
    break;
  case 0x68: v = sel == 0 ? i32_to_f32((int32_t)a).v : ui32_to_f32(a).v; break;
  case 0x10: v = (a & ~S) | ((f3 == 0 ? b : f3 == 1 ? ~b : a ^ b) & S); break;
  case 0x14: {
    bool first = f3 == 0 ? fp_below(a, b) : fp_below(b, a);
    v = na && nb ? 0x7fc00000u : na ? b : nb ? a : first ? a : b;
    break;
  }
  case 0x50: {
    bool eq = a == b || zero, lt = !zero && fp_below(a, b);
    v = !na && !nb && (f3 == 2 ? eq : f3 == 1 ? lt : lt || eq);
    break;
  }
  case 0x70: v = fp_class(a); break;
  }
  softfloat_roundingMode = old;
  return v;
}
