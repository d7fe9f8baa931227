// The software floating point library, which the repository ships as a binary.
// Comparisons follow the IEEE rules exactly. Arithmetic is an arbitrary but
// fixed function of the operands and the rounding mode, which gives some NaN
// (sign and payload arbitrary) when an operand is a NaN; subtraction is addition
// of the negated operand. Conversions to integers give the library's own value
// for NaN and out-of-range operands and an arbitrary fixed one otherwise.
#pragma once
#include "sx.h"
#include <cstdint>
extern "C" {
#include "softfloat.h"
}
static bool fm_nan(uint32_t v) { return (v & 0x7fffffffu) > 0x7f800000u; }
static uint32_t fm_rm() { return softfloat_roundingMode & 7u; }
static uint32_t fm_some_nan(uint64_t key) {
  uint32_t p = (uint32_t)sx_uf("nan", key, 32);
  return 0x7fc00000u | p;
}
static float32_t fm_op(const char *n1, const char *n2, uint32_t a, uint32_t b, bool sym) {
  uint64_t key = ((uint64_t)a << 32) | b, yek = ((uint64_t)b << 32) | a;
  uint64_t k = sym && a > b ? yek : key;
  uint64_t in = ((uint64_t)fm_rm() << 32) | (uint32_t)sx_uf(n1, k, 32);
  return {fm_nan(a) || fm_nan(b) ? fm_some_nan(key) : (uint32_t)sx_uf(n2, in, 32)};
}
static uint64_t fm_un(uint32_t a) { return ((uint64_t)fm_rm() << 32) | a; }
extern "C" {
float32_t f32_add(float32_t a, float32_t b) { return fm_op("add1", "add2", a.v, b.v, true); }
float32_t f32_sub(float32_t a, float32_t b) { return fm_op("add1", "add2", a.v, b.v ^ 0x80000000u, true); }
float32_t f32_mul(float32_t a, float32_t b) { return fm_op("mul1", "mul2", a.v, b.v, true); }
float32_t f32_div(float32_t a, float32_t b) { return fm_op("div1", "div2", a.v, b.v, false); }
float32_t f32_sqrt(float32_t a) { return {fm_nan(a.v) ? fm_some_nan(a.v) : (uint32_t)sx_uf("sqrt", fm_un(a.v), 32)}; }
// only the sign of the product matters, not which factor carries it
float32_t f32_mulAdd(float32_t a, float32_t b, float32_t c) {
  uint32_t x = a.v & 0x7fffffffu, y = b.v & 0x7fffffffu, s = (a.v ^ b.v) >> 31;
  uint64_t k = x > y ? ((uint64_t)y << 32) | x : ((uint64_t)x << 32) | y;
  uint64_t p = ((uint64_t)c.v << 32) | (uint32_t)sx_uf("ma1", k, 32);
  uint64_t q = ((uint64_t)(s << 3 | fm_rm()) << 32) | (uint32_t)sx_uf("ma2", p, 32);
  bool n = fm_nan(a.v) || fm_nan(b.v) || fm_nan(c.v);
  return {n ? fm_some_nan(p) : (uint32_t)sx_uf("ma3", q, 32)};
}
bool f32_eq(float32_t a, float32_t b) {
  return !fm_nan(a.v) && !fm_nan(b.v) && (a.v == b.v || ((a.v | b.v) << 1) == 0);
}
bool f32_lt(float32_t a, float32_t b) {
  bool sa = a.v >> 31, sb = b.v >> 31, zero = ((a.v | b.v) << 1) == 0;
  bool lt = sa != sb ? sa && !zero : a.v != b.v && (sa != (a.v < b.v));
  return !fm_nan(a.v) && !fm_nan(b.v) && lt;
}
bool f32_le(float32_t a, float32_t b) { return f32_lt(a, b) || f32_eq(a, b); }
bool f32_eq_signaling(float32_t a, float32_t b) { return f32_eq(a, b); }
bool f32_lt_quiet(float32_t a, float32_t b) { return f32_lt(a, b); }
bool f32_le_quiet(float32_t a, float32_t b) { return f32_le(a, b); }
bool f32_isSignalingNaN(float32_t a) { return fm_nan(a.v) && !(a.v >> 22 & 1); }
int_fast32_t f32_to_i32(float32_t a, uint_fast8_t rm, bool) {
  bool neg = a.v >> 31;
  bool out = fm_nan(a.v) || (neg ? a.v > 0xcf000000u : a.v >= 0x4f000000u);
  uint32_t v = (uint32_t)sx_uf("f32_to_i32", ((uint64_t)(rm & 7u) << 32) | a.v, 31);
  return out ? INT32_MIN : (int32_t)(neg ? 0u - v : v);
}
uint_fast32_t f32_to_ui32(float32_t a, uint_fast8_t rm, bool) {
  uint32_t v = (uint32_t)sx_uf("f32_to_ui32", ((uint64_t)(rm & 7u) << 32) | a.v, 32);
  bool neg = a.v >> 31;
  bool out = fm_nan(a.v) || (neg ? a.v != 0x80000000u && (v & 1) : a.v >= 0x4f800000u);
  return out ? 0xffffffffu : neg ? 0 : v;
}
int_fast32_t f32_to_i32_r_minMag(float32_t a, bool e) { return f32_to_i32(a, 1, e); }
uint_fast32_t f32_to_ui32_r_minMag(float32_t a, bool e) { return f32_to_ui32(a, 1, e); }
float32_t i32_to_f32(int32_t a) {
  uint32_t v = (uint32_t)sx_uf("i32_to_f32", fm_un((uint32_t)a), 32);
  return {fm_nan(v) ? 0 : v};
}
float32_t ui32_to_f32(uint32_t a) {
  uint32_t v = (uint32_t)sx_uf("ui32_to_f32", fm_un(a), 32);
  return {fm_nan(v) ? 0 : v};
}
}
