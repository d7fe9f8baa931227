// Harness interface. The same harness source is executed symbolically (the
// functions below are interpreted by the engine) and natively for replay.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t sx_var(const char *name, uint64_t idx, uint32_t width);
void sx_assume(bool c);
void sx_assert(bool c, const char *msg);
void sx_cover(bool c, const char *msg);
void sx_observe(const char *name, uint64_t idx, uint64_t val);
void sx_bytes(void *p, uint64_t n, uint32_t elem, const char *name);
uint64_t sx_uf(const char *name, uint64_t key, uint32_t width);
void sx_array(void *p, uint64_t count, uint32_t elem, const char *name);
bool sx_symbolic();
}
