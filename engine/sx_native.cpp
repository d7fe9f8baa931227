// Native runtime: values come from a model file, failed assertions exit 42.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
static std::map<std::string, uint64_t> vals;
static std::map<std::pair<std::string, uint64_t>, uint64_t> ufs;
static const char *watch = nullptr;
static int failed = 0;
static void load() {
  static bool done = false;
  if (done)
    return;
  done = true;
  const char *p = getenv("SX_MODEL");
  watch = getenv("SX_WATCH");
  if (!p)
    return;
  FILE *f = fopen(p, "r");
  if (!f) {
    fprintf(stderr, "no model file\n");
    exit(44);
  }
  char line[4096];
  while (fgets(line, sizeof line, f)) {
    char kind, name[2048];
    unsigned long long a, b;
    if (line[0] == 'V' && sscanf(line, "%c %2047s %llx", &kind, name, &a) == 3)
      vals[name] = a;
    else if (line[0] == 'U' &&
             sscanf(line, "%c %2047s %llx %llx", &kind, name, &a, &b) == 4)
      ufs[{name, a}] = b;
  }
  fclose(f);
}
extern "C" {
uint64_t sx_var(const char *name, uint64_t idx, uint32_t width) {
  load();
  auto it = vals.find(std::string(name) + "#" + std::to_string(idx));
  uint64_t v = it == vals.end() ? 0 : it->second;
  return width >= 64 ? v : v & ((1ull << width) - 1);
}
void sx_assume(bool c) {
  load();
  if (!c) {
    fprintf(stderr, "SX assumption not satisfied\n");
    fflush(stdout);
    _Exit(failed ? 42 : 43);
  }
}
void sx_assert(bool c, const char *msg) {
  load();
  if (!c) {
    printf("SX-FAIL %s\n", msg);
    if (!watch || !strcmp(watch, msg)) {
      fflush(stdout);
      _Exit(42);
    }
  }
}
void sx_cover(bool c, const char *msg) {
  if (c)
    printf("SX-COVER %s\n", msg);
}
void sx_observe(const char *name, uint64_t idx, uint64_t val) {
  printf("SX-OBS %s#%llu %llx\n", name, (unsigned long long)idx,
         (unsigned long long)val);
}
void sx_bytes(void *p, uint64_t n, uint32_t elem, const char *name) {
  load();
  for (uint64_t o = 0; o < n; o += elem) {
    uint64_t v = 0;
    auto it = vals.find(std::string(name) + "@" + std::to_string(o / elem));
    if (it != vals.end())
      v = it->second;
    memcpy((char *)p + o, &v, elem);
  }
}
uint64_t sx_uf(const char *name, uint64_t key, uint32_t) {
  load();
  auto it = ufs.find({name, key});
  return it == ufs.end() ? 0 : it->second;
}
void sx_array(void *p, uint64_t count, uint32_t elem, const char *name) {
  load();
  for (auto &kv : ufs)
    if (kv.first.first == name && kv.first.second < count)
      memcpy((char *)p + kv.first.second * elem, &kv.second, elem);
}
bool sx_symbolic() { return false; }
}
#include <dlfcn.h>
int main(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  void (*fn)() = argc > 1 ? (void (*)())dlsym(RTLD_DEFAULT, argv[1]) : nullptr;
  if (!fn) {
    fprintf(stderr, "no entry\n");
    return 45;
  }
  fn();
  fflush(stdout);
  _Exit(0);
}
