// Persistent byte-addressed memory with copy-on-write 64-byte leaves.
#pragma once
#include "expr.h"
#include <memory>

struct Cell {
  E e; // null: initial content of the enclosing object
  uint8_t k; // byte index inside e
};
struct MNode {
  int rc = 1;
  virtual ~MNode() {}
};
struct MLeaf : MNode {
  Cell c[64] = {};
};
struct MInner : MNode {
  MNode *ch[64] = {};
  ~MInner() override {
    for (auto *p : ch)
      if (p && --p->rc == 0)
        delete p;
  }
};
constexpr int MEM_LEVELS = 5; // 5*6 + 6 = 36-bit addresses

struct Mem {
  MNode *root = nullptr;
  Mem() {}
  Mem(const Mem &o) : root(o.root) {
    if (root)
      root->rc++;
  }
  Mem(Mem &&o) noexcept : root(o.root) { o.root = nullptr; }
  Mem &operator=(Mem o) noexcept {
    std::swap(root, o.root);
    return *this;
  }
  ~Mem() {
    if (root && --root->rc == 0)
      delete root;
  }
  const MLeaf *leaf(uint64_t addr) const {
    const MNode *n = root;
    for (int l = MEM_LEVELS - 1; l >= 0 && n; l--)
      n = static_cast<const MInner *>(n)->ch[(addr >> (6 + 6 * l)) & 63];
    return static_cast<const MLeaf *>(n);
  }
  Cell get(uint64_t addr) const {
    const MLeaf *l = leaf(addr);
    return l ? l->c[addr & 63] : Cell{nullptr, 0};
  }
  MLeaf *own(uint64_t addr) {
    MNode **pp = &root;
    for (int l = MEM_LEVELS - 1; l >= 0; l--) {
      if (!*pp)
        *pp = new MInner();
      else if ((*pp)->rc > 1) {
        MInner *o = static_cast<MInner *>(*pp), *n = new MInner();
        for (int i = 0; i < 64; i++) {
          n->ch[i] = o->ch[i];
          if (n->ch[i])
            n->ch[i]->rc++;
        }
        o->rc--;
        *pp = n;
      }
      pp = &static_cast<MInner *>(*pp)->ch[(addr >> (6 + 6 * l)) & 63];
    }
    if (!*pp)
      *pp = new MLeaf();
    else if ((*pp)->rc > 1) {
      MLeaf *o = static_cast<MLeaf *>(*pp), *n = new MLeaf();
      for (int i = 0; i < 64; i++)
        n->c[i] = o->c[i];
      o->rc--;
      *pp = n;
    }
    return static_cast<MLeaf *>(*pp);
  }
  void set(uint64_t addr, E e, uint8_t k) { own(addr)->c[addr & 63] = {e, k}; }
  // forget the content of whole leaves covering [a, a+n)
  void clear(uint64_t a, uint64_t n) {
    for (uint64_t p = a & ~63ull; p < a + n; p += 64) {
      if (!leaf(p))
        continue;
      MLeaf *l = own(p);
      for (int i = 0; i < 64; i++)
        if (p + i >= a && p + i < a + n)
          l->c[i] = {nullptr, 0};
    }
  }
};
