#include "expr.h"
#include <algorithm>
#include <cassert>
#include <cstring>

ExprCtx XC;

namespace {
struct Table {
  std::vector<E> slots;
  size_t n = 0;
  Table() : slots(1 << 16, nullptr) {}
  void grow() {
    std::vector<E> old;
    old.swap(slots);
    slots.assign(old.size() * 2, nullptr);
    for (E e : old)
      if (e) {
        size_t i = e->h & (slots.size() - 1);
        while (slots[i])
          i = (i + 1) & (slots.size() - 1);
        slots[i] = e;
      }
  }
};
Table T;
uint32_t nextId = 0;

struct Arena {
  char *cur = nullptr;
  size_t left = 0;
  Node *alloc() {
    if (left < sizeof(Node)) {
      left = 1 << 20;
      cur = (char *)malloc(left);
      if (!cur) {
        fprintf(stderr, "out of memory\n");
        exit(3);
      }
    }
    Node *n = (Node *)cur;
    cur += sizeof(Node);
    left -= sizeof(Node);
    return n;
  }
} arena;

inline uint64_t mix(uint64_t h, uint64_t x) {
  h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}

inline uint64_t satadd(uint64_t a, uint64_t b) {
  uint64_t r = a + b;
  return r < a ? ~0ull : r;
}

void analyse(Node &n) {
  n.constite = 0;
  n.nleaf = 1;
  if (n.w > 64) {
    n.k0 = n.k1 = 0;
    n.lo = 0;
    n.hi = ~0ull;
    if (n.op == O_ITE) {
      n.nleaf = 1;
    }
    return;
  }
  uint64_t M = maskw(n.w);
  n.k0 = n.k1 = 0;
  n.lo = 0;
  n.hi = M;
  E a = n.a, b = n.b, c = n.c;
  auto narrow = [](E x) { return x && x->w <= 64; };
  switch (n.op) {
  case O_CONST:
    n.k1 = n.v;
    n.k0 = ~n.v & M;
    n.lo = n.hi = n.v;
    n.constite = 1;
    return;
  case O_VAR:
    break;
  case O_NOT:
    n.k0 = a->k1;
    n.k1 = a->k0;
    n.lo = M - a->hi;
    n.hi = M - a->lo;
    break;
  case O_AND:
    n.k0 = a->k0 | b->k0;
    n.k1 = a->k1 & b->k1;
    n.hi = std::min(a->hi, b->hi);
    break;
  case O_OR:
    n.k0 = a->k0 & b->k0;
    n.k1 = a->k1 | b->k1;
    n.lo = std::max(a->lo, b->lo);
    break;
  case O_XOR:
    n.k0 = (a->k0 & b->k0) | (a->k1 & b->k1);
    n.k1 = (a->k0 & b->k1) | (a->k1 & b->k0);
    break;
  case O_ADD: {
    // trailing known bits
    uint64_t ka = a->k0 | a->k1, kb = b->k0 | b->k1;
    uint64_t k = ka & kb;
    unsigned t = 0;
    while (t < n.w && ((k >> t) & 1))
      t++;
    uint64_t s = (a->k1 + b->k1) & maskw(t) & M;
    if (t) {
      uint64_t tm = maskw(t) & M;
      n.k1 |= s & tm;
      n.k0 |= ~s & tm;
    }
    if (satadd(a->hi, b->hi) <= M && a->hi + b->hi >= a->hi) {
      n.lo = a->lo + b->lo;
      n.hi = a->hi + b->hi;
      // leading zeros
    }
    break;
  }
  case O_SUB:
    if (a->lo >= b->hi) {
      n.lo = a->lo - b->hi;
      n.hi = a->hi - b->lo;
    }
    break;
  case O_MUL: {
    unsigned tz = 0, tza = 0, tzb = 0;
    while (tza < n.w && ((a->k0 >> tza) & 1))
      tza++;
    while (tzb < n.w && ((b->k0 >> tzb) & 1))
      tzb++;
    tz = std::min<unsigned>(n.w, tza + tzb);
    if (tz)
      n.k0 |= maskw(tz) & M;
    unsigned __int128 p = (unsigned __int128)a->hi * b->hi;
    if (p <= M) {
      n.lo = a->lo * b->lo;
      n.hi = (uint64_t)p;
    }
    break;
  }
  case O_UDIV:
    if (b->lo > 0) {
      n.hi = a->hi / b->lo;
      n.lo = a->lo / b->hi;
    }
    break;
  case O_UREM:
    if (b->lo > 0) {
      n.hi = std::min(a->hi, b->hi - 1);
    } else
      n.hi = M;
    break;
  case O_LSHR:
    n.hi = a->hi;
    if (b->op == O_CONST && b->v < n.w)
      n.hi = a->hi >> b->v;
    else if (b->lo < n.w)
      n.hi = a->hi >> b->lo;
    break;
  case O_CONCAT:
    if (narrow(a) && narrow(b)) {
      n.k0 = (a->k0 << b->w) | b->k0;
      n.k1 = (a->k1 << b->w) | b->k1;
      n.lo = (a->lo << b->w) + b->lo;
      n.hi = (a->hi << b->w) + b->hi;
    }
    break;
  case O_EXTRACT:
    if (narrow(a)) {
      n.k0 = (a->k0 >> n.v) & M;
      n.k1 = (a->k1 >> n.v) & M;
      if (n.v + n.w == a->w) {
        n.lo = a->lo >> n.v;
        n.hi = a->hi >> n.v;
      } else if ((a->hi >> n.v) <= M) {
        n.lo = a->lo >> n.v;
        n.hi = a->hi >> n.v;
      }
    }
    break;
  case O_ZEXT:
    n.k0 = a->k0 | (M & ~maskw(a->w));
    n.k1 = a->k1;
    n.lo = a->lo;
    n.hi = a->hi;
    break;
  case O_SEXT: {
    uint64_t sb = 1ull << (a->w - 1);
    uint64_t ext = M & ~maskw(a->w);
    n.k0 = a->k0;
    n.k1 = a->k1;
    if (a->k0 & sb)
      n.k0 |= ext;
    if (a->k1 & sb)
      n.k1 |= ext;
    break;
  }
  case O_ITE:
    n.k0 = b->k0 & c->k0;
    n.k1 = b->k1 & c->k1;
    n.lo = std::min(b->lo, c->lo);
    n.hi = std::max(b->hi, c->hi);
    if (b->constite && c->constite) {
      n.nleaf = std::min<uint32_t>(b->nleaf + c->nleaf, 100000);
      n.constite = n.w > 1;
    }
    break;
  default:
    break;
  }
  // combine
  n.k0 &= M;
  n.k1 &= M;
  n.lo = std::max(n.lo, n.k1);
  n.hi = std::min(n.hi, M & ~n.k0);
  // leading zero bits from interval
  if (n.hi < M) {
    unsigned top = 64 - (n.hi ? __builtin_clzll(n.hi) : 64);
    n.k0 |= M & ~maskw(top ? top : 0);
    if (top == 0)
      n.k0 |= M;
  }
}

E intern(Op op, unsigned w, uint64_t v, E a, E b, E c) {
  uint64_t h = mix(op * 131 + w, v);
  h = mix(h, a ? a->id + 1 : 0);
  h = mix(h, b ? b->id + 1 : 0);
  h = mix(h, c ? c->id + 1 : 0);
  size_t i = h & (T.slots.size() - 1);
  while (E e = T.slots[i]) {
    if (e->h == h && e->op == op && e->w == w && e->v == v && e->a == a &&
        e->b == b && e->c == c)
      return e;
    i = (i + 1) & (T.slots.size() - 1);
  }
  Node *n = arena.alloc();
  n->op = op;
  n->w = w;
  n->v = v;
  n->a = a;
  n->b = b;
  n->c = c;
  n->h = h;
  n->id = nextId++;
  analyse(*n);
  if (w <= 64 && op != O_CONST && n->lo == n->hi && op != O_VAR) {
    // value fully determined
    return mkConst(w, n->lo);
  }
  if (w <= 64 && op != O_CONST && op != O_VAR &&
      ((n->k0 | n->k1) == maskw(w)))
    return mkConst(w, n->k1);
  T.slots[i] = n;
  if (++T.n * 2 > T.slots.size())
    T.grow();
  return n;
}

bool isCI(E e) { return e->constite && e->nleaf <= 512; }

E mapCI(E e, const std::function<E(E)> &f,
        std::unordered_map<E, E> &memo) {
  if (e->op == O_CONST)
    return f(e);
  auto it = memo.find(e);
  if (it != memo.end())
    return it->second;
  E r = mkIte(e->a, mapCI(e->b, f, memo), mapCI(e->c, f, memo));
  memo[e] = r;
  return r;
}
E mapCI(E e, const std::function<E(E)> &f) {
  std::unordered_map<E, E> memo;
  return mapCI(e, f, memo);
}
bool nonConstCI(E e) { return e->op == O_ITE && isCI(e); }

int64_t sx(uint64_t v, unsigned w) {
  if (w >= 64)
    return (int64_t)v;
  return (int64_t)(v << (64 - w)) >> (64 - w);
}

// pieces msb..lsb
void pieces(E e, std::vector<E> &out) {
  while (e->op == O_CONCAT) {
    if (e->a->op == O_CONCAT || e->a->op == O_ZEXT)
      pieces(e->a, out);
    else
      out.push_back(e->a);
    e = e->b;
  }
  if (e->op == O_ZEXT) {
    unsigned z = e->w - e->a->w;
    while (z > 64) {
      out.push_back(mkConst(64, 0));
      z -= 64;
    }
    out.push_back(mkConst(z, 0));
    pieces(e->a, out);
    return;
  }
  out.push_back(e);
}
bool concatLike(E e) { return e->op == O_CONCAT || e->op == O_ZEXT; }

E bitwise(Op op, E a, E b) {
  return op == O_AND ? mkAnd(a, b) : op == O_OR ? mkOr(a, b) : mkXor(a, b);
}

// split a bitwise op over aligned pieces; returns nullptr when not profitable
E splitBitwise(Op op, E a, E b) {
  if (!(concatLike(a) || concatLike(b)))
    return nullptr;
  if (!(concatLike(a) || isConst(a)) && !(concatLike(b) || isConst(b)))
    return nullptr;
  std::vector<E> pa, pb;
  pieces(a, pa);
  pieces(b, pb);
  if (pa.size() + pb.size() > 48)
    return nullptr;
  // boundaries
  std::vector<unsigned> cut;
  unsigned pos = a->w;
  for (E p : pa) {
    pos -= p->w;
    cut.push_back(pos);
  }
  pos = b->w;
  for (E p : pb) {
    pos -= p->w;
    cut.push_back(pos);
  }
  std::sort(cut.begin(), cut.end(), std::greater<unsigned>());
  cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
  // profitability: some segment has a constant on one side
  bool prof = false;
  unsigned hi = a->w;
  std::vector<std::pair<E, E>> seg;
  for (unsigned c : cut) {
    E x = mkExtract(a, c, hi - c), y = mkExtract(b, c, hi - c);
    if (isConst(x) || isConst(y) || x == y)
      prof = true;
    seg.push_back({x, y});
    hi = c;
  }
  if (!prof || seg.size() < 2)
    return nullptr;
  E r = nullptr;
  for (size_t i = seg.size(); i-- > 0;) {
    E t = bitwise(op, seg[i].first, seg[i].second);
    r = r ? mkConcat(t, r) : t;
  }
  return r;
}
} // namespace

uint64_t exprCount() { return nextId; }

E mkConst(unsigned w, uint64_t v) {
  if (w > 64)
    return mkZExt(mkConst(64, v), w);
  return intern(O_CONST, w, v & maskw(w), nullptr, nullptr, nullptr);
}
E mkTrue() {
  static E t = mkConst(1, 1);
  return t;
}
E mkFalse() {
  static E t = mkConst(1, 0);
  return t;
}
E mkVar(const std::string &name, unsigned w) {
  auto it = XC.varByName.find(name);
  if (it != XC.varByName.end()) {
    if (it->second->w != w) {
      fprintf(stderr, "variable %s redeclared with width %u\n", name.c_str(),
              w);
      exit(3);
    }
    return it->second;
  }
  uint32_t idx = XC.vars.size();
  XC.vars.push_back({name, w});
  E e = intern(O_VAR, w, idx, nullptr, nullptr, nullptr);
  XC.varnode.push_back(e);
  XC.varByName[name] = e;
  return e;
}

uint64_t evalOp(Op op, unsigned w, uint64_t v, unsigned wa, uint64_t a,
                unsigned wb, uint64_t b, uint64_t c) {
  uint64_t M = maskw(w);
  switch (op) {
  case O_NOT:
    return ~a & M;
  case O_AND:
    return a & b;
  case O_OR:
    return a | b;
  case O_XOR:
    return a ^ b;
  case O_ADD:
    return (a + b) & M;
  case O_SUB:
    return (a - b) & M;
  case O_MUL:
    return (a * b) & M;
  case O_UDIV:
    return b == 0 ? M : a / b;
  case O_UREM:
    return b == 0 ? a : a % b;
  case O_SDIV: {
    int64_t x = sx(a, w), y = sx(b, w);
    if (y == 0)
      return x < 0 ? 1 : M;
    if (y == -1)
      return (uint64_t)(-(uint64_t)x) & M;
    return (uint64_t)(x / y) & M;
  }
  case O_SREM: {
    int64_t x = sx(a, w), y = sx(b, w);
    if (y == 0)
      return a;
    if (y == -1)
      return 0;
    return (uint64_t)(x % y) & M;
  }
  case O_SHL:
    return b >= w ? 0 : (a << b) & M;
  case O_LSHR:
    return b >= w ? 0 : a >> b;
  case O_ASHR: {
    int64_t x = sx(a, w);
    uint64_t s = b >= w ? w - 1 : b;
    if (s > 63)
      s = 63;
    return (uint64_t)(x >> s) & M;
  }
  case O_CONCAT:
    return ((a << wb) | b) & M;
  case O_EXTRACT:
    return (a >> v) & M;
  case O_ZEXT:
    return a;
  case O_SEXT:
    return (uint64_t)sx(a, wa) & M;
  case O_ITE:
    return a ? b : c;
  case O_EQ:
    return a == b;
  case O_ULT:
    return a < b;
  case O_SLT:
    return sx(a, wa) < sx(b, wb);
  default:
    abort();
  }
}

static E foldBin(Op op, E a, E b) {
  unsigned w = (op == O_EQ || op == O_ULT || op == O_SLT) ? 1 : a->w;
  return mkConst(w, evalOp(op, w, 0, a->w, a->v, b->w, b->v, 0));
}

E mkNot(E a) {
  if (isConst(a))
    return mkConst(a->w, ~a->v);
  if (a->op == O_NOT)
    return a->a;
  if (a->w > 1) {
    if (nonConstCI(a))
      return mapCI(a, [](E x) { return mkNot(x); });
    if (a->op == O_CONCAT)
      return mkConcat(mkNot(a->a), mkNot(a->b));
    if (a->op == O_ZEXT && a->w <= 64)
      return mkConcat(mkConst(a->w - a->a->w, ~0ull), mkNot(a->a));
  }
  return intern(O_NOT, a->w, 0, a, nullptr, nullptr);
}

static bool childIs(E n, Op op, E x) {
  return n->op == op && (n->a == x || n->b == x);
}

E mkAnd(E a, E b) {
  assert(a->w == b->w);
  if (a == b)
    return a;
  if (isConst(a))
    std::swap(a, b);
  unsigned w = a->w;
  if (w <= 64) {
    if (isConst(a) && isConst(b))
      return mkConst(w, a->v & b->v);
    uint64_t M = maskw(w);
    if (isConst(b)) {
      if (b->v == 0)
        return b;
      if (b->v == M || ((b->v | a->k0) & M) == M)
        return a;
      if ((b->v & ~a->k0 & M) == 0)
        return mkConst(w, 0);
    }
    if (((a->k0 | b->k0) & M) == M)
      return mkConst(w, 0);
  }
  if ((a->op == O_NOT && a->a == b) || (b->op == O_NOT && b->a == a))
    return mkConst(w, 0);
  if (isConst(b) && w <= 64) {
    if (nonConstCI(a))
      return mapCI(a, [&](E x) { return mkAnd(x, b); });
    // contiguous runs -> concat of extracts
    uint64_t m = b->v & ~a->k0;
    uint64_t x = m ^ (m << 1);
    int runs = __builtin_popcountll(x & maskw(w));
    if (runs <= 6) {
      E r = nullptr;
      unsigned p = 0;
      while (p < w) {
        unsigned bit = (m >> p) & 1;
        unsigned q = p;
        while (q < w && ((m >> q) & 1) == bit)
          q++;
        E t = bit ? mkExtract(a, p, q - p) : mkConst(q - p, 0);
        r = r ? mkConcat(t, r) : t;
        p = q;
      }
      return r;
    }
  }
  if (w > 1) {
    if (E s = splitBitwise(O_AND, a, b))
      return s;
  }
  // absorption
  if (childIs(b, O_AND, a))
    return b;
  if (childIs(a, O_AND, b))
    return a;
  if (childIs(b, O_OR, a))
    return a;
  if (childIs(a, O_OR, b))
    return b;
  if (w == 1) {
    auto step = [](E x, E y) -> E { // simplify x&y, y compound
      E nx = mkNot(x);
      if (y->op == O_OR) {
        if (y->a == nx)
          return mkAnd(x, y->b);
        if (y->b == nx)
          return mkAnd(x, y->a);
      }
      if (y->op == O_AND && (y->a == nx || y->b == nx))
        return mkFalse();
      if (y->op == O_NOT && y->a->op == O_AND) {
        if (y->a->a == x)
          return mkAnd(x, mkNot(y->a->b));
        if (y->a->b == x)
          return mkAnd(x, mkNot(y->a->a));
        if (y->a->a == nx || y->a->b == nx)
          return x;
      }
      if (y->op == O_NOT && y->a->op == O_OR) {
        if (y->a->a == x || y->a->b == x)
          return mkFalse();
        if (y->a->a == nx || y->a->b == nx)
          return y;
      }
      if (y->op == O_ITE) {
        if (y->a == x)
          return mkAnd(x, y->b);
        if (y->a == nx)
          return mkAnd(x, y->c);
      }
      return nullptr;
    };
    if (E r = step(a, b))
      return r;
    if (E r = step(b, a))
      return r;
    if (a->op == O_EQ && b->op == O_EQ && isConst(a->b) && isConst(b->b) &&
        a->a == b->a && a->b != b->b)
      return mkFalse();
    auto eqneq = [](E x, E y) -> E { // x = (v==k1), y = !(v==k2)
      if (x->op == O_EQ && isConst(x->b) && y->op == O_NOT &&
          y->a->op == O_EQ && isConst(y->a->b) && x->a == y->a->a &&
          x->b != y->a->b)
        return x;
      return nullptr;
    };
    if (E r = eqneq(a, b))
      return r;
    if (E r = eqneq(b, a))
      return r;
  }
  if (a->id > b->id)
    std::swap(a, b);
  return intern(O_AND, w, 0, a, b, nullptr);
}

E mkOr(E a, E b) {
  assert(a->w == b->w);
  if (a == b)
    return a;
  if (isConst(a))
    std::swap(a, b);
  unsigned w = a->w;
  if (w <= 64) {
    if (isConst(a) && isConst(b))
      return mkConst(w, a->v | b->v);
    uint64_t M = maskw(w);
    if (isConst(b)) {
      if (b->v == 0 || (b->v & ~a->k1 & M) == 0)
        return a;
      if (((b->v | a->k1) & M) == M)
        return mkConst(w, M);
    }
  }
  if ((a->op == O_NOT && a->a == b) || (b->op == O_NOT && b->a == a)) {
    if (w <= 64)
      return mkConst(w, ~0ull);
    return mkNot(mkConst(w, 0));
  }
  if (isConst(b) && nonConstCI(a))
    return mapCI(a, [&](E x) { return mkOr(x, b); });
  if (isConst(b) && w <= 64 && w > 1) {
    uint64_t m = b->v & ~a->k1;
    uint64_t x = m ^ (m << 1);
    int runs = __builtin_popcountll(x & maskw(w));
    if (runs <= 6) {
      E r = nullptr;
      unsigned p = 0;
      while (p < w) {
        unsigned bit = (m >> p) & 1;
        unsigned q = p;
        while (q < w && ((m >> q) & 1) == bit)
          q++;
        E t = bit ? mkConst(q - p, ~0ull) : mkExtract(a, p, q - p);
        r = r ? mkConcat(t, r) : t;
        p = q;
      }
      return r;
    }
  }
  if (w > 1) {
    if (E s = splitBitwise(O_OR, a, b))
      return s;
  }
  if (childIs(b, O_OR, a))
    return b;
  if (childIs(a, O_OR, b))
    return a;
  if (childIs(b, O_AND, a))
    return a;
  if (childIs(a, O_AND, b))
    return b;
  if (w == 1) {
    auto step = [](E x, E y) -> E { // simplify x|y
      E nx = mkNot(x);
      if (y->op == O_AND) {
        if (y->a == nx)
          return mkOr(x, y->b);
        if (y->b == nx)
          return mkOr(x, y->a);
      }
      if (y->op == O_OR && (y->a == nx || y->b == nx))
        return mkTrue();
      if (y->op == O_NOT && y->a->op == O_AND) {
        if (y->a->a == x || y->a->b == x)
          return mkTrue();
        if (y->a->a == nx || y->a->b == nx)
          return y;
      }
      if (y->op == O_NOT && y->a->op == O_OR) {
        if (y->a->a == x)
          return mkOr(x, mkNot(y->a->b));
        if (y->a->b == x)
          return mkOr(x, mkNot(y->a->a));
        if (y->a->a == nx || y->a->b == nx)
          return x;
      }
      if (y->op == O_ITE) {
        if (y->a == x)
          return mkOr(x, y->c);
        if (y->a == nx)
          return mkOr(x, y->b);
      }
      return nullptr;
    };
    if (E r = step(a, b))
      return r;
    if (E r = step(b, a))
      return r;
    if (a->op == O_AND && b->op == O_AND) {
      E xs[2] = {a->a, a->b}, ys[2] = {b->a, b->b};
      for (int i = 0; i < 2; i++)
        for (int j = 0; j < 2; j++) {
          if (xs[i] == mkNot(ys[j])) {
            if (xs[1 - i] == ys[1 - j])
              return xs[1 - i];
          }
          if (xs[i] == ys[j]) {
            E o = mkOr(xs[1 - i], ys[1 - j]);
            return mkAnd(xs[i], o);
          }
        }
    }
    auto eqneq = [](E x, E y) -> E { // (v==k1) | !(v==k2) = !(v==k2), k1!=k2
      if (x->op == O_EQ && isConst(x->b) && y->op == O_NOT &&
          y->a->op == O_EQ && isConst(y->a->b) && x->a == y->a->a &&
          x->b != y->a->b)
        return y;
      return nullptr;
    };
    if (E r = eqneq(a, b))
      return r;
    if (E r = eqneq(b, a))
      return r;
  }
  if (a->id > b->id)
    std::swap(a, b);
  return intern(O_OR, w, 0, a, b, nullptr);
}

E mkXor(E a, E b) {
  assert(a->w == b->w);
  unsigned w = a->w;
  if (a == b)
    return mkConst(w, 0);
  if (isConst(a))
    std::swap(a, b);
  if (isConst(a) && isConst(b))
    return mkConst(w, a->v ^ b->v);
  if (isConst(b)) {
    if (b->v == 0)
      return a;
    if (b->v == maskw(w))
      return mkNot(a);
    if (nonConstCI(a))
      return mapCI(a, [&](E x) { return mkXor(x, b); });
    if (a->op == O_XOR && isConst(a->b))
      return mkXor(a->a, mkConst(w, a->b->v ^ b->v));
  }
  if (a->op == O_NOT && b->op == O_NOT)
    return mkXor(a->a, b->a);
  if (w == 1 || !(isConst(b))) {
    if (a->op == O_NOT)
      return mkNot(mkXor(a->a, b));
    if (b->op == O_NOT)
      return mkNot(mkXor(a, b->a));
  }
  if (w > 1) {
    if (E s = splitBitwise(O_XOR, a, b))
      return s;
  }
  if (a->op == O_XOR && (a->a == b))
    return a->b;
  if (a->op == O_XOR && (a->b == b))
    return a->a;
  if (b->op == O_XOR && (b->a == a))
    return b->b;
  if (b->op == O_XOR && (b->b == a))
    return b->a;
  if (!isConst(b) && a->id > b->id)
    std::swap(a, b);
  return intern(O_XOR, w, 0, a, b, nullptr);
}

E mkAdd(E a, E b) {
  assert(a->w == b->w);
  unsigned w = a->w;
  if (isConst(a))
    std::swap(a, b);
  if (w <= 64) {
    if (isConst(a) && isConst(b))
      return foldBin(O_ADD, a, b);
    if (isConst(b)) {
      if (b->v == 0)
        return a;
      if (a->op == O_ADD && isConst(a->b))
        return mkAdd(a->a, mkConst(w, a->b->v + b->v));
      if (nonConstCI(a))
        return mapCI(a, [&](E x) { return mkAdd(x, b); });
      if (a->op == O_SUB && isConst(a->a))
        return mkSub(mkConst(w, a->a->v + b->v), a->b);
    } else {
      if (a->op == O_ADD && isConst(a->b))
        return mkAdd(mkAdd(a->a, b), a->b);
      if (b->op == O_ADD && isConst(b->b))
        return mkAdd(mkAdd(a, b->a), b->b);
    }
    if (w == 1)
      return mkXor(a, b);
    if (((a->k0 | b->k0) & maskw(w)) == maskw(w))
      return mkOr(a, b);
  }
  if (a->op == O_SUB && a->b == b)
    return a->a;
  if (b->op == O_SUB && b->b == a)
    return b->a;
  if (a->op == O_SUB && isConst(a->a) && a->a->v == 0)
    return mkSub(b, a->b);
  if (b->op == O_SUB && isConst(b->a) && b->a->v == 0)
    return mkSub(a, b->b);
  if (!isConst(b) && a->id > b->id)
    std::swap(a, b);
  return intern(O_ADD, w, 0, a, b, nullptr);
}

E mkSub(E a, E b) {
  assert(a->w == b->w);
  unsigned w = a->w;
  if (a == b)
    return mkConst(w, 0);
  if (w <= 64) {
    if (isConst(a) && isConst(b))
      return foldBin(O_SUB, a, b);
    if (isConst(b))
      return mkAdd(a, mkConst(w, -b->v));
    if (w == 1)
      return mkXor(a, b);
    if (isConst(a) && nonConstCI(b))
      return mapCI(b, [&](E x) { return mkSub(a, x); });
    if (a->op == O_ADD && isConst(a->b) && b->op == O_ADD && isConst(b->b))
      return mkAdd(mkSub(a->a, b->a), mkConst(w, a->b->v - b->b->v));
    if (a->op == O_ADD && isConst(a->b))
      return mkAdd(mkSub(a->a, b), a->b);
    if (b->op == O_ADD && isConst(b->b))
      return mkAdd(mkSub(a, b->a), mkConst(w, -b->b->v));
  }
  if (a->op == O_ADD) {
    if (a->a == b)
      return a->b;
    if (a->b == b)
      return a->a;
  }
  if (b->op == O_SUB && isConst(b->a) && b->a->v == 0)
    return mkAdd(a, b->b);
  if (a->op == O_SUB && a->a == b) // (b - y) - b = -y
    return mkSub(mkConst(w, 0), a->b);
  return intern(O_SUB, w, 0, a, b, nullptr);
}
E mkNeg(E a) { return mkSub(mkConst(a->w, 0), a); }

E mkMul(E a, E b) {
  assert(a->w == b->w);
  unsigned w = a->w;
  if (isConst(a))
    std::swap(a, b);
  if (w <= 64) {
    if (isConst(a) && isConst(b))
      return foldBin(O_MUL, a, b);
    if (isConst(b)) {
      if (b->v == 0)
        return b;
      if (b->v == 1)
        return a;
      if ((b->v & (b->v - 1)) == 0)
        return mkShl(a, mkConst(w, __builtin_ctzll(b->v)));
      if (nonConstCI(a))
        return mapCI(a, [&](E x) { return mkMul(x, b); });
      if (a->op == O_MUL && isConst(a->b))
        return mkMul(a->a, mkConst(w, a->b->v * b->v));
      if (b->v == maskw(w))
        return mkNeg(a);
    }
    if (w == 1)
      return mkAnd(a, b);
    if (a->hi <= 1) { // boolean times x
      E c = mkExtract(a, 0, 1);
      return mkIte(c, b, mkConst(w, 0));
    }
    if (b->hi <= 1) {
      E c = mkExtract(b, 0, 1);
      return mkIte(c, a, mkConst(w, 0));
    }
  }
  if (!isConst(b) && a->id > b->id)
    std::swap(a, b);
  return intern(O_MUL, w, 0, a, b, nullptr);
}

E mkUDiv(E a, E b) {
  unsigned w = a->w;
  if (w <= 64) {
    if (isConst(a) && isConst(b))
      return foldBin(O_UDIV, a, b);
    if (isConst(b)) {
      if (b->v == 1)
        return a;
      if (b->v && (b->v & (b->v - 1)) == 0)
        return mkLShr(a, mkConst(w, __builtin_ctzll(b->v)));
      if (b->v && a->hi < b->v)
        return mkConst(w, 0);
      if (nonConstCI(a))
        return mapCI(a, [&](E x) { return mkUDiv(x, b); });
    }
    if (isConst(a) && nonConstCI(b))
      return mapCI(b, [&](E x) { return mkUDiv(a, x); });
    // narrow division
    unsigned n = 64 - __builtin_clzll((a->hi | b->hi) | 1);
    if (n < w && b->lo > 0 && w > 8) {
      unsigned nn = (n + 7) / 8 * 8;
      if (nn < w)
        return mkZExt(mkUDiv(mkExtract(a, 0, nn), mkExtract(b, 0, nn)), w);
    }
  }
  return intern(O_UDIV, w, 0, a, b, nullptr);
}
E mkURem(E a, E b) {
  unsigned w = a->w;
  if (w <= 64) {
    if (isConst(a) && isConst(b))
      return foldBin(O_UREM, a, b);
    if (isConst(b) && b->v) {
      if (b->v == 1)
        return mkConst(w, 0);
      if ((b->v & (b->v - 1)) == 0)
        return mkAnd(a, mkConst(w, b->v - 1));
      if (a->hi < b->v)
        return a;
      if (a->hi < 2 * b->v && b->v < (1ull << 62))
        return mkIte(mkUlt(a, b), a, mkSub(a, b));
      if (nonConstCI(a))
        return mapCI(a, [&](E x) { return mkURem(x, b); });
    }
    unsigned n = 64 - __builtin_clzll((a->hi | b->hi) | 1);
    if (n < w && b->lo > 0 && w > 8) {
      unsigned nn = (n + 7) / 8 * 8;
      if (nn < w)
        return mkZExt(mkURem(mkExtract(a, 0, nn), mkExtract(b, 0, nn)), w);
    }
  }
  return intern(O_UREM, w, 0, a, b, nullptr);
}
static bool nonneg(E a) { return a->w <= 64 && ((a->k0 >> (a->w - 1)) & 1); }
E mkSDiv(E a, E b) {
  unsigned w = a->w;
  if (w <= 64) {
    if (isConst(a) && isConst(b))
      return foldBin(O_SDIV, a, b);
    if (isConst(b) && b->v == 1)
      return a;
    if (nonneg(a) && nonneg(b) && b->lo > 0)
      return mkUDiv(a, b);
    if (isConst(b) && nonConstCI(a))
      return mapCI(a, [&](E x) { return mkSDiv(x, b); });
  }
  return intern(O_SDIV, w, 0, a, b, nullptr);
}
E mkSRem(E a, E b) {
  unsigned w = a->w;
  if (w <= 64) {
    if (isConst(a) && isConst(b))
      return foldBin(O_SREM, a, b);
    if (nonneg(a) && nonneg(b) && b->lo > 0)
      return mkURem(a, b);
    if (isConst(b) && nonConstCI(a))
      return mapCI(a, [&](E x) { return mkSRem(x, b); });
  }
  return intern(O_SREM, w, 0, a, b, nullptr);
}

static E stripZ(E b) {
  while (b->w > 64 && b->op == O_ZEXT)
    b = b->a;
  return b;
}
E mkShl(E a, E b) {
  unsigned w = a->w;
  b = stripZ(b);
  if (isConst(b)) {
    if (b->v >= w)
      return mkConst(w, 0);
    if (b->v == 0)
      return a;
    return mkConcat(mkExtract(a, 0, w - b->v), mkConst(b->v, 0));
  }
  if (w <= 64 && isConst(a) && a->v == 0)
    return a;
  if (b->w <= 64 && b->lo >= w)
    return mkConst(w, 0);
  if (nonConstCI(b) && b->nleaf <= 16)
    return mapCI(b, [&](E x) { return mkShl(a, x); });
  if (b->w < w)
    b = mkZExt(b, w);
  return intern(O_SHL, w, 0, a, b, nullptr);
}
E mkLShr(E a, E b) {
  unsigned w = a->w;
  b = stripZ(b);
  if (isConst(b)) {
    if (b->v >= w)
      return mkConst(w, 0);
    if (b->v == 0)
      return a;
    return mkZExt(mkExtract(a, b->v, w - b->v), w);
  }
  if (w <= 64 && isConst(a) && a->v == 0)
    return a;
  if (b->w <= 64 && b->lo >= w)
    return mkConst(w, 0);
  if (nonConstCI(b) && b->nleaf <= 16)
    return mapCI(b, [&](E x) { return mkLShr(a, x); });
  if (b->w < w)
    b = mkZExt(b, w);
  return intern(O_LSHR, w, 0, a, b, nullptr);
}
E mkAShr(E a, E b) {
  unsigned w = a->w;
  b = stripZ(b);
  if (isConst(b)) {
    unsigned s = b->v >= w ? w - 1 : b->v;
    if (s == 0)
      return a;
    return mkSExt(mkExtract(a, s, w - s), w);
  }
  if (nonneg(a))
    return mkLShr(a, b);
  if (nonConstCI(b) && b->nleaf <= 16)
    return mapCI(b, [&](E x) { return mkAShr(a, x); });
  if (b->w < w)
    b = mkZExt(b, w);
  return intern(O_ASHR, w, 0, a, b, nullptr);
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isConst(hi) && isConst(lo) && w <= 64)
    return mkConst(w, (hi->v << lo->w) | lo->v);
  if (hi->op == O_CONCAT)
    return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (isConst(hi) && hi->v == 0)
    return mkZExt(lo, w);
  if (hi->op == O_ZEXT)
    return mkZExt(mkConcat(hi->a, lo), w);
  if (isConst(hi) && lo->op == O_ZEXT) {
    unsigned z = lo->w - lo->a->w;
    if (hi->w + z <= 64)
      return mkConcat(mkConst(hi->w + z, hi->v << z), lo->a);
  }
  auto tryMerge = [](E x, E y) -> E {
    if (isConst(x) && isConst(y) && x->w + y->w <= 64)
      return mkConst(x->w + y->w, (x->v << y->w) | y->v);
    if (x->op == O_EXTRACT && y->op == O_EXTRACT && x->a == y->a &&
        x->v == y->v + y->w)
      return mkExtract(x->a, y->v, x->w + y->w);
    if (x->op == O_ITE && y->op == O_ITE && x->a == y->a)
      return mkIte(x->a, mkConcat(x->b, y->b), mkConcat(x->c, y->c));
    if (x->op == O_NOT && y->op == O_NOT && x->a->op == O_EXTRACT &&
        y->a->op == O_EXTRACT && x->a->a == y->a->a &&
        x->a->v == y->a->v + y->w)
      return mkNot(mkExtract(x->a->a, y->a->v, x->w + y->w));
    return nullptr;
  };
  if (E m = tryMerge(hi, lo))
    return m;
  if (lo->op == O_CONCAT) {
    if (E m = tryMerge(hi, lo->a))
      return mkConcat(m, lo->b);
  }
  return intern(O_CONCAT, w, 0, hi, lo, nullptr);
}

struct EKey {
  E a;
  uint32_t lo, w;
  bool operator==(const EKey &o) const {
    return a == o.a && lo == o.lo && w == o.w;
  }
};
struct EKeyH {
  size_t operator()(const EKey &k) const {
    return mix(mix(k.a->id, k.lo), k.w);
  }
};
static std::unordered_map<EKey, E, EKeyH> extractMemo;

E mkExtract(E a, unsigned lo, unsigned w) {
  if (w == 0 || lo + w > a->w) {
    fprintf(stderr, "bad extract lo=%u w=%u of width %u\n", lo, w, a->w);
    abort();
  }
  if (lo == 0 && w == a->w)
    return a;
  if (isConst(a))
    return mkConst(w, a->v >> lo);
  switch (a->op) {
  case O_EXTRACT:
    return mkExtract(a->a, a->v + lo, w);
  case O_CONCAT: {
    unsigned wl = a->b->w;
    if (lo >= wl)
      return mkExtract(a->a, lo - wl, w);
    if (lo + w <= wl)
      return mkExtract(a->b, lo, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - wl),
                    mkExtract(a->b, lo, wl - lo));
  }
  case O_ZEXT: {
    unsigned wi = a->a->w;
    if (lo >= wi)
      return mkConst(w, 0);
    if (lo + w <= wi)
      return mkExtract(a->a, lo, w);
    return mkZExt(mkExtract(a->a, lo, wi - lo), w);
  }
  case O_SEXT: {
    unsigned wi = a->a->w;
    if (lo + w <= wi)
      return mkExtract(a->a, lo, w);
    if (lo < wi)
      return mkSExt(mkExtract(a->a, lo, wi - lo), w);
    return mkSExt(mkExtract(a->a, wi - 1, 1), w);
  }
  case O_AND:
  case O_OR:
  case O_XOR:
  case O_NOT:
  case O_ITE: {
    EKey k{a, lo, w};
    auto it = extractMemo.find(k);
    if (it != extractMemo.end())
      return it->second;
    E r;
    if (a->op == O_NOT)
      r = mkNot(mkExtract(a->a, lo, w));
    else if (a->op == O_ITE)
      r = mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    else
      r = bitwise((Op)a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    extractMemo[k] = r;
    return r;
  }
  case O_ADD:
  case O_SUB:
  case O_MUL:
    if (lo == 0) {
      EKey k{a, lo, w};
      auto it = extractMemo.find(k);
      if (it != extractMemo.end())
        return it->second;
      E x = mkExtract(a->a, 0, w), y = mkExtract(a->b, 0, w);
      E r = a->op == O_ADD ? mkAdd(x, y)
                           : a->op == O_SUB ? mkSub(x, y) : mkMul(x, y);
      extractMemo[k] = r;
      return r;
    }
    break;
  case O_SHL:
    if (lo == 0 && a->w <= 64 && a->b->hi < w && w < a->w) {
      return mkShl(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    }
    break;
  default:
    break;
  }
  if (a->w <= 64) {
    uint64_t M = maskw(w);
    uint64_t k0 = (a->k0 >> lo) & M, k1 = (a->k1 >> lo) & M;
    if ((k0 | k1) == M)
      return mkConst(w, k1);
  }
  return intern(O_EXTRACT, w, lo, a, nullptr, nullptr);
}

E mkZExt(E a, unsigned w) {
  if (a->w == w)
    return a;
  assert(w > a->w);
  if (isConst(a) && w <= 64)
    return mkConst(w, a->v);
  if (a->op == O_ZEXT)
    return mkZExt(a->a, w);
  if (nonConstCI(a) && w <= 64)
    return mapCI(a, [&](E x) { return mkZExt(x, w); });
  // strip known-zero top bits so that equal values share one form
  if (a->w <= 64 && a->hi < maskw(a->w) && a->op != O_CONST) {
    unsigned n = 64 - __builtin_clzll(a->hi | 1);
    if (n < a->w) {
      E x = mkExtract(a, 0, n);
      if (x->w < a->w && x->op != O_EXTRACT)
        return mkZExt(x, w);
    }
  }
  return intern(O_ZEXT, w, 0, a, nullptr, nullptr);
}
E mkSExt(E a, unsigned w) {
  if (a->w == w)
    return a;
  assert(w > a->w);
  if (isConst(a) && w <= 64)
    return mkConst(w, (uint64_t)sx(a->v, a->w));
  if (nonneg(a))
    return mkZExt(a, w);
  if (a->op == O_SEXT)
    return mkSExt(a->a, w);
  if (nonConstCI(a) && w <= 64)
    return mapCI(a, [&](E x) { return mkSExt(x, w); });
  if (a->w == 1 && w <= 64)
    return mkIte(a, mkConst(w, ~0ull), mkConst(w, 0));
  return intern(O_SEXT, w, 0, a, nullptr, nullptr);
}

E mkIte(E c, E a, E b) {
  assert(a->w == b->w && c->w == 1);
  if (a == b)
    return a;
  if (isConst(c))
    return c->v ? a : b;
  if (c->op == O_NOT)
    return mkIte(c->a, b, a);
  if (a->op == O_ITE && a->a == c)
    return mkIte(c, a->b, b);
  if (b->op == O_ITE && b->a == c)
    return mkIte(c, a, b->c);
  if (a->w == 1) {
    if (isConst(a))
      return a->v ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isConst(b))
      return b->v ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (a == c)
      return mkOr(c, b);
    if (b == c)
      return mkAnd(c, a);
    if (a->op == O_NOT && a->a == c)
      return mkAnd(mkNot(c), b);
    if (b->op == O_NOT && b->a == c)
      return mkOr(mkNot(c), a);
    if (a->op == O_NOT && a->a == b)
      return mkXor(c, b);
    if (b->op == O_NOT && b->a == a)
      return mkNot(mkXor(c, a));
  }
  if (a->op == O_ITE) {
    if (a->c == b)
      return mkIte(mkAnd(c, a->a), a->b, b);
    if (a->b == b)
      return mkIte(mkAnd(c, mkNot(a->a)), a->c, b);
  }
  if (b->op == O_ITE) {
    if (b->b == a)
      return mkIte(mkOr(c, b->a), a, b->c);
    if (b->c == a)
      return mkIte(mkOr(c, mkNot(b->a)), a, b->b);
  }
  if (a->op == O_ITE && b->op == O_ITE && a->a == b->a) {
    if (a->b == b->b)
      return mkIte(a->a, a->b, mkIte(c, a->c, b->c));
    if (a->c == b->c)
      return mkIte(a->a, mkIte(c, a->b, b->b), a->c);
  }
  // both arms may keep a common value: one guarded update of it
  if (a->w > 1 && a->op == O_ITE && b->op == O_ITE) {
    E z = a->c == b->c || a->c == b->b   ? a->c
          : a->b == b->c || a->b == b->b ? a->b
                                         : nullptr;
    if (z) {
      E p = a->c == z ? a->a : mkNot(a->a), x = a->c == z ? a->b : a->c;
      E q = b->c == z ? b->a : mkNot(b->a), y = b->c == z ? b->b : b->c;
      return mkIte(mkIte(c, p, q), mkIte(c, x, y), z);
    }
  }
  // ite(x==k, k, x) -> x
  if (c->op == O_EQ) {
    if ((c->a == a && c->b == b) || (c->a == b && c->b == a))
      return b;
  }
  if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w && a->w > 1)
    return mkZExt(mkIte(c, a->a, b->a), a->w);
  if (a->op == O_ZEXT && isConst(b) && b->v <= maskw(a->a->w))
    return mkZExt(mkIte(c, a->a, mkConst(a->a->w, b->v)), a->w);
  if (b->op == O_ZEXT && isConst(a) && a->v <= maskw(b->a->w))
    return mkZExt(mkIte(c, mkConst(b->a->w, a->v), b->a), a->w);
  return intern(O_ITE, a->w, 0, c, a, b);
}

E mkEq(E a, E b) {
  assert(a->w == b->w);
  if (a == b)
    return mkTrue();
  if (isConst(a))
    std::swap(a, b);
  unsigned w = a->w;
  if (w <= 64) {
    if (isConst(a) && isConst(b))
      return mkConst(1, a->v == b->v);
    if (a->hi < b->lo || b->hi < a->lo)
      return mkFalse();
    if ((a->k0 & b->k1) | (a->k1 & b->k0))
      return mkFalse();
  }
  if (w == 1) {
    if (isConst(b))
      return b->v ? a : mkNot(a);
    return mkNot(mkXor(a, b));
  }
  if (a->op == O_NOT && b->op == O_NOT)
    return mkEq(a->a, b->a);
  if (isConst(b)) {
    switch (a->op) {
    case O_NOT:
      return mkEq(a->a, mkNot(b));
    case O_ZEXT:
      return mkEq(a->a, mkConst(a->a->w, b->v)); // range checked by k0 above
    case O_SEXT: {
      uint64_t t = b->v & maskw(a->a->w);
      if (((uint64_t)sx(t, a->a->w) & maskw(w)) != b->v)
        return mkFalse();
      return mkEq(a->a, mkConst(a->a->w, t));
    }
    case O_CONCAT:
      if (w <= 64)
        return mkAnd(mkEq(a->a, mkConst(a->a->w, b->v >> a->b->w)),
                     mkEq(a->b, mkConst(a->b->w, b->v)));
      break;
    case O_ADD:
      if (isConst(a->b))
        return mkEq(a->a, mkConst(w, b->v - a->b->v));
      break;
    case O_SUB:
      if (b->v == 0)
        return mkEq(a->a, a->b);
      if (isConst(a->a))
        return mkEq(a->b, mkConst(w, a->a->v - b->v));
      break;
    case O_XOR:
      if (isConst(a->b))
        return mkEq(a->a, mkConst(w, b->v ^ a->b->v));
      if (b->v == 0)
        return mkEq(a->a, a->b);
      break;
    case O_ITE:
      if (nonConstCI(a))
        return mapCI(a, [&](E x) { return mkEq(x, b); });
      if (isConst(a->b) || isConst(a->c))
        return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
      break;
    default:
      break;
    }
  } else {
    if (a->op == O_ZEXT && b->op == O_ZEXT) {
      unsigned n = std::max(a->a->w, b->a->w);
      return mkEq(mkZExt(a->a, n), mkZExt(b->a, n));
    }
    if (a->op == O_ADD && b->op == O_ADD) {
      if (a->a == b->a)
        return mkEq(a->b, b->b);
      if (a->b == b->b)
        return mkEq(a->a, b->a);
    }
    // x == x + k
    if (w <= 64) {
      if (a->op == O_ADD && isConst(a->b) && a->a == b)
        return mkFalse(); // k != 0 by construction
      if (b->op == O_ADD && isConst(b->b) && b->a == a)
        return mkFalse();
      if (a->op == O_ADD && isConst(a->b) && b->op == O_ADD &&
          isConst(b->b) && a->a == b->a)
        return mkFalse();
    }
    if (concatLike(a) && concatLike(b)) {
      std::vector<E> pa, pb;
      pieces(a, pa);
      pieces(b, pb);
      if (pa.size() == pb.size()) {
        bool same = true;
        for (size_t i = 0; i < pa.size(); i++)
          same &= pa[i]->w == pb[i]->w;
        if (same) {
          E r = mkTrue();
          for (size_t i = 0; i < pa.size(); i++)
            r = mkAnd(r, mkEq(pa[i], pb[i]));
          return r;
        }
      }
    }
  }
  if (!isConst(b) && a->id > b->id)
    std::swap(a, b);
  return intern(O_EQ, 1, 0, a, b, nullptr);
}

E mkUlt(E a, E b) {
  assert(a->w == b->w);
  unsigned w = a->w;
  if (a == b)
    return mkFalse();
  if (w <= 64) {
    if (a->hi < b->lo)
      return mkTrue();
    if (a->lo >= b->hi)
      return mkFalse();
  }
  if (w == 1)
    return mkAnd(mkNot(a), b);
  if (a->op == O_ZEXT && b->op == O_ZEXT) {
    unsigned n = std::max(a->a->w, b->a->w);
    return mkUlt(mkZExt(a->a, n), mkZExt(b->a, n));
  }
  if (w <= 64) {
    if (a->op == O_ZEXT && isConst(b)) // b <= max of inner by interval test
      return b->v > maskw(a->a->w) ? mkTrue()
                                   : mkUlt(a->a, mkConst(a->a->w, b->v));
    if (b->op == O_ZEXT && isConst(a))
      return a->v > maskw(b->a->w) ? mkFalse()
                                   : mkUlt(mkConst(b->a->w, a->v), b->a);
    if (isConst(b) && (b->v & (b->v - 1)) == 0) {
      unsigned k = __builtin_ctzll(b->v);
      return mkEq(mkExtract(a, k, w - k), mkConst(w - k, 0));
    }
    if (isConst(a) && ((a->v + 1) & a->v) == 0 && a->v != maskw(w)) {
      unsigned k = __builtin_ctzll(a->v + 1);
      return mkNe(mkExtract(b, k, w - k), mkConst(w - k, 0));
    }
    if (nonConstCI(a) && isConst(b))
      return mapCI(a, [&](E x) { return mkUlt(x, b); });
    if (nonConstCI(b) && isConst(a))
      return mapCI(b, [&](E x) { return mkUlt(a, x); });
  }
  return intern(O_ULT, 1, 0, a, b, nullptr);
}

E mkSlt(E a, E b) {
  assert(a->w == b->w);
  unsigned w = a->w;
  if (a == b)
    return mkFalse();
  if (w <= 64) {
    if (isConst(a) && isConst(b))
      return foldBin(O_SLT, a, b);
    uint64_t sb = 1ull << (w - 1);
    bool ap = a->k0 & sb, an = a->k1 & sb, bp = b->k0 & sb, bn = b->k1 & sb;
    if ((ap && bp) || (an && bn))
      return mkUlt(a, b);
    if (ap && bn)
      return mkFalse();
    if (an && bp)
      return mkTrue();
    if (isConst(b) && b->v == 0)
      return mkExtract(a, w - 1, 1);
    if (isConst(a) && a->v == maskw(w))
      return mkNot(mkExtract(b, w - 1, 1));
    if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w)
      return mkSlt(a->a, b->a);
    if (a->op == O_SEXT && isConst(b)) {
      uint64_t t = b->v & maskw(a->a->w);
      if (((uint64_t)sx(t, a->a->w) & maskw(w)) == b->v)
        return mkSlt(a->a, mkConst(a->a->w, t));
    }
    if (b->op == O_SEXT && isConst(a)) {
      uint64_t t = a->v & maskw(b->a->w);
      if (((uint64_t)sx(t, b->a->w) & maskw(w)) == a->v)
        return mkSlt(mkConst(b->a->w, t), b->a);
    }
    if (nonConstCI(a) && isConst(b))
      return mapCI(a, [&](E x) { return mkSlt(x, b); });
    if (nonConstCI(b) && isConst(a))
      return mapCI(b, [&](E x) { return mkSlt(a, x); });
  }
  if (w == 1)
    return mkAnd(a, mkNot(b));
  return intern(O_SLT, 1, 0, a, b, nullptr);
}
E mkImplies(E a, E b) { return mkOr(mkNot(a), b); }

E mkBin(Op op, E a, E b) {
  switch (op) {
  case O_AND:
    return mkAnd(a, b);
  case O_OR:
    return mkOr(a, b);
  case O_XOR:
    return mkXor(a, b);
  case O_ADD:
    return mkAdd(a, b);
  case O_SUB:
    return mkSub(a, b);
  case O_MUL:
    return mkMul(a, b);
  case O_UDIV:
    return mkUDiv(a, b);
  case O_SDIV:
    return mkSDiv(a, b);
  case O_UREM:
    return mkURem(a, b);
  case O_SREM:
    return mkSRem(a, b);
  case O_SHL:
    return mkShl(a, b);
  case O_LSHR:
    return mkLShr(a, b);
  case O_ASHR:
    return mkAShr(a, b);
  case O_EQ:
    return mkEq(a, b);
  case O_ULT:
    return mkUlt(a, b);
  case O_SLT:
    return mkSlt(a, b);
  default:
    abort();
  }
}

// ---------------------------------------------------------------------------
static void wmask(std::vector<uint64_t> &v, unsigned w) {
  v.resize((w + 63) / 64);
  if (w % 64)
    v.back() &= maskw(w % 64);
}
const std::vector<uint64_t> &Evaluator::evalWide(E root) {
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (memo.count(e)) {
      st.pop_back();
      continue;
    }
    bool ready = true;
    for (E k : {e->a, e->b, e->c})
      if (k && !memo.count(k)) {
        st.push_back(k);
        ready = false;
      }
    if (!ready)
      continue;
    st.pop_back();
    std::vector<uint64_t> r;
    unsigned nl = (e->w + 63) / 64;
    bool narrow = e->w <= 64 && (!e->a || e->a->w <= 64) &&
                  (!e->b || e->b->w <= 64) && (!e->c || e->c->w <= 64);
    if (e->op == O_CONST)
      r = {e->v};
    else if (e->op == O_VAR) {
      auto it = val.find(e->v);
      r = {it == val.end() ? 0 : it->second & maskw(e->w)};
      r.resize(nl);
    } else if (narrow) {
      uint64_t x = memo[e->a][0], y = e->b ? memo[e->b][0] : 0,
               z = e->c ? memo[e->c][0] : 0;
      r = {evalOp((Op)e->op, e->w, e->v, e->a->w, x, e->b ? e->b->w : 0, y,
                  z)};
    } else {
      const auto &A = memo[e->a];
      static const std::vector<uint64_t> none;
      const auto &B = e->b ? memo[e->b] : none;
      auto bit = [](const std::vector<uint64_t> &v, unsigned i) -> uint64_t {
        return (v[i / 64] >> (i % 64)) & 1;
      };
      r.assign(nl, 0);
      switch (e->op) {
      case O_NOT:
        for (unsigned i = 0; i < nl; i++)
          r[i] = ~A[i];
        break;
      case O_AND:
        for (unsigned i = 0; i < nl; i++)
          r[i] = A[i] & B[i];
        break;
      case O_OR:
        for (unsigned i = 0; i < nl; i++)
          r[i] = A[i] | B[i];
        break;
      case O_XOR:
        for (unsigned i = 0; i < nl; i++)
          r[i] = A[i] ^ B[i];
        break;
      case O_ADD: {
        unsigned __int128 cy = 0;
        for (unsigned i = 0; i < nl; i++) {
          cy += A[i];
          cy += B[i];
          r[i] = (uint64_t)cy;
          cy >>= 64;
        }
        break;
      }
      case O_SUB: {
        uint64_t br = 0;
        for (unsigned i = 0; i < nl; i++) {
          unsigned __int128 d = (unsigned __int128)A[i] - B[i] - br;
          r[i] = (uint64_t)d;
          br = (d >> 64) ? 1 : 0;
        }
        break;
      }
      case O_MUL:
        for (unsigned i = 0; i < nl; i++) {
          unsigned __int128 cy = 0;
          for (unsigned j = 0; i + j < nl; j++) {
            cy += (unsigned __int128)A[i] * B[j] + r[i + j];
            r[i + j] = (uint64_t)cy;
            cy >>= 64;
          }
        }
        break;
      case O_CONCAT:
        for (unsigned i = 0; i < e->b->w; i++)
          r[i / 64] |= bit(B, i) << (i % 64);
        for (unsigned i = 0; i < e->a->w; i++) {
          unsigned p = i + e->b->w;
          r[p / 64] |= bit(A, i) << (p % 64);
        }
        break;
      case O_EXTRACT:
        for (unsigned i = 0; i < e->w; i++)
          r[i / 64] |= bit(A, i + e->v) << (i % 64);
        break;
      case O_ZEXT:
      case O_SEXT: {
        for (unsigned i = 0; i < e->w; i++) {
          uint64_t bb = i < e->a->w
                            ? bit(A, i)
                            : (e->op == O_SEXT ? bit(A, e->a->w - 1) : 0);
          r[i / 64] |= bb << (i % 64);
        }
        break;
      }
      case O_ITE:
        r = A[0] ? memo[e->b] : memo[e->c];
        break;
      case O_EQ:
        r = {(uint64_t)(A == B)};
        break;
      case O_ULT: {
        uint64_t lt = 0;
        for (size_t i = 0; i < A.size(); i++)
          lt = A[i] < B[i] ? 1 : A[i] > B[i] ? 0 : lt;
        r = {lt};
        break;
      }
      case O_SHL:
      case O_LSHR:
      case O_ASHR: {
        uint64_t s = B[0];
        for (size_t i = 1; i < B.size(); i++)
          if (B[i])
            s = ~0ull;
        for (unsigned i = 0; i < e->w; i++) {
          uint64_t bb = 0;
          if (e->op == O_SHL)
            bb = i >= s ? bit(A, i - s) : 0;
          else if (s < e->w && i + s < e->w)
            bb = bit(A, i + s);
          else
            bb = e->op == O_ASHR ? bit(A, e->w - 1) : 0;
          r[i / 64] |= bb << (i % 64);
        }
        break;
      }
      default:
        fprintf(stderr, "eval: unsupported wide op %d\n", e->op);
        exit(3);
      }
    }
    wmask(r, e->w);
    memo[e] = std::move(r);
  }
  return memo[root];
}
uint64_t Evaluator::eval(E e) { return evalWide(e)[0]; }
