// Symbolic executor for LLVM bitcode: guarded execution with state merging.
// Every reachable obligation (harness assertion, abort, out-of-bounds access,
// division by zero, unmodelled call) becomes a bit-vector query.
#include "expr.h"
#include "mem.h"
#include "solve.h"
#include <algorithm>
#include <cstring>
#include <ctime>
#include <map>
#include <memory>
#include <pthread.h>
#include <regex>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;
#undef DEBUG_TYPE

static double nowS() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

[[noreturn]] static void fatal(const std::string &m) {
  fprintf(stderr, "symx: FATAL %s\n", m.c_str());
  fflush(stderr);
  _exit(3);
}

// ---------------------------------------------------------------- options
static std::string optEntry, optOut, optSolvers = "z3,kissat", optTmp = "/tmp";
static double optTimeout = 60, optExecLimit = 600;
static std::string optBranchCheck;
static size_t optPtrCheck = 0; // more pointer targets than this: ask the solver
static int optVerbose = 0, optLoopCheck = 4, optMaxIter = 100000;
static int optJobs = 2;
static bool optCross = false, optCoverOnly = false, optFirst = false;
static double T0;

// ---------------------------------------------------------------- path cond
struct PC {
  const PC *parent;
  E lit;
  bool assume;
  int depth;
  E conj; // branch literals only
};
static E pcConj(const PC *p) { return p ? p->conj : mkTrue(); }
static const PC *pushLit(const PC *p, E lit, bool assume);
static int litKnown(const PC *p, E c) { // 1 true, 0 false, -1 unknown
  E n = mkNot(c);
  int steps = 0;
  for (; p && steps < 400; p = p->parent, steps++) {
    if (p->lit == c)
      return 1;
    if (p->lit == n)
      return 0;
  }
  return -1;
}
static void baseOf(E e, E &b, unsigned &lo) {
  if (e->op == O_EXTRACT) {
    b = e->a;
    lo = e->v;
  } else {
    b = e;
    lo = 0;
  }
}
// bits of e fixed by equalities on the path
static bool pathBits(const PC *p, E e, uint64_t &m, uint64_t &v) {
  m = v = 0;
  if (e->w > 64)
    return false;
  E b;
  unsigned lo;
  baseOf(e, b, lo);
  int steps = 0;
  for (; p && steps < 400; p = p->parent, steps++) {
    E l = p->lit, x;
    uint64_t k;
    if (l->op == O_EQ && isConst(l->b)) {
      x = l->a;
      k = l->b->v;
    } else if (l->op == O_EXTRACT) {
      x = l;
      k = 1;
    } else if (l->op == O_NOT && l->a->op == O_EXTRACT) {
      x = l->a;
      k = 0;
    } else
      continue;
    if (x->w > 64)
      continue;
    E xb;
    unsigned xlo;
    baseOf(x, xb, xlo);
    if (xb != b) {
      if (x != e)
        continue;
      m = maskw(e->w);
      v = k;
      return true;
    }
    // overlap of [xlo,xlo+x->w) with [lo,lo+e->w)
    unsigned s = std::max(lo, xlo), t = std::min<unsigned>(lo + e->w, xlo + x->w);
    if (s >= t)
      continue;
    uint64_t mm = maskw(t - s) << (s - lo);
    m |= mm;
    v = (v & ~mm) | (((k >> (s - xlo)) & maskw(t - s)) << (s - lo));
  }
  return m != 0;
}
// value of e when x == k, if that determines it
static bool evalUnder(E e, E x, uint64_t k, uint64_t &out, int depth) {
  if (e->w > 64)
    return false;
  if (e == x) {
    out = k;
    return true;
  }
  if (isConst(e)) {
    out = e->v;
    return true;
  }
  if (depth == 0 || e->op == O_VAR)
    return false;
  // operands are older than what is built from them
  if (e->id < (x->op == O_EXTRACT ? x->a->id : x->id))
    return false;
  if (e->op == O_EXTRACT && x->op == O_EXTRACT && e->a == x->a && e->v >= x->v &&
      e->v + e->w <= x->v + x->w) {
    out = (k >> (e->v - x->v)) & maskw(e->w);
    return true;
  }
  uint64_t a = 0, b = 0;
  switch (e->op) {
  case O_NOT: case O_EXTRACT: case O_ZEXT: case O_SEXT:
    if (e->a->w > 64 || !evalUnder(e->a, x, k, a, depth - 1))
      return false;
    out = evalOp((Op)e->op, e->w, e->v, e->a->w, a, 0, 0, 0);
    return true;
  case O_AND: case O_OR: {
    bool ka = evalUnder(e->a, x, k, a, depth - 1), kb = evalUnder(e->b, x, k, b, depth - 1);
    if (ka && kb) {
      out = e->op == O_AND ? a & b : a | b;
      return true;
    }
    uint64_t z = e->op == O_AND ? 0 : maskw(e->w);
    if ((ka && a == z) || (kb && b == z)) {
      out = z;
      return true;
    }
    return false;
  }
  case O_ADD: case O_SUB: case O_XOR: case O_EQ: case O_ULT: case O_SLT: case O_SHL: case O_LSHR:
    if (e->a->w > 64 || !evalUnder(e->a, x, k, a, depth - 1) || !evalUnder(e->b, x, k, b, depth - 1))
      return false;
    out = evalOp((Op)e->op, e->w, e->v, e->a->w, a, e->b->w, b, 0);
    return true;
  }
  return false;
}
// does some path literal rule out x == k ?
static bool pathExcludes(const PC *p, E x, uint64_t k) {
  int steps = 0;
  for (; p && steps < 400; p = p->parent, steps++) {
    uint64_t o;
    if (evalUnder(p->lit, x, k, o, 5) && !(o & 1))
      return true;
  }
  return false;
}
static void pathRange(const PC *p, E x, uint64_t &lo, uint64_t &hi) {
  lo = x->lo;
  hi = x->hi;
  int steps = 0;
  for (; p && steps < 400; p = p->parent, steps++) {
    E l = p->lit;
    bool neg = l->op == O_NOT;
    if (neg)
      l = l->a;
    if (l->op != O_ULT)
      continue;
    if (l->a == x && isConst(l->b)) {
      if (!neg) {
        if (l->b->v)
          hi = std::min(hi, l->b->v - 1);
      } else
        lo = std::max(lo, l->b->v);
    } else if (l->b == x && isConst(l->a)) {
      if (!neg) {
        if (l->a->v != maskw(x->w))
          lo = std::max(lo, l->a->v + 1);
      } else
        hi = std::min(hi, l->a->v);
    }
  }
}
static E foldPC1(const PC *p, E c, int depth);
static E foldPC(const PC *p, E c, int depth = 0) {
  if (isConst(c))
    return c;
  // paths and nodes are never freed, so an answer stays right
  struct Memo {
    const PC *p;
    E c, r;
    int depth;
  };
  static std::vector<Memo> memo(1 << 18);
  uint64_t h = ((uint64_t)p >> 4) * 0x9e3779b97f4a7c15ull ^ ((uint64_t)c >> 4) * 0xc2b2ae3d27d4eb4full;
  h = (h ^ (uint64_t)depth << 50) * 0x9e3779b97f4a7c15ull;
  size_t at = h >> 46;
  if (memo[at].c == c && memo[at].p == p && memo[at].depth == depth)
    return memo[at].r;
  E r = foldPC1(p, c, depth);
  memo[at] = Memo{p, c, r, depth};
  return r;
}
static E foldPC1(const PC *p, E c, int depth) {
  int k = litKnown(p, c);
  if (k >= 0)
    return k ? mkTrue() : mkFalse();
  if (c->op == O_EQ && isConst(c->b) && c->a->w <= 64) {
    uint64_t m, v;
    if (pathBits(p, c->a, m, v)) {
      if ((v ^ c->b->v) & m)
        return mkFalse();
      if (m == maskw(c->a->w))
        return mkTrue();
    }
    if (pathExcludes(p, c->a, c->b->v))
      return mkFalse();
  } else if ((c->op == O_ULT || c->op == O_SLT) &&
             (isConst(c->a) || isConst(c->b))) {
    uint64_t m, v;
    E x = isConst(c->a) ? c->b : c->a;
    if (x->w <= 64 && pathBits(p, x, m, v) && m == maskw(x->w)) {
      E kx = mkConst(x->w, v);
      E a = isConst(c->a) ? c->a : kx, b = isConst(c->a) ? kx : c->b;
      return c->op == O_ULT ? mkUlt(a, b) : mkSlt(a, b);
    }
    if (c->op == O_ULT && x->w <= 64) {
      uint64_t lo, hi;
      pathRange(p, x, lo, hi);
      if (lo <= hi) {
        if (x == c->a) {
          if (hi < c->b->v)
            return mkTrue();
          if (lo >= c->b->v)
            return mkFalse();
        } else {
          if (c->a->v < lo)
            return mkTrue();
          if (c->a->v >= hi)
            return mkFalse();
        }
      }
    }
  } else if (c->op == O_EXTRACT) {
    uint64_t m, v;
    if (pathBits(p, c, m, v))
      return mkConst(1, v);
  }
  if (depth < 6) {
    if (c->op == O_NOT)
      return mkNot(foldPC(p, c->a, depth + 1));
    if (c->op == O_AND || c->op == O_OR) {
      E a = foldPC(p, c->a, depth + 1), b = foldPC(p, c->b, depth + 1);
      if (a != c->a || b != c->b)
        return c->op == O_AND ? mkAnd(a, b) : mkOr(a, b);
    }
  }
  return c;
}
static const PC *pushLit(const PC *p, E lit, bool assume) {
  if (isTrue(lit))
    return p;
  if (lit->op == O_AND) {
    p = pushLit(p, lit->a, assume);
    return pushLit(p, lit->b, assume);
  }
  if (lit->op == O_NOT && lit->a->op == O_OR) {
    p = pushLit(p, mkNot(lit->a->a), assume);
    return pushLit(p, mkNot(lit->a->b), assume);
  }
  if (litKnown(p, lit) == 1)
    return p;
  if (lit->op == O_OR || (lit->op == O_NOT && lit->a->op == O_AND)) {
    // unit propagation of a clause against what is already known
    E f = foldPC(p, lit);
    if (f != lit && !isConst(f) && f->op != O_OR)
      p = pushLit(p, f, true);
  }
  PC *n = new PC;
  n->parent = p;
  n->lit = lit;
  n->assume = assume;
  n->depth = p ? p->depth + 1 : 1;
  n->conj = assume ? pcConj(p) : mkAnd(pcConj(p), lit);
  // clauses which the new literal turns into units
  if (lit->op != O_OR) {
    static int inProp = 0;
    if (inProp < 3) {
      inProp++;
      const PC *r = n;
      int steps = 0;
      for (const PC *q = n->parent; q && steps < 200; q = q->parent, steps++) {
        E l = q->lit;
        if (!(l->op == O_OR || (l->op == O_NOT && l->a->op == O_AND)))
          continue;
        if (l->op == O_OR) {
          E fa = foldPC(n, l->a), fb = foldPC(n, l->b);
          if (isFalse(fa) && !isConst(fb))
            r = pushLit(r, fb, true);
          else if (isFalse(fb) && !isConst(fa))
            r = pushLit(r, fa, true);
        } else {
          E fa = foldPC(n, l->a->a), fb = foldPC(n, l->a->b);
          if (isTrue(fa) && !isConst(fb))
            r = pushLit(r, mkNot(fb), true);
          else if (isTrue(fb) && !isConst(fa))
            r = pushLit(r, mkNot(fa), true);
        }
      }
      inProp--;
      return r;
    }
  }
  return n;
}
static const PC *lca(const PC *a, const PC *b) {
  while (a != b) {
    int da = a ? a->depth : 0, db = b ? b->depth : 0;
    if (da >= db)
      a = a->parent;
    else
      b = b->parent;
  }
  return a;
}
static E suffix(const PC *p, const PC *anc, int &n) {
  std::vector<E> v;
  n = 0;
  for (; p != anc; p = p->parent)
    if (!p->assume)
      v.push_back(p->lit);
  n = v.size();
  E r = mkTrue();
  for (size_t i = v.size(); i-- > 0;)
    r = mkAnd(r, v[i]);
  return r;
}

// ---------------------------------------------------------------- arrays
struct Arr {
  enum K { BASE, STORE, ITE } k;
  int base; // BASE: array id
  E idx, val, c;
  const Arr *a, *b;
};
struct UF {
  std::string name;
  unsigned w; // value width
  std::vector<std::pair<E, E>> apps; // key expr -> value var
  std::unordered_map<E, E> memo;
};
static std::vector<UF> ufs;
static std::map<std::string, int> ufByName;

// ---------------------------------------------------------------- objects
struct Obj {
  uint64_t start, size;
  enum Init { ZERO, UNDEF, SYM } init;
  std::string name;
  int arr = -1;      // array mode id (index into ufs)
  unsigned elem = 0; // element bytes (array mode / SYM granularity)
  uint64_t inst = 0;
  bool isConst = false;
  // symbolic sub-ranges
  struct SymR {
    uint64_t off, n;
    unsigned elem;
    std::string name;
  };
};
static std::map<uint64_t, Obj> objs;
static uint64_t instCounter = 0;
static uint64_t globTop = 0x01000000, stackTop = 0x100000000ull,
                heapTop = 0x200000000ull;
struct SymRange {
  uint64_t start, n;
  unsigned elem;
  std::string name;
};

static Obj *addObj(uint64_t &top, uint64_t size, Obj::Init init,
                   const std::string &name, uint64_t gap, uint64_t align = 64) {
  uint64_t a = (top + align - 1) / align * align;
  a = (a + 63) & ~63ull;
  Obj o;
  o.start = a;
  o.size = size;
  o.init = init;
  o.name = name;
  o.inst = ++instCounter;
  top = a + size + gap;
  if (top >> 36)
    fatal("address space exhausted");
  return &(objs[a] = o);
}
static Obj *findObj(uint64_t addr) {
  auto it = objs.upper_bound(addr);
  if (it == objs.begin())
    return nullptr;
  --it;
  Obj &o = it->second;
  if (addr < o.start + std::max<uint64_t>(o.size, 1))
    return &o;
  return nullptr;
}
static Obj *nearestObj(uint64_t addr) {
  if (Obj *o = findObj(addr))
    return o;
  auto it = objs.upper_bound(addr);
  Obj *n = it == objs.end() ? nullptr : &it->second;
  Obj *p = it == objs.begin() ? nullptr : &std::prev(it)->second;
  uint64_t dn = n ? n->start - addr : ~0ull,
           dp = p ? addr - (p->start + p->size) : ~0ull;
  if (std::min(dn, dp) > (1ull << 32))
    return nullptr;
  return dn < dp ? n : p;
}

// ---------------------------------------------------------------- state
struct State {
  const PC *pc = nullptr;
  Mem mem;
  std::map<int, const Arr *> arrs;
  bool dead = false;
};

struct RV {
  E e = nullptr;
  std::shared_ptr<std::vector<RV>> agg;
  bool null() const { return !e && !agg; }
};

// ---------------------------------------------------------------- recording
struct Oblig {
  std::string kind, msg;
  E bad; // pc && !cond
  size_t nassume;
};
struct Cover {
  std::string msg;
  E cond;
  size_t nassume;
};
struct Observe {
  std::string name;
  E pc, val;
};
static std::vector<Oblig> obligs;
static std::vector<Cover> covers;
static std::vector<Observe> observes;
static std::vector<E> assumptions;
static size_t trivOblig = 0;
static std::map<std::string, size_t> trivByMsg;
static size_t instrCount = 0, feasQueries = 0, mergeCount = 0;
static double feasSecs = 0;
static std::map<const Function *, size_t> fnCount;
static std::set<std::string> stubsUsed;
static bool fpUsed = false;
static std::set<uint32_t> undefVars;

static void addAssumption(const State &s, E c) {
  E i = mkImplies(pcConj(s.pc), c);
  if (!isTrue(i))
    assumptions.push_back(i);
}
static void oblig(const State &s, const std::string &kind,
                  const std::string &msg, E badCond) {
  E b = mkAnd(pcConj(s.pc), badCond);
  badCond = foldPC(s.pc, badCond);
  if (isFalse(badCond) || isFalse(b)) {
    trivOblig++;
    trivByMsg[kind + ":" + msg]++;
    return;
  }
  obligs.push_back({kind, msg, mkAnd(pcConj(s.pc), badCond),
                    assumptions.size()});
}

static Module *M;
static const DataLayout *DL;

static std::string where(const Instruction *i) {
  return demangle(i->getFunction()->getName().str());
}

// ---------------------------------------------------------------- UF / arrays
static int getUF(const std::string &name, unsigned w) {
  auto it = ufByName.find(name);
  if (it != ufByName.end())
    return it->second;
  ufs.push_back({name, w, {}, {}});
  return ufByName[name] = ufs.size() - 1;
}
static E ufApply(int id, E key) {
  UF &u = ufs[id];
  auto it = u.memo.find(key);
  if (it != u.memo.end())
    return it->second;
  E v = mkVar("uf!" + u.name + "!" + std::to_string(u.apps.size()), u.w);
  for (auto &p : u.apps) {
    E c = mkImplies(mkEq(p.first, key), mkEq(p.second, v));
    if (!isTrue(c))
      assumptions.push_back(c);
  }
  u.apps.push_back({key, v});
  u.memo[key] = v;
  return v;
}
struct ArrKey {
  const Arr *a;
  E i;
  bool operator<(const ArrKey &o) const {
    return a != o.a ? a < o.a : i < o.i;
  }
};
static std::map<ArrKey, E> arrMemo;
static E arrRead(const Arr *a, E idx) {
  if (a->k == Arr::BASE)
    return ufApply(a->base, idx);
  auto it = arrMemo.find({a, idx});
  if (it != arrMemo.end())
    return it->second;
  E r;
  if (a->k == Arr::STORE) {
    E c = mkEq(a->idx, idx);
    if (isTrue(c))
      r = a->val;
    else if (isFalse(c))
      r = arrRead(a->a, idx);
    else
      r = mkIte(c, a->val, arrRead(a->a, idx));
  } else
    r = mkIte(a->c, arrRead(a->a, idx), arrRead(a->b, idx));
  arrMemo[{a, idx}] = r;
  return r;
}

// ---------------------------------------------------------------- memory ops
static std::vector<SymRange> symRanges;
static const SymRange *findSym(uint64_t addr) {
  for (auto it = symRanges.rbegin(); it != symRanges.rend(); ++it)
    if (addr >= it->start && addr < it->start + it->n)
      return &*it;
  return nullptr;
}
static Cell initialCell(uint64_t addr, Mem *wr) {
  Obj *o = findObj(addr);
  if (!o)
    return {mkConst(8, 0), 0};
  if (o->init == Obj::SYM) {
    if (const SymRange *r = findSym(addr)) {
      uint64_t off = addr - r->start;
      E v = mkVar(r->name + "@" + std::to_string(off / r->elem), r->elem * 8);
      return {v, (uint8_t)(off % r->elem)};
    }
    return {mkConst(8, 0), 0};
  }
  if (o->init == Obj::ZERO)
    return {mkConst(8, 0), 0};
  E v = mkVar("undef!" + std::to_string(o->inst) + "!" +
                  std::to_string(addr - o->start),
              8);
  undefVars.insert(v->v);
  return {v, 0};
}
static E readBytes(State &s, uint64_t addr, unsigned n) {
  E r = nullptr;
  // whole-range undefined content: one variable of the full width
  unsigned i = 0;
  if (n > 1 && n <= 8) {
    bool allnull = true;
    for (unsigned j = 0; j < n && allnull; j++)
      allnull = !s.mem.get(addr + j).e;
    if (allnull) {
      Obj *o = findObj(addr);
      if (o && o->init == Obj::UNDEF && addr + n <= o->start + o->size) {
        E v = mkVar("undef!" + std::to_string(o->inst) + "!" +
                        std::to_string(addr - o->start) + "w" +
                        std::to_string(n),
                    8 * n);
        undefVars.insert(v->v);
        for (unsigned j = 0; j < n; j++)
          s.mem.set(addr + j, v, j);
        return v;
      }
      if (!o || o->init == Obj::ZERO)
        return mkConst(8 * n, 0);
    }
  }
  while (i < n) {
    Cell c = s.mem.get(addr + i);
    if (!c.e)
      c = initialCell(addr + i, &s.mem);
    unsigned j = i + 1;
    while (j < n) {
      Cell d = s.mem.get(addr + j);
      if (!d.e)
        d = initialCell(addr + j, &s.mem);
      if (d.e == c.e && d.k == c.k + (j - i) &&
          (unsigned)(d.k + 1) * 8 <= c.e->w)
        j++;
      else
        break;
    }
    E p = mkExtract(c.e, c.k * 8, (j - i) * 8);
    r = r ? mkConcat(p, r) : p;
    i = j;
  }
  return r;
}
static void writeBytes(State &s, uint64_t addr, E v, unsigned n) {
  if (v->w != n * 8)
    v = mkZExt(v, n * 8);
  if (isConst(v)) {
    for (unsigned i = 0; i < n; i++)
      s.mem.set(addr + i, mkConst(8, v->v >> (8 * i)), 0);
    return;
  }
  for (unsigned i = 0; i < n; i++)
    s.mem.set(addr + i, v, i);
}

static Cell cellOf(const MLeaf *l, uint64_t base, int i) {
  Cell c = l ? l->c[i] : Cell{nullptr, 0};
  return c;
}
static Cell resolveCell(Cell c, uint64_t addr) {
  if (!c.e)
    return initialCell(addr, nullptr);
  return c;
}
static int runLen(const Cell *c, int i, int n) {
  // c already resolved
  int j = i + 1;
  if (isConst(c[i].e)) {
    while (j < n && isConst(c[j].e))
      j++;
    return j - i;
  }
  while (j < n && c[j].e == c[i].e && c[j].k == c[i].k + (j - i))
    j++;
  return j - i;
}
static E runVal(const Cell *c, int i, int n) {
  if (isConst(c[i].e)) {
    uint64_t v = 0;
    for (int j = 0; j < n; j++)
      v |= ((c[i + j].e->v >> (8 * c[i + j].k)) & 0xff) << (8 * j);
    return mkConst(8 * n, v);
  }
  return mkExtract(c[i].e, c[i].k * 8, n * 8);
}

static MNode *mergeNode(E cond, MNode *a, MNode *b, int level, uint64_t base) {
  if (a == b) {
    if (a)
      a->rc++;
    return a;
  }
  if (level < 0) {
    MLeaf *la = static_cast<MLeaf *>(a), *lb = static_cast<MLeaf *>(b);
    MLeaf *r = new MLeaf();
    Cell ca[64], cb[64];
    bool diff[64];
    for (int i = 0; i < 64; i++) {
      Cell x = cellOf(la, base, i), y = cellOf(lb, base, i);
      diff[i] = !(x.e == y.e && x.k == y.k);
      if (!diff[i]) {
        r->c[i] = x;
        ca[i] = cb[i] = Cell{nullptr, 0};
      } else {
        ca[i] = resolveCell(x, base + i);
        cb[i] = resolveCell(y, base + i);
      }
    }
    int i = 0;
    while (i < 64) {
      if (!diff[i]) {
        i++;
        continue;
      }
      int e = i;
      while (e < 64 && diff[e])
        e++;
      while (i < e) {
        int n = std::min({runLen(ca, i, e), runLen(cb, i, e), 8});
        if (n >= 8)
          n = 8;
        E v = mkIte(cond, runVal(ca, i, n), runVal(cb, i, n));
        if (isConst(v))
          for (int j = 0; j < n; j++)
            r->c[i + j] = {mkConst(8, v->v >> (8 * j)), 0};
        else
          for (int j = 0; j < n; j++)
            r->c[i + j] = {v, (uint8_t)j};
        i += n;
      }
    }
    return r;
  }
  MInner *ia = static_cast<MInner *>(a), *ib = static_cast<MInner *>(b);
  MInner *r = new MInner();
  for (int i = 0; i < 64; i++) {
    MNode *x = ia ? ia->ch[i] : nullptr, *y = ib ? ib->ch[i] : nullptr;
    if (x || y)
      r->ch[i] = mergeNode(cond, x, y, level - 1,
                           base | ((uint64_t)i << (6 + 6 * level)));
  }
  return r;
}
static Mem mergeMem(E cond, const Mem &a, const Mem &b) {
  Mem r;
  r.root = mergeNode(cond, a.root, b.root, MEM_LEVELS - 1, 0);
  return r;
}

static RV mergeRV(E c, const RV &a, const RV &b) {
  if (a.null())
    return b;
  if (b.null())
    return a;
  RV r;
  if (a.agg) {
    if (a.agg == b.agg)
      return a;
    r.agg = std::make_shared<std::vector<RV>>();
    for (size_t i = 0; i < a.agg->size(); i++)
      r.agg->push_back(mergeRV(c, (*a.agg)[i], (*b.agg)[i]));
    return r;
  }
  r.e = mkIte(c, a.e, b.e);
  return r;
}

struct Pending {
  State s;
  std::vector<RV> regs;
};
// merge b into a
static void mergeInto(Pending &a, Pending &b, const std::vector<int> *slots) {
  mergeCount++;
  const PC *anc = lca(a.s.pc, b.s.pc);
  int na, nb;
  E ca = suffix(a.s.pc, anc, na), cb = suffix(b.s.pc, anc, nb);
  E c;
  if (na <= nb)
    c = ca;
  else
    c = mkNot(cb);
  if (optVerbose > 3)
    fprintf(stderr, "merge na=%d nb=%d\n", na, nb);
  a.s.mem = mergeMem(c, a.s.mem, b.s.mem);
  if (a.s.arrs != b.s.arrs) {
    for (auto &kv : a.s.arrs) {
      const Arr *o = b.s.arrs[kv.first];
      if (o != kv.second)
        kv.second = new Arr{Arr::ITE, 0, nullptr, nullptr, c, kv.second, o};
    }
  }
  if (slots) {
    for (int i : *slots)
      a.regs[i] = mergeRV(c, a.regs[i], b.regs[i]);
  }
  a.s.pc = pushLit(anc, mkOr(ca, cb), false);
}
static void mergeAll(std::vector<Pending> &w, const std::vector<int> *slots) {
  while (w.size() > 1) {
    // deepest common ancestor first
    size_t bi = 0, bj = 1;
    int best = -1;
    if (w.size() <= 24) {
      for (size_t i = 0; i < w.size(); i++)
        for (size_t j = i + 1; j < w.size(); j++) {
          const PC *p = lca(w[i].s.pc, w[j].s.pc);
          int d = p ? p->depth : 0;
          if (d > best) {
            best = d;
            bi = i;
            bj = j;
          }
        }
    } else {
      // adjacent only (arrival order is close to trie order)
      for (size_t i = 0; i + 1 < w.size(); i++) {
        const PC *p = lca(w[i].s.pc, w[i + 1].s.pc);
        int d = p ? p->depth : 0;
        if (d > best) {
          best = d;
          bi = i;
          bj = i + 1;
        }
      }
    }
    mergeInto(w[bi], w[bj], slots);
    w.erase(w.begin() + bj);
  }
}

static bool feasible(const State &s) {
  std::vector<E> q = assumptions;
  q.push_back(pcConj(s.pc));
  feasQueries++;
  auto r = solveQuery(q, 20, "z3,kissat");
  feasSecs += r.secs;
  return r.v != V_UNSAT;
}

// bit 0: c can hold, bit 1: c can fail
static int branchPossible(const State &s, E c) {
  static std::unordered_map<E, int> cache;
  E pc = pcConj(s.pc);
  auto one = [&](E x) {
    E key = mkAnd(pc, x);
    if (isFalse(key))
      return 0;
    auto it = cache.find(key);
    if (it != cache.end())
      return it->second;
    std::vector<E> q = assumptions;
    q.push_back(key);
    feasQueries++;
    auto r = solveQuery(q, 20, "z3,kissat");
    feasSecs += r.secs;
    return cache[key] = r.v != V_UNSAT;
  };
  return one(c) | one(mkNot(c)) << 1;
}

// ---------------------------------------------------------------- pointers
struct Term {
  E x;
  int64_t coef;
  bool sgn;
};
static bool linearize(E e, int64_t coef, std::vector<Term> &ts, uint64_t &c,
                      int depth = 0) {
  // value of e (as an element of Z/2^64) = c + sum coef*x
  if (isConst(e)) {
    c += coef * e->v;
    return true;
  }
  if (depth > 64)
    return false;
  if (e->w == 64) {
    switch (e->op) {
    case O_ADD:
      return linearize(e->a, coef, ts, c, depth + 1) &&
             linearize(e->b, coef, ts, c, depth + 1);
    case O_SUB:
      return linearize(e->a, coef, ts, c, depth + 1) &&
             linearize(e->b, -coef, ts, c, depth + 1);
    case O_MUL:
      if (isConst(e->b))
        return linearize(e->a, coef * (int64_t)e->b->v, ts, c, depth + 1);
      break;
    case O_ZEXT:
    case O_SEXT: {
      E x = e->a;
      // peel x = CONCAT(y, consts) / ADD without overflow
      if (e->op == O_ZEXT) {
        if (x->op == O_CONCAT) {
          uint64_t c2 = 0;
          std::vector<Term> t2;
          if (linearize(mkZExt(x->a, 64), coef << x->b->w, ts, c, depth + 1) &&
              linearize(mkZExt(x->b, 64), coef, ts, c, depth + 1))
            return true;
          return false;
        }
        if (x->op == O_ADD && x->a->hi + x->b->hi >= x->a->hi &&
            x->a->hi + x->b->hi <= maskw(x->w))
          return linearize(mkZExt(x->a, 64), coef, ts, c, depth + 1) &&
                 linearize(mkZExt(x->b, 64), coef, ts, c, depth + 1);
        if (x->op == O_MUL && isConst(x->b) &&
            (unsigned __int128)x->a->hi * x->b->v <= maskw(x->w))
          return linearize(mkZExt(x->a, 64), coef * (int64_t)x->b->v, ts, c,
                           depth + 1);
        ts.push_back({x, coef, false});
        return true;
      }
      ts.push_back({x, coef, true});
      return true;
    }
    case O_CONCAT:
      return linearize(mkZExt(e->a, 64), coef << e->b->w, ts, c, depth + 1) &&
             linearize(mkZExt(e->b, 64), coef, ts, c, depth + 1);
    case O_OR:
      if (((e->a->k0 | e->b->k0)) == ~0ull)
        return linearize(e->a, coef, ts, c, depth + 1) &&
               linearize(e->b, coef, ts, c, depth + 1);
      break;
    default:
      break;
    }
  }
  ts.push_back({e, coef, false});
  return true;
}

struct RTree {
  enum K { LEAF, ITE, MUX, BAD, ARR } k = BAD;
  uint64_t addr = 0;
  E c = nullptr; // ITE condition / MUX selector
  bool sgn = false;
  int64_t vlo = 0;
  std::vector<std::unique_ptr<RTree>> ch;
  Obj *obj = nullptr; // ARR
  E off = nullptr;
};
using RT = std::unique_ptr<RTree>;
static RT leafT(uint64_t a) {
  RT r(new RTree);
  r->k = RTree::LEAF;
  r->addr = a;
  return r;
}
static RT badT() { return RT(new RTree); }

static E constOf(E x, int64_t v) { return mkConst(x->w, (uint64_t)v); }

struct Resolver {
  State &s;
  unsigned n;
  const Instruction *at;
  size_t leaves = 0;
  std::string err;

  // distinct constants an if-then-else DAG can yield under pc
  static bool leavesOf(E p, const PC *pc, std::set<uint64_t> &vs) {
    std::set<E> seen;
    std::vector<E> st = {p};
    while (!st.empty()) {
      E e = st.back();
      st.pop_back();
      if (isConst(e)) {
        vs.insert(e->v);
        if (vs.size() > 256)
          return false;
        continue;
      }
      if (e->op != O_ITE)
        return false;
      if (!seen.insert(e).second)
        continue;
      if (seen.size() > 20000)
        return false;
      int k = litKnown(pc, e->a);
      if (k != 0)
        st.push_back(e->b);
      if (k != 1)
        st.push_back(e->c);
    }
    return true;
  }
  // one case per value of p
  RT chain(E p, const std::set<uint64_t> &vs, const PC *pc, E oobctx) {
    RT r;
    for (uint64_t v : vs) {
      RT l = go(constOf(p, v), pc, oobctx);
      if (!r) {
        r = std::move(l);
        continue;
      }
      RT t(new RTree);
      t->k = RTree::ITE;
      t->c = mkEq(p, constOf(p, v));
      t->ch.push_back(std::move(l));
      t->ch.push_back(std::move(r));
      r = std::move(t);
    }
    return r;
  }
  RT go(E p, const PC *pc, E oobctx) {
    if (isConst(p)) {
      Obj *o = findObj(p->v);
      if (!o || p->v + n > o->start + o->size)
        return badT();
      if (o->arr >= 0) {
        RT r(new RTree);
        r->k = RTree::ARR;
        r->obj = o;
        r->off = mkConst(64, p->v - o->start);
        return r;
      }
      if (++leaves > 20000)
        err = "too many pointer targets";
      return leafT(p->v);
    }
    if (p->op == O_ITE && p->constite) {
      std::set<uint64_t> vs;
      if (leavesOf(p, pc, vs)) {
        return chain(p, vs, pc, oobctx);
      }
    }
    if (p->op == O_ITE) {
      int k = litKnown(pc, p->a);
      if (k == 1)
        return go(p->b, pc, oobctx);
      if (k == 0)
        return go(p->c, pc, oobctx);
      RT r(new RTree);
      r->k = RTree::ITE;
      r->c = p->a;
      r->ch.push_back(go(p->b, pc, oobctx));
      r->ch.push_back(go(p->c, pc, oobctx));
      return r;
    }
    std::vector<Term> ts;
    uint64_t c = 0;
    linearize(p, 1, ts, c);
    // collect like terms
    std::vector<Term> u;
    for (auto &t : ts) {
      bool f = false;
      for (auto &q : u)
        if (q.x == t.x && q.sgn == t.sgn) {
          q.coef += t.coef;
          f = true;
        }
      if (!f)
        u.push_back(t);
    }
    ts.clear();
    for (auto &t : u)
      if (t.coef)
        ts.push_back(t);
    // split on ITE terms which carry the base pointer
    for (size_t i = 0; i < ts.size(); i++) {
      E x = ts[i].x;
      bool split = x->op == O_ITE && (x->w == 64 || (!ts[i].sgn && ts[i].coef == 1 && c < 0x01000000 && x->lo >= 0x01000000)) && x->hi > (1 << 20);
      auto wide = [](E e) { return mkZExt(e, 64); };
      if (split) {
        E rest = mkConst(64, c);
        for (size_t j = 0; j < ts.size(); j++)
          if (j != i) {
            E t = ts[j].sgn ? mkSExt(ts[j].x, 64) : mkZExt(ts[j].x, 64);
            rest = mkAdd(rest, mkMul(t, mkConst(64, ts[j].coef)));
          }
        E k = mkConst(64, ts[i].coef);
        std::set<uint64_t> vs;
        if (x->constite && leavesOf(x, pc, vs)) {
          RT r;
          for (uint64_t v : vs) {
            RT l = go(mkAdd(rest, mkMul(wide(constOf(x, v)), k)), pc, oobctx);
            if (!r) {
              r = std::move(l);
              continue;
            }
            RT t(new RTree);
            t->k = RTree::ITE;
            t->c = mkEq(x, constOf(x, v));
            t->ch.push_back(std::move(l));
            t->ch.push_back(std::move(r));
            r = std::move(t);
          }
          return r;
        }
        int kn = litKnown(pc, x->a);
        if (kn == 1)
          return go(mkAdd(rest, mkMul(wide(x->b), k)), pc, oobctx);
        if (kn == 0)
          return go(mkAdd(rest, mkMul(wide(x->c), k)), pc, oobctx);
        RT r(new RTree);
        r->k = RTree::ITE;
        r->c = x->a;
        r->ch.push_back(go(mkAdd(rest, mkMul(wide(x->b), k)), pc, oobctx));
        r->ch.push_back(go(mkAdd(rest, mkMul(wide(x->c), k)), pc, oobctx));
        return r;
      }
    }
    Obj *o = nearestObj(c);
    if (!o) {
      // try with the minimal values of the terms
      uint64_t m = c;
      for (auto &t : ts)
        if (!t.sgn)
          m += t.coef * t.x->lo;
      o = nearestObj(m);
    }
    if (!o) {
      // nothing at all within its range: a bad pointer
      if (p->hi - p->lo < 1ull << 32) {
        auto it = objs.upper_bound(p->hi);
        if (it == objs.begin())
          return badT();
        --it;
        if (it->second.start + it->second.size <= p->lo)
          return badT();
      }
      err = "cannot resolve pointer base";
      if (getenv("SX_DEBUG")) {
        fprintf(stderr, "unresolved: const %llx lo %llx hi %llx\n", (unsigned long long)c, (unsigned long long)p->lo, (unsigned long long)p->hi);
        for (auto &t : ts)
          fprintf(stderr, "  term op %d w %d coef %lld sgn %d lo %llx hi %llx constite %d a.op %d b.op %d c.op %d\n", t.x->op, t.x->w, (long long)t.coef, t.sgn, (unsigned long long)t.x->lo, (unsigned long long)t.x->hi, (int)t.x->constite, t.x->a ? t.x->a->op : -1, t.x->b ? t.x->b->op : -1, t.x->c ? t.x->c->op : -1);
      }
      return badT();
    }
    if (o->arr >= 0) {
      RT r(new RTree);
      r->k = RTree::ARR;
      r->obj = o;
      r->off = mkSub(p, mkConst(64, o->start));
      return r;
    }
    std::sort(ts.begin(), ts.end(), [](const Term &a, const Term &b) {
      return llabs(a.coef) > llabs(b.coef);
    });
    // A sum simplified through known bits has a constant part which need not
    // lie in the object: then go by the objects its range overlaps.
    RT r = en(ts, 0, c, o);
    if (r->k != RTree::BAD || !err.empty())
      if (p->op == O_ADD || !err.empty())
        return r;
    __int128 mn = c, mx = c;
    for (auto &t : ts) {
      __int128 a, b;
      range(t, a, b);
      mn += a;
      mx += b;
    }
    if (mn < 0 || mx > (__int128)1 << 62 || mx - mn > 1 << 16)
      return r;
    std::vector<Obj *> cand;
    for (auto it = objs.begin(); it != objs.end(); ++it)
      if ((__int128)it->second.start <= mx &&
          (__int128)(it->second.start + it->second.size) > mn)
        cand.push_back(&it->second);
    if (cand.size() == 1 && cand[0] == o)
      return r;
    for (Obj *q : cand)
      if (q->arr >= 0)
        return r;
    if (cand.empty())
      return r;
    if (cand.size() == 1)
      return en(ts, 0, c, cand[0]);
    Obj all;
    all.start = cand.front()->start;
    all.size = cand.back()->start + cand.back()->size - all.start;
    anyObj = true;
    r = en(ts, 0, c, &all);
    anyObj = false;
    return r;
  }
  bool anyObj = false;
  static void range(const Term &t, __int128 &lo, __int128 &hi) {
    if (t.sgn) {
      int64_t l = -(1ll << (t.x->w - 1)), h = (1ll << (t.x->w - 1)) - 1;
      lo = (__int128)l;
      hi = (__int128)h;
    } else if (t.x->w == 64 && t.x->hi >> 63) {
      lo = -((__int128)1 << 63);
      hi = ((__int128)1 << 63) - 1;
    } else {
      lo = t.x->lo;
      hi = t.x->hi;
    }
    if (t.coef > 0) {
      lo *= t.coef;
      hi *= t.coef;
    } else {
      __int128 a = lo * t.coef, b = hi * t.coef;
      lo = b;
      hi = a;
    }
  }
  RT en(const std::vector<Term> &ts, size_t i, uint64_t c, Obj *o) {
    if (i == ts.size()) {
      Obj *h = anyObj ? findObj(c) : o;
      if (!h || c < h->start || c + n > h->start + h->size)
        return badT();
      if (++leaves > 20000)
        err = "too many pointer targets";
      return leafT(c);
    }
    __int128 rlo = 0, rhi = 0;
    for (size_t j = i + 1; j < ts.size(); j++) {
      __int128 a, b;
      range(ts[j], a, b);
      rlo += a;
      rhi += b;
    }
    const Term &t = ts[i];
    bool sgn = t.sgn || (t.x->w == 64 && (t.x->hi >> 63));
    // c + coef*v + r in [start, end-n]
    __int128 lo = (__int128)o->start - (__int128)(int64_t)c - rhi;
    __int128 hi = (__int128)(o->start + o->size - n) - (__int128)(int64_t)c - rlo;
    __int128 vlo, vhi;
    auto fdiv = [](__int128 a, __int128 b) {
      __int128 q = a / b;
      if ((a % b != 0) && ((a < 0) != (b < 0)))
        q--;
      return q;
    };
    auto cdiv = [&](__int128 a, __int128 b) { return -fdiv(-a, b); };
    if (t.coef > 0) {
      vlo = cdiv(lo, t.coef);
      vhi = fdiv(hi, t.coef);
    } else {
      vlo = cdiv(-hi, -t.coef);
      vhi = fdiv(-lo, -t.coef);
    }
    __int128 xl, xh;
    if (sgn) {
      xl = t.x->w == 64 ? -((__int128)1 << 63) : -((__int128)1 << (t.x->w - 1));
      xh = -xl - 1;
    } else {
      xl = t.x->lo;
      xh = t.x->hi;
    }
    __int128 a = std::max(vlo, xl), b = std::min(vhi, xh);
    if (a > b)
      return badT();
    if (b - a > 20000) {
      err = "index range too large";
      return badT();
    }
    RT r(new RTree);
    r->k = RTree::MUX;
    r->c = t.x;
    r->sgn = sgn;
    r->vlo = (int64_t)a;
    for (__int128 v = a; v <= b; v++) {
      uint64_t uv = (uint64_t)(int64_t)v & maskw(t.x->w);
      if (!sgn && ((uv & t.x->k0) || (~uv & t.x->k1 & maskw(t.x->w)))) {
        r->ch.push_back(nullptr);
        continue;
      }
      r->ch.push_back(en(ts, i + 1, c + (uint64_t)(t.coef * (int64_t)v), o));
      if (!err.empty())
        break;
    }
    return r;
  }
};
static E inRange(const RTree *t) {
  E x = t->c;
  int64_t lo = t->vlo, hi = t->vlo + (int64_t)t->ch.size() - 1;
  E r = mkTrue();
  if (t->sgn) {
    int64_t mn = x->w == 64 ? INT64_MIN : -(1ll << (x->w - 1)),
            mx = x->w == 64 ? INT64_MAX : (1ll << (x->w - 1)) - 1;
    if (lo > mn)
      r = mkAnd(r, mkSle(constOf(x, lo), x));
    if (hi < mx)
      r = mkAnd(r, mkSle(x, constOf(x, hi)));
  } else {
    if ((uint64_t)lo > x->lo)
      r = mkAnd(r, mkUle(constOf(x, lo), x));
    if ((uint64_t)hi < x->hi)
      r = mkAnd(r, mkUle(x, constOf(x, hi)));
  }
  return r;
}
static void collectBad(const RTree *t, E cond, E &bad) {
  if (isFalse(cond))
    return;
  if (!t)
    return;
  switch (t->k) {
  case RTree::BAD:
    bad = mkOr(bad, cond);
    break;
  case RTree::ITE:
    collectBad(t->ch[0].get(), mkAnd(cond, t->c), bad);
    collectBad(t->ch[1].get(), mkAnd(cond, mkNot(t->c)), bad);
    break;
  case RTree::MUX: {
    E in = inRange(t);
    if (!isTrue(in))
      bad = mkOr(bad, mkAnd(cond, mkNot(in)));
    for (size_t i = 0; i < t->ch.size(); i++) {
      const RTree *c = t->ch[i].get();
      if (c && c->k != RTree::LEAF)
        collectBad(c, mkAnd(cond, mkEq(t->c, constOf(t->c, t->vlo + i))), bad);
    }
    break;
  }
  default:
    break;
  }
}

// value of boolean c given x == v; -1 when undecided
static int condUnder(E c, E x, uint64_t v, int d = 0) {
  if (isConst(c))
    return c->v;
  if (d > 8)
    return -1;
  switch (c->op) {
  case O_EQ:
    if (c->a == x && isConst(c->b))
      return c->b->v == v;
    return -1;
  case O_NOT: {
    int r = condUnder(c->a, x, v, d + 1);
    return r < 0 ? -1 : 1 - r;
  }
  case O_AND: {
    int a = condUnder(c->a, x, v, d + 1);
    if (a == 0)
      return 0;
    int b = condUnder(c->b, x, v, d + 1);
    if (b == 0)
      return 0;
    return a == 1 && b == 1 ? 1 : -1;
  }
  case O_OR: {
    int a = condUnder(c->a, x, v, d + 1);
    if (a == 1)
      return 1;
    int b = condUnder(c->b, x, v, d + 1);
    if (b == 1)
      return 1;
    return a == 0 && b == 0 ? 0 : -1;
  }
  default:
    return -1;
  }
}
// boolean structure of c with every test "x == const" decided
static E simpUnder(E c, E x, uint64_t v, int d, std::unordered_map<E, E> &memo) {
  if (isConst(c) || d > 24)
    return c;
  if (c->op != O_EQ && c->op != O_NOT && c->op != O_AND && c->op != O_OR &&
      c->op != O_ITE && c->op != O_XOR)
    return c;
  auto it = memo.find(c);
  if (it != memo.end())
    return it->second;
  E r = c;
  switch (c->op) {
  case O_EQ:
    if (c->a == x && isConst(c->b))
      r = mkConst(1, c->b->v == v);
    break;
  case O_NOT:
    r = mkNot(simpUnder(c->a, x, v, d + 1, memo));
    break;
  case O_AND:
  case O_OR:
  case O_XOR: {
    if (c->w != 1)
      break;
    E a = simpUnder(c->a, x, v, d + 1, memo), b = simpUnder(c->b, x, v, d + 1, memo);
    if (a != c->a || b != c->b)
      r = c->op == O_AND ? mkAnd(a, b) : c->op == O_OR ? mkOr(a, b) : mkXor(a, b);
    break;
  }
  case O_ITE: {
    if (c->w != 1)
      break;
    E k = simpUnder(c->a, x, v, d + 1, memo), a = simpUnder(c->b, x, v, d + 1, memo),
      b = simpUnder(c->c, x, v, d + 1, memo);
    r = mkIte(k, a, b);
    break;
  }
  default:
    break;
  }
  memo[c] = r;
  return r;
}
static E valUnder(E e, E x, uint64_t v) {
  std::unordered_map<E, E> memo;
  if (e->w == 1 && e->op != O_ITE)
    return simpUnder(e, x, v, 0, memo);
  std::unordered_map<E, E> vm;
  std::function<E(E, int)> go1;
  std::function<E(E, int)> go = [&](E t, int d) -> E {
    if (t->op != O_ITE || d > 60)
      return t;
    auto it = vm.find(t);
    if (it != vm.end())
      return it->second;
    return vm[t] = go1(t, d);
  };
  go1 = [&](E t, int d) -> E {
    E k = simpUnder(t->a, x, v, 0, memo);
    if (isTrue(k))
      return go(t->b, d + 1);
    if (isFalse(k))
      return go(t->c, d + 1);
    E a = go(t->b, d + 1), b = go(t->c, d + 1);
    return k == t->a && a == t->b && b == t->c ? t : mkIte(k, a, b);
  };
  return go(e, 0);
}
static E muxBuild(const std::vector<E> &r, E x, int64_t vlo, bool sgn) {
  if (sgn) {
    E acc = nullptr;
    for (size_t i = 0; i < r.size(); i++)
      if (r[i])
        acc = acc ? mkIte(mkEq(x, constOf(x, vlo + i)), r[i], acc) : r[i];
    return acc;
  }
  uint64_t lo = vlo, hi = vlo + r.size() - 1;
  unsigned bits = hi ? 64 - __builtin_clzll(hi) : 0;
  std::function<E(unsigned, uint64_t)> f = [&](unsigned b, uint64_t base) -> E {
    if (base > hi || base + (b >= 64 ? ~0ull : (1ull << b) - 1) < lo)
      return nullptr;
    if (b == 0)
      return r[base - lo];
    E h = f(b - 1, base + (1ull << (b - 1))), l = f(b - 1, base);
    if (!h)
      return l;
    if (!l)
      return h;
    return mkIte(mkExtract(x, b - 1, 1), h, l);
  };
  return f(bits, 0);
}

// ---------------------------------------------------------------- executor
struct FnInfo {
  std::unordered_map<const Value *, int> slot;
  int nslots = 0;
  std::vector<const BasicBlock *> order;
  std::unordered_map<const BasicBlock *, int> idx;
  std::vector<std::vector<int>> livein;
  std::vector<bool> header;
};
static std::unordered_map<const Function *, std::unique_ptr<FnInfo>> fnInfo;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::map<uint64_t, const Function *> fnAt;
static int callDepth = 0;
static uint64_t exitIsAssume = 0;

static void orderRegion(Loop *L, LoopInfo &LI, BasicBlock *entry,
                        std::vector<const BasicBlock *> &out) {
  // nodes: blocks directly in L, or child loops (represented by header)
  auto rep = [&](BasicBlock *b) -> BasicBlock * {
    Loop *l = LI.getLoopFor(b);
    if (l == L)
      return b;
    while (l && l->getParentLoop() != L)
      l = l->getParentLoop();
    return l ? l->getHeader() : nullptr;
  };
  auto inside = [&](BasicBlock *b) { return !L || L->contains(b); };
  std::unordered_set<BasicBlock *> seen;
  std::vector<BasicBlock *> post;
  std::function<void(BasicBlock *)> dfs = [&](BasicBlock *r) {
    if (!seen.insert(r).second)
      return;
    Loop *l = LI.getLoopFor(r);
    std::vector<BasicBlock *> succ;
    if (l == L) {
      for (auto *s : successors(r))
        succ.push_back(s);
    } else {
      while (l->getParentLoop() != L)
        l = l->getParentLoop();
      SmallVector<BasicBlock *, 8> ex;
      l->getExitBlocks(ex);
      for (auto *s : ex)
        succ.push_back(s);
    }
    for (auto *s : succ) {
      if (!inside(s))
        continue;
      if (L && s == L->getHeader())
        continue;
      BasicBlock *q = rep(s);
      if (q)
        dfs(q);
    }
    post.push_back(r);
  };
  dfs(entry);
  for (auto it = post.rbegin(); it != post.rend(); ++it) {
    Loop *l = LI.getLoopFor(*it);
    if (l == L)
      out.push_back(*it);
    else {
      while (l->getParentLoop() != L)
        l = l->getParentLoop();
      orderRegion(l, LI, l->getHeader(), out);
    }
  }
}

static FnInfo &info(const Function *F) {
  auto &p = fnInfo[F];
  if (p)
    return *p;
  p.reset(new FnInfo);
  FnInfo &I = *p;
  for (auto &a : F->args())
    I.slot[&a] = I.nslots++;
  for (auto &bb : *F)
    for (auto &i : bb)
      if (!i.getType()->isVoidTy())
        I.slot[&i] = I.nslots++;
  DominatorTree DT(*const_cast<Function *>(F));
  LoopInfo LI(DT);
  std::vector<const BasicBlock *> ord;
  orderRegion(nullptr, LI, const_cast<BasicBlock *>(&F->getEntryBlock()), ord);
  for (auto *b : ord)
    if (!I.idx.count(b)) {
      I.idx[b] = I.order.size();
      I.order.push_back(b);
    }
  // reachable blocks missed (irreducible corner cases)
  for (auto &b : *F)
    if (!I.idx.count(&b) && DT.isReachableFromEntry(&b)) {
      I.idx[&b] = I.order.size();
      I.order.push_back(&b);
    }
  int nb = I.order.size();
  I.header.assign(nb, false);
  for (int i = 0; i < nb; i++)
    I.header[i] = LI.isLoopHeader(I.order[i]);
  // liveness
  std::vector<std::vector<bool>> in(nb, std::vector<bool>(I.nslots, false)),
      use(nb, std::vector<bool>(I.nslots, false)),
      def(nb, std::vector<bool>(I.nslots, false));
  std::vector<std::vector<std::pair<int, int>>> phiUse(nb); // pred -> slot
  for (int b = 0; b < nb; b++) {
    for (auto &i : *I.order[b]) {
      if (auto *ph = dyn_cast<PHINode>(&i)) {
        def[b][I.slot[&i]] = true;
        for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) {
          auto it = I.slot.find(ph->getIncomingValue(k));
          auto pb = I.idx.find(ph->getIncomingBlock(k));
          if (it != I.slot.end() && pb != I.idx.end())
            phiUse[pb->second].push_back({b, it->second});
        }
        continue;
      }
      for (auto &op : i.operands()) {
        auto it = I.slot.find(op.get());
        if (it != I.slot.end() && !def[b][it->second])
          use[b][it->second] = true;
      }
      auto it = I.slot.find(&i);
      if (it != I.slot.end())
        def[b][it->second] = true;
    }
  }
  bool ch = true;
  while (ch) {
    ch = false;
    for (int b = nb - 1; b >= 0; b--) {
      std::vector<bool> o(I.nslots, false);
      for (auto *s : successors(I.order[b])) {
        int si = I.idx[s];
        for (int k = 0; k < I.nslots; k++)
          if (in[si][k])
            o[k] = true;
      }
      for (auto &pu : phiUse[b])
        o[pu.second] = true;
      for (int k = 0; k < I.nslots; k++) {
        bool v = use[b][k] || (o[k] && !def[b][k]);
        if (v && !in[b][k]) {
          in[b][k] = true;
          ch = true;
        }
      }
    }
  }
  I.livein.resize(nb);
  for (int b = 0; b < nb; b++) {
    for (int k = 0; k < I.nslots; k++)
      if (in[b][k])
        I.livein[b].push_back(k);
    for (auto &i : *I.order[b])
      if (isa<PHINode>(&i))
        I.livein[b].push_back(I.slot[&i]);
  }
  return I;
}

static unsigned bitsOf(Type *t) {
  if (t->isPointerTy())
    return 64;
  return t->getPrimitiveSizeInBits();
}
static RV zeroOf(Type *t);
static RV constVal(const Constant *c);
static E constE(const Constant *c) {
  RV r = constVal(c);
  if (!r.e)
    fatal("aggregate constant where scalar expected");
  return r.e;
}
static E mkAP(const APInt &v) {
  unsigned w = v.getBitWidth();
  if (w <= 64)
    return mkConst(w, v.getZExtValue());
  E r = nullptr;
  for (unsigned i = 0; i < w; i += 64) {
    unsigned k = std::min(64u, w - i);
    E p = mkConst(k, v.extractBits(k, i).getZExtValue());
    r = r ? mkConcat(p, r) : p;
  }
  return r;
}
static uint64_t addrOf(const GlobalValue *g) {
  auto it = gaddr.find(g);
  if (it != gaddr.end())
    return it->second;
  if (auto *a = dyn_cast<GlobalAlias>(g)) {
    E e = constE(a->getAliasee());
    return e->v;
  }
  fatal("no address for " + g->getName().str());
}
static E gepConst(const GEPOperator *g, const std::function<E(const Value *)> &val) {
  E p = val(g->getPointerOperand());
  for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    Value *idx = it.getOperand();
    if (StructType *st = it.getStructTypeOrNull()) {
      uint64_t f = cast<ConstantInt>(idx)->getZExtValue();
      p = mkAdd(p, mkConst(64, DL->getStructLayout(st)->getElementOffset(f)));
    } else {
      E i = val(idx);
      if (i->w < 64)
        i = mkSExt(i, 64);
      else if (i->w > 64)
        i = mkExtract(i, 0, 64);
      uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
      p = mkAdd(p, mkMul(i, mkConst(64, sz)));
    }
  }
  return p;
}
static RV constVal(const Constant *c) {
  RV r;
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    r.e = mkAP(ci->getValue());
    return r;
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    r.e = mkAP(cf->getValueAPF().bitcastToAPInt());
    return r;
  }
  if (isa<ConstantPointerNull>(c)) {
    r.e = mkConst(64, 0);
    return r;
  }
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c))
    return zeroOf(t);
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    r.e = mkConst(64, addrOf(gv));
    return r;
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    r.agg = std::make_shared<std::vector<RV>>();
    for (unsigned i = 0; i < ca->getNumOperands(); i++)
      r.agg->push_back(constVal(ca->getOperand(i)));
    return r;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    r.agg = std::make_shared<std::vector<RV>>();
    for (unsigned i = 0; i < cd->getNumElements(); i++)
      r.agg->push_back(constVal(cd->getElementAsConstant(i)));
    return r;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    auto v = [](const Value *x) { return constE(cast<Constant>(x)); };
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr:
      r.e = gepConst(cast<GEPOperator>(ce), v);
      return r;
    case Instruction::BitCast:
    case Instruction::AddrSpaceCast:
      return constVal(ce->getOperand(0));
    case Instruction::PtrToInt:
    case Instruction::IntToPtr: {
      E e = v(ce->getOperand(0));
      unsigned w = bitsOf(t);
      r.e = e->w > w ? mkExtract(e, 0, w) : mkZExt(e, w);
      return r;
    }
    case Instruction::Trunc:
      r.e = mkExtract(v(ce->getOperand(0)), 0, bitsOf(t));
      return r;
    case Instruction::ZExt:
      r.e = mkZExt(v(ce->getOperand(0)), bitsOf(t));
      return r;
    case Instruction::Add:
      r.e = mkAdd(v(ce->getOperand(0)), v(ce->getOperand(1)));
      return r;
    case Instruction::Sub:
      r.e = mkSub(v(ce->getOperand(0)), v(ce->getOperand(1)));
      return r;
    case Instruction::Mul:
      r.e = mkMul(v(ce->getOperand(0)), v(ce->getOperand(1)));
      return r;
    default:
      fatal(std::string("constant expression ") + ce->getOpcodeName());
    }
  }
  std::string s;
  raw_string_ostream os(s);
  c->print(os);
  fatal("constant " + s);
}
static RV zeroOf(Type *t) {
  RV r;
  if (auto *st = dyn_cast<StructType>(t)) {
    r.agg = std::make_shared<std::vector<RV>>();
    for (auto *e : st->elements())
      r.agg->push_back(zeroOf(e));
  } else if (auto *at = dyn_cast<ArrayType>(t)) {
    r.agg = std::make_shared<std::vector<RV>>();
    for (uint64_t i = 0; i < at->getNumElements(); i++)
      r.agg->push_back(zeroOf(at->getElementType()));
  } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    r.agg = std::make_shared<std::vector<RV>>();
    for (uint64_t i = 0; i < vt->getNumElements(); i++)
      r.agg->push_back(zeroOf(vt->getElementType()));
  } else
    r.e = mkConst(bitsOf(t), 0);
  return r;
}

static void writeInit(State &s, uint64_t addr, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c))
    return; // object default content is zero
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef raw = cd->getRawDataValues();
    for (size_t i = 0; i < raw.size(); i++)
      if (raw[i])
        s.mem.set(addr + i, mkConst(8, (uint8_t)raw[i]), 0);
    return;
  }
  if (auto *st = dyn_cast<StructType>(t)) {
    for (unsigned i = 0; i < st->getNumElements(); i++)
      writeInit(s, addr + DL->getStructLayout(st)->getElementOffset(i),
                cast<ConstantAggregate>(c)->getOperand(i));
    return;
  }
  if (t->isArrayTy() || t->isVectorTy()) {
    Type *et = t->isArrayTy() ? t->getArrayElementType()
                              : cast<FixedVectorType>(t)->getElementType();
    for (unsigned i = 0; i < cast<ConstantAggregate>(c)->getNumOperands(); i++)
      writeInit(s, addr + i * DL->getTypeAllocSize(et),
                cast<ConstantAggregate>(c)->getOperand(i));
    return;
  }
  E e = constE(c);
  if (isConst(e) && e->v == 0)
    return;
  writeBytes(s, addr, e, DL->getTypeStoreSize(t));
}

struct Exec {
  uint64_t freshCtr = 0;

  E fresh(const std::string &tag, unsigned w) {
    E v = mkVar("fresh!" + tag + "!" + std::to_string(freshCtr++), w);
    undefVars.insert(v->v);
    return v;
  }

  // ---- loads and stores -------------------------------------------------
  RT resolve(State &s, E p, unsigned n, const Instruction *at) {
    Resolver R{s, n, at};
    RT t = R.go(p, s.pc, mkTrue());
    if (optPtrCheck && R.leaves > optPtrCheck) {
      std::set<uint64_t> vs = possible(s, p);
      if (!vs.empty() && vs.size() < R.leaves) {
        R.err.clear();
        R.leaves = 0;
        t = R.chain(p, vs, s.pc, mkTrue());
      }
    }
    if (!R.err.empty()) {
      std::string in;
      raw_string_ostream os(in);
      if (at)
        at->print(os);
      if (optVerbose)
        fprintf(stderr, "unresolved: %s in %s: %s\n", R.err.c_str(),
                at ? where(at).c_str() : "?", in.c_str());
      oblig(s, "unsupported", R.err + " in " + (at ? where(at) : "?") + in,
            mkTrue());
      return badT();
    }
    E bad = mkFalse();
    collectBad(t.get(), mkTrue(), bad);
    bad = foldPC(s.pc, bad);
    if (!isFalse(bad)) {
      std::string in;
      raw_string_ostream os(in);
      if (at && optVerbose)
        at->print(os);
      oblig(s, "oob",
            std::string("memory access out of bounds in ") +
                (at ? where(at) : "?") + in,
            bad);
    }
    return t;
  }
  E arrIdx(State &s, RTree *t, unsigned n, const Instruction *at, unsigned &sub) {
    unsigned el = t->obj->elem;
    unsigned lg = __builtin_ctz(el);
    E off = t->off;
    sub = 0;
    if (n > el)
      fatal("array access wider than element in " + where(at));
    if (lg) {
      E low = mkExtract(off, 0, lg);
      if (!isConst(low))
        fatal("array access with symbolic sub-element offset in " + where(at));
      sub = low->v;
    }
    E idx = mkExtract(off, lg, 64 - lg);
    uint64_t cnt = t->obj->size / el;
    oblig(s, "oob", "array access out of bounds in " + where(at),
          mkNot(mkUlt(idx, mkConst(64 - lg, cnt))));
    return mkExtract(idx, 0, std::min(32u, 64 - lg));
  }
  E readTree(State &s, RTree *t, unsigned n, const Instruction *at) {
    switch (t->k) {
    case RTree::LEAF:
      return readBytes(s, t->addr, n);
    case RTree::BAD:
      return nullptr;
    case RTree::ARR: {
      unsigned sub;
      E i = arrIdx(s, t, n, at, sub);
      E v = arrRead(s.arrs[t->obj->arr], i);
      return mkExtract(v, sub * 8, n * 8);
    }
    case RTree::ITE: {
      E a = readTree(s, t->ch[0].get(), n, at),
        b = readTree(s, t->ch[1].get(), n, at);
      if (!a)
        return b;
      if (!b)
        return a;
      return mkIte(t->c, a, b);
    }
    case RTree::MUX: {
      std::vector<E> r;
      for (size_t i = 0; i < t->ch.size(); i++) {
        E v = t->ch[i] ? readTree(s, t->ch[i].get(), n, at) : nullptr;
        if (v)
          v = valUnder(v, t->c, (uint64_t)(t->vlo + i) & maskw(t->c->w));
        r.push_back(v);
      }
      return muxBuild(r, t->c, t->vlo, t->sgn);
    }
    }
    return nullptr;
  }
  E load(State &s, E p, unsigned n, const Instruction *at) {
    RT t = resolve(s, p, n, at);
    E r = readTree(s, t.get(), n, at);
    return r ? r : fresh("badload", n * 8);
  }
  void writeTree(State &s, RTree *t, E cond, E v, unsigned n,
                 const Instruction *at) {
    if (isFalse(cond))
      return;
    switch (t->k) {
    case RTree::LEAF:
      if (isTrue(cond))
        writeBytes(s, t->addr, v, n);
      else {
        E o = readBytes(s, t->addr, n);
        E nv = mkIte(cond, v, o);
        if (nv != o)
          writeBytes(s, t->addr, nv, n);
      }
      break;
    case RTree::BAD:
      break;
    case RTree::ARR: {
      unsigned sub;
      E i = arrIdx(s, t, n, at, sub);
      int id = t->obj->arr;
      unsigned el = t->obj->elem;
      const Arr *a = s.arrs[id];
      E nv = v;
      if (n < el) {
        E o = arrRead(a, i);
        E r = nullptr;
        if (sub)
          r = mkExtract(o, 0, sub * 8);
        r = r ? mkConcat(v, r) : v;
        if (sub + n < el)
          r = mkConcat(mkExtract(o, (sub + n) * 8, (el - sub - n) * 8), r);
        nv = r;
      }
      const Arr *st = new Arr{Arr::STORE, 0, i, nv, nullptr, a, nullptr};
      s.arrs[id] = isTrue(cond) ? st
                                : new Arr{Arr::ITE, 0, nullptr, nullptr,
                                          cond, st, a};
      break;
    }
    case RTree::ITE:
      writeTree(s, t->ch[0].get(), mkAnd(cond, t->c), v, n, at);
      writeTree(s, t->ch[1].get(), mkAnd(cond, mkNot(t->c)), v, n, at);
      break;
    case RTree::MUX:
      for (size_t i = 0; i < t->ch.size(); i++)
        if (t->ch[i]) {
          E c = foldPC(s.pc, mkEq(t->c, constOf(t->c, t->vlo + i)));
          writeTree(s, t->ch[i].get(), mkAnd(cond, c), v, n, at);
        }
      break;
    }
  }
  void store(State &s, E p, E v, unsigned n, const Instruction *at) {
    if (isConst(p)) {
      Obj *o = findObj(p->v);
      if (o && o->arr < 0 && p->v + n <= o->start + o->size) {
        writeBytes(s, p->v, v, n);
        return;
      }
    }
    RT t = resolve(s, p, n, at);
    writeTree(s, t.get(), mkTrue(), v, n, at);
  }
  RV loadT(State &s, E p, Type *t, const Instruction *at) {
    RV r;
    if (auto *st = dyn_cast<StructType>(t)) {
      r.agg = std::make_shared<std::vector<RV>>();
      for (unsigned i = 0; i < st->getNumElements(); i++)
        r.agg->push_back(loadT(
            s, mkAdd(p, mkConst(64, DL->getStructLayout(st)->getElementOffset(i))),
            st->getElementType(i), at));
      return r;
    }
    if (t->isArrayTy() || t->isVectorTy()) {
      Type *et = t->isArrayTy() ? t->getArrayElementType()
                                : cast<FixedVectorType>(t)->getElementType();
      uint64_t n = t->isArrayTy() ? t->getArrayNumElements()
                                  : cast<FixedVectorType>(t)->getNumElements();
      r.agg = std::make_shared<std::vector<RV>>();
      if (t->isVectorTy() && bitsOf(et) % 8) {
        unsigned tot = (n * bitsOf(et) + 7) / 8;
        E e = load(s, p, tot, at);
        for (uint64_t i = 0; i < n; i++) {
          RV x;
          x.e = mkExtract(e, i * bitsOf(et), bitsOf(et));
          r.agg->push_back(x);
        }
        return r;
      }
      for (uint64_t i = 0; i < n; i++)
        r.agg->push_back(loadT(
            s, mkAdd(p, mkConst(64, i * DL->getTypeAllocSize(et))), et, at));
      return r;
    }
    unsigned w = bitsOf(t);
    unsigned n = DL->getTypeStoreSize(t);
    E e = load(s, p, n, at);
    r.e = e->w > w ? mkExtract(e, 0, w) : e;
    return r;
  }
  void storeT(State &s, E p, const RV &v, Type *t, const Instruction *at) {
    if (auto *st = dyn_cast<StructType>(t)) {
      for (unsigned i = 0; i < st->getNumElements(); i++)
        storeT(s, mkAdd(p, mkConst(64, DL->getStructLayout(st)->getElementOffset(i))),
               (*v.agg)[i], st->getElementType(i), at);
      return;
    }
    if (t->isArrayTy() || t->isVectorTy()) {
      Type *et = t->isArrayTy() ? t->getArrayElementType()
                                : cast<FixedVectorType>(t)->getElementType();
      if (t->isVectorTy() && bitsOf(et) % 8) {
        E r = nullptr;
        for (auto &x : *v.agg)
          r = r ? mkConcat(x.e, r) : x.e;
        unsigned n = (r->w + 7) / 8;
        store(s, p, mkZExt(r, n * 8), n, at);
        return;
      }
      for (size_t i = 0; i < v.agg->size(); i++)
        storeT(s, mkAdd(p, mkConst(64, i * DL->getTypeAllocSize(et))),
               (*v.agg)[i], et, at);
      return;
    }
    unsigned n = DL->getTypeStoreSize(t);
    store(s, p, mkZExt(v.e, n * 8), n, at);
  }

  // ---- block copies -----------------------------------------------------
  void leavesOf(RTree *t, std::vector<uint64_t> &out) {
    if (!t)
      return;
    if (t->k == RTree::LEAF)
      out.push_back(t->addr);
    for (auto &c : t->ch)
      leavesOf(c.get(), out);
  }
  void copyMem(State &s, E d, E src, uint64_t n, const Instruction *at) {
    if (n == 0)
      return;
    RT ts = resolve(s, src, n, at), td = resolve(s, d, n, at);
    if (ts->k == RTree::LEAF && td->k == RTree::LEAF) {
      std::vector<Cell> tmp(n);
      Obj *so = findObj(ts->addr), *dob = findObj(td->addr);
      bool sz = so && so->init == Obj::ZERO;
      for (uint64_t i = 0; i < n; i++) {
        Cell c = s.mem.get(ts->addr + i);
        if (!c.e) {
          if (sz && dob && dob->init == Obj::ZERO)
            c = {mkConst(8, 0), 0};
          else
            c = initialCell(ts->addr + i, &s.mem);
        }
        tmp[i] = c;
      }
      for (uint64_t i = 0; i < n; i++)
        s.mem.set(td->addr + i, tmp[i].e, tmp[i].k);
      return;
    }
    if (ts->k == RTree::ARR || td->k == RTree::ARR) {
      Obj *o = ts->k == RTree::ARR ? ts->obj : td->obj;
      unsigned el = o->elem;
      if (n % el)
        fatal("array copy not a multiple of the element in " + where(at));
      std::vector<E> vals;
      for (uint64_t i = 0; i < n; i += el)
        vals.push_back(load(s, mkAdd(src, mkConst(64, i)), el, at));
      for (uint64_t i = 0; i < n; i += el)
        store(s, mkAdd(d, mkConst(64, i)), vals[i / el], el, at);
      return;
    }
    std::vector<uint64_t> ls, ld;
    leavesOf(ts.get(), ls);
    leavesOf(td.get(), ld);
    // chunk boundaries common to all sources and destinations
    std::vector<uint64_t> all = ls;
    std::vector<std::vector<Cell>> cells;
    for (uint64_t a : ls) {
      std::vector<Cell> c(n);
      for (uint64_t i = 0; i < n; i++)
        c[i] = resolveCell(s.mem.get(a + i), a + i);
      cells.push_back(std::move(c));
    }
    if (td->k != RTree::LEAF)
      for (uint64_t a : ld) {
        std::vector<Cell> c(n);
        for (uint64_t i = 0; i < n; i++)
          c[i] = resolveCell(s.mem.get(a + i), a + i);
        cells.push_back(std::move(c));
      }
    std::vector<std::pair<uint64_t, unsigned>> chunks;
    for (uint64_t i = 0; i < n;) {
      int len = std::min<uint64_t>(8, n - i);
      for (auto &c : cells)
        len = std::min(len, runLen(c.data(), i, n));
      chunks.push_back({i, (unsigned)len});
      i += len;
    }
    std::vector<E> vals;
    for (auto &ch : chunks) {
      E p = addTree(ts.get(), ch.first) ? readOff(s, ts.get(), ch.first, ch.second)
                                        : nullptr;
      vals.push_back(p ? p : fresh("badcopy", ch.second * 8));
    }
    for (size_t k = 0; k < chunks.size(); k++)
      writeOff(s, td.get(), mkTrue(), chunks[k].first, vals[k],
               chunks[k].second);
  }
  bool addTree(RTree *, uint64_t) { return true; }
  E readOff(State &s, RTree *t, uint64_t off, unsigned n) {
    switch (t->k) {
    case RTree::LEAF:
      return readBytes(s, t->addr + off, n);
    case RTree::ITE: {
      E a = readOff(s, t->ch[0].get(), off, n),
        b = readOff(s, t->ch[1].get(), off, n);
      return !a ? b : !b ? a : mkIte(t->c, a, b);
    }
    case RTree::MUX: {
      std::vector<E> r;
      for (size_t i = 0; i < t->ch.size(); i++) {
        E v = t->ch[i] ? readOff(s, t->ch[i].get(), off, n) : nullptr;
        if (v)
          v = valUnder(v, t->c, (uint64_t)(t->vlo + i) & maskw(t->c->w));
        r.push_back(v);
      }
      return muxBuild(r, t->c, t->vlo, t->sgn);
    }
    default:
      return nullptr;
    }
  }
  void writeOff(State &s, RTree *t, E cond, uint64_t off, E v, unsigned n) {
    if (isFalse(cond))
      return;
    switch (t->k) {
    case RTree::LEAF:
      if (isTrue(cond))
        writeBytes(s, t->addr + off, v, n);
      else {
        E o = readBytes(s, t->addr + off, n);
        E nv = mkIte(cond, v, o);
        if (nv != o)
          writeBytes(s, t->addr + off, nv, n);
      }
      break;
    case RTree::ITE:
      writeOff(s, t->ch[0].get(), mkAnd(cond, t->c), off, v, n);
      writeOff(s, t->ch[1].get(), mkAnd(cond, mkNot(t->c)), off, v, n);
      break;
    case RTree::MUX:
      for (size_t i = 0; i < t->ch.size(); i++)
        if (t->ch[i]) {
          E c = foldPC(s.pc, mkEq(t->c, constOf(t->c, t->vlo + i)));
          writeOff(s, t->ch[i].get(), mkAnd(cond, c), off, v, n);
        }
      break;
    default:
      break;
    }
  }
  void setMem(State &s, E d, E byte, uint64_t n, const Instruction *at) {
    if (n == 0)
      return;
    RT td = resolve(s, d, n, at);
    if (td->k == RTree::LEAF) {
      Obj *o = findObj(td->addr);
      if (isConst(byte) && byte->v == 0 && o && o->init == Obj::ZERO &&
          n >= 64) {
        s.mem.clear(td->addr, n);
        return;
      }
      for (uint64_t i = 0; i < n; i++)
        s.mem.set(td->addr + i, byte, 0);
      return;
    }
    for (uint64_t i = 0; i < n; i++)
      writeOff(s, td.get(), mkTrue(), i, byte, 1);
  }
  // the values n can take; empty when there are too many or it is not known
  std::set<uint64_t> possible(State &s, E n) {
    std::set<uint64_t> vals;
    if (n->constite && n->nleaf <= 4096) {
      std::set<E> seen;
      std::vector<E> st = {n};
      while (!st.empty()) {
        E e = st.back();
        st.pop_back();
        if (isConst(e))
          vals.insert(e->v);
        else if (seen.insert(e).second) {
          st.push_back(e->b);
          st.push_back(e->c);
        }
      }
    } else {
      uint64_t unk = maskw(n->w) & ~n->k0 & ~n->k1;
      if (n->w <= 64 && __builtin_popcountll(unk) <= 7)
        for (uint64_t x = unk;; x = (x - 1) & unk) {
          vals.insert(n->k1 | x);
          if (!x)
            break;
        }
    }
    if (vals.empty() || vals.size() > 130) {
      // ask the solver for the possible lengths
      vals.clear();
      std::vector<E> q = assumptions;
      q.push_back(pcConj(s.pc));
      while (vals.size() <= 130) {
        feasQueries++;
        auto r = solveQuery(q, 20, "z3,kissat");
        feasSecs += r.secs;
        if (r.v == V_UNSAT)
          break;
        if (r.v != V_SAT) {
          vals.clear();
          break;
        }
        Evaluator ev;
        ev.val = r.model;
        uint64_t v = ev.eval(n);
        vals.insert(v);
        q.push_back(mkNot(mkEq(n, constOf(n, v))));
      }
    }
    if (vals.size() > 130)
      vals.clear();
    return vals;
  }
  // block operation whose length is one of a few values: one case per value
  void withLen(State &s, E n, const Instruction *at,
               const std::function<void(State &, uint64_t)> &fn) {
    n = foldVal(s, n);
    if (isConst(n)) {
      fn(s, n->v);
      return;
    }
    std::set<uint64_t> vals = possible(s, n);
    if (vals.empty()) {
      oblig(s, "unsupported", "symbolic length block operation in " + where(at),
            mkTrue());
      return;
    }
    std::vector<Pending> w;
    for (uint64_t v : vals) {
      E c = foldPC(s.pc, mkEq(n, constOf(n, v)));
      if (isFalse(c))
        continue;
      Pending p;
      p.s = s;
      p.s.pc = pushLit(s.pc, c, false);
      if (!feasible(p.s))
        continue;
      fn(p.s, v);
      if (!p.s.dead)
        w.push_back(std::move(p));
    }
    if (w.empty()) {
      s.dead = true;
      return;
    }
    mergeAll(w, nullptr);
    s = std::move(w[0].s);
  }
  uint64_t constLen(State &s, E n, const Instruction *at) {
    n = foldVal(s, n);
    if (!isConst(n)) {
      oblig(s, "unsupported", "symbolic length block operation in " + where(at),
            mkTrue());
      return 0;
    }
    return n->v;
  }
  E foldVal(State &s, E e) {
    while (e->op == O_ITE) {
      int k = litKnown(s.pc, e->a);
      if (k < 0)
        break;
      e = k ? e->b : e->c;
    }
    return e;
  }

  std::string cstr(State &s, E p) {
    p = foldVal(s, p);
    if (!isConst(p))
      return "?";
    std::string r;
    for (uint64_t a = p->v; r.size() < 4096; a++) {
      if (!findObj(a))
        break;
      E b = readBytes(s, a, 1);
      if (!isConst(b) || b->v == 0)
        break;
      r += (char)b->v;
    }
    return r;
  }

  // ---- calls ------------------------------------------------------------
  void kill(State &s) { s.dead = true; }

  RV callFunction(State &s, const Function *F, const std::vector<RV> &args,
                  const Instruction *at) {
    RV r;
    if (F->isDeclaration() || intercept(F->getName()))
      return external(s, F, args, at);
    if (++callDepth > 400) {
      oblig(s, "unsupported", "recursion too deep in " + where(at), mkTrue());
      kill(s);
      callDepth--;
      return r;
    }
    r = execFunction(s, F, args);
    callDepth--;
    return r;
  }
  bool intercept(StringRef n) {
    return n.starts_with("sx_") || n == "_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_" ||
           n.starts_with("_ZStlsISt11char_traitsIcEERSt13basic_ostream") ||
           n.starts_with("_ZNSo") ||
           n.starts_with("_ZSt16__ostream_insert");
  }

  RV external(State &s, const Function *F, const std::vector<RV> &args,
              const Instruction *at) {
    StringRef n = F->getName();
    RV r;
    Type *rt = F->getReturnType();
    auto ret0 = [&]() {
      if (!rt->isVoidTy())
        r = zeroOf(rt);
      return r;
    };
    auto A = [&](int i) { return args[i].e; };
    if (n.starts_with("llvm."))
      return intrinsic(s, F, args, at);
    if (n == "sx_var") {
      std::string nm = cstr(s, A(0));
      E idx = foldVal(s, A(1)), w = foldVal(s, A(2));
      if (!isConst(idx) || !isConst(w))
        fatal("sx_var with symbolic index/width in " + where(at));
      r.e = mkZExt(mkVar(nm + "#" + std::to_string(idx->v), w->v), 64);
      return r;
    }
    if (n == "sx_assume") {
      E c = foldPC(s.pc, A(0));
      if (isFalse(c)) {
        addAssumption(s, c);
        kill(s);
        return r;
      }
      addAssumption(s, c);
      s.pc = pushLit(s.pc, c, true);
      return r;
    }
    if (n == "sx_assert") {
      oblig(s, "assert", cstr(s, A(1)), mkNot(A(0)));
      return r;
    }
    if (n == "sx_cover") {
      covers.push_back({cstr(s, A(1)), mkAnd(pcConj(s.pc), A(0)),
                        assumptions.size()});
      return r;
    }
    if (n == "sx_observe") {
      E idx = foldVal(s, A(1));
      if (isConst(idx))
        observes.push_back({cstr(s, A(0)) + "#" + std::to_string(idx->v),
                            pcConj(s.pc), A(2)});
      return r;
    }
    if (n == "sx_symbolic") {
      r.e = mkTrue();
      return r;
    }
    if (n == "sx_bytes") {
      E p = foldVal(s, A(0)), cnt = A(1), el = A(2);
      std::string nm = cstr(s, A(3));
      if (!isConst(p) || !isConst(cnt) || !isConst(el))
        fatal("sx_bytes with symbolic arguments");
      for (uint64_t o = 0; o < cnt->v; o += el->v)
        writeBytes(s, p->v + o,
                   mkVar(nm + "@" + std::to_string(o / el->v), el->v * 8),
                   el->v);
      return r;
    }
    if (n == "sx_uf") {
      std::string nm = cstr(s, A(0));
      int id = getUF(nm, A(2)->v);
      r.e = mkZExt(ufApply(id, A(1)), 64);
      return r;
    }
    if (n == "sx_array") {
      E p = foldVal(s, A(0));
      std::string nm = cstr(s, A(3));
      if (!isConst(p))
        fatal("sx_array with symbolic pointer");
      Obj *o = findObj(p->v);
      if (!o || o->start != p->v)
        fatal("sx_array must name a whole object");
      o->elem = A(2)->v;
      if (o->size < A(1)->v * o->elem)
        fatal("sx_array larger than the object");
      o->arr = getUF(nm, o->elem * 8);
      s.arrs[o->arr] = new Arr{Arr::BASE, o->arr, nullptr, nullptr, nullptr,
                               nullptr, nullptr};
      return r;
    }
    if (n == "malloc" || n == "_Znwm" || n == "_Znam" ||
        n == "_ZnwmSt11align_val_t" || n == "calloc" || n == "aligned_alloc") {
      E sz = n == "calloc" ? mkMul(A(0), A(1)) : n == "aligned_alloc" ? A(1) : A(0);
      sz = foldVal(s, sz);
      if (!isConst(sz)) {
        // bounded symbolic size: allocate the maximum
        if (sz->hi <= (1 << 20))
          sz = mkConst(64, sz->hi);
        else if (std::set<uint64_t> v = possible(s, sz);
                 !v.empty() && *v.rbegin() <= (1 << 20))
          sz = mkConst(64, *v.rbegin());
        else {
          oblig(s, "unsupported", "symbolic allocation size in " + where(at),
                mkTrue());
          kill(s);
          return ret0();
        }
      }
      Obj *o = addObj(heapTop, sz->v, n == "calloc" ? Obj::ZERO : Obj::UNDEF,
                      "heap", 65536);
      r.e = mkConst(64, o->start);
      return r;
    }
    if (n == "free" || n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv"))
      return ret0();
    if (n == "memcpy" || n == "memmove") {
      withLen(s, A(2), at, [&](State &t, uint64_t n) { copyMem(t, A(0), A(1), n, at); });
      r.e = A(0);
      return r;
    }
    if (n == "memset") {
      withLen(s, A(2), at, [&](State &t, uint64_t n) { setMem(t, A(0), mkExtract(A(1), 0, 8), n, at); });
      r.e = A(0);
      return r;
    }
    if (n == "memcmp" || n == "bcmp") {
      uint64_t len = constLen(s, A(2), at);
      E res = mkConst(32, 0);
      for (uint64_t i = len; i-- > 0;) {
        E x = load(s, mkAdd(A(0), mkConst(64, i)), 1, at),
          y = load(s, mkAdd(A(1), mkConst(64, i)), 1, at);
        res = mkIte(mkEq(x, y), res,
                    mkSub(mkZExt(x, 32), mkZExt(y, 32)));
      }
      r.e = res;
      return r;
    }
    if (n == "strlen") {
      r.e = mkConst(64, cstr(s, A(0)).size());
      return r;
    }
    if (n == "getenv") {
      stubsUsed.insert("getenv() returns null");
      r.e = mkConst(64, 0);
      return r;
    }
    if (n == "__cxa_atexit" || n == "printf" || n == "puts" ||
        n == "putchar" || n == "fprintf" || n == "fflush" || n == "fwrite" ||
        n == "fputs" || n == "fputc" || n == "putc" || n == "vprintf" || n == "setvbuf" ||
        n == "snprintf" || n == "__cxa_guard_release" || n == "perror" ||
        n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev" ||
        n == "fclose") {
      return ret0();
    }
    if (n == "__cxa_guard_acquire") {
      r.e = mkConst(32, 1);
      return r;
    }
    if (n.starts_with("_ZNSo") || n.starts_with("_ZStls") ||
        n.starts_with("_ZSt16__ostream_insert") ||
        n.starts_with("_ZSt4endl") || n.starts_with("_ZNSt9basic_ios") ||
        n.starts_with("_ZNSt8ios_base")) {
      stubsUsed.insert("iostream output has no effect");
      if (rt->isPointerTy() && !args.empty()) {
        r.e = A(0);
        return r;
      }
      return ret0();
    }
    if (F->hasFnAttribute(Attribute::NoReturn) || n == "abort" ||
        n == "exit" || n == "_exit" || n == "__assert_fail" ||
        n.starts_with("_ZSt") && n.contains("__throw_") ||
        n == "_ZSt9terminatev" || n == "__cxa_throw" || n == "__cxa_pure_virtual") {
      oblig(s, "crash",
            "call to " + demangle(n.str()) + " in " + (at ? where(at) : "?"),
            mkTrue());
      kill(s);
      return ret0();
    }
    if (n == "_ZNSt6chrono3_V212steady_clock3nowEv" ||
        n == "_ZNSt6chrono3_V212system_clock3nowEv" || n == "clock" ||
        n == "time" || n == "rand") {
      stubsUsed.insert(demangle(n.str()) + " returns an arbitrary value");
      r.e = fresh("time", bitsOf(rt));
      return r;
    }
    if (optVerbose)
      fprintf(stderr, "unmodelled external %s called from %s\n",
              n.str().c_str(), at ? where(at).c_str() : "?");
    oblig(s, "unsupported",
          "call to unmodelled function " + demangle(n.str()) + " from " +
              (at ? where(at) : "?"),
          mkTrue());
    if (!rt->isVoidTy())
      r = freshRV(rt);
    return r;
  }
  RV freshRV(Type *t) {
    RV r = zeroOf(t);
    if (r.e)
      r.e = fresh("ext", r.e->w);
    return r;
  }

  RV mapV(const RV &a, const std::function<E(E)> &f) {
    RV r;
    if (a.agg) {
      r.agg = std::make_shared<std::vector<RV>>();
      for (auto &x : *a.agg)
        r.agg->push_back(mapV(x, f));
    } else
      r.e = f(a.e);
    return r;
  }
  RV mapV2(const RV &a, const RV &b, const std::function<E(E, E)> &f) {
    RV r;
    if (a.agg) {
      r.agg = std::make_shared<std::vector<RV>>();
      for (size_t i = 0; i < a.agg->size(); i++)
        r.agg->push_back(mapV2((*a.agg)[i], (*b.agg)[i], f));
    } else
      r.e = f(a.e, b.e);
    return r;
  }

  static E popcnt(E x) {
    unsigned w = x->w;
    E r = mkConst(w, 0);
    for (unsigned i = 0; i < w; i++)
      r = mkAdd(r, mkZExt(mkExtract(x, i, 1), w));
    return r;
  }
  static E ctlz(E x) {
    unsigned w = x->w;
    E r = mkConst(w, w);
    for (unsigned i = 0; i < w; i++)
      r = mkIte(mkExtract(x, i, 1), mkConst(w, w - 1 - i), r);
    return r;
  }
  static E cttz(E x) {
    unsigned w = x->w;
    E r = mkConst(w, w);
    for (unsigned i = w; i-- > 0;)
      r = mkIte(mkExtract(x, i, 1), mkConst(w, i), r);
    return r;
  }

  RV intrinsic(State &s, const Function *F, const std::vector<RV> &args,
               const Instruction *at) {
    RV r;
    auto A = [&](int i) { return args[i].e; };
    Intrinsic::ID id = F->getIntrinsicID();
    switch (id) {
    case Intrinsic::memcpy:
    case Intrinsic::memmove:
    case Intrinsic::memcpy_inline:
      withLen(s, A(2), at, [&](State &t, uint64_t n) { copyMem(t, A(0), A(1), n, at); });
      return r;
    case Intrinsic::memset:
      withLen(s, A(2), at, [&](State &t, uint64_t n) { setMem(t, A(0), A(1), n, at); });
      return r;
    case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end: {
      E p = A(1);
      if (isConst(p)) {
        Obj *o = findObj(p->v);
        if (o && o->init == Obj::UNDEF && o->start == p->v)
          s.mem.clear(o->start, o->size);
      }
      return r;
    }
    case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value:
    case Intrinsic::dbg_label:
    case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::prefetch:
    case Intrinsic::invariant_start:
    case Intrinsic::invariant_end:
    case Intrinsic::assume:
    case Intrinsic::stackrestore:
    case Intrinsic::var_annotation:
      if (id == Intrinsic::invariant_start)
        r.e = mkConst(64, 0);
      return r;
    case Intrinsic::stacksave:
      r.e = mkConst(64, 0);
      return r;
    case Intrinsic::expect:
      r.e = A(0);
      return r;
    case Intrinsic::is_constant:
      r.e = mkFalse();
      return r;
    case Intrinsic::objectsize:
      r.e = mkConst(64, ~0ull);
      return r;
    case Intrinsic::trap:
    case Intrinsic::ubsantrap:
      oblig(s, "crash", "trap in " + where(at), mkTrue());
      kill(s);
      return r;
    case Intrinsic::umin:
      return mapV2(args[0], args[1],
                   [](E a, E b) { return mkIte(mkUlt(a, b), a, b); });
    case Intrinsic::umax:
      return mapV2(args[0], args[1],
                   [](E a, E b) { return mkIte(mkUlt(a, b), b, a); });
    case Intrinsic::smin:
      return mapV2(args[0], args[1],
                   [](E a, E b) { return mkIte(mkSlt(a, b), a, b); });
    case Intrinsic::smax:
      return mapV2(args[0], args[1],
                   [](E a, E b) { return mkIte(mkSlt(a, b), b, a); });
    case Intrinsic::abs:
      return mapV(args[0], [](E a) {
        return mkIte(mkExtract(a, a->w - 1, 1), mkNeg(a), a);
      });
    case Intrinsic::usub_sat:
      return mapV2(args[0], args[1], [](E a, E b) {
        return mkIte(mkUlt(a, b), mkConst(a->w, 0), mkSub(a, b));
      });
    case Intrinsic::uadd_sat:
      return mapV2(args[0], args[1], [](E a, E b) {
        E t = mkAdd(a, b);
        return mkIte(mkUlt(t, a), mkConst(a->w, ~0ull), t);
      });
    case Intrinsic::ctpop:
      return mapV(args[0], [](E a) { return popcnt(a); });
    case Intrinsic::ctlz:
      return mapV(args[0], [](E a) { return ctlz(a); });
    case Intrinsic::cttz:
      return mapV(args[0], [](E a) { return cttz(a); });
    case Intrinsic::bswap:
      return mapV(args[0], [](E a) {
        E x = nullptr;
        for (unsigned i = 0; i < a->w; i += 8) {
          E b = mkExtract(a, a->w - 8 - i, 8);
          x = x ? mkConcat(b, x) : b;
        }
        return x;
      });
    case Intrinsic::bitreverse:
      return mapV(args[0], [](E a) {
        E x = nullptr;
        for (unsigned i = 0; i < a->w; i++) {
          E b = mkExtract(a, a->w - 1 - i, 1);
          x = x ? mkConcat(b, x) : b;
        }
        return x;
      });
    case Intrinsic::fshl:
    case Intrinsic::fshr: {
      bool left = id == Intrinsic::fshl;
      auto f = [&](E a, E b, E c) {
        unsigned w = a->w;
        E sh = mkURem(c, mkConst(w, w));
        if (left) {
          if (isConst(sh))
            return sh->v == 0 ? a
                              : mkConcat(mkExtract(a, 0, w - sh->v),
                                         mkExtract(b, w - sh->v, sh->v));
          return mkOr(mkShl(a, sh),
                      mkLShr(mkLShr(b, mkConst(w, 1)),
                             mkSub(mkConst(w, w - 1), sh)));
        }
        if (isConst(sh))
          return sh->v == 0 ? b
                            : mkConcat(mkExtract(a, 0, sh->v),
                                       mkExtract(b, sh->v, w - sh->v));
        return mkOr(mkLShr(b, sh), mkShl(mkShl(a, mkConst(w, 1)),
                                         mkSub(mkConst(w, w - 1), sh)));
      };
      if (args[0].agg) {
        r.agg = std::make_shared<std::vector<RV>>();
        for (size_t i = 0; i < args[0].agg->size(); i++) {
          RV x;
          x.e = f((*args[0].agg)[i].e, (*args[1].agg)[i].e,
                  (*args[2].agg)[i].e);
          r.agg->push_back(x);
        }
      } else
        r.e = f(A(0), A(1), A(2));
      return r;
    }
    case Intrinsic::uadd_with_overflow:
    case Intrinsic::usub_with_overflow:
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::ssub_with_overflow:
    case Intrinsic::umul_with_overflow:
    case Intrinsic::smul_with_overflow: {
      E a = A(0), b = A(1);
      unsigned w = a->w;
      E v, o;
      if (id == Intrinsic::uadd_with_overflow) {
        v = mkAdd(a, b);
        o = mkUlt(v, a);
      } else if (id == Intrinsic::usub_with_overflow) {
        v = mkSub(a, b);
        o = mkUlt(a, b);
      } else if (id == Intrinsic::sadd_with_overflow) {
        v = mkAdd(a, b);
        E x = mkAdd(mkSExt(a, w + 1), mkSExt(b, w + 1));
        o = mkNe(x, mkSExt(v, w + 1));
      } else if (id == Intrinsic::ssub_with_overflow) {
        v = mkSub(a, b);
        E x = mkSub(mkSExt(a, w + 1), mkSExt(b, w + 1));
        o = mkNe(x, mkSExt(v, w + 1));
      } else {
        bool sg = id == Intrinsic::smul_with_overflow;
        v = mkMul(a, b);
        E x = sg ? mkMul(mkSExt(a, 2 * w), mkSExt(b, 2 * w))
                 : mkMul(mkZExt(a, 2 * w), mkZExt(b, 2 * w));
        o = mkNe(x, sg ? mkSExt(v, 2 * w) : mkZExt(v, 2 * w));
      }
      r.agg = std::make_shared<std::vector<RV>>(2);
      (*r.agg)[0].e = v;
      (*r.agg)[1].e = o;
      return r;
    }
    case Intrinsic::vector_reduce_add:
    case Intrinsic::vector_reduce_or:
    case Intrinsic::vector_reduce_and:
    case Intrinsic::vector_reduce_xor:
    case Intrinsic::vector_reduce_umax:
    case Intrinsic::vector_reduce_umin: {
      E acc = nullptr;
      for (auto &x : *args[0].agg) {
        if (!acc)
          acc = x.e;
        else if (id == Intrinsic::vector_reduce_add)
          acc = mkAdd(acc, x.e);
        else if (id == Intrinsic::vector_reduce_or)
          acc = mkOr(acc, x.e);
        else if (id == Intrinsic::vector_reduce_and)
          acc = mkAnd(acc, x.e);
        else if (id == Intrinsic::vector_reduce_xor)
          acc = mkXor(acc, x.e);
        else if (id == Intrinsic::vector_reduce_umax)
          acc = mkIte(mkUlt(acc, x.e), x.e, acc);
        else
          acc = mkIte(mkUlt(acc, x.e), acc, x.e);
      }
      r.e = acc;
      return r;
    }
    case Intrinsic::ptrmask:
      r.e = mkAnd(A(0), A(1));
      return r;
    case Intrinsic::load_relative:
    default:
      break;
    }
    if (F->getReturnType()->isFPOrFPVectorTy() ||
        F->getName().starts_with("llvm.fp")) {
      fpUsed = true;
      return freshRV(F->getReturnType());
    }
    oblig(s, "unsupported", "intrinsic " + F->getName().str(), mkTrue());
    if (!F->getReturnType()->isVoidTy())
      return freshRV(F->getReturnType());
    return r;
  }

  // ---- functions --------------------------------------------------------
  struct Frame {
    const Function *F;
    FnInfo *I;
    std::map<int, std::vector<Pending>> work;
    std::vector<Pending> rets;
    std::vector<int> visits;
    std::vector<bool> fresh;          // loop entered from outside
    std::vector<const PC *> loopPc;   // path condition at that point
    std::unordered_map<const AllocaInst *, uint64_t> allocas;
    const PC *entryPc;
    bool branchCheck;
  };

  E val(Frame &f, const std::vector<RV> &regs, const Value *v) {
    RV r = rv(f, regs, v);
    if (!r.e) {
      std::string t;
      raw_string_ostream os(t);
      v->print(os);
      fatal("scalar value expected: " + t + " in " + f.F->getName().str());
    }
    return r.e;
  }
  RV rv(Frame &f, const std::vector<RV> &regs, const Value *v) {
    if (auto *c = dyn_cast<Constant>(v))
      return constVal(c);
    auto it = f.I->slot.find(v);
    if (it == f.I->slot.end())
      fatal("value without slot");
    const RV &r = regs[it->second];
    if (r.null()) {
      // not defined on this path (dead merge input)
      return zeroOf(v->getType());
    }
    return r;
  }

  void goTo(Frame &f, Pending &&p, const BasicBlock *from,
            const BasicBlock *to) {
    FnInfo &I = *f.I;
    // phis
    std::vector<std::pair<int, RV>> pv;
    for (auto &i : *to) {
      auto *ph = dyn_cast<PHINode>(&i);
      if (!ph)
        break;
      pv.push_back({I.slot[&i], rv(f, p.regs, ph->getIncomingValueForBlock(from))});
    }
    for (auto &x : pv)
      p.regs[x.first] = x.second;
    int ti = I.idx[to];
    if (I.header[ti] && I.idx[from] < ti)
      f.fresh[ti] = true;
    f.work[ti].push_back(std::move(p));
  }

  RV execFunction(State &s, const Function *F, const std::vector<RV> &args) {
    FnInfo &I = info(F);
    fnCount[F]++;
    Frame f;
    f.F = F;
    f.I = &I;
    f.visits.assign(I.order.size(), 0);
    f.fresh.assign(I.order.size(), false);
    f.loopPc.assign(I.order.size(), nullptr);
    f.entryPc = s.pc;
    f.branchCheck = !optBranchCheck.empty() &&
                    std::regex_search(F->getName().str(), std::regex(optBranchCheck));
    uint64_t savedTop = stackTop;
    Pending p;
    p.s = std::move(s);
    p.regs.resize(I.nslots);
    unsigned ai = 0;
    for (auto &a : F->args()) {
      RV v = args[ai];
      if (a.hasByValAttr() && v.e) {
        uint64_t sz = DL->getTypeAllocSize(a.getParamByValType());
        Obj *o = addObj(stackTop, sz, Obj::UNDEF, "byval", 4096);
        copyMem(p.s, mkConst(64, o->start), v.e, sz, nullptr);
        v.e = mkConst(64, o->start);
      }
      p.regs[I.slot[&a]] = v;
      ai++;
    }
    f.work[0].push_back(std::move(p));
    std::vector<RV> retv;
    while (!f.work.empty()) {
      auto it = f.work.begin();
      int bi = it->first;
      std::vector<Pending> w = std::move(it->second);
      f.work.erase(it);
      mergeAll(w, &I.livein[bi]);
      Pending cur = std::move(w[0]);
      if (f.fresh[bi]) {
        f.fresh[bi] = false;
        f.visits[bi] = 0;
        f.loopPc[bi] = cur.s.pc;
      }
      f.visits[bi]++;
      if (I.header[bi] && f.visits[bi] > optLoopCheck) {
        // symbolic loop: make sure another iteration is possible at all
        if (cur.s.pc != f.loopPc[bi] && pcConj(cur.s.pc) != pcConj(f.loopPc[bi]) &&
            loopSymbolic(cur.s.pc, f.loopPc[bi])) {
          if (!feasible(cur.s))
            continue;
        }
        if (f.visits[bi] > optMaxIter)
          fatal("loop bound exceeded in " + F->getName().str());
      }
      execBlock(f, std::move(cur), bi, retv);
      if (nowS() - T0 > optExecLimit)
        fatal("execution time limit in " + F->getName().str());
    }
    // merge returns
    RV out;
    State res;
    if (f.rets.empty()) {
      res.dead = true;
    } else {
      std::vector<int> sl = {0};
      mergeAll(f.rets, &sl);
      res = std::move(f.rets[0].s);
      out = f.rets[0].regs[0];
      // drop the frame
      for (auto it2 = objs.lower_bound(savedTop); it2 != objs.end() && it2->first < 0x200000000ull && it2->first >= 0x100000000ull; ++it2)
        res.mem.clear(it2->second.start, it2->second.size);
    }
    // remove stack objects
    auto b = objs.lower_bound(savedTop);
    auto e = objs.lower_bound(0x200000000ull);
    if (savedTop >= 0x100000000ull)
      objs.erase(b, e);
    stackTop = savedTop;
    s = std::move(res);
    return out;
  }
  bool loopSymbolic(const PC *p, const PC *entry) {
    for (; p && p != entry; p = p->parent)
      if (!p->assume)
        return true;
    return false;
  }

  void execBlock(Frame &f, Pending &&cur, int bi, std::vector<RV> &) {
    FnInfo &I = *f.I;
    const BasicBlock *bb = I.order[bi];
    auto &R = cur.regs;
    auto set = [&](const Instruction *i, RV v) { R[I.slot[i]] = std::move(v); };
    auto setE = [&](const Instruction *i, E e) {
      RV v;
      v.e = e;
      R[I.slot[i]] = v;
    };
    for (auto &ins : *bb) {
      const Instruction *i = &ins;
      if (isa<PHINode>(i))
        continue;
      instrCount++;
      if (auto *bo = dyn_cast<BinaryOperator>(i)) {
        RV a = rv(f, R, bo->getOperand(0)), b = rv(f, R, bo->getOperand(1));
        Op op = O_NUM;
        switch (bo->getOpcode()) {
        case Instruction::Add: op = O_ADD; break;
        case Instruction::Sub: op = O_SUB; break;
        case Instruction::Mul: op = O_MUL; break;
        case Instruction::UDiv: op = O_UDIV; break;
        case Instruction::SDiv: op = O_SDIV; break;
        case Instruction::URem: op = O_UREM; break;
        case Instruction::SRem: op = O_SREM; break;
        case Instruction::Shl: op = O_SHL; break;
        case Instruction::LShr: op = O_LSHR; break;
        case Instruction::AShr: op = O_ASHR; break;
        case Instruction::And: op = O_AND; break;
        case Instruction::Or: op = O_OR; break;
        case Instruction::Xor: op = O_XOR; break;
        default: break;
        }
        if (op == O_NUM) {
          set(i, fpBin(bo, a, b));
          continue;
        }
        if (op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM) {
          if (b.e) {
            E z = mkEq(b.e, mkConst(b.e->w, 0));
            if (!isFalse(z))
              oblig(cur.s, "divzero", "division by zero in " + where(i), z);
            if (op == O_SDIV || op == O_SREM) {
              E o = mkAnd(mkEq(b.e, mkConst(b.e->w, ~0ull)),
                          mkEq(a.e, mkConst(a.e->w, 1ull << (a.e->w - 1))));
              if (!isFalse(o))
                oblig(cur.s, "divzero", "signed division overflow in " + where(i), o);
            }
          }
        }
        set(i, mapV2(a, b, [&](E x, E y) { return mkBin(op, x, y); }));
        continue;
      }
      if (auto *ic = dyn_cast<ICmpInst>(i)) {
        RV a = rv(f, R, ic->getOperand(0)), b = rv(f, R, ic->getOperand(1));
        auto p = ic->getPredicate();
        set(i, mapV2(a, b, [&](E x, E y) -> E {
              switch (p) {
              case CmpInst::ICMP_EQ: return mkEq(x, y);
              case CmpInst::ICMP_NE: return mkNe(x, y);
              case CmpInst::ICMP_ULT: return mkUlt(x, y);
              case CmpInst::ICMP_ULE: return mkUle(x, y);
              case CmpInst::ICMP_UGT: return mkUlt(y, x);
              case CmpInst::ICMP_UGE: return mkUle(y, x);
              case CmpInst::ICMP_SLT: return mkSlt(x, y);
              case CmpInst::ICMP_SLE: return mkSle(x, y);
              case CmpInst::ICMP_SGT: return mkSlt(y, x);
              case CmpInst::ICMP_SGE: return mkSle(y, x);
              default: fatal("icmp predicate");
              }
            }));
        continue;
      }
      if (auto *ci = dyn_cast<CastInst>(i)) {
        set(i, castOp(ci, rv(f, R, ci->getOperand(0))));
        continue;
      }
      switch (i->getOpcode()) {
      case Instruction::Alloca: {
        auto *al = cast<AllocaInst>(i);
        auto it = f.allocas.find(al);
        if (it == f.allocas.end()) {
          E n = val(f, R, al->getArraySize());
          if (!isConst(n))
            fatal("dynamic alloca with symbolic size");
          uint64_t sz = DL->getTypeAllocSize(al->getAllocatedType()) * n->v;
          Obj *o = addObj(stackTop, sz, Obj::UNDEF, al->getName().str(), 4096,
                          al->getAlign().value());
          it = f.allocas.insert({al, o->start}).first;
        }
        setE(i, mkConst(64, it->second));
        break;
      }
      case Instruction::Load:
        set(i, loadT(cur.s, val(f, R, i->getOperand(0)), i->getType(), i));
        break;
      case Instruction::Store: {
        auto *si = cast<StoreInst>(i);
        storeT(cur.s, val(f, R, si->getPointerOperand()),
               rv(f, R, si->getValueOperand()), si->getValueOperand()->getType(), i);
        break;
      }
      case Instruction::GetElementPtr:
        if (i->getType()->isVectorTy())
          fatal("vector gep");
        setE(i, gepConst(cast<GEPOperator>(i), [&](const Value *v) { return val(f, R, v); }));
        break;
      case Instruction::Select: {
        RV c = rv(f, R, i->getOperand(0)), a = rv(f, R, i->getOperand(1)),
           b = rv(f, R, i->getOperand(2));
        if (c.agg) {
          RV r;
          r.agg = std::make_shared<std::vector<RV>>();
          for (size_t k = 0; k < c.agg->size(); k++)
            r.agg->push_back(mergeRV((*c.agg)[k].e, (*a.agg)[k], (*b.agg)[k]));
          set(i, r);
        } else {
          E cc = foldPC(cur.s.pc, c.e, 5);
          if (isTrue(cc))
            set(i, a);
          else if (isFalse(cc))
            set(i, b);
          else
            set(i, mergeRV(cc, a, b));
        }
        break;
      }
      case Instruction::Freeze:
        set(i, rv(f, R, i->getOperand(0)));
        break;
      case Instruction::ExtractValue: {
        RV a = rv(f, R, i->getOperand(0));
        for (unsigned k : cast<ExtractValueInst>(i)->indices())
          a = RV((*a.agg)[k]);
        set(i, a);
        break;
      }
      case Instruction::InsertValue: {
        RV a = rv(f, R, i->getOperand(0)), v = rv(f, R, i->getOperand(1));
        auto ix = cast<InsertValueInst>(i)->getIndices();
        std::function<RV(const RV &, unsigned)> go = [&](const RV &x, unsigned d) -> RV {
          if (d == ix.size())
            return v;
          RV r;
          r.agg = std::make_shared<std::vector<RV>>(*x.agg);
          (*r.agg)[ix[d]] = go((*x.agg)[ix[d]], d + 1);
          return r;
        };
        set(i, go(a, 0));
        break;
      }
      case Instruction::ExtractElement: {
        RV a = rv(f, R, i->getOperand(0));
        E k = val(f, R, i->getOperand(1));
        if (!isConst(k)) {
          E r = (*a.agg)[0].e;
          for (size_t j = 1; j < a.agg->size(); j++)
            r = mkIte(mkEq(k, mkConst(k->w, j)), (*a.agg)[j].e, r);
          setE(i, r);
        } else
          set(i, RV((*a.agg)[k->v]));
        break;
      }
      case Instruction::InsertElement: {
        RV a = rv(f, R, i->getOperand(0)), v = rv(f, R, i->getOperand(1));
        E k = val(f, R, i->getOperand(2));
        RV r;
        r.agg = std::make_shared<std::vector<RV>>(*a.agg);
        if (!isConst(k)) {
          for (size_t j = 0; j < a.agg->size(); j++)
            (*r.agg)[j] = mergeRV(mkEq(k, mkConst(k->w, j)), v, (*a.agg)[j]);
        } else
          (*r.agg)[k->v] = v;
        set(i, r);
        break;
      }
      case Instruction::ShuffleVector: {
        auto *sv = cast<ShuffleVectorInst>(i);
        RV a = rv(f, R, i->getOperand(0)), b = rv(f, R, i->getOperand(1));
        RV r;
        r.agg = std::make_shared<std::vector<RV>>();
        size_t n = a.agg->size();
        for (int k : sv->getShuffleMask())
          r.agg->push_back(k < 0 ? (*a.agg)[0]
                                 : (size_t)k < n ? (*a.agg)[k] : (*b.agg)[k - n]);
        set(i, r);
        break;
      }
      case Instruction::FCmp:
        set(i, fcmp(cast<FCmpInst>(i), rv(f, R, i->getOperand(0)), rv(f, R, i->getOperand(1))));
        break;
      case Instruction::FNeg:
        set(i, mapV(rv(f, R, i->getOperand(0)), [](E x) {
              return mkXor(x, mkConst(x->w, 1ull << (x->w - 1)));
            }));
        break;
      case Instruction::Call: {
        auto *cb = cast<CallInst>(i);
        if (cb->isInlineAsm()) {
          auto *ia = cast<InlineAsm>(cb->getCalledOperand());
          if (!ia->getAsmString().empty())
            oblig(cur.s, "unsupported", "inline asm in " + where(i), mkTrue());
          if (!i->getType()->isVoidTy())
            set(i, cb->arg_size() ? rv(f, R, cb->getArgOperand(0)) : freshRV(i->getType()));
          break;
        }
        std::vector<RV> args;
        for (auto &a : cb->args()) {
          if (a->getType()->isMetadataTy()) {
            args.push_back(RV());
            continue;
          }
          args.push_back(rv(f, R, a.get()));
        }
        const Function *callee = cb->getCalledFunction();
        if (!callee) {
          if (auto *al = dyn_cast<GlobalAlias>(cb->getCalledOperand()))
            callee = dyn_cast<Function>(al->getAliaseeObject());
        }
        RV res;
        if (callee) {
          res = callFunction(cur.s, callee, args, i);
        } else {
          E fp = val(f, R, cb->getCalledOperand());
          res = callIndirect(cur.s, fp, args, i);
        }
        if (cur.s.dead)
          return;
        if (!i->getType()->isVoidTy())
          set(i, res.null() ? zeroOf(i->getType()) : res);
        break;
      }
      case Instruction::Ret: {
        Pending p;
        p.s = std::move(cur.s);
        p.regs.resize(1);
        auto *ri = cast<ReturnInst>(i);
        if (ri->getReturnValue())
          p.regs[0] = rv(f, R, ri->getReturnValue());
        f.rets.push_back(std::move(p));
        return;
      }
      case Instruction::Br: {
        auto *br = cast<BranchInst>(i);
        if (br->isUnconditional()) {
          goTo(f, std::move(cur), bb, br->getSuccessor(0));
          return;
        }
        E c = foldPC(cur.s.pc, val(f, R, br->getCondition()));
        if (isConst(c)) {
          goTo(f, std::move(cur), bb, br->getSuccessor(c->v ? 0 : 1));
          return;
        }
        if (br->getSuccessor(0) == br->getSuccessor(1)) {
          goTo(f, std::move(cur), bb, br->getSuccessor(0));
          return;
        }
        if (f.branchCheck) {
          // ask the solver whether both sides are possible
          int k = branchPossible(cur.s, c);
          if (k != 3) {
            if (k)
              goTo(f, std::move(cur), bb, br->getSuccessor(k == 1 ? 0 : 1));
            return;
          }
          if (getenv("SX_FORKS")) {
            std::set<E> seen;
            std::string vs;
            std::function<void(E)> go = [&](E x) {
              if (!x || !seen.insert(x).second)
                return;
              if (x->op == O_VAR && vs.size() < 300)
                vs += " " + XC.vars[x->v].name;
              go(x->a), go(x->b), go(x->c);
            };
            go(c);
            fprintf(stderr, "fork in %s%s\n", where(i).c_str(), vs.c_str());
          }
        }
        Pending t = cur;
        t.s.pc = pushLit(t.s.pc, c, false);
        goTo(f, std::move(t), bb, br->getSuccessor(0));
        cur.s.pc = pushLit(cur.s.pc, mkNot(c), false);
        goTo(f, std::move(cur), bb, br->getSuccessor(1));
        return;
      }
      case Instruction::Switch: {
        auto *sw = cast<SwitchInst>(i);
        E v = foldVal(cur.s, val(f, R, sw->getCondition()));
        std::vector<std::pair<const BasicBlock *, E>> dests;
        E any = mkFalse();
        auto add = [&](const BasicBlock *b, E c) {
          for (auto &d : dests)
            if (d.first == b) {
              d.second = mkOr(d.second, c);
              return;
            }
          dests.push_back({b, c});
        };
        for (auto &cs : sw->cases()) {
          E c = foldPC(cur.s.pc, mkEq(v, mkAP(cs.getCaseValue()->getValue())));
          if (isFalse(c))
            continue;
          add(cs.getCaseSuccessor(), c);
          any = mkOr(any, c);
        }
        add(sw->getDefaultDest(), mkNot(any));
        for (auto &d : dests) {
          E c = foldPC(cur.s.pc, d.second);
          if (isFalse(c))
            continue;
          if (f.branchCheck && !isConst(c)) {
            int k = branchPossible(cur.s, c);
            if (k == 1) {
              goTo(f, std::move(cur), bb, d.first);
              return;
            }
            if (k != 3)
              continue;
          }
          Pending t = cur;
          t.s.pc = pushLit(t.s.pc, c, false);
          goTo(f, std::move(t), bb, d.first);
        }
        return;
      }
      case Instruction::Unreachable:
        // reached only after a noreturn call was recorded, or undefined
        oblig(cur.s, "crash", "unreachable code reached in " + where(i), mkTrue());
        return;
      case Instruction::Fence:
        break;
      case Instruction::AtomicRMW: {
        auto *rm = cast<AtomicRMWInst>(i);
        E p = val(f, R, rm->getPointerOperand());
        RV o = loadT(cur.s, p, rm->getType(), i);
        E v = val(f, R, rm->getValOperand());
        E nv = nullptr;
        switch (rm->getOperation()) {
        case AtomicRMWInst::Add: nv = mkAdd(o.e, v); break;
        case AtomicRMWInst::Sub: nv = mkSub(o.e, v); break;
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Or: nv = mkOr(o.e, v); break;
        case AtomicRMWInst::And: nv = mkAnd(o.e, v); break;
        default: fatal("atomicrmw");
        }
        RV n;
        n.e = nv;
        storeT(cur.s, p, n, rm->getType(), i);
        set(i, o);
        break;
      }
      default: {
        std::string t;
        raw_string_ostream os(t);
        i->print(os);
        fatal("unsupported instruction " + t);
      }
      }
    }
  }

  RV callIndirect(State &s, E fp, const std::vector<RV> &args,
                  const Instruction *at) {
    fp = foldVal(s, fp);
    if (isConst(fp)) {
      auto it = fnAt.find(fp->v);
      if (it == fnAt.end()) {
        oblig(s, "crash", "call through invalid function pointer in " + where(at), mkTrue());
        s.dead = true;
        return RV();
      }
      return callFunction(s, it->second, args, at);
    }
    if (fp->op == O_ITE) {
      Pending a, b;
      a.s = s;
      b.s = s;
      a.s.pc = pushLit(s.pc, fp->a, false);
      b.s.pc = pushLit(s.pc, mkNot(fp->a), false);
      a.regs.resize(1);
      b.regs.resize(1);
      a.regs[0] = callIndirect(a.s, fp->b, args, at);
      b.regs[0] = callIndirect(b.s, fp->c, args, at);
      if (a.s.dead) {
        s = std::move(b.s);
        return b.regs[0];
      }
      if (b.s.dead) {
        s = std::move(a.s);
        return a.regs[0];
      }
      std::vector<int> sl = {0};
      mergeInto(a, b, &sl);
      s = std::move(a.s);
      return a.regs[0];
    }
    oblig(s, "unsupported", "symbolic function pointer in " + where(at), mkTrue());
    s.dead = true;
    return RV();
  }

  RV fpBin(const BinaryOperator *bo, const RV &a, const RV &b) {
    auto one = [&](E x, E y) -> E {
      if (isConst(x) && isConst(y)) {
        if (x->w == 64) {
          double p, q, r = 0;
          memcpy(&p, &x->v, 8);
          memcpy(&q, &y->v, 8);
          switch (bo->getOpcode()) {
          case Instruction::FAdd: r = p + q; break;
          case Instruction::FSub: r = p - q; break;
          case Instruction::FMul: r = p * q; break;
          case Instruction::FDiv: r = p / q; break;
          default: break;
          }
          uint64_t v;
          memcpy(&v, &r, 8);
          return mkConst(64, v);
        }
        if (x->w == 32) {
          float p, q, r = 0;
          uint32_t xv = x->v, yv = y->v;
          memcpy(&p, &xv, 4);
          memcpy(&q, &yv, 4);
          switch (bo->getOpcode()) {
          case Instruction::FAdd: r = p + q; break;
          case Instruction::FSub: r = p - q; break;
          case Instruction::FMul: r = p * q; break;
          case Instruction::FDiv: r = p / q; break;
          default: break;
          }
          uint32_t v;
          memcpy(&v, &r, 4);
          return mkConst(32, v);
        }
      }
      fpUsed = true;
      return fresh("fp", x->w);
    };
    return mapV2(a, b, one);
  }
  RV fcmp(const FCmpInst *ci, const RV &a, const RV &b) {
    return mapV2(a, b, [&](E x, E y) -> E {
      if (isConst(x) && isConst(y) && (x->w == 64 || x->w == 32)) {
        APFloat p(x->w == 64 ? APFloat::IEEEdouble() : APFloat::IEEEsingle(), APInt(x->w, x->v)),
            q(x->w == 64 ? APFloat::IEEEdouble() : APFloat::IEEEsingle(), APInt(x->w, y->v));
        return mkConst(1, FCmpInst::compare(p, q, ci->getPredicate()));
      }
      fpUsed = true;
      return fresh("fcmp", 1);
    });
  }
  RV castOp(const CastInst *ci, const RV &a) {
    Type *dt = ci->getDestTy(), *st = ci->getSrcTy();
    unsigned w = bitsOf(dt->isVectorTy() ? cast<FixedVectorType>(dt)->getElementType() : dt);
    switch (ci->getOpcode()) {
    case Instruction::Trunc:
      return mapV(a, [&](E x) { return mkExtract(x, 0, w); });
    case Instruction::ZExt:
      return mapV(a, [&](E x) { return mkZExt(x, w); });
    case Instruction::SExt:
      return mapV(a, [&](E x) { return mkSExt(x, w); });
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
      return mapV(a, [&](E x) { return x->w > w ? mkExtract(x, 0, w) : mkZExt(x, w); });
    case Instruction::BitCast: {
      bool sv = st->isVectorTy(), dv = dt->isVectorTy();
      if (!sv && !dv)
        return a;
      E flat = nullptr;
      if (sv) {
        for (auto &x : *a.agg)
          flat = flat ? mkConcat(x.e, flat) : x.e;
      } else
        flat = a.e;
      RV r;
      if (dv) {
        r.agg = std::make_shared<std::vector<RV>>();
        for (unsigned k = 0; k < cast<FixedVectorType>(dt)->getNumElements(); k++) {
          RV x;
          x.e = mkExtract(flat, k * w, w);
          r.agg->push_back(x);
        }
      } else
        r.e = flat;
      return r;
    }
    default:
      break;
    }
    // floating point conversions
    return mapV(a, [&](E x) -> E {
      if (isConst(x)) {
        if ((ci->getOpcode() == Instruction::UIToFP || ci->getOpcode() == Instruction::SIToFP) && w == 64) {
          double d = ci->getOpcode() == Instruction::UIToFP ? (double)x->v : (double)(int64_t)(x->w < 64 ? ((int64_t)(x->v << (64 - x->w)) >> (64 - x->w)) : (int64_t)x->v);
          uint64_t v;
          memcpy(&v, &d, 8);
          return mkConst(64, v);
        }
        if (ci->getOpcode() == Instruction::FPExt && x->w == 32 && w == 64) {
          float fl;
          uint32_t t = x->v;
          memcpy(&fl, &t, 4);
          double d = fl;
          uint64_t v;
          memcpy(&v, &d, 8);
          return mkConst(64, v);
        }
        if ((ci->getOpcode() == Instruction::FPToUI || ci->getOpcode() == Instruction::FPToSI) && x->w == 64) {
          double d;
          memcpy(&d, &x->v, 8);
          return mkConst(w, (uint64_t)(int64_t)d);
        }
      }
      fpUsed = true;
      return fresh("fpcast", w);
    });
  }
};

// ---------------------------------------------------------------- results
static std::string jesc(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if ((unsigned char)c < 32)
      r += ' ';
    else
      r += c;
  }
  return r;
}
static void writeModel(const std::string &path, const SolveResult &r) {
  Evaluator ev;
  ev.val = r.model;
  FILE *f = fopen(path.c_str(), "w");
  if (!f)
    fatal("cannot write model");
  for (auto &kv : r.model) {
    const std::string &n = XC.vars[kv.first].name;
    if (n.compare(0, 3, "uf!") == 0 || n.compare(0, 6, "undef!") == 0 ||
        n.compare(0, 6, "fresh!") == 0)
      continue;
    std::string m = n;
    for (auto &c : m)
      if (c == ' ')
        c = '_';
    fprintf(f, "V %s %llx\n", m.c_str(), (unsigned long long)kv.second);
  }
  for (auto &u : ufs)
    for (auto &a : u.apps)
      fprintf(f, "U %s %llx %llx\n", u.name.c_str(),
              (unsigned long long)ev.eval(a.first),
              (unsigned long long)ev.eval(a.second));
  fclose(f);
}

static std::string collectModule;
static int realMain(int argc, char **argv) {
  T0 = nowS();
  std::string modPath;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() -> std::string {
      if (i + 1 >= argc)
        fatal("missing argument");
      return argv[++i];
    };
    if (a == "--entry")
      optEntry = nx();
    else if (a == "--out")
      optOut = nx();
    else if (a == "--solvers")
      optSolvers = nx();
    else if (a == "--tmp")
      optTmp = nx();
    else if (a == "--timeout")
      optTimeout = atof(nx().c_str());
    else if (a == "--exec-limit")
      optExecLimit = atof(nx().c_str());
    else if (a == "--loop-check")
      optLoopCheck = atoi(nx().c_str());
    else if (a == "--branch-check")
      optBranchCheck = nx();
    else if (a == "--ptr-check")
      optPtrCheck = atol(nx().c_str());
    else if (a == "--jobs")
      optJobs = atoi(nx().c_str());
    else if (a == "--first")
      optFirst = true;
    else if (a == "--cross")
      optCross = true;
    else if (a == "--keep")
      SC.keep = true;
    else if (a == "-v")
      optVerbose++;
    else
      modPath = a;
  }
  SC.tmp = optTmp;
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(modPath, err, ctx);
  if (!mod)
    fatal("cannot load " + modPath + ": " + err.getMessage().str());
  M = mod.get();
  DL = &M->getDataLayout();
  Exec X;
  State s;
  // addresses
  uint64_t fa = 0x1000;
  for (auto &F : *M) {
    gaddr[&F] = fa;
    fnAt[fa] = &F;
    fa += 16;
  }
  for (auto &g : M->globals()) {
    Type *t = g.getValueType();
    uint64_t sz = t->isSized() ? (uint64_t)DL->getTypeAllocSize(t) : 8;
    bool ext = g.isDeclaration();
    if (ext && sz < 1024)
      sz = 1024;
    Obj *o = addObj(globTop, sz, Obj::ZERO, g.getName().str(), 65536,
                    g.getAlign() ? g.getAlign()->value() : 64);
    o->isConst = g.isConstant();
    gaddr[&g] = o->start;
  }
  for (auto &g : M->globals())
    if (g.hasInitializer())
      writeInit(s, gaddr[&g], g.getInitializer());
  // constructors
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) {
    std::vector<std::pair<uint64_t, const Function *>> cs;
    if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto &op : ca->operands()) {
        auto *st = cast<ConstantStruct>(op.get());
        cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(),
                      cast<Function>(st->getOperand(1)->stripPointerCasts())});
      }
    std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &c : cs) {
      X.execFunction(s, c.second, {});
      if (s.dead)
        fatal("constructor does not return");
    }
  }
  if (!obligs.empty()) {
    for (auto &o : obligs)
      fprintf(stderr, "constructor obligation %s %s\n", o.kind.c_str(), o.msg.c_str());
    fatal("constructors raised obligations");
  }
  size_t ctorInstr = instrCount;
  fnCount.clear();
  Function *EF = M->getFunction(optEntry);
  if (!EF)
    fatal("no entry " + optEntry);
  X.execFunction(s, EF, {});
  double tExec = nowS() - T0;
  if (optVerbose)
    fprintf(stderr, "exec done %.2fs instr=%zu nodes=%llu obligs=%zu triv=%zu assumptions=%zu merges=%zu\n",
            tExec, instrCount - ctorInstr, (unsigned long long)exprCount(), obligs.size(), trivOblig, assumptions.size(), mergeCount);

  // group obligations by kind+message
  struct Group {
    std::string kind, msg;
    std::vector<size_t> idx;
    SolveResult r;
    std::string model;
    std::string verdict;
    double secs = 0;
    std::string crossSolver;
  };
  std::vector<Group> groups;
  std::map<std::string, size_t> gi;
  for (size_t i = 0; i < obligs.size(); i++) {
    std::string k = obligs[i].kind + ":" + obligs[i].msg;
    auto it = gi.find(k);
    if (it == gi.end()) {
      gi[k] = groups.size();
      groups.push_back({obligs[i].kind, obligs[i].msg, {}, {}, "", "", 0, ""});
      it = gi.find(k);
    }
    groups[it->second].idx.push_back(i);
  }
  std::map<size_t, E> prefix;
  auto prefixConj = [&](size_t n) -> E {
    auto it = prefix.find(n);
    if (it != prefix.end())
      return it->second;
    E r = mkTrue();
    for (size_t i = 0; i < n; i++)
      r = mkAnd(r, assumptions[i]);
    return prefix[n] = r;
  };
  // UF congruence facts are recorded in assumptions at the point of use, so a
  // prefix always covers the applications an obligation can mention.
  auto query = [&](const std::vector<size_t> &ids) {
    // common prefix factored out
    size_t mn = ~0ull;
    for (size_t i : ids)
      mn = std::min(mn, obligs[i].nassume);
    std::vector<E> q(assumptions.begin(), assumptions.begin() + mn);
    E any = mkFalse();
    for (size_t i : ids) {
      E b = obligs[i].bad;
      for (size_t k = mn; k < obligs[i].nassume; k++)
        b = mkAnd(b, assumptions[k]);
      any = mkOr(any, b);
    }
    q.push_back(any);
    return q;
  };
  size_t nq = 0, nunsat = 0;
  double tsolve = 0;
  std::map<std::string, int> bySolver;
  // one combined attempt first
  bool allUnsat = false;
  if (groups.size() > 1) {
    std::vector<size_t> ids;
    for (size_t i = 0; i < obligs.size(); i++)
      ids.push_back(i);
    auto r = solveQuery(query(ids), std::min(optTimeout, 20.0), optSolvers);
    nq++;
    tsolve += r.secs;
    if (r.v == V_UNSAT) {
      allUnsat = true;
      nunsat++;
      bySolver[r.solver]++;
      for (auto &g : groups) {
        g.verdict = "unsat";
        g.r.solver = r.solver;
        g.secs = r.secs / groups.size();
      }
    } else if (r.v == V_SAT) {
      // start with a group the model violates
      Evaluator ev;
      ev.val = r.model;
      auto rank = [](const std::string &k) { return k == "assert" ? 0 : k == "unsupported" ? 2 : 1; };
      std::stable_sort(groups.begin(), groups.end(), [&](const Group &a, const Group &b) { return rank(a.kind) < rank(b.kind); });
      for (size_t gi2 = 0; gi2 < groups.size(); gi2++) {
        bool hit = false;
        for (size_t i : groups[gi2].idx) {
          bool ok = ev.eval(obligs[i].bad) & 1;
          for (size_t k = 0; ok && k < obligs[i].nassume; k++)
            ok = ev.eval(assumptions[k]) & 1;
          hit = hit || ok;
        }
        if (hit) {
          std::rotate(groups.begin(), groups.begin() + gi2, groups.begin() + gi2 + 1);
          break;
        }
      }
    }
    if (optVerbose)
      fprintf(stderr, "combined query: %d %s %.2fs cnf=%d/%zu\n", r.v, r.solver.c_str(), r.secs, r.cnfVars, r.cnfClauses);
  }
  int mi = 0;
  auto solveGroup = [&](Group &g) {
    auto q = query(g.idx);
    g.r = solveQuery(q, optTimeout, optSolvers);
    nq++;
    g.secs = g.r.secs;
    tsolve += g.r.secs;
    if (g.r.v == V_UNKNOWN && g.idx.size() > 1) {
      // split into individual instances
      bool all = true;
      for (size_t i : g.idx) {
        auto r = solveQuery(query({i}), optTimeout, optSolvers);
        nq++;
        tsolve += r.secs;
        g.secs += r.secs;
        if (r.v == V_SAT) {
          g.r = r;
          all = false;
          break;
        }
        if (r.v != V_UNSAT) {
          all = false;
          g.r.note += " instance undecided";
          break;
        }
        g.r.solver = r.solver;
      }
      if (all)
        g.r.v = V_UNSAT;
    }
    g.verdict = g.r.v == V_UNSAT ? "unsat" : g.r.v == V_SAT ? "sat" : "unknown";
    if (g.r.v == V_UNSAT)
      nunsat++;
    bySolver[g.r.solver]++;
    if (g.r.v == V_SAT) {
      // prefer a model in which uninitialised / arbitrary values are zero
      bool dep = false;
      for (auto &kv : g.r.model)
        if (undefVars.count(kv.first) && kv.second)
          dep = true;
      if (dep) {
        auto q2 = q;
        for (uint32_t v : undefVars)
          q2.push_back(mkEq(XC.varnode[v], mkConst(XC.vars[v].w, 0)));
        auto r2 = solveQuery(q2, optTimeout, optSolvers);
        nq++;
        if (r2.v == V_SAT) {
          r2.note = g.r.note;
          g.r = r2;
        }
      }
      if (!optOut.empty()) {
        g.model = optOut + ".cex" + std::to_string(mi++);
        writeModel(g.model, g.r);
      }
    }
    if (optVerbose)
      fprintf(stderr, "[%s] %s: %s (%s %.2fs cnf=%d/%zu inst=%zu) %s\n", g.kind.c_str(), g.msg.c_str(), g.verdict.c_str(), g.r.solver.c_str(), g.secs, g.r.cnfVars, g.r.cnfClauses, g.idx.size(), g.r.note.c_str());
  };
  bool stopped = false;
  if (!allUnsat)
    for (auto &g : groups) {
      if (stopped) {
        g.verdict = "skipped";
        continue;
      }
      solveGroup(g);
      if (optFirst && g.verdict == "sat" && g.kind != "unsupported")
        stopped = true;
    }
  // cross-check with an independent solver
  size_t crossN = 0, crossAgree = 0, crossConflict = 0;
  if (optCross) {
    std::vector<size_t> ids;
    for (auto &g : groups)
      if (g.verdict == "unsat")
        for (size_t i : g.idx)
          ids.push_back(i);
    if (!ids.empty()) {
      std::string used = groups[0].r.solver;
      std::string other = used == "kissat" ? "z3,cvc5" : "kissat";
      auto r = solveQuery(query(ids), optTimeout, other);
      nq++;
      tsolve += r.secs;
      crossN++;
      if (r.v == V_UNSAT)
        crossAgree++;
      else if (r.v == V_SAT)
        crossConflict++;
    }
  }
  // covers
  struct CR {
    std::string msg, verdict, model;
    std::vector<std::pair<std::string, uint64_t>> obs;
  };
  std::vector<CR> crs;
  std::map<std::string, std::vector<size_t>> cg;
  std::vector<std::string> corder;
  for (size_t i = 0; i < covers.size(); i++) {
    if (!cg.count(covers[i].msg))
      corder.push_back(covers[i].msg);
    cg[covers[i].msg].push_back(i);
  }
  if (stopped)
    corder.clear();
  for (auto &m : corder) {
    CR c;
    c.msg = m;
    E any = mkFalse();
    size_t mn = ~0ull;
    for (size_t i : cg[m]) {
      any = mkOr(any, covers[i].cond);
      mn = std::min(mn, covers[i].nassume);
    }
    // all assumptions must hold so that the native run completes
    std::vector<E> q = assumptions;
    q.push_back(any);
    auto r = solveQuery(q, optTimeout, optSolvers);
    nq++;
    tsolve += r.secs;
    c.verdict = r.v == V_SAT ? "sat" : r.v == V_UNSAT ? "unsat" : "unknown";
    if (optVerbose)
      fprintf(stderr, "[cover] %s: %s (%s %.2fs)\n", m.c_str(), c.verdict.c_str(), r.solver.c_str(), r.secs);
    if (r.v == V_SAT) {
      bool dep = false;
      for (auto &kv : r.model)
        if (undefVars.count(kv.first) && kv.second)
          dep = true;
      if (dep) {
        auto q2 = q;
        for (uint32_t v : undefVars)
          q2.push_back(mkEq(XC.varnode[v], mkConst(XC.vars[v].w, 0)));
        auto r2 = solveQuery(q2, optTimeout, optSolvers);
        nq++;
        if (r2.v == V_SAT)
          r = r2;
      }
      if (!optOut.empty()) {
        c.model = optOut + ".cov" + std::to_string(crs.size());
        writeModel(c.model, r);
      }
      Evaluator ev;
      ev.val = r.model;
      for (auto &o : observes)
        if (ev.eval(o.pc))
          c.obs.push_back({o.name, ev.eval(o.val)});
    }
    crs.push_back(c);
  }
  // output
  FILE *f = optOut.empty() ? stdout : fopen(optOut.c_str(), "w");
  if (!f)
    fatal("cannot write output");
  fprintf(f, "{\"entry\":\"%s\",\n", jesc(optEntry).c_str());
  fprintf(f, "\"exec_s\":%.3f,\"instructions\":%zu,\"nodes\":%llu,\"merges\":%zu,\"feas_queries\":%zu,\"feas_s\":%.3f,\n",
          tExec, instrCount - ctorInstr, (unsigned long long)exprCount(), mergeCount, feasQueries, feasSecs);
  size_t nvars = 0;
  for (auto &v : XC.vars)
    if (v.name.compare(0, 6, "undef!") && v.name.compare(0, 6, "fresh!"))
      nvars++;
  size_t inBits = 0;
  for (auto &v : XC.vars)
    if (v.name.compare(0, 6, "undef!") && v.name.compare(0, 6, "fresh!"))
      inBits += v.w;
  fprintf(f, "\"input_vars\":%zu,\"input_bits\":%zu,\"undef_vars\":%zu,\"assumptions\":%zu,\"trivial\":%zu,\"queries\":%zu,\"unsat_queries\":%zu,\"solve_s\":%.3f,\"fp_opaque\":%s,\n",
          nvars, inBits, undefVars.size(), assumptions.size(), trivOblig, nq, nunsat, tsolve, fpUsed ? "true" : "false");
  fprintf(f, "\"cross\":{\"queries\":%zu,\"agree\":%zu,\"conflict\":%zu},\n", crossN, crossAgree, crossConflict);
  fprintf(f, "\"functions\":[");
  bool first = true;
  for (auto &kv : fnCount) {
    fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(demangle(kv.first->getName().str())).c_str());
    first = false;
  }
  fprintf(f, "],\n\"stubs\":[");
  first = true;
  for (auto &x : stubsUsed) {
    fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(x).c_str());
    first = false;
  }
  fprintf(f, "],\n\"obligations\":[");
  first = true;
  for (auto &g : groups) {
    fprintf(f, "%s\n{\"kind\":\"%s\",\"msg\":\"%s\",\"instances\":%zu,\"verdict\":\"%s\",\"solver\":\"%s\",\"secs\":%.3f,\"model\":\"%s\",\"note\":\"%s\"}",
            first ? "" : ",", g.kind.c_str(), jesc(g.msg).c_str(), g.idx.size(), g.verdict.c_str(), g.r.solver.c_str(), g.secs, g.model.c_str(), jesc(g.r.note).c_str());
    first = false;
  }
  fprintf(f, "],\n\"trivial_by_msg\":{");
  first = true;
  for (auto &kv : trivByMsg) {
    fprintf(f, "%s\"%s\":%zu", first ? "" : ",", jesc(kv.first).c_str(), kv.second);
    first = false;
  }
  fprintf(f, "},\n\"covers\":[");
  first = true;
  for (auto &c : crs) {
    fprintf(f, "%s\n{\"msg\":\"%s\",\"verdict\":\"%s\",\"model\":\"%s\",\"obs\":{", first ? "" : ",", jesc(c.msg).c_str(), c.verdict.c_str(), c.model.c_str());
    bool f2 = true;
    for (auto &o : c.obs) {
      fprintf(f, "%s\"%s\":\"%llx\"", f2 ? "" : ",", jesc(o.first).c_str(), (unsigned long long)o.second);
      f2 = false;
    }
    fprintf(f, "}}");
    first = false;
  }
  fprintf(f, "]}\n");
  if (f != stdout)
    fclose(f);
  fflush(stdout);
  _exit(0);
}

struct MainArgs {
  int argc;
  char **argv;
};
static void *mainThread(void *p) {
  MainArgs *a = (MainArgs *)p;
  realMain(a->argc, a->argv);
  return nullptr;
}
int main(int argc, char **argv) {
  MainArgs a{argc, argv};
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, (size_t)4 << 30);
  pthread_t t;
  if (pthread_create(&t, &at, mainThread, &a))
    fatal("thread");
  pthread_join(t, nullptr);
  return 3;
}
