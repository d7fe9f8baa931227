// SMT-LIB / CNF emission and the solver portfolio.
#include "expr.h"
#include "solve.h"
#include <algorithm>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

static std::vector<E> topo(const std::vector<E> &roots) {
  std::vector<E> order;
  std::unordered_set<E> seen;
  std::vector<std::pair<E, int>> st;
  for (E r : roots) {
    if (seen.count(r))
      continue;
    st.push_back({r, 0});
    seen.insert(r);
    while (!st.empty()) {
      auto &[e, i] = st.back();
      E k = nullptr;
      while (i < 3 && !k) {
        E c = i == 0 ? e->a : i == 1 ? e->b : e->c;
        i++;
        if (c && !seen.count(c))
          k = c;
      }
      if (k) {
        seen.insert(k);
        st.push_back({k, 0});
      } else {
        order.push_back(e);
        st.pop_back();
      }
    }
  }
  return order;
}

static void bvlit(FILE *f, unsigned w, uint64_t v) {
  if (w == 1)
    fprintf(f, "%s", v ? "true" : "false");
  else
    fprintf(f, "(_ bv%llu %u)", (unsigned long long)v, w);
}
static void ref(FILE *f, E e) {
  if (e->op == O_CONST)
    bvlit(f, e->w, e->v);
  else if (e->op == O_VAR)
    fprintf(f, "v%llu", (unsigned long long)e->v);
  else
    fprintf(f, "n%u", e->id);
}
static void refbv(FILE *f, E e) { // bit-vector view of a width-1 term
  if (e->w == 1) {
    if (e->op == O_CONST)
      fprintf(f, "%s", e->v ? "#b1" : "#b0");
    else {
      fprintf(f, "(ite ");
      ref(f, e);
      fprintf(f, " #b1 #b0)");
    }
  } else
    ref(f, e);
}

void writeSmt2(FILE *f, const std::vector<E> &asserts, bool wantModel) {
  auto order = topo(asserts);
  fprintf(f, "(set-logic QF_BV)\n");
  if (wantModel)
    fprintf(f, "(set-option :produce-models true)\n");
  std::vector<E> vars;
  for (E e : order)
    if (e->op == O_VAR) {
      vars.push_back(e);
      if (e->w == 1)
        fprintf(f, "(declare-fun v%llu () Bool)\n", (unsigned long long)e->v);
      else
        fprintf(f, "(declare-fun v%llu () (_ BitVec %u))\n",
                (unsigned long long)e->v, e->w);
    }
  static const char *nm[] = {"",       "",      "bvnot",  "bvand",  "bvor",
                             "bvxor",  "bvadd", "bvsub",  "bvmul",  "bvudiv",
                             "bvsdiv", "bvurem", "bvsrem", "bvshl", "bvlshr",
                             "bvashr"};
  for (E e : order) {
    if (e->op == O_CONST || e->op == O_VAR)
      continue;
    if (e->w == 1)
      fprintf(f, "(define-fun n%u () Bool ", e->id);
    else
      fprintf(f, "(define-fun n%u () (_ BitVec %u) ", e->id, e->w);
    switch (e->op) {
    case O_NOT:
      fprintf(f, e->w == 1 ? "(not " : "(bvnot ");
      ref(f, e->a);
      fprintf(f, ")");
      break;
    case O_AND:
    case O_OR:
    case O_XOR:
      if (e->w == 1) {
        fprintf(f, "(%s ", e->op == O_AND ? "and" : e->op == O_OR ? "or" : "xor");
        ref(f, e->a);
        fprintf(f, " ");
        ref(f, e->b);
        fprintf(f, ")");
        break;
      }
      [[fallthrough]];
    case O_ADD:
    case O_SUB:
    case O_MUL:
    case O_UDIV:
    case O_SDIV:
    case O_UREM:
    case O_SREM:
    case O_SHL:
    case O_LSHR:
    case O_ASHR:
      if (e->w == 1)
        fprintf(f, "(= #b1 ");
      fprintf(f, "(%s ", nm[e->op]);
      refbv(f, e->a);
      fprintf(f, " ");
      if (e->op >= O_SHL && e->b->w > e->w) { // narrower value, wide amount
        fprintf(stderr, "shift width mismatch\n");
        exit(3);
      }
      refbv(f, e->b);
      fprintf(f, ")");
      if (e->w == 1)
        fprintf(f, ")");
      break;
    case O_CONCAT:
      fprintf(f, "(concat ");
      refbv(f, e->a);
      fprintf(f, " ");
      refbv(f, e->b);
      fprintf(f, ")");
      break;
    case O_EXTRACT:
      if (e->w == 1)
        fprintf(f, "(= #b1 ");
      fprintf(f, "((_ extract %u %u) ", (unsigned)(e->v + e->w - 1),
              (unsigned)e->v);
      refbv(f, e->a);
      fprintf(f, ")");
      if (e->w == 1)
        fprintf(f, ")");
      break;
    case O_ZEXT:
      fprintf(f, "((_ zero_extend %u) ", e->w - e->a->w);
      refbv(f, e->a);
      fprintf(f, ")");
      break;
    case O_SEXT:
      fprintf(f, "((_ sign_extend %u) ", e->w - e->a->w);
      refbv(f, e->a);
      fprintf(f, ")");
      break;
    case O_ITE:
      fprintf(f, "(ite ");
      ref(f, e->a);
      fprintf(f, " ");
      ref(f, e->b);
      fprintf(f, " ");
      ref(f, e->c);
      fprintf(f, ")");
      break;
    case O_EQ:
      fprintf(f, "(= ");
      ref(f, e->a);
      fprintf(f, " ");
      ref(f, e->b);
      fprintf(f, ")");
      break;
    case O_ULT:
    case O_SLT:
      fprintf(f, e->op == O_ULT ? "(bvult " : "(bvslt ");
      refbv(f, e->a);
      fprintf(f, " ");
      refbv(f, e->b);
      fprintf(f, ")");
      break;
    }
    fprintf(f, ")\n");
  }
  for (E a : asserts) {
    fprintf(f, "(assert ");
    ref(f, a);
    fprintf(f, ")\n");
  }
  fprintf(f, "(check-sat)\n");
  if (wantModel && !vars.empty()) {
    fprintf(f, "(get-value (");
    for (E v : vars)
      fprintf(f, "v%llu ", (unsigned long long)v->v);
    fprintf(f, "))\n");
  }
}

// ---------------------------------------------------------------------------
// bit blasting
namespace {
using L = int; // literal; 1 = true, -1 = false
struct Blaster {
  FILE *f = nullptr;
  int nv = 1;
  size_t nc = 0;
  std::unordered_map<uint64_t, L> h2[2]; // and, xor
  struct K3 {
    L a, b, c;
    bool operator==(const K3 &o) const {
      return a == o.a && b == o.b && c == o.c;
    }
  };
  struct H3 {
    size_t operator()(const K3 &k) const {
      return ((uint64_t)(uint32_t)k.a * 0x9e3779b97f4a7c15ull) ^
             ((uint64_t)(uint32_t)k.b * 0xc2b2ae3d27d4eb4full) ^
             ((uint64_t)(uint32_t)k.c * 0x165667b19e3779f9ull);
    }
  };
  std::unordered_map<K3, L, H3> hite, hmaj;
  L nw() { return ++nv; }
  std::string buf;
  void cl(std::initializer_list<L> ls) {
    char t[16];
    for (L l : ls) {
      int n = snprintf(t, sizeof t, "%d ", l);
      buf.append(t, n);
    }
    buf += "0\n";
    nc++;
    if (buf.size() > 1 << 20)
      flush();
  }
  void flush() {
    fwrite(buf.data(), 1, buf.size(), f);
    buf.clear();
  }
  L And(L a, L b) {
    if (a == -1 || b == -1 || a == -b)
      return -1;
    if (a == 1 || a == b)
      return b;
    if (b == 1)
      return a;
    if (a > b)
      std::swap(a, b);
    uint64_t k = ((uint64_t)(uint32_t)a << 32) | (uint32_t)b;
    auto it = h2[0].find(k);
    if (it != h2[0].end())
      return it->second;
    L o = nw();
    cl({-o, a});
    cl({-o, b});
    cl({o, -a, -b});
    return h2[0][k] = o;
  }
  L Or(L a, L b) { return -And(-a, -b); }
  L Xor(L a, L b) {
    if (a == 1)
      return -b;
    if (a == -1)
      return b;
    if (b == 1)
      return -a;
    if (b == -1)
      return a;
    if (a == b)
      return -1;
    if (a == -b)
      return 1;
    int s = 1;
    if (a < 0)
      a = -a, s = -s;
    if (b < 0)
      b = -b, s = -s;
    if (a > b)
      std::swap(a, b);
    uint64_t k = ((uint64_t)(uint32_t)a << 32) | (uint32_t)b;
    auto it = h2[1].find(k);
    if (it != h2[1].end())
      return s * it->second;
    L o = nw();
    cl({-o, a, b});
    cl({-o, -a, -b});
    cl({o, -a, b});
    cl({o, a, -b});
    h2[1][k] = o;
    return s * o;
  }
  L Ite(L c, L a, L b) {
    if (c == 1)
      return a;
    if (c == -1)
      return b;
    if (a == b)
      return a;
    if (a == 1 || a == c)
      return Or(c, b);
    if (a == -1 || a == -c)
      return And(-c, b);
    if (b == 1 || b == -c)
      return Or(-c, a);
    if (b == -1 || b == c)
      return And(c, a);
    if (a == -b)
      return -Xor(c, a);
    if (c < 0) {
      c = -c;
      std::swap(a, b);
    }
    int s = 1;
    if (a < 0) {
      a = -a;
      b = -b;
      s = -1;
    }
    K3 k{c, a, b};
    auto it = hite.find(k);
    if (it != hite.end())
      return s * it->second;
    L o = nw();
    cl({-c, -a, o});
    cl({-c, a, -o});
    cl({c, -b, o});
    cl({c, b, -o});
    cl({-a, -b, o});
    cl({a, b, -o});
    hite[k] = o;
    return s * o;
  }
  L Maj(L a, L b, L c) {
    L t[3] = {a, b, c};
    std::sort(t, t + 3, [](L x, L y) { return abs(x) < abs(y) || (abs(x) == abs(y) && x < y); });
    a = t[0], b = t[1], c = t[2];
    if (a == 1)
      return Or(b, c);
    if (a == -1)
      return And(b, c);
    if (a == b)
      return a;
    if (a == -b)
      return c;
    if (b == c)
      return b;
    if (b == -c)
      return a;
    int s = 1;
    if (a < 0)
      a = -a, b = -b, c = -c, s = -1;
    K3 k{a, b, c};
    auto it = hmaj.find(k);
    if (it != hmaj.end())
      return s * it->second;
    L o = nw();
    cl({-a, -b, o});
    cl({-a, -c, o});
    cl({-b, -c, o});
    cl({a, b, -o});
    cl({a, c, -o});
    cl({b, c, -o});
    hmaj[k] = o;
    return s * o;
  }
  using V = std::vector<L>;
  std::unordered_map<E, V> memo;
  V add(const V &a, const V &b, L cin, L *cout = nullptr) {
    V r(a.size());
    L c = cin;
    for (size_t i = 0; i < a.size(); i++) {
      r[i] = Xor(Xor(a[i], b[i]), c);
      if (i + 1 < a.size() || cout)
        c = Maj(a[i], b[i], c);
    }
    if (cout)
      *cout = c;
    return r;
  }
  V inv(V a) {
    for (auto &x : a)
      x = -x;
    return a;
  }
  V neg(const V &a) { return add(inv(a), V(a.size(), -1), 1); }
  V ite(L c, const V &a, const V &b) {
    V r(a.size());
    for (size_t i = 0; i < a.size(); i++)
      r[i] = Ite(c, a[i], b[i]);
    return r;
  }
  L ult(const V &a, const V &b) {
    // a < b  <=> no carry out of a + ~b + 1
    L c = -1;
    for (size_t i = 0; i < a.size(); i++)
      c = Maj(-a[i], b[i], c);
    return c;
  }
  L eq(const V &a, const V &b) {
    L r = 1;
    for (size_t i = 0; i < a.size(); i++)
      r = And(r, -Xor(a[i], b[i]));
    return r;
  }
  V mul(const V &a, const V &b) {
    size_t w = a.size();
    // choose the operand with more constant bits as the multiplier
    auto nconst = [](const V &v) {
      int n = 0;
      for (L l : v)
        n += (l == 1 || l == -1);
      return n;
    };
    const V &x = nconst(a) > nconst(b) ? b : a, &y = nconst(a) > nconst(b) ? a : b;
    V r(w, -1);
    for (size_t i = 0; i < w; i++) {
      if (y[i] == -1)
        continue;
      V p(w, -1);
      for (size_t j = 0; i + j < w; j++)
        p[i + j] = And(y[i], x[j]);
      r = add(r, p, -1);
    }
    return r;
  }
  void divrem(const V &a, const V &b, V &q, V &r) {
    size_t w = a.size();
    V rem(w, -1);
    q.assign(w, -1);
    V bb = b;
    bb.push_back(-1);
    for (size_t i = w; i-- > 0;) {
      V t(w + 1);
      t[0] = a[i];
      for (size_t j = 0; j < w; j++)
        t[j + 1] = rem[j];
      L lt = ult(t, bb);
      V s = add(t, inv(bb), 1);
      q[i] = -lt;
      for (size_t j = 0; j < w; j++)
        rem[j] = Ite(lt, t[j], s[j]);
    }
    r = rem;
  }
  V shift(Op op, const V &a, const V &b) {
    size_t w = a.size();
    V r = a;
    L fill = op == O_ASHR ? a[w - 1] : -1;
    L big = -1;
    for (size_t i = 0; i < b.size(); i++) {
      if ((i >= 20) || (1ull << i) >= w) {
        big = Or(big, b[i]);
        continue;
      }
      size_t k = 1ull << i;
      V t(w);
      for (size_t j = 0; j < w; j++) {
        L s;
        if (op == O_SHL)
          s = j >= k ? r[j - k] : -1;
        else
          s = j + k < w ? r[j + k] : fill;
        t[j] = Ite(b[i], s, r[j]);
      }
      r = t;
    }
    for (size_t j = 0; j < w; j++)
      r[j] = Ite(big, fill, r[j]);
    return r;
  }
  void blast(E e) {
    V r;
    auto A = [&]() -> const V & { return memo[e->a]; };
    auto B = [&]() -> const V & { return memo[e->b]; };
    auto C = [&]() -> const V & { return memo[e->c]; };
    switch (e->op) {
    case O_CONST:
      for (unsigned i = 0; i < e->w; i++)
        r.push_back((e->v >> i) & 1 ? 1 : -1);
      break;
    case O_VAR:
      for (unsigned i = 0; i < e->w; i++)
        r.push_back(nw());
      break;
    case O_NOT:
      r = inv(A());
      break;
    case O_AND:
      for (unsigned i = 0; i < e->w; i++)
        r.push_back(And(A()[i], B()[i]));
      break;
    case O_OR:
      for (unsigned i = 0; i < e->w; i++)
        r.push_back(Or(A()[i], B()[i]));
      break;
    case O_XOR:
      for (unsigned i = 0; i < e->w; i++)
        r.push_back(Xor(A()[i], B()[i]));
      break;
    case O_ADD:
      r = add(A(), B(), -1);
      break;
    case O_SUB:
      r = add(A(), inv(B()), 1);
      break;
    case O_MUL:
      r = mul(A(), B());
      break;
    case O_UDIV: {
      V q, m;
      divrem(A(), B(), q, m);
      r = q;
      break;
    }
    case O_UREM: {
      V q, m;
      divrem(A(), B(), q, m);
      r = m;
      break;
    }
    case O_SDIV:
    case O_SREM: {
      L sa = A().back(), sb = B().back();
      V a = ite(sa, neg(A()), A()), b = ite(sb, neg(B()), B());
      V q, m;
      divrem(a, b, q, m);
      if (e->op == O_SDIV)
        r = ite(Xor(sa, sb), neg(q), q);
      else
        r = ite(sa, neg(m), m);
      break;
    }
    case O_SHL:
    case O_LSHR:
    case O_ASHR:
      r = shift((Op)e->op, A(), B());
      break;
    case O_CONCAT:
      r = B();
      r.insert(r.end(), A().begin(), A().end());
      break;
    case O_EXTRACT:
      r.assign(A().begin() + e->v, A().begin() + e->v + e->w);
      break;
    case O_ZEXT:
      r = A();
      r.resize(e->w, -1);
      break;
    case O_SEXT:
      r = A();
      r.resize(e->w, A().back());
      break;
    case O_ITE:
      r = ite(A()[0], B(), C());
      break;
    case O_EQ:
      r = {eq(A(), B())};
      break;
    case O_ULT:
      r = {ult(A(), B())};
      break;
    case O_SLT: {
      V a = A(), b = B();
      a.back() = -a.back();
      b.back() = -b.back();
      r = {ult(a, b)};
      break;
    }
    }
    memo[e] = std::move(r);
  }
};
} // namespace

bool writeCnf(const std::string &path, const std::vector<E> &asserts,
              CnfOut &out) {
  Blaster B;
  B.f = fopen(path.c_str(), "w");
  if (!B.f)
    return false;
  // fixed-size header patched at the end
  fprintf(B.f, "p cnf %10d %12d\n", 0, 0);
  B.cl({1});
  auto order = topo(asserts);
  for (E e : order)
    B.blast(e);
  for (E a : asserts)
    B.cl({B.memo[a][0]});
  B.flush();
  fseek(B.f, 0, SEEK_SET);
  fprintf(B.f, "p cnf %10d %12zu\n", B.nv, B.nc);
  fclose(B.f);
  out.varbits.assign(XC.vars.size(), {});
  for (E e : order)
    if (e->op == O_VAR)
      out.varbits[e->v] = B.memo[e];
  out.nvars = B.nv;
  out.nclauses = B.nc;
  return true;
}

// ---------------------------------------------------------------------------
SolveCfg SC;
static int qcount = 0;

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static std::string slurp(const std::string &p) {
  std::string s;
  FILE *f = fopen(p.c_str(), "r");
  if (!f)
    return s;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0)
    s.append(b, n);
  fclose(f);
  return s;
}

static pid_t spawn(const std::vector<std::string> &argv, const std::string &out) {
  pid_t p = fork();
  if (p == 0) {
    setpgid(0, 0);
    int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 1);
    dup2(fd, 2);
    int nul = open("/dev/null", O_RDONLY);
    dup2(nul, 0);
    std::vector<char *> a;
    for (auto &s : argv)
      a.push_back((char *)s.c_str());
    a.push_back(nullptr);
    execvp(a[0], a.data());
    _exit(127);
  }
  return p;
}

static bool parseSmtModel(const std::string &s, SolveResult &r) {
  // ((v1 #x..) (v2 true) ...)
  size_t i = 0;
  while ((i = s.find("(v", i)) != std::string::npos) {
    i += 2;
    char *end;
    unsigned long idx = strtoul(s.c_str() + i, &end, 10);
    const char *p = end;
    while (*p == ' ' || *p == '\n')
      p++;
    uint64_t v = 0;
    if (!strncmp(p, "true", 4))
      v = 1;
    else if (!strncmp(p, "false", 5))
      v = 0;
    else if (p[0] == '#' && p[1] == 'x')
      v = strtoull(p + 2, nullptr, 16);
    else if (p[0] == '#' && p[1] == 'b')
      v = strtoull(p + 2, nullptr, 2);
    else if (!strncmp(p, "(_ bv", 5))
      v = strtoull(p + 5, nullptr, 10);
    else
      return false;
    r.model[idx] = v;
  }
  return true;
}

// Multiplications and divisions are hopeless to compare at bit level, so
// operands of such nodes that are provably equal are first replaced by one
// representative; equal operations then become the same node.
static bool hardOp(E e) {
  return (e->op == O_MUL || e->op == O_UDIV || e->op == O_SDIV ||
          e->op == O_UREM || e->op == O_SREM) &&
         e->w >= 16 && !isConst(e->a) && !isConst(e->b);
}
static E rebuildNode(E e, E a, E b, E c) {
  switch (e->op) {
  case O_NOT: return mkNot(a);
  case O_CONCAT: return mkConcat(a, b);
  case O_EXTRACT: return mkExtract(a, e->v, e->w);
  case O_ZEXT: return mkZExt(a, e->w);
  case O_SEXT: return mkSExt(a, e->w);
  case O_ITE: return mkIte(a, b, c);
  default: return mkBin((Op)e->op, a, b);
  }
}
static int sweeping = 0;
static std::vector<E> sweepOperands(const std::vector<E> &asserts) {
  auto order = topo(asserts);
  std::vector<E> args;
  std::unordered_set<E> seen;
  int hard = 0;
  for (E e : order)
    if (hardOp(e)) {
      hard++;
      for (E x : {e->a, e->b})
        if (seen.insert(x).second)
          args.push_back(x);
    }
  if (hard < 2 || hard > 64)
    return asserts;
  uint64_t seed = 0x9e3779b97f4a7c15ull;
  std::map<E, std::vector<uint64_t>> sig;
  for (int round = 0; round < 24; round++) {
    Evaluator ev;
    for (E e : order)
      if (e->op == O_VAR) {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        ev.val[e->v] = (round & 3) == 3 ? (seed >> 60 ? 1 : 0) : seed & maskw(e->w);
      }
    for (E x : args)
      for (uint64_t v : ev.evalWide(x))
        sig[x].push_back(v);
  }
  std::map<std::vector<uint64_t>, E> rep;
  std::unordered_map<E, E> sub;
  sweeping++;
  for (E x : args) {
    auto key = sig[x];
    key.push_back(x->w);
    auto it = rep.find(key);
    if (it == rep.end()) {
      rep[key] = x;
      continue;
    }
    auto r = solveQuery({mkNot(mkEq(x, it->second))}, 10, "z3,kissat");
    if (r.v == V_UNSAT)
      sub[x] = it->second;
  }
  sweeping--;
  if (sub.empty())
    return asserts;
  std::unordered_map<E, E> m;
  auto get = [&](E e) { return e ? m[e] : nullptr; };
  for (E e : order) {
    E n = e;
    if (e->op != O_CONST && e->op != O_VAR) {
      E a = get(e->a), b = get(e->b), c = get(e->c);
      if (a != e->a || b != e->b || c != e->c)
        n = rebuildNode(e, a, b, c);
    }
    m[e] = n;
    auto it = sub.find(e);
    if (it != sub.end())
      m[e] = m.count(it->second) ? m[it->second] : it->second;
  }
  std::vector<E> out;
  for (E a : asserts)
    out.push_back(m[a]);
  return out;
}

SolveResult solveQuery(const std::vector<E> &asserts00, double timeout,
                       const std::string &which) {
  std::vector<E> asserts0 = sweeping ? asserts00 : sweepOperands(asserts00);
  SolveResult R;
  double t0 = now();
  std::vector<E> asserts;
  for (E a : asserts0) {
    if (isFalse(a)) {
      R.v = V_UNSAT;
      R.solver = "simplifier";
      return R;
    }
    if (!isTrue(a))
      asserts.push_back(a);
  }
  if (asserts.empty()) {
    R.v = V_SAT;
    R.solver = "simplifier";
    return R;
  }
  int q = __sync_add_and_fetch(&qcount, 1);
  std::string base = SC.tmp + "/q" + std::to_string(getpid()) + "_" + std::to_string(q);
  struct Run {
    std::string name, out;
    pid_t pid;
    bool sat;
    std::vector<std::string> files;
  };
  std::vector<Run> runs;
  std::string smt = base + ".smt2", cnf = base + ".cnf";
  CnfOut co;
  bool needSmt = which.find("z3") != std::string::npos || which.find("cvc5") != std::string::npos;
  if (needSmt) {
    FILE *f = fopen(smt.c_str(), "w");
    if (!f) {
      R.note = "cannot write query";
      return R;
    }
    writeSmt2(f, asserts, true);
    fclose(f);
  }
  if (which.find("z3") != std::string::npos)
    runs.push_back({"z3", base + ".z3", spawn({"z3-new", "-T:" + std::to_string((int)timeout + 1), smt}, base + ".z3"), false, {}});
  if (which.find("cvc5") != std::string::npos)
    runs.push_back({"cvc5", base + ".cvc5", spawn({"cvc5", "--tlimit=" + std::to_string((int)(timeout * 1000)), smt}, base + ".cvc5"), false, {}});
  if (which.find("cvcint") != std::string::npos)
    runs.push_back({"cvcint", base + ".cvcint", spawn({"cvc5", "--solve-bv-as-int=sum", "--tlimit=" + std::to_string((int)(timeout * 1000)), smt}, base + ".cvcint"), false, {}});
  if (which.find("kissat") != std::string::npos) {
    if (writeCnf(cnf, asserts, co)) {
      R.cnfVars = co.nvars;
      R.cnfClauses = co.nclauses;
      runs.push_back({"kissat", base + ".kis", spawn({"kissat", "-q", "--time=" + std::to_string((int)timeout + 1), cnf}, base + ".kis"), true, {}});
    }
  }
  size_t alive = runs.size();
  std::vector<bool> done(runs.size(), false);
  while (alive && R.v == V_UNKNOWN) {
    bool any = false;
    for (size_t i = 0; i < runs.size() && R.v == V_UNKNOWN; i++) {
      if (done[i])
        continue;
      int st;
      pid_t p = waitpid(runs[i].pid, &st, WNOHANG);
      if (p != runs[i].pid)
        continue;
      any = true;
      done[i] = true;
      alive--;
      std::string o = slurp(runs[i].out);
      if (runs[i].sat) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 20 && o.find("s UNSATISFIABLE") != std::string::npos)
          R.v = V_UNSAT;
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 10) {
          std::vector<char> asg(co.nvars + 2, 0);
          const char *p = o.c_str();
          while (p && *p) {
            if (*p == 'v') {
              char *e = (char *)p + 1;
              while (*e && *e != '\n') {
                char *e2;
                long l = strtol(e, &e2, 10);
                if (e2 == e)
                  break;
                e = e2;
                if (l > 0 && l <= co.nvars)
                  asg[l] = 1;
              }
            }
            p = strchr(p, '\n');
            if (p)
              p++;
          }
          for (size_t v = 0; v < co.varbits.size(); v++) {
            if (co.varbits[v].empty())
              continue;
            uint64_t x = 0;
            for (size_t b = 0; b < co.varbits[v].size(); b++)
              if (asg[co.varbits[v][b]])
                x |= 1ull << b;
            R.model[v] = x;
          }
          R.v = V_SAT;
        }
      } else {
        if (o.find("(error") != std::string::npos &&
            !(o.compare(0, 5, "unsat") == 0)) {
          R.note += runs[i].name + ": " + o.substr(0, 200);
        } else if (o.compare(0, 5, "unsat") == 0)
          R.v = V_UNSAT;
        else if (o.compare(0, 3, "sat") == 0) {
          if (parseSmtModel(o, R))
            R.v = V_SAT;
        }
      }
      if (R.v != V_UNKNOWN)
        R.solver = runs[i].name;
    }
    if (R.v == V_UNKNOWN && !any) {
      if (now() - t0 > timeout + 3)
        break;
      usleep(now() - t0 < 0.5 ? 1000 : 10000);
    }
  }
  for (size_t i = 0; i < runs.size(); i++)
    if (!done[i]) {
      kill(-runs[i].pid, SIGKILL);
      kill(runs[i].pid, SIGKILL);
      int st;
      waitpid(runs[i].pid, &st, 0);
    }
  if (!SC.keep) {
    for (auto &r : runs)
      unlink(r.out.c_str());
    unlink(smt.c_str());
    unlink(cnf.c_str());
  }
  R.secs = now() - t0;
  if (R.v == V_SAT) {
    // a model is only accepted if the formula evaluates to true under it
    Evaluator ev;
    ev.val = R.model;
    for (E a : asserts00)
      if (!ev.eval(a)) {
        R.v = V_UNKNOWN;
        R.note += "model from " + R.solver + " does not satisfy the formula";
        break;
      }
  }
  return R;
}
