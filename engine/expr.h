// Hash-consed bit-vector expression DAG with eager simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

enum Op : uint8_t {
  O_CONST,
  O_VAR,
  O_NOT,
  O_AND,
  O_OR,
  O_XOR,
  O_ADD,
  O_SUB,
  O_MUL,
  O_UDIV,
  O_SDIV,
  O_UREM,
  O_SREM,
  O_SHL,
  O_LSHR,
  O_ASHR,
  O_CONCAT,
  O_EXTRACT,
  O_ZEXT,
  O_SEXT,
  O_ITE,
  O_EQ,
  O_ULT,
  O_SLT,
  O_NUM
};

struct Node {
  uint8_t op;
  uint8_t constite; // all leaves constant (ITE tree over constants)
  uint16_t w;
  uint32_t id;
  uint64_t v; // CONST value / VAR index / EXTRACT low bit
  const Node *a, *b, *c;
  uint64_t k0, k1; // known-zero / known-one bits (w<=64)
  uint64_t lo, hi; // unsigned interval (w<=64)
  uint32_t nleaf;  // leaves of a constite tree (saturating)
  uint64_t h;
};
using E = const Node *;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

struct VarInfo {
  std::string name; // replay key
  unsigned w;
};

struct ExprCtx {
  std::vector<VarInfo> vars;
  std::vector<E> varnode;
  std::unordered_map<std::string, E> varByName;
};
extern ExprCtx XC;

E mkConst(unsigned w, uint64_t v);
E mkVar(const std::string &name, unsigned w);
E mkTrue();
E mkFalse();
inline bool isConst(E e) { return e->op == O_CONST; }
inline bool isTrue(E e) { return e->op == O_CONST && e->w == 1 && e->v == 1; }
inline bool isFalse(E e) { return e->op == O_CONST && e->w == 1 && e->v == 0; }

E mkNot(E a);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkXor(E a, E b);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkNeg(E a);
E mkMul(E a, E b);
E mkUDiv(E a, E b);
E mkSDiv(E a, E b);
E mkURem(E a, E b);
E mkSRem(E a, E b);
E mkShl(E a, E b);
E mkLShr(E a, E b);
E mkAShr(E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkEq(E a, E b);
inline E mkNe(E a, E b) { return mkNot(mkEq(a, b)); }
E mkUlt(E a, E b);
E mkSlt(E a, E b);
inline E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
inline E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }
E mkImplies(E a, E b);
E mkBin(Op op, E a, E b);
// raw semantic evaluation of one operator on constants (w<=64)
uint64_t evalOp(Op op, unsigned w, uint64_t v, unsigned wa, uint64_t a,
                unsigned wb, uint64_t b, uint64_t c);

uint64_t exprCount();

// Evaluation under an assignment of variables (wide nodes are kept as vectors).
struct Evaluator {
  std::unordered_map<uint32_t, uint64_t> val; // var index -> value
  std::unordered_map<E, std::vector<uint64_t>> memo;
  const std::vector<uint64_t> &evalWide(E e);
  uint64_t eval(E e);
};

// Solving ------------------------------------------------------------------
enum Verdict { V_SAT, V_UNSAT, V_UNKNOWN };
struct SolveResult {
  Verdict v = V_UNKNOWN;
  std::string solver;
  double secs = 0;
  std::unordered_map<uint32_t, uint64_t> model; // var index -> value
  std::string note;
  int cnfVars = 0;
  size_t cnfClauses = 0;
};
void writeSmt2(FILE *f, const std::vector<E> &asserts, bool wantModel);
// CNF through structural-hashing AIG; returns var->cnf literal map for models.
struct CnfOut {
  std::vector<std::vector<int>> varbits; // indexed by var index
  int nvars = 0;
  size_t nclauses = 0;
  bool trivFalse = false;
};
bool writeCnf(const std::string &path, const std::vector<E> &asserts,
              CnfOut &out);
