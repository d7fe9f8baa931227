// Random differential test: simplifying constructors vs. raw evaluation, and
// the CNF / SMT emitters vs. the evaluator.
#include "expr.h"
#include "solve.h"
#include <random>
#include <cassert>
static std::mt19937_64 R;
static uint64_t rnd() { return R(); }
struct Raw { E e; std::vector<uint64_t> val; };
int main(int argc, char **argv) {
  int rounds = argc > 1 ? atoi(argv[1]) : 200;
  int solv = argc > 2 ? atoi(argv[2]) : 20;
  R.seed(argc > 3 ? atoi(argv[3]) : 1);
  const int NS = 24;
  unsigned ws[] = {1, 1, 2, 3, 5, 8, 16, 32, 64};
  int bad = 0, nq = 0;
  for (int r = 0; r < rounds; r++) {
    std::vector<Raw> pool;
    std::vector<std::vector<uint64_t>> asg; // per var samples
    for (int i = 0; i < 8; i++) {
      unsigned w = ws[rnd() % 9];
      std::string nm = "r" + std::to_string(r) + "_" + std::to_string(i);
      E v = mkVar(nm, w);
      Raw x{v, {}};
      for (int s = 0; s < NS; s++) {
        uint64_t t = rnd() & maskw(w);
        if (rnd() % 3 == 0) t &= 3;
        x.val.push_back(t & maskw(w));
      }
      pool.push_back(x);
    }
    for (int i = 0; i < 4; i++) {
      unsigned w = ws[rnd() % 9];
      uint64_t c = rnd() % 3 ? rnd() % 9 : rnd();
      if (rnd() % 4 == 0) c = ~c;
      Raw x{mkConst(w, c), std::vector<uint64_t>(NS, c & maskw(w))};
      pool.push_back(x);
    }
    for (int i = 0; i < 120; i++) {
      auto pick = [&]() -> Raw & { return pool[rnd() % 2 ? rnd() % pool.size() : pool.size() - 1 - rnd() % std::min<size_t>(pool.size(), 20)]; };
      auto coerce = [&](const Raw &x, unsigned w) {
        Raw y = x;
        if (x.e->w > w) { y.e = mkExtract(x.e, 0, w); for (auto &v : y.val) v &= maskw(w); }
        else if (x.e->w < w) { y.e = mkZExt(x.e, w); }
        return y;
      };
      int op = rnd() % 22;
      Raw a = pick(), b = pick(), c = pick();
      Raw o; o.val.resize(NS);
      auto bin = [&](Op p) {
        b = coerce(b, a.e->w);
        o.e = mkBin(p, a.e, b.e);
        for (int s = 0; s < NS; s++) o.val[s] = evalOp(p, o.e->w, 0, a.e->w, a.val[s], b.e->w, b.val[s], 0);
      };
      static const Op bo[] = {O_AND,O_OR,O_XOR,O_ADD,O_SUB,O_MUL,O_UDIV,O_SDIV,O_UREM,O_SREM,O_SHL,O_LSHR,O_ASHR,O_EQ,O_ULT,O_SLT};
      if (op < 16) bin(bo[op]);
      else if (op == 16) { o.e = mkNot(a.e); for (int s=0;s<NS;s++) o.val[s] = ~a.val[s] & maskw(a.e->w); }
      else if (op == 17) { if (a.e->w + b.e->w > 64) continue; o.e = mkConcat(a.e,b.e); for (int s=0;s<NS;s++) o.val[s] = (a.val[s] << b.e->w) | b.val[s]; }
      else if (op == 18) { unsigned lo = rnd()%a.e->w, w = 1 + rnd()%(a.e->w-lo); o.e = mkExtract(a.e,lo,w); for (int s=0;s<NS;s++) o.val[s] = (a.val[s]>>lo)&maskw(w); }
      else if (op == 19) { unsigned w = a.e->w + rnd()%(65-a.e->w); o.e = mkZExt(a.e,w); o.val = a.val; }
      else if (op == 20) { unsigned w = a.e->w + rnd()%(65-a.e->w); o.e = mkSExt(a.e,w); for (int s=0;s<NS;s++) o.val[s]=evalOp(O_SEXT,w,0,a.e->w,a.val[s],0,0,0); }
      else { Raw k = coerce(c,1); b = coerce(b,a.e->w); o.e = mkIte(k.e,a.e,b.e); for (int s=0;s<NS;s++) o.val[s]=k.val[s]?a.val[s]:b.val[s]; }
      for (int s = 0; s < NS; s++) {
        uint64_t v = o.val[s];
        if ((v & o.e->k0) || (~v & o.e->k1) || v < o.e->lo || v > o.e->hi) { printf("ANALYSIS mismatch op %d w %u\n", op, o.e->w); bad++; break; }
      }
      pool.push_back(o);
    }
    for (int s = 0; s < NS; s++) {
      Evaluator ev;
      for (int i = 0; i < 8; i++) ev.val[pool[i].e->v] = pool[i].val[s];
      for (size_t i = 0; i < pool.size(); i++)
        if (ev.eval(pool[i].e) != pool[i].val[s]) {
          printf("MISMATCH round %d pool %zu w %u got %llx want %llx\n", r, i, pool[i].e->w, (unsigned long long)ev.eval(pool[i].e), (unsigned long long)pool[i].val[s]);
          bad++; i = pool.size(); s = NS;
        }
    }
    if (bad > 5) break;
    if (r < solv) {
      // fix inputs; each solver must agree that outputs equal the evaluation
      std::vector<E> fix; E all = mkTrue();
      for (int i = 0; i < 8; i++) fix.push_back(mkEq(pool[i].e, mkConst(pool[i].e->w, pool[i].val[0])));
      for (size_t i = 12; i < pool.size(); i++) all = mkAnd(all, mkEq(pool[i].e, mkConst(pool[i].e->w, pool[i].val[0])));
      auto f1 = fix; f1.push_back(mkNot(all));
      auto f2 = fix; f2.push_back(all);
      for (const char *w : {"z3", "kissat", "cvc5"}) {
        auto r1 = solveQuery(f1, 60, w), r2 = solveQuery(f2, 60, w);
        nq += 2;
        if (r1.v != V_UNSAT || r2.v != V_SAT) { printf("SOLVER %s disagree %d %d %s %s\n", w, r1.v, r2.v, r1.note.c_str(), r2.note.c_str()); bad++; }
      }
    }
  }
  printf("selftest: %s nodes=%llu queries=%d\n", bad ? "FAIL" : "ok", (unsigned long long)exprCount(), nq);
  return bad ? 1 : 0;
}
