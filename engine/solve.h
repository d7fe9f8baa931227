#pragma once
#include "expr.h"
struct SolveCfg {
  std::string tmp = "/tmp";
  bool keep = false;
};
extern SolveCfg SC;
SolveResult solveQuery(const std::vector<E> &asserts, double timeout,
                       const std::string &which);
