#pragma once
#include "expr.h"
struct SolverStats { uint64_t queries, sat, unsat, unknown, ttDecided, modelHits; double seconds; };
struct Solver {
  Z3_context ctx = nullptr; Z3_solver s = nullptr; uint32_t gen = 1; uint32_t nproxy = 0; uint64_t nodes = 0;
  SolverStats st{};
  unsigned rlimit = 0;
  void init();
  void reset();
  Z3_ast tr(E e);
  bool hasFp(E e);
  // 1 sat, 0 unsat, -1 unknown. cs: constraints. On sat fills model for the given symbols.
  int check(const std::vector<E>& cs, const std::vector<uint32_t>& syms, std::vector<uint64_t>& model);
private:
  Z3_sort bv(unsigned w);
  std::vector<Z3_ast> symAst;
  std::unordered_map<E, bool> fpMemo;
  bool anyFp = false;
};
extern Solver SOLVER;
double nowSec();
extern double solverDeadline;
