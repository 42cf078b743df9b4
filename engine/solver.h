#pragma once
#include "expr.h"
#include "real.h"
#include <z3.h>
struct RModel { std::map<uint32_t, Q> atom; bool exact = true; };
enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
struct SolverStats { uint64_t queries = 0, z3calls = 0, cacheHits = 0, modelHits = 0, unsat = 0, sat = 0, unknown = 0; double secs = 0, maxSecs = 0; };
struct PathCond { std::vector<E> cs; };
struct Solver {
  Z3_context ctx; SolverStats st; unsigned timeoutMs = 20000; bool verbose = false; std::string dumpDir;
  Solver();
  // is pc && cond satisfiable?  cur: a model of pc.
  Res check(const std::vector<E>& pc, E cond, const ModelP& cur, ModelP* out);
  // evaluate a boolean in a model; returns false when undetermined (real mode)
  static bool evalBool(E c, const Model& m, bool& val);
  static bool evalReal(E e, const Model& m, Q& q);
private:
  std::unordered_map<E, Z3_ast> bvMemo, fpMemo; std::unordered_map<E, Z3_ast> rMemo;
  std::vector<ModelP> recent;
  struct CacheEnt { Res r; ModelP m; };
  std::map<std::vector<uint32_t>, CacheEnt> cache;
  Z3_sort fpSort(unsigned w); Z3_ast bv(E e), fp(E e), rl(E e), tr(E e);
  Z3_ast bval(u128 v, unsigned w);
  std::unordered_map<uint32_t, Z3_func_decl> fns;
  Z3_ast boolOf(E e); Z3_ast polyAst(const Poly& p);
  Res solve(const std::vector<E>& cs, const ModelP& cur, ModelP* out);
  void collectReal(E e, std::vector<E>& atoms, std::unordered_map<E,bool>& seen);
  void collect(E e, std::vector<E>& syms, std::vector<E>& apps, std::unordered_map<E,bool>& seen);
};
