#pragma once
#include "expr.h"
#include <unordered_map>
#include <vector>
namespace sx {
enum Res { SAT, UNSAT, UNKNOWN };
struct SolverStats {
  u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, intQueries = 0, hardQueries = 0;
  double time = 0, maxTime = 0;
};
struct Solver {
  SolverStats st;
  unsigned timeoutMs = 60000;
  unsigned fastMs = 1000;
  bool preferInt = false;
  std::string dumpDir;
  Solver();
  // Satisfiability of the conjunction; on SAT fills `out` for the variables that occur.
  Res check(const std::vector<Expr*>& cs, std::vector<std::pair<u32, u128>>* out);
 private:
  Z3_context c; Z3_solver inc; int incUses = 0;
  struct Ent { Res r; std::vector<std::pair<u32, u128>> m; };
  struct KH { size_t operator()(const std::vector<u32>& v) const { u64 h = v.size(); for (u32 x : v) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; } return h; } };
  std::unordered_map<std::vector<u32>, Ent, KH> cache;
  std::vector<Z3_ast> zvars;
  Z3_ast bv(Expr* e);
  Z3_ast conv1(Expr* e);
  Z3_ast boolOf(Expr* e);
  Z3_ast fpOf(Z3_ast b, unsigned w);
  Z3_sort sortOf(unsigned w); std::unordered_map<unsigned, Z3_sort> sorts;
  Z3_solver mkSolver(const char* logic, unsigned ms);
  Res runBV(Z3_solver s, const std::vector<Expr*>& cs, std::vector<std::pair<u32, u128>>* out);
  Res runInt(const std::vector<Expr*>& cs, std::vector<std::pair<u32, u128>>* out, unsigned ms);
  std::unordered_map<Expr*, Z3_ast> imap; std::vector<Z3_ast> iside; std::unordered_map<u32, Z3_ast> ivars; bool ifail = false;
  Z3_ast iconv(Expr* e); Z3_ast ib(Expr* e); Z3_ast inum(u128 v);
  void readModel(Z3_solver s, const std::vector<Expr*>& cs, std::vector<std::pair<u32, u128>>* out, bool ints);
  void restart();
};
}
