// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <z3.h>

namespace sx {
using u128 = unsigned __int128;
using i128 = __int128;
using u64 = uint64_t;
using u32 = uint32_t;

enum Op : uint8_t {
  K, V, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, SLT, ITE, CONCAT, EXTRACT, ZEXT, SEXT,
  // IEEE operations on bit patterns (32 or 64 bits wide)
  FADD, FSUB, FMUL, FDIV, FOEQ, FOLT, FOLE, FUNO, FP2SI, FP2UI, SI2FP, UI2FP,
  FPEXT, FPTRUNC, FFLOOR, FCEIL, FTRUNC, FROUND, FSQRT, FNEG, FABS
};

struct VarSet { std::vector<u32> v; };

extern bool gModRewrite;  // turn conditional modular additions and subtractions into remainders
struct Expr {
  Op op;
  bool fp;  // contains an IEEE operation
  uint16_t w;
  u32 id;
  u32 a;  // extract low bit, variable index
  u128 c;
  u128 umax;
  Expr* k[3];
  const VarSet* vs;
  Z3_ast z;
  u64 evId;
  u128 evVal;
  int nk() const;
  bool isK() const { return op == K; }
  bool isKv(u128 v) const { return op == K && c == v; }
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextv(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ m) - m);
}

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> g_vars;

Expr* mkK(u128 v, unsigned w);
Expr* mkVar(const std::string& name, unsigned w);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkNot(Expr* a);  // boolean
Expr* mkIte(Expr* c, Expr* t, Expr* f);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* e, unsigned lo, unsigned w);
Expr* mkZExt(Expr* e, unsigned w);
Expr* mkSExt(Expr* e, unsigned w);
Expr* mkF(Op op, unsigned w, Expr* a, Expr* b = nullptr);
inline Expr* mkAnd(Expr* a, Expr* b) { return mkBin(AND, a, b); }
inline Expr* mkOr(Expr* a, Expr* b) { return mkBin(OR, a, b); }
inline Expr* mkEq(Expr* a, Expr* b) { return mkBin(EQ, a, b); }
inline Expr* mkUle(Expr* a, Expr* b) { return mkNot(mkBin(ULT, b, a)); }
inline Expr* mkUlt(Expr* a, Expr* b) { return mkBin(ULT, a, b); }

// A model: values for variables (missing = 0). id is unique, never 0.
struct Model {
  u64 id;
  std::unordered_map<u32, u128> v;
};
u64 newModelId();
u128 evalExpr(Expr* e, const Model& m);
u128 foldOp(Op op, unsigned w, u128 a, unsigned wa, u128 b, unsigned wb, u128 c, u32 aux);
std::string exprStr(Expr* e, int depth = 6);
size_t exprCount();
}  // namespace sx
