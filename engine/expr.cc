#include <map>
#include "expr.h"
#include <cmath>
#include <cstring>
#include <algorithm>
#include <set>
#include <cstdio>

namespace sx {
std::vector<VarInfo> g_vars;

int Expr::nk() const {
  switch (op) {
    case K: case V: return 0;
    case EXTRACT: case ZEXT: case SEXT: case FP2SI: case FP2UI: case SI2FP: case UI2FP:
    case FPEXT: case FPTRUNC: case FFLOOR: case FCEIL: case FTRUNC: case FROUND: case FSQRT: case FNEG: case FABS:
      return 1;
    case ITE: return 3;
    default: return 2;
  }
}

static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
struct Table {
  std::vector<Expr*> slots; size_t n = 0;
  Table() { slots.assign(1 << 16, nullptr); }
  static u64 hash(Op op, unsigned w, u32 a, u128 c, Expr* k0, Expr* k1, Expr* k2) {
    u64 h = mix(op, w); h = mix(h, a); h = mix(h, (u64)c); h = mix(h, (u64)(c >> 64));
    h = mix(h, (u64)k0); h = mix(h, (u64)k1); h = mix(h, (u64)k2); return h ^ (h >> 29);
  }
  void grow() {
    std::vector<Expr*> o; o.swap(slots); slots.assign(o.size() * 2, nullptr);
    for (Expr* e : o) if (e) {
      u64 h = hash(e->op, e->w, e->a, e->c, e->k[0], e->k[1], e->k[2]) & (slots.size() - 1);
      while (slots[h]) h = (h + 1) & (slots.size() - 1);
      slots[h] = e;
    }
  }
};
static Table& tab() { static Table t; return t; }
size_t exprCount() { return tab().n; }

struct VSHash { size_t operator()(const std::vector<u32>& v) const { u64 h = v.size(); for (u32 x : v) h = mix(h, x); return h; } };
static const VarSet* internVS(const std::vector<u32>& v) {
  static std::unordered_map<std::vector<u32>, VarSet*, VSHash> m;
  auto it = m.find(v); if (it != m.end()) return it->second;
  VarSet* s = new VarSet{v}; m.emplace(v, s); return s;
}
static const VarSet* emptyVS() { static const VarSet* e = internVS({}); return e; }
static const VarSet* unionVS(const VarSet* a, const VarSet* b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  std::vector<u32> r; r.reserve(a->v.size() + b->v.size());
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  if (r.size() == a->v.size()) return a;
  if (r.size() == b->v.size()) return b;
  return internVS(r);
}

static u128 calcMax(Op op, unsigned w, u32 a, u128 c, Expr* x, Expr* y, Expr* z) {
  u128 m = maskw(w);
  switch (op) {
    case K: return c;
    case ADD: { u128 s = x->umax + y->umax; return (s < x->umax || s > m) ? m : s; }
    case SUB: return x->isK() && x->c >= y->umax ? x->c : m;
    case MUL: { if (x->umax == 0 || y->umax == 0) return 0; if (x->umax > m / y->umax) return m; return x->umax * y->umax; }
    case UDIV: if (y->isK() && y->c) return x->umax / y->c; return m;
    case UREM: { u128 r = x->umax; if (y->umax && y->umax - 1 < r) r = y->umax - 1; return r; }
    case AND: return std::min(x->umax, y->umax);
    case OR: case XOR: { u128 r = x->umax | y->umax; unsigned b = 0; while (r) { r >>= 1; b++; } return maskw(b); }
    case ITE: return std::max(y->umax, z->umax);
    case CONCAT: return (x->umax << y->w) | maskw(y->w);
    case EXTRACT: { if (a == 0 && x->umax <= m) return x->umax; u128 s = x->umax >> a; return s <= m ? s : m; }
    case ZEXT: return x->umax;
    case LSHR: if (y->isK()) return y->c >= w ? 0 : (x->umax >> (unsigned)y->c); return x->umax;
    default: return m;
  }
}

static Expr* cons(Op op, unsigned w, u32 a, u128 c, Expr* k0, Expr* k1 = nullptr, Expr* k2 = nullptr) {
  Table& t = tab();
  if (t.n * 2 > t.slots.size()) t.grow();
  u64 h = Table::hash(op, w, a, c, k0, k1, k2) & (t.slots.size() - 1);
  while (Expr* e = t.slots[h]) {
    if (e->op == op && e->w == w && e->a == a && e->c == c && e->k[0] == k0 && e->k[1] == k1 && e->k[2] == k2) return e;
    h = (h + 1) & (t.slots.size() - 1);
  }
  Expr* e = new Expr;
  e->op = op; e->w = w; e->a = a; e->c = c; e->k[0] = k0; e->k[1] = k1; e->k[2] = k2;
  e->fp = (op >= FADD && op != FNEG && op != FABS) || (k0 && k0->fp) || (k1 && k1->fp) || (k2 && k2->fp);
  e->id = (u32)t.n++; e->z = nullptr; e->evId = 0; e->evVal = 0;
  if (op == V) e->vs = internVS({a});
  else {
    const VarSet* s = emptyVS();
    if (k0) s = k0->vs;
    if (k1) s = unionVS(s, k1->vs);
    if (k2) s = unionVS(s, k2->vs);
    e->vs = s;
  }
  e->umax = calcMax(op, w, a, c, k0, k1, k2);
  t.slots[h] = e;
  return e;
}

Expr* mkK(u128 v, unsigned w) { return cons(K, w, 0, v & maskw(w), nullptr); }
Expr* mkVar(const std::string& name, unsigned w) {
  u32 i = g_vars.size(); g_vars.push_back({name, w});
  return cons(V, w, i, 0, nullptr);
}

static double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
static u128 ofD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static u128 ofF(float d) { u32 x; memcpy(&x, &d, 4); return x; }

u128 foldOp(Op op, unsigned w, u128 a, unsigned wa, u128 b, unsigned wb, u128 c, u32 aux) {
  u128 m = maskw(w);
  switch (op) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b ? (a / b) & m : m;
    case UREM: return b ? (a % b) & m : a;
    case SDIV: { i128 x = sextv(a, w), y = sextv(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case SREM: { i128 x = sextv(a, w), y = sextv(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case ASHR: { i128 x = sextv(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case EQ: return a == b;
    case ULT: return a < b;
    case SLT: return sextv(a, wa) < sextv(b, wa);
    case ITE: return a ? b : c;
    case CONCAT: return ((a << wb) | b) & m;
    case EXTRACT: return (a >> aux) & m;
    case ZEXT: return a;
    case SEXT: return (u128)sextv(a, wa) & m;
    case FADD: return w == 64 ? ofD(asD(a) + asD(b)) : ofF(asF(a) + asF(b));
    case FSUB: return w == 64 ? ofD(asD(a) - asD(b)) : ofF(asF(a) - asF(b));
    case FMUL: return w == 64 ? ofD(asD(a) * asD(b)) : ofF(asF(a) * asF(b));
    case FDIV: return w == 64 ? ofD(asD(a) / asD(b)) : ofF(asF(a) / asF(b));
    case FOEQ: return wa == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
    case FOLT: return wa == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
    case FOLE: return wa == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
    case FUNO: return wa == 64 ? (std::isnan(asD(a)) || std::isnan(asD(b))) : (std::isnan(asF(a)) || std::isnan(asF(b)));
    case FP2SI: { double d = wa == 64 ? asD(a) : asF(a); if (!(d > -9.3e18 && d < 9.3e18)) return ((u128)1 << (w - 1)); if (w == 64 && d >= 9223372036854775808.0) return ((u128)1 << 63); return (u128)(i128)(int64_t)d & m; }
    case FP2UI: { double d = wa == 64 ? asD(a) : asF(a); if (!(d >= 0 && d < 18446744073709551616.0)) return ((u128)1 << (w - 1)); return (u128)(u64)d & m; }
    case SI2FP: { int64_t x = (int64_t)sextv(a, wa); return w == 64 ? ofD((double)x) : ofF((float)x); }
    case UI2FP: { u64 x = (u64)a; return w == 64 ? ofD((double)x) : ofF((float)x); }
    case FPEXT: return ofD((double)asF(a));
    case FPTRUNC: return ofF((float)asD(a));
    case FFLOOR: return w == 64 ? ofD(std::floor(asD(a))) : ofF(std::floor(asF(a)));
    case FCEIL: return w == 64 ? ofD(std::ceil(asD(a))) : ofF(std::ceil(asF(a)));
    case FTRUNC: return w == 64 ? ofD(std::trunc(asD(a))) : ofF(std::trunc(asF(a)));
    case FROUND: return w == 64 ? ofD(std::round(asD(a))) : ofF(std::round(asF(a)));
    case FSQRT: return w == 64 ? ofD(std::sqrt(asD(a))) : ofF(std::sqrt(asF(a)));
    case FNEG: return (a ^ ((u128)1 << (w - 1))) & m;
    case FABS: return a & (m >> 1);
    default: return 0;
  }
}

Expr* mkF(Op op, unsigned w, Expr* a, Expr* b) {
  if (a->isK() && (!b || b->isK())) return mkK(foldOp(op, w, a->c, a->w, b ? b->c : 0, b ? b->w : 0, 0, 0), w);
  return cons(op, w, 0, 0, a, b);
}

static bool isPow2(u128 v, unsigned& k) {
  if (!v || (v & (v - 1))) return false;
  k = 0; while (!((v >> k) & 1)) k++; return true;
}

Expr* mkNot(Expr* a) {
  if (a->isK()) return mkK(!a->c, 1);
  if (a->op == XOR && a->k[1]->isK()) return a->k[0];
  if (a->op == ITE && a->w == 1 && (a->k[1]->isK() || a->k[2]->isK())) return mkIte(a->k[0], mkNot(a->k[1]), mkNot(a->k[2]));
  return cons(XOR, 1, 0, 0, a, mkK(1, 1));
}
static bool isNotOf(Expr* a, Expr* b) { return a->w == 1 && a->op == XOR && a->k[1]->isK() && a->k[0] == b; }

bool gModRewrite = true;
// Conditional forms of addition and subtraction modulo a constant, as one remainder.
static Expr* modIte(Expr* c, Expr* t, Expr* f) {
  if (!gModRewrite || c->op != ULT || t->w < 8 || t->w > 64) return nullptr;
  Expr *x = c->k[0], *y = c->k[1]; unsigned w = t->w; u128 lim = maskw(w);
  // s < M ? s : s - M, and the same as the smaller of s and s - M
  auto wrap = [&](Expr* s, Expr* d, u128 M) -> Expr* {
    if (!M || M > (lim >> 1) || s->isK() || s->umax > 2 * M - 1) return nullptr;
    return d == mkBin(ADD, s, mkK(-M, w)) ? mkBin(UREM, s, mkK(M, w)) : nullptr;
  };
  if (y->isK() && x == t) if (Expr* r = wrap(t, f, y->c)) return r;
  if (x->isK() && y == f && x->c < lim) if (Expr* r = wrap(f, t, x->c + 1)) return r;
  if (x == t && y == f) {
    if (f->op == ADD && f->k[1]->isK()) if (Expr* r = wrap(t, f, (-f->k[1]->c) & lim)) return r;
    if (t->op == ADD && t->k[1]->isK()) if (Expr* r = wrap(f, t, (-t->k[1]->c) & lim)) return r;
  }
  // a < b ? M - b + a : a - b
  auto sub = [&](Expr* a, Expr* b, Expr* d, Expr* n) -> Expr* {
    if (a->w != w || d != mkBin(SUB, a, b)) return nullptr;
    u128 M = 0; bool got = false;
    if (n->op == ADD) {
      if (n->k[1]->isK() && n->k[0] == d) { M = n->k[1]->c; got = true; }
      for (int i = 0; i < 2 && !got; i++) if (n->k[i] == a && n->k[1 - i]->op == SUB && n->k[1 - i]->k[0]->isK() && n->k[1 - i]->k[1] == b) { M = n->k[1 - i]->k[0]->c; got = true; }
    }
    if (!got || !M || M > (lim >> 1) || a->umax >= M || b->umax >= M) return nullptr;
    return mkBin(UREM, mkBin(ADD, a, mkBin(SUB, mkK(M, w), b)), mkK(M, w));
  };
  if (Expr* r = sub(x, y, f, t)) return r;
  return nullptr;
}
Expr* mkIte(Expr* c, Expr* t, Expr* f) {
  if (c->isK()) return c->c ? t : f;
  if (t == f) return t;
  if (c->op == XOR && c->w == 1 && c->k[1]->isK()) return mkIte(c->k[0], f, t);
  if (t->op == ITE && t->k[0] == c) t = t->k[1];
  if (f->op == ITE && f->k[0] == c) f = f->k[2];
  if (t == f) return t;
  if (t->w == 1) {
    if (t->isK()) return t->c ? mkOr(c, f) : mkAnd(mkNot(c), f);
    if (f->isK()) return f->c ? mkOr(mkNot(c), t) : mkAnd(c, t);
  }
  if (Expr* r = modIte(c, t, f)) return r;
  // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
  if (f->op == ITE && f->k[1] == t) return mkIte(mkOr(c, f->k[0]), t, f->k[2]);
  return cons(ITE, t->w, 0, 0, c, t, f);
}

Expr* mkZExt(Expr* e, unsigned w) {
  if (w == e->w) return e;
  if (e->isK()) return mkK(e->c, w);
  if (e->op == ZEXT) return mkZExt(e->k[0], w);
  if (e->op == ITE && e->k[1]->isK() && e->k[2]->isK()) return mkIte(e->k[0], mkZExt(e->k[1], w), mkZExt(e->k[2], w));
  return cons(ZEXT, w, 0, 0, e);
}
Expr* mkSExt(Expr* e, unsigned w) {
  if (w == e->w) return e;
  if (e->isK()) return mkK((u128)sextv(e->c, e->w), w);
  if (e->op == SEXT) return mkSExt(e->k[0], w);
  if (e->op == ZEXT) return mkZExt(e->k[0], w);
  if (e->umax < ((u128)1 << (e->w - 1))) return mkZExt(e, w);
  if (e->op == ITE && e->k[1]->isK() && e->k[2]->isK()) return mkIte(e->k[0], mkSExt(e->k[1], w), mkSExt(e->k[2], w));
  return cons(SEXT, w, 0, 0, e);
}
static bool lowOk(Expr* x, unsigned w, bool nest) {
  if (x->isK() || ((x->op == ZEXT || x->op == SEXT) && x->k[0]->w == w)) return true;
  return nest && (x->op == ADD || x->op == SUB) && lowOk(x->k[0], w, false) && lowOk(x->k[1], w, false);
}
Expr* mkExtract(Expr* e, unsigned lo, unsigned w) {
  if (lo == 0 && w == e->w) return e;
  if (e->isK()) return mkK(e->c >> lo, w);
  switch (e->op) {
    case EXTRACT: return mkExtract(e->k[0], e->a + lo, w);
    case ZEXT: {
      Expr* x = e->k[0];
      if (lo >= x->w) return mkK(0, w);
      if (lo + w <= x->w) return mkExtract(x, lo, w);
      return mkZExt(mkExtract(x, lo, x->w - lo), w);
    }
    case SEXT: if (lo == 0 && w <= e->k[0]->w) return mkExtract(e->k[0], 0, w); break;
    case CONCAT: {
      Expr* l = e->k[1];
      if (lo + w <= l->w) return mkExtract(l, lo, w);
      if (lo >= l->w) return mkExtract(e->k[0], lo - l->w, w);
      return mkConcat(mkExtract(e->k[0], 0, lo + w - l->w), mkExtract(l, lo, l->w - lo));
    }
    case ITE:
      if (e->k[1]->isK() || e->k[2]->isK()) return mkIte(e->k[0], mkExtract(e->k[1], lo, w), mkExtract(e->k[2], lo, w));
      break;
    case AND: case OR: case XOR:
      if (e->k[1]->isK()) return mkBin(e->op, mkExtract(e->k[0], lo, w), mkExtract(e->k[1], lo, w));
      break;
    case ADD: case SUB: case MUL:
      if (lo == 0 && w < e->w) {
        // low bits only depend on low bits of zero-extended operands
        Expr *x = e->k[0], *y = e->k[1];
        if (lowOk(x, w, e->op != MUL) && lowOk(y, w, e->op != MUL)) return mkBin(e->op, mkExtract(x, 0, w), mkExtract(y, 0, w));
      }
      break;
    default: break;
  }
  return cons(EXTRACT, w, lo, 0, e);
}

static Expr* tryMerge(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (hi->isK() && lo->isK()) return mkK((hi->c << lo->w) | lo->c, w);
  if (hi->op == EXTRACT) {
    if (lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->a == lo->a + lo->w) return mkExtract(hi->k[0], lo->a, w);
    if (hi->k[0] == lo && hi->a == lo->w) return nullptr;
    // sign/zero extension of lo: hi bits come from SEXT(x), lo == x's low part
    if ((hi->k[0]->op == SEXT) && hi->a == lo->w && mkExtract(hi->k[0], 0, lo->w) == lo) return mkExtract(hi->k[0], 0, w);
    if (lo->op == SEXT && false) return nullptr;
    Expr* b = hi->k[0];
    if (hi->a == lo->w && lo->w < b->w && b->op != CONCAT && (b->op == ADD || b->op == SUB || b->op == MUL) && mkExtract(b, 0, lo->w) == lo) return mkExtract(b, 0, w);
  }
  if (hi->op == ITE && lo->op == ITE && hi->k[0] == lo->k[0]) return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  if (hi->op == ITE && lo->isK() && hi->k[1]->isK() && hi->k[2]->isK()) return mkIte(hi->k[0], mkConcat(hi->k[1], lo), mkConcat(hi->k[2], lo));
  if (lo->op == ITE && hi->isK() && lo->k[1]->isK() && lo->k[2]->isK()) return mkIte(lo->k[0], mkConcat(hi, lo->k[1]), mkConcat(hi, lo->k[2]));
  // bit-wise ops with constants distribute over concat; recombine them
  if ((hi->op == AND || hi->op == OR || hi->op == XOR) && hi->op == lo->op && hi->k[1]->isK() && lo->k[1]->isK() && hi->w > 1 && lo->w > 1) {
    if (Expr* m = tryMerge(hi->k[0], lo->k[0])) return mkBin(hi->op, m, mkConcat(hi->k[1], lo->k[1]));
  }
  return nullptr;
}
Expr* mkConcat(Expr* hi, Expr* lo) {
  if (Expr* m = tryMerge(hi, lo)) return m;
  if (hi->isK() && hi->c == 0) return mkZExt(lo, hi->w + lo->w);
  if (lo->op == CONCAT) { if (Expr* m = tryMerge(hi, lo->k[0])) return mkConcat(m, lo->k[1]); }
  if (hi->op == CONCAT) { if (Expr* m = tryMerge(hi->k[1], lo)) return mkConcat(hi->k[0], m); return mkConcat(hi->k[0], mkConcat(hi->k[1], lo)); }
  if (hi->op == ZEXT) return mkZExt(mkConcat(hi->k[0], lo), hi->w + lo->w);
  return cons(CONCAT, hi->w + lo->w, 0, 0, hi, lo);
}

// number of low bits known zero / value fits below
static unsigned lowZeros(Expr* e) {
  if (e->isK()) { if (!e->c) return e->w; unsigned k = 0; while (!((e->c >> k) & 1)) k++; return k; }
  if (e->op == CONCAT) { unsigned l = lowZeros(e->k[1]); return l < e->k[1]->w ? l : l + lowZeros(e->k[0]); }
  if (e->op == ZEXT) { unsigned l = lowZeros(e->k[0]); return l < e->k[0]->w ? l : e->w; }
  return 0;
}
static unsigned bitsFor(u128 v) { u64 h = (u64)(v >> 64), l = (u64)v; return h ? 128 - __builtin_clzll(h) : l ? 64 - __builtin_clzll(l) : 0; }
static Expr* tryDisjoint(Expr* a, Expr* b) {  // a | b with b's nonzero bits above a's
  if (a->isK() || b->isK()) return nullptr;
  unsigned n = bitsFor(a->umax);
  if (n == 0) return b;
  if (n < a->w && lowZeros(b) >= n) {
    unsigned z = lowZeros(b);
    return mkConcat(mkExtract(b, z, b->w - z), mkExtract(a, 0, z));
  }
  return nullptr;
}

// Value of e modulo p as a linear combination of atoms (no operation of e on the way wraps around).
static bool linMod(Expr* e, u128 p, u128 coef, std::map<u32, std::pair<Expr*, u128>>& acc, u128& konst, int& nested, int depth) {
  auto atom = [&] { auto& r = acc[e->id]; r.first = e; r.second = (r.second + coef) % p; return acc.size() <= 400; };
  if (depth > 2000) return atom();
  u128 lim = maskw(e->w); unsigned sh;
  switch (e->op) {
    case K: konst = (konst + coef * (e->c % p)) % p; return true;
    case ZEXT: return linMod(e->k[0], p, coef, acc, konst, nested, depth + 1);
    case EXTRACT: if (e->a == 0 && e->k[0]->umax <= lim) return linMod(e->k[0], p, coef, acc, konst, nested, depth + 1); return atom();
    case ADD:
      if (e->k[1]->isK() && e->k[0]->op == SUB) {
        Expr *x = e->k[0]->k[0], *y = e->k[0]->k[1]; u128 k = e->k[1]->c;
        if (k >= y->umax && x->umax <= lim - k) { konst = (konst + coef * (k % p)) % p; return linMod(x, p, coef, acc, konst, nested, depth + 1) && linMod(y, p, (p - coef) % p, acc, konst, nested, depth + 1); }
        return atom();
      }
      if (e->k[0]->umax <= lim - e->k[1]->umax) return linMod(e->k[0], p, coef, acc, konst, nested, depth + 1) && linMod(e->k[1], p, coef, acc, konst, nested, depth + 1);
      return atom();
    case SUB:
      if (gModRewrite && e->k[0]->isK() && e->k[0]->c >= e->k[1]->umax) { konst = (konst + coef * (e->k[0]->c % p)) % p; return linMod(e->k[1], p, (p - coef) % p, acc, konst, nested, depth + 1); }
      return atom();
    case MUL:
      if (e->k[1]->isK() && e->k[1]->c && e->k[0]->umax <= lim / e->k[1]->c) return linMod(e->k[0], p, coef * (e->k[1]->c % p) % p, acc, konst, nested, depth + 1);
      return atom();
    case SHL:
      if (e->k[1]->isK() && e->k[1]->c < e->w && (sh = (unsigned)e->k[1]->c, e->k[0]->umax <= (lim >> sh))) return linMod(e->k[0], p, coef * (((u128)1 << sh) % p) % p, acc, konst, nested, depth + 1);
      return atom();
    case CONCAT:
      if (e->w <= 64) return linMod(e->k[0], p, coef * (((u128)1 << e->k[1]->w) % p) % p, acc, konst, nested, depth + 1) && linMod(e->k[1], p, coef, acc, konst, nested, depth + 1);
      return atom();
    case UREM: if (e->k[1]->isK() && e->k[1]->c == p) { nested++; return linMod(e->k[0], p, coef, acc, konst, nested, depth + 1); } return atom();
    default: return atom();
  }
}
static Expr* normMod(Expr* a, u128 p, unsigned w) {
  if (p >> 62) return nullptr;
  std::map<u32, std::pair<Expr*, u128>> acc; u128 k = 0; int nested = 0;
  if (!linMod(a, p, 1, acc, k, nested, 0) || !nested) return nullptr;
  u128 bound = k; unsigned W = 64;
  for (auto& t : acc) { if (!t.second.second) continue; if (t.second.first->umax > (maskw(127) - bound) / t.second.second) return nullptr; bound += t.second.first->umax * t.second.second; }
  if (bound > maskw(64)) W = 128;
  Expr* r = mkK(k, W);
  for (auto& t : acc) { if (!t.second.second) continue; Expr* x = t.second.first; if (x->w > W) x = mkExtract(x, 0, W); else if (x->w < W) x = mkZExt(x, W); r = mkBin(ADD, r, mkBin(MUL, x, mkK(t.second.second, W))); }
  r = mkBin(UREM, r, mkK(p, W));
  return W > w ? mkExtract(r, 0, w) : W < w ? mkZExt(r, w) : r;
}
// s - (s < M ? 0 : M) and (a - b) + (a < b ? M : 0), as one remainder.
static Expr* modSub(Expr* s, Expr* i) {
  if (!gModRewrite || i->op != ITE || i->k[0]->op != ULT || s->w < 8 || s->w > 64) return nullptr;
  Expr *x = i->k[0]->k[0], *y = i->k[0]->k[1]; u128 M = 0, lim = maskw(s->w);
  if (x == s && y->isK() && i->k[1]->isKv(0) && i->k[2] == y) M = y->c;
  else if (y == s && x->isK() && i->k[2]->isKv(0) && i->k[1]->isK() && x->c < lim && i->k[1]->c == x->c + 1) M = i->k[1]->c;
  if (!M || M > (lim >> 1) || s->umax > 2 * M - 1) return nullptr;
  return mkBin(UREM, s, mkK(M, s->w));
}
static Expr* modAdd(Expr* d, Expr* i) {
  if (!gModRewrite || d->op != SUB || i->op != ITE || d->w < 8 || d->w > 64) return nullptr;
  if (d->k[0]->isKv(0) && i->k[1]->isKv(0) && i->k[2]->isK()) {
    Expr* y = d->k[1]; u128 M = i->k[2]->c;
    if (i->k[0] == mkBin(EQ, y, mkK(0, y->w)) && M && M <= (maskw(d->w) >> 1) && y->umax < M) return mkBin(UREM, mkBin(SUB, mkK(M, d->w), y), mkK(M, d->w));
  }
  if (i->k[0]->op != ULT) return nullptr;
  Expr *x = i->k[0]->k[0], *y = i->k[0]->k[1]; u128 M = 0, lim = maskw(d->w);
  auto same = [](Expr* u, Expr* v) { return u == v || (v->op == ZEXT && v->k[0] == u); };
  if (!same(x, d->k[0]) || !same(y, d->k[1]) || !i->k[1]->isK() || !i->k[2]->isKv(0)) return nullptr;
  M = i->k[1]->c; x = d->k[0]; y = d->k[1];
  if (!M || M > (lim >> 1) || x->umax >= M || y->umax >= M) return nullptr;
  return mkBin(UREM, mkBin(ADD, x, mkBin(SUB, mkK(M, d->w), y)), mkK(M, d->w));
}
Expr* mkBin(Op op, Expr* a, Expr* b) {
  unsigned w = (op == EQ || op == ULT || op == SLT) ? 1 : a->w;
  if (a->isK() && b->isK()) return mkK(foldOp(op, w, a->c, a->w, b->c, b->w, 0, 0), w);
  bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
  if (comm && (a->isK() || (!b->isK() && a->id > b->id))) std::swap(a, b);
  // distribute over constant ite
  if (b->isK() && a->op == ITE && a->k[1]->isK() && a->k[2]->isK()) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  if (a->isK() && b->op == ITE && b->k[1]->isK() && b->k[2]->isK()) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
  if (a->op == ITE && b->op == ITE && a->k[0] == b->k[0] && (a->k[1]->isK() + a->k[2]->isK() + b->k[1]->isK() + b->k[2]->isK()) >= 2)
    return mkIte(a->k[0], mkBin(op, a->k[1], b->k[1]), mkBin(op, a->k[2], b->k[2]));
  u128 m = maskw(a->w);
  unsigned pk;
  switch (op) {
    case ADD:
      if (b->isK()) {
        if (b->c == 0) return a;
        if (a->op == ADD && a->k[1]->isK()) return mkBin(ADD, a->k[0], mkK(a->k[1]->c + b->c, w));
      }
      if (w == 1) return mkBin(XOR, a, b);
      if (Expr* d = modAdd(a, b)) return d;
      if (Expr* d = modAdd(b, a)) return d;
      if (Expr* d = tryDisjoint(a, b)) return d;
      if (Expr* d = tryDisjoint(b, a)) return d;
      if (a->op == ADD && a->k[1]->isK() && !b->isK()) return mkBin(ADD, mkBin(ADD, a->k[0], b), a->k[1]);
      if (b->op == ADD && b->k[1]->isK() && !a->isK()) return mkBin(ADD, mkBin(ADD, a, b->k[0]), b->k[1]);
      // (x - y) + y
      if (a->op == SUB && a->k[1] == b) return a->k[0];
      if (b->op == SUB && b->k[1] == a) return b->k[0];
      break;
    case SUB:
      if (a == b) return mkK(0, w);
      if (b->isK()) return mkBin(ADD, a, mkK(-b->c, w));
      if (w == 1) return mkBin(XOR, a, b);
      if (Expr* d = modSub(a, b)) return d;
      if (a->op == ADD && a->k[1]->isK() && a->k[0] == b) return a->k[1];
      if (a->op == ADD && a->k[0] == b) return a->k[1];
      if (a->op == ADD && a->k[1] == b) return a->k[0];
      if (a->op == ADD && b->op == ADD && a->k[1]->isK() && b->k[1]->isK()) return mkBin(ADD, mkBin(SUB, a->k[0], b->k[0]), mkK(a->k[1]->c - b->k[1]->c, w));
      if (a->op == ADD && a->k[1]->isK()) return mkBin(ADD, mkBin(SUB, a->k[0], b), a->k[1]);
      if (b->op == ADD && b->k[1]->isK() && !a->isK()) return mkBin(ADD, mkBin(SUB, a, b->k[0]), mkK(-b->k[1]->c, w));
      break;
    case MUL:
      if (b->isK()) {
        if (b->c == 0) return b;
        if (b->c == 1) return a;
        if (isPow2(b->c, pk)) return mkBin(SHL, a, mkK(pk, w));
        if (a->op == MUL && a->k[1]->isK()) return mkBin(MUL, a->k[0], mkK(a->k[1]->c * b->c, w));
      }
      if (w == 1) return mkBin(AND, a, b);
      break;
    case UDIV:
      if (b->isK()) {
        if (b->c == 1) return a;
        if (b->c && isPow2(b->c, pk)) return mkBin(LSHR, a, mkK(pk, w));
        if (b->c && a->umax < b->c) return mkK(0, w);
      }
      break;
    case UREM:
      if (b->isK() && b->c) {
        if (a->umax < b->c) return a;
        if (isPow2(b->c, pk)) return pk == 0 ? mkK(0, w) : mkBin(AND, a, mkK(b->c - 1, w));
        if (Expr* n = normMod(a, b->c, w)) return n;
      }
      break;
    case SDIV:
      if (b->isK() && b->c == 1) return a;
      if (a->umax <= (m >> 1) && b->umax <= (m >> 1)) return mkBin(UDIV, a, b);
      break;
    case SREM:
      if (a->umax <= (m >> 1) && b->umax <= (m >> 1)) return mkBin(UREM, a, b);
      break;
    case AND:
      if (a == b) return a;
      if (w == 1 && (isNotOf(a, b) || isNotOf(b, a))) return mkK(0, 1);
      if (b->isK()) {
        if (b->c == 0) return b;
        if (b->c == m) return a;
        if (a->op == AND && a->k[1]->isK()) return mkBin(AND, a->k[0], mkK(a->k[1]->c & b->c, w));
        if (isPow2(b->c + 1, pk) && pk < w) return mkZExt(mkExtract(a, 0, pk), w);
        { // contiguous mask not starting at 0
          unsigned lz = 0; while (!((b->c >> lz) & 1)) lz++;
          u128 s = b->c >> lz; unsigned n;
          if (lz && isPow2(s + 1, n)) {
            Expr* mid = mkExtract(a, lz, n);
            Expr* r = mkConcat(mid, mkK(0, lz));
            return mkZExt(r, w);
          }
        }
        if (a->op == ZEXT) { return mkZExt(mkBin(AND, a->k[0], mkK(b->c, a->k[0]->w)), w); }
      } else if (w == 1) {
        if (a->op == AND && (a->k[0] == b || a->k[1] == b)) return a;
        if (b->op == AND && (b->k[0] == a || b->k[1] == a)) return b;
      } else if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkZExt(mkBin(AND, a->k[0], b->k[0]), w);
      break;
    case OR:
      if (a == b) return a;
      if (w == 1 && (isNotOf(a, b) || isNotOf(b, a))) return mkK(1, 1);
      if (b->isK()) {
        if (b->c == 0) return a;
        if (b->c == m) return b;
        if (a->op == OR && a->k[1]->isK()) return mkBin(OR, a->k[0], mkK(a->k[1]->c | b->c, w));
      }
      if (w == 1) {
        if (a->op == OR && (a->k[0] == b || a->k[1] == b)) return a;
        if (b->op == OR && (b->k[0] == a || b->k[1] == a)) return b;
      } else {
        if (Expr* d = tryDisjoint(a, b)) return d;
        if (Expr* d = tryDisjoint(b, a)) return d;
        if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkZExt(mkBin(OR, a->k[0], b->k[0]), w);
      }
      break;
    case XOR:
      if (a == b) return mkK(0, w);
      if (b->isK()) {
        if (b->c == 0) return a;
        if (w == 1) return mkNot(a);
        if (a->op == XOR && a->k[1]->isK()) return mkBin(XOR, a->k[0], mkK(a->k[1]->c ^ b->c, w));
      }
      if (w > 1 && a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkZExt(mkBin(XOR, a->k[0], b->k[0]), w);
      break;
    case SHL:
      if (b->isK()) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkK(0, w);
        unsigned s = (unsigned)b->c;
        return mkConcat(mkExtract(a, 0, w - s), mkK(0, s));
      }
      if (a->isK() && a->c == 0) return a;
      break;
    case LSHR:
      if (b->isK()) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkK(0, w);
        unsigned s = (unsigned)b->c;
        return mkZExt(mkExtract(a, s, w - s), w);
      }
      if (a->isK() && a->c == 0) return a;
      break;
    case ASHR:
      if (b->isK()) {
        if (b->c == 0) return a;
        unsigned s = b->c >= w ? w - 1 : (unsigned)b->c;
        return mkSExt(mkExtract(a, s, w - s), w);
      }
      break;
    case EQ:
      if (a == b) return mkK(1, 1);
      if (a->w == 1) { if (b->isK()) return b->c ? a : mkNot(a); return mkNot(mkBin(XOR, a, b)); }
      if (b->isK()) {
        if (b->c > a->umax) return mkK(0, 1);
        switch (a->op) {
          case ZEXT: return mkBin(EQ, a->k[0], mkK(b->c, a->k[0]->w));
          case SEXT: {
            Expr* t = mkK(b->c, a->k[0]->w);
            if ((((u128)sextv(t->c, t->w)) & maskw(a->w)) != b->c) return mkK(0, 1);
            return mkBin(EQ, a->k[0], t);
          }
          case ADD: if (a->k[1]->isK()) return mkBin(EQ, a->k[0], mkK(b->c - a->k[1]->c, a->w)); break;
          case SUB: if (b->c == 0) return mkBin(EQ, a->k[0], a->k[1]);
                    if (a->k[0]->isK()) return mkBin(EQ, a->k[1], mkK(a->k[0]->c - b->c, a->w)); break;
          case XOR: if (a->k[1]->isK()) return mkBin(EQ, a->k[0], mkK(b->c ^ a->k[1]->c, a->w)); if (b->c == 0) return mkBin(EQ, a->k[0], a->k[1]); break;
          case OR: if (b->c == 0) return mkAnd(mkBin(EQ, a->k[0], b), mkBin(EQ, a->k[1], b)); break;
          case CONCAT: {
            Expr* hi = a->k[0]; Expr* lo = a->k[1];
            return mkAnd(mkBin(EQ, hi, mkK(b->c >> lo->w, hi->w)), mkBin(EQ, lo, mkK(b->c, lo->w)));
          }
          case ITE:
            if (a->k[1]->isK() || a->k[2]->isK()) return mkIte(a->k[0], mkBin(EQ, a->k[1], b), mkBin(EQ, a->k[2], b));
            break;
          default: break;
        }
      } else {
        if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(EQ, a->k[0], b->k[0]);
        if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkBin(EQ, a->k[0], b->k[0]);
        if (a->op == CONCAT && b->op == CONCAT && a->k[0]->w == b->k[0]->w) return mkAnd(mkBin(EQ, a->k[0], b->k[0]), mkBin(EQ, a->k[1], b->k[1]));
        if (a->op == ADD && b->op == ADD && a->k[1] == b->k[1]) return mkBin(EQ, a->k[0], b->k[0]);
        if (a->op == ADD && a->k[1]->isK() && a->k[0] == b) return mkK(0, 1);
        if (b->op == ADD && b->k[1]->isK() && b->k[0] == a) return mkK(0, 1);
      }
      break;
    case ULT:
      if (a == b) return mkK(0, 1);
      if (b->isK()) {
        if (b->c == 0) return mkK(0, 1);
        if (a->umax < b->c) return mkK(1, 1);
        if (b->c == 1) return mkBin(EQ, a, mkK(0, a->w));
        if (b->c == m) return mkNot(mkBin(EQ, a, b));
        if (a->op == ZEXT) { return mkBin(ULT, a->k[0], mkK(b->c, a->k[0]->w)); }
        if (a->op == ITE && (a->k[1]->isK() || a->k[2]->isK())) return mkIte(a->k[0], mkBin(ULT, a->k[1], b), mkBin(ULT, a->k[2], b));
      }
      if (a->isK()) {
        if (a->c >= b->umax) return mkK(0, 1);
        if (a->c == 0) return mkNot(mkBin(EQ, b, mkK(0, b->w)));
        if (b->op == ZEXT) return mkBin(ULT, mkK(a->c, b->k[0]->w), b->k[0]);
        if (b->op == ITE && (b->k[1]->isK() || b->k[2]->isK())) return mkIte(b->k[0], mkBin(ULT, a, b->k[1]), mkBin(ULT, a, b->k[2]));
      }
      if (a->op == ADD && (a->k[0] == b || a->k[1] == b) && a->k[0]->umax <= m - a->k[1]->umax) return mkK(0, 1);
      if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(ULT, a->k[0], b->k[0]);
      if (a->w == 1) return mkAnd(mkNot(a), b);
      break;
    case SLT:
      if (a == b) return mkK(0, 1);
      if (a->w > 1 && a->umax <= (m >> 1) && b->umax <= (m >> 1)) return mkBin(ULT, a, b);
      if (b->isK() && b->c == 0) return mkExtract(a, a->w - 1, 1);
      if (a->isK() && a->c == m) return mkNot(mkExtract(b, b->w - 1, 1));
      if (b->isK() && a->w > 1 && a->umax <= (m >> 1) && sextv(b->c, b->w) < 0) return mkK(0, 1);
      if (a->isK() && b->w > 1 && b->umax <= (m >> 1) && sextv(a->c, a->w) < 0) return mkK(1, 1);
      if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkBin(SLT, a->k[0], b->k[0]);
      if (a->op == ITE && b->isK() && (a->k[1]->isK() || a->k[2]->isK())) return mkIte(a->k[0], mkBin(SLT, a->k[1], b), mkBin(SLT, a->k[2], b));
      if (b->op == ITE && a->isK() && (b->k[1]->isK() || b->k[2]->isK())) return mkIte(b->k[0], mkBin(SLT, a, b->k[1]), mkBin(SLT, a, b->k[2]));
      if (a->w == 1) return mkAnd(a, mkNot(b));
      break;
    default: break;
  }
  return cons(op, w, 0, 0, a, b);
}

u64 newModelId() { static u64 n = 0; return ++n; }

u128 evalExpr(Expr* e, const Model& m) {
  if (e->op == K) return e->c;
  if (e->evId == m.id) return e->evVal;
  // iterative post-order to survive deep expressions
  std::vector<Expr*> st{e};
  while (!st.empty()) {
    Expr* x = st.back();
    if (x->op == K || x->evId == m.id) { st.pop_back(); continue; }
    if (x->op == V) {
      auto it = m.v.find(x->a);
      x->evVal = it == m.v.end() ? 0 : it->second; x->evId = m.id; st.pop_back(); continue;
    }
    auto val = [&](Expr* y) { return y->op == K ? y->c : y->evVal; };
    auto ready = [&](Expr* y) { return y->op == K || y->evId == m.id; };
    if (x->op == ITE) {
      if (!ready(x->k[0])) { st.push_back(x->k[0]); continue; }
      Expr* y = val(x->k[0]) ? x->k[1] : x->k[2];
      if (!ready(y)) { st.push_back(y); continue; }
      x->evVal = val(y); x->evId = m.id; st.pop_back(); continue;
    }
    int n = x->nk(); bool ok = true;
    for (int i = 0; i < n; i++) if (x->k[i] && !ready(x->k[i])) { st.push_back(x->k[i]); ok = false; }
    if (!ok) continue;
    x->evVal = foldOp(x->op, x->w, val(x->k[0]), x->k[0]->w, n > 1 && x->k[1] ? val(x->k[1]) : 0, n > 1 && x->k[1] ? x->k[1]->w : 0, 0, x->a);
    x->evId = m.id; st.pop_back();
  }
  return e->evVal;
}

static const char* opn[] = {"K","V","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","slt","ite","concat","extract","zext","sext",
 "fadd","fsub","fmul","fdiv","foeq","folt","fole","funo","fp2si","fp2ui","si2fp","ui2fp","fpext","fptrunc","ffloor","fceil","ftrunc","fround","fsqrt","fneg","fabs"};
std::string exprStr(Expr* e, int depth) {
  char b[64];
  if (e->op == K) { snprintf(b, sizeof b, "%llu:%u", (unsigned long long)(u64)e->c, e->w); return b; }
  if (e->op == V) return g_vars[e->a].name;
  if (depth == 0) return "...";
  std::string s = std::string("(") + opn[e->op];
  if (e->op == EXTRACT) { snprintf(b, sizeof b, "[%u+%u]", e->a, e->w); s += b; }
  for (int i = 0; i < e->nk(); i++) if (e->k[i]) s += " " + exprStr(e->k[i], depth - 1);
  return s + ")";
}
}  // namespace sx
