#include "solver.h"
#include <algorithm>
#include <chrono>
#include <set>
#include <unordered_map>
#include <cstdio>
#include <cstdlib>
#include <cstring>
namespace sx {
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
Solver::Solver() {
  Z3_config cfg = Z3_mk_config();
  c = Z3_mk_context(cfg);  // automatic reference management is not used for asts: asts live as long as the context
  Z3_del_config(cfg);
  Z3_set_error_handler(c, onErr);
  inc = nullptr; restart();
}
void Solver::restart() {
  if (inc) Z3_solver_dec_ref(c, inc);
  inc = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, inc);
  Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
  Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), fastMs);
  Z3_solver_set_params(c, inc, p); Z3_params_dec_ref(c, p);
  incUses = 0;
}
Z3_solver Solver::mkSolver(const char* logic, unsigned ms) {
  Z3_solver s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, logic)); Z3_solver_inc_ref(c, s);
  Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
  Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), ms);
  Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p);
  return s;
}
Z3_sort Solver::sortOf(unsigned w) { auto& s = sorts[w]; if (!s) s = Z3_mk_bv_sort(c, w); return s; }
Z3_ast Solver::boolOf(Expr* e) {
  Z3_ast z = bv(e);
  return z;
}
// Width-1 expressions are z3 Bools; wider ones are bit-vectors.
static std::string dec(u128 v) { if (!v) return "0"; std::string s; while (v) { s += char('0' + (int)(v % 10)); v /= 10; } std::reverse(s.begin(), s.end()); return s; }
Z3_ast Solver::fpOf(Z3_ast b, unsigned w) {
  Z3_sort s = w == 64 ? Z3_mk_fpa_sort_double(c) : Z3_mk_fpa_sort_single(c);
  return Z3_mk_fpa_to_fp_bv(c, b, s);
}
Z3_ast Solver::bv(Expr* root) {
  if (root->z) return root->z;
  std::vector<Expr*> st{root};
  while (!st.empty()) {
    Expr* e = st.back();
    if (e->z) { st.pop_back(); continue; }
    bool ok = true;
    for (int i = 0; i < e->nk(); i++) if (e->k[i] && !e->k[i]->z) { st.push_back(e->k[i]); ok = false; }
    if (!ok) continue;
    Z3_ast r = conv1(e);
    Z3_inc_ref(c, r);
    e->z = r; st.pop_back();
  }
  return root->z;
}
static bool isB(Expr* e) { return e->w == 1; }
// Signed interval of an expression of at most 64 bits.
static std::unordered_map<u32, std::pair<i128, i128>> rangeMemo;
static std::pair<i128, i128> srange(Expr* e, int depth = 0) {
  i128 hi = ((i128)1 << (e->w - 1)) - 1, lo = -hi - 1;
  std::pair<i128, i128> full(lo, hi);
  if (e->isK()) { i128 v = sextv(e->c, e->w); return {v, v}; }
  if ((i128)e->umax >= 0 && (i128)e->umax <= hi) return {0, (i128)e->umax};
  if (depth > 60) return full;
  auto it = rangeMemo.find(e->id); if (it != rangeMemo.end()) return it->second;
  auto r = full;
  switch (e->op) {
    case ADD: case SUB: { auto x = srange(e->k[0], depth + 1), y = srange(e->k[1], depth + 1); i128 l = e->op == ADD ? x.first + y.first : x.first - y.second, h = e->op == ADD ? x.second + y.second : x.second - y.first; if (l >= lo && h <= hi) r = {l, h}; break; }
    case ITE: { auto x = srange(e->k[1], depth + 1), y = srange(e->k[2], depth + 1); r = {std::min(x.first, y.first), std::max(x.second, y.second)}; break; }
    case SEXT: r = srange(e->k[0], depth + 1); break;
    default: break;
  }
  rangeMemo[e->id] = r;
  return r;
}
static unsigned sbits(std::pair<i128, i128> r) { unsigned n = 1; while (n < 64 && (r.first < -((i128)1 << (n - 1)) || r.second > ((i128)1 << (n - 1)) - 1)) n++; return n; }
Z3_ast Solver::conv1(Expr* e) {
  Z3_ast a = e->nk() > 0 ? e->k[0]->z : nullptr, b = e->nk() > 1 && e->k[1] ? e->k[1]->z : nullptr, d = e->nk() > 2 ? e->k[2]->z : nullptr;
  auto toBv = [&](Expr* x, Z3_ast z) -> Z3_ast { return isB(x) ? Z3_mk_ite(c, z, Z3_mk_unsigned_int(c, 1, sortOf(1)), Z3_mk_unsigned_int(c, 0, sortOf(1))) : z; };
  auto fromBv1 = [&](Z3_ast z) -> Z3_ast { return Z3_mk_eq(c, z, Z3_mk_unsigned_int(c, 1, sortOf(1))); };
  auto fpres = [&](Z3_ast z) -> Z3_ast { return Z3_mk_fpa_to_ieee_bv(c, z); };
  Z3_ast rne = nullptr;
  if (e->op >= FADD) { rne = Z3_mk_fpa_rne(c); }
  unsigned aw = e->nk() > 0 ? e->k[0]->w : 0;
  switch (e->op) {
    case K: if (isB(e)) return e->c ? Z3_mk_true(c) : Z3_mk_false(c); return Z3_mk_numeral(c, dec(e->c).c_str(), sortOf(e->w));
    case V: { char nm[32]; snprintf(nm, sizeof nm, "v%u", e->a); return Z3_mk_const(c, Z3_mk_string_symbol(c, nm), isB(e) ? Z3_mk_bool_sort(c) : sortOf(e->w)); }
    case ADD: return Z3_mk_bvadd(c, a, b);
    case SUB: return Z3_mk_bvsub(c, a, b);
    case MUL: return Z3_mk_bvmul(c, a, b);
    case UDIV: case UREM: case SDIV: case SREM: {
      if (e->w <= 64 && e->w > 8 && e->k[1]->isK() && e->k[1]->c) {  // division at the width the operands need
        auto x = srange(e->k[0]), y = srange(e->k[1]);
        bool sg = e->op == SDIV || e->op == SREM;
        if (sg || (x.first >= 0 && y.first >= 0)) {
          unsigned n = std::max(sbits(x), sbits(y)) + 1;
          if (n + 2 < e->w) {
            Z3_ast p = Z3_mk_extract(c, n - 1, 0, a), q = Z3_mk_extract(c, n - 1, 0, b);
            Z3_ast v = e->op == UDIV ? Z3_mk_bvudiv(c, p, q) : e->op == UREM ? Z3_mk_bvurem(c, p, q) : e->op == SDIV ? Z3_mk_bvsdiv(c, p, q) : Z3_mk_bvsrem(c, p, q);
            return sg ? Z3_mk_sign_ext(c, e->w - n, v) : Z3_mk_zero_ext(c, e->w - n, v);
          }
        }
      }
      if (e->op == UDIV) return Z3_mk_bvudiv(c, a, b);
      if (e->op == SDIV) return Z3_mk_bvsdiv(c, a, b);
      if (e->op == UREM) return Z3_mk_bvurem(c, a, b);
      return Z3_mk_bvsrem(c, a, b);
    }
    case AND: if (isB(e)) { Z3_ast x[2] = {a, b}; return Z3_mk_and(c, 2, x); } return Z3_mk_bvand(c, a, b);
    case OR: if (isB(e)) { Z3_ast x[2] = {a, b}; return Z3_mk_or(c, 2, x); } return Z3_mk_bvor(c, a, b);
    case XOR: if (isB(e)) { if (e->k[1]->isK()) return e->k[1]->c ? Z3_mk_not(c, a) : a; return Z3_mk_xor(c, a, b); } return Z3_mk_bvxor(c, a, b);
    case SHL: return Z3_mk_bvshl(c, a, b);
    case LSHR: return Z3_mk_bvlshr(c, a, b);
    case ASHR: return Z3_mk_bvashr(c, a, b);
    case EQ: return Z3_mk_eq(c, a, b);
    case ULT: return Z3_mk_bvult(c, a, b);
    case SLT: return Z3_mk_bvslt(c, a, b);
    case ITE: return Z3_mk_ite(c, a, b, d);
    case CONCAT: return Z3_mk_concat(c, toBv(e->k[0], a), toBv(e->k[1], b));
    case EXTRACT: { Z3_ast r = Z3_mk_extract(c, e->a + e->w - 1, e->a, a); return isB(e) ? fromBv1(r) : r; }
    case ZEXT: if (isB(e->k[0])) return Z3_mk_ite(c, a, Z3_mk_numeral(c, "1", sortOf(e->w)), Z3_mk_numeral(c, "0", sortOf(e->w))); return Z3_mk_zero_ext(c, e->w - aw, a);
    case SEXT: if (isB(e->k[0])) return Z3_mk_ite(c, a, Z3_mk_numeral(c, dec(maskw(e->w)).c_str(), sortOf(e->w)), Z3_mk_numeral(c, "0", sortOf(e->w))); return Z3_mk_sign_ext(c, e->w - aw, a);
    case FADD: return fpres(Z3_mk_fpa_add(c, rne, fpOf(a, aw), fpOf(b, aw)));
    case FSUB: return fpres(Z3_mk_fpa_sub(c, rne, fpOf(a, aw), fpOf(b, aw)));
    case FMUL: return fpres(Z3_mk_fpa_mul(c, rne, fpOf(a, aw), fpOf(b, aw)));
    case FDIV: return fpres(Z3_mk_fpa_div(c, rne, fpOf(a, aw), fpOf(b, aw)));
    case FOEQ: return Z3_mk_fpa_eq(c, fpOf(a, aw), fpOf(b, aw));
    case FOLT: return Z3_mk_fpa_lt(c, fpOf(a, aw), fpOf(b, aw));
    case FOLE: return Z3_mk_fpa_leq(c, fpOf(a, aw), fpOf(b, aw));
    case FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(c, fpOf(a, aw)), Z3_mk_fpa_is_nan(c, fpOf(b, aw))}; return Z3_mk_or(c, 2, x); }
    case FP2SI: return Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), fpOf(a, aw), e->w);
    case FP2UI: return Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), fpOf(a, aw), e->w);
    case SI2FP: return fpres(Z3_mk_fpa_to_fp_signed(c, rne, toBv(e->k[0], a), e->w == 64 ? Z3_mk_fpa_sort_double(c) : Z3_mk_fpa_sort_single(c)));
    case UI2FP: return fpres(Z3_mk_fpa_to_fp_unsigned(c, rne, toBv(e->k[0], a), e->w == 64 ? Z3_mk_fpa_sort_double(c) : Z3_mk_fpa_sort_single(c)));
    case FPEXT: return fpres(Z3_mk_fpa_to_fp_float(c, rne, fpOf(a, 32), Z3_mk_fpa_sort_double(c)));
    case FPTRUNC: return fpres(Z3_mk_fpa_to_fp_float(c, rne, fpOf(a, 64), Z3_mk_fpa_sort_single(c)));
    case FFLOOR: return fpres(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), fpOf(a, aw)));
    case FCEIL: return fpres(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), fpOf(a, aw)));
    case FTRUNC: return fpres(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), fpOf(a, aw)));
    case FROUND: return fpres(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), fpOf(a, aw)));
    case FSQRT: return fpres(Z3_mk_fpa_sqrt(c, rne, fpOf(a, aw)));
    case FNEG: return Z3_mk_bvxor(c, a, Z3_mk_numeral(c, dec((u128)1 << (e->w - 1)).c_str(), sortOf(e->w)));
    case FABS: return Z3_mk_bvand(c, a, Z3_mk_numeral(c, dec(maskw(e->w) >> 1).c_str(), sortOf(e->w)));
  }
  return nullptr;
}
static u128 parseDec(const char* s) { u128 r = 0; while (*s) { if (*s >= '0' && *s <= '9') r = r * 10 + (*s - '0'); s++; } return r; }
void Solver::readModel(Z3_solver s, const std::vector<Expr*>& cs, std::vector<std::pair<u32, u128>>* out, bool ints) {
  Z3_model m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
  std::set<u32> vars; for (Expr* e : cs) vars.insert(e->vs->v.begin(), e->vs->v.end());
  for (u32 v : vars) {
    unsigned w = g_vars[v].w; Z3_ast za;
    if (ints) { auto it = ivars.find(v); if (it == ivars.end()) continue; za = it->second; }
    else { char nm[32]; snprintf(nm, sizeof nm, "v%u", v); za = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), w == 1 ? Z3_mk_bool_sort(c) : sortOf(w)); }
    Z3_ast r = nullptr; if (!Z3_model_eval(c, m, za, true, &r)) continue;
    u128 val;
    if (w == 1 && !ints) val = Z3_get_bool_value(c, r) == Z3_L_TRUE;
    else val = parseDec(Z3_get_numeral_string(c, r));
    out->push_back({v, val});
  }
  Z3_model_dec_ref(c, m);
}
Res Solver::runBV(Z3_solver s, const std::vector<Expr*>& cs, std::vector<std::pair<u32, u128>>* out) {
  for (Expr* e : cs) Z3_solver_assert(c, s, boolOf(e));
  Z3_lbool r = Z3_solver_check(c, s);
  if (r == Z3_L_TRUE) { readModel(s, cs, out, false); return SAT; }
  return r == Z3_L_FALSE ? UNSAT : UNKNOWN;
}

// ---- linear-integer encoding -------------------------------------------------
Z3_ast Solver::inum(u128 v) { return Z3_mk_numeral(c, dec(v).c_str(), Z3_mk_int_sort(c)); }
static u128 p2(unsigned w) { return (u128)1 << w; }
Z3_ast Solver::ib(Expr* e) { return iconv(e); }  // width-1: Bool
Z3_ast Solver::iconv(Expr* e) {
  auto it = imap.find(e); if (it != imap.end()) return it->second;
  auto bad = [&]() -> Z3_ast { ifail = true; return e->w == 1 ? Z3_mk_false(c) : inum(0); };
  if (ifail) return bad();
  Z3_ast r = nullptr; unsigned w = e->w;
  auto num = [&](Expr* x) -> Z3_ast { Z3_ast z = iconv(x); return x->w == 1 ? Z3_mk_ite(c, z, inum(1), inum(0)) : z; };
  auto wrap = [&](Z3_ast z, bool ov) -> Z3_ast { return ov ? Z3_mk_mod(c, z, inum(p2(w))) : z; };
  if (w > 120) return bad();
  switch (e->op) {
    case K: r = w == 1 ? (e->c ? Z3_mk_true(c) : Z3_mk_false(c)) : inum(e->c); break;
    case V: {
      char nm[32]; snprintf(nm, sizeof nm, "i%u", e->a);
      if (w == 1) return bad();
      r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), Z3_mk_int_sort(c)); Z3_inc_ref(c, r); ivars[e->a] = r;
      Z3_ast x = Z3_mk_le(c, inum(0), r), y = Z3_mk_lt(c, r, inum(p2(w))); Z3_inc_ref(c, x); Z3_inc_ref(c, y); iside.push_back(x); iside.push_back(y);
      break;
    }
    case ADD: {
      // x + K where K is a small negative number: treat as subtraction
      if (e->k[1]->isK() && e->k[1]->c > (maskw(w) >> 1)) {
        u128 s = p2(w) - e->k[1]->c; Z3_ast x = num(e->k[0]); Z3_ast l[2] = {x, inum(s)}; Z3_ast d = Z3_mk_sub(c, 2, l);
        Z3_ast l2[2] = {d, inum(p2(w))};
        r = Z3_mk_ite(c, Z3_mk_ge(c, d, inum(0)), d, Z3_mk_add(c, 2, l2)); break;
      }
      Z3_ast l[2] = {num(e->k[0]), num(e->k[1])}; u128 s = e->k[0]->umax + e->k[1]->umax; bool ov = s > maskw(w);
      Z3_ast z = Z3_mk_add(c, 2, l);
      if (ov) { Z3_ast l2[2] = {z, inum(p2(w))}; z = Z3_mk_ite(c, Z3_mk_ge(c, z, inum(p2(w))), Z3_mk_sub(c, 2, l2), z); }
      r = z; break;
    }
    case SUB: { Z3_ast l[2] = {num(e->k[0]), num(e->k[1])}; Z3_ast d = Z3_mk_sub(c, 2, l); Z3_ast l2[2] = {d, inum(p2(w))}; r = Z3_mk_ite(c, Z3_mk_ge(c, d, inum(0)), d, Z3_mk_add(c, 2, l2)); break; }
    case MUL: {
      if (!e->k[1]->isK()) return bad();
      Z3_ast l[2] = {num(e->k[0]), inum(e->k[1]->c)}; u128 mx = e->k[0]->umax; bool ov = mx && e->k[1]->c > maskw(w) / mx;
      r = wrap(Z3_mk_mul(c, 2, l), ov); break;
    }
    case UDIV: if (!e->k[1]->isK() || !e->k[1]->c) return bad(); r = Z3_mk_div(c, num(e->k[0]), inum(e->k[1]->c)); break;
    case UREM: if (!e->k[1]->isK() || !e->k[1]->c) return bad(); r = Z3_mk_mod(c, num(e->k[0]), inum(e->k[1]->c)); break;
    case AND: case OR: case XOR: {
      if (w != 1) return bad();
      Z3_ast l[2] = {ib(e->k[0]), ib(e->k[1])};
      r = e->op == AND ? Z3_mk_and(c, 2, l) : e->op == OR ? Z3_mk_or(c, 2, l) : Z3_mk_xor(c, l[0], l[1]); break;
    }
    case EQ: r = Z3_mk_eq(c, iconv(e->k[0]), iconv(e->k[1])); break;
    case ULT: r = Z3_mk_lt(c, num(e->k[0]), num(e->k[1])); break;
    case SLT: {
      unsigned aw = e->k[0]->w;
      auto sg = [&](Expr* x) -> Z3_ast { Z3_ast z = num(x); if (x->umax <= (maskw(aw) >> 1)) return z; Z3_ast l[2] = {z, inum(p2(aw))}; return Z3_mk_ite(c, Z3_mk_lt(c, z, inum(p2(aw - 1))), z, Z3_mk_sub(c, 2, l)); };
      r = Z3_mk_lt(c, sg(e->k[0]), sg(e->k[1])); break;
    }
    case ITE: { Z3_ast q = ib(e->k[0]); r = Z3_mk_ite(c, q, iconv(e->k[1]), iconv(e->k[2])); break; }
    case CONCAT: { Z3_ast l[2] = {num(e->k[0]), inum(p2(e->k[1]->w))}; Z3_ast l2[2] = {Z3_mk_mul(c, 2, l), num(e->k[1])}; r = Z3_mk_add(c, 2, l2); break; }
    case EXTRACT: {
      Z3_ast z = num(e->k[0]); if (e->a) z = Z3_mk_div(c, z, inum(p2(e->a)));
      if ((e->k[0]->umax >> e->a) > maskw(w)) z = Z3_mk_mod(c, z, inum(p2(w)));
      r = w == 1 ? Z3_mk_eq(c, z, inum(1)) : z; break;
    }
    case ZEXT: r = num(e->k[0]); break;
    case SEXT: { Expr* x = e->k[0]; Z3_ast z = num(x); Z3_ast l[2] = {z, inum(p2(w) - p2(x->w))}; r = Z3_mk_ite(c, Z3_mk_lt(c, z, inum(p2(x->w - 1))), z, Z3_mk_add(c, 2, l)); break; }
    default: return bad();
  }
  if (ifail) return r;
  Z3_inc_ref(c, r); imap[e] = r; return r;
}
Res Solver::runInt(const std::vector<Expr*>& cs, std::vector<std::pair<u32, u128>>* out, unsigned ms) {
  ifail = false; std::vector<Z3_ast> as; for (Expr* e : cs) { as.push_back(iconv(e)); if (ifail) return UNKNOWN; }
  Z3_solver s = mkSolver("QF_LIA", ms);
  std::set<u32> vars; for (Expr* e : cs) vars.insert(e->vs->v.begin(), e->vs->v.end());
  for (u32 v : vars) if (ivars.count(v)) { Z3_ast r = ivars[v]; Z3_solver_assert(c, s, Z3_mk_le(c, inum(0), r)); Z3_solver_assert(c, s, Z3_mk_lt(c, r, inum(p2(g_vars[v].w)))); }
  for (Z3_ast a : as) Z3_solver_assert(c, s, a);
  Z3_lbool r = Z3_solver_check(c, s); Res res = UNKNOWN; st.intQueries++;
  if (r == Z3_L_TRUE) { readModel(s, cs, out, true); res = SAT; } else if (r == Z3_L_FALSE) res = UNSAT;
  Z3_solver_dec_ref(c, s);
  return res;
}

Res Solver::check(const std::vector<Expr*>& cs0, std::vector<std::pair<u32, u128>>* out) {
  std::vector<Expr*> cs(cs0);
  std::sort(cs.begin(), cs.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::vector<u32> key; key.reserve(cs.size());
  for (Expr* e : cs) { if (e->isK()) { if (!e->c) return UNSAT; continue; } key.push_back(e->id); }
  cs.erase(std::remove_if(cs.begin(), cs.end(), [](Expr* e) { return e->isK(); }), cs.end());
  auto it = cache.find(key);
  if (it != cache.end()) { st.cacheHits++; if (out) *out = it->second.m; return it->second.r; }
  double t0 = now(); Res r = UNKNOWN; std::vector<std::pair<u32, u128>> m;
  st.queries++;
  bool fp = false; for (Expr* e : cs) fp |= e->fp;
  if (!fp && preferInt) r = runInt(cs, &m, timeoutMs);
  if (r == UNKNOWN && !fp) {
    if (++incUses > 3000) restart();
    Z3_solver_push(c, inc);
    r = runBV(inc, cs, &m);
    Z3_solver_pop(c, inc, 1);
  }
  if (r == UNKNOWN) {
    st.hardQueries++;
    m.clear();
    Z3_solver s = mkSolver(fp ? "QF_BVFP" : "QF_BV", timeoutMs);
    r = runBV(s, cs, &m);
    Z3_solver_dec_ref(c, s);
  }
  if (r == UNKNOWN && !fp && !preferInt) { m.clear(); r = runInt(cs, &m, timeoutMs); }
  if (r == SAT) {  // validate the model against our own evaluator
    Model mm; mm.id = newModelId(); for (auto& p : m) mm.v[p.first] = p.second;
    for (Expr* e : cs) if (!evalExpr(e, mm)) { fprintf(stderr, "model mismatch on %s\n", exprStr(e, 5).c_str()); r = UNKNOWN; break; }
  }
  double dt = now() - t0; st.time += dt; if (dt > st.maxTime) st.maxTime = dt;
  if (getenv("SX_SLOW") && dt > atof(getenv("SX_SLOW"))) { fprintf(stderr, "slow query %.2fs -> %d, %zu constraints\n", dt, (int)r, cs.size()); for (Expr* e : cs) fprintf(stderr, "   %s\n", exprStr(e, 8).c_str()); }
  if (r == SAT) st.sat++; else if (r == UNSAT) st.unsat++; else st.unknown++;
  cache.emplace(std::move(key), Ent{r, m});
  if (out) *out = std::move(m);
  return r;
}
}  // namespace sx
