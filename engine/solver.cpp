#include "solver.h"
#include <chrono>
#include <cstring>
#include <cstdio>
#include <cmath>
#include <algorithm>
#include <unordered_set>
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "symx: z3 error: %s\n", Z3_get_error_msg(c, e)); exit(4); }
Solver::Solver() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx, errh);
}
Z3_ast Solver::bval(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, Z3_mk_bv_sort(ctx, w));
  Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t)(v >> 64), Z3_mk_bv_sort(ctx, w - 64)), lo = Z3_mk_unsigned_int64(ctx, (uint64_t)v, Z3_mk_bv_sort(ctx, 64));
  return Z3_mk_concat(ctx, hi, lo);
}
Z3_sort Solver::fpSort(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); }
// booleans (width 1) are represented as z3 Bool in boolOf and as (_ BitVec 1) in bv
Z3_ast Solver::boolOf(E e) {
  if (e->isConst()) return e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
  static std::unordered_map<E, Z3_ast> memo;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  Z3_ast r; Z3_ast a[2];
  switch (e->op) {
    case Op::And: a[0] = boolOf(e->k[0]); a[1] = boolOf(e->k[1]); r = Z3_mk_and(ctx, 2, a); break;
    case Op::Or: a[0] = boolOf(e->k[0]); a[1] = boolOf(e->k[1]); r = Z3_mk_or(ctx, 2, a); break;
    case Op::Xor: if (e->k[1]->isConst()) r = Z3_mk_not(ctx, boolOf(e->k[0])); else r = Z3_mk_xor(ctx, boolOf(e->k[0]), boolOf(e->k[1])); break;
    case Op::Ite: r = Z3_mk_ite(ctx, boolOf(e->k[0]), boolOf(e->k[1]), boolOf(e->k[2])); break;
    case Op::Eq: r = Z3_mk_eq(ctx, bv(e->k[0]), bv(e->k[1])); break;
    case Op::Ult: r = Z3_mk_bvult(ctx, bv(e->k[0]), bv(e->k[1])); break;
    case Op::Ule: r = Z3_mk_bvule(ctx, bv(e->k[0]), bv(e->k[1])); break;
    case Op::Slt: r = Z3_mk_bvslt(ctx, bv(e->k[0]), bv(e->k[1])); break;
    case Op::Sle: r = Z3_mk_bvsle(ctx, bv(e->k[0]), bv(e->k[1])); break;
    case Op::FOeq: r = Z3_mk_fpa_eq(ctx, fp(e->k[0]), fp(e->k[1])); break;
    case Op::FOlt: r = Z3_mk_fpa_lt(ctx, fp(e->k[0]), fp(e->k[1])); break;
    case Op::FOle: r = Z3_mk_fpa_leq(ctx, fp(e->k[0]), fp(e->k[1])); break;
    case Op::FUno: a[0] = Z3_mk_fpa_is_nan(ctx, fp(e->k[0])); a[1] = Z3_mk_fpa_is_nan(ctx, fp(e->k[1])); r = Z3_mk_or(ctx, 2, a); break;
    case Op::RCmp: { Z3_ast p = polyAst(e->rf->num); Z3_ast z = Z3_mk_numeral(ctx, "0", Z3_mk_real_sort(ctx)); int k = e->aux & 3;
      r = k == RC_EQ ? Z3_mk_eq(ctx, p, z) : k == RC_LT ? Z3_mk_lt(ctx, p, z) : Z3_mk_le(ctx, p, z); break; }
    default: r = Z3_mk_eq(ctx, bv(e), bval(1, 1)); break;
  }
  Z3_inc_ref(ctx, r);
  memo[e] = r; return r;
}
Z3_ast Solver::bv(E e) {
  auto it = bvMemo.find(e); if (it != bvMemo.end()) return it->second;
  Z3_ast r = nullptr; unsigned w = e->w;
  auto K = [&](int i) { return bv(e->k[i]); };
  switch (e->op) {
    case Op::Const: r = bval(e->val, w); break;
    case Op::Sym: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->aux), Z3_mk_bv_sort(ctx, w)); break;
    case Op::Add: r = Z3_mk_bvadd(ctx, K(0), K(1)); break; case Op::Sub: r = Z3_mk_bvsub(ctx, K(0), K(1)); break; case Op::Mul: r = Z3_mk_bvmul(ctx, K(0), K(1)); break;
    case Op::UDiv: r = Z3_mk_bvudiv(ctx, K(0), K(1)); break; case Op::SDiv: r = Z3_mk_bvsdiv(ctx, K(0), K(1)); break;
    case Op::URem: r = Z3_mk_bvurem(ctx, K(0), K(1)); break; case Op::SRem: r = Z3_mk_bvsrem(ctx, K(0), K(1)); break;
    case Op::And: if (w == 1) goto viaBool; r = Z3_mk_bvand(ctx, K(0), K(1)); break;
    case Op::Or: if (w == 1) goto viaBool; r = Z3_mk_bvor(ctx, K(0), K(1)); break;
    case Op::Xor: if (w == 1) goto viaBool; r = Z3_mk_bvxor(ctx, K(0), K(1)); break;
    case Op::Shl: r = Z3_mk_bvshl(ctx, K(0), K(1)); break; case Op::LShr: r = Z3_mk_bvlshr(ctx, K(0), K(1)); break; case Op::AShr: r = Z3_mk_bvashr(ctx, K(0), K(1)); break;
    case Op::Ite: if (w == 1) goto viaBool; if (e->fp && (e->hasFP)) { r = Z3_mk_fpa_to_ieee_bv(ctx, fp(e)); } else r = Z3_mk_ite(ctx, boolOf(e->k[0]), K(1), K(2)); break;
    case Op::Concat: r = Z3_mk_concat(ctx, K(0), K(1)); break;
    case Op::Extract: r = Z3_mk_extract(ctx, e->aux + w - 1, e->aux, K(0)); break;
    case Op::ZExt: r = Z3_mk_zero_ext(ctx, w - e->k[0]->w, K(0)); break;
    case Op::SExt: r = Z3_mk_sign_ext(ctx, w - e->k[0]->w, K(0)); break;
    case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: case Op::FOeq: case Op::FOlt: case Op::FOle: case Op::FUno: case Op::RCmp:
    viaBool: r = Z3_mk_ite(ctx, boolOf(e), bval(1, 1), bval(0, 1)); break;
    case Op::FNeg: r = Z3_mk_bvxor(ctx, K(0), bval((u128)1 << (w - 1), w)); break;
    case Op::FAbs: r = Z3_mk_bvand(ctx, K(0), bval(maskw(w - 1), w)); break;
    case Op::FpToSI: {
      Z3_ast x = fp(e->k[0]); Z3_sort s = fpSort(e->k[0]->w);
      double lod = w == 64 ? -9223372036854775808.0 : -2147483649.0, hid = w == 64 ? 9223372036854775808.0 : 2147483648.0;
      Z3_ast c[2]; Z3_ast hi = Z3_mk_fpa_numeral_double(ctx, hid, s), lo = Z3_mk_fpa_numeral_double(ctx, e->k[0]->w == 32 && w == 32 ? -2147483648.0 : lod, s);
      bool incl = w == 64 || e->k[0]->w == 32;
      c[0] = Z3_mk_fpa_lt(ctx, x, hi); c[1] = incl ? Z3_mk_fpa_leq(ctx, lo, x) : Z3_mk_fpa_lt(ctx, lo, x);
      Z3_ast in = Z3_mk_and(ctx, 2, c);
      r = Z3_mk_ite(ctx, in, Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), x, w), bval((u128)1 << (w - 1), w)); break; }
    case Op::App: {
      Z3_func_decl& f = fns[e->aux * 4 + e->nk];
      Z3_sort s = Z3_mk_bv_sort(ctx, w);
      if (!f) { Z3_sort d[3]; for (int i = 0; i < e->nk; i++) d[i] = Z3_mk_bv_sort(ctx, e->k[i]->w); f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, (g_fns[e->aux] + std::to_string(w)).c_str()), e->nk, d, s); Z3_inc_ref(ctx, Z3_func_decl_to_ast(ctx, f)); }
      Z3_ast a[3]; for (int i = 0; i < e->nk; i++) a[i] = K(i);
      r = Z3_mk_app(ctx, f, e->nk, a); break; }
    case Op::RVal: throw RealBits();
    default:
      if (e->op >= Op::FAdd && e->op <= Op::FpTrunc) { r = Z3_mk_fpa_to_ieee_bv(ctx, fp(e)); break; }
      fprintf(stderr, "symx: bv translation of op %d\n", (int)e->op); exit(4);
  }
  Z3_inc_ref(ctx, r); bvMemo[e] = r; return r;
}
Z3_ast Solver::fp(E e) {
  auto it = fpMemo.find(e); if (it != fpMemo.end()) return it->second;
  Z3_ast r; Z3_sort s = (e->w == 64 || e->w == 32) ? fpSort(e->w) : nullptr; Z3_ast rm = Z3_mk_fpa_rne(ctx);
  auto K = [&](int i) { return fp(e->k[i]); };
  switch (e->op) {
    case Op::FAdd: r = Z3_mk_fpa_add(ctx, rm, K(0), K(1)); break; case Op::FSub: r = Z3_mk_fpa_sub(ctx, rm, K(0), K(1)); break;
    case Op::FMul: r = Z3_mk_fpa_mul(ctx, rm, K(0), K(1)); break; case Op::FDiv: r = Z3_mk_fpa_div(ctx, rm, K(0), K(1)); break;
    case Op::FFma: r = Z3_mk_fpa_fma(ctx, rm, K(0), K(1), K(2)); break;
    case Op::FNeg: r = Z3_mk_fpa_neg(ctx, K(0)); break; case Op::FAbs: r = Z3_mk_fpa_abs(ctx, K(0)); break;
    case Op::FSqrt: r = Z3_mk_fpa_sqrt(ctx, rm, K(0)); break;
    case Op::FRound: { Z3_ast m = e->aux == RM_FLOOR ? Z3_mk_fpa_rtn(ctx) : e->aux == RM_CEIL ? Z3_mk_fpa_rtp(ctx) : e->aux == RM_TRUNC ? Z3_mk_fpa_rtz(ctx) : e->aux == RM_RINT ? Z3_mk_fpa_rne(ctx) : Z3_mk_fpa_rna(ctx); r = Z3_mk_fpa_round_to_integral(ctx, m, K(0)); break; }
    case Op::SIToFP: r = Z3_mk_fpa_to_fp_signed(ctx, rm, bv(e->k[0]), s); break;
    case Op::UIToFP: r = Z3_mk_fpa_to_fp_unsigned(ctx, rm, bv(e->k[0]), s); break;
    case Op::FpExt: case Op::FpTrunc: r = Z3_mk_fpa_to_fp_float(ctx, rm, K(0), s); break;
    case Op::Ite: r = Z3_mk_ite(ctx, boolOf(e->k[0]), K(1), K(2)); break;
    case Op::Const: if (e->w == 64) r = Z3_mk_fpa_numeral_double(ctx, bitsToD(e->val), s); else r = Z3_mk_fpa_numeral_float(ctx, bitsToF(e->val), s); break;
    default: r = Z3_mk_fpa_to_fp_bv(ctx, bv(e), s); break;
  }
  Z3_inc_ref(ctx, r); fpMemo[e] = r; return r;
}
// ------------------------------------------------------------ reals
Z3_ast Solver::rl(E e) { // real term of an expression (atom, constant or rational function with constant denominators)
  auto it = rMemo.find(e); if (it != rMemo.end()) return it->second;
  Z3_ast r; Q q; Z3_sort rs = Z3_mk_real_sort(ctx);
  if (rvIsConst(e, &q)) r = Z3_mk_numeral(ctx, q.str().c_str(), rs);
  else if (e->rf) { r = polyAst(e->rf->num); if (!e->rf->fac.empty()) { std::vector<Z3_ast> d; for (auto& x : e->rf->fac) { Z3_ast f = polyAst(facPoly(x.first)); for (uint32_t i = 0; i < x.second; i++) d.push_back(f); } r = Z3_mk_div(ctx, r, d.size() == 1 ? d[0] : Z3_mk_mul(ctx, d.size(), d.data())); } }
  else r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("a" + std::to_string(e->id)).c_str()), rs);
  Z3_inc_ref(ctx, r); rMemo[e] = r; return r;
}
Z3_ast Solver::polyAst(const Poly& p) {
  Z3_sort rs = Z3_mk_real_sort(ctx); std::vector<Z3_ast> s;
  for (auto& t : p.t) { std::vector<Z3_ast> f; if (t.second != 1 || t.first.empty()) f.push_back(Z3_mk_numeral(ctx, t.second.str().c_str(), rs)); for (auto& m : t.first) for (uint32_t i = 0; i < m.second; i++) f.push_back(rl(atomExpr(m.first))); s.push_back(f.size() == 1 ? f[0] : Z3_mk_mul(ctx, f.size(), f.data())); }
  if (s.empty()) return Z3_mk_numeral(ctx, "0", rs);
  return s.size() == 1 ? s[0] : Z3_mk_add(ctx, s.size(), s.data());
}
void Solver::collectReal(E e, std::vector<E>& atoms, std::unordered_map<E, bool>& seen) {
  if (seen[e]) return; seen[e] = true;
  if (e->rf) { eachPoly(e->rf, [&](const Poly& p) { for (auto& t : p.t) for (auto& m : t.first) collectReal(atomExpr(m.first), atoms, seen); }); return; }
  for (int i = 0; i < e->nk; i++) collectReal(e->k[i], atoms, seen);
  if (e->w == 64 && !e->isConst() && (e->op == Op::App || (e->op == Op::Ite && e->fp) || (e->op == Op::Sym && g_syms[e->aux].real))) atoms.push_back(e);
}
bool Solver::evalReal(E e, const Model& m, Q& q) {
  if (rvIsConst(e, &q)) return true;
  if (e->isConst()) return false;
  if (e->rf) {
    auto pv = [&](const Poly& p, Q& out) { Q sum = 0; for (auto& t : p.t) { Q x = t.second; for (auto& mm : t.first) { Q a; if (!evalReal(atomExpr(mm.first), m, a)) return false; for (uint32_t k = 0; k < mm.second; k++) x *= a; } sum += x; } out = sum; return true; };
    if (!pv(e->rf->num, q)) return false;
    for (auto& x : e->rf->fac) { Q d; if (!pv(facPoly(x.first), d) || d == 0) return false; for (uint32_t k = 0; k < x.second; k++) q /= d; }
    return true;
  }
  if (m.rm) { auto it = m.rm->atom.find(e->id); if (it != m.rm->atom.end()) { q = it->second; return true; } }
  if (e->op == Op::Sym) { if (m.rm) { q = 0; return true; } q = 0; return true; }
  if (e->op == Op::Ite) { bool b; if (!evalBool(e->k[0], m, b)) return false; return evalReal(e->k[b ? 1 : 2], m, q); }
  return false;
}
bool Solver::evalBool(E c, const Model& m, bool& val) {
  if (!c->hasReal) { val = m.eval(c) != 0; return true; }
  if (m.rm && !m.rm->exact) return false;
  bool a, b;
  switch (c->op) {
    case Op::RCmp: { Q s = 0; for (auto& t : c->rf->num.t) { Q x = t.second; for (auto& mm : t.first) { Q q; if (!evalReal(atomExpr(mm.first), m, q)) return false; for (uint32_t k = 0; k < mm.second; k++) x *= q; } s += x; }
      int k = c->aux & 3; val = k == RC_EQ ? s == 0 : k == RC_LT ? s < 0 : s <= 0; return true; }
    case Op::And: if (!evalBool(c->k[0], m, a) || !evalBool(c->k[1], m, b)) return false; val = a && b; return true;
    case Op::Or: if (!evalBool(c->k[0], m, a) || !evalBool(c->k[1], m, b)) return false; val = a || b; return true;
    case Op::Xor: if (!evalBool(c->k[0], m, a) || !evalBool(c->k[1], m, b)) return false; val = a != b; return true;
    case Op::Ite: if (c->w == 1) { if (!evalBool(c->k[0], m, a)) return false; return evalBool(c->k[a ? 1 : 2], m, val); } return false;
    default: try { val = m.eval(c) != 0; return true; } catch (RealBits&) { return false; }
  }
}
void Solver::collect(E e, std::vector<E>& syms, std::vector<E>& apps, std::unordered_map<E, bool>& seen) {
  std::vector<E> st{e};
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (x->isConst() || seen[x]) continue; seen[x] = true; if (x->op == Op::Sym) syms.push_back(x); if (x->op == Op::App) apps.push_back(x); for (int i = 0; i < x->nk; i++) st.push_back(x->k[i]); if (x->rf) eachPoly(x->rf, [&](const Poly& p) { for (auto& t : p.t) for (auto& m : t.first) st.push_back(atomExpr(m.first)); }); }
}
static u128 parseBV(Z3_context ctx, Z3_ast a) {
  const char* s = Z3_get_numeral_string(ctx, a); u128 v = 0; for (; *s; s++) v = v * 10 + (*s - '0'); return v;
}
Res Solver::solve(const std::vector<E>& cs, const ModelP& cur, ModelP* out) {
  auto t0 = std::chrono::steady_clock::now();
  bool hasFP = false, hasUF = false, hasReal = false, hasBV = false;
  std::vector<E> syms, apps; std::unordered_map<E, bool> seen;
  for (E c : cs) { hasFP |= c->hasFP; hasUF |= c->hasUF; hasReal |= c->hasReal; collect(c, syms, apps, seen); }
  for (E s : syms) if (!g_syms[s->aux].real) hasBV = true;
  Z3_solver sv;
  if (hasReal) sv = hasBV ? Z3_mk_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_NRA"));
  else if (hasUF && hasFP) sv = Z3_mk_solver(ctx);
  else if (hasUF) sv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_UFBV"));
  else if (hasFP) sv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BVFP"));
  else sv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, sv);
  Z3_params ps = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, ps);
  Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
  Z3_solver_set_params(ctx, sv, ps);
  for (E c : cs) Z3_solver_assert(ctx, sv, boolOf(c));
  for (E s : syms) { auto& si = g_syms[s->aux]; if (si.ranged) {
      if (si.lo > -((i128)1 << (si.w - 1))) Z3_solver_assert(ctx, sv, Z3_mk_bvsle(ctx, bval((u128)si.lo & maskw(si.w), si.w), bv(s)));
      if (si.hi < ((i128)1 << (si.w - 1)) - 1) Z3_solver_assert(ctx, sv, Z3_mk_bvsle(ctx, bv(s), bval((u128)si.hi & maskw(si.w), si.w))); } }
  std::vector<E> atoms;
  if (hasReal) {
    std::unordered_map<E, bool> s2; for (E c : cs) collectReal(c, atoms, s2);
    Z3_ast zero = Z3_mk_numeral(ctx, "0", Z3_mk_real_sort(ctx)), one = Z3_mk_numeral(ctx, "1", Z3_mk_real_sort(ctx));
    for (size_t i = 0; i < atoms.size(); i++) {
      E a = atoms[i];
      if (a->op == Op::Ite) { Z3_ast c = boolOf(a->k[0]); Z3_solver_assert(ctx, sv, Z3_mk_ite(ctx, c, Z3_mk_eq(ctx, rl(a), rl(a->k[1])), Z3_mk_eq(ctx, rl(a), rl(a->k[2])))); }
      if (a->op != Op::App) continue;
      const std::string& f = g_fns[a->aux];
      if (f == "exp") { Z3_solver_assert(ctx, sv, Z3_mk_gt(ctx, rl(a), zero));
        Z3_ast x = rl(a->k[0]); Z3_solver_assert(ctx, sv, Z3_mk_iff(ctx, Z3_mk_le(ctx, x, zero), Z3_mk_le(ctx, rl(a), one))); }
      if (f == "sqrt") { Z3_solver_assert(ctx, sv, Z3_mk_ge(ctx, rl(a), zero)); Z3_ast m[2] = {rl(a), rl(a)}; Z3_solver_assert(ctx, sv, Z3_mk_eq(ctx, Z3_mk_mul(ctx, 2, m), rl(a->k[0]))); }
      if (f == "pow") { Q bq; if (rvIsConst(a->k[0], &bq) && bq > 0) Z3_solver_assert(ctx, sv, Z3_mk_gt(ctx, rl(a), zero)); }
      for (size_t j = 0; j < i; j++) { E b = atoms[j]; if (b->op != Op::App || b->aux != a->aux || b->nk != a->nk) continue;
        std::vector<Z3_ast> eq; for (int k = 0; k < a->nk; k++) eq.push_back(Z3_mk_eq(ctx, rl(a->k[k]), rl(b->k[k])));
        Z3_ast pre = eq.size() == 1 ? eq[0] : Z3_mk_and(ctx, eq.size(), eq.data());
        if (f == "sqrt") continue;
        if (f == "exp" || f == "log") Z3_solver_assert(ctx, sv, Z3_mk_iff(ctx, Z3_mk_lt(ctx, rl(a->k[0]), rl(b->k[0])), Z3_mk_lt(ctx, rl(a), rl(b))));
        Z3_solver_assert(ctx, sv, Z3_mk_implies(ctx, pre, Z3_mk_eq(ctx, rl(a), rl(b)))); }
    }
  }
  if (!dumpDir.empty()) { static int n = 0; FILE* f = fopen((dumpDir + "/q" + std::to_string(n++) + ".smt2").c_str(), "w"); if (f) { fprintf(f, "%s\n(check-sat)\n", Z3_solver_to_string(ctx, sv)); fclose(f); } }
  Z3_lbool lb = Z3_solver_check(ctx, sv);
  if (lb == Z3_L_UNDEF && hasReal && !hasBV) { // the general solver decides some queries the nonlinear one gives up on
    Z3_solver s2 = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, s2); Z3_solver_set_params(ctx, s2, ps);
    Z3_ast_vector v = Z3_solver_get_assertions(ctx, sv); Z3_ast_vector_inc_ref(ctx, v); for (unsigned i = 0; i < Z3_ast_vector_size(ctx, v); i++) Z3_solver_assert(ctx, s2, Z3_ast_vector_get(ctx, v, i)); Z3_ast_vector_dec_ref(ctx, v);
    Z3_solver_dec_ref(ctx, sv); sv = s2; lb = Z3_solver_check(ctx, sv); st.z3calls++; }
  st.z3calls++;
  Res r = lb == Z3_L_TRUE ? SAT : lb == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (r == SAT && out) {
    Z3_model m = Z3_solver_get_model(ctx, sv); Z3_model_inc_ref(ctx, m);
    auto nm = std::make_shared<Model>();
    if (cur) { nm->v = cur->v; nm->fn = cur->fn; if (cur->rm) nm->rm = std::make_shared<RModel>(*cur->rm); }
    for (E s : syms) { if (g_syms[s->aux].real) continue; Z3_ast v; if (Z3_model_eval(ctx, m, bv(s), true, &v)) { Z3_inc_ref(ctx, v); nm->v[s->aux] = parseBV(ctx, v); Z3_dec_ref(ctx, v); } }
    if (hasReal) {
      if (!nm->rm) nm->rm = std::make_shared<RModel>();
      for (E a : atoms) { Z3_ast v; if (!Z3_model_eval(ctx, m, rl(a), true, &v)) continue; Z3_inc_ref(ctx, v);
        if (Z3_is_numeral_ast(ctx, v)) { std::string s = Z3_get_numeral_string(ctx, v); auto sl = s.find('/'); Q q = sl == std::string::npos ? Q(Z(s)) : Q(Z(s.substr(0, sl)), Z(s.substr(sl + 1))); nm->rm->atom[a->id] = q; }
        else if (Z3_is_algebraic_number(ctx, v)) { Z3_ast lo = Z3_get_algebraic_number_lower(ctx, v, 20); Z3_inc_ref(ctx, lo); std::string s = Z3_get_numeral_string(ctx, lo); auto sl = s.find('/'); nm->rm->atom[a->id] = sl == std::string::npos ? Q(Z(s)) : Q(Z(s.substr(0, sl)), Z(s.substr(sl + 1))); nm->rm->exact = false; Z3_dec_ref(ctx, lo); }
        Z3_dec_ref(ctx, v); }
    } else if (hasUF) {
      // drop the interpretations of functions occurring here, then take the new ones
      std::unordered_set<uint32_t> fs; for (E a : apps) fs.insert(a->aux);
      for (auto it = nm->fn.begin(); it != nm->fn.end();) if (fs.count(it->first.first)) it = nm->fn.erase(it); else ++it;
      for (E a : apps) { std::vector<u128> key; Z3_ast v; for (int k = 0; k < a->nk; k++) { Z3_model_eval(ctx, m, bv(a->k[k]), true, &v); Z3_inc_ref(ctx, v); key.push_back(parseBV(ctx, v)); } Z3_model_eval(ctx, m, bv(a), true, &v); Z3_inc_ref(ctx, v); nm->fn[{a->aux, key}] = parseBV(ctx, v); }
    }
    Z3_model_dec_ref(ctx, m);
    *out = nm;
  }
  Z3_params_dec_ref(ctx, ps); Z3_solver_dec_ref(ctx, sv);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  st.secs += dt; st.maxSecs = std::max(st.maxSecs, dt);
  if (verbose && dt > 1.0) { fprintf(stderr, "[slow query %.2fs res=%d fp=%d uf=%d real=%d cs=%zu]\n", dt, r, hasFP, hasUF, hasReal, cs.size()); if (dt > 5) for (E c : cs) fprintf(stderr, "   %s\n", toStr(c, 7).substr(0, 600).c_str()); }
  return r;
}
Res Solver::check(const std::vector<E>& pc, E cond, const ModelP& cur, ModelP* out) {
  st.queries++;
  if (cond->isConst()) { if (cond->val) { if (out) *out = cur; return SAT; } return UNSAT; }
  // independence slicing
  std::unordered_set<uint32_t> S; if (cond->syms) S.insert(cond->syms->begin(), cond->syms->end());
  std::vector<char> in(pc.size(), 0); bool ch = true; std::vector<E> slice;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!in[i] && pc[i]->syms) { bool hit = false; for (auto x : *pc[i]->syms) if (S.count(x)) { hit = true; break; } if (hit) { in[i] = 1; ch = true; slice.push_back(pc[i]); S.insert(pc[i]->syms->begin(), pc[i]->syms->end()); } } }
  std::vector<uint32_t> key; for (E c : slice) key.push_back(c->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  for (E c : slice) if (c == mkBin(Op::Xor, cond, mkConst(1, 1))) { return UNSAT; }
  key.push_back(cond->id);
  auto merge = [&](const ModelP& sub) -> ModelP {
    auto nm = std::make_shared<Model>(); if (cur) { nm->v = cur->v; nm->fn = cur->fn; if (cur->rm) nm->rm = std::make_shared<RModel>(*cur->rm); }
    for (auto x : S) if (!(x & 0x80000000u)) { auto it = sub->v.find(x); if (it != sub->v.end()) nm->v[x] = it->second; else nm->v.erase(x); }
    std::unordered_set<uint32_t> fs; for (auto x : S) if (x & 0x80000000u) fs.insert(x & 0x7fffffffu);
    if (!fs.empty()) { for (auto it = nm->fn.begin(); it != nm->fn.end();) if (fs.count(it->first.first)) it = nm->fn.erase(it); else ++it; for (auto& f : sub->fn) if (fs.count(f.first.first)) nm->fn.insert(f); }
    if (sub->rm) { if (!nm->rm) nm->rm = std::make_shared<RModel>(); for (auto& a : sub->rm->atom) nm->rm->atom[a.first] = a.second; nm->rm->exact &= sub->rm->exact; }
    return nm; };
  auto it = cache.find(key);
  if (it != cache.end()) { st.cacheHits++; if (it->second.r == SAT && out) *out = merge(it->second.m); return it->second.r; }
  if (!cond->hasReal) {
    for (size_t i = recent.size(); i-- > 0;) { const ModelP& m = recent[i]; if (!m->eval(cond)) continue; bool ok = true; for (E c : slice) if (!m->eval(c)) { ok = false; break; }
      if (ok) { st.modelHits++; cache[key] = {SAT, m}; if (out) *out = merge(m); return SAT; } }
  }
  slice.push_back(cond);
  ModelP m; Res r = solve(slice, nullptr, &m);
  if (r == SAT) {
    st.sat++;
    if (!cond->hasReal) { // sanity: the model must satisfy the query under our own evaluator
      for (E c : slice) if (!m->eval(c)) { fprintf(stderr, "symx: solver model does not satisfy %s\n", toStr(c, 8).c_str()); r = UNKNOWN; break; } }
    if (r == SAT) { recent.push_back(m); if (recent.size() > 24) recent.erase(recent.begin()); if (out) *out = merge(m); }
  }
  else if (r == UNSAT) st.unsat++;
  if (r == UNKNOWN) st.unknown++; 
  cache[key] = {r, m};
  return r;
}
