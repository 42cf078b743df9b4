#include "expr.h"
#include <deque>
#include "real.h"
#include <cstring>
#include <cmath>
#include <cassert>
#include <cstdio>
#include <algorithm>
#include <set>
#include <unordered_set>

std::vector<SymInfo> g_syms;
std::vector<std::string> g_fns;
static std::unordered_map<std::string, uint32_t> g_fnidx;
bool g_realMode = false;
bool (*g_evalRCmp)(E, const Model&, bool&) = nullptr;

u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
i128 sextVal(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  v &= maskw(w);
  if (w && ((v >> (w - 1)) & 1)) v |= ~maskw(w);
  return (i128)v;
}
double bitsToD(u128 v) { uint64_t b = (uint64_t)v; double d; memcpy(&d, &b, 8); return d; }
u128 dToBits(double d) { if (d != d) return 0x7ff8000000000000ull; uint64_t b; memcpy(&b, &d, 8); return b; }
float bitsToF(u128 v) { uint32_t b = (uint32_t)v; float d; memcpy(&d, &b, 4); return d; }
u128 fToBits(float d) { if (d != d) return 0x7fc00000u; uint32_t b; memcpy(&b, &d, 4); return b; }

// ------------------------------------------------------------ interning
struct Key { Op op; uint16_t w; uint32_t aux; const Expr* k[3]; u128 val; };
static inline size_t hmix(size_t h, size_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h; }
struct KH { size_t operator()(const Key& k) const { size_t h = (size_t)k.op * 131 + k.w; h = hmix(h, k.aux); for (auto p : k.k) h = hmix(h, (size_t)p >> 4); h = hmix(h, (size_t)k.val); h = hmix(h, (size_t)(k.val >> 64)); return h; } };
struct KE { bool operator()(const Key& a, const Key& b) const { return a.op == b.op && a.w == b.w && a.aux == b.aux && a.k[0] == b.k[0] && a.k[1] == b.k[1] && a.k[2] == b.k[2] && a.val == b.val; } };
static std::unordered_map<Key, Expr*, KH, KE> g_tab;
static std::vector<Expr*> g_all;
size_t exprCount() { return g_all.size(); }
E atomExpr(uint32_t id) { return g_all[id]; }

static std::set<SymSet> g_sets;
static const SymSet* internSet(SymSet s) { return &*g_sets.insert(std::move(s)).first; }
static std::unordered_map<size_t, const SymSet*> g_unionMemo;
static const SymSet* unionSet(const SymSet* a, const SymSet* b) {
  if (!a || a == b) return b;
  if (!b) return a;
  if (a > b) std::swap(a, b);
  static std::map<std::pair<const SymSet*, const SymSet*>, const SymSet*> memo;
  auto it = memo.find({a, b});
  if (it != memo.end()) return it->second;
  SymSet r; std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  auto* p = internSet(std::move(r));
  memo[{a, b}] = p;
  return p;
}
static inline i128 smin(unsigned w) { return w >= 128 ? (i128)((u128)1 << 127) : -((i128)1 << (w - 1)); }
static inline i128 smax(unsigned w) { return w >= 128 ? (i128)(~(u128)0 >> 1) : ((i128)1 << (w - 1)) - 1; }

static const Dy* mkDyObj(const Dy& d) { return new Dy(d); }
static void calcRange(Expr* e);

static const SymSet* polySyms(const Poly& p) { const SymSet* s = nullptr; for (auto& t : p.t) for (auto& m : t.first) s = unionSet(s, g_all[m.first]->syms); return s; }

static E intern(Op op, unsigned w, uint32_t aux, E a = nullptr, E b = nullptr, E c = nullptr, u128 val = 0, bool fp = false, const RatFun* rf = nullptr) {
  Key key{op, (uint16_t)w, aux, {a, b, c}, val};
  auto it = g_tab.find(key);
  if (it != g_tab.end()) return it->second;
  Expr* e = new Expr();
  e->op = op; e->w = w; e->aux = aux; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->nk = a ? (b ? (c ? 3 : 2) : 1) : 0;
  e->val = val; e->fp = fp; e->dy = nullptr; e->syms = nullptr; e->rf = rf;
  e->hasFP = op >= Op::FAdd && op <= Op::FpTrunc;
  e->hasUF = op == Op::App; e->hasReal = op == Op::RVal || op == Op::RCmp;
  uint64_t sz = 1;
  for (int i = 0; i < e->nk; i++) {
    e->hasFP |= e->k[i]->hasFP; e->hasUF |= e->k[i]->hasUF; e->hasReal |= e->k[i]->hasReal;
    e->syms = unionSet(e->syms, e->k[i]->syms); sz += e->k[i]->size;
  }
  if (rf) {
    eachPoly(rf, [&](const Poly& p) { e->syms = unionSet(e->syms, polySyms(p)); for (auto& t : p.t) for (auto& m : t.first) e->hasUF |= g_all[m.first]->hasUF; });
  }
  e->size = sz > 0x7fffffff ? 0x7fffffff : sz;
  if (op == Op::Sym) { e->syms = internSet({aux}); if (g_syms[aux].real) e->hasReal = true; }
  if (op == Op::App && !g_realMode) e->syms = unionSet(e->syms, internSet({0x80000000u | aux}));
  e->id = g_all.size();
  g_all.push_back(e);
  g_tab.emplace(key, e);
  calcRange(e);
  return e;
}
static void calcRange(Expr* e) {
  unsigned w = e->w;
  if (w == 1) { e->lo = 0; e->hi = 1; if (e->isConst()) e->lo = e->hi = (i128)e->val; return; }
  e->lo = smin(w); e->hi = smax(w);
  if (w > 64) { if (e->isConst()) e->lo = e->hi = sextVal(e->val, w); return; }
  auto set = [&](i128 lo, i128 hi) { if (lo >= e->lo && hi <= e->hi) { e->lo = lo; e->hi = hi; } };
  E a = e->k[0], b = e->k[1];
  switch (e->op) {
    case Op::Const: e->lo = e->hi = sextVal(e->val, w); break;
    case Op::Sym: if (g_syms[e->aux].ranged) set(g_syms[e->aux].lo, g_syms[e->aux].hi); break;
    case Op::ZExt: if (a->w == 1) set(0, 1); else if (a->lo >= 0) set(a->lo, a->hi); else set(0, (i128)maskw(a->w)); break;
    case Op::SExt: if (a->w == 1) set(-1, 0); else set(a->lo, a->hi); break;
    case Op::Add: set(a->lo + b->lo, a->hi + b->hi); break;
    case Op::Sub: set(a->lo - b->hi, a->hi - b->lo); break;
    case Op::Mul: { i128 p[4] = {a->lo * b->lo, a->lo * b->hi, a->hi * b->lo, a->hi * b->hi}; set(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); break; }
    case Op::And: if (a->lo >= 0 && b->lo >= 0) set(0, std::min(a->hi, b->hi)); else if (a->lo >= 0) set(0, a->hi); else if (b->lo >= 0) set(0, b->hi); break;
    case Op::Or: case Op::Xor: if (a->lo >= 0 && b->lo >= 0) { i128 m = std::max(a->hi, b->hi); i128 k = 1; while (k <= m) k <<= 1; set(0, k - 1); } break;
    case Op::Shl: if (b->isConst() && b->val < w) { i128 s = (i128)1 << (unsigned)b->val; if (b->val < 60) set(a->lo * s, a->hi * s); } break;
    case Op::LShr: if (b->isConst() && b->val < w) { unsigned s = (unsigned)b->val; if (a->lo >= 0) set(a->lo >> s, a->hi >> s); else if (s > 0) set(0, (i128)(maskw(w) >> s)); } else if (a->lo >= 0) set(0, a->hi); break;
    case Op::AShr: if (b->isConst() && b->val < w) { unsigned s = (unsigned)b->val; set(a->lo >> s, a->hi >> s); } else set(std::min<i128>(a->lo, 0), std::max<i128>(a->hi, 0)); break;
    case Op::UDiv: if (a->lo >= 0 && b->lo > 0) set(a->lo / b->hi, a->hi / b->lo); break;
    case Op::SDiv: if (b->lo > 0) { i128 p[4] = {a->lo / b->lo, a->lo / b->hi, a->hi / b->lo, a->hi / b->hi}; set(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); } break;
    case Op::URem: if (b->lo > 0) set(0, a->lo >= 0 ? std::min(b->hi - 1, a->hi) : b->hi - 1); break;
    case Op::SRem: if (b->lo > 0) set(a->lo >= 0 ? 0 : -(b->hi - 1), a->hi <= 0 ? 0 : b->hi - 1); break;
    case Op::Ite: set(std::min(b->lo, e->k[2]->lo), std::max(b->hi, e->k[2]->hi)); break;
    case Op::Extract: if (e->aux == 0 && a->w <= 64 && a->lo >= smin(w) && a->hi <= smax(w)) set(a->lo, a->hi); break;
    default: break;
  }
}

E mkConst(u128 v, unsigned w) { return intern(Op::Const, w, 0, nullptr, nullptr, nullptr, v & maskw(w)); }
static E newSym(const SymInfo& si) { g_syms.push_back(si); return intern(Op::Sym, si.w, g_syms.size() - 1, nullptr, nullptr, nullptr, 0, si.fp); }
E mkSym(const std::string& name, unsigned w, bool fp) {
  SymInfo s{name, w, fp, false, 0, 0, false, fp && g_realMode && w == 64, false};
  return newSym(s);
}
E mkSymRange(const std::string& name, unsigned w, i128 lo, i128 hi) {
  if (lo == hi) { SymInfo s{name, w, false, true, lo, hi, false, false, false}; g_syms.push_back(s); return mkConst((u128)lo, w); }
  SymInfo s{name, w, false, true, lo, hi, false, false, false};
  return newSym(s);
}

static inline bool isZero(E e) { return e->isConst() && e->val == 0; }
static inline bool isOnes(E e) { return e->isConst() && e->val == maskw(e->w); }
static inline bool isOne(E e) { return e->isConst() && e->val == 1; }

static bool foldBin(Op op, u128 a, u128 b, unsigned w, u128& r) {
  u128 M = maskw(w); a &= M; b &= M;
  i128 sa = sextVal(a, w), sb = sextVal(b, w);
  switch (op) {
    case Op::Add: r = a + b; break; case Op::Sub: r = a - b; break; case Op::Mul: r = a * b; break;
    case Op::UDiv: r = b ? a / b : M; break;
    case Op::SDiv: if (!b) r = sa < 0 ? 1 : M; else if (sb == -1) r = (u128)0 - a; else r = (u128)(sa / sb); break;
    case Op::URem: r = b ? a % b : a; break;
    case Op::SRem: if (!b) r = a; else if (sb == -1) r = 0; else r = (u128)(sa % sb); break;
    case Op::And: r = a & b; break; case Op::Or: r = a | b; break; case Op::Xor: r = a ^ b; break;
    case Op::Shl: r = b >= w ? 0 : a << (unsigned)b; break;
    case Op::LShr: r = b >= w ? 0 : a >> (unsigned)b; break;
    case Op::AShr: r = b >= w ? (sa < 0 ? M : 0) : (u128)(sa >> (unsigned)b); break;
    case Op::Eq: r = a == b; return true; case Op::Ult: r = a < b; return true; case Op::Ule: r = a <= b; return true;
    case Op::Slt: r = sa < sb; return true; case Op::Sle: r = sa <= sb; return true;
    default: return false;
  }
  r &= M; return true;
}
static bool isCmp(Op o) { return o >= Op::Eq && o <= Op::Sle; }
static E negB(E c) { return mkBin(Op::Xor, c, mkConst(1, 1)); }
E mkNot(E a) { return mkBin(Op::Xor, a, mkConst(maskw(a->w), a->w)); }
E mkAndB(E a, E b) { return mkBin(Op::And, a, b); }
E mkOrB(E a, E b) { return mkBin(Op::Or, a, b); }
E mkEq(E a, E b) { return mkBin(Op::Eq, a, b); }
static bool isNotOf(E a, E b) { return a->op == Op::Xor && a->k[0] == b && isOnes(a->k[1]); }

E mkBin(Op op, E a, E b) {
  assert(a->w == b->w || (fprintf(stderr, "width mismatch op %d %d %d\n", (int)op, a->w, b->w), false));
  unsigned w = a->w;
  u128 r;
  if (a->isConst() && b->isConst() && foldBin(op, a->val, b->val, w, r)) return mkConst(r, isCmp(op) ? 1 : w);
  // canonical: constant to the right for commutative ops
  bool comm = op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq;
  if (comm && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
  // Ite with constant arms against a constant
  if (b->isConst() && a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst())
    return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  if (a->isConst() && b->op == Op::Ite && b->k[1]->isConst() && b->k[2]->isConst())
    return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
  // comparisons / eq of ite-trees with constant leaves vs constant (address resolution)
  if (isCmp(op) && b->isConst() && a->op == Op::Ite && (a->k[1]->isConst() || a->k[2]->isConst()) && a->size < 4000)
    return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  switch (op) {
    case Op::Add:
      if (isZero(b)) return a;
      if (b->isConst() && a->op == Op::Add && a->k[1]->isConst()) return mkBin(Op::Add, a->k[0], mkConst(a->k[1]->val + b->val, w));
      if (!b->isConst()) {
        if (a->op == Op::Add && a->k[1]->isConst()) return mkBin(Op::Add, mkBin(Op::Add, a->k[0], b), a->k[1]);
        if (b->op == Op::Add && b->k[1]->isConst()) return mkBin(Op::Add, mkBin(Op::Add, a, b->k[0]), b->k[1]);
        if (a->op == Op::Sub && a->k[1] == b) return a->k[0];
        if (b->op == Op::Sub && b->k[1] == a) return b->k[0];
      }
      break;
    case Op::Sub:
      if (isZero(b)) return a;
      if (a == b) return mkConst(0, w);
      if (b->isConst()) return mkBin(Op::Add, a, mkConst((u128)0 - b->val, w));
      if (a->op == Op::Add) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; 
        if (a->k[1]->isConst() && b->op == Op::Add && b->k[1]->isConst()) return mkBin(Op::Add, mkBin(Op::Sub, a->k[0], b->k[0]), mkConst(a->k[1]->val - b->k[1]->val, w));
        if (a->k[1]->isConst()) return mkBin(Op::Add, mkBin(Op::Sub, a->k[0], b), a->k[1]); }
      if (b->op == Op::Add && b->k[1]->isConst()) return mkBin(Op::Add, mkBin(Op::Sub, a, b->k[0]), mkConst((u128)0 - b->k[1]->val, w));
      break;
    case Op::Mul:
      if (isZero(b)) return b; if (isOne(b)) return a;
      if (b->isConst() && a->op == Op::Mul && a->k[1]->isConst()) return mkBin(Op::Mul, a->k[0], mkConst(a->k[1]->val * b->val, w));
      if (b->isConst() && a->op == Op::Add && a->k[1]->isConst()) return mkBin(Op::Add, mkBin(Op::Mul, a->k[0], b), mkConst(a->k[1]->val * b->val, w));
      if (b->isConst() && (b->val & (b->val - 1)) == 0 && w <= 64) { unsigned s = 0; u128 v = b->val; while (!(v & 1)) { v >>= 1; s++; } return mkBin(Op::Shl, a, mkConst(s, w)); }
      break;
    case Op::UDiv: if (isOne(b)) return a; 
      if (b->isConst() && b->val && (b->val & (b->val - 1)) == 0) { unsigned s = 0; u128 v = b->val; while (!(v & 1)) { v >>= 1; s++; } return mkBin(Op::LShr, a, mkConst(s, w)); }
      break;
    case Op::SDiv: if (isOne(b)) return a;
      if (b->isConst() && w > 1 && a->lo >= 0 && sextVal(b->val, w) > 0) return mkBin(Op::UDiv, a, b);
      if (b->isConst() && a->op == Op::Mul && a->k[1] == b && a->lo != smin(w) ) { /* exact when no overflow */
        E x = a->k[0]; i128 c = sextVal(b->val, w); if (w <= 64 && x->lo * c >= smin(w) && x->lo * c <= smax(w) && x->hi * c >= smin(w) && x->hi * c <= smax(w)) return x; }
      if (b->isConst() && a->op == Op::Shl && a->k[1]->isConst() && a->k[1]->val < 60 && b->val == ((u128)1 << (unsigned)a->k[1]->val)) {
        E x = a->k[0]; i128 c = (i128)b->val; if (w <= 64 && x->lo * c >= smin(w) && x->hi * c <= smax(w)) return x; }
      break;
    case Op::URem: if (isOne(b)) return mkConst(0, w);
      if (b->isConst() && b->val && (b->val & (b->val - 1)) == 0) return mkBin(Op::And, a, mkConst(b->val - 1, w));
      if (a->lo >= 0 && b->lo > 0 && a->hi < b->lo && w > 1) return a;
      break;
    case Op::SRem: if (a->lo >= 0 && b->lo > 0 && w > 1) return mkBin(Op::URem, a, b); break;
    case Op::And:
      if (a == b) return a; if (isZero(b)) return b; if (isOnes(b)) return a;
      if (isNotOf(a, b) || isNotOf(b, a)) return mkConst(0, w);
      if (b->isConst() && a->op == Op::And && a->k[1]->isConst()) return mkBin(Op::And, a->k[0], mkConst(a->k[1]->val & b->val, w));
      if (b->isConst() && (b->val & (b->val + 1)) == 0 && w <= 64 && w > 1) { // low mask
        unsigned n = 0; u128 v = b->val; while (v) { v >>= 1; n++; }
        if (a->lo >= 0 && a->hi <= (i128)b->val) return a;
        return mkZExt(mkExtract(a, 0, n), w);
      }
      if (w == 1 && a->op == Op::And && (a->k[0] == b || a->k[1] == b)) return a;
      if (w == 1 && b->op == Op::And && (b->k[0] == a || b->k[1] == a)) return b;
      break;
    case Op::Or:
      if (a == b) return a; if (isZero(b)) return a; if (isOnes(b)) return b;
      if (isNotOf(a, b) || isNotOf(b, a)) return mkConst(maskw(w), w);
      // (zext(x) | (y << n)) -> concat, when y<<n has low bits zero and x fits
      if (w > 1) {
        for (int s = 0; s < 2; s++) {
          E x = s ? b : a, y = s ? a : b;
          if (x->op == Op::ZExt && y->op == Op::Shl && y->k[1]->isConst() && y->k[1]->val >= x->k[0]->w && y->k[1]->val < w) {
            unsigned n = (unsigned)y->k[1]->val;
            return mkConcat(mkExtract(y->k[0], 0, w - n), mkZExt(x->k[0], n));
          }
          if (x->op == Op::ZExt && y->op == Op::Concat && isZero(y->k[1]) && y->k[1]->w >= x->k[0]->w)
            return mkConcat(y->k[0], mkZExt(x->k[0], y->k[1]->w));
        }
      }
      break;
    case Op::Xor:
      if (a == b) return mkConst(0, w); if (isZero(b)) return a;
      if (b->isConst() && a->op == Op::Xor && a->k[1]->isConst()) return mkBin(Op::Xor, a->k[0], mkConst(a->k[1]->val ^ b->val, w));
      if (w == 1 && isOne(b)) {
        if (a->op == Op::Ult) return mkBin(Op::Ule, a->k[1], a->k[0]);
        if (a->op == Op::Ule) return mkBin(Op::Ult, a->k[1], a->k[0]);
        if (a->op == Op::Slt) return mkBin(Op::Sle, a->k[1], a->k[0]);
        if (a->op == Op::Sle) return mkBin(Op::Slt, a->k[1], a->k[0]);
        if (a->op == Op::Ite && a->w == 1) return mkIte(a->k[0], negB(a->k[1]), negB(a->k[2]));
      }
      break;
    case Op::Shl: case Op::LShr: case Op::AShr:
      if (isZero(b)) return a; if (isZero(a)) return a;
      if (b->isConst() && b->val >= w) { if (op != Op::AShr) return mkConst(0, w); b = mkConst(w - 1, w); }
      if (b->isConst() && op == Op::LShr) { unsigned s = (unsigned)b->val; return mkZExt(mkExtract(a, s, w - s), w); }
      if (b->isConst() && op == Op::AShr) {
        unsigned s = (unsigned)b->val;
        if (a->op == Op::AShr && a->k[1]->isConst()) { u128 t = a->k[1]->val + s; return mkBin(Op::AShr, a->k[0], mkConst(t >= w ? w - 1 : t, w)); }
        if (a->op == Op::Shl && a->k[1]->isConst() && a->k[1]->val == s) {
          E x = a->k[0]; if (w <= 64 && s < 60 && x->lo * ((i128)1 << s) >= smin(w) && x->hi * ((i128)1 << s) <= smax(w)) return x;
          return mkSExt(mkExtract(a->k[0], 0, w - s), w); }
        if (a->op == Op::Shl && a->k[1]->isConst() && a->k[1]->val < s && w <= 64) {
          E x = a->k[0]; unsigned s1 = (unsigned)a->k[1]->val;
          if (x->lo * ((i128)1 << s1) >= smin(w) && x->hi * ((i128)1 << s1) <= smax(w)) return mkBin(Op::AShr, x, mkConst(s - s1, w)); }
      }
      if (b->isConst() && op == Op::Shl) {
        unsigned s = (unsigned)b->val;
        if (a->op == Op::Shl && a->k[1]->isConst()) { u128 t = a->k[1]->val + s; return t >= w ? mkConst(0, w) : mkBin(Op::Shl, a->k[0], mkConst(t, w)); }
        if (a->op == Op::ZExt && a->k[0]->w <= w - s && false) return nullptr;
        if (a->op == Op::Add && a->k[1]->isConst()) return mkBin(Op::Add, mkBin(Op::Shl, a->k[0], b), mkConst(a->k[1]->val << s, w));
      }
      break;
    case Op::Eq:
      if (a == b) return mkBool(true);
      if (w == 1) { if (b->isConst()) return b->val ? a : negB(a); return mkNot(mkBin(Op::Xor, a, b)); }
      if (w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return mkBool(false);
      if (b->isConst()) {
        if (a->op == Op::Add && a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->val - a->k[1]->val, w));
        if (a->op == Op::ZExt) { if (b->val >> a->k[0]->w) return mkBool(false); return mkEq(a->k[0], mkConst(b->val, a->k[0]->w)); }
        if (a->op == Op::SExt) { u128 t = b->val & maskw(a->k[0]->w); if ((u128)(sextVal(t, a->k[0]->w)) != (u128)sextVal(b->val, w)) return mkBool(false); return mkEq(a->k[0], mkConst(t, a->k[0]->w)); }
        if (a->op == Op::Concat) return mkAndB(mkEq(a->k[0], mkExtract(b, a->k[1]->w, a->k[0]->w)), mkEq(a->k[1], mkExtract(b, 0, a->k[1]->w)));
        if (a->op == Op::Xor && a->k[1]->isConst()) return mkEq(a->k[0], mkConst(a->k[1]->val ^ b->val, w));
        if (a->op == Op::Sub && isZero(b)) return mkEq(a->k[0], a->k[1]);
        if (a->op == Op::Shl && a->k[1]->isConst() && w <= 64) { unsigned s = (unsigned)a->k[1]->val; if (b->val & maskw(s)) return mkBool(false);
          E x = a->k[0]; if (s < 60 && x->lo * ((i128)1 << s) >= smin(w) && x->hi * ((i128)1 << s) <= smax(w)) return mkEq(x, mkConst((u128)(sextVal(b->val, w) >> s), w)); }
        if (a->op == Op::Mul && a->k[1]->isConst() && w <= 64 && a->k[1]->val) { E x = a->k[0]; i128 c = sextVal(a->k[1]->val, w);
          i128 p = x->lo * c, q = x->hi * c; if (std::min(p, q) >= smin(w) && std::max(p, q) <= smax(w)) { i128 v = sextVal(b->val, w); if (v % c) return mkBool(false); return mkEq(x, mkConst((u128)(v / c), w)); } }
      } else {
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
        if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
        if (a->op == Op::Add && b->op == Op::Add && a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
        if (a->op == Op::Add && (a->k[0] == b || a->k[1] == b)) return mkEq(a->k[0] == b ? a->k[1] : a->k[0], mkConst(0, w));
        if (b->op == Op::Add && (b->k[0] == a || b->k[1] == a)) return mkEq(b->k[0] == a ? b->k[1] : b->k[0], mkConst(0, w));
      }
      break;
    case Op::Ult: case Op::Ule:
      if (a == b) return mkBool(op == Op::Ule);
      if (w > 1 && w <= 64 && a->lo >= 0 && b->lo >= 0) return mkBin(op == Op::Ult ? Op::Slt : Op::Sle, a, b);
      if (op == Op::Ult) { if (isZero(b)) return mkBool(false); if (isOne(b)) return mkEq(a, mkConst(0, w)); if (isOnes(a)) return mkBool(false); if (isZero(a)) return negB(mkEq(b, mkConst(0, w))); }
      else { if (isZero(a)) return mkBool(true); if (isZero(b)) return mkEq(a, b); if (isOnes(b)) return mkBool(true); }
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
      if (w > 1 && w <= 64 && a->lo >= 0 && b->isConst() && sextVal(b->val, w) < 0) return mkBool(true);
      // one side may be negative (as unsigned: huge)
      if (w > 1 && w <= 64 && b->lo >= 0 && b->isConst()) // a in [0, b)
        return mkAndB(mkBin(Op::Sle, mkConst(0, w), a), mkBin(op == Op::Ult ? Op::Slt : Op::Sle, a, b));
      break;
    case Op::Slt: case Op::Sle:
      if (a == b) return mkBool(op == Op::Sle);
      if (w > 1 && w <= 64) {
        if (op == Op::Slt) { if (a->hi < b->lo) return mkBool(true); if (a->lo >= b->hi) return mkBool(false); }
        else { if (a->hi <= b->lo) return mkBool(true); if (a->lo > b->hi) return mkBool(false); }
        if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w && a->k[0]->w > 1) return mkBin(op, a->k[0], b->k[0]);
        if (b->isConst() && a->op == Op::SExt && a->k[0]->w > 1) { i128 c = sextVal(b->val, w); unsigned n = a->k[0]->w; if (c >= smin(n) && c <= smax(n)) return mkBin(op, a->k[0], mkConst((u128)c, n)); }
        if (a->isConst() && b->op == Op::SExt && b->k[0]->w > 1) { i128 c = sextVal(a->val, w); unsigned n = b->k[0]->w; if (c >= smin(n) && c <= smax(n)) return mkBin(op, mkConst((u128)c, n), b->k[0]); }
        if (b->isConst() && a->op == Op::ZExt && a->k[0]->w > 1 && a->k[0]->lo >= 0) { i128 c = sextVal(b->val, w); unsigned n = a->k[0]->w; if (c >= smin(n) && c <= smax(n)) return mkBin(op, a->k[0], mkConst((u128)c, n)); }
        // x + c1 < c2 without overflow
        if (b->isConst() && a->op == Op::Add && a->k[1]->isConst()) {
          E x = a->k[0]; i128 c = sextVal(a->k[1]->val, w), d = sextVal(b->val, w) - c;
          if (x->lo + c >= smin(w) && x->hi + c <= smax(w) && d >= smin(w) && d <= smax(w)) return mkBin(op, x, mkConst((u128)d, w));
        }
        if (a->isConst() && b->op == Op::Add && b->k[1]->isConst()) {
          E x = b->k[0]; i128 c = sextVal(b->k[1]->val, w), d = sextVal(a->val, w) - c;
          if (x->lo + c >= smin(w) && x->hi + c <= smax(w) && d >= smin(w) && d <= smax(w)) return mkBin(op, mkConst((u128)d, w), x);
        }
      }
      break;
    default: break;
  }
  return intern(op, isCmp(op) ? 1 : w, 0, a, b);
}

static Dy constDy(u128 v, unsigned w, bool& ok) {
  double d = w == 64 ? bitsToD(v) : (double)bitsToF(v);
  Dy r; ok = false;
  if (!std::isfinite(d)) return r;
  ok = true;
  if (d == 0) { r.m = mkConst(0, 64); r.e = 0; return r; }
  int ex; double f = std::frexp(d, &ex);
  int64_t m = (int64_t)std::ldexp(f, 53); ex -= 53;
  while (!(m & 1)) { m /= 2; ex++; }
  r.m = mkConst((u128)(i128)m, 64); r.e = ex;
  return r;
}
static const Dy* dyOf(E e) {
  if (e->dy) return e->dy;
  if (e->isConst() && (e->w == 64 || e->w == 32)) {
    static std::unordered_map<E, const Dy*> memo;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    bool ok; Dy d = constDy(e->val, e->w, ok);
    auto* p = ok ? mkDyObj(d) : nullptr;
    memo[e] = p; return p;
  }
  return nullptr;
}
static unsigned bitsFor(i128 lo, i128 hi) { unsigned n = 2; while (n < 127 && !(lo >= smin(n) && hi <= smax(n))) n++; return n; }
static unsigned mbits(i128 lo, i128 hi) { i128 m = std::max(lo < 0 ? -lo : lo, hi < 0 ? -hi : hi); unsigned n = 0; while (m) { m >>= 1; n++; } return n; }
static unsigned mbits(E m) { return mbits(m->lo, m->hi); }
static E rsz(E m, unsigned w) { if (m->w == w) return m; if (m->w < w) return mkSExt(m, w); return mkExtract(m, 0, w); }
static bool fitsFP(i128 lo, i128 hi, int e, unsigned w) {
  unsigned n = mbits(lo, hi); unsigned p = w == 64 ? 53 : 24;
  // |m| <= 2^p is exact too; use strict bit count
  if (n > p) return false;
  if (w == 64) return e >= -1074 && (int)n + e < 1023;
  return e >= -149 && (int)n + e < 127;
}
// align to common exponent; returns false when too wide
static bool alignDy(const Dy& a, const Dy& b, E& ma, E& mb, int& e) {
  if (isZero(a.m)) { e = b.e; ma = mkConst(0, 64); mb = b.m; return true; }
  if (isZero(b.m)) { e = a.e; ma = a.m; mb = mkConst(0, 64); return true; }
  e = std::min(a.e, b.e);
  unsigned sa = a.e - e, sb = b.e - e;
  if (mbits(a.m) + sa > 62 || mbits(b.m) + sb > 62) return false;
  ma = sa ? mkBin(Op::Shl, a.m, mkConst(sa, 64)) : a.m; mb = sb ? mkBin(Op::Shl, b.m, mkConst(sb, 64)) : b.m;
  return true;
}
static E dmul(E a, E b) { // exact product of 64 bit mantissas, product known to fit 63 bits
  i128 p[4] = {a->lo * b->lo, a->lo * b->hi, a->hi * b->lo, a->hi * b->hi};
  i128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
  unsigned w = std::max(bitsFor(lo, hi), std::max(bitsFor(a->lo, a->hi), bitsFor(b->lo, b->hi)));
  if (w > 64) return nullptr;
  return rsz(mkBin(Op::Mul, rsz(a, w), rsz(b, w)), 64);
}
static E dadd(E a, E b, bool sub) {
  i128 lo = sub ? a->lo - b->hi : a->lo + b->lo, hi = sub ? a->hi - b->lo : a->hi + b->hi;
  unsigned w = std::max(bitsFor(lo, hi), std::max(bitsFor(a->lo, a->hi), bitsFor(b->lo, b->hi)));
  if (w > 64) return nullptr;
  return rsz(mkBin(sub ? Op::Sub : Op::Add, rsz(a, w), rsz(b, w)), 64);
}
static E dneg(E a) { return dadd(mkConst(0, 64), a, true); }
static E withDy(E e, const Dy& d) { if (!e->isConst() && !e->dy) const_cast<Expr*>(e)->dy = mkDyObj(d); return e; }
static E fpIntern(Op op, unsigned w, unsigned aux, E a, E b = nullptr, E c = nullptr) { return intern(op, w, aux, a, b, c, 0, true); }

E mkDyadicSym(const std::string& name, i128 lo, i128 hi, int e, unsigned w, E* mant) {
  unsigned n = bitsFor(lo, hi);
  E s = mkSymRange(name, n, lo, hi);
  E m = mkSExt(s, 64);
  if (mant) *mant = s;
  if (g_realMode) {
    // in real mode: a real symbol is not derived from the bit-vector; not supported
    return nullptr;
  }
  E f = mkIntToFP(m, w, true);
  if (e) f = mkFBin(Op::FMul, f, w == 64 ? mkConst(dToBits(std::ldexp(1.0, e)), 64) : mkConst(fToBits(std::ldexp(1.0f, e)), 32));
  return f;
}

E mkIte(E c, E a, E b) {
  assert(c->w == 1 && a->w == b->w);
  if (c->isConst()) return c->val ? a : b;
  if (a == b) return a;
  if (c->op == Op::Xor && c->k[1]->isConst() && c->k[1]->val == 1) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (a->isTrue() && b->isFalse()) return c;
    if (a->isFalse() && b->isTrue()) return negB(c);
    if (a->isTrue()) return mkOrB(c, b);
    if (a->isFalse()) return mkAndB(negB(c), b);
    if (b->isTrue()) return mkOrB(negB(c), a);
    if (b->isFalse()) return mkAndB(c, a);
  }
  if (a->op == Op::Ite && a->k[0] == c) a = a->k[1];
  if (b->op == Op::Ite && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  bool fp = a->fp || b->fp;
  E r = intern(Op::Ite, a->w, 0, c, a, b, 0, fp);
  if (fp && !g_realMode && !r->dy) {
    const Dy* da = dyOf(a); const Dy* db = dyOf(b);
    if (da && db && da->kind == db->kind) {
      E ma, mb; int e;
      if (da->kind == Dy::Exact) { if (alignDy(*da, *db, ma, mb, e)) { Dy d; d.m = mkIte(c, ma, mb); d.e = e; if (fitsFP(d.m->lo, d.m->hi, e, a->w)) withDy(r, d); } }
      else if (da->kind == Dy::Sqrt) { if (alignDy(*da, *db, ma, mb, e)) { Dy d; d.kind = Dy::Sqrt; d.m = mkIte(c, ma, mb); d.e = e; withDy(r, d); } }
      else if (da->e == db->e && da->de == db->de) { Dy d; d.kind = Dy::Quot; d.m = mkIte(c, da->m, db->m); d.e = da->e; d.d = mkIte(c, da->d, db->d); d.de = da->de; withDy(r, d); }
    }
    else if (da && db) {
      // Exact constant zero etc. against a quotient: represent Exact x as x/1
      const Dy* q = da->kind == Dy::Quot ? da : db; const Dy* x = da->kind == Dy::Exact ? da : db;
      if (q->kind == Dy::Quot && x->kind == Dy::Exact) {
        Dy xe; xe.m = x->m; xe.e = x->e; Dy qe; qe.m = q->m; qe.e = q->e; E ma, mb; int e;
        // want common e and common de: x = x*1/2^-de... use de of q: x = (m*2^(e+de)) / (1*2^de)
        xe.e = x->e + q->de;
        if (alignDy(qe, xe, ma, mb, e)) { Dy d; d.kind = Dy::Quot; d.e = e; d.de = q->de; bool qa = q == da;
          d.m = qa ? mkIte(c, ma, mb) : mkIte(c, mb, ma); d.d = qa ? mkIte(c, q->d, mkConst(1, 64)) : mkIte(c, mkConst(1, 64), q->d); withDy(r, d); }
      }
    }
  }
  return r;
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  assert(w <= 128);
  if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->w) | lo->val, w);
  if (isZero(hi)) return mkZExt(lo, w);
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w) return mkExtract(hi->k[0], lo->aux, w);
  if (hi->op == Op::Extract && lo == hi->k[0] && false) return nullptr;
  if (lo->op == Op::Concat && hi->op == Op::Extract && lo->k[0]->op == Op::Extract && hi->k[0] == lo->k[0]->k[0] && hi->aux == lo->k[0]->aux + lo->k[0]->w)
    return mkConcat(mkExtract(hi->k[0], lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
  return intern(Op::Concat, w, 0, hi, lo);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  assert(lo + w <= a->w);
  switch (a->op) {
    case Op::Const: return mkConst(a->val >> lo, w);
    case Op::Extract: return mkExtract(a->k[0], a->aux + lo, w);
    case Op::Concat: { unsigned lw = a->k[1]->w; if (lo + w <= lw) return mkExtract(a->k[1], lo, w); if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo)); }
    case Op::ZExt: { unsigned n = a->k[0]->w; if (lo >= n) return mkConst(0, w); if (lo + w <= n) return mkExtract(a->k[0], lo, w); return mkZExt(mkExtract(a->k[0], lo, n - lo), w); }
    case Op::SExt: { unsigned n = a->k[0]->w; if (lo + w <= n) return mkExtract(a->k[0], lo, w); if (lo == 0) return mkSExt(a->k[0], w); break; }
    case Op::Ite: if (a->k[1]->isConst() || a->k[2]->isConst()) { if (a->size < 4000 && !a->fp) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w)); } break;
    case Op::And: case Op::Or: case Op::Xor: if (a->k[1]->isConst()) return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w)); break;
    case Op::Add: case Op::Sub: case Op::Mul: if (lo == 0 && a->k[0]->size < 50 && a->k[1]->size < 50) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    case Op::Shl: if (lo == 0 && a->k[1]->isConst()) { if (a->k[1]->val >= w) return mkConst(0, w); return mkBin(Op::Shl, mkExtract(a->k[0], 0, w), mkConst(a->k[1]->val, w)); } break;
    default: break;
  }
  return intern(Op::Extract, w, lo, a);
}
E mkZExt(E a, unsigned w) {
  if (w == a->w) return a;
  assert(w > a->w);
  if (a->isConst()) return mkConst(a->val, w);
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  if (a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  if (a->w > 1 && a->w <= 64 && a->lo >= 0 && a->op != Op::Extract) return mkSExt(a, w);
  return intern(Op::ZExt, w, 0, a);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  assert(w > a->w);
  if (a->isConst()) return mkConst((u128)sextVal(a->val, a->w), w);
  if (a->op == Op::SExt) return mkSExt(a->k[0], w);
  if (a->op == Op::ZExt && a->k[0]->w < a->w) { if (a->k[0]->w == 1 || true) { Expr const* r = intern(Op::ZExt, w, 0, a->k[0]); return r; } }
  if (a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  if (a->op == Op::Extract && a->aux == 0 && a->k[0]->w == w && w <= 64 && a->k[0]->lo >= smin(a->w) && a->k[0]->hi <= smax(a->w)) return a->k[0];
  if (a->op == Op::Extract && a->aux == 0 && a->k[0]->w < w && w <= 64 && a->k[0]->lo >= smin(a->w) && a->k[0]->hi <= smax(a->w)) return mkSExt(a->k[0], w);
  if (w <= 64 && a->w > 1 && (a->op == Op::Add || a->op == Op::Sub) && a->k[1]->isConst()) {
    // widen  (x + c)  when it cannot overflow
    E x = a->k[0]; i128 c = sextVal(a->k[1]->val, a->w); 
    if (x->lo + c >= smin(a->w) && x->hi + c <= smax(a->w) && a->op == Op::Add) return mkBin(Op::Add, mkSExt(x, w), mkConst((u128)c, w));
  }
  return intern(Op::SExt, w, 0, a);
}

// ------------------------------------------------------------ floating point
static double rnd(double x, unsigned mode) {
  switch (mode) { case RM_FLOOR: return std::floor(x); case RM_CEIL: return std::ceil(x); case RM_TRUNC: return std::trunc(x); case RM_RINT: return std::nearbyint(x); default: return std::round(x); }
}
u128 fpConstEval(Op op, unsigned aux, unsigned w, unsigned sw, const u128* v) {
  if (op == Op::FpExt) return dToBits((double)bitsToF(v[0]));
  if (op == Op::FpTrunc) return fToBits((float)bitsToD(v[0]));
  if (op == Op::SIToFP) { i128 x = sextVal(v[0], sw); return w == 64 ? dToBits((double)(int64_t)x) : fToBits((float)(int64_t)x); }
  if (op == Op::UIToFP) { uint64_t x = (uint64_t)v[0]; return w == 64 ? dToBits((double)x) : fToBits((float)x); }
  if (op == Op::FpToSI) {
    double d = sw == 64 ? bitsToD(v[0]) : (double)bitsToF(v[0]);
    if (w == 32) return (d > -2147483649.0 && d < 2147483648.0) ? (u128)(uint32_t)(int32_t)d : (u128)0x80000000u;
    return (d >= -9223372036854775808.0 && d < 9223372036854775808.0) ? (u128)(uint64_t)(int64_t)d : (u128)0x8000000000000000ull;
  }
  unsigned ow = sw;
  if (ow == 64) {
    double a = bitsToD(v[0]), b = bitsToD(v[1]);
    switch (op) {
      case Op::FAdd: return dToBits(a + b); case Op::FSub: return dToBits(a - b); case Op::FMul: return dToBits(a * b); case Op::FDiv: return dToBits(a / b);
      case Op::FNeg: return v[0] ^ ((u128)1 << 63); case Op::FAbs: return v[0] & ~((u128)1 << 63);
      case Op::FSqrt: return dToBits(std::sqrt(a)); case Op::FRound: return dToBits(rnd(a, aux));
      case Op::FFma: return dToBits(std::fma(a, b, bitsToD(v[2])));
      case Op::FOeq: return a == b; case Op::FOlt: return a < b; case Op::FOle: return a <= b; case Op::FUno: return a != a || b != b;
      default: break;
    }
  } else {
    float a = bitsToF(v[0]), b = bitsToF(v[1]);
    switch (op) {
      case Op::FAdd: return fToBits(a + b); case Op::FSub: return fToBits(a - b); case Op::FMul: return fToBits(a * b); case Op::FDiv: return fToBits(a / b);
      case Op::FNeg: return v[0] ^ ((u128)1 << 31); case Op::FAbs: return v[0] & ~((u128)1 << 31);
      case Op::FSqrt: return fToBits(std::sqrt(a)); case Op::FRound: return fToBits((float)rnd(a, aux));
      case Op::FFma: return fToBits(std::fma(a, b, bitsToF(v[2])));
      case Op::FOeq: return a == b; case Op::FOlt: return a < b; case Op::FOle: return a <= b; case Op::FUno: return a != a || b != b;
      default: break;
    }
  }
  abort();
}
static bool isFPConst(E e, double v) { return e->isConst() && (e->w == 64 ? e->val == dToBits(v) : e->val == fToBits((float)v)); }

E mkFFma(E a, E b, E c) {
  if (a->isConst() && b->isConst() && c->isConst()) { u128 v[3] = {a->val, b->val, c->val}; return mkConst(fpConstEval(Op::FFma, 0, a->w, a->w, v), a->w); }
  if (g_realMode) return mkFBin(Op::FAdd, mkFBin(Op::FMul, a, b), c);
  return fpIntern(Op::FFma, a->w, 0, a, b, c);
}

E mkFBin(Op op, E a, E b) {
  unsigned w = a->w;
  if (g_realMode && w == 64) return rvBin(op, a, b);
  if (a->isConst() && b->isConst()) { u128 v[3] = {a->val, b->val, 0}; return mkConst(fpConstEval(op, 0, w, w, v), w); }
  if (op == Op::FMul && isFPConst(b, 1.0)) return a;
  if (op == Op::FMul && isFPConst(a, 1.0)) return b;
  if (op == Op::FDiv && isFPConst(b, 1.0)) return a;
  if (op == Op::FSub && isFPConst(b, 0.0)) return a;            // x - (+0) == x for all x
  if (op == Op::FAdd && b->isConst() && b->val == (w == 64 ? (u128)1 << 63 : (u128)1 << 31)) return a; // x + (-0)
  if ((op == Op::FAdd || op == Op::FMul) && a->id > b->id) std::swap(a, b);
  E r = fpIntern(op, w, 0, a, b);
  if (!r->dy) {
    const Dy* da = dyOf(a); const Dy* db = dyOf(b);
    if (da && db) {
      if (da->kind == Dy::Exact && db->kind == Dy::Exact) {
        E ma, mb; int e; Dy d;
        if (op == Op::FAdd || op == Op::FSub) {
          if (alignDy(*da, *db, ma, mb, e)) { d.m = dadd(ma, mb, op == Op::FSub); d.e = e; if (d.m && fitsFP(d.m->lo, d.m->hi, e, w)) withDy(r, d); }
        } else if (op == Op::FMul) {
          if (mbits(da->m) + mbits(db->m) <= 62) { d.m = dmul(da->m, db->m); d.e = isZero(da->m) || isZero(db->m) ? 0 : da->e + db->e; if (d.m && fitsFP(d.m->lo, d.m->hi, d.e, w)) withDy(r, d); }
        } else if (op == Op::FDiv) {
          i128 dl = db->m->lo, dh = db->m->hi;
          if (dl == dh && (dl == 1 || dl == -1)) { d.m = dl == 1 ? da->m : dneg(da->m); d.e = da->e - db->e; if (fitsFP(d.m->lo, d.m->hi, d.e, w)) withDy(r, d); }
          else if (dl > 0 || dh < 0) {
            // exact division by a constant when the mantissa is a multiple?  keep as quotient
            d.kind = Dy::Quot; d.m = dl > 0 ? da->m : dneg(da->m); d.e = da->e; d.d = dl > 0 ? db->m : dneg(db->m); d.de = db->e; if (w == 64) withDy(r, d);
          }
        }
      } else if (op == Op::FMul || op == Op::FDiv) {
        // scaling by +-2^k keeps the rounded view exact
        for (int s = 0; s < 2; s++) {
          const Dy* x = s ? db : da; const Dy* c = s ? da : db;
          if (op == Op::FDiv && s) break;
          if (c->kind == Dy::Exact && x->kind == Dy::Quot && c->m->lo == c->m->hi && (c->m->lo == 1 || c->m->lo == -1)) {
            Dy d = *x; d.e += op == Op::FMul ? c->e : -c->e; if (c->m->lo < 0) d.m = dneg(d.m); withDy(r, d);
          }
        }
      }
    }
  }
  return r;
}
E mkFUn(Op op, E a, unsigned aux) {
  unsigned w = a->w;
  if (g_realMode && w == 64) {
    if (op == Op::FNeg) return rvNeg(a);
    if (a->isConst() && op != Op::FSqrt) { u128 v[3] = {a->val, 0, 0}; return mkConst(fpConstEval(op, aux, w, w, v), w); }
    if (op == Op::FAbs) { E z = mkConst(0, 64); E neg = mkFCmp(Op::FOlt, a, z); return mkIte(neg, rvNeg(a), a); }
    if (op == Op::FSqrt) {
      if (a->isConst()) { double d = bitsToD(a->val), s = std::sqrt(d); if (!(d >= 0) || (std::isfinite(s) && dToQ(s) * dToQ(s) == dToQ(d))) return mkConst(dToBits(s), 64); }
      return mkApp("sqrt", {a}, 64);
    }
    if (op == Op::FRound) { Q q; if (rvIsConst(a, &q)) return mkConst(dToBits(rnd(qToD(q), aux)), 64); return mkApp(std::string("round") + std::to_string(aux), {a}, 64); }
  }
  if (a->isConst()) { u128 v[3] = {a->val, 0, 0}; return mkConst(fpConstEval(op, aux, w, w, v), w); }
  if (op == Op::FNeg && a->op == Op::FNeg) return a->k[0];
  if (op == Op::FAbs && (a->op == Op::FAbs)) return a;
  if (op == Op::FAbs && a->op == Op::FNeg) return mkFUn(Op::FAbs, a->k[0]);
  if (op == Op::FAbs && a->op == Op::FSqrt && a->dy) return a;
  E r = fpIntern(op, w, aux, a);
  if (!r->dy) {
    const Dy* d = dyOf(a);
    if (d) {
      Dy n = *d;
      if (op == Op::FNeg && d->kind != Dy::Sqrt) { n.m = dneg(d->m); withDy(r, n); }
      else if (op == Op::FAbs && d->kind != Dy::Sqrt) { n.m = mkIte(mkBin(Op::Slt, d->m, mkConst(0, 64)), dneg(d->m), d->m);
        // range of abs
        i128 hi = std::max(d->m->hi, -d->m->lo); if (d->m->lo >= 0) n.m = d->m; else if (n.m->op == Op::Ite && n.m->lo < 0) { auto* x = const_cast<Expr*>(n.m); x->lo = 0; x->hi = hi; } withDy(r, n); }
      else if (op == Op::FSqrt && d->kind == Dy::Exact && d->m->lo >= 0 && w == 64) {
        n.kind = Dy::Sqrt; n.m = d->m; n.e = d->e; withDy(r, n);
      }
      else if (op == Op::FRound) {
        E N = nullptr; unsigned sh = 0; bool okk = false; E m = d->m;
        if (d->kind == Dy::Exact) {
          if (d->e >= 0) { withDy(r, n); okk = true; }
          else if (-d->e < 62 && mbits(m) < 61) {
            sh = -d->e; E S = mkConst(sh, 64), half = mkConst((u128)1 << (sh - 1), 64);
            if (aux == RM_FLOOR) N = mkBin(Op::AShr, m, S);
            else if (aux == RM_CEIL) N = dneg(mkBin(Op::AShr, dneg(m), S));
            else if (aux == RM_TRUNC) N = mkIte(mkBin(Op::Slt, m, mkConst(0, 64)), dneg(mkBin(Op::AShr, dneg(m), S)), mkBin(Op::AShr, m, S));
            else if (aux == RM_ROUND) N = mkIte(mkBin(Op::Slt, m, mkConst(0, 64)), dneg(mkBin(Op::AShr, mkBin(Op::Add, dneg(m), half), S)), mkBin(Op::AShr, mkBin(Op::Add, m, half), S));
            else { // ties to even
              E f = mkBin(Op::AShr, mkBin(Op::Add, m, half), S);
              E tie = mkEq(mkBin(Op::And, m, mkConst(maskw(sh), 64)), half);
              E odd = mkEq(mkBin(Op::And, f, mkConst(1, 64)), mkConst(1, 64));
              N = mkIte(mkAndB(tie, odd), mkBin(Op::Sub, f, mkConst(1, 64)), f);
            }
          }
        } else if (d->kind == Dy::Quot && (aux == RM_FLOOR || aux == RM_CEIL || aux == RM_TRUNC)) {
          int mn = std::min(d->e, d->de); unsigned sa = d->e - mn, sd = d->de - mn;
          unsigned nb = mbits(m) + sa, db = mbits(d->d) + sd;
          // quotient magnitude bits <= nb (d>=1) ; distance condition
          if (nb + 1 + db <= 52) {
            E A = mkBin(Op::Shl, m, mkConst(sa, 64)), D = mkBin(Op::Shl, d->d, mkConst(sd, 64));
            unsigned ww = std::max(nb, db) + 2; A = rsz(A, ww); D = rsz(D, ww);
            E q = mkBin(Op::SDiv, A, D); E rem = mkBin(Op::SRem, A, D); E z = mkConst(0, ww), one = mkConst(1, ww);
            if (aux == RM_FLOOR) q = mkIte(mkBin(Op::Slt, rem, z), mkBin(Op::Sub, q, one), q);
            else if (aux == RM_CEIL) q = mkIte(mkBin(Op::Slt, z, rem), mkBin(Op::Add, q, one), q);
            N = rsz(q, 64);
          }
        }
        if (!okk && N) { Dy x; x.m = N; x.e = 0; if (fitsFP(N->lo, N->hi, 0, w)) withDy(r, x); }
      }
    }
  }
  return r;
}

static bool dyCmp(Op op, const Dy* a, const Dy* b, E& out) {
  auto cmp = [&](E x, E y) { out = op == Op::FOeq ? mkEq(x, y) : mkBin(op == Op::FOlt ? Op::Slt : Op::Sle, x, y); return true; };
  E ma, mb; int e;
  if (a->kind == Dy::Exact && b->kind == Dy::Exact) {
    if (!alignDy(*a, *b, ma, mb, e)) {
      // widths too different for 64 bits: use 128 if possible
      int mn = std::min(a->e, b->e); unsigned sa = a->e - mn, sb = b->e - mn;
      if (mbits(a->m) + sa > 126 || mbits(b->m) + sb > 126) return false;
      E x = mkBin(Op::Shl, mkSExt(a->m, 128), mkConst(sa, 128)), y = mkBin(Op::Shl, mkSExt(b->m, 128), mkConst(sb, 128));
      return cmp(x, y);
    }
    unsigned w = std::max(bitsFor(ma->lo, ma->hi), bitsFor(mb->lo, mb->hi));
    return cmp(rsz(ma, w), rsz(mb, w));
  }
  auto cross = [&](const Dy* q, const Dy* c, E& l, E& r) -> bool { // q=Quot vs c=Exact : l = num, r = c*den
    if (mbits(q->d) + mbits(c->m) > 60) return false;
    Dy x, y; x.m = q->m; x.e = q->e; y.m = dmul(q->d, c->m); y.e = isZero(c->m) ? q->e : q->de + c->e;
    if (!y.m) return false;
    int e2; if (!alignDy(x, y, l, r, e2)) return false;
    int mn = std::min(x.e, y.e);
    if (!isZero(c->m) && (int)mbits(q->d) + (int)mbits(c->m) + (q->de + c->e - mn) > 52) return false;
    return true;
  };
  if (a->kind == Dy::Quot && b->kind == Dy::Exact) { E l, r; if (!cross(a, b, l, r)) return false; return cmp(l, r); }
  if (a->kind == Dy::Exact && b->kind == Dy::Quot) { E l, r; if (!cross(b, a, l, r)) return false; return cmp(r, l); }
  if (a->kind == Dy::Quot && b->kind == Dy::Quot) {
    if (mbits(a->m) + mbits(b->d) > 50 || mbits(b->m) + mbits(a->d) > 50) return false;
    Dy x, y; x.m = dmul(a->m, b->d); x.e = a->e + b->de; y.m = dmul(b->m, a->d); y.e = b->e + a->de;
    if (!x.m || !y.m) return false;
    if (!alignDy(x, y, ma, mb, e)) return false;
    if (mbits(ma) > 50 || mbits(mb) > 50) return false;
    return cmp(ma, mb);
  }
  auto sq = [&](const Dy* s, const Dy* c, E& l, E& r) -> bool {
    if (2 * mbits(c->m) > 60) return false;
    Dy x, y; x.m = s->m; x.e = s->e; y.m = dmul(c->m, c->m); y.e = 2 * c->e; if (!y.m) return false;
    if (isZero(c->m)) y.e = x.e;
    int e2; if (!alignDy(x, y, l, r, e2)) return false;
    int mn = std::min(x.e, y.e);
    if (!isZero(c->m) && (int)(2 * mbits(c->m)) + (2 * c->e - mn) + 2 > 52) return false;
    return true;
  };
  if (a->kind == Dy::Sqrt && b->kind == Dy::Exact) {
    E l, r; if (!sq(a, b, l, r)) return false;
    E z = mkConst(0, 64); E cneg = mkBin(Op::Slt, b->m, z);
    E c; cmp(l, r); c = out;
    out = mkIte(cneg, mkBool(false), c); return true; // sqrt(..) < negative : false, == false
  }
  if (a->kind == Dy::Exact && b->kind == Dy::Sqrt) {
    E l, r; if (!sq(b, a, l, r)) return false;
    E z = mkConst(0, 64); E cneg = mkBin(Op::Slt, a->m, z);
    E c; cmp(r, l); c = out;
    out = mkIte(cneg, mkBool(op != Op::FOeq), c); return true;
  }
  if (a->kind == Dy::Sqrt && b->kind == Dy::Sqrt) {
    if (!alignDy(*a, *b, ma, mb, e)) return false;
    if (mbits(ma) > 48 || mbits(mb) > 48) return false;
    return cmp(ma, mb);
  }
  return false;
}
E mkFCmp(Op op, E a, E b) {
  unsigned w = a->w;
  if (a->isConst() && b->isConst()) { u128 v[3] = {a->val, b->val, 0}; return mkBool((bool)fpConstEval(op, 0, 1, w, v)); }
  if (g_realMode && w == 64) {
    bool sa = isSpecialConst(a), sb = isSpecialConst(b);
    if (sa || sb) {
      double x = sa ? bitsToD(a->val) : 0.0, y = sb ? bitsToD(b->val) : 0.0;
      if (op == Op::FUno) return mkBool(x != x || y != y);
      if (x != x || y != y) return mkBool(false);
      return mkBool(op == Op::FOlt ? x < y : op == Op::FOle ? x <= y : false); // the other side is finite
    }
    if (op == Op::FUno) return mkBool(false);
    return rvCmp(op == Op::FOeq ? RC_EQ : op == Op::FOlt ? RC_LT : RC_LE, a, b);
  }
  const Dy* da = dyOf(a); const Dy* db = dyOf(b);
  if (op == Op::FUno) {
    auto nn = [](E x, const Dy* d) { return d || (x->isConst() && !fpConstEval(Op::FUno, 0, 1, x->w, std::vector<u128>{x->val, x->val, 0}.data())) || x->op == Op::SIToFP || x->op == Op::UIToFP; };
    bool na = nn(a, da), nb = nn(b, db);
    if (na && nb) return mkBool(false);
    if (nb) b = a; else if (na) a = b;
    if (a->id > b->id) std::swap(a, b);
    return intern(op, 1, 0, a, b);
  }
  E out;
  if (da && db && dyCmp(op, da, db, out)) return out;
  // comparisons of exact values with infinities
  if (da && b->isConst() && std::isinf(w == 64 ? bitsToD(b->val) : (double)bitsToF(b->val))) { bool pos = (w == 64 ? bitsToD(b->val) : (double)bitsToF(b->val)) > 0; return mkBool(op != Op::FOeq && pos); }
  if (db && a->isConst() && std::isinf(w == 64 ? bitsToD(a->val) : (double)bitsToF(a->val))) { bool pos = (w == 64 ? bitsToD(a->val) : (double)bitsToF(a->val)) > 0; return mkBool(op != Op::FOeq && !pos); }
  if (a->op == Op::Ite && b->isConst() && (a->k[1]->isConst() || a->k[2]->isConst())) return mkIte(a->k[0], mkFCmp(op, a->k[1], b), mkFCmp(op, a->k[2], b));
  if (b->op == Op::Ite && a->isConst() && (b->k[1]->isConst() || b->k[2]->isConst())) return mkIte(b->k[0], mkFCmp(op, a, b->k[1]), mkFCmp(op, a, b->k[2]));
  if (op == Op::FOeq && a->id > b->id) std::swap(a, b);
  return intern(op, 1, 0, a, b);
}
E mkFpToSI(E a, unsigned w) {
  if (a->isConst()) { u128 v[3] = {a->val, 0, 0}; return mkConst(fpConstEval(Op::FpToSI, 0, w, a->w, v), w); }
  if (g_realMode && a->w == 64) { Q q; if (rvIsConst(a, &q)) { u128 v[3] = {dToBits(qToD(q)), 0, 0}; return mkConst(fpConstEval(Op::FpToSI, 0, w, 64, v), w); } return nullptr; }
  const Dy* d = dyOf(a);
  if (d) {
    E t = nullptr;
    if (d->kind == Dy::Exact) {
      if (d->e >= 0) { if (mbits(d->m) + d->e <= 62) t = mkBin(Op::Shl, d->m, mkConst(d->e, 64)); }
      else if (-d->e < 62 && mbits(d->m) < 61) { E S = mkConst(-d->e, 64), z = mkConst(0, 64);
        if (d->m->lo >= 0) t = mkBin(Op::AShr, d->m, S);
        else t = mkIte(mkBin(Op::Slt, d->m, z), dneg(mkBin(Op::AShr, dneg(d->m), S)), mkBin(Op::AShr, d->m, S)); }
      else if (-d->e >= 62) t = mkConst(0, 64);
    } else if (d->kind == Dy::Quot) {
      E tr = mkFUn(Op::FRound, a, RM_TRUNC);
      if (tr->dy && tr->dy->kind == Dy::Exact && tr->dy->e == 0) t = tr->dy->m;
    }
    if (t && t->lo >= smin(w) && t->hi <= smax(w)) return rsz(t, w);
    if (t && w == 32) { // out of range -> integer indefinite
      E in = mkAndB(mkBin(Op::Sle, mkConst((u128)smin(32), 64), t), mkBin(Op::Sle, t, mkConst((u128)smax(32), 64)));
      return mkIte(in, mkExtract(t, 0, 32), mkConst(0x80000000u, 32));
    }
  }
  return intern(Op::FpToSI, w, 0, a);
}
E mkIntToFP(E a, unsigned w, bool sgn) {
  if (a->w < 64) { a = sgn ? mkSExt(a, 64) : mkZExt(a, 64); sgn = true; }
  if (a->w == 64 && a->lo >= 0) sgn = true;
  Op op = sgn ? Op::SIToFP : Op::UIToFP;
  if (a->isConst()) { u128 v[3] = {a->val, 0, 0}; return mkConst(fpConstEval(op, 0, w, a->w, v), w); }
  E r = fpIntern(op, w, 0, a);
  if (!r->dy && sgn && a->w == 64) { Dy d; d.m = a; d.e = 0; if (fitsFP(a->lo, a->hi, 0, w)) withDy(r, d); }
  return r;
}
E mkFpCast(E a, unsigned w) {
  if (a->w == w) return a;
  Op op = w > a->w ? Op::FpExt : Op::FpTrunc;
  if (g_realMode) {
    // floats are treated as reals too: a 32 bit value wraps the real it stands for
    Q q;
    if (!a->isConst()) {
      if (w == 32) { if (rvIsConst(a, &q)) return mkConst(fToBits((float)qToD(q)), 32); return mkApp("f32", {a}, 32); }
      if (a->op == Op::App && g_fns[a->aux] == "f32") return a->k[0];
      if (a->op == Op::Ite) { E x = mkFpCast(a->k[1], 64), y = mkFpCast(a->k[2], 64); if (!x || !y || isSpecialConst(x) || isSpecialConst(y)) return nullptr; E r = mkIte(a->k[0], x, y); const_cast<Expr*>(r)->fp = true; return r; }
      return nullptr;
    }
  }
  if (a->isConst()) { u128 v[3] = {a->val, 0, 0}; return mkConst(fpConstEval(op, 0, w, a->w, v), w); }
  if (op == Op::FpTrunc && a->op == Op::FpExt && a->k[0]->w == w) return a->k[0];
  E r = fpIntern(op, w, 0, a);
  if (!r->dy) { const Dy* d = dyOf(a); if (d && d->kind == Dy::Exact && fitsFP(d->m->lo, d->m->hi, d->e, w)) withDy(r, *d); }
  return r;
}
u128 applyFn(uint32_t fn, const u128* a, unsigned n, unsigned w, bool& ok) {
  const std::string& f = g_fns[fn]; ok = true;
  auto one = [&](double (*g)(double)) -> u128 { return w == 64 ? dToBits(g(bitsToD(a[0]))) : fToBits((float)g(bitsToF(a[0]))); };
  auto two = [&](double (*g)(double, double)) -> u128 { return w == 64 ? dToBits(g(bitsToD(a[0]), bitsToD(a[1]))) : fToBits((float)g(bitsToF(a[0]), bitsToF(a[1]))); };
  if (w == 32) { // use the float versions where rounding matters
    float x = bitsToF(a[0]), y = n > 1 ? bitsToF(a[1]) : 0;
    if (f == "sin") return fToBits(sinf(x)); if (f == "cos") return fToBits(cosf(x)); if (f == "tan") return fToBits(tanf(x));
    if (f == "exp") return fToBits(expf(x)); if (f == "log") return fToBits(logf(x)); if (f == "pow") return fToBits(powf(x, y));
    if (f == "atan2") return fToBits(atan2f(x, y)); if (f == "hypot") return fToBits(hypotf(x, y)); if (f == "sqrt") return fToBits(sqrtf(x));
    if (f == "fmod") return fToBits(fmodf(x, y));
  }
  if (f == "sin") return one(std::sin); if (f == "cos") return one(std::cos); if (f == "tan") return one(std::tan);
  if (f == "asin") return one(std::asin); if (f == "acos") return one(std::acos); if (f == "atan") return one(std::atan);
  if (f == "exp") return one(std::exp); if (f == "log") return one(std::log); if (f == "log10") return one(std::log10); if (f == "log2") return one(std::log2); if (f == "exp2") return one(std::exp2); if (f == "sqrt") return one(std::sqrt); if (f == "cbrt") return one(std::cbrt);
  if (f == "log1p") return one(std::log1p); if (f == "expm1") return one(std::expm1); if (f == "erf") return one(std::erf); if (f == "tanh") return one(std::tanh); if (f == "sinh") return one(std::sinh); if (f == "cosh") return one(std::cosh);
  if (f == "pow") return two(std::pow); if (f == "atan2") return two(std::atan2); if (f == "hypot") return two(std::hypot); if (f == "fmod") return two(std::fmod); if (f == "remainder") return two(std::remainder);
  ok = false; return 0;
}
uint32_t appFnId(const std::string& fn) { auto it = g_fnidx.find(fn); if (it != g_fnidx.end()) return it->second; uint32_t id = g_fns.size(); g_fns.push_back(fn); g_fnidx[fn] = id; return id; }
E mkApp(const std::string& fn, const std::vector<E>& args, unsigned w) {
  uint32_t id; auto it = g_fnidx.find(fn);
  if (it == g_fnidx.end()) { id = g_fns.size(); g_fns.push_back(fn); g_fnidx[fn] = id; } else id = it->second;
  bool allc = true; u128 v[3] = {0, 0, 0}; size_t i = 0;
  for (E a : args) { Q q; if (a->isConst()) v[i] = a->val; else if (g_realMode && w == 64 && rvIsConst(a, &q)) v[i] = dToBits(qToD(q)); else allc = false; i++; }
  if (allc) { bool ok; u128 r = applyFn(id, v, args.size(), w, ok); if (ok) return mkConst(r, w); }
  E a = args[0], b = args.size() > 1 ? args[1] : nullptr, c = args.size() > 2 ? args[2] : nullptr;
  return intern(Op::App, w, id, a, b, c, 0, true);
}
E asFP(E e) { return e; }

// ------------------------------------------------------------ printing
std::string toStr(E e, int depth) {
  static const char* n[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","fneg","fabs","fsqrt","fround","ffma","foeq","folt","fole","funo","fptosi","sitofp","uitofp","fpext","fptrunc","app","rval","rcmp"};
  if (e->isConst()) { char b[64]; if (e->val >> 64) snprintf(b, 64, "0x%llx%016llx:%d", (unsigned long long)(e->val >> 64), (unsigned long long)e->val, e->w); else snprintf(b, 64, "%llu:%d", (unsigned long long)e->val, e->w); return b; }
  if (e->op == Op::Sym) return g_syms[e->aux].name;
  if (depth <= 0) return "...";
  std::string s = std::string("(") + n[(int)e->op];
  if (e->op == Op::App) s += " " + g_fns[e->aux];
  if (e->op == Op::Extract) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
  if (e->rf) { std::vector<const Poly*> ps; eachPoly(e->rf, [&](const Poly& p) { ps.push_back(&p); }); for (auto* p : ps) { s += " {"; for (auto& t : p->t) { s += " +" + t.second.str(); for (auto& m : t.first) s += "*" + toStr(g_all[m.first], depth - 2) + (m.second > 1 ? "^" + std::to_string(m.second) : ""); } s += "}"; } }
  for (int i = 0; i < e->nk; i++) s += " " + toStr(e->k[i], depth - 1);
  return s + ")";
}

// ------------------------------------------------------------ evaluation (bit-level)
u128 Model::eval(E root) const {
  if (root->isConst()) return root->val;
  auto f0 = memo.find(root);
  if (f0 != memo.end()) return f0->second;
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (memo.count(e)) { st.pop_back(); continue; }
    if (e->isConst()) { memo[e] = e->val; st.pop_back(); continue; }
    if (e->op == Op::Sym) { auto it = v.find(e->aux); u128 x; if (it != v.end()) x = it->second; else { auto& s = g_syms[e->aux]; x = s.ranged && (s.lo > 0 || s.hi < 0) ? (u128)s.lo & maskw(e->w) : 0; } memo[e] = x & maskw(e->w); st.pop_back(); continue; }
    bool ready = true;
    for (int i = 0; i < e->nk; i++) if (!memo.count(e->k[i])) { st.push_back(e->k[i]); ready = false; }
    if (!ready) continue;
    st.pop_back();
    u128 a[3] = {0, 0, 0};
    for (int i = 0; i < e->nk; i++) a[i] = memo[e->k[i]];
    u128 r = 0; unsigned w = e->w;
    switch (e->op) {
      case Op::Ite: r = a[0] ? a[1] : a[2]; break;
      case Op::Concat: r = (a[0] << e->k[1]->w) | a[1]; break;
      case Op::Extract: r = (a[0] >> e->aux) & maskw(w); break;
      case Op::ZExt: r = a[0]; break;
      case Op::SExt: r = (u128)sextVal(a[0], e->k[0]->w) & maskw(w); break;
      case Op::App: {
        std::vector<u128> key(a, a + e->nk);
        auto it = fn.find({e->aux, key});
        if (it != fn.end()) r = it->second; else { bool ok; r = applyFn(e->aux, a, e->nk, w, ok); }
        break;
      }
      case Op::RVal: { Q q; if (!rvIsConst(e, &q)) throw RealBits(); r = dToBits(qToD(q)); break; } case Op::RCmp: { bool b; if (!g_evalRCmp || !g_evalRCmp(e, *this, b)) throw RealBits(); r = b; break; } exact_fail: throw RealBits();
      default:
        if (e->op >= Op::FAdd && e->op <= Op::FpTrunc) r = fpConstEval(e->op, e->aux, w, e->k[0]->w, a);
        else { if (!foldBin(e->op, a[0], a[1], e->k[0]->w, r)) goto exact_fail; }
    }
    memo[e] = r;
  }
  return memo[root];
}

// ------------------------------------------------------------ real mode
bool Poly::isConst(Q* c) const { if (t.empty()) { if (c) *c = 0; return true; } if (t.size() == 1 && t.begin()->first.empty()) { if (c) *c = t.begin()->second; return true; } return false; }
Q dToQ(double d) {
  if (d == 0) return Q(0);
  int ex; double f = std::frexp(d, &ex); int64_t m = (int64_t)std::ldexp(f, 53); ex -= 53;
  Z z = m; if (ex >= 0) return Q(z << ex); return Q(z, Z(1) << (-ex));
}
double qToD(const Q& q) { return q.convert_to<double>(); }
static Poly pconst(const Q& q) { Poly p; if (q != 0) p.t[Mono()] = q; return p; }
static Poly patom(E e) { Poly p; p.t[Mono{{e->id, 1}}] = 1; return p; }
static Poly padd(const Poly& a, const Poly& b, int s) { Poly r = a; for (auto& t : b.t) { auto& c = r.t[t.first]; if (s > 0) c += t.second; else c -= t.second; if (c == 0) r.t.erase(t.first); } return r; }
static Mono mmul(const Mono& a, const Mono& b) { Mono r; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]); else if (i >= a.size() || b[j].first < a[i].first) r.push_back(b[j++]); else { r.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; } } return r; }
static Poly pmul(const Poly& a, const Poly& b) { Poly r; if (a.t.size() * b.t.size() > 400000) throw PolyBlow(); for (auto& x : a.t) for (auto& y : b.t) { Mono m = mmul(x.first, y.first); auto& c = r.t[m]; c += x.second * y.second; if (c == 0) r.t.erase(m); } return r; }
// monomial order for division: graded by (total degree, lex) -- any admissible order; use map order made admissible below
struct MLess { bool operator()(const Mono& a, const Mono& b) const { // lex with higher exponent of smallest atom first
    size_t i = 0, j = 0;
    while (i < a.size() && j < b.size()) { if (a[i].first != b[j].first) return a[i].first > b[j].first; if (a[i].second != b[j].second) return a[i].second < b[j].second; i++; j++; }
    return i == a.size() && j < b.size(); } };
static bool mdiv(const Mono& a, const Mono& b, Mono& r) { r.clear(); size_t i = 0; for (auto& x : b) { while (i < a.size() && a[i].first < x.first) r.push_back(a[i++]); if (i >= a.size() || a[i].first != x.first || a[i].second < x.second) return false; if (a[i].second > x.second) r.push_back({x.first, a[i].second - x.second}); i++; } while (i < a.size()) r.push_back(a[i++]); return true; }
static bool pdivExact(const Poly& a, const Poly& b, Poly& q) {
  if (b.t.size() > 200 || a.t.size() > 5000) return false;
  std::map<Mono, Q, MLess> rem(a.t.begin(), a.t.end()); std::map<Mono, Q, MLess> bb(b.t.begin(), b.t.end());
  q.t.clear(); auto lb = *bb.rbegin(); int steps = 0;
  while (!rem.empty()) {
    if (++steps > 3000) return false;
    auto la = *rem.rbegin(); Mono m; if (!mdiv(la.first, lb.first, m)) return false;
    Q c = la.second / lb.second; q.t[m] = c;
    for (auto& y : bb) { Mono mm = mmul(m, y.first); auto& z = rem[mm]; z -= c * y.second; if (z == 0) rem.erase(mm); }
  }
  return true;
}
static std::map<std::pair<std::map<Mono, Q>, Fac>, RatFun*> g_rfs;
static std::map<std::map<Mono, Q>, uint32_t> g_facIdx; static std::deque<Poly> g_facs;
const Poly& facPoly(uint32_t id) { return g_facs[id]; }
static uint32_t facId(const Poly& p) { auto it = g_facIdx.find(p.t); if (it != g_facIdx.end()) return it->second; uint32_t id = g_facs.size(); g_facs.push_back(p); g_facIdx[p.t] = id; return id; }
static bool singleAtom(const Poly& p, uint32_t* a = nullptr) { if (p.t.size() != 1) return false; auto& t = *p.t.begin(); if (t.first.size() != 1 || t.first[0].second != 1 || t.second != 1) return false; if (a) *a = t.first[0].first; return true; }
static Mono gcdm(const Mono& a, const Mono& b) { Mono r; for (auto& x : a) for (auto& y : b) if (x.first == y.first) r.push_back({x.first, std::min(x.second, y.second)}); return r; }
static void pscale(Poly& p, const Q& c) { if (c != 1) for (auto& t : p.t) t.second *= c; }
// num/fac divided by p^e
static void divBy(Poly& num, Fac& fac, Poly p, uint32_t e) {
  if (p.t.empty()) abort();
  Mono g = p.t.begin()->first; for (auto& t : p.t) { g = gcdm(g, t.first); if (g.empty()) break; }
  if (!g.empty()) { Poly n2; Mono m; for (auto& t : p.t) { mdiv(t.first, g, m); n2.t[m] = t.second; } p = n2; for (auto& x : g) fac[facId(patom(g_all[x.first]))] += x.second * e; }
  Q lead = p.t.rbegin()->second; if (lead != 1) { Q inv = 1 / lead; pscale(p, inv); Q k = 1; for (uint32_t i = 0; i < e; i++) k *= inv; pscale(num, k); }
  if (p.isConst()) return;
  for (bool again = true; again;) { again = false; for (auto& f : fac) { const Poly& q = g_facs[f.first]; if (q.t.size() > 1 && q.t.size() <= p.t.size() && q.t != p.t) { Poly r; if (pdivExact(p, q, r)) { f.second += e; p = r; again = true; break; } } } if (p.isConst()) { Q c; p.isConst(&c); Q k = 1; for (uint32_t i = 0; i < e; i++) k /= c; pscale(num, k); return; } }
  lead = p.t.rbegin()->second; if (lead != 1) { Q inv = 1 / lead; pscale(p, inv); Q k = 1; for (uint32_t i = 0; i < e; i++) k *= inv; pscale(num, k); }
  fac[facId(p)] += e;
}
static const RatFun* internRF(Poly n, Fac fac) {
  if (n.isZero()) fac.clear();
  for (auto it = fac.begin(); it != fac.end();) {
    uint32_t a; const Poly& f = g_facs[it->first];
    if (singleAtom(f, &a)) {
      uint32_t k = it->second; for (auto& t : n.t) { uint32_t e = 0; for (auto& m : t.first) if (m.first == a) e = m.second; k = std::min(k, e); if (!k) break; }
      if (k) { Poly n2; for (auto& t : n.t) { Mono mm; for (auto& m : t.first) { if (m.first == a) { if (m.second > k) mm.push_back({a, m.second - k}); } else mm.push_back(m); } n2.t[mm] = t.second; } n = n2; it->second -= k; }
    } else { Poly q; while (it->second && f.t.size() <= n.t.size() && pdivExact(n, f, q)) { n = q; it->second--; } }
    if (!it->second) it = fac.erase(it); else ++it;
  }
  auto key = std::make_pair(n.t, fac);
  auto it = g_rfs.find(key);
  if (it != g_rfs.end()) return it->second;
  RatFun* r = new RatFun{n, fac, (uint32_t)g_rfs.size()};
  g_rfs[key] = r; return r;
}
bool isSpecialConst(E e) { if (!e->isConst()) return false; double d = bitsToD(e->val); return !std::isfinite(d); }
const RatFun* rvOf(E e) {
  if (e->rf) return e->rf;
  if (e->isConst()) return internRF(pconst(dToQ(bitsToD(e->val))), Fac());
  return internRF(patom(e), Fac());
}
static E rvIntern(const RatFun* r) {
  Q c;
  if (r->fac.empty()) {
    if (r->num.isConst(&c)) {
      double d = qToD(c);
      if (std::isfinite(d) && dToQ(d) == c) return mkConst(dToBits(d), 64);
      // very long rationals are rounded (rounding is idealised away in this mode anyway)
      if (boost::multiprecision::msb(boost::multiprecision::numerator(c) < 0 ? Z(-boost::multiprecision::numerator(c)) : Z(boost::multiprecision::numerator(c))) > 3000 && std::isfinite(d)) return mkConst(dToBits(d), 64);
    } else if (r->num.t.size() == 1) { auto& t = *r->num.t.begin(); if (t.second == 1 && t.first.size() == 1 && t.first[0].second == 1) return g_all[t.first[0].first]; }
  }
  return intern(Op::RVal, 64, r->id, nullptr, nullptr, nullptr, 0, true, r);
}
// replace even powers of sqrt atoms
static bool sqrtAtom(uint32_t id) { E e = g_all[id]; return e->op == Op::App && g_fns[e->aux] == "sqrt"; }
static Poly facProd(const Fac& f) { Poly r = pconst(1); for (auto& x : f) for (uint32_t i = 0; i < x.second; i++) r = pmul(r, g_facs[x.first]); return r; }
static E rvFromRat(Poly n, Fac d) {
  for (int iter = 0; iter < 40; iter++) {
    bool changed = false;
    for (auto& t : n.t) { for (auto& m : t.first) if (m.second >= 2 && sqrtAtom(m.first)) {
        // n = sum c*m ; substitute s^2 := X = xn/xd in every term, n' = (sum ...)/xd^mx
        uint32_t s = m.first; const RatFun* X = rvOf(g_all[s]->k[0]); Poly xdp = facProd(X->fac);
        uint32_t mx = 0; for (auto& t2 : n.t) for (auto& m2 : t2.first) if (m2.first == s) mx = std::max(mx, m2.second / 2);
        std::vector<Poly> xn{pconst(1)}, xd{pconst(1)};
        for (uint32_t i = 0; i < mx; i++) { xn.push_back(pmul(xn.back(), X->num)); xd.push_back(pmul(xd.back(), xdp)); }
        Poly r;
        for (auto& t2 : n.t) { Mono mm; uint32_t k = 0; for (auto& m2 : t2.first) { if (m2.first == s) { k = m2.second / 2; if (m2.second & 1) mm.push_back({s, 1}); } else mm.push_back(m2); }
          Poly q; q.t[mm] = t2.second; q = pmul(pmul(q, xn[k]), xd[mx - k]); r = padd(r, q, 1); }
        n = r; for (auto& x : X->fac) d[x.first] += x.second * mx;
        changed = true; break; }
      if (changed) break; }
    if (!changed) for (auto& x : d) { uint32_t a; if (x.second >= 2 && singleAtom(g_facs[x.first], &a) && sqrtAtom(a)) { uint32_t k = x.second / 2; const RatFun* X = rvOf(g_all[a]->k[0]); if (X->num.isZero()) break;
        if (x.second & 1) x.second = 1; else d.erase(x.first);
        Poly xdp = facProd(X->fac); for (uint32_t i = 0; i < k; i++) n = pmul(n, xdp); divBy(n, d, X->num, k); changed = true; break; } }
    if (!changed) break;
  }
  return rvIntern(internRF(n, d));
}
E rvConstQ(const Q& q) { return rvIntern(internRF(pconst(q), Fac())); }
bool rvIsConst(E e, Q* q) { if (e->isConst()) { if (isSpecialConst(e)) return false; *q = dToQ(bitsToD(e->val)); return true; } if (!e->rf) return false; if (!e->rf->fac.empty()) return false; Q n; if (!e->rf->num.isConst(&n)) return false; *q = n; return true; }
static E special(double d) { return mkConst(dToBits(d), 64); }
E rvNeg(E a) { if (a->isConst()) { u128 v[3] = {a->val, 0, 0}; return mkConst(fpConstEval(Op::FNeg, 0, 64, 64, v), 64); } const RatFun* f = rvOf(a); Poly n = padd(Poly(), f->num, -1); return rvFromRat(n, f->fac); }
E rvBin(Op op, E a, E b) {
  bool sa = isSpecialConst(a), sb = isSpecialConst(b);
  if (sa || sb) {
    if (a->isConst() && b->isConst()) { u128 v[3] = {a->val, b->val, 0}; return mkConst(fpConstEval(op, 0, 64, 64, v), 64); }
    double x = sa ? bitsToD(a->val) : 1, y = sb ? bitsToD(b->val) : 1;
    if (x != x || y != y) return special(NAN);
    if (op == Op::FAdd) return sa ? a : b;
    if (op == Op::FSub) return sa ? a : special(-y);
    if (op == Op::FDiv && sb) return mkConst(0, 64);
    // inf * x, inf / x : sign unknown
    return nullptr;
  }
  if (a->isConst() && b->isConst()) {
    double x = bitsToD(a->val), y = bitsToD(b->val);
    if (op == Op::FDiv && y == 0) return special(x / y);
  }
  const RatFun *f = rvOf(a), *g = rvOf(b);
  switch (op) {
    case Op::FAdd: case Op::FSub: { int s = op == Op::FAdd ? 1 : -1;
      Poly fn = f->num, gn = g->num; Fac l = f->fac;
      for (auto& x : g->fac) { uint32_t& e = l[x.first]; if (x.second > e) { for (uint32_t i = e; i < x.second; i++) fn = pmul(fn, g_facs[x.first]); e = x.second; } }
      for (auto& x : f->fac) { auto it = g->fac.find(x.first); uint32_t e = it == g->fac.end() ? 0 : it->second; for (uint32_t i = e; i < x.second; i++) gn = pmul(gn, g_facs[x.first]); }
      return rvFromRat(padd(fn, gn, s), l); }
    case Op::FMul: { const RatFun *F = internRF(f->num, g->fac), *G = internRF(g->num, f->fac); Fac l = F->fac; for (auto& x : G->fac) l[x.first] += x.second; return rvFromRat(pmul(F->num, G->num), l); }
    case Op::FDiv: { if (g->num.isZero()) return nullptr; Fac l = f->fac; Poly n = f->num;
      for (auto& x : g->fac) { uint32_t e = x.second; auto it = l.find(x.first); if (it != l.end()) { uint32_t k = std::min(e, it->second); e -= k; it->second -= k; if (!it->second) l.erase(it); } for (uint32_t i = 0; i < e; i++) n = pmul(n, g_facs[x.first]); }
      Poly q; if (g->num.t.size() > 1 && n.t.size() >= g->num.t.size() && pdivExact(n, g->num, q)) return rvFromRat(q, l);
      divBy(n, l, g->num, 1); return rvFromRat(n, l); }
    default: abort();
  }
}
E rvIsZero(E e) { return rvCmp(RC_EQ, e, mkConst(0, 64)); }
E rvCmp(int kind, E a, E b) {
  E d = rvBin(Op::FSub, a, b);
  Q q; if (rvIsConst(d, &q)) return mkBool(kind == RC_EQ ? q == 0 : kind == RC_LT ? q < 0 : q <= 0);
  const RatFun* f = rvOf(d);
  // canonical numerator/denominator product for sign questions
  Poly n = f->num;
  if (kind == RC_EQ) { Q lead = n.t.rbegin()->second; for (auto& t : n.t) t.second /= lead; f = internRF(n, Fac()); }
  else {
    // multiply by the denominator's factors of unknown sign
    for (auto& x : f->fac) { if (!(x.second & 1)) continue; bool pos = true; for (auto& t : g_facs[x.first].t) { if (t.second < 0) pos = false; for (auto& m : t.first) { E at = g_all[m.first]; bool nn = at->op == Op::App && (g_fns[at->aux] == "exp" || g_fns[at->aux] == "sqrt"); if ((m.second & 1) && !nn) pos = false; } } if (!pos) n = pmul(n, g_facs[x.first]); }
    // scale by a positive constant; sqrt reduction
    Q lead = n.t.rbegin()->second; if (lead < 0) lead = -lead; for (auto& t : n.t) t.second /= lead;
    f = internRF(n, Fac());
    // common sign known?
  }
  return intern(Op::RCmp, 1, (uint32_t)kind | (f->id << 2), nullptr, nullptr, nullptr, 0, false, f);
}
E rvPoly(const Poly& p) { return rvIntern(internRF(p, Fac())); }
// exact view for an Ite over floating point constants / exact values
void attachIteDy(E r) {
  if (r->dy || r->op != Op::Ite || !(r->w == 64 || r->w == 32)) return;
  const Dy *da = dyOf(r->k[1]), *db = dyOf(r->k[2]);
  if (!da || !db || da->kind != Dy::Exact || db->kind != Dy::Exact) return;
  E ma, mb; int e; if (!alignDy(*da, *db, ma, mb, e)) return;
  Dy d; d.m = mkIte(r->k[0], ma, mb); d.e = e; if (fitsFP(d.m->lo, d.m->hi, e, r->w)) withDy(r, d);
}
