// Hash-consed expression DAG used by the symbolic executor.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <memory>
#include <map>
#include <unordered_map>
#include <functional>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class Op : uint8_t {
  Const, Sym,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle,
  Ite, Concat, Extract, ZExt, SExt,
  // IEEE operations on bit patterns (width 32/64)
  FAdd, FSub, FMul, FDiv, FNeg, FAbs, FSqrt, FRound, FFma,
  FOeq, FOlt, FOle, FUno,
  FpToSI, SIToFP, UIToFP, FpExt, FpTrunc,
  App,                    // uninterpreted function over bit patterns (libm functions)
  // real mode
  RVal,                   // rational function value (real mode double)
  RCmp,                   // comparison of a rational function with 0: p/q (op) 0
};
enum RoundMode { RM_FLOOR, RM_CEIL, RM_TRUNC, RM_RINT, RM_ROUND };
enum { RC_EQ, RC_LT, RC_LE };

struct Expr;
struct RatFun;

// exact auxiliary view of a floating point expression
//  Exact:  value == m * 2^e
//  Quot :  value == RN( (m*2^e) / (d*2^de) ), d != 0
//  Sqrt :  value == RN( sqrt( m*2^e ) ), m >= 0
struct Dy {
  enum Kind { Exact, Quot, Sqrt } kind = Exact;
  const Expr* m = nullptr; int e = 0;
  const Expr* d = nullptr; int de = 0;
};

typedef std::vector<uint32_t> SymSet;

struct Expr {
  Op op; uint8_t nk; uint16_t w;
  bool fp;          // value is a floating point bit pattern
  bool hasFP, hasUF, hasReal;
  uint32_t id;
  uint32_t aux;     // Sym: index, Extract: low bit, FRound: mode, App: fn id, RVal/RCmp
  const Expr* k[3];
  u128 val;         // Const
  i128 lo, hi;      // signed range
  const Dy* dy;
  const SymSet* syms;
  const RatFun* rf;
  uint32_t size;    // approx node count (saturating, tree)
  bool isConst() const { return op == Op::Const; }
  bool isTrue() const { return op == Op::Const && w == 1 && val == 1; }
  bool isFalse() const { return op == Op::Const && w == 1 && val == 0; }
};
typedef const Expr* E;

struct SymInfo { std::string name; unsigned w; bool fp; bool ranged; i128 lo, hi; bool input; bool real; bool undef; };
extern std::vector<SymInfo> g_syms;
extern std::vector<std::string> g_fns;
extern bool g_realMode;

E mkConst(u128 v, unsigned w);
inline E mkBool(bool b) { return mkConst(b, 1); }
E mkSym(const std::string& name, unsigned w, bool fp = false);
E mkSymRange(const std::string& name, unsigned w, i128 lo, i128 hi);
E mkBin(Op op, E a, E b);
E mkNot(E a);             // bitwise
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkEq(E a, E b);
E mkAndB(E a, E b);
E mkOrB(E a, E b);
E mkFBin(Op op, E a, E b);
E mkFUn(Op op, E a, unsigned aux = 0);
E mkFCmp(Op op, E a, E b); // FOeq/FOlt/FOle/FUno
E mkFFma(E a, E b, E c);
E mkFpToSI(E a, unsigned w); // w = 32 or 64, x86 semantics
E mkIntToFP(E a, unsigned w, bool sgn);
E mkFpCast(E a, unsigned w);
uint32_t appFnId(const std::string& fn);
E mkApp(const std::string& fn, const std::vector<E>& args, unsigned w);
E mkDyadicSym(const std::string& name, i128 lo, i128 hi, int e, unsigned w, E* mant);

i128 sextVal(u128 v, unsigned w);
u128 maskw(unsigned w);
std::string toStr(E e, int depth = 6);
E asFP(E e);             // mark/ensure

// model evaluation -----------------------------------------------------
struct Model {
  std::unordered_map<uint32_t, u128> v;            // symbol -> value
  std::shared_ptr<struct RModel> rm;               // real mode: values of atoms
  std::map<std::pair<uint32_t, std::vector<u128>>, u128> fn; // uninterpreted functions
  mutable std::unordered_map<E, u128> memo;
  u128 eval(E e) const;
};
typedef std::shared_ptr<const Model> ModelP;
extern bool (*g_evalRCmp)(E, const Model&, bool&);
u128 applyFn(uint32_t fn, const u128* a, unsigned n, unsigned w, bool& ok);
double bitsToD(u128 v); u128 dToBits(double d);
float bitsToF(u128 v); u128 fToBits(float f);
u128 fpConstEval(Op op, unsigned aux, unsigned w, unsigned srcw, const u128* v);
size_t exprCount();
