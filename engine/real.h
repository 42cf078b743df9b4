// Rational functions over opaque atoms, used in real mode.
#pragma once
#include "expr.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <optional>
typedef boost::multiprecision::cpp_rational Q;
typedef boost::multiprecision::cpp_int Z;
typedef std::vector<std::pair<uint32_t, uint32_t>> Mono;  // (atom expr id, exponent), sorted
struct Poly { std::map<Mono, Q> t; bool isZero() const { return t.empty(); } bool isConst(Q* c = nullptr) const; };
typedef std::map<uint32_t, uint32_t> Fac;                 // interned factor polynomial -> exponent
struct RatFun { Poly num; Fac fac; uint32_t id; };        // num / prod fac^e
const Poly& facPoly(uint32_t id);
struct PolyBlow {}; struct RealBits {};                   // thrown; the path becomes inconclusive
template <class F> void eachPoly(const RatFun* r, F f) { f(r->num); for (auto& x : r->fac) f(facPoly(x.first)); }

Q dToQ(double d);
double qToD(const Q& q);
E rvBin(Op op, E a, E b);       // FAdd FSub FMul FDiv (den != 0 assumed)
E rvNeg(E a);
E rvCmp(int kind, E a, E b);    // a (kind) b
E rvConstQ(const Q& q);
bool rvIsConst(E e, Q* q);
const RatFun* rvOf(E e);
E atomExpr(uint32_t id);
bool isSpecialConst(E e);       // inf / nan constant
E rvIsZero(E e);
E rvPoly(const Poly& p);
