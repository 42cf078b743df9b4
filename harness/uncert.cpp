// Uncertainty of transforms (exact rational arithmetic, run with --real).
#include <envire/core/Transform.hpp>
#include "sx.h"
#include <math.h>
using namespace envire; typedef Eigen::Matrix3d M3; typedef Eigen::Vector3d V3; typedef TransformWithUncertainty TU; typedef Eigen::Matrix<double, 6, 6> M6;
static const double TOL = 1e-5;
static int pick(const char* n, int k) { return (int)sx_concretize(sx_range(n, 0, k - 1)); }
static double num(const char* n, int lim = 20) { double v = sx_double(n); sx_assume(v >= -lim); sx_assume(v <= lim); return v; }
static V3 vec(const char* n, int lim = 20) { V3 r; for (int i = 0; i < 3; i++) r[i] = num(n, lim); return r; }
static V3 place(const char* n) { static const double T[4][3] = { { 0, 0, 0 }, { 1, 2, -3 }, { -0.5, 0, 4 }, { 2, 2, 0.25 } }; int k = pick(n, 4); return V3(T[k][0], T[k][1], T[k][2]); }
static M3 turn(int k) { M3 r; switch (k) { case 0: r << 1, 0, 0, 0, 1, 0, 0, 0, 1; break; case 1: r << 0, -1, 0, 1, 0, 0, 0, 0, 1; break; case 2: r << 1, 0, 0, 0, 0.6, -0.8, 0, 0.8, 0.6; break; default: r << 0.28, 0, 0.96, 0, 1, 0, -0.96, 0, 0.28; } return r; }
static Transform tf(const M3& R, const V3& t) { Transform r = Transform::Identity(); r.linear() = R; r.translation() = t; return r; }
// symmetric covariance; the parts that are free: 1 rotation, 2 translation, 4 both cross terms
static M6 cov(const char* n, int parts) { M6 c = M6::Zero(); for (int i = 0; i < 6; i++) for (int j = i; j < 6; j++) { int b = i < 3 && j < 3 ? 1 : i >= 3 ? 2 : 4; if (parts & b) c(i, j) = c(j, i) = num(n); } return c; }
static M3 skew(const V3& r) { M3 m; m << 0, -r[2], r[1], r[2], 0, -r[0], -r[1], r[0], 0; return m; }
static M6 block(const M3& a, const M3& b, const M3& c, const M3& d) { M6 m; m.topLeftCorner<3, 3>() = a; m.topRightCorner<3, 3>() = b; m.bottomLeftCorner<3, 3>() = c; m.bottomRightCorner<3, 3>() = d; return m; }
template <class A, class B> static bool nearM(const A& a, const B& b, double tol = TOL) { int r = 1; for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) r &= sx_near(a(i, j), b(i, j), tol); return r; }
static const M3 I = M3::Identity(), Z = M3::Zero();
// where the rotations are the identity the Jacobians are known: [dr dt] enters a point x as dr x x + dt
extern "C" void compose_identity() {
  V3 t1 = vec("t1"), t2 = vec("t2"); bool u1 = pick("u1", 2), u2 = pick("u2", 2); M6 c1 = u1 ? cov("c1", 7) : M6(M6::Zero()), c2 = u2 ? cov("c2", 7) : M6(M6::Zero()); TU a = u1 ? TU(tf(I, t1), c1) : TU(tf(I, t1)), b = u2 ? TU(tf(I, t2), c2) : TU(tf(I, t2)); TU r = pick("how", 2) ? b * a : b.composition(a);
  sx_assert(r.hasUncertainty() == (u1 || u2), "a composition is uncertain when a part is"); sx_assert(nearM(r.getTransform().translation(), V3(t1 + t2)) && nearM(r.getTransform().linear(), I), "the transforms compose"); M6 J = block(I, Z, -skew(t1), I); if (u1 || u2) sx_assert(nearM(r.getCovariance(), M6(c1 + J * c2 * J.transpose())), "the covariances propagate to first order"); sx_reach(u1 && u2 ? "both" : u1 ? "right" : u2 ? "left" : "none");
}
extern "C" void compose_turned() {
  M3 R1 = turn(pick("r1", 4)), R2 = turn(pick("r2", 4)); V3 t1 = vec("t1"), t2 = vec("t2"); bool u1 = pick("u1", 2), u2 = pick("u2", 2); M6 c1 = u1 ? cov("c1", 2) : M6(M6::Zero()), c2 = u2 ? cov("c2", 2) : M6(M6::Zero()); TU a = u1 ? TU(tf(R1, t1), c1) : TU(tf(R1, t1)), b = u2 ? TU(tf(R2, t2), c2) : TU(tf(R2, t2)); TU r = b * a;
  sx_assert(r.hasUncertainty() == (u1 || u2), "a composition is uncertain when a part is"); sx_assert(nearM(r.getTransform().translation(), V3(R2 * t1 + t2)) && nearM(r.getTransform().linear(), M3(R2 * R1)), "the transforms compose"); M6 e = block(Z, Z, Z, M3(c2.bottomRightCorner<3, 3>() + R2 * c1.bottomRightCorner<3, 3>() * R2.transpose())); if (u1 || u2) sx_assert(nearM(r.getCovariance(), e), "uncertainty of translations is rotated and added"); sx_reach("end");
}
extern "C" void points() {
  M3 R = turn(pick("r", 4)); V3 t = vec("t"), x = vec("x"); bool u = pick("u", 2), ut = pick("ut", 2); bool full = R(0, 0) == 1 && R(1, 1) == 1; M6 c = ut ? cov("c", full ? 7 : 2) : M6(M6::Zero()); M3 p = Z; if (u) for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) p(i, j) = p(j, i) = num("p"); TU a = ut ? TU(tf(R, t), c) : TU(tf(R, t)); PointWithUncertainty q = u ? PointWithUncertainty(x, p) : PointWithUncertainty(x); sx_assert(q.hasUncertainty() == u, "a point is uncertain when given a covariance");
  PointWithUncertainty r = a * q; sx_assert(nearM(r.getPoint(), V3(R * x + t)), "points are transformed"); M3 e = R * p * R.transpose() + c.bottomRightCorner<3, 3>(); if (full) { M3 S = -skew(x); e += S * c.topLeftCorner<3, 3>() * S.transpose() + S * c.topRightCorner<3, 3>() + c.bottomLeftCorner<3, 3>() * S.transpose(); } sx_assert(nearM(r.getCovariance(), e), "the covariance of a point propagates to first order"); sx_reach(full ? "full" : "translation");
}
extern "C" void inverses() {
  int k = pick("r", 4); M3 R = turn(k); V3 t = vec("t"); bool u = pick("u", 2); M6 c = u ? cov("c", k ? 2 : 7) : M6(M6::Zero()); TU a = u ? TU(tf(R, t), c) : TU(tf(R, t)); TU r = a.inverse(); V3 x = vec("x");
  sx_assert(r.hasUncertainty() == u, "an inverse is as uncertain as the transform"); sx_assert(nearM(V3(r.getTransform() * (a.getTransform() * x)), x), "the inverse undoes the transform");
  if (!u) { sx_reach("certain"); return; } M6 e; if (k) e = block(Z, Z, Z, M3(R.transpose() * c.bottomRightCorner<3, 3>() * R)); else { M6 J = block(-I, Z, -skew(t), -I); e = J * c * J.transpose(); } sx_assert(nearM(r.getCovariance(), e), "the covariance of the inverse propagates to first order");
  if (!k) { PointWithUncertainty p = r * PointWithUncertainty(x); Eigen::Matrix<double, 3, 6> J; J << skew(x - t), -I; sx_assert(nearM(p.getCovariance(), M3(J * c * J.transpose())), "a point taken back by an uncertain transform has the uncertainty of the transform at the point"); } sx_reach("uncertain");
}
// solving a composition for one of its parts
extern "C" void solve_left() {
  int k1 = pick("r1", 2), k2 = pick("r2", 2); V3 t1 = place("t1"), t2 = vec("t2"); int parts = k1 || k2 ? 2 : 7; bool u = pick("u", 2); M6 c1 = cov("c1", parts), c2 = cov("c2", parts); TU a = u ? TU(tf(turn(k1), t1), c1) : TU(tf(turn(k1), t1)), b = u ? TU(tf(turn(k2), t2), c2) : TU(tf(turn(k2), t2)); TU r = (b * a).compositionInv(a); sx_assert(r.hasUncertainty() == u && nearM(r.getTransform().translation(), t2) && nearM(r.getTransform().linear(), turn(k2)), "solving a composition for its left part answers the left part"); if (u) sx_assert(nearM(r.getCovariance(), c2, 1e-3), "solving a composition for its left part answers the left part"); sx_reach(u ? "uncertain" : "certain");
}
extern "C" void solve_right() {
  int k1 = pick("r1", 2), k2 = pick("r2", 2); V3 t1 = place("t1"), t2 = vec("t2"); int parts = k1 || k2 ? 2 : 7; bool u = pick("u", 2); M6 c1 = cov("c1", parts), c2 = cov("c2", parts); TU a = u ? TU(tf(turn(k1), t1), c1) : TU(tf(turn(k1), t1)), b = u ? TU(tf(turn(k2), t2), c2) : TU(tf(turn(k2), t2)); TU r = (b * a).preCompositionInv(b); sx_assert(r.hasUncertainty() == u && nearM(r.getTransform().translation(), t1) && nearM(r.getTransform().linear(), turn(k1)), "solving a composition for its right part answers the right part"); if (u) sx_assert(nearM(r.getCovariance(), c1, 1e-3), "solving a composition for its right part answers the right part"); sx_reach(u ? "uncertain" : "certain");
}
extern "C" void rigid_body() {
  base::samples::RigidBodyState s; s.position = vec("pos"); s.orientation = pick("turned", 2) ? base::Quaterniond(0.8, 0.6, 0, 0) : base::Quaterniond(1, 0, 0, 0); for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) { s.cov_position(i, j) = s.cov_position(j, i) = num("cp"); s.cov_orientation(i, j) = s.cov_orientation(j, i) = num("co"); }
  TU a; if (pick("how", 2)) a = TU(s); else a = s; sx_assert(a.hasUncertainty() && nearM(a.getTransform().translation(), s.position) && nearM(a.getTransform().linear(), M3(Eigen::Quaterniond(s.orientation).toRotationMatrix())), "a body state gives its pose"); sx_assert(nearM(a.getCovariance(), block(s.cov_orientation, Z, Z, s.cov_position)), "a body state gives its covariances");
  base::samples::RigidBodyState r; a.copyToRigidBodyState(r); sx_assert(nearM(r.position, s.position) && nearM(r.orientation.coeffs(), s.orientation.coeffs()) && nearM(r.cov_position, s.cov_position) && nearM(r.cov_orientation, s.cov_orientation), "a body state comes back"); sx_reach("end");
}
// the second order terms: a turn of 30 degrees, uncertain, moves a point as its derivative says
extern "C" void point_turned() {
  const double th = M_PI / 6; int ax = pick("axis", 3); V3 u = V3::Zero(); u[ax] = 1; double cs = cos(th), sn = sin(th); M3 U = u * u.transpose(); M3 R = cs * I + (1 - cs) * U + sn * skew(u); V3 x = vec("x", 5), t = vec("t", 5); int k = pick("dir", 3); double v = 1; M6 c = M6::Zero(); c(k, k) = v; TU a(tf(R, t), c); PointWithUncertainty r = a * PointWithUncertainty(x);
  M3 Jl = sn / th * I + (1 - sn / th) * U + (1 - cs) / th * skew(u); V3 d = -(skew(V3(R * x)) * Jl).col(k); M3 e = v * d * d.transpose(); sx_assert(nearM(r.getCovariance(), e, 0.2), "the covariance of a turned point propagates to first order"); sx_reach("end");
}
// a certain identity before or after leaves the uncertainty as it is (the Jacobians of the rotation are series, good to a few percent)
extern "C" void neutral() { const double th = M_PI / 6; int ax = pick("axis", 3); V3 u = V3::Zero(); u[ax] = pick("sense", 2) ? 1 : -1; double cs = cos(th), sn = sin(th); M3 R = cs * I + (1 - cs) * u * u.transpose() + sn * skew(u); M6 c = M6::Zero(); for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) c(i, j) = c(j, i) = num("c", 1); TU a(tf(R, vec("t", 5)), c), e = TU::Identity(); TU r = pick("side", 2) ? a * e : e * a; sx_assert(nearM(r.getCovariance(), c, 0.05), "composing with nothing changes nothing"); sx_reach("end"); }
// a point through two transforms, and through their composition
extern "C" void chain() {
  const double th = M_PI / 8; M3 R[2]; for (int i = 0; i < 2; i++) { int ax = pick("axis", 4); if (ax == 3) R[i] = I; else { V3 u = V3::Zero(); u[ax] = 1; R[i] = cos(th) * I + (1 - cos(th)) * u * u.transpose() + sin(th) * skew(u); } }
  int which = pick("which", 2); M6 c = M6::Zero(); int ci = pick("row", 3), cj = pick("col", 3); if (ci > cj) sx_kill(); c(ci, cj) = c(cj, ci) = num("c", 1); V3 t1 = pick("far", 2) ? V3(1, 2, -3) : V3(0, 0, 0), t2 = vec("t2", 2), x = pick("x", 2) ? V3(-0.5, 0, 4) : V3(2, 2, 0.25); TU b = which ? TU(tf(R[0], t1)) : TU(tf(R[0], t1), c), a = which ? TU(tf(R[1], t2), c) : TU(tf(R[1], t2));
  PointWithUncertainty p = (a * b) * PointWithUncertainty(x), q = a * (b * PointWithUncertainty(x)); sx_assert(nearM(p.getPoint(), q.getPoint()), "a composition moves points as its parts do"); sx_assert(nearM(p.getCovariance(), q.getCovariance(), 0.5), "a composition gives points the uncertainty its parts do"); sx_reach("end");
}
