#pragma once
// Weighted least squares plane z = a x + b y + c from accumulated moments.
#include <Eigen/Core>
#include <Eigen/LU>
namespace numeric {
template <class S> struct PlaneFitting {
  typedef Eigen::Matrix<S, 3, 1> Vector3; typedef Eigen::Matrix<S, 3, 3> Matrix3;
  struct Result { Vector3 coeffs; Matrix3 cov; S res; const Vector3& getCoeffs() const { return coeffs; } const Matrix3& getCovariance() const { return cov; } S getResiduals() const { return res; } };
  S x, y, z, xx, yy, xy, xz, yz, zz, n;
  PlaneFitting() { clear(); } PlaneFitting(const Vector3& p, S w = 1) { clear(); update(p, w); }
  void clear() { x = y = z = xx = yy = xy = xz = yz = zz = n = 0; }
  void update(const Vector3& p, S w = 1) { x += p.x() * w; y += p.y() * w; z += p.z() * w; xx += p.x() * p.x() * w; yy += p.y() * p.y() * w; xy += p.x() * p.y() * w; xz += p.x() * p.z() * w; yz += p.y() * p.z() * w; zz += p.z() * p.z() * w; n += w; }
  void update(const PlaneFitting& o) { x += o.x; y += o.y; z += o.z; xx += o.xx; yy += o.yy; xy += o.xy; xz += o.xz; yz += o.yz; zz += o.zz; n += o.n; }
  void scale(S f) { x *= f; y *= f; z *= f; xx *= f; yy *= f; xy *= f; xz *= f; yz *= f; zz *= f; n *= f; }
  Matrix3 getAffineMatrix() const { Matrix3 m; m << xx, xy, x, xy, yy, y, x, y, n; return m; } Vector3 getAffineVector() const { return Vector3(xz, yz, z); }
  Result solve() const { Result r; r.cov = getAffineMatrix().inverse(); r.coeffs = r.cov * getAffineVector(); r.res = zz - getAffineVector().dot(r.coeffs); return r; }
  Vector3 getCoeffs() const { return solve().coeffs; } Matrix3 getCovariance() const { return solve().cov; } S getResiduals() const { return solve().res; }
  Vector3 getNormal() const { Vector3 c = getCoeffs(); return Vector3(-c.x(), -c.y(), 1).normalized(); }
};
}
