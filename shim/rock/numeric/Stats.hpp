#pragma once
#include <Eigen/Core>
namespace numeric {
template <class V> class Stats { public: typedef Eigen::Matrix<double, V::RowsAtCompileTime, V::RowsAtCompileTime> M; typedef Eigen::Matrix<double, V::RowsAtCompileTime, 1> W; Stats() { clear(); } void clear() { n_ = 0; sw_ = 0; m_.setZero(); s_.setZero(); }
  void update(const W& v, double w = 1) { n_++; double t = sw_ + w; W d = v - m_; W r = d * (w / t); m_ += r; s_ += sw_ * d * r.transpose(); sw_ = t; }
  W mean() const { return m_; } M var() const { return s_ / sw_; } double sumWeights() const { return sw_; } long n() const { return n_; }
private: long n_; double sw_; W m_; M s_; };
}
