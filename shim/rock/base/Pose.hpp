#pragma once
#include <base/Eigen.hpp>
namespace base {
typedef Vector3d Position; typedef Vector2d Position2D; typedef Quaterniond Orientation; typedef double Orientation2D;
struct Pose {
  Position position; Orientation orientation;
  Pose() : position(Position::Zero()), orientation(Orientation::Identity()) {}
  Pose(const Position& p, const Orientation& o) : position(p), orientation(o) {}
  template <int M, int O> Pose(const Eigen::Transform<double, 3, M, O>& t) { fromTransform(Eigen::Affine3d(t)); }
  Pose(const Vector6d& v) : position(v.template tail<3>()) { Eigen::Vector3d r = v.template head<3>(); double a = r.norm(); if (a > 1e-9) orientation = Eigen::AngleAxisd(a, r / a); else orientation = Eigen::Quaterniond::Identity(); }
  void fromTransform(const Eigen::Affine3d& t) { position = t.translation(); orientation = Eigen::Quaterniond(t.linear()); }
  Eigen::Affine3d toTransform() const { Eigen::Affine3d t; t = Eigen::Quaterniond(orientation); t.pretranslate(Eigen::Vector3d(position)); return t; }
  Vector6d toVector6d() const { Vector6d r; Eigen::AngleAxisd a{Eigen::Quaterniond(orientation)}; r << a.angle() * a.axis(), position; return r; }
};
struct Pose2D { Position2D position; Orientation2D orientation; Pose2D() : position(Position2D::Zero()), orientation(0) {} Pose2D(const Position2D& p, double o) : position(p), orientation(o) {} };
}
