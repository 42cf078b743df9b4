#pragma once
#include <string>
#include <base/Eigen.hpp>
#include <base/Pose.hpp>
#include <base/Time.hpp>
namespace base { namespace samples {
struct RigidBodyState { base::Time time; std::string sourceFrame, targetFrame; Position position; Matrix3d cov_position; Orientation orientation; Matrix3d cov_orientation;
  RigidBodyState() : position(Position::Zero()), cov_position(Matrix3d::Zero()), orientation(Orientation::Identity()), cov_orientation(Matrix3d::Zero()) {}
  template <int M> operator Eigen::Transform<double, 3, M>() const { Eigen::Transform<double, 3, M> r; r.setIdentity(); r.rotate(Eigen::Quaterniond(orientation)); r.translation() = position; return r; } };
} }
