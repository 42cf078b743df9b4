#pragma once
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/StdVector>
#include <base/Float.hpp>
namespace base {
typedef Eigen::Matrix<double, 2, 1, Eigen::DontAlign> Vector2d; typedef Eigen::Matrix<double, 3, 1, Eigen::DontAlign> Vector3d; typedef Eigen::Matrix<double, 4, 1, Eigen::DontAlign> Vector4d; typedef Eigen::Matrix<double, 6, 1, Eigen::DontAlign> Vector6d; typedef Eigen::Matrix<double, Eigen::Dynamic, 1, Eigen::DontAlign> VectorXd;
typedef Eigen::Matrix<double, 2, 2, Eigen::DontAlign> Matrix2d; typedef Eigen::Matrix<double, 3, 3, Eigen::DontAlign> Matrix3d; typedef Eigen::Matrix<double, 4, 4, Eigen::DontAlign> Matrix4d; typedef Eigen::Matrix<double, 6, 6, Eigen::DontAlign> Matrix6d; typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::DontAlign> MatrixXd;
typedef Eigen::Quaternion<double, Eigen::DontAlign> Quaterniond; typedef Eigen::AngleAxis<double> AngleAxisd;
typedef Eigen::Transform<double, 3, Eigen::Affine, Eigen::DontAlign> Affine3d; typedef Eigen::Transform<double, 3, Eigen::Isometry, Eigen::DontAlign> Isometry3d; typedef Affine3d Transform3d;
}
