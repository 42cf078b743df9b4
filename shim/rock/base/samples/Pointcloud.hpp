#pragma once
#include <vector>
#include <base/Time.hpp>
#include <base/Eigen.hpp>
namespace base { typedef base::Vector3d Point; namespace samples { struct Pointcloud { base::Time time; std::vector<base::Vector3d> points; std::vector<base::Vector4d> colors; }; } }
