#pragma once
#include <vector>
#include <base/Time.hpp>
#include <base/Eigen.hpp>
namespace base { namespace samples { struct DistanceImage { base::Time time; size_t width = 0, height = 0; double scale_x = 1, scale_y = 1, center_x = 0, center_y = 0; std::vector<float> data; }; } }
