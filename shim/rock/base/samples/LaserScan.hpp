#pragma once
#include <vector>
#include <stdint.h>
#include <base/Time.hpp>
#include <base/Eigen.hpp>
namespace base { namespace samples { struct LaserScan { base::Time time; double start_angle = 0, angular_resolution = 0, speed = 0; std::vector<uint32_t> ranges; uint32_t minRange = 0, maxRange = 0; std::vector<float> remission; }; } }
