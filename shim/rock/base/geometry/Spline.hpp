#pragma once
#include <vector>
#include <base/Eigen.hpp>
namespace base { namespace geometry { // polyline stand-in; samples are at most the given distance apart
struct Spline3 { std::vector<base::Vector3d> pts; std::vector<base::Vector3d> sample(double d) const { std::vector<base::Vector3d> r; for (size_t i = 0; i < pts.size(); i++) { if (i) { double l = (pts[i] - pts[i - 1]).norm(); int n = (int)(l / d) + 1; for (int k = 1; k < n; k++) r.push_back(pts[i - 1] + (pts[i] - pts[i - 1]) * (double(k) / n)); } r.push_back(pts[i]); } return r; } void interpolate(const std::vector<base::Vector3d>& p) { pts = p; } }; } }
