#pragma once
#include <cmath>
#include <limits>
namespace base {
template <typename T> T unset() { return std::numeric_limits<T>::quiet_NaN(); }
template <typename T> bool isUnset(T v) { return v != v; }
template <typename T> T NaN() { return std::numeric_limits<T>::quiet_NaN(); }
template <typename T> bool isNaN(T v) { return v != v; }
template <typename T> T unknown() { return std::numeric_limits<T>::quiet_NaN(); }
template <typename T> bool isUnknown(T v) { return v != v; }
template <typename T> T infinity() { return std::numeric_limits<T>::infinity(); }
template <typename T> bool isInfinity(T v) { return v == std::numeric_limits<T>::infinity() || v == -std::numeric_limits<T>::infinity(); }
}
