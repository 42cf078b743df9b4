#pragma once
#include <stdint.h>
namespace base {
// the stand-in clock counts its readings
struct Time { int64_t microseconds; Time() : microseconds(0) {} static Time now() { static int64_t n = 0; Time t; t.microseconds = ++n; return t; } static Time fromMicroseconds(int64_t v) { Time t; t.microseconds = v; return t; } int64_t toMicroseconds() const { return microseconds; } double toSeconds() const { return microseconds / 1e6; } bool isNull() const { return microseconds == 0; } bool operator<(const Time& o) const { return microseconds < o.microseconds; } bool operator==(const Time& o) const { return microseconds == o.microseconds; } };
}
