// Frames of turns about the vertical axis (from a table) and any translation, and the plain formulas for them.
#pragma once
#include "core_model.h"
#include <base/Eigen.hpp>
#include <math.h>
typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3;
static double num(const char* n, int lo, int hi, int e) { return sx_dyadic(n, lo, hi, e); }
// none, quarter, 3-4-5, half
static M3 turn(int k) { M3 r; switch (k) { case 0: r << 1, 0, 0, 0, 1, 0, 0, 0, 1; break; case 1: r << 0, -1, 0, 1, 0, 0, 0, 0, 1; break; case 2: r << 0.6, -0.8, 0, 0.8, 0.6, 0, 0, 0, 1; break; default: r << -1, 0, 0, 0, -1, 0, 0, 0, 1; } return r; }
#ifndef TURNS
#define TURNS 3
#endif
struct Fr { M3 R; V3 t; Fr() : R(M3::Identity()), t(V3::Zero()) {}
  V3 in(const V3& p) const { V3 d = p - t, q; for (int i = 0; i < 3; i++) q[i] = R(0, i) * d[0] + R(1, i) * d[1] + R(2, i) * d[2]; return q; }
  V3 out(const V3& p) const { V3 q; for (int i = 0; i < 3; i++) q[i] = R(i, 0) * p[0] + R(i, 1) * p[1] + R(i, 2) * p[2] + t[i]; return q; }
  Transform tf() const { Transform r = Transform::Identity(); r.linear() = R; r.translation() = t; return r; } };
static Fr frame(int turns, int range, int fine) { Fr f; f.R = turn(pick("turn", turns)); f.t[0] = num("tx", -range, range, fine); f.t[1] = num("ty", -range, range, fine); f.t[2] = num("tz", -4, 4, -1); return f; }
static int sx_is(double a, double b) { return sx_near(a, b, 1e-5); }
static int at(const V3& a, const V3& b) { int ok = sx_is(a[0], b[0]); ok &= sx_is(a[1], b[1]); ok &= sx_is(a[2], b[2]); return ok; }
