// Surface patches: what merging two of them makes of their evidence.
#include "sx.h"
#include <base/Eigen.hpp>
#include <envire/maps/MLSPatch.hpp>
#include <math.h>
using namespace envire;
typedef SurfacePatch SP;
static int pick(const char* n, int k) { return (int)sx_concretize(sx_range(n, 0, k - 1)); }
static float maxf(float a, float b) { return a > b ? a : b; }
static float minf(float a, float b) { return a < b ? a : b; }
static float sym(const char* n, int lo, int hi, int e) { return sx_dyadic(n, lo, hi, e); }
#ifdef FIXDEV
static float deviation(const char* n) { static const float D[] = { 0.25f, 0.5f, 1 }; return D[pick(n, 3)]; }
#else
static float deviation(const char* n) { return sym(n, 1, 16, -4); }
#endif
static int sx_is(float a, double b) { return sx_near(a, b, 1e-4); }
static SP any(const char* n, SP::TYPE t) { char b[16]; int k = 0; while (n[k]) { b[k + 1] = n[k]; k++; } b[k + 1] = 0; b[0] = 'm'; float m = sym(b, -64, 64, -4); b[0] = 's'; float s = deviation(b); b[0] = 'h'; float h = 0; if (t != SP::HORIZONTAL) h = sym(b, 1, 32, -4); SP p(m, s, h, t); p.setColor(base::Vector3d(0, 0, 0)); return p; }
static int same(const SP& a, const SP& b) { int ok = 1; ok &= a.mean == b.mean; ok &= a.stdev == b.stdev; ok &= a.height == b.height; ok &= a.n == b.n; ok &= a.min == b.min; ok &= a.max == b.max; ok &= a.isHorizontal() == b.isHorizontal(); ok &= a.isVertical() == b.isVertical(); ok &= a.update_idx == b.update_idx; ok &= a.plane.n == b.plane.n; ok &= a.plane.z == b.plane.z; return ok; }
// patches that stand for something, in the model of means
extern "C" void kalman() {
  SP::TYPE tp = pick("tp", 2) ? SP::VERTICAL : SP::HORIZONTAL; SP::TYPE to = pick("to", 2) ? SP::VERTICAL : SP::HORIZONTAL; SP p = any("p", tp), o = any("o", to); p.update_idx = pick("pi", 2); o.update_idx = 1; double th = pick("thick", 2) ? 0.5 : 0, gap = pick("gap", 2) ? 1 : 0; SP q = p, c = o; double dev = sqrt(q.stdev * q.stdev + o.stdev * o.stdev); double pb = q.mean - q.height, ob = o.mean - o.height; int near = 1; near &= pb - gap - dev < o.mean; near &= q.mean + gap + dev > ob; int flat = 1; flat &= q.mean - th - dev < o.mean; flat &= q.mean + th + dev > o.mean; bool hh = tp == SP::HORIZONTAL && to == SP::HORIZONTAL; bool r = p.merge(o, th, gap, MLSConfiguration::KALMAN); sx_assert(r == (near != 0), "patches merge when they are close"); sx_assert(same(o, c), "the patch merged in is not changed");
  if (!r) { sx_assert(same(p, q), "patches that are not close are not changed"); sx_reach("apart"); return; } sx_assert(p.n == q.n + o.n, "measurements are counted"); sx_assert(p.update_idx == (q.update_idx > o.update_idx ? q.update_idx : o.update_idx), "the newer index is kept");
  if (hh && p.isHorizontal()) { double a = q.stdev * q.stdev, b = o.stdev * o.stdev; sx_assert(flat, "patches become a block when they are too far apart for a surface"); int ok = sx_is(p.mean * (a + b), q.mean * b + o.mean * a); ok &= sx_is(p.stdev * p.stdev * (a + b), a * b); ok &= p.height == 0; sx_assert(ok, "surfaces merge to their weighted mean"); sx_reach("surface"); }
  else { if (hh) sx_assert(!flat, "surfaces that are close merge to a surface"); sx_assert(p.isVertical(), "a block stays a block"); int ok = sx_is(p.mean, maxf(q.mean, o.mean)); ok &= sx_is(p.mean - p.height, minf(pb, ob)); sx_assert(ok, "a block covers what was merged into it"); sx_assert(p.stdev == (o.mean > q.mean ? o.stdev : q.stdev), "a block has the deviation of its top"); sx_reach("block"); }
}
// space that is known to be free against what is known to be there
extern "C" void negative() {
  static const SP::TYPE T[] = { SP::NEGATIVE, SP::VERTICAL, SP::HORIZONTAL }; int a = pick("ta", 3); int b = a ? 0 : pick("tb", 3); SP p = any("p", T[a]), o = any("o", T[b]); p.update_idx = pick("pi", 3); o.update_idx = pick("oi", 3); double gap = pick("gap", 2) ? 1 : 0; SP q = p, c = o; double dev = sqrt(q.stdev * q.stdev + o.stdev * o.stdev); double pb = q.mean - q.height, ob = o.mean - o.height; int near = 1; near &= pb - gap - dev < o.mean; near &= q.mean + gap + dev > ob; bool r = p.merge(o, 0.5, gap, MLSConfiguration::KALMAN); if (!near) { sx_assert(!r & same(p, q) & same(o, c), "patches that are not close are not changed"); sx_reach("apart"); return; }
  if (a == 0 && b == 0) { int ok = r; ok &= sx_is(p.mean, maxf(q.mean, o.mean)); ok &= sx_is(p.mean - p.height, minf(pb, ob)); ok &= p.isNegative(); sx_assert(ok, "free space merges to the space covered"); sx_reach("free"); return; }
  if (q.update_idx == c.update_idx) { sx_assert(!r & same(p, q) & same(o, c), "neither wins when they are equally old"); sx_reach("equal"); return; }
  bool pold = q.update_idx < c.update_idx; const SP &oldq = pold ? q : c, &newq = pold ? c : q; const SP &oldr = pold ? p : o, &newr = pold ? o : p; double ol = oldq.mean - oldq.height, nl = newq.mean - newq.height;
  if (r) { int ok = p.mean == newq.mean; ok &= p.height == newq.height; ok &= p.isNegative() == newq.isNegative(); ok &= p.update_idx == newq.update_idx; sx_assert(ok, "the newer patch replaces the older one"); ok = 1; ok &= newq.mean >= oldq.mean; ok &= nl <= ol; sx_assert(ok, "only a patch that is covered is replaced"); sx_reach("replaced"); return; }
  sx_assert(same(newr, newq), "the newer patch is not changed"); double bt = oldr.mean - oldr.height; int ok = oldr.height >= 0; ok &= oldr.mean <= oldq.mean; ok &= (bt >= ol) | sx_is(bt, ol); ok &= oldr.isNegative() == oldq.isNegative(); ok &= oldr.isHorizontal() == oldq.isHorizontal(); sx_assert(ok, "the older patch is cut, not extended"); ok = (oldr.mean <= nl + 1e-4) | (bt >= newq.mean - 1e-4); sx_assert(ok, "the older patch leaves the place of the newer one"); sx_reach("cut");
}
// sums of measurements
extern "C" void sums() {
  static const float D[] = { 0.25f, 0.5f, 1 }; int n = 2 + pick("count", 2); double m[3], w[3], d[3]; SP l[3]; for (int i = 0; i < n; i++) { d[i] = D[pick("dev", 3)]; m[i] = sym("m", -32, 32, -4); w[i] = 1 / (d[i] * d[i]); } double shift = pick("shift", 2) ? 16 : 0; for (int i = 0; i < n; i++) l[i] = SP(m[i] + shift, d[i]); double gap = 1; SP p = l[0]; p.setColor(base::Vector3d(0, 0, 0)); double lo = m[0], hi = m[0], W = w[0], Z = w[0] * m[0], Q = w[0] * w[0], ZZ = w[0] * m[0] * m[0]; int k = 1;
  for (int i = 1; i < n; i++) { SP b = p; l[i].setColor(base::Vector3d(1, 1, 1)); bool r = p.merge(l[i], 0, gap, MLSConfiguration::SUM); int in = 1; in &= m[i] >= lo - gap; in &= m[i] <= hi + gap; int edge = (m[i] == lo - gap) | (m[i] == hi + gap); sx_assert((r == (in != 0)) | edge, "measurements within the gap are merged"); if (!r) { sx_assert(same(p, b), "patches that are not close are not changed"); sx_reach("apart"); continue; } k++; W += w[i]; Z += w[i] * m[i]; ZZ += w[i] * m[i] * m[i]; Q += w[i] * w[i]; lo = m[i] < lo ? m[i] : lo; hi = m[i] > hi ? m[i] : hi; }
  int ok = sx_is(p.mean * W, Z + shift * W); ok &= sx_is(p.min, lo + shift); ok &= sx_is(p.max, hi + shift); ok &= p.n == k; ok &= sx_is(p.getWeight(), W); sx_assert(ok, "a patch has the weighted mean and the extents of its measurements"); if (k == 1) sx_assert(sx_is(p.stdev * p.stdev * W, 1), "one measurement has its deviation"); else { double mean = Z / W, spread = (ZZ - mean * mean * W) * W / (W * W - Q), noise = k / W, v = spread - noise; if (v < 1e-6) v = 1e-6; sx_assert(sx_near(p.stdev * p.stdev, v, 1e-3), "a patch has the spread of its measurements beyond their deviation"); } sx_reach(k == 1 ? "one" : "merged");
}
// a larger patch merged into a smaller one and the other way round
extern "C" void extents() { SP a(0, 1), b(0, 1); a.min = sym("al", -64, 64, -4); a.max = a.min + sym("aw", 0, 64, -4); b.min = sym("bl", -64, 64, -4); b.max = b.min + sym("bw", 0, 64, -4); bool sum = pick("sum", 2); a.setColor(base::Vector3d(0, 0, 0)); b.setColor(base::Vector3d(0, 0, 0)); float gap = pick("gap", 2) ? 1 : 0.25; SP p = a, q = b; MLSConfiguration::update_model u = sum ? MLSConfiguration::SUM : MLSConfiguration::SLOPE; bool r = p.merge(b, 0, gap, u), s = q.merge(a, 0, gap, u); int in = 1; in &= a.min - gap < b.max; in &= a.max + gap > b.min; sx_assert(r == (in != 0), "patches whose extents are within the gap are merged"); sx_assert(r == s, "it does not matter which of two patches is merged into the other"); if (r) { int ok = p.min == q.min; ok &= p.max == q.max; ok &= p.min == minf(a.min, b.min); ok &= p.max == maxf(a.max, b.max); sx_assert(ok, "a patch has the extents of its measurements"); sx_reach("merged"); } else sx_reach("apart"); }
// planes through measurements
extern "C" void slope() {
  double a = sym("a", -32, 32, -4);
#ifdef NORMALS
  static const double SL[] = { 0, 1, -0.5, 2 }; double b = SL[pick("b", 4)]; double c = SL[pick("c", 4)]; a = sx_concretize(sx_range("level", -1, 1)) * 1.5;
#else
  double b = sym("b", -32, 32, -4), c = sym("c", -32, 32, -4);
#endif
  static const float XY[][2] = { { 0, 0 }, { 0.5f, 0 }, { 0, 0.5f }, { 0.5f, 0.25f }, { 0.25f, 0.5f } }; static const float D[] = { 0.5f, 1 }; int n = 3 + pick("count", 3); SP p; double W = 0, Z = 0; for (int i = 0; i < n; i++) { float d = D[pick("dev", 2)]; double z = a + b * XY[i][0] + c * XY[i][1]; SP q(Eigen::Vector3f(XY[i][0], XY[i][1], z), d); q.setColor(base::Vector3d(0, 0, 0)); W += 1 / (d * d); Z += z / (d * d); if (i == 0) p = q; else { bool r = p.merge(q, 0, 8, MLSConfiguration::SLOPE); if (!r) { sx_reach("apart"); return; } } }
  sx_assert(p.n == n && sx_is(p.getWeight(), W), "measurements are counted"); if (n > 3) { sx_assert(sx_is(p.mean, a), "a patch has the height of its plane"); int ok = 1; for (int i = 0; i < 5; i++) ok &= sx_near(p.getHeight(Eigen::Vector2f(XY[i][0], XY[i][1])), a + b * XY[i][0] + c * XY[i][1], 1e-3); sx_assert(ok, "a patch has the height of its plane at every position");
#ifdef NORMALS
    Eigen::Vector3f v = p.getNormal(); ok = sx_near(v.x(), -b * v.z(), 1e-3); ok &= sx_near(v.y(), -c * v.z(), 1e-3); ok &= v.z() > 0; sx_assert(ok, "a patch has the normal of its plane"); sx_assert(sx_near(cos(p.getSlope()), v.z(), 1e-3), "a patch has the slope of its plane");
#endif
    sx_reach("plane"); } else { sx_assert(sx_is(p.mean * W, Z), "few measurements have their mean"); sx_reach("few"); }
}
// distances and vertical extents
extern "C" void distances() { SP p = any("p", pick("tp", 2) ? SP::VERTICAL : SP::HORIZONTAL); SP o = any("o", p.isHorizontal() && pick("to", 2) ? SP::VERTICAL : SP::HORIZONTAL); double pb = p.mean - p.height, ob = o.mean - o.height; double d = 0; if (pb > o.mean) d = pb - o.mean; if (ob > p.mean) d = ob - p.mean; sx_assert(sx_is(p.distance(o), d) & sx_is(o.distance(p), d), "the distance is that between the patches"); double s = sym("sigma", 0, 64, -4); sx_assert(sx_near(p.getMaxZ(s), p.mean + s * p.stdev, 1e-5) & sx_near(p.getMinZ(s), pb - s * p.stdev, 1e-5), "the extents are those of the patch and its deviation"); sx_assert((p < o) == (p.mean < o.mean), "patches are ordered by their top"); float f = sym("factor", 1, 64, -4); SP q = p; q.scaleWeight(f); int ok = sx_is(q.getWeight(), p.getWeight() * f); ok &= q.mean == p.mean; ok &= q.stdev == p.stdev; ok &= sx_near(q.plane.z, p.plane.z * f, 1e-1); sx_assert(ok, "scaling the weight leaves the surface"); sx_reach("end"); }
// colours
extern "C" void colors() { int v[3], w[3]; SP p(0, 1), o(0, 1); for (int i = 0; i < 3; i++) { v[i] = sx_concretize(sx_range("v", 0, 255) * (i == 0)); w[i] = i == 0 ? v[i] : 200 * i / 2; p.color[i] = v[i]; o.color[i] = w[i]; } SP q(0, 1); q.setColor(p.getColor()); int ok = 1; for (int i = 0; i < 3; i++) ok &= q.color[i] == v[i]; sx_assert(ok, "a colour is kept"); p.merge(o, 1, 1, MLSConfiguration::KALMAN); ok = p.color[0] == v[0]; for (int i = 1; i < 3; i++) { ok &= p.color[i] >= (v[i] + w[i]) / 2 - 1; ok &= p.color[i] <= (v[i] + w[i]) / 2 + 1; } sx_assert(ok, "the colour of a merged patch is between those of its parts"); sx_reach("end"); }
