// Precomputed distance tables: what a lookup answers against the geometric definition, for any query.
#include <cmath>
#include <stdexcept>
#include <vector>
#include <envire/tools/BoxLookUpTable.hpp>
#include <envire/tools/RadialLookUpTable.hpp>
#include "sx.h"
using namespace envire;
struct Par { double scale, sx, sy, md; };
static const Par PARS[] = { {1, 2, 4, 2}, {0.5, 1, 1.5, 1}, {1, 1, 1, 1.0625}, {0.5, 0.75, 2.25, 0.5}, {0.25, 0.5, 0.5, 0.375}, {2, 3, 1, 5}, {0.5, 1, 1.5, 0.5}, {0.5, 1, 1, 1}, {1, 2, 4, 0}, {0.5, 0, 0, 1}, {1, 1, 1, 3.03125}, {0.5, 2, 1, 1.765625} };
static const int NPAR = sizeof(PARS) / sizeof(PARS[0]);
static Par pick(const char* n, int hi) {
#ifdef SX_SHARD
  int lo = SX_SHARD * (hi + 1) / SX_SHARDS, h = (SX_SHARD + 1) * (hi + 1) / SX_SHARDS - 1; return PARS[sx_concretize(sx_range(n, lo, h))];
#else
  return PARS[sx_concretize(sx_range(n, 0, hi))];
#endif
}
static double ab(double x) { return x < 0 ? -x : x; }
// v is the distance of (x, y) to the box, at most `under` too small and `over` too large; stated without square roots
static bool within(double v, double x, double y, const Par& p, double under, double over) {
  double dx = ab(x) - p.sx / 2, dy = ab(y) - p.sy / 2; if (dx < 0) dx = 0; if (dy < 0) dy = 0;
  double lo = v - over, hi = v + under; double d2 = dx * dx + dy * dy;
  return (lo <= 0 || lo * lo <= d2) && d2 <= hi * hi;
}
static void query(const BoxLookUpTable& t, const Par& p, double covered) {
  double half = (p.sx > p.sy ? p.sx : p.sy) / 2; int R = (int)std::ceil((half + p.md + 3 * p.scale) * 64);
  double x = sx_dyadic("x", -R, R, -6), y = sx_dyadic("y", -R, R, -6);
  double ex = p.sx / 2, ey = p.sy / 2; double v = -1; bool thrown = false;
  try { v = sx_concretize_d(t.getDistanceToBox(x, y)); } catch (std::runtime_error&) { thrown = true; }
  if (ab(x) > ex + covered + p.scale || ab(y) > ey + covered + p.scale) { sx_reach("outside"); sx_assert(thrown, "a point beyond the table is rejected"); return; }
  if (ab(x) < ex + p.md && ab(y) < ey + p.md) { sx_reach("inside"); sx_assert(!thrown, "every point within the maximum distance is answered"); if (thrown) return;
    sx_assert(v >= 0, "distances are not negative");
    sx_assert(within(v, x, y, p, p.scale * 0.25, p.scale * 1.5), "the answer is the distance to the box up to the cell size"); return; }
  sx_reach("border");
}
extern "C" void box() { BoxLookUpTable t; Par p = pick("par", NPAR - 1); t.recompute(p.scale, p.sx, p.sy, p.md); query(t, p, p.md); }
// parameters may change any number of times; queries follow the last ones
extern "C" void box_again() { BoxLookUpTable t; Par p = pick("par", NPAR - 1); t.recompute(p.scale, p.sx, p.sy, p.md); Par q = PARS[sx_concretize(sx_range("par2", 0, NPAR - 1))]; t.recompute(q.scale, q.sx, q.sy, q.md); query(t, q, p.scale == q.scale && p.sx == q.sx && p.sy == q.sy && p.md > q.md ? p.md : q.md); }
extern "C" void box_empty() { BoxLookUpTable t; double x = sx_dyadic("x", -1000, 1000, -3), y = sx_dyadic("y", -1000, 1000, -3); bool thrown = false; try { t.getDistanceToBox(x, y); } catch (std::runtime_error&) { thrown = true; } sx_assert(thrown, "a table that was never computed refuses to answer"); sx_reach("end"); }
// radial table
struct RPar { double scale, r; };
static const RPar RP[] = { {1, 3}, {0.5, 1.25}, {0.1, 0.5}, {0.25, 1}, {2, 5}, {0.3, 1.0}, {1, 1}, {0.5, 3}, {1, 1.5} }; static const int NR = sizeof(RP) / sizeof(RP[0]);
static void rquery(RadialLookUpTable& t, const RPar& p) {
  int half = (int)(p.r / p.scale), n = (int)(p.r / p.scale * 2); if (n == 0) sx_kill();
  int x = (int)sx_range("x", -half, n - half - 1), y = (int)sx_range("y", -half, n - half - 1);
  double d = t.getDistance(x, y), a = t.getAngle(x, y); sx_reach("end");
  for (int i = -half; i < n - half; i++) for (int j = -half; j < n - half; j++) {
    double ed = std::sqrt((i * p.scale) * (i * p.scale) + (j * p.scale) * (j * p.scale)), ea = std::atan2(j * p.scale, i * p.scale);
    sx_assert(x != i || y != j || (d >= ed - 1e-9 && d <= ed + 1e-9), "distance is the distance of the cell from the centre"); sx_assert(x != i || y != j || (a >= ea - 1e-9 && a <= ea + 1e-9), "angle is the direction of the cell from the centre"); }
}
extern "C" void radial() { RadialLookUpTable t; RPar p = RP[sx_concretize(sx_range("par", 0, NR - 1))]; t.recompute(p.scale, p.r); rquery(t, p); }
extern "C" void radial_again() { RadialLookUpTable t; RPar p = RP[sx_concretize(sx_range("par", 0, NR - 1))], q = RP[sx_concretize(sx_range("par2", 0, NR - 1))]; t.recompute(p.scale, p.r); t.recompute(q.scale, q.r); rquery(t, q); }
extern "C" void radial_thrice() { RadialLookUpTable t; for (int i = 0; i < 2; i++) { RPar p = RP[sx_concretize(sx_range("par", 0, NR - 1))]; t.recompute(p.scale, p.r); } RPar q = RP[sx_concretize(sx_range("last", 0, NR - 1))]; t.recompute(q.scale, q.r); rquery(t, q); }
