// Elevation grids: heights and normals between the cells.
#include "core_model.h"
#include <envire/maps/ElevationGrid.hpp>
#include <math.h>
static double center(int i, double sc, double o) { return o + (i + 0.5) * sc; }
// a plane is answered exactly, everywhere
extern "C" void plane() {
  int w = pick("w", 3) + 1, h = pick("h", 3) + 1; double sx = 0.5, sy = 2, ox = -1, oy = 3; ElevationGrid::Ptr g(new ElevationGrid(w, h, sx, sy, ox, oy)); double a = sx_dyadic("a", -8, 8, -2), b = sx_dyadic("b", -8, 8, -2), c = sx_dyadic("c", -8, 8, -2); if (w == 1) b = 0; if (h == 1) c = 0; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) g->getGridData(ElevationGrid::ELEVATION)[y][x] = a + b * center(x, sx, ox) + c * center(y, sy, oy);
  const ElevationGrid& q = *g; int m = pick("m", w); int n = pick("n", h); double fx = sx_dyadic("fx", 0, 15, -4); double fy = sx_dyadic("fy", 0, 15, -4); double px = ox + (m + fx) * sx, py = oy + (n + fy) * sy; double e = q.getElevation(GridBase::Point2D(px, py)); sx_assert(sx_near(e, a + b * px + c * py, 1e-6), "the height of a plane is that of the plane"); Eigen::Vector3d v = q.getNormal(GridBase::Position(m, n)), u = q.getNormal(GridBase::Point2D(px, py)); int ok = 1; ok &= sx_near(v.x(), -b * v.z(), 1e-6); ok &= sx_near(v.y(), -c * v.z(), 1e-6); ok &= v.z() > 0; ok &= sx_near(v.squaredNorm(), 1, 1e-6); sx_assert(ok, "the normal of a plane is that of the plane"); ok = 1; for (int i = 0; i < 3; i++) ok &= v[i] == u[i]; sx_assert(ok, "a point has the normal of its cell"); sx_reach("end");
}
// any values
extern "C" void surface() {
  int w = pick("w", 3) + 1, h = pick("h", 3) + 1; double sx = 0.5, sy = 2; ElevationGrid::Ptr g(new ElevationGrid(w, h, sx, sy)); double v[3][3]; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) g->getGridData(ElevationGrid::ELEVATION)[y][x] = v[y][x] = sx_dyadic("v", -8, 8, -2); const ElevationGrid& q = *g; int m = pick("m", w); int n = pick("n", h); GridBase::Position p(m, n); sx_assert(q.get(p) == v[n][m] && g->get(p) == v[n][m] && q.get((m + 0.5) * sx, (n + 0.5) * sy) == v[n][m] && g->get((m + 0.5) * sx, (n + 0.5) * sy) == v[n][m], "a cell has its height"); sx_assert(sx_near(q.getElevation(GridBase::Point2D((m + 0.5) * sx, (n + 0.5) * sy)), v[n][m], 1e-9), "the height at the centre of a cell is that of the cell"); Eigen::Vector3d r = q.getNormal(p); int ok = 1; if (m > 0 && m < w - 1) ok &= sx_near(r.x() * 2 * sx, (v[n][m - 1] - v[n][m + 1]) * r.z(), 1e-6); if (n > 0 && n < h - 1) ok &= sx_near(r.y() * 2 * sy, (v[n - 1][m] - v[n + 1][m]) * r.z(), 1e-6); ok &= sx_near(r.squaredNorm(), 1, 1e-6); ok &= r.z() > 0; sx_assert(ok, "the normal follows the neighbouring heights");
  double k = sx_dyadic("k", -8, 8, -2); g->get(p) = k; sx_assert(q.get(p) == k && q.getFromRaster(ElevationGrid::ELEVATION, m, n) == k, "a cell holds what was put there last"); for (int e = 0; e < 4; e++) { bool th = false; GridBase::Point2D o(e == 0 ? -0.01 : e == 1 ? w * sx : 0.1, e == 2 ? -0.01 : e == 3 ? h * sy : 0.1); try { q.getElevation(o); } catch (std::runtime_error&) { th = true; } sx_assert(th, "a point outside is refused"); th = false; try { q.getNormal(o); } catch (std::runtime_error&) { th = true; } sx_assert(th, "a point outside is refused"); } sx_reach("end");
}
