// Operators between surface grids, grids and point clouds.
#include "frames.h"
#include <envire/maps/MLSMap.hpp>
#include <envire/maps/Pointcloud.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <envire/operators/MergeMLS.hpp>
#include <envire/operators/MLSToGrid.hpp>
#include <envire/operators/GridFloatToMLS.hpp>
#include <envire/operators/MLSToPointCloud.hpp>
#include <envire/operators/MLSSlope.hpp>
#include <limits>
typedef SurfacePatch SP; typedef std::vector<SP> Cell;
static SP patch(float m, float d = 0.25f) { SP p(m, d); p.setColor(base::Vector3d(0, 0, 0)); return p; }
static Cell cell(const MLSGrid& g, int x, int y) { Cell c; for (MLSGrid::const_iterator i = g.beginCell(x, y); i != g.endCell(); i++) c.push_back(*i); return c; }
struct Put { int x, y; float z; };
// ---- merging grids by an operator: two source grids (or a map of them) in frames of their own
#ifndef TURNS
#define TURNS 3
#endif
static void merge(bool reverse, bool map) {
  Environment env; Fr fo, fi[2]; { double ox = num("ox", -3, 3, -3); double oy = num("oy", -3, 3, -3); double oz = num("oz", -4, 4, -1); fo.t = V3(ox, oy, oz); } FrameNode* no = new FrameNode(fo.tf()); env.addChild(env.getRootNode(), no);
  MLSGrid* out = new MLSGrid(2, 2, 0.5, 0.5, -0.5, -0.5); env.attachItem(out, no); MLSConfiguration::update_model u = !map && pick("sum", 2) ? MLSConfiguration::SUM : MLSConfiguration::KALMAN; out->getConfig().updateModel = u;
  int n = map ? 2 : 1; MLSGrid* in[2]; MLSMap* m = 0; if (map) { m = new MLSMap(); env.attachItem(m, env.getRootNode()); }
  std::vector<Put> puts[2]; for (int i = 0; i < n; i++) { fi[i] = frame(TURNS, map ? 1 : 3, map ? -2 : -3); FrameNode* ni = new FrameNode(fi[i].tf()); bool below = map ? i : pick("below", 2); env.addChild(below ? no : env.getRootNode(), ni); if (below) { Fr b = fi[i]; fi[i].R = b.R; fi[i].t = b.t + fo.t; } in[i] = new MLSGrid(2, 1, 0.5, 0.75, -0.5, -0.25); in[i]->getConfig().updateModel = u; env.attachItem(in[i], ni);
    for (int x = 0; x < 2; x++) for (int k = 0; k < (map ? 1 : 2); k++) { Put p; p.x = x; p.y = 0; p.z = num("z", -4, 4, -1) + 16 * (2 * i + k) + 64 * x; puts[i].push_back(p); in[i]->insertTail(x, 0, patch(p.z)); } if (map) m->addGrid(MLSGrid::Ptr(in[i])); }
  MergeMLS* op = new MergeMLS(); op->setReverse(reverse); env.attachItem(op); if (map) env.addInput(op, m); else env.addInput(op, in[0]); env.addOutput(op, out); sx_assert(op->updateAll(), "merging succeeds");
  // which source belongs to which cell: the centre of the source cell falls into it, or its centre falls into the source cell
  int total = 0, want = 0; for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) { Cell c = cell(*out, x, y); total += c.size(); for (int i = 0; i < n; i++) for (auto& p : puts[i]) {
    int in1, in2 = 1; double h; if (!reverse) { V3 q = fo.in(fi[i].out(V3(-0.25 + 0.5 * p.x, 0.125, p.z))); double a = (q[0] + 0.5) * 2 - x, b = (q[1] + 0.5) * 2 - y; in1 = a > 1e-4; in1 &= a < 1 - 1e-4; in1 &= b > 1e-4; in1 &= b < 1 - 1e-4; in2 = a > -1e-4; in2 &= a < 1 + 1e-4; in2 &= b > -1e-4; in2 &= b < 1 + 1e-4; }
    else { V3 q = fi[i].in(fo.out(V3(-0.25 + 0.5 * x, -0.25 + 0.5 * y, 0))); double a = (q[0] + 0.5) * 2 - p.x, b = (q[1] + 0.25) / 0.75; in1 = a > 1e-4; in1 &= a < 1 - 1e-4; in1 &= b > 1e-4; in1 &= b < 1 - 1e-4; in2 = a > -1e-4; in2 &= a < 1 + 1e-4; in2 &= b > -1e-4; in2 &= b < 1 + 1e-4; }
    h = fi[i].t[2] + p.z - fo.t[2]; int there = 0, whole = 1; for (auto& s : c) { int e = sx_near(s.mean, h, 1e-3); there |= e; if (u == MLSConfiguration::SUM) { SP t = s; t.updateSum(); int w = sx_near(t.mean, h, 1e-3); w &= sx_near(t.min, h, 1e-3); w &= sx_near(t.max, h, 1e-3); whole &= w | !e; } }
    sx_assert(there ? in2 : !in1, "a patch is put into the cell of its place at its height"); sx_assert(whole, "the evidence of a patch moves with it"); want += there; } }
  sx_assert(total == want && (int)out->getCellCount() == total, "nothing but the sources is put into the output"); for (int i = 0; i < n; i++) { int ok = 1; size_t k = 0; for (int x = 0; x < 2; x++) for (auto& s : cell(*in[i], x, 0)) { ok &= k < puts[i].size() && s.mean == puts[i][k].z; k++; } sx_assert(ok && k == puts[i].size(), "the sources are not changed"); } sx_reach("end");
}
extern "C" void merge_forward() { merge(false, false); }
extern "C" void merge_reverse() { merge(true, false); }
extern "C" void merge_map() { bool r = pick("reverse", 2); merge(r, true); }
// ---- the topmost surface as a grid
extern "C" void to_grid() {
  Environment env; MLSGrid* a = new MLSGrid(2, 2, 0.5, 0.5); ElevationGrid* g = new ElevationGrid(2, 2, 0.5, 0.5); env.attachItem(a, env.getRootNode()); env.attachItem(g, env.getRootNode()); double top[2][2], old[2][2]; int n[2][2]; boost::multi_array<double, 2>& d = g->getGridData("other");
  for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) { old[x][y] = d[y][x] = num("old", -4, 4, 0); n[x][y] = x && y ? 1 : pick("n", 3); for (int i = 0; i < n[x][y]; i++) { float z = num("z", -8, 8, -2); if (!i || z > top[x][y]) top[x][y] = z; a->insertTail(x, y, patch(z)); } }
  MLSToGrid* op = new MLSToGrid(); env.attachItem(op); env.addInput(op, a); op->setOutput(g, "other"); sx_assert(op->updateAll(), "conversion succeeds"); int ok = 1, kept = 1; boost::multi_array<double, 2>& e = g->getGridData("other"); for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) if (n[x][y]) ok &= e[y][x] == top[x][y]; else kept &= e[y][x] == old[x][y]; sx_assert(ok, "the height of a cell is that of its topmost patch"); sx_assert(kept, "a cell without patches is not changed"); sx_reach("end");
}
extern "C" void refused() {
  Environment env; int w = 2 + pick("w", 2); int h = 2 + pick("h", 2); double sx = pick("sx", 2) ? 0.5 : 0.25, sy = pick("sy", 2) ? 0.5 : 0.25; MLSGrid* a = new MLSGrid(2, 2, 0.5, 0.5); env.attachItem(a, env.getRootNode()); a->insertHead(0, 0, patch(1)); bool fits = w == 2 && h == 2 && sx == 0.5 && sy == 0.5, thrown = false; bool slope = pick("slope", 2);
  if (slope) { Grid<float>* g = new Grid<float>(w, h, sx, sy); env.attachItem(g, env.getRootNode()); MLSSlope* op = new MLSSlope(); env.attachItem(op); op->setInput(a); op->setOutput(g); try { op->updateAll(); } catch (const std::runtime_error&) { thrown = true; } }
  else { ElevationGrid* g = new ElevationGrid(w, h, sx, sy); env.attachItem(g, env.getRootNode()); MLSToGrid* op = new MLSToGrid(); env.attachItem(op); op->setInput(a); op->setOutput(g, "elevation"); try { op->updateAll(); } catch (const std::runtime_error&) { thrown = true; } }
  sx_assert(thrown == !fits, "an output is refused exactly when its cells are not those of the input"); sx_reach(fits ? "fits" : "refused");
}
// ---- heights of a grid as patches
template <class T> static void fill() {
  Environment env; Fr fg = frame(TURNS, 3, -3), fm; { double ox = num("ox", -2, 2, -3); double oz = num("oz", -4, 4, -1); fm.t = V3(ox, 0, oz); } FrameNode* ng = new FrameNode(fg.tf()); FrameNode* nm = new FrameNode(fm.tf()); env.addChild(env.getRootNode(), ng); env.addChild(env.getRootNode(), nm);
  Grid<T>* g = new Grid<T>(2, 1, 0.5, 0.75, -0.5, -0.25); env.attachItem(g, ng); bool named = pick("named", 2); boost::multi_array<T, 2>& d = named ? g->getGridData("heights") : g->getGridData(); if (named) { boost::multi_array<T, 2>& o = g->getGridData("more"); o[0][0] = 7; o[0][1] = 7; } T z[2]; for (int x = 0; x < 2; x++) z[x] = d[0][x] = num("z", -8, 8, -1);
  MLSGrid* m = new MLSGrid(2, 2, 0.5, 0.5, -0.5, -0.5); env.attachItem(m, nm); GridFloatToMLS* op = new GridFloatToMLS(); env.attachItem(op); op->setInput(static_cast<GridBase*>(g), named ? "heights" : ""); op->setOutput(m); sx_assert(op->updateAll(), "conversion succeeds");
  for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) { Cell c = cell(*m, x, y); sx_assert(c.size() <= 1, "a cell gets at most one patch"); V3 q = fg.in(fm.out(V3(-0.25 + 0.5 * x, -0.25 + 0.5 * y, 0))); int some = 0, must = 0; for (int k = 0; k < 2; k++) { double a = (q[0] + 0.5) * 2 - k, b = (q[1] + 0.25) / 0.75; int in1 = a > 1e-4; in1 &= a < 1 - 1e-4; in1 &= b > 1e-4; in1 &= b < 1 - 1e-4; must |= in1; int in2 = a > -1e-4; in2 &= a < 1 + 1e-4; in2 &= b > -1e-4; in2 &= b < 1 + 1e-4; if (c.size()) { in2 &= sx_near(c[0].mean, z[k] + fg.t[2] - fm.t[2], 1e-4); some |= in2; } } sx_assert(c.size() ? some : !must, "a cell gets the height of the grid at its centre"); }
  sx_reach("end");
}
extern "C" void fill_float() { fill<float>(); }
extern "C" void fill_double() { fill<double>(); }
// ---- patches as points
extern "C" void to_cloud() {
  Environment env; Fr fm = frame(TURNS, 3, -1), fc; { double ox = num("ox", -2, 2, 0); double oz = num("oz", -4, 4, -1); fc.t = V3(ox, 0, oz); } FrameNode* nm = new FrameNode(fm.tf()); FrameNode* nc = new FrameNode(fc.tf()); env.addChild(env.getRootNode(), nm); env.addChild(env.getRootNode(), nc); MLSGrid* m = new MLSGrid(2, 1, 0.5, 0.75, -0.5, -0.25); env.attachItem(m, nm); Pointcloud* pc = new Pointcloud(); env.attachItem(pc, nc); pc->vertices.push_back(V3(9, 9, 9));
  struct E { int x, k; double lo, hi; }; std::vector<E> es; for (int x = 0; x < 2; x++) { int n = pick("n", 3 - x); for (int i = 0; i < n; i++) { E e; e.x = x; e.k = pick("kind", 3); double z = num("z", -8, 8, -1); double h = (1 + pick("h", 2)) * 0.5; e.hi = z; e.lo = e.k == 1 ? z - h : z; SP p = e.k == 0 ? patch(z) : SP(z, 0.25f, h, e.k == 1 ? SP::VERTICAL : SP::NEGATIVE); m->insertTail(x, 0, p); es.push_back(e); } }
  MLSToPointCloud* op = new MLSToPointCloud(); env.attachItem(op); op->setInput(m); op->setOutput(pc); sx_assert(op->updateAll(), "conversion succeeds"); size_t at0 = 0; int ok = 1; for (auto& e : es) if (e.k != 2) { V3 b = fc.in(fm.out(V3(-0.25 + 0.5 * e.x, 0.125, 0))); double last = e.lo; int k = 0; while (at0 < pc->vertices.size() && k < 3) { V3 p = pc->vertices[at0]; double z = last + (k ? 0.625 : 0); if (e.k == 0 ? k == 1 : z > e.hi + 1e-6) break; int o = sx_is(p[0], b[0]); o &= sx_is(p[1], b[1]); o &= sx_near(p[2], b[2] + z, 1e-4); ok &= o; last = z; k++; at0++; } sx_assert(k > 0, "each patch is covered by points"); }
  sx_assert(ok, "points are those of the patches in the frame of the points"); sx_assert(at0 == pc->vertices.size(), "there are no other points"); sx_reach("end");
}
// ---- slopes and steps
#ifndef SW
#define SW 4
#endif
#ifndef SH
#define SH 3
#endif
#ifndef HOLES
#define HOLES 2
#endif
#ifndef TWO
#define TWO 0

#endif
static float unknown() { return -std::numeric_limits<float>::infinity(); }
extern "C" void slope_plane() { // exact angle on planes, the border is unknown
  static const double S[] = { 0, 0.75, -0.5, 2 }; Environment env; double a = S[pick("a", 4)]; double b = S[pick("b", 4)]; double c = num("c", -8, 8, 0); MLSGrid* m = new MLSGrid(SW, SH, 0.5, 0.25); env.attachItem(m, env.getRootNode()); Grid<float>* g = new Grid<float>(SW, SH, 0.5, 0.25); env.attachItem(g, env.getRootNode()); int hole = pick("hole", 9); int hx = hole % 3, hy = hole / 3; for (int x = 0; x < SW; x++) for (int y = 0; y < SH; y++) if (hole == 4 || x != hx || y != hy) m->insertHead(x, y, patch(a * 0.5 * x + b * 0.25 * y + c));
  MLSSlope* op = pick("plain", 2) ? new MLSSlope() : new MLSSlope(0.25, false); env.attachItem(op); op->setInput(m); op->setOutput(g); sx_assert(op->updateAll(), "slopes are computed"); boost::multi_array<float, 2>& s = g->getGridData("mean_slope"); double t = acos(1 / sqrt(a * a + b * b + 1)); int ok = 1, un = 1; for (int x = 0; x < SW; x++) for (int y = 0; y < SH; y++) if (x == 0 || y == 0 || x == SW - 1 || y == SH - 1 || (hole != 4 && x == hx && y == hy)) un &= s[y][x] == unknown(); else ok &= sx_near(s[y][x], t, 1e-4); sx_assert(ok, "the slope of a plane is its angle"); sx_assert(un, "borders and cells without patch have no slope"); sx_reach("end");
}
extern "C" void steps() { // the highest step to a neighbour, when enough of them are known
  Environment env; MLSGrid* m = new MLSGrid(SW, SH, 0.5, 0.5); env.attachItem(m, env.getRootNode()); Grid<float>* g = new Grid<float>(SW, SH, 0.5, 0.5); env.attachItem(g, env.getRootNode()); bool dev = pick("stddev", 2); double z[SW][SH]; bool hasp[SW][SH]; int holes = pick("hole", HOLES); int h2 = 2 * pick("hole2", 2); int fx = pick("free", 9); for (int x = 0; x < SW; x++) for (int y = 0; y < SH; y++) { int i = y * SW + x, j = y * 3 + x; hasp[x][y] = !(holes && i == holes * 2) && !(h2 && i == h2 * 5 - 2) && !(h2 == 2 && (i == 4 || i == 2 || i == 10)); z[x][y] = 0.25 * ((x * 5 + y * 3) % 4); if (TWO && x == 1 && y == 1) z[x][y] = (float)num("c", -4, 4, 0); else if (x < 3 && j == fx) z[x][y] = (float)num("z", -4, 4, 0); if (hasp[x][y]) m->insertHead(x, y, patch(z[x][y])); }
  MLSSlope* op = new MLSSlope(0, dev); env.attachItem(op); op->setInput(m); op->setOutput(g); op->updateAll(); boost::multi_array<float, 2>& s = g->getGridData("max_step"); for (int x = 1; x < SW - 1; x++) for (int y = 1; y < SH - 1; y++) { int n = 0; double best = 0; if (hasp[x][y]) for (int i = -1; i < 2; i++) for (int j = -1; j < 2; j++) if ((i || j) && hasp[x + i][y + j]) { n++; double e = z[x][y] - z[x + i][y + j]; e = e < 0 ? -e : e; if (dev) e += 0.5; best = e > best ? e : best; } if (n < 5) sx_assert(s[y][x] == unknown(), "a cell with few known neighbours has no step"); else sx_assert(sx_near(s[y][x], best, 1e-4), "the step of a cell is the highest to its neighbours"); sx_reach(n < 5 ? "few" : "known"); }
}
