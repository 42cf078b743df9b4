// Regular grids: conversions between cells and coordinates, lines and rectangles of cells.
#include "core_model.h"
#include <envire/maps/GridBase.hpp>
#include <envire/tools/BresenhamLine.hpp>
#include <math.h>
#include <string.h>
#include <boost/bind.hpp>
static const double SC[] = { 1.0, 0.5, 2.0, 0.25, 0.1, 0.3 };
static const int CELLS[] = { 1, 2, 3, 5 };
#ifndef NH
#define NH 2
#endif
#ifndef NSC
#define NSC 3
#endif
struct G : public GridBase { G(size_t w, size_t h, double sx, double sy, double ox, double oy) : GridBase(w, h, sx, sy, ox, oy, Environment::ITEM_NOT_ATTACHED) {} using GridBase::toGridTimesX; const std::string& getClassName() const { return className; } EnvironmentItem* create(Serialization&) const { return 0; } G* clone() const { return 0; } void set(EnvironmentItem*) {} };
// every coordinate falls into the one cell that covers it, or into none
extern "C" void to_cell() {
  int w = CELLS[pick("w", 3)]; int h = CELLS[pick("h", NH)]; double sx = SC[pick("sx", NSC)]; double sy = SC[pick("sy", NH)]; double ox = sx_dyadic("ox", -8, 8, -3); double oy = sx_dyadic("oy", -2, 2, 0);
#ifdef ANY
  double x = sx_double("x"); double y = oy + 0.25; ox = pick("off", 2) ? -1.5 : 0;
#else
  double x = sx_dyadic("x", -64, 64, -4); double y = sx_dyadic("y", -12, 12, -2);
#endif
  G g(w, h, sx, sy, ox, oy); size_t a = 77, b = 78; double xm = -1, ym = -1; bool r = g.toGrid(x, y, a, b, xm, ym); int in = 1; in &= (x - ox) / sx >= 0; in &= (x - ox) / sx < w; in &= y - oy >= 0; in &= (y - oy) / sy < h;
  sx_assert(r == (bool)in, "a coordinate is inside when a cell covers it");
  if (r) { sx_assert(a < (size_t)w && b < (size_t)h && g.contains(GridBase::Position(a, b)), "the cell is one of the grid's"); int i = sx_concretize(a), j = sx_concretize(b); int ok = 1; 
#ifndef ANY
    ok &= x >= ox + i * sx; ok &= x < ox + (i + 1) * sx; ok &= y >= oy + j * sy; ok &= y < oy + (j + 1) * sy; sx_assert(ok, "the cell covers the coordinate"); ok = 1; ok &= xm == x - (ox + i * sx); ok &= ym == y - (oy + j * sy); sx_assert(ok, "the position within the cell is the distance from its corner");
#endif
    sx_reach("inside"); } else { sx_assert(a == 77 && b == 78, "a coordinate outside leaves the indices alone"); sx_reach("outside"); }
  size_t c = 77, d = 78; sx_assert(g.toGrid(x, y, c, d) == r && c == a && d == b, "all forms of the conversion agree"); c = 77, d = 78; sx_assert(g.toGrid(Eigen::Vector3d(x, y, 9), c, d) == r && c == a && d == b, "all forms of the conversion agree"); GridBase::Position p(77, 78); sx_assert(g.toGrid(GridBase::Point2D(x, y), p) == r && p.x == a && p.y == b, "all forms of the conversion agree");
}
// the centre of a cell belongs to it; sizes
extern "C" void from_cell() {
  int w = CELLS[pick("w", 4)]; int h = CELLS[pick("h", 4)]; double sx = SC[pick("sx", 6)]; double sy = SC[pick("sy", 2)]; double ox = sx_dyadic("ox", -64, 64, -3); double oy = sx_dyadic("oy", -64, 64, -3); int i = pick("i", w); int j = pick("j", h); G g(w, h, sx, sy, ox, oy);
  double x, y; g.fromGrid(i, j, x, y); sx_assert(sx_near(x, ox + (i + 0.5) * sx, 1e-9) & sx_near(y, oy + (j + 0.5) * sy, 1e-9), "a cell's coordinate is its centre"); size_t a = 99, b = 99; sx_assert(g.toGrid(x, y, a, b) && a == (size_t)i && b == (size_t)j, "the centre of a cell is in the cell");
  GridBase::Point2D q; g.fromGrid(GridBase::Position(i, j), q); int ok = 1; ok &= q.x() == x; ok &= q.y() == y; q = g.fromGrid(GridBase::Position(i, j)); ok &= q.x() == x; ok &= q.y() == y; Eigen::Vector3d v = g.fromGrid(i, j); ok &= v.x() == x; ok &= v.y() == y; ok &= v.z() == 0; sx_assert(ok, "all forms of the conversion agree");
  ok = g.getCellSizeX() == (size_t)w && g.getCellSizeY() == (size_t)h && g.getWidth() == (size_t)w && g.getHeight() == (size_t)h; ok &= g.getScaleX() == sx; ok &= g.getScaleY() == sy; ok &= g.getOffsetX() == ox; ok &= g.getOffsetY() == oy; ok &= sx_near(g.getSizeX(), w * sx, 1e-9); ok &= sx_near(g.getSizeY(), h * sy, 1e-9); ok &= sx_near(g.getCenterPoint().x(), ox + w * sx * 0.5, 1e-9); ok &= sx_near(g.getCenterPoint().y(), oy + h * sy * 0.5, 1e-9); sx_assert(ok, "the sizes are what was asked for");
  GridBase::Extents e = g.getExtents(); ok = 1; ok &= sx_near(e.min().x(), ox, 1e-9); ok &= sx_near(e.min().y(), oy, 1e-9); ok &= sx_near(e.max().x(), ox + w * sx, 1e-9); ok &= sx_near(e.max().y(), oy + h * sy, 1e-9); sx_assert(ok, "the extents are those of the cells"); sx_assert(!g.contains(GridBase::Position(w, j)) && !g.contains(GridBase::Position(i, h)) && !g.contains(GridBase::Position((size_t)-1, j)), "a cell past the end is not in the grid"); sx_reach("end");
}
// ---- frames
static Transform turned(int k) { Transform t = Transform::Identity(); static const int C[] = { 1, 0, -1, 0 }, S[] = { 0, 1, 0, -1 }; t.linear()(0, 0) = C[k]; t.linear()(0, 1) = -S[k]; t.linear()(1, 0) = S[k]; t.linear()(1, 1) = C[k]; return t; }
static Transform placed(const char* n, int k, int lo, int hi, int e) { Transform t = turned(k); std::string s(n); double x = sx_dyadic((s + "x").c_str(), lo, hi, e); double y = sx_dyadic((s + "y").c_str(), lo, hi, e); t.translation() = Eigen::Vector3d(x, y, 3); return t; }
// coordinates of another frame
extern "C" void framed() {
  Environment env; FrameNode* a = new FrameNode(placed("a", pick("turna", 4), -8, 8, -2)); FrameNode* b = new FrameNode(placed("b", pick("turnb", 2), -8, 8, -2)); env.addChild(env.getRootNode(), a); env.addChild(env.getRootNode(), b); G* g = new G(3, 2, 0.5, 1, -0.5, 0.25); env.attachItem(g, a); double px = sx_dyadic("px", -16, 16, -2), py = sx_dyadic("py", -16, 16, -2);
  FrameNode* in = pick("own", 2) ? a : b; Transform t = a->getTransform().inverse(Eigen::Isometry) * in->getTransform(); Eigen::Vector3d q = in == a ? Eigen::Vector3d(px, py, 1) : Eigen::Vector3d(t * Eigen::Vector3d(px, py, 1)); size_t x = 9, y = 9, u = 9, v = 9; bool r = g->toGrid(Eigen::Vector3d(px, py, 1), x, y, in); bool s = g->toGrid(q.x(), q.y(), u, v); sx_assert(r == s && x == u && y == v, "a point of another frame falls into the cell that covers it"); sx_reach(r ? "inside" : "outside");
  int i = pick("i", 3); int j = pick("j", 2); Eigen::Vector3d c = g->fromGrid(i, j, in); double cx, cy; g->fromGrid(i, j, cx, cy); Eigen::Vector3d w = t.inverse(Eigen::Isometry) * Eigen::Vector3d(cx, cy, 0); int ok = 1; for (int k = 0; k < 3; k++) ok &= sx_near(c[k], w[k], 1e-9); sx_assert(ok, "the centre of a cell in another frame");
}
// grids that cover the same cells
static G* two(Environment& env, const char* n, int w, int h, double s, double o, int k, int e) { std::string m(n); FrameNode* f = new FrameNode(placed(n, k, -5, 5, e)); env.addChild(env.getRootNode(), f); G* g = new G(w, h, s, s, o, 0); env.attachItem(g, f); return g; }
static double absd(double x) { return x < 0 ? -x : x; }
extern "C" void aligned() {
  Environment env; int e = -2 * pick("exp", 2); bool w = pick("w", 2); double s = SC[pick("scale", 2) * 4]; double s2 = pick("rescaled", 2) ? s * 2 : s; double o2 = pick("offset", 2) ? 1 : 0; int k = pick("turn", 3); G* a = two(env, "a", 4, 2, s, 0, 0, e); G* b = two(env, "b", w ? 4 : 3, 2, s2, o2, k, e);
  bool r = a->isAlignedWith(*b); bool r2 = b->isAlignedWith(*a); int far = !w || s2 != s, near = 1; Transform t = b->getFrameNode()->getTransform().inverse(Eigen::Isometry) * a->getFrameNode()->getTransform();
  for (int c = 0; c < 4; c++) { double x = (c & 1) * 4 * s, y = (c >> 1) * 2 * s; Eigen::Vector3d p = t * Eigen::Vector3d(x, y, 0); double dx = absd(p.x() - (x + o2)), dy = absd(p.y() - y); far |= dx > 0.5001 * s; far |= dy > 0.5001 * s; near &= dx < 0.4999 * s; near &= dy < 0.4999 * s; }
  if (far) { sx_assert(!r && !r2, "grids of other cells are not aligned"); sx_reach("apart"); } else if (near && o2 == 0) { sx_assert(r && r2, "grids less than half a cell apart are aligned"); sx_reach("aligned"); }
}
extern "C" void cell_aligned() {
  Environment env; double s = SC[pick("scale", 6)]; double s2 = pick("rescaled", 2) ? s * 2 : s; int n = pick("cells", 9) - 4; int m = pick("cellsy", 3) - 1; int k = pick("turn", 2); double part = pick("part", 2) ? 0 : sx_dyadic("part", 1, 15, -4); double o = pick("offset", 2) ? n * s : 0; G* a = new G(4, 2, s, s, 0, 0); G* b = new G(3, 3, s2, s2, o, 0); Transform t = turned(k); double tx = n * s; tx -= o; t.translation() = Eigen::Vector3d(tx + part * s, m * s, 1); FrameNode* f = new FrameNode(Transform(Eigen::Translation3d(0.7, 0.9, 0))); FrameNode* g = new FrameNode(t); env.addChild(env.getRootNode(), f); env.addChild(f, g); env.attachItem(a, f); env.attachItem(b, g);
  bool r = a->isCellAlignedWith(*b), r2 = b->isCellAlignedWith(*a); if (s2 != s || k || part > 0) { sx_assert(!r && !r2, "grids whose cells differ are not aligned"); sx_reach("apart"); } else { sx_assert(r && r2, "grids shifted by whole cells are aligned"); sx_reach("aligned"); }
}
// ---- lines
#ifndef REACH
#define REACH 6
#endif
static int ab(int x) { return x < 0 ? -x : x; }
extern "C" void line() {
  int x0 = sx_range("x0", -1000, 1000), y0 = sx_range("y0", -1000, 1000), dx = pick("dx", 2 * REACH + 1) - REACH, dy = pick("dy", 2 * REACH + 1) - REACH; int form = pick("form", 4); if (form == 3 || form == 1) sx_assume(x0 >= REACH && y0 >= REACH); int n = ab(dx) > ab(dy) ? ab(dx) : ab(dy); std::vector<GridBase::Position> v; Bresenham b(Eigen::Vector2i(3, 3), Eigen::Vector2i(4, 4)); if (form == 0) b = Bresenham(Eigen::Vector2i(x0, y0), Eigen::Vector2i(x0 + dx, y0 + dy)); else if (form == 1) b = Bresenham(GridBase::Position(x0, y0), GridBase::Position(x0 + dx, y0 + dy)); else if (form == 2) { Eigen::Vector2i q; while (b.getNextPoint(q)); b.init(x0, y0, x0 + dx, y0 + dy); } else lineBresenham(GridBase::Position(x0, y0), GridBase::Position(x0 + dx, y0 + dy), v);
  int px = x0, py = y0, i = 0; for (; i <= n + 1; i++) { Eigen::Vector2i p(-7, -7); bool more; if (form == 3) { more = i < (int)v.size(); if (more) p = Eigen::Vector2i(v[i].x, v[i].y); } else if (form == 1) { GridBase::Position q(0, 0); more = b.getNextPoint(q); p = Eigen::Vector2i(q.x, q.y); } else more = b.getNextPoint(p); if (!more) break; if (i == 0) sx_assert((p.x() == x0) & (p.y() == y0), "a line starts at its start"); else { int ex = p.x() - px, ey = p.y() - py; sx_assert((ex <= 1) & (ex >= -1) & (ey <= 1) & (ey >= -1) & ((ex != 0) | (ey != 0)), "a line has no gaps"); } long c = 2L * (dx * (long)(p.y() - y0) - dy * (long)(p.x() - x0)); sx_assert((c <= n) & (c >= -n), "a line stays within half a cell of the straight one"); px = p.x(); py = p.y(); }
  sx_assert(i == n + 1, "a line has no more cells than it needs"); sx_assert((px == x0 + dx) & (py == y0 + dy), "a line ends at its end"); sx_reach("end");
}
// ---- rectangles
enum { RN = 6 };
struct Seen { int in[RN][RN], out[RN][RN], wrong; Seen() : wrong(0) { memset(in, 0, sizeof in); memset(out, 0, sizeof out); } void inner(size_t x, size_t y) { if (x < RN && y < RN) in[y][x]++; else wrong++; } void outer(size_t x, size_t y) { if (x < RN && y < RN) out[y][x]++; else wrong++; } };
static const double ANG[] = { 0, M_PI / 4, 0.6435011087932844, M_PI / 2, 1.2, -0.3, M_PI, 2.4980915447965089, -2.0, 0.05, -0.04, 1.52 };
struct Rect { double cx, cy, c, s, hx, hy;
  static int within(double x, double l) { int r = 1; r &= x <= l; r &= x >= -l; return r; }
  // surely covers part of the cell / surely covers none of it
  void cell(int x, int y, double sc, int& yes, int& no) const { double m = 0.21 * sc; yes = 0; for (int k = 0; k < 5; k++) { double px = (x + (k == 4 ? 0.5 : (k & 1))) * sc - cx, py = (y + (k == 4 ? 0.5 : (k >> 1))) * sc - cy; double u = c * px + s * py, v = -s * px + c * py; yes |= within(u, hx - m) & within(v, hy - m); }
    double px = (x + 0.5) * sc - cx, py = (y + 0.5) * sc - cy, u = c * px + s * py, v = -s * px + c * py, r = 0.5 * sc * (absd(c) + absd(s)); no = !(within(u, hx + r + m) & within(v, hy + r + m) & within(px, absd(c) * hx + absd(s) * hy + 0.5 * sc + m) & within(py, absd(s) * hx + absd(c) * hy + 0.5 * sc + m)); }
  void inside(double size, int& r, int& q) const { r = 1, q = 0; for (int k = 0; k < 4; k++) { double a = k & 1 ? hx : -hx, b = k & 2 ? hy : -hy, x = cx + c * a - s * b, y = cy + s * a + c * b; r &= x > 1e-6; r &= x < size - 1e-6; r &= y > 1e-6; r &= y < size - 1e-6; q |= x < -1e-6; q |= x > size + 1e-6; q |= y < -1e-6; q |= y > size + 1e-6; } } };
static const double SIZES[][2] = { { 2, 1 }, { 1, 3 }, { 2.5, 2.5 }, { 0.5, 2 }, { 0, 0 } };
#ifndef NA
#define NA 5
#endif
#ifndef FIRSTANG
#define FIRSTANG 0
#endif
#ifndef FIRSTSIZE
#define FIRSTSIZE 0
#endif
#ifndef FINE
#define FINE 8
#endif
#ifndef NSZ
#define NSZ 2
#endif
static Rect rect(double sc, int si) { int a = FIRSTANG + pick("angle", NA); Rect r; r.c = cos(ANG[a]); r.s = sin(ANG[a]); r.hx = SIZES[si][0] * sc / 2; r.hy = SIZES[si][1] * sc / 2; double bx = pick("spot", 2) ? 3 : 1, by = 2.75; r.cx = (bx + sx_dyadic("cx", 0, FINE, -6)) * sc; r.cy = (by + sx_dyadic("cy", 0, FINE, -6)) * sc; r.c = r.c; return r; }
extern "C" void rectangle() {
  double sc = share("scale", 2) ? 0.5 : 1; int si = FIRSTSIZE + pick("size", NSZ); Rect r = rect(sc, si); G g(RN, RN, sc, sc, 0, 0); base::Pose2D pose; pose.position = Eigen::Vector2d(r.cx, r.cy); pose.orientation = atan2(r.s, r.c); Seen s; bool ok = g.forEachInRectangle(pose, 2 * r.hx, 2 * r.hy, boost::bind(&Seen::inner, &s, _1, _2)); int in, out; r.inside(RN * sc, in, out); sx_assert(ok ? !out : !in, "a rectangle is inside when its corners are"); sx_assert(!s.wrong, "only cells of the grid are visited"); int all = 1, only = 1;
  for (int y = 0; y < RN; y++) for (int x = 0; x < RN; x++) { int yes, no; r.cell(x, y, sc, yes, no); sx_assert(s.in[y][x] <= 1, "a cell is visited once"); if (!ok) sx_assert(!s.in[y][x], "a rectangle that is not inside visits nothing"); else if (s.in[y][x]) only &= !no; else all &= !yes; } sx_assert(all, "the cells of a rectangle are visited"); sx_assert(only, "no other cells are visited"); sx_reach(ok ? "inside" : "outside");
}
extern "C" void rectangles() {
  double sc = 1; int si = FIRSTSIZE + share("size", NSZ); Rect r = rect(sc, si); double w = pick("border", 2) ? 1 : 2; Rect o = r; o.hx += w / 2; o.hy += w / 2; G g(RN, RN, sc, sc, 0, 0); base::Pose2D pose; pose.position = Eigen::Vector2d(r.cx, r.cy); pose.orientation = atan2(r.s, r.c); Seen s; bool ok = g.forEachInRectangles(pose, 2 * r.hx, 2 * r.hy, boost::bind(&Seen::inner, &s, _1, _2), 2 * o.hx, 2 * o.hy, boost::bind(&Seen::outer, &s, _1, _2)); int in, out; o.inside(RN * sc, in, out); sx_assert(ok ? !out : !in, "a rectangle is inside when its corners are"); sx_assert(!s.wrong, "only cells of the grid are visited"); int all = 1, only = 1, border = 1;
  for (int y = 0; y < RN; y++) for (int x = 0; x < RN; x++) { int iy, ino, oy, ono; r.cell(x, y, sc, iy, ino); o.cell(x, y, sc, oy, ono); int a = s.in[y][x], b = s.out[y][x]; sx_assert(a + b <= 1, "a cell is visited once"); if (!ok) { sx_assert(!a && !b, "a rectangle that is not inside visits nothing"); continue; } if (a) only &= !ino; else all &= !iy; if (b) { only &= !ono; border &= !iy; } else if (!a) border &= !oy; } sx_assert(all, "the cells of the inner rectangle are visited"); sx_assert(border, "the cells of the border are visited"); sx_assert(only, "no other cells are visited"); sx_reach(ok ? "inside" : "outside");
}
