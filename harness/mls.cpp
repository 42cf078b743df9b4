// Multi-level surface grids: patches per cell, their bookkeeping, updates, lookups and transfer.
#include "core_model.h"
#include <envire/maps/MLSGrid.hpp>
#include <math.h>
#include <string.h>
typedef SurfacePatch SP; typedef GridBase::Position Pos; typedef std::vector<SP> Cell;
#ifndef W
#define W 2
#endif
#ifndef H
#define H 2
#endif
static int sx_is(double a, double b) { return sx_near(a, b, 1e-4); }
static float sym(const char* n, int lo, int hi, int e) { return sx_dyadic(n, lo, hi, e); }
static SP patch(float m, float d = 0.5f) { SP p(m, d); p.setColor(base::Vector3d(0, 0, 0)); return p; }
static Cell cell(const MLSGrid& g, int x, int y) { Cell c; for (MLSGrid::const_iterator i = g.beginCell(x, y); i != g.endCell(); i++) c.push_back(*i); return c; }
// ---- bookkeeping: the model is a list of marks per cell
struct Model { std::vector<float> c[W][H]; bool index; bool color; Model() : index(false), color(false) {} int count() const { int n = 0; for (int x = 0; x < W; x++) for (int y = 0; y < H; y++) n += c[x][y].size(); return n; } };
static void check(MLSGrid& g, const Model& m) {
  const MLSGrid& k = g; for (int x = 0; x < W; x++) for (int y = 0; y < H; y++) { Cell a = cell(k, x, y); sx_assert(a.size() == m.c[x][y].size(), "a cell has the patches put there"); int ok = 1; for (size_t i = 0; i < a.size() && i < m.c[x][y].size(); i++) ok &= a[i].mean == m.c[x][y][i]; sx_assert(ok, "a cell has the patches put there, in order"); size_t n = 0; for (MLSGrid::iterator i = g.beginCell(Pos(x, y)); i != g.endCell(); i++) n++; sx_assert(n == a.size(), "a cell has the patches put there"); if (a.size()) { GridBase::CellExtents e = k.getCellExtents(); sx_assert(e.contains(Eigen::Vector2i(x, y)), "the extents contain the cells in use"); if (k.getIndex()) sx_assert(k.getIndex()->cells.count(Pos(x, y)), "the index contains the cells in use"); } }
  sx_assert((int)k.getCellCount() == m.count() && k.empty() == (m.count() == 0), "the patches are counted"); if (m.index) sx_assert(k.getIndex() != 0, "a grid that has an index keeps it"); if (k.getIndex()) for (auto& p : k.getIndex()->cells) sx_assert(p.x < W && p.y < H, "the index contains cells of the grid"); boost::shared_ptr<MLSGrid::Index> gi(new MLSGrid::Index()); k.generateIndex(gi); size_t used = 0; for (int x = 0; x < W; x++) for (int y = 0; y < H; y++) if (m.c[x][y].size()) { used++; sx_assert(gi->cells.count(Pos(x, y)), "a generated index has exactly the cells in use"); } sx_assert(gi->cells.size() == used, "a generated index has exactly the cells in use"); }
static float serial = 0;
static void act(MLSGrid& g, Model& m, int ops) {
  switch (pick("op", ops)) {
    case 0: { int x = pick("x", W); int y = pick("y", H); serial += 1; m.c[x][y].insert(m.c[x][y].begin(), serial); g.insertHead(x, y, patch(serial)); sx_reach("head"); break; }
    case 1: { int x = pick("x", W); int y = pick("y", H); serial += 1; m.c[x][y].push_back(serial); g.insertTail(x, y, patch(serial)); break; }
    case 2: { int x = pick("x", W); int y = pick("y", H); if (!m.c[x][y].size()) sx_kill(); int n = pick("n", m.c[x][y].size()); MLSGrid::iterator i = g.beginCell(x, y); for (int k = 0; k < n; k++) i++; m.c[x][y].erase(m.c[x][y].begin() + n); MLSGrid::iterator r = g.erase(i); sx_assert((size_t)n == m.c[x][y].size() ? r == g.endCell() : r != g.endCell() && r->mean == m.c[x][y][n], "erasing answers the next patch"); sx_reach("erase"); break; }
    case 3: g.initIndex(); m.index = true; sx_reach("index"); break;
    case 4: { int dx = pick("dx", 3) - 1; int dy = pick("dy", 3) - 1; Model o = m; for (int x = 0; x < W; x++) for (int y = 0; y < H; y++) { int a = x - dx, b = y - dy; m.c[x][y].clear(); if (a >= 0 && a < W && b >= 0 && b < H) m.c[x][y] = o.c[a][b]; } g.move(dx, dy); sx_reach("move"); break; }
    case 5: { g.clear(); for (int x = 0; x < W; x++) for (int y = 0; y < H; y++) m.c[x][y].clear(); sx_reach("clear"); break; }
  }
}
extern "C" void histories() { MLSGrid::Ptr g(new MLSGrid(W, H, 1, 1)); Model m; serial = 0; for (int s = 0; s < STEPS; s++) act(*g, m, 6); check(*g, m); sx_reach("end"); }
// copies; the histories of both go on
extern "C" void copies() {
  MLSGrid::Ptr a(new MLSGrid(W, H, 1, 1)), b; Model ma, mb; serial = 0; act(*a, ma, 1); if (pick("index", 2)) { a->initIndex(); ma.index = true; } a->getConfig().updateModel = MLSConfiguration::SUM; a->getConfig().gapSize = 3; a->setHasCellColor(true); int how = share("how", 4); if (how == 0) b = a->clone(); else if (how == 1) { b = new MLSGrid(1, 3, 2, 2); b->insertHead(0, 2, patch(99)); if (pick("had", 2)) { b->initIndex(); mb.index = true; } *b = *a; } else if (how == 2) { b = new MLSGrid(W, H, 1, 1); act(*b, mb, 1); b->initIndex(); b->set(a.get()); } else { b = a->cloneShallow(); sx_assert(b->getCellSizeX() == W && b->getCellSizeY() == H && b->getScaleX() == 1 && b->getGapSize() == 3 && b->getHasCellColor(), "a shallow copy has the same shape"); check(*b, mb); sx_reach("shallow"); return; }
  mb = ma; mb.index |= ma.index; sx_assert(b->getGapSize() == 3 && b->getHasCellColor() && b->getConfig().updateModel == MLSConfiguration::SUM, "a copy has the same configuration"); check(*b, mb); if (pick("which", 2)) act(*a, ma, 6); else act(*b, mb, 6); check(*a, ma); check(*b, mb); sx_reach("end");
}
// ---- updates, in the model of means: nothing is lost, what is near becomes one
static int covers(const SP& p, double z) { double b = p.mean - p.height; int r = z <= p.mean + 1e-5; r &= z >= b - 1e-5; return r; }
static int at(double m, double z) { int r = z <= m + 1e-5; r &= z >= m - 1e-5; return r; }
#ifndef OLD
#define OLD 2
#endif
extern "C" void update() {
  MLSGrid::Ptr g(new MLSGrid(W, H, 1, 1)); g->setGapSize(1); g->setHorizontalPatchThickness(0.25); g->insertHead(1, 1, patch(7)); Cell before; int old = pick("old", OLD + 1); double low = 0, high = 0; for (int i = 0; i < old; i++) { SP p = patch(0, 0.25f); p.mean = sym("m", -64, 64, -2); if (pick("block", 2)) { p.setVertical(); p.height = sym("h", 1, 16, -2); } if (i) { const SP& q = before[0]; sx_assume((p.mean - p.height > q.mean + 1.5) | (p.mean + 1.5 < q.mean - q.height)); } g->insertTail(0, 1, p); before.push_back(p); } SP n = patch(0, 0.25f); n.mean = sym("m", -64, 64, -2); if (pick("block", 2)) { n.setVertical(); n.height = sym("h", 1, 16, -2); }
  switch (pick("how", 3)) { case 0: g->updateCell(0, 1, n); break; case 1: g->updateCell(Pos(0, 1), n); break; case 2: sx_assert(g->update(Eigen::Vector2d(0.25, 1.75), n), "an update inside the grid is taken"); break; }
  Cell after = cell(*g, 0, 1); double dev = sqrt(0.125); int anySure = 0, allSure = 1, anyNear = 0, allNear = 1; for (int i = 0; i < old; i++) { const SP& q = before[i]; int near = 1, close = 1; near &= q.mean - q.height - 1 - dev < n.mean + 1e-4; near &= q.mean + 1 + dev > n.mean - n.height - 1e-4; close &= q.mean - q.height - 1 - dev < n.mean - 1e-4; close &= q.mean + 1 + dev > n.mean - n.height + 1e-4; anyNear |= near; allNear &= near; anySure |= close; allSure &= close; int still = 0, out = 1; for (auto& a : after) { int s = a.mean == q.mean; s &= a.height == q.height; s &= a.isHorizontal() == q.isHorizontal(); s &= a.n == q.n; still |= s; } sx_assert(near | still, "a patch that is not near is left alone"); }
  int c = (int)before.size() + 1 - (int)after.size(); sx_assert(c == 0 ? !anySure : c == old ? allNear : (anyNear & !allSure), "the patches that are near become one"); sx_assert(g->getCellCount() == after.size() + 1 && cell(*g, 1, 1).size() == 1 && cell(*g, 0, 0).empty() && cell(*g, 1, 0).empty(), "an update changes its cell only");
  double total = 0; for (auto& a : after) total += a.n; if (c <= 1) sx_assert(total == old + 1, "measurements are counted"); bool surfaces = n.isHorizontal(); for (auto& q : before) surfaces &= q.isHorizontal(); bool block = false; for (auto& a : after) block |= !a.isHorizontal(); int lost = 0, made = 0; for (int i = 0; i <= old; i++) { const SP& q = i < old ? before[i] : n; int top = 0, bottom = 0; for (auto& a : after) { double eps = c > 1 ? 1.25 : a.isHorizontal() ? 0.62 : 0; int in = q.mean <= a.mean + eps + 1e-4; in &= q.mean >= a.mean - a.height - eps - 1e-4; top |= in; in = q.mean - q.height <= a.mean + eps + 1e-4; in &= q.mean - q.height >= a.mean - a.height - eps - 1e-4; bottom |= in; } lost |= !top | !bottom; } sx_assert(!lost, "what was there is still covered"); for (auto& a : after) if (!a.isHorizontal()) { int top = 0, bottom = 0; for (int i = 0; i <= old; i++) { const SP& q = i < old ? before[i] : n; top |= at(a.mean, q.mean); bottom |= at(a.mean - a.height, q.mean - q.height); } if (c <= 1) sx_assert(top & bottom, "a block ends where its parts do"); } sx_reach(c == 0 ? "new" : c == 1 ? "merged" : "joined");
}
extern "C" void update_outside() { MLSGrid::Ptr g(new MLSGrid(W, H, 0.5, 2, -1, 3)); g->getConfig().updateModel = pick("slope", 2) ? MLSConfiguration::SLOPE : MLSConfiguration::KALMAN; double x = sx_dyadic("x", -64, 64, -4), y = sx_dyadic("y", -64, 160, -4); float z = sym("z", -32, 32, -4); bool r = g->update(Eigen::Vector2d(x, y), patch(z)); int in = 1; in &= x >= -1; in &= x < -1 + W * 0.5; in &= y >= 3; in &= y < 3 + H * 2; sx_assert(r == (in != 0), "an update is taken inside of the grid"); if (!r) { sx_assert(g->empty(), "an update outside changes nothing"); sx_reach("outside"); return; } for (int i = 0; i < W; i++) for (int j = 0; j < H; j++) { int here = 1; here &= x >= -1 + i * 0.5; here &= x < -1 + (i + 1) * 0.5; here &= y >= 3 + j * 2; here &= y < 3 + (j + 1) * 2; Cell c = cell(*g, i, j); sx_assert((c.size() == 1) == (here != 0), "an update goes to the cell of its position"); if (c.size()) sx_assert(sx_is(c[0].mean, z), "an update goes to the cell of its position"); } double zp = z, zs = 0.5; SP* p = g->get(Eigen::Vector2d(x, y), zp, zs); sx_assert(p != 0, "what was put there is found"); if (p) { if (g->getConfig().updateModel == MLSConfiguration::KALMAN) sx_assert(sx_is(zp, z) & sx_is(zs, 0.5), "what was put there is found"); sx_reach("inside"); } }
// ---- lookups
extern "C" void lookup() {
  MLSGrid::Ptr g(new MLSGrid(W, H, 1, 1)); Cell c; int n = pick("n", 3); for (int i = 0; i < n; i++) { SP p = patch(sym("m", -64, 64, -2), 0.25f); int t = pick("type", 3); if (t) { p.height = sym("h", 1, 16, -2); if (t == 1) p.setVertical(); else p.setNegative(); } c.push_back(p); g->insertTail(1, 0, p); } g->insertHead(1, 1, patch(sym("m", -4, 4, 0))); double z = sx_dyadic("z", -64, 64, -2); bool neg = pick("negative", 2); double sigma = pick("sigma", 2) ? 3 : 1; double d = sqrt(0.125) * sigma; int any = 0, all = 0; SP* r = g->get(Pos(1, 0), z, 0.25, sigma, !neg); for (int i = 0; i < n; i++) { const SP& p = c[i]; double b = p.mean - p.height; int in = z < p.mean + d; in &= z > b - d; int sure = z < p.mean + d - 1e-4; sure &= z > b - d + 1e-4; in |= (z < p.mean + d + 1e-4) & (z > b - d - 1e-4); if (p.isNegative() && !neg) in = sure = 0; any |= in; all |= sure; } sx_assert(r ? any : !all, "a patch is found when one is near enough");
  if (r) { int is = 0; for (MLSGrid::iterator i = g->beginCell(1, 0); i != g->endCell(); i++) is |= &*i == r; double b = r->mean - r->height; is &= z < r->mean + d + 1e-4; is &= z > b - d - 1e-4; sx_assert(is, "the patch found is one that is near enough"); sx_assert(neg || !r->isNegative(), "negative patches are found on request only"); sx_reach("found"); } else sx_reach("missing"); double zp = z, zs = 0.25; SP* q = g->get(Eigen::Vector3d(1.5, 0.25, z), zp, zs); SP* q2 = g->get(Pos(1, 0), z, 0); sx_assert((q != 0) | (zp == z), "a lookup that fails leaves the position"); if (q) sx_assert((zp == q->mean) & (zs == q->stdev) & !q->isNegative(), "a lookup answers height and deviation of its patch"); zp = z; sx_assert(g->get(Eigen::Vector2d(-0.1, 0.2), zp, zs) == 0 && g->get(Eigen::Vector2d(0.5, 2), zp, zs) == 0 && zp == z, "nothing is found outside"); const MLSGrid& k = *g; Cell e = cell(k, 1, 0); int ok = e.size() == c.size(); for (int i = 0; i < n && ok == 1; i++) ok &= e[i].mean == c[i].mean; sx_assert(ok, "a lookup changes nothing");
}
// ---- transfer
static std::string dir() { return sx_symbolic() ? "/scene" : "scene"; }
static int same(const SP& a, const SP& b) { int ok = !memcmp(&a.mean, &b.mean, 4); ok &= !memcmp(&a.stdev, &b.stdev, 4); ok &= !memcmp(&a.height, &b.height, 4); ok &= !memcmp(&a.min, &b.min, 4); ok &= !memcmp(&a.max, &b.max, 4); ok &= !memcmp(&a.n, &b.n, 4); ok &= !memcmp(&a.normsq, &b.normsq, 4); ok &= a.update_idx == b.update_idx; for (int i = 0; i < 3; i++) ok &= a.color[i] == b.color[i]; ok &= a.isHorizontal() == b.isHorizontal(); ok &= a.isNegative() == b.isNegative(); ok &= !memcmp(&a.plane, &b.plane, sizeof a.plane); return ok; }
static SP full(int k) { SP p(0, 1); p.mean = sx_float("mean"); p.stdev = sx_float("stdev"); p.height = sx_float("height"); p.min = sx_float("min"); p.max = sx_float("max"); p.n = sx_float("n"); p.normsq = sx_float("normsq"); p.plane.x = sx_float("px"); p.plane.zz = sx_float("pzz"); p.plane.n = sx_float("pn"); p.update_idx = sx_bits("idx", 64); for (int i = 0; i < 3; i++) p.color[i] = sx_bits("color", 8); if (k == 0) p.setVertical(); else if (k == 1) p.setNegative(); return p; }
static void arrived(const MLSGrid& a, const MLSGrid* r, const Cell& c, int x, int y) { sx_assert(r != 0, "the grid arrives"); if (!r) return; sx_assert(r->getCellSizeX() == W && r->getCellSizeY() == H && r->getScaleX() == 0.5, "the geometry arrives"); Cell d = cell(*r, x, y); sx_assert(d.size() == c.size() && r->getCellCount() == c.size(), "the patches arrive"); int ok = 1; for (size_t i = 0; i < c.size() && i < d.size(); i++) ok &= same(c[i], d[i]); sx_assert(ok, "the patches arrive as they were, in order"); sx_assert(r->getHasCellColor() == a.getHasCellColor() && r->getConfig().updateModel == a.getConfig().updateModel, "the configuration arrives"); sx_assert(r->getGapSize() == a.getGapSize() && r->getHorizontalPatchThickness() == a.getHorizontalPatchThickness(), "the configuration arrives"); if (c.size()) sx_assert(r->getCellExtents().contains(Eigen::Vector2i(x, y)) && r->getCellExtents().volume() == 0, "the extents arrive"); if (r->getIndex()) for (auto& p : r->getIndex()->cells) sx_assert((int)p.x == x && (int)p.y == y, "the index is that of the patches"); }
extern "C" void stored() {
  Environment env; MLSGrid* a = new MLSGrid(W, H, 0.5, 0.5); static const MLSConfiguration::update_model U[] = { MLSConfiguration::KALMAN, MLSConfiguration::SUM, MLSConfiguration::SLOPE }; a->getConfig().updateModel = U[pick("model", 3)]; a->setHasCellColor(pick("color", 2)); a->setGapSize(0.5 * (1 + pick("gap", 2))); a->setHorizontalPatchThickness(0.25); Cell c; int x = pick("x", W); int n = pick("n", 3); for (int i = 0; i < n; i++) { SP p = full(pick("type", 3)); c.push_back(p); a->insertTail(x, 1, p); } env.attachItem(a, env.getRootNode()); bool file = pick("file", 2); Environment* e2; if (file) { env.serialize(dir()); e2 = Environment::unserialize(dir()); } else { e2 = new Environment(); std::vector<BinaryEvent> ev; env.pullEvents(ev); e2->applyEvents(ev); } MLSGrid* r = e2->getItem<MLSGrid>(a->getUniqueId()).get(); arrived(*a, r, c, x, 1);
  if (!file && r) { if (pick("index", 2)) r->initIndex(); if (pick("empty", 2)) { MLSConfiguration k = a->getConfig(); a->clear(); a->getConfig() = k; c.clear(); sx_reach("emptied"); } SP p = full(2); c.push_back(p); int y = pick("y", 2); if (c.size() > 1) y = 1; a->insertTail(x, y, p); a->itemModified(); std::vector<BinaryEvent> ev; env.pullEvents(ev); e2->applyEvents(ev); arrived(*a, r, c, x, y); sx_reach("again"); } delete e2; sx_reach("end");
}
// one grid merged into another
extern "C" void merging() {
  MLSGrid::Ptr a(new MLSGrid(W, H, 1, 1, -1, -1)), b(new MLSGrid(W, H, 1, 1, -1, -1)); MLSConfiguration::update_model u = pick("sum", 2) ? MLSConfiguration::SUM : MLSConfiguration::KALMAN; b->getConfig().updateModel = u; int x = pick("x", W); int y = pick("y", H); float m = sym("m", -32, 32, -2), bm = sym("bm", -32, 32, -2); a->insertHead(x, y, patch(m, 0.5f)); bool color = pick("color", 2); a->setHasCellColor(color); bool bcolor = pick("bcolor", 2); b->setHasCellColor(bcolor); if (pick("index", 2)) a->initIndex(); static const double C[] = { 1, 0, -1, 0 }, S[] = { 0, 1, 0, -1 }; int q = pick("turn", 4); double tx = pick("tx", 2) ? 0.75 : 0, ty = pick("ty", 2) ? -1.125 : 0, tz = sx_dyadic("tz", -8, 8, -2); Eigen::Affine3d t; t.setIdentity(); Eigen::Matrix3d r; r << C[q], -S[q], 0, S[q], C[q], 0, 0, 0, 1; t.linear() = r; t.translation() = Eigen::Vector3d(tx, ty, tz); SP off(sym("off", -8, 8, -2), 0.25f); off.update_idx = 5; double px = -1 + x + 0.5, py = -1 + y + 0.5, gx = C[q] * px - S[q] * py + tx, gy = S[q] * px + C[q] * py + ty; int cx = (int)floor(gx + 1), cy = (int)floor(gy + 1); bool in = cx >= 0 && cx < W && cy >= 0 && cy < H; bool there = in && pick("there", 2); if (there) b->insertHead(cx, cy, patch(bm, 0.5f)); b->setGapSize(0.25); b->setHorizontalPatchThickness(0.25); double z = m + off.mean + tz; b->merge(*a, t, off); sx_assert(b->getHasCellColor() == (color || bcolor), "merging in colours gives colours");
  int total = 0; for (int i = 0; i < W; i++) for (int j = 0; j < H; j++) total += cell(*b, i, j).size(); sx_assert((int)b->getCellCount() == total && a->getCellCount() == 1 && cell(*a, x, y)[0].mean == m, "the grid merged in is not changed"); if (!in) { sx_assert(total == 0, "what falls outside is dropped"); sx_reach("outside"); return; } Cell c = cell(*b, cx, cy); sx_assert((int)c.size() == total && total >= 1, "a patch is merged into the cell of its place"); if (!there) { int ok = sx_is(c[0].mean, z); ok &= sx_near(c[0].stdev * c[0].stdev, 0.3125, 1e-5); ok &= c[0].update_idx == 5; sx_assert(ok, "a patch is merged in at its height"); if (u == MLSConfiguration::SUM) { c[0].updateSum(); ok = sx_is(c[0].mean, z); ok &= sx_is(c[0].min, z); ok &= sx_is(c[0].max, z); sx_assert(ok, "the evidence of a patch moves with it"); } sx_reach("new"); } else if (c.size() == 1) { double lo = z < bm ? z : bm, hi = z < bm ? bm : z; int ok = c[0].mean >= lo - 1e-4; ok &= c[0].mean <= hi + 1e-4; ok &= c[0].n == 2; sx_assert(ok, "a patch is merged with the one there"); sx_reach("merged"); } else { int ok = sx_is(c[0].mean, z) & sx_is(c[1].mean, bm); sx_assert(ok, "patches that are apart stay apart"); sx_reach("apart"); }
}
// the share of cells that fit
extern "C" void matching() {
  MLSGrid::Ptr a(new MLSGrid(W, H, 1, 1)), b(new MLSGrid(W, H, 1, 1)); double am[W][H], bm[W][H]; bool ha[W][H], hb[W][H]; for (int x = 0; x < W; x++) for (int y = 0; y < H; y++) { int k = x && y ? 3 : pick("has", 4); ha[x][y] = k & 1; hb[x][y] = k & 2; if (ha[x][y]) { am[x][y] = sym("am", -16, 16, -2); a->insertHead(x, y, patch(am[x][y], 0.25f)); } if (hb[x][y]) { bm[x][y] = sym("bm", -16, 16, -2); b->insertHead(x, y, patch(bm[x][y], 0.25f)); } } a->initIndex(); double tz = sx_dyadic("tz", -8, 8, -2); int sx = pick("shift", 2); Eigen::Affine3d t; t.setIdentity(); t.translation() = Eigen::Vector3d(sx, 0, tz); SP off(0.5, 0.25f); float r = b->match(*a, t, off, 1, 2); int count = 0, hit = 0, most = 0; double d = sqrt(0.125 + 0.0625) * 2; for (int x = 0; x < W; x++) for (int y = 0; y < H; y++) if (ha[x][y] && x + sx < W) { count++; if (hb[x + sx][y]) { double z = am[x][y] + 0.5 + tz - bm[x + sx][y]; int in = z < d - 1e-4; in &= z > -d + 1e-4; hit += in; in = z < d + 1e-4; in &= z > -d - 1e-4; most += in; } } if (!count) sx_assert(r == 1, "without common cells everything fits"); else sx_assert((r * count >= hit - 1e-3) & (r * count <= most + 1e-3), "the share of cells that fit is answered"); sx_reach(count ? "some" : "none");
}
// points laid on the surface
extern "C" void project() {
  MLSGrid::Ptr g(new MLSGrid(2, 1, 1, 1)); double top[2][2]; int n[2]; for (int x = 0; x < 2; x++) { n[x] = pick("n", 3); for (int i = 0; i < n[x]; i++) { SP p = patch(sym("m", -32, 32, -2), 0.25f); g->insertTail(x, 0, p); top[x][i] = p.mean + 0.5; } } double h = sx_dyadic("start", -32, 32, -2); double off = sx_dyadic("off", -4, 4, 0); std::vector<Pos> ps; ps.push_back(Pos(0, 0)); ps.push_back(Pos(1, 0)); ps.push_back(Pos(0, 0)); std::vector<Eigen::Vector3d> r = g->projectPointsOnSurface(h, ps, off); sx_assert(r.size() == 3, "every point is answered"); double last = h; for (int k = 0; k < 3; k++) { int x = k & 1; sx_assert(r[k].x() == x && r[k].y() == 0, "points keep their cell"); double z = r[k].z() - off; if (!n[x]) { sx_assert(sx_near(z, last, 1e-6), "where there is no surface the height is kept"); } else { double best = 1e9; int one = 0; for (int i = 0; i < n[x]; i++) { double d = top[x][i] - last; d = d < 0 ? -d : d; best = d < best ? d : best; one |= sx_near(z, top[x][i], 1e-6); } double d = z - last; d = d < 0 ? -d : d; sx_assert(one & sx_near(d, best, 1e-6), "points are laid on the nearest surface"); } last = z; } sx_reach("end");
}
extern "C" void spline() { MLSGrid::Ptr g(new MLSGrid(4, 4, 0.5, 0.5)); float m = sym("m", -32, 32, -2); for (int x = 0; x < 4; x++) for (int y = 0; y < 4; y++) g->insertHead(x, y, patch(m, 0.25f)); base::geometry::Spline3 s; s.pts.push_back(base::Vector3d(0.25, 0.25, 0)); s.pts.push_back(base::Vector3d(1.75, 0.25, 0)); s.pts.push_back(base::Vector3d(1.75, 1.75, 0)); base::geometry::Spline3 r = g->projectSplineOnSurface(0, s, 0.5); sx_assert(r.pts.size() >= 3, "a path is answered"); int ok = 1; double gap = 0; for (size_t i = 0; i < r.pts.size(); i++) { ok &= sx_near(r.pts[i].z(), m + 0.5 + 0.5, 1e-5); if (i) gap = std::max(gap, (r.pts[i] - r.pts[i - 1]).head<2>().norm()); } sx_assert(ok, "a path is laid on the surface"); sx_assert(gap <= 0.5 / 4 + 1e-9, "a path is sampled four times per cell"); sx_reach("end"); }
extern "C" void weights() { MLSGrid::Ptr g(new MLSGrid(W, H, 1, 1)); double f = sx_dyadic("f", 1, 64, -4); g->insertHead(0, 0, patch(1)); g->insertTail(0, 0, patch(9, 0.25f)); g->insertTail(1, 1, patch(3)); g->scalePatchWeights(f); Cell a = cell(*g, 0, 0), b = cell(*g, 1, 1); int ok = sx_is(a[0].getWeight(), 4 * f); ok &= sx_is(a[1].getWeight(), 16 * f); ok &= sx_is(b[0].getWeight(), 4 * f); ok &= a[0].mean == 1; ok &= b[0].mean == 3; sx_assert(ok, "all weights are scaled"); sx_reach("end"); }
