// Maps of surface grids: lookup over the grids, choice and creation of the active grid, extents, copies.
#include "core_model.h"
#include <envire/maps/MLSMap.hpp>
#include <math.h>
typedef SurfacePatch SP; typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3; typedef GridBase::Position Pos;
static double num(const char* n, int lo, int hi, int e) { return sx_dyadic(n, lo, hi, e); }
static SP patch(float m, float d = 0.25f) { SP p(m, d); p.setColor(base::Vector3d(0, 0, 0)); return p; }
// turns about the vertical axis: none, quarter, half, 3-4-5
static M3 turn(int k) { M3 r; switch (k) { case 0: r << 1, 0, 0, 0, 1, 0, 0, 0, 1; break; case 1: r << 0, -1, 0, 1, 0, 0, 0, 0, 1; break; case 2: r << 0.6, -0.8, 0, 0.8, 0.6, 0, 0, 0, 1; break; default: r << -1, 0, 0, 0, -1, 0, 0, 0, 1; } return r; }
struct Fr { M3 R; V3 t; Fr() : R(M3::Identity()), t(V3::Zero()) {} V3 in(const V3& p) const { V3 d = p - t, q; for (int i = 0; i < 3; i++) q[i] = R(0, i) * d[0] + R(1, i) * d[1] + R(2, i) * d[2]; return q; } V3 out(const V3& p) const { V3 q; for (int i = 0; i < 3; i++) q[i] = R(i, 0) * p[0] + R(i, 1) * p[1] + R(i, 2) * p[2] + t[i]; return q; } Transform tf() const { Transform r = Transform::Identity(); r.linear() = R; r.translation() = t; return r; } };
#ifndef RNG
#define RNG 4
#endif
static Fr frame(int turns, int fine) { Fr f; f.R = turn(pick("turn", turns)); f.t[0] = num("tx", -RNG, RNG, fine); f.t[1] = num("ty", -RNG, RNG, fine); f.t[2] = num("tz", -2, 2, -1); return f; }
#ifndef TURNS
#define TURNS 2
#endif
// two grids of two cells each, in frames of their own below or beside the frame of the map
struct MW { Environment env; MLSMap::Ptr map; Fr fm, fg[2]; FrameNode *nm, *ng[2]; bool below[2]; MLSGrid::Ptr g[2]; std::vector<double> c[2][2];
  MW(int turns, int fill) { fm = frame(turns, -2); nm = new FrameNode(fm.tf()); env.addChild(env.getRootNode(), nm); map = new MLSMap(); env.attachItem(map.get(), nm); for (int i = 0; i < 2; i++) { fg[i] = frame(turns, -2); below[i] = i; ng[i] = new FrameNode(fg[i].tf()); env.addChild(below[i] ? nm : env.getRootNode(), ng[i]); g[i] = new MLSGrid(2, 1, 1, 1); if (fill) for (int x = 0; x < 2; x++) if (x || fill == 2 || pick("has", 2)) { double z = num("z", -4, 4, -1); c[i][x].push_back(z); g[i]->insertHead(x, 0, patch(z)); } env.attachItem(g[i].get(), ng[i]); map->addGrid(g[i]); } }
  V3 toGrid(int i, const V3& p) { return below[i] ? fg[i].in(p) : fg[i].in(fm.out(p)); } };
static V3 place() { double px = num("px", -8, 8, -3); double py = num("py", -8, 8, -3); return V3(px, py, 0); }
static void find(MW& w, const V3& p) {
  double z = num("pz", -32, 32, -2); SP probe = patch(z); double sigma = pick("sigma", 2) ? 3 : 1; int could = 0, must = 0; SP a = probe; bool r = w.map->getPatch(p, a, sigma); int good = 0;
  for (int i = 0; i < 2; i++) { V3 q = w.toGrid(i, p); double dz = w.toGrid(i, V3(0, 0, 0))[2]; for (int x = 0; x < 2; x++) for (double m : w.c[i][x]) { double d = sqrt(0.125) * sigma, h = z + dz - m; int on = 1, surely = 1; on &= q[0] > x - 1e-6; on &= q[0] < x + 1 + 1e-6; on &= q[1] > -1e-6; on &= q[1] < 1 + 1e-6; on &= h < d + 1e-4; on &= h > -d - 1e-4; surely &= q[0] > x + 1e-6; surely &= q[0] < x + 1 - 1e-6; surely &= q[1] > 1e-6; surely &= q[1] < 1 - 1e-6; surely &= h < d - 1e-4; surely &= h > -d + 1e-4; could |= on; must |= surely; int is = on; is &= sx_near(a.mean, m - dz, 1e-4); good |= is; } }
  sx_assert(r ? could : !must, "a patch of the map is found where one of its grids has one"); if (r) { sx_assert(good, "the patch found is one at that place, in terms of the map"); sx_reach("found"); } else { sx_assert(a.mean == probe.mean && a.stdev == probe.stdev, "a lookup that fails leaves the patch"); sx_reach("missing"); }
}
extern "C" void find_patch() { MW w(TURNS, true); sx_assert(w.map->getActiveGrid() == w.g[1] && w.map->getGrids().size() == 2, "the grid added last is the active one"); find(w, place()); }
// the same after a grid was moved, changed or taken out
extern "C" void find_again() { MW w(1, 2); V3 p0 = place(); SP a = patch(num("qz", -16, 16, -1)); w.map->getPatch(p0, a); int k = pick("grid", 2); switch (pick("change", 4)) { case 0: { double nx = num("nx", -4, 4, -2); double ny = num("ny", -4, 4, -2); w.fg[k].t = V3(nx, ny, 1); w.ng[k]->setTransform(w.fg[k].tf()); sx_reach("moved"); break; } case 1: { double z = num("nz", -16, 16, -1); w.c[k][1].push_back(z); w.g[k]->insertTail(1, 0, patch(z)); break; } case 2: w.g[k]->clear(); w.c[k][0].clear(); w.c[k][1].clear(); break; case 3: { w.map->getGrids().erase(w.map->getGrids().begin() + k); w.env.detachItem(w.g[k].get()); if (w.map->active == w.g[k]) w.map->active = 0; w.g[k] = 0; w.c[k][0].clear(); w.c[k][1].clear(); sx_reach("gone"); break; } } find(w, p0); }
// the active grid for a place: the nearest in reach, or a new one laid on the raster of the active one
extern "C" void select_grid() {
  MW w(1, false); Fr f = frame(2, -3); FrameNode* n = new FrameNode(f.tf()); bool below = pick("below", 2); w.env.addChild(below ? w.nm : w.env.getRootNode(), n); double reach = num("reach", 0, 32, -2); bool aligned = pick("aligned", 2); V3 at = below ? w.fm.out(f.t) : f.t; double dist[2]; V3 rel; for (int i = 0; i < 2; i++) { V3 q = w.below[i] ? w.fg[i].in(w.fm.in(at)) : w.fg[i].in(at); if (i) rel = q; double a = fabs(q[0]), b = fabs(q[1]); dist[i] = a > b ? a : b; }

  w.g[1]->setGapSize(3); w.g[1]->insertHead(0, 0, patch(1)); w.map->selectActiveGrid(n, reach, aligned); MLSGrid* act = w.map->getActiveGrid().get(); double best = dist[0] < dist[1] ? dist[0] : dist[1];
  if (w.map->getGrids().size() == 2) { sx_assert(best <= reach + 1e-6, "a grid in reach is made active"); sx_assert(act == w.g[0].get() ? sx_near(dist[0], best, 1e-6) : act == w.g[1].get() && sx_near(dist[1], best, 1e-6), "the nearest grid is made active"); sx_reach("near"); }
  else { sx_assert(best >= reach - 1e-6, "a grid is made only when none is in reach"); sx_assert(w.map->getGrids().size() == 3 && act == w.map->getGrids()[2].get() && act->isAttached(), "a new grid is made active"); sx_assert(act->getCellSizeX() == 2 && act->getCellSizeY() == 1 && act->getScaleX() == 1 && act->getGapSize() == 3 && act->empty() && w.g[1]->getCellCount() == 1, "a new grid is empty and like the active one"); std::list<Layer*> ch = w.env.getChildren(w.map.get()); sx_assert(ch.size() == 3 && std::find(ch.begin(), ch.end(), act) != ch.end(), "a new grid belongs to the map"); Transform t = act->getFrameNode()->relativeTransform(w.ng[1]); V3 o = t.translation(); if (aligned) { int ok = sx_near(o[0], rint(o[0]), 1e-6); ok &= sx_near(o[1], rint(o[1]), 1e-6); ok &= t.linear().isApprox(M3::Identity(), 1e-6); ok &= rel[0] - o[0] > -1e-6; ok &= rel[0] - o[0] < 1 + 1e-6; ok &= rel[1] - o[1] > -1e-6; ok &= rel[1] - o[1] < 1 + 1e-6; sx_assert(ok, "a new grid lies on the raster, at the cell of the place"); sx_reach("aligned"); } else { int ok = sx_near(o[0], rel[0], 1e-6); ok &= sx_near(o[1], rel[1], 1e-6); ok &= sx_near(o[2], rel[2], 1e-6); sx_assert(ok, "a new grid lies at the place"); sx_reach("free"); } }
}
extern "C" void create() {
  MW w(1, false); w.g[1]->insertHead(1, 0, patch(2)); Fr f = frame(2, -3); bool rel = pick("relative", 2), al = pick("aligned", 2); w.map->createGrid(f.tf(), rel, al); sx_assert(w.map->getGrids().size() == 3, "a grid is made"); if (w.map->getGrids().size() != 3) return; MLSGrid* n = w.map->getActiveGrid().get(); sx_assert(n == w.map->getGrids()[2].get() && n->empty(), "a new grid is active and empty"); Transform t = n->getFrameNode()->relativeTransform(rel ? w.ng[1] : w.nm); V3 o = t.translation(); int ok = 1; if (al) { ok &= sx_near(o[0], floor(f.t[0]), 1e-6); ok &= sx_near(o[1], floor(f.t[1]), 1e-6); ok &= t.linear().isApprox(M3::Identity(), 1e-6); } else { ok &= sx_near(o[0], f.t[0], 1e-6); ok &= sx_near(o[1], f.t[1], 1e-6); ok &= t.linear().isApprox(f.R, 1e-6); } ok &= sx_near(o[2], f.t[2], 1e-6); sx_assert(ok, "a new grid lies where asked"); sx_reach("end");
}
extern "C" void empty_map() { Environment env; FrameNode* n = new FrameNode(Transform::Identity()); env.addChild(env.getRootNode(), n); MLSMap* m = new MLSMap(); env.attachItem(m, n); SP a = patch(num("z", -8, 8, -1)); float before = a.mean; sx_assert(!m->getPatch(V3(0, 0, 0), a) && a.mean == before, "a map without grids has no patches"); switch (pick("act", 3)) { case 0: m->createGrid(Transform::Identity()); break; case 1: m->selectActiveGrid(n, 1); break; case 2: { MLSMap* c = m->cloneDeep(); sx_assert(c && c->getGrids().empty(), "a map without grids stays so"); break; } } sx_assert(m->getGrids().empty() && m->getActiveGrid() == 0, "without a grid to go by none is made"); sx_reach("end"); }
extern "C" void extents() { MW w(1, false); for (int i = 0; i < 2; i++) { w.g[i]->insertHead(0, 0, patch(1)); w.g[i]->insertHead(1, 0, patch(1)); } Eigen::AlignedBox<double, 2> e = w.map->getExtents(); double lo[2], hi[2]; for (int i = 0; i < 2; i++) { V3 o = w.below[i] ? w.fg[i].t : V3(w.fg[i].t - w.fm.t); for (int d = 0; d < 2; d++) { double l = o[d], h = o[d] + (d ? 1 : 2); lo[d] = i && lo[d] < l ? lo[d] : l; hi[d] = i && hi[d] > h ? hi[d] : h; } } int ok = 1; for (int d = 0; d < 2; d++) { ok &= sx_near(e.min()[d], lo[d], 1e-6); ok &= sx_near(e.max()[d], hi[d], 1e-6); } sx_assert(ok, "the extents are those of all grids"); sx_reach("end"); }
// a deep copy has the content and the place, and an active grid of its own
extern "C" void deep() {
  MW w(1, true); int k = pick("active", 2); w.map->active = w.g[k]; MLSMap::Ptr c = w.map->cloneDeep(); sx_assert(c.get() != w.map.get() && c->isAttached() && c->getUniqueId() != w.map->getUniqueId(), "a deep copy is an item of its own"); sx_assert(c->getGrids().size() == 2 && c->getGrids()[!k] == w.g[!k] && c->getGrids()[k] != w.g[k] && c->getActiveGrid() == c->getGrids()[k], "a deep copy has an active grid of its own and shares the others"); std::list<Layer*> ch = w.env.getChildren(c.get()); sx_assert(ch.size() == 2, "a deep copy has its grids as children"); sx_assert(w.map->getGrids().size() == 2 && w.map->getGrids()[k] == w.g[k] && w.env.getChildren(w.map.get()).size() == 2, "a deep copy leaves the original"); sx_assert(c->getActiveGrid()->getCellCount() == w.g[k]->getCellCount(), "a deep copy has the patches");
  w.g[k]->clear(); MLSMap::Ptr keep = w.map; w.map = c; find(w, place());
}
extern "C" void assign() { MW w(1, false); FrameNode* n2 = new FrameNode(w.fm.tf()); w.env.addChild(w.env.getRootNode(), n2); MLSMap::Ptr b = new MLSMap(); w.env.attachItem(b.get(), n2); bool had = pick("had", 2); MLSGrid::Ptr old; if (had) { old = new MLSGrid(1, 1, 1, 1); w.env.attachItem(old.get(), n2); b->addGrid(old); } *b = *w.map; sx_assert(b->getGrids().size() == 2 && b->getActiveGrid() == w.g[1], "an assigned map has the grids of the other"); std::list<Layer*> ch = w.env.getChildren(b.get()); int ok = ch.size() == 2; for (auto c : ch) ok &= c == w.g[0].get() || c == w.g[1].get(); sx_assert(ok, "an assigned map has its grids as children"); sx_assert(w.env.getChildren(w.map.get()).size() == 2 && w.map->getGrids().size() == 2, "the other map keeps its grids"); sx_assert(b->getFrameNode() == n2, "an assigned map keeps its frame"); sx_reach("end"); }
