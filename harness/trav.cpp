// Traversability grids: classes, probabilities and what a vehicle's footprint covers.
#include "core_model.h"
#include <envire/maps/TraversabilityGrid.hpp>
#include <math.h>
#include <string.h>
#include <boost/bind.hpp>
typedef TraversabilityGrid TG;
static const int NUM[] = { 0, 1, 4, 254, 255 };
static TraversabilityClass klass(double d) { return TraversabilityClass(d); }
// the classes of a grid
extern "C" void classes() {
  TG::Ptr g(new TG(2, 2, 1, 1)); int known[256]; double dr[256]; memset(known, 0, sizeof known); int size = 0;
  for (int k = 0; k < 3; k++) { double d = sx_dyadic("d", 0, 16, -4); int n = -1; if (pick("op", 2)) { n = NUM[pick("num", 5)]; g->setTraversabilityClass(n, klass(d)); } else { uint8_t id = 77; bool ok = g->registerNewTraversabilityClass(id, klass(d)); if (ok) { n = id; sx_assert(!known[n], "a new class gets a number that is free"); sx_reach("registered"); } else { sx_assert(size >= 255, "a class is refused only when the numbers are used up"); sx_reach("full"); } } if (n >= 0) { known[n] = 1; dr[n] = d; if (n >= size) size = n + 1; } }
  const TG& c = *g; sx_assert((int)c.getTraversabilityClasses().size() == size, "the classes are those that were set"); for (int i = 0; i < 256; i++) if (known[i]) { const TraversabilityClass& t = c.getTraversabilityClass(i); sx_assert(t.isSet(), "a class that was set is set"); sx_assert(t.getDrivability() == dr[i], "a class keeps its drivability"); sx_assert(t.isTraversable() == (dr[i] > 0), "a class is traversable when it is drivable"); } else { bool th = false, set = false; try { set = c.getTraversabilityClass(i).isSet(); } catch (std::runtime_error&) { th = true; } sx_assert(th == (i >= size), "a class that does not exist is refused"); sx_assert(!set, "a class that was not set is not set"); }
  for (int k = 0; k < 2; k++) { int i = NUM[pick("cell", 5)]; g->setTraversability(i, k, 1 - k); bool th = false; double d = 0; try { d = c.getTraversability(k, 1 - k).getDrivability(); } catch (std::runtime_error&) { th = true; } sx_assert(th == (i >= size), "a cell of a class that does not exist is refused"); if (!th) sx_assert(d == (known[i] ? dr[i] : 0), "a cell has the drivability of its class"); }
  sx_reach("end");
}
extern "C" void class_range() { double d = sx_double("d"); bool th = false; try { TraversabilityClass t(d); sx_assert(t.getDrivability() == d, "a class keeps its drivability"); sx_reach("accepted"); } catch (std::runtime_error&) { th = true; sx_reach("refused"); } if (d < 0 || d > 1.00001) sx_assert(th, "a drivability outside of 0 to 1 is refused"); if (d >= 0 && d <= 1) sx_assert(!th, "a drivability from 0 to 1 is accepted"); TraversabilityClass e; sx_assert(!e.isSet() && !e.isTraversable() && e.getDrivability() == 0, "an empty class is not traversable"); }
// class and probability of the cells
extern "C" void probability() {
  TG::Ptr g(new TG(2, 2, 1, 1)); for (int i = 0; i < 4; i++) g->setTraversabilityClass(i, klass(i * 0.25)); uint8_t kl[4] = { 0, 0, 0, 0 }; double pr[4] = { 0, 0, 0, 0 }; for (int k = 0; k < 2; k++) { int c = pick("c", 4); double p = sx_dyadic("p", 0, 512, -8); int n = (int)sx_range("n", 0, 3); int x = c & 1, y = c >> 1; switch (pick("op", 3)) { case 0: g->setTraversabilityAndProbability(n, p, x, y); kl[c] = n; pr[c] = p; break; case 1: g->setTraversability(n, x, y); kl[c] = n; break; case 2: g->setProbability(p, x, y); pr[c] = p; break; } }
  const TG& q = *g; for (int c = 0; c < 4; c++) q.getProbability(c & 1, c >> 1); if (!q.hasBand(TG::TRAVERSABILITY)) q.getTraversability(0, 0); for (int c = 0; c < 4; c++) { double p = q.getProbability(c & 1, c >> 1); int ok = 1; ok &= p <= 1; ok &= p <= pr[c] + 1e-9; ok &= (p >= pr[c] - 1 / 255.0) | (p >= 1); sx_assert(ok, "a cell keeps its probability"); sx_assert(q.getFromRaster(TG::TRAVERSABILITY, c & 1, c >> 1) == kl[c], "a cell keeps its class"); } for (int c = 0; c < 4; c++) sx_assert(q.getTraversability(c & 1, c >> 1).getDrivability() == kl[c] * 0.25, "a cell has the drivability of its class"); sx_reach("end");
}
// copies are equal and independent
extern "C" void copies() {
  TG::Ptr a(new TG(2, 2, 1, 1)); a->setTraversabilityClass(1, klass(0.5)); a->setTraversabilityClass(2, klass(1)); a->setTraversabilityAndProbability(1, 1, 0, 0); int how = pick("how", 4); TG::Ptr b; if (how == 0) b = a->clone(); else if (how == 1) { b = new TG(2, 2, 1, 1); b->setTraversabilityAndProbability(2, 0.5, 1, 1); *b = *a; } else if (how == 2) { b = new TG(1, 1, 1, 1); b->set(a.get()); } else { b = new TG(3, 1, 1, 1); b->setTraversabilityAndProbability(2, 0.5, 2, 0); b->set(a.get()); }
  sx_assert(b->getCellSizeX() == 2 && b->getCellSizeY() == 2 && b->getTraversabilityClasses().size() == 3, "a copy has the same cells and classes"); sx_assert(b->getTraversability(0, 0).getDrivability() == 0.5 && b->getProbability(0, 0) == 1 && b->getFromRaster(TG::TRAVERSABILITY, 1, 1) == 0, "a copy has the same contents"); int c = pick("c", 4), x = c & 1, y = c >> 1; uint8_t n = sx_range("n", 1, 2); double p = pick("p", 2) ? 0 : 1; bool first = pick("first", 2); TG *u = first ? a.get() : b.get(), *w = first ? b.get() : a.get(); uint8_t old = w->getFromRaster(TG::TRAVERSABILITY, x, y); double po = w->getProbability(x, y); u->setTraversabilityAndProbability(n, p, x, y); sx_assert(u->getFromRaster(TG::TRAVERSABILITY, x, y) == n && u->getProbability(x, y) == p, "a cell holds what was put there last"); sx_assert(w->getFromRaster(TG::TRAVERSABILITY, x, y) == old && w->getProbability(x, y) == po, "a copy is independent"); if (pick("drop", 2)) { if (first) { a = 0; sx_reach("dropped"); b->setTraversabilityAndProbability(n, p, x, y); sx_assert(b->getFromRaster(TG::TRAVERSABILITY, x, y) == n, "a copy outlives the original"); } } sx_reach("end");
}
// storage
static std::string dir() { return sx_symbolic() ? "/scene" : "scene"; }
extern "C" void stored() {
  Environment env; TG* a = new TG(2, 1, 0.5, 0.5); int n = NUM[pick("num", 3)]; double d = sx_dyadic("d", 0, 16, -4); double e = sx_dyadic("e", 0, 16, -4); a->setTraversabilityClass(n, klass(d)); bool two = pick("two", 2); if (two) a->setTraversabilityClass(n + 2, klass(e)); uint8_t k0 = sx_bits("k0", 8), p0 = sx_bits("p0", 8); a->setTraversability(k0, 0, 0); a->setTraversability(n, 1, 0); a->setProbability(p0 / 255.0, 1, 0); uint8_t pv = a->getFromRaster(TG::PROBABILITY, 1, 0); env.attachItem(a, env.getRootNode()); bool file = pick("file", 2); Environment* e2; if (file) { env.serialize(dir()); e2 = Environment::unserialize(dir()); } else { e2 = new Environment(); std::vector<BinaryEvent> ev; env.pullEvents(ev); e2->applyEvents(ev); } TG* r = e2->getItem<TG>(a->getUniqueId()).get(); sx_assert(r != 0, "the grid arrives"); if (!r) return;
  sx_assert(r->getTraversabilityClasses().size() == a->getTraversabilityClasses().size(), "the classes arrive"); for (int i = 0; i < (int)r->getTraversabilityClasses().size(); i++) { sx_assert(r->getTraversabilityClass(i).getDrivability() == a->getTraversabilityClass(i).getDrivability() && r->getTraversabilityClass(i).isSet() == a->getTraversabilityClass(i).isSet(), "the classes arrive"); } sx_assert(r->getTraversability(1, 0).getDrivability() == d, "the cells arrive"); sx_assert((r->getFromRaster(TG::TRAVERSABILITY, 0, 0) == k0) & (r->getFromRaster(TG::PROBABILITY, 1, 0) == pv) & (r->getProbability(1, 0) == a->getProbability(1, 0)), "the cells arrive");
  if (!file) { uint8_t k1 = sx_bits("k1", 8); a->setTraversability(k1, 0, 0); a->setTraversabilityClass(n, klass(e)); a->itemModified(); std::vector<BinaryEvent> ev; env.pullEvents(ev); e2->applyEvents(ev); sx_assert(r->getFromRaster(TG::TRAVERSABILITY, 0, 0) == k1 && r->getTraversability(1, 0).getDrivability() == e, "a change arrives"); r->setTraversability(1, 1, 0); sx_assert(r->getFromRaster(TG::TRAVERSABILITY, 1, 0) == 1, "a cell holds what was put there last"); sx_reach("again"); } delete e2; sx_reach("end");
}
// ---- footprints
enum { RN = 6 };
struct Seen { int in[RN][RN], out[RN][RN]; Seen() { memset(in, 0, sizeof in); memset(out, 0, sizeof out); } void inner(size_t x, size_t y) { in[y][x]++; } void outer(size_t x, size_t y) { out[y][x]++; } };
static const double ANG[] = { 0, M_PI / 4, 1.2, M_PI / 2, -2.0 }, SIZES[][2] = { { 2, 1 }, { 1, 3 }, { 2.5, 2.5 }, { 0.5, 0.25 }, { 1, 1 } }, SPOT[][2] = { { 3, 3 }, { 2.6, 3.3 }, { 1.1, 2 } };
#ifndef NA
#define NA 5
#endif
#ifndef NSZ
#define NSZ 5
#endif
static base::Pose2D pose(double sc) { base::Pose2D p; int s = pick("spot", 3); p.position = Eigen::Vector2d(SPOT[s][0] * sc, SPOT[s][1] * sc); p.orientation = ANG[pick("angle", NA)]; return p; }
// a few symbolic classes around the middle, the rest is of one class
static uint8_t v[RN][RN];
static void fill(TG& g, int n = 4) { static const int at[][2] = { { 2, 3 }, { 3, 3 }, { 1, 2 }, { 4, 2 } }; for (int y = 0; y < RN; y++) for (int x = 0; x < RN; x++) v[y][x] = 2; for (int k = 0; k < n; k++) v[at[k][1]][at[k][0]] = k & 1 ? sx_range("high", 253, 255) : sx_range("low", 0, 3); for (int y = 0; y < RN; y++) for (int x = 0; x < RN; x++) g.setTraversability(v[y][x], x, y); }
static void compare(const TraversabilityStatistic& st, int (*seen)[RN], double sc, const base::Pose2D& p, double hx, double hy, bool box, bool plain) {
  size_t total = 0; int high = 0, isHigh = 0; for (int y = 0; y < RN; y++) for (int x = 0; x < RN; x++) if (seen[y][x]) { total++; high |= v[y][x] > st.getHighestTraversabilityClass(); isHigh |= v[y][x] == st.getHighestTraversabilityClass(); } sx_assert(st.getTotalCount() == total, "every cell covered is counted once"); sx_assert(!high && (!total || isHigh), "the highest class is the highest one covered"); static const int Q[] = { 0, 1, 2, 3, 252, 253, 254, 255 };
  size_t cx = p.position.x() / sc, cy = p.position.y() / sc; for (int k = 0; k < 8; k++) { int q = Q[k]; size_t n = 0; int low = 1, hit = 0; double d; size_t cnt; st.getStatisticForClass(q, d, cnt); for (int y = 0; y < RN; y++) for (int x = 0; x < RN; x++) if (seen[y][x]) { int is = v[y][x] == q; n += is; double e, tol; if (!box) { double dx = ((double)x - (double)cx) * sc, dy = ((double)y - (double)cy) * sc; e = sqrt(dx * dx + dy * dy); tol = 1e-6; } else { double dx = (x + 0.5) * sc - p.position.x(), dy = (y + 0.5) * sc - p.position.y(), c = cos(p.orientation), s = sin(p.orientation); double a = fabs(c * dx + s * dy) - hx, b = fabs(-s * dx + c * dy) - hy; a = a > 0 ? a : 0; b = b > 0 ? b : 0; e = sqrt(a * a + b * b); tol = 0.2 * sc; } low &= !is | (d <= e + tol); hit |= is & (d >= e - tol); } sx_assert((cnt == n) & (st.getClassCount(q) == n), "the cells of a class are counted"); sx_assert(low & (hit | (n == 0)), "the distance of a class is that of its nearest cell"); } }
extern "C" void statistic() {
  double sc = pick("scale", 2) ? 0.5 : 1; TG::Ptr g(new TG(RN, RN, sc, sc)); fill(*g); int si = pick("size", NSZ); double sx = SIZES[si][0] * sc, sy = SIZES[si][1] * sc; base::Pose2D p = pose(sc); Seen s; bool in = g->forEachInRectangle(p, sx, sy, boost::bind(&Seen::inner, &s, _1, _2)); TraversabilityStatistic st; g->computeStatistic(p, sx, sy, st); compare(st, s.in, sc, p, sx / 2, sy / 2, false, true); sx_reach(in ? "inside" : "outside");
}
static const double BORDER[] = { 0.25, 0.5, 1, 2 };
#ifndef FIRSTB
#define FIRSTB 0
#endif
#ifndef NB
#define NB 3
#endif
extern "C" void border() {
  double sc = 1; TG::Ptr g(new TG(RN, RN, sc, sc)); fill(*g); int si = pick("size", NSZ); double sx = SIZES[si][0] * sc, sy = SIZES[si][1] * sc; double w = BORDER[FIRSTB + pick("border", NB)] * sc; { base::Pose2D far; far.position = Eigen::Vector2d(-99, -99); far.orientation = 0; TraversabilityStatistic a, b; g->computeStatistic(far, sx, sy, w, a, b); sx_assert(a.getTotalCount() + b.getTotalCount() == 0, "a footprint outside covers nothing"); } base::Pose2D p = pose(sc); Seen s; bool in = g->forEachInRectangles(p, sx, sy, boost::bind(&Seen::inner, &s, _1, _2), sx + w, sy + w, boost::bind(&Seen::outer, &s, _1, _2)); TraversabilityStatistic st, out; try { g->computeStatistic(p, sx, sy, w, st, out); } catch (std::runtime_error&) { sx_assert(0, "a footprint with a border has a statistic"); } compare(st, s.in, sc, p, sx / 2, sy / 2, false, false); compare(out, s.out, sc, p, sx / 2, sy / 2, true, false); sx_reach(in ? "inside" : "outside");
}
// the worst class and probability covered
extern "C" void worst() {
  double sc = 1; TG::Ptr g(new TG(RN, RN, sc, sc)); fill(*g, 3); double dr[256]; for (int i = 0; i < 256; i++) dr[i] = -1; static const int K[] = { 0, 1, 2, 3, 253, 254 }; for (int k = 0; k < 6; k++) { dr[K[k]] = k == 1 ? sx_dyadic("d", 0, 4, -2) : k < 4 ? k * 0.25 : 1; g->setTraversabilityClass(K[k], klass(dr[K[k]])); } bool all = share("all", 2); if (all) { dr[255] = 0.125; g->setTraversabilityClass(255, klass(0.125)); } int si = pick("size", 2) * 2; base::Pose2D p = pose(sc); Seen s; bool in = g->forEachInRectangle(p, SIZES[si][0], SIZES[si][1], boost::bind(&Seen::inner, &s, _1, _2)); double r = -1; bool th = false; try { const TraversabilityClass& t = g->getWorstTraversabilityClassInRectangle(p, SIZES[si][0], SIZES[si][1]); r = t.getDrivability(); } catch (std::runtime_error&) { th = true; } if (!in) { sx_assert(th, "a footprint outside is refused"); sx_reach("outside"); return; }
  int low = 1, hit = 0, bad = 0, zero = 0; for (int y = 0; y < RN; y++) for (int x = 0; x < RN; x++) if (s.in[y][x]) { for (int k = 0; k < 6; k++) { int is = v[y][x] == K[k]; low &= !is | (r <= dr[K[k]]); hit |= is & (r == dr[K[k]]); zero |= is & (dr[K[k]] == 0); } int is = v[y][x] == 255; if (all) { low &= !is | (r <= 0.125); hit |= is & (r == 0.125); } else bad |= is; } if (th) sx_assert(bad, "a footprint has a worst class"); else { sx_assert(low & hit, "the worst class is the least drivable one covered"); sx_assert(!bad | zero, "a footprint with unknown classes is refused"); } sx_reach(th ? "refused" : "inside");
}
extern "C" void worst_probability() { TG::Ptr g(new TG(RN, RN, 1, 1)); uint8_t pv[RN][RN]; for (int y = 0; y < RN; y++) for (int x = 0; x < RN; x++) { pv[y][x] = 200; } int at = pick("at", 4), at2 = pick("at2", 3); pv[at & 1 ? 3 : 2][at & 2 ? 4 : 2] = (uint8_t[]) { 0, 99, 101, 255 }[pick("p", 4)]; pv[3][at2 + 1] = pick("q", 2) ? 100 : 230; for (int y = 0; y < RN; y++) for (int x = 0; x < RN; x++) { g->getGridData(TG::PROBABILITY)[y][x] = pv[y][x]; } int si = pick("size", NSZ); base::Pose2D p = pose(1); Seen s; bool in = g->forEachInRectangle(p, SIZES[si][0], SIZES[si][1], boost::bind(&Seen::inner, &s, _1, _2)); double r = g->getWorstProbabilityInRectangle(p, SIZES[si][0], SIZES[si][1]); int low = 1, hit = 0; for (int y = 0; y < RN; y++) for (int x = 0; x < RN; x++) if (s.in[y][x]) { low &= r <= pv[y][x] / 255.0; hit |= r == pv[y][x] / 255.0; } sx_assert(low & (hit | !in), "the worst probability is the lowest one covered"); sx_reach(in ? "inside" : "outside"); }
