// Operators that make traversability grids: from slopes and steps, by growing classes, by following the surface.
#include "frames.h"
#include <envire/maps/MLSGrid.hpp>
#include <envire/maps/TraversabilityGrid.hpp>
#include <envire/operators/SimpleTraversability.hpp>
#include <envire/operators/TraversabilityGrowClasses.hpp>
#include <envire/operators/TraversabilityGrassfire.hpp>
#include <limits>
typedef TraversabilityGrid TG; typedef SurfacePatch SP;
static std::string dir() { return sx_symbolic() ? "/scene" : "scene"; }
static double prob(TG* g, int x, int y) { return g->getProbability(x, y); }
// ---- slopes and steps
extern "C" void classify() {
  Environment env; SimpleTraversabilityConfig cf; cf.maximum_slope = pick("max_slope", 2) ? 0.5 : 0; cf.ground_clearance = pick("clearance", 2) ? 0.25 : 0; static const int CC[] = { 1, 4, 10 }; cf.class_count = CC[pick("classes", 3)]; int bands = 1 + pick("bands", 3); bool own = pick("no_data", 2); const float INF = std::numeric_limits<float>::infinity(); float un = own ? -7 : -INF;
  Grid<float>* in = new Grid<float>(2, 1, 0.5, 0.5); env.attachItem(in, env.getRootNode()); boost::multi_array<float, 2>& s = in->getGridData("slope"); boost::multi_array<float, 2>& st = in->getGridData("step"); if (own) { in->setNoData("slope", un); in->setNoData("step", un); } double sl[2], sp[2]; bool ks[2], kp[2]; for (int x = 0; x < 2; x++) { int k = x ? 3 : pick("known", 4); ks[x] = k & 1; kp[x] = k & 2; sl[x] = num("slope", -16, 16, -4); sp[x] = num("step", 0, 16, -4); s[0][x] = ks[x] ? (float)sl[x] : un; st[0][x] = kp[x] ? (float)sp[x] : un; }
  TG* out = new TG(2, 1, 0.5, 0.5); env.attachItem(out, env.getRootNode()); bool again = pick("again", 2); out->getGridData(TG::TRAVERSABILITY); if (again) for (int x = 0; x < 2; x++) { out->setTraversability(1, x, 0); out->setProbability(0.5, x, 0); }
  SimpleTraversability* op = new SimpleTraversability(cf); env.attachItem(op); if (bands & 1) op->setSlope(in, "slope"); if (bands & 2) op->setMaxStep(in, "step"); op->setOutput(out, TG::TRAVERSABILITY); sx_assert(op->updateAll(), "classification succeeds"); int ok = 1, pr = 1; TG::ArrayType& r = out->getGridData(TG::TRAVERSABILITY);
  for (int x = 0; x < 2; x++) { int v = r[0][x]; double p = prob(out, x, 0); bool us = (bands & 1) && ks[x], up = (bands & 2) && kp[x]; double a = sl[x] < 0 ? -sl[x] : sl[x]; int high = 0; if (up && cf.ground_clearance) high |= sp[x] > 0.25; if (us && cf.maximum_slope) high |= a > 0.5; if (high) { ok &= v == 1; pr &= p == 1; } else if (us && cf.maximum_slope) { double c = cf.class_count - a / 0.5 * cf.class_count, d = v - 2 - c; ok &= d <= 0.5 + 1e-6; ok &= d >= -0.5 - 1e-6; pr &= p == 1; } else { ok &= v == 0; pr &= p == 0; } }
  sx_assert(ok, "a cell has the class of its slope, or is an obstacle or unknown"); sx_assert(pr, "classified cells are certain and unknown ones are not"); int dr = out->getTraversabilityClass(1).getDrivability() == 0; double last = 0; for (int i = 0; i <= cf.class_count; i++) { double d = out->getTraversabilityClass(2 + i).getDrivability(); dr &= d > last || cf.class_count == 1; last = d; } dr &= sx_near(last, 1, 1e-6); sx_assert(dr, "flatter classes are easier to drive and obstacles cannot be driven"); double du = out->getTraversabilityClass(0).getDrivability(); sx_assert(du >= 0 && du <= 1, "unknown cells have a drivability"); sx_reach("end");
}
#ifndef GW
#define GW 4
#endif
#ifndef GH
#define GH 3
#endif
static void input(Environment& env, Grid<float>*& in, TG*& out, double sx, double sy, const int (*obst)[GH]) { in = new Grid<float>(GW, GH, sx, sy); env.attachItem(in, env.getRootNode()); boost::multi_array<float, 2>& s = in->getGridData("step"); boost::multi_array<float, 2>& l = in->getGridData("slope"); for (int x = 0; x < GW; x++) for (int y = 0; y < GH; y++) { s[y][x] = obst[x][y] ? 1 : 0; l[y][x] = 0; } out = new TG(GW, GH, sx, sy); env.attachItem(out, env.getRootNode()); }
extern "C" void clearance() { // obstacles grow by the clearance, also after the operator was stored
  Environment env; Grid<float>* in; TG* out; int ob[GW][GH] = {}; int n = 1 + pick("obstacles", 2); for (int i = 0; i < n; i++) { int x = pick("x", GW); int y = pick("y", GH); ob[x][y] = 1; } input(env, in, out, 0.5, 1, ob); SimpleTraversabilityConfig cf; cf.maximum_slope = 0.5; cf.class_count = 4; cf.ground_clearance = 0.25; double w = num("width", 0, 36, -4); cf.obstacle_clearance = w; SimpleTraversability* op = new SimpleTraversability(cf); env.attachItem(op); if (pick("unknown", 2)) { in->getGridData("slope")[0][0] = -std::numeric_limits<float>::infinity(); } op->setSlope(in, "slope"); op->setMaxStep(in, "step"); op->setOutput(out, TG::TRAVERSABILITY); op->updateAll(); TG::ArrayType& r = out->getGridData(TG::TRAVERSABILITY);
  int ok = 1, pr = 1, rest = 1; for (int x = 0; x < GW; x++) for (int y = 0; y < GH; y++) { int must = ob[x][y], may = ob[x][y]; for (int a = 0; a < GW; a++) for (int b = 0; b < GH; b++) if (ob[a][b]) { double d2 = (a - x) * (a - x) * 0.25 + (b - y) * (b - y); must |= d2 < w * w - 1e-9; may |= d2 < w * w + 1e-9; } int is = r[y][x] == 1; ok &= is ? may : !must; if (is) pr &= prob(out, x, y) == 1; else rest &= r[y][x] == 6 || r[y][x] == 0; } sx_assert(ok, "cells nearer to an obstacle than the clearance are obstacles, and no others"); sx_assert(pr, "grown obstacles are certain"); sx_assert(rest, "other cells are not changed"); sx_reach("end");
}
extern "C" void stored() { // the settings survive a scene
  Environment env; Grid<float>* in; TG* out; int ob[GW][GH] = {}; ob[1][1] = 1; input(env, in, out, 1, 1, ob); SimpleTraversabilityConfig cf; cf.maximum_slope = 0.5; static const int CC[] = { 1, 4, 10 }; cf.class_count = CC[pick("classes", 3)]; cf.ground_clearance = pick("clearance", 2) ? 0.25 : 2; cf.min_width = pick("width", 2) ? 2.5 : 0; cf.obstacle_clearance = pick("grow", 3) * 0.75; SimpleTraversability* op = new SimpleTraversability(cf); env.attachItem(op); op->setSlope(in, "slope"); op->setMaxStep(in, "step"); op->setOutput(out, TG::TRAVERSABILITY); env.serialize(dir()); Environment* e2 = Environment::unserialize(dir()); op->updateAll(); SimpleTraversability* q = e2->getItem<SimpleTraversability>(op->getUniqueId()).get(); TG* o2 = e2->getItem<TG>(out->getUniqueId()).get(); sx_assert(q && o2, "operator and grid are read back"); if (q && o2) { sx_assert(q->updateAll(), "a stored operator works"); TG::ArrayType& a = out->getGridData(TG::TRAVERSABILITY); TG::ArrayType& b = o2->getGridData(TG::TRAVERSABILITY); int ok = 1; for (int x = 0; x < GW; x++) for (int y = 0; y < GH; y++) ok &= a[y][x] == b[y][x]; sx_assert(ok, "a stored operator has its settings"); } delete e2; sx_reach("end");
}
extern "C" void narrow() { // passages narrower than the width are closed
  Environment env; Grid<float>* in; TG* out; int ob[GW][GH] = {}; for (int i = 0; i < 2; i++) { int x = pick("x", GW); int y = pick("y", GH); ob[x][y] = 1; } input(env, in, out, 1, 1, ob); SimpleTraversabilityConfig cf; cf.maximum_slope = 0.5; cf.class_count = 4; cf.ground_clearance = 0.25; double w = num("width", 1, 32, -3); cf.min_width = w; SimpleTraversability* op = new SimpleTraversability(cf); env.attachItem(op); op->setSlope(in, "slope"); op->setMaxStep(in, "step"); op->setOutput(out, TG::TRAVERSABILITY); op->updateAll(); TG::ArrayType& r = out->getGridData(TG::TRAVERSABILITY);
  int keep = 1, close = 1, only = 1, pr = 1; for (int x = 0; x < GW; x++) for (int y = 0; y < GH; y++) { int is = r[y][x] == 1; keep &= is | !ob[x][y]; if (is) pr &= prob(out, x, y) == 1; int between = 0, may = ob[x][y]; for (int a = 0; a < GW; a++) for (int b = 0; b < GH; b++) for (int c = 0; c < GW; c++) for (int d = 0; d < GH; d++) if (ob[a][b] && ob[c][d] && (a != c || b != d)) { double d2 = (a - c) * (a - c) + (b - d) * (b - d); int on = (b == d && y == b && ((x > a && x < c) || (x > c && x < a))) || (a == c && x == a && ((y > b && y < d) || (y > d && y < b))); if (on) between |= d2 < w * w - 1e-9; int box = x >= std::min(a, c) && x <= std::max(a, c) && y >= std::min(b, d) && y <= std::max(b, d); if (box) may |= d2 < w * w + 1e-9; } close &= is | !between; only &= may | !is; } sx_assert(keep, "obstacles stay obstacles"); sx_assert(close, "passages narrower than the width are closed"); sx_assert(only, "only cells between near obstacles are closed"); sx_assert(pr, "closed cells are certain"); sx_reach("end");
}
extern "C" void sizes() { Environment env; int w = 1 + pick("w", 3); int h = 1 + pick("h", 3); int kind = pick("kind", 3); TG* out = new TG(w, h, 1, 1); env.attachItem(out, env.getRootNode()); bool thrown = false; try { if (kind == 0) { Grid<float>* in = new Grid<float>(2, 2, 1, 1); env.attachItem(in, env.getRootNode()); in->getGridData("slope")[0][0] = num("s", 0, 1, 0); SimpleTraversability* op = new SimpleTraversability(1, 4, 0, 0); env.attachItem(op); op->setSlope(in, "slope"); op->setOutput(out, TG::TRAVERSABILITY); op->updateAll(); } else if (kind == 1) { TG* in = new TG(2, 2, 1, 1); env.attachItem(in, env.getRootNode()); in->setTraversabilityClass(1, TraversabilityClass(0.5)); in->setTraversabilityAndProbability(1, 1, 0, 0); TraversabilityGrowClasses* op = new TraversabilityGrowClasses(); env.attachItem(op); op->setRadius(1.5); op->setInput(in); op->setOutput(out); op->updateAll(); } else { MLSGrid* in = new MLSGrid(2, 2, 1, 1); env.attachItem(in, env.getRootNode()); in->insertHead(0, 0, SP(0, 0.25)); TraversabilityGrassfire* op = new TraversabilityGrassfire(); env.attachItem(op); op->setInput(in); op->setOutput(out); op->setStartPosition(V3(0.5, 0.5, 0)); op->updateAll(); } } catch (const std::runtime_error&) { thrown = true; } sx_assert(thrown == (w != 2 || h != 2), "an output is refused exactly when its size is not that of the input"); sx_reach(thrown ? "refused" : "fits"); }
// ---- growing classes
extern "C" void grow() {
  Environment env; TG* in = new TG(3, 2, 0.5, 1); TG* out = new TG(3, 2, 0.5, 1); env.attachItem(in, env.getRootNode()); env.attachItem(out, env.getRootNode()); double dr[3]; for (int i = 0; i < 3; i++) { dr[i] = num("d", 0, 16, -4); in->setTraversabilityClass(i, TraversabilityClass(dr[i])); } int c[6]; bool known[6]; static const double PR[] = { 0, 0.2, 0.4, 0.6, 0.8, 1 }; for (int i = 0; i < 6; i++) { c[i] = i < 3 ? pick("class", i ? 2 : 3) : i - 3; known[i] = i == 4 || i == 5 ? false : i == 1 ? pick("known", 2) : true; if (i == 5) known[i] = pick("known", 2); in->setTraversabilityAndProbability(c[i], known[i] ? PR[i == 0 ? 5 : i] : 0, i % 3, i / 3); } bool odd = pick("unregistered", 2); if (odd) in->setTraversability(9, 1, 1); if (pick("used", 2)) out->setTraversabilityAndProbability(2, 1, 1, 1);
  double w = num("radius", 0, 20, -4); TraversabilityGrowClasses* op = new TraversabilityGrowClasses(); env.attachItem(op); op->setRadius(w); op->setInput(in); op->setOutput(out); sx_assert(op->updateAll(), "growing succeeds"); TG::ArrayType& r = out->getGridData(TG::TRAVERSABILITY); int ok = 1, un = 1, none = 1; for (int t = 0; t < 6; t++) { int x = t % 3, y = t / 3, any = known[t], far = !known[t]; int v = r[y][x]; double p = prob(out, x, y), least = known[t] ? dr[c[t]] : 2, lo = least; for (int k = 0; k < 6; k++) if (known[k]) { double d2 = (k % 3 - x) * (k % 3 - x) * 0.25 + (k / 3 - y) * (k / 3 - y); int near = d2 < w * w - 1e-9, maybe = d2 < w * w + 1e-9; any |= near; far &= !maybe; least = near && dr[c[k]] < least ? dr[c[k]] : least; lo = maybe && dr[c[k]] < lo ? dr[c[k]] : lo; } if (v < 3 && p > 0) { ok &= dr[v] <= least + 1e-9; ok &= dr[v] >= lo - 1e-9; } un &= (p > 0) | !any; un &= (p == 0) | !far; none &= v < 3 || p == 0; }
  sx_assert(ok, "a cell takes the least drivable class within the radius"); sx_assert(un, "unknown cells become known exactly near known ones"); sx_assert(none, "unknown cells do not grow"); int cls = out->getTraversabilityClasses().size() == 3; for (int i = 0; i < 3; i++) cls &= out->getTraversabilityClass(i).getDrivability() == dr[i]; sx_assert(cls, "the classes are copied"); sx_reach("end");
}
// ---- following the surface
struct Fire { Environment env; MLSGrid* m; TG* g; TraversabilityGrassfire* op; TraversabilityGrassfire::Config cf; double z0;
  Fire(int w, int h) { Fr f; double fz = num("frame_z", -4, 4, 0); f.t = V3(2, 0, fz); z0 = f.t[2]; FrameNode* n = new FrameNode(f.tf()); env.addChild(env.getRootNode(), n); m = new MLSGrid(w, h, 1, 0.5); env.attachItem(m, n); g = new TG(w, h, 1, 0.5); env.attachItem(g, n); op = new TraversabilityGrassfire(); env.attachItem(op); op->setInput(m); op->setOutput(g); cf.maxStepHeight = 0.5; cf.maxSlope = 1; cf.robotHeight = 1; cf.numTraversabilityClasses = 4; cf.numNominalMeasurements = 4; }
  bool run(double x, double y, double z) { op->setConfig(cf); op->setStartPosition(V3(2 + x, y, z0 + z)); return op->updateAll(); }
  int at(int x, int y) { return g->getGridData(TG::TRAVERSABILITY)[y][x]; } };
static SP flat(double z, double n = 1) { SP p(z, 0.125); p.n = n; return p; }
extern "C" void fire_plane() { // classes of slopes, cells with too few neighbours, the measurements give the probability
  Fire f(4, 3); static const double S[] = { 0, 0.25, -0.375, 0.5 }; double a = S[pick("a", 4)]; double b = S[pick("b", 3)]; double n = pick("n", 6); int hole = pick("hole", 12); f.cf.maxStepHeight = 2; for (int x = 0; x < 4; x++) for (int y = 0; y < 3; y++) if (hole == 0 || hole != y * 4 + x) f.m->insertHead(x, y, flat(a * x + b * 0.5 * y, n)); bool r = f.run(0.5, 0.25, 0.125); sx_assert(r, "the surface is followed"); double sl = acos(1 / sqrt(a * a + b * b + 1)); int ok = 1, pr = 1, un = 1; for (int x = 0; x < 4; x++) for (int y = 0; y < 3; y++) { int k = 0; for (int i = -1; i < 2; i++) for (int j = -1; j < 2; j++) { int c = x + i, d = y + j; if ((i || j) && c >= 0 && c < 4 && d >= 0 && d < 3 && (!hole || hole != d * 4 + c)) k++; } bool gone = hole && hole == y * 4 + x; int v = f.at(x, y); double p = f.g->getProbability(x, y); pr &= sx_near(p, gone ? 0 : n >= 4 ? 1 : n / 4, 1 / 255.0 + 1e-9); if (gone || k < 5) un &= v == 0; else if (sl > 1 - 1e-4) ok &= v == 1; else ok &= v == 1 + (int)ceil((1 - sl) * 4 - 1e-3); } sx_assert(ok, "a cell has the class of its slope"); sx_assert(un, "cells without surface or enough neighbours are unknown"); sx_assert(pr, "the probability is the share of the nominal measurements"); sx_reach("end"); }
extern "C" void fire_step() { // a cell at another height: a step, or out of reach
  Fire f(3, 3); int c = pick("cell", 9); int start = pick("start", 4); int sx = start == 1 || start == 2 ? 2 : 0, sy = start >= 2 ? 2 : 0; bool level = pick("level", 2); double h = level ? 0 : num("h", -6, 64, -2); if (c == sy * 3 + sx) sx_kill(); bool some = h < -0.5 - 1e-6 || h > 0.5 + 1e-6; if (!some && !level) sx_kill(); for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) f.m->insertHead(x, y, flat(y * 3 + x == c ? h : 0, 4)); bool r = f.run(sx + 0.5, 0.25 + 0.5 * sy, 0.125); sx_assert(r, "the surface is followed"); bool gone = h - 0.125 > 0.125 + 1.5 + 1e-6; if (!gone && h - 0.125 > 0.125 + 1.5 - 1e-6) sx_kill(); int ok = 1, ob = 1, un = 1; for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) { bool me = y * 3 + x == c; int dx = x - c % 3, dy = y - c / 3; bool by = dx * dx <= 1 && dy * dy <= 1; int v = f.at(x, y); if (gone && me) un &= v == 0; else if (some && !gone && by) ob &= v == 1; else { int k = 0; for (int i = -1; i < 2; i++) for (int j = -1; j < 2; j++) { int a = x + i, b = y + j; if ((i || j) && a >= 0 && a < 3 && b >= 0 && b < 3 && !(gone && b * 3 + a == c)) k++; } if (k < 5) un &= v == 0; else ok &= v == 5; } } sx_assert(ob, "both sides of a step that is too high are obstacles"); sx_assert(un, "what is out of reach is unknown"); sx_assert(ok, "flat ground is of the best class"); sx_reach(gone ? "gone" : some ? "step" : "flat"); }
extern "C" void fire_roof() { // a second surface above the ground: passable when the robot fits below
  Fire f(3, 3); double h = num("roof", 5, 24, -3); int c = 4; for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) { f.m->insertHead(x, y, flat(0, 4)); if (y * 3 + x == c) { if (pick("order", 2)) f.m->insertHead(x, y, flat(h, 4)); else f.m->insertTail(x, y, flat(h, 4)); } } bool r = f.run(0.5, 0.25, 0.125); sx_assert(r, "the surface is followed"); double gap = h - 0.25; bool under = gap >= 1 + 1e-6, low = gap < 1 - 1e-6; if (!under && !low) sx_kill(); if (under) { int ok = 1; ok &= f.at(1, 1) == 5; ok &= f.at(1, 0) == 5; ok &= f.at(0, 1) == 5; sx_assert(ok, "the ground below a roof the robot fits under is drivable"); sx_reach("under"); } else if (h > 0.5 + 1e-6) { sx_assert(f.at(1, 1) == 1 && f.at(0, 1) == 1, "a roof the robot does not fit under is an obstacle"); sx_reach("low"); } else sx_reach("end"); }
extern "C" void fire_start() { // the start is looked for around the position, by height
  Fire f(4, 4); double z = num("start", -8, 8, -2); f.m->insertHead(2, 1, flat(0, 4)); bool two = pick("two", 2); double h = num("h", -8, 8, -2); if (two) f.m->insertHead(2, 3, flat(h, 4)); bool r = f.run(2.5, 1.25, z); bool reach1 = z + 1.5 > -0.125 + 1e-6, no1 = z + 1.5 < -0.125 - 1e-6, reach2 = z + 1.5 > h - 0.125 + 1e-6, no2 = z + 1.5 < h - 0.125 - 1e-6; if (reach1 || (two && reach2)) sx_assert(r, "a surface around the start is found"); if (no1 && (!two || no2)) sx_assert(!r, "without surface in reach nothing is found"); double p1 = f.g->getProbability(2, 1), p2 = f.g->getProbability(2, 3); if (r && two && reach1 && reach2) { double a = z - 0.125, b = z - h - 0.125; a = a < 0 ? -a : a; b = b < 0 ? -b : b; if (a < b - 1e-6) sx_assert(p1 == 1 && p2 == 0, "the surface nearest in height is taken"); else if (b < a - 1e-6) sx_assert(p2 == 1 && p1 == 0, "the surface nearest in height is taken"); sx_reach("both"); } sx_reach(r ? "found" : "missing"); }
