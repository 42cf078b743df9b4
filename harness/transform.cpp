// Relative transforms in the frame tree and propagation of uncertainty (exact rational arithmetic, run with --real).
#include "core_model.h"
#include <math.h>
typedef Eigen::Matrix3d M3; typedef Eigen::Vector3d V3; typedef TransformWithUncertainty TU; typedef Eigen::Matrix<double, 6, 6> M6;
static const double TOL = 1e-7;
static double num(const char* n, int lim = 50) { double v = sx_double(n); sx_assume(v >= -lim); sx_assume(v <= lim); return v; }
static V3 vec(const char* n, int lim = 50) { V3 r; for (int i = 0; i < 3; i++) r[i] = num(n, lim); return r; }
// rotations of the table: none, quarter turns, 3-4-5 and 5-12-13 turns
static M3 turn(int k) { M3 r; switch (k) { case 0: r << 1, 0, 0, 0, 1, 0, 0, 0, 1; break; case 1: r << 0, -1, 0, 1, 0, 0, 0, 0, 1; break; case 2: r << 1, 0, 0, 0, 0.6, -0.8, 0, 0.8, 0.6; break; case 3: r << 0.28, 0, 0.96, 0, 1, 0, -0.96, 0, 0.28; break; default: r << -1, 0, 0, 0, -1, 0, 0, 0, 1; } return r; }
struct Fr { M3 R; V3 t; Fr() : R(M3::Identity()), t(V3::Zero()) {} V3 operator()(const V3& p) const { V3 q; for (int i = 0; i < 3; i++) q[i] = R(i, 0) * p[0] + R(i, 1) * p[1] + R(i, 2) * p[2] + t[i]; return q; } };
static bool nearV(const V3& a, const V3& b) { bool r = true; for (int i = 0; i < 3; i++) r = r && sx_near(a[i], b[i], TOL * 100); return r; }
static Transform tf(const Fr& f) { Transform t = Transform::Identity(); t.linear() = f.R; t.translation() = f.t; return t; }
#ifndef TURNS
#define TURNS 3
#endif
struct Tree { Environment env; FrameNode* n[NF + 1]; Fr f[NF + 1]; int par[NF + 1]; bool unc;
  int rootOf(int i) { while (par[i] >= 0) i = par[i]; return i; } V3 up(int i, V3 p) { while (par[i] >= 0) { p = f[i](p); i = par[i]; } return p; }
  void give(int i) { f[i].R = turn((int)sx_concretize(sx_range("turn", 0, TURNS - 1))); f[i].t = vec("t"); }
  // frame NF is the root; an orphan has no parent
  Tree(bool unc) : unc(unc) { n[NF] = env.getRootNode(); par[NF] = -1; for (int i = 0; i < NF; i++) { give(i); if (unc && pick("uncertain", 2)) { TU::Covariance c = TU::Covariance::Identity(); n[i] = new FrameNode(TU(tf(f[i]), c)); } else n[i] = new FrameNode(tf(f[i])); int p = pick("parent", i + 2); if (p == i + 1) { env.attachItem(n[i]); par[i] = -1; } else { int q = p == i ? NF : p; if (i && pick("how", 2)) n[q]->addChild(n[i]); else env.addChild(n[q], n[i]); par[i] = q; } } }
};
static void relation(Tree& w, int a, int b) {
  V3 p = vec("p"); bool same = w.rootOf(a) == w.rootOf(b); Transform r = Transform::Identity(), r2 = r; bool th = false; int how = pick("api", 3);
  try { if (how == 0) r = w.env.relativeTransform(w.n[a], w.n[b]); else if (how == 1) r = w.n[a]->relativeTransform(w.n[b]); else { TU u = w.env.relativeTransformWithUncertainty(w.n[a], w.n[b]); r = u.getTransform(); if (!w.unc) sx_assert(!u.hasUncertainty(), "certain frames give a certain relative transform"); } } catch (std::runtime_error&) { th = true; }
  sx_assert(th == !same, "frames of different trees have no relative transform"); sx_reach(same ? "same tree" : "other tree"); if (!same) return;
  sx_assert(nearV(w.up(b, r * p), w.up(a, p)), "a point and its image denote the same place in the root frame"); sx_assert(w.n[a]->getRoot() == w.n[w.rootOf(a)], "the root of a frame is the top of its tree");
}
extern "C" void relative() { Tree w(false); int a = pick("from", NF + 1), b = pick("to", NF + 1); relation(w, a, b); sx_reach("end"); }
// the same after changes: a new transform for a frame, a frame moved elsewhere or taken out
extern "C" void relative_changed() {
  Tree w(false); int k = pick("frame", NF), act = pick("act", 3);
  if (act == 0) { w.give(k); if (pick("how", 2)) w.n[k]->setTransform(tf(w.f[k])); else w.n[k]->setTransform(TU(tf(w.f[k]))); sx_reach("set"); }
  else if (act == 1) { int q = pick("newparent", NF + 1); for (int i = q; i >= 0; i = w.par[i]) if (i == k) sx_kill(); w.env.addChild(w.n[q], w.n[k]); w.par[k] = q; sx_reach("moved"); }
  else { if (w.par[k] < 0) sx_kill(); w.env.removeChild(w.n[w.par[k]], w.n[k]); w.par[k] = -1; sx_reach("removed"); }
  int a = pick("from", NF + 1), b = pick("to", NF + 1); relation(w, a, b);
}
extern "C" void relative_uncertain() { Tree w(true); int a = pick("from", NF + 1), b = pick("to", NF + 1); V3 p = vec("p"); if (w.rootOf(a) != w.rootOf(b)) sx_kill(); TU u = w.env.relativeTransformWithUncertainty(w.n[a], w.n[b]); sx_assert(nearV(w.up(b, u.getTransform() * p), w.up(a, p)), "a point and its image denote the same place in the root frame"); bool any = false; if (a != b) for (int s = 0; s < 2; s++) for (int i = s ? b : a; w.par[i] >= 0; i = w.par[i]) any = any || w.n[i]->getTransformWithUncertainty().hasUncertainty(); sx_assert(u.hasUncertainty() == any, "a relative transform is uncertain when a transform on the way is"); sx_reach(any ? "uncertain" : "certain"); }
// maps: points into and out of a map, and the bounding box in another frame
struct BMap : public Map<2> { Extents e; BMap(const Extents& e) : e(e) {} Extents getExtents() const { return e; } EIGEN_MAKE_ALIGNED_OPERATOR_NEW };
struct BMap3 : public Map<3> { Extents e; BMap3(const Extents& e) : e(e) {} Extents getExtents() const { return e; } EIGEN_MAKE_ALIGNED_OPERATOR_NEW };
extern "C" void map_points() {
  Tree w(false); for (int i = 0; i < NF; i++) if (w.rootOf(i) != NF) sx_kill(); int a = pick("frame", NF + 1), b = pick("other", NF + 1); BMap* m = new BMap(Eigen::AlignedBox2d()); BMap* o = new BMap(Eigen::AlignedBox2d()); w.env.attachItem(m, w.n[a]); w.env.attachItem(o, w.n[b]); V3 p = vec("p");
  switch (pick("api", 5)) { case 0: sx_assert(nearV(w.up(a, m->toMap(p)), p), "a point of the root frame is brought into the frame of the map"); break; case 1: sx_assert(nearV(w.up(a, m->toMap(p, *w.n[b])), w.up(b, p)), "a point of a frame is brought into the frame of the map"); break;
    case 2: sx_assert(nearV(m->fromMap(p), w.up(a, p)), "a point of the map is brought into the root frame"); break; case 3: sx_assert(nearV(w.up(b, m->fromMap(p, *w.n[b])), w.up(a, p)), "a point of the map is brought into a frame"); break;
    case 4: sx_assert(nearV(w.up(b, w.env.relativeTransform(m, o) * p), w.up(a, p)), "maps relate as their frames do"); break; } sx_reach("end");
}
template <class MAP, int D> static void extents_() {
  Tree w(false); for (int i = 0; i < NF; i++) if (w.rootOf(i) != NF) sx_kill(); int a = pick("frame", NF + 1), b = pick("other", NF + 1); Eigen::AlignedBox<double, D> e; V3 lo = V3::Zero(), hi = lo; for (int i = 0; i < D; i++) { lo[i] = num("lo"); hi[i] = num("hi"); sx_assume(lo[i] <= hi[i]); e.min()[i] = lo[i]; e.max()[i] = hi[i]; } MAP* m = new MAP(e); w.env.attachItem(m, w.n[a]);
  Eigen::AlignedBox<double, D> r = m->getExtentsTransformed(*w.n[b]); Transform t = w.env.relativeTransform(w.n[a], w.n[b]);
  // every face of the box touches the image of the map, and no corner of the map is outside
  for (int i = 0; i < D; i++) { double mn = t.translation()[i], mx = mn; for (int j = 0; j < D; j++) { double c = t.linear()(i, j); double x = c * lo[j], y = c * hi[j]; if (c >= 0) { mn += x; mx += y; } else { mn += y; mx += x; } } sx_assert(sx_near(r.min()[i], mn, TOL * 100) && sx_near(r.max()[i], mx, TOL * 100), "the box in another frame is the smallest around the transformed box"); } sx_reach("end");
}
extern "C" void extents2() { extents_<BMap, 2>(); }
extern "C" void extents3() { extents_<BMap3, 3>(); }
// a symbolic angle: every rotation about an axis
extern "C" void relative_angle() {
  Environment env; double c = sx_double("c"), s = sx_double("s"); sx_assume(c >= -1); sx_assume(c <= 1); sx_assume(c * c + s * s == 1); int ax = pick("axis", 3), i = (ax + 1) % 3, j = (ax + 2) % 3; Fr f, g; f.R(i, i) = c; f.R(j, j) = c; f.R(i, j) = -s; f.R(j, i) = s; f.t = vec("t", 10); g.R = turn(pick("turn", TURNS)); g.t = vec("u", 10); FrameNode* a = new FrameNode(tf(f)); FrameNode* b = new FrameNode(tf(g)); env.addChild(env.getRootNode(), a); bool chain = pick("chain", 2); env.addChild(chain ? a : env.getRootNode(), b); V3 p = vec("p", 10);
  switch (pick("dir", 4)) { case 0: sx_assert(nearV(env.relativeTransform(a, env.getRootNode()) * p, f(p)), "a frame transforms into its parent by its transform"); break; case 1: sx_assert(nearV(env.relativeTransform(env.getRootNode(), a) * f(p), p), "the way back undoes the way"); break;
    case 2: if (chain) sx_assert(nearV(env.relativeTransform(env.getRootNode(), b) * f(g(p)), p), "the way back undoes the way"); else sx_assert(nearV(env.relativeTransform(b, a) * g.t, env.relativeTransform(env.getRootNode(), a) * g(g.t)), "a relative transform leads over the common parent"); break;
    case 3: if (chain) sx_assert(nearV(env.relativeTransform(b, env.getRootNode()) * p, f(g(p))), "transforms compose along the way"); else sx_assert(nearV(env.relativeTransform(a, b) * p, env.relativeTransform(env.getRootNode(), b) * f(p)), "a relative transform leads over the common parent"); break; } sx_reach("end");
}
