// Gaussian mixtures, expectation maximisation, k-means, sampling and the scalar Kalman update (exact real arithmetic).
#include <vector>
#include <cmath>
#include <cassert>
#include <stdexcept>
#include <algorithm>
#include <Eigen/Core>
#include <Eigen/LU>
#include <envire/tools/GaussianMixture.hpp>
#include <envire/tools/ExpectationMaximization.hpp>
#include <envire/tools/Numeric.hpp>
#include "sx.h"
using namespace envire;
#ifndef DIM
#define DIM 1
#endif
#ifndef NS
#define NS 2
#endif
#ifndef NC
#define NC 2
#endif
typedef GaussianMixture<double, DIM> GMM; typedef Gaussian<double, DIM> G; typedef GMM::Vector Vec; typedef GMM::Matrix Mat;
static const double TOL = 1e-9;
static double num(const char* n, int lo = -100, int hi = 100) { double d = sx_double(n); sx_assume(d >= lo && d <= hi); return d; }
static double pos(const char* n, double lo, double hi) { double d = sx_double(n); sx_assume(d >= lo && d <= hi); return d; }
static Vec vec(const char* n) { Vec v; for (int i = 0; i < DIM; i++) v[i] = num(n); return v; }
static Mat spd(const char* n) { Mat L = Mat::Zero(); for (int i = 0; i < DIM; i++) for (int j = 0; j <= i; j++) L(i, j) = i == j ? pos(n, 0.25, 16) : num(n, -4, 4); Mat r = Mat::Zero(); for (int i = 0; i < DIM; i++) for (int j = 0; j < DIM; j++) for (int k = 0; k < DIM; k++) r(i, j) += L(i, k) * L(j, k); return r; }
// reference density, written out per dimension
static double density(const Vec& x, const Vec& m, const Mat& c) {
#if DIM == 1
  double det = c(0, 0), q = (x[0] - m[0]) * (x[0] - m[0]) / c(0, 0);
#else
  double det = c(0, 0) * c(1, 1) - c(0, 1) * c(1, 0); double a = x[0] - m[0], b = x[1] - m[1];
  double q = (a * a * c(1, 1) - a * b * (c(0, 1) + c(1, 0)) + b * b * c(0, 0)) / det;
#endif
  return pow(2.0 * M_PI, -DIM / 2.0) / sqrt(det) * exp(-0.5 * q);
}
extern "C" void kalman() {
  double a = num("mean"), s = pos("stdev", 0, 100), b = num("m_mean"), t = pos("m_stdev", 0, 100); double m = a, d = s;
  kalman_update(m, d, b, t); double va = s * s, vb = t * t;
  sx_observe_d("mean", m); sx_observe_d("stdev", d);
  if (s == 0 && t == 0) { sx_reach("both certain"); sx_assert(sx_near(m, (a + b) / 2, TOL) && d == 0, "two exact values are averaged"); return; }
  sx_reach("weighted");
  sx_assert(sx_near(m * (va + vb), a * vb + b * va, 1e-7), "fused mean is the precision-weighted mean");
  sx_assert(sx_near(d * d * (va + vb), va * vb, 1e-7), "fused variance is the harmonic combination");
  sx_assert(d >= 0, "fused deviation is not negative"); sx_assert(d <= s + 1e-6 && d <= t + 1e-6, "fusing never increases the uncertainty");
}
extern "C" void kalmanf() {
  float a = (float)num("mean"), s = (float)pos("stdev", 0, 100), b = (float)num("m_mean"), t = (float)pos("m_stdev", 0, 100); float m = a, d = s; sx_assume(s > 0 || t > 0);
  kalman_update(m, d, b, t); double va = (double)s * s, vb = (double)t * t;
  sx_assert(sx_near(m * (va + vb), a * vb + b * va, 1e-3), "fused mean is the precision-weighted mean"); sx_assert(sx_near((double)d * d * (va + vb), va * vb, 1e-3), "fused variance is the harmonic combination"); sx_reach("end");
}
extern "C" void stats() {
  G::Stats st; std::vector<Vec> v; std::vector<double> w; double S = 0; Vec M = Vec::Zero();
  int n = (int)sx_concretize(sx_range("n", 1, NS)); bool weighted = sx_concretize(sx_range("weighted", 0, 1));
  for (int i = 0; i < n; i++) { v.push_back(vec("v")); w.push_back(weighted ? pos("w", 0.125, 100) : 1.0); if (weighted) st.insert(v[i], w[i]); else st.insert(v[i]); }
  for (int i = 0; i < n; i++) { S += w[i]; for (int k = 0; k < DIM; k++) M[k] += v[i][k] * w[i]; } for (int k = 0; k < DIM; k++) M[k] /= S;
  G g = st.update(); sx_reach("end");
  for (int k = 0; k < DIM; k++) sx_assert(sx_near(g.mean[k], M[k], TOL), "mean is the weighted sample mean");
  for (int k = 0; k < DIM; k++) for (int l = 0; l < DIM; l++) { double c = 0; for (int i = 0; i < n; i++) c += w[i] * (v[i][k] - M[k]) * (v[i][l] - M[l]); sx_assert(sx_near(g.cov(k, l), c / S, 1e-7), "covariance is the weighted sample covariance"); }
  G h = st.update(); sx_assert(sx_near(h.mean[0], g.mean[0], TOL), "reading the statistics does not change them");
}
extern "C" void density_single() {
  Vec x = vec("x"), m = vec("m"); Mat c = spd("c"); G g(m, c); double r = g.eval(x); sx_observe_d("density", r); sx_reach("end");
  sx_assert(sx_near(r, density(x, m, c), TOL), "density is the normal density"); sx_assert(r >= 0, "density is not negative");
}
extern "C" void density_mixture() {
  GMM g; Vec x = vec("x"); double e = 0; int k = (int)sx_concretize(sx_range("k", 0, NC));
  for (int i = 0; i < k; i++) { double w = pos("w", 0, 1); Vec m = vec("m"); Mat c = spd("c"); g.params.push_back(GMM::Parameter(w, m, c)); e += w * density(x, m, c); }
  sx_assert(sx_near(g.eval(x), e, TOL), "mixture density is the weighted sum of the component densities"); sx_reach("end");
}
extern "C" void normalise() {
  GMM g; int k = (int)sx_concretize(sx_range("k", 1, NC + 1)); std::vector<double> w; double S = 0;
  for (int i = 0; i < k; i++) { w.push_back(pos("w", 0, 1000)); S += w[i]; g.params.push_back(GMM::Parameter(w[i], Vec::Constant(i), Mat::Identity())); }
  g.normalize(); double T = 0; for (int i = 0; i < k; i++) { T += g.params[i].weight; sx_assert(g.params[i].weight >= 0, "weights stay non-negative"); sx_assert(g.params[i].dist.mean[0] == i, "components keep their distribution"); }
  sx_assert(sx_near(T, 1, TOL), "weights sum to one");
  if (S > 1e-4) { sx_reach("scaled"); for (int i = 0; i < k; i++) sx_assert(sx_near(g.params[i].weight * S, w[i], 1e-7), "weights keep their proportions"); }
  else { sx_reach("tiny"); if (S < 1e-6) for (int i = 0; i < k; i++) sx_assert(sx_near(g.params[i].weight, 1.0 / k, TOL), "degenerate weights become uniform"); }
}
// one expectation-maximisation step against the textbook formulas
extern "C" void em_step() {
  ExpectationMaximization<GMM> em; int n = NS, k = NC; bool weighted = sx_concretize(sx_range("weighted", 0, 1)); std::vector<Vec> x; std::vector<double> w;
  for (int i = 0; i < n; i++) { x.push_back(vec("x")); w.push_back(weighted ? pos("sw", 0.25, 4) : 1.0); } em.samples = x; if (weighted) em.weights = w;
  std::vector<double> pw; std::vector<Vec> pm; std::vector<Mat> pc; for (int j = 0; j < k; j++) { pw.push_back(pos("pw", 0.125, 1)); pm.push_back(vec("pm")); pc.push_back(spd("pc")); em.gmm.params.push_back(GMM::Parameter(pw[j], pm[j], pc[j])); }
  std::vector<std::vector<double> > gam(n, std::vector<double>(k)); double W = 0;
  for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < k; j++) s += gam[i][j] = pw[j] * density(x[i], pm[j], pc[j]); for (int j = 0; j < k; j++) gam[i][j] = gam[i][j] * w[i] / s; W += w[i]; }
  em.step();
  if ((int)em.gmm.params.size() != k) { sx_reach("removed"); sx_assert((int)em.gmm.params.size() < k, "a step never adds components"); return; }
  sx_reach("kept");
  for (int j = 0; j < k; j++) { double nj = 0; for (int i = 0; i < n; i++) nj += gam[i][j]; Vec m = Vec::Zero(); for (int i = 0; i < n; i++) for (int d = 0; d < DIM; d++) m[d] += gam[i][j] * x[i][d];
    sx_assert(sx_near(em.gmm.params[j].weight * W, nj, 1e-6), "component weight is its share of the responsibilities");
    for (int d = 0; d < DIM; d++) sx_assert(sx_near(em.gmm.params[j].dist.mean[d] * nj, m[d], 1e-6), "component mean is the responsibility-weighted mean");
    for (int d = 0; d < DIM; d++) for (int e = 0; e < DIM; e++) { double c = 0; for (int i = 0; i < n; i++) c += gam[i][j] * (x[i][d] - em.gmm.params[j].dist.mean[d]) * (x[i][e] - em.gmm.params[j].dist.mean[e]); sx_assert(sx_near(em.gmm.params[j].dist.cov(d, e) * nj, c, 1e-6), "component covariance is the responsibility-weighted covariance"); } }
  double T = 0; for (int j = 0; j < k; j++) T += em.gmm.params[j].weight; sx_assert(sx_near(T, 1, 1e-6), "weights sum to one");
}
// components without support are dropped, exactly those, and the others are those of the mixture without them
extern "C" void em_drop() {
  int k = 3, n = 3; ExpectationMaximization<GMM> em, ref; std::vector<int> kept;
  for (int i = 0; i < n; i++) { Vec v = Vec::Constant(i); em.samples.push_back(v); ref.samples.push_back(v); }
  Mat c = Mat::Identity(); Vec m = vec("pm");
  for (int j = 0; j < k; j++) { bool dead = sx_concretize(sx_range("dead", 0, 1)); double w = dead ? 0.0 : pos("pw", 0.125, 1); GMM::Parameter q(w, m, c); em.gmm.params.push_back(q); if (!dead) { ref.gmm.params.push_back(q); kept.push_back(j); } }
  if (kept.empty()) sx_kill();
  double le = em.step(), lr = ref.step();
  if ((int)ref.gmm.params.size() != (int)kept.size()) sx_kill();
  sx_reach("end"); if (kept.size() == 1) sx_reach("two dropped");
  sx_assert(em.gmm.params.size() == kept.size(), "exactly the components without support are dropped"); if (em.gmm.params.size() != kept.size()) return;
  sx_assert(sx_near(le, lr, 1e-6), "a component without support does not change the likelihood");
  for (size_t j = 0; j < kept.size(); j++) { sx_assert(sx_near(em.gmm.params[j].weight, ref.gmm.params[j].weight, 1e-6), "the remaining components are kept in order"); sx_assert(sx_near(em.gmm.params[j].dist.mean[0], ref.gmm.params[j].dist.mean[0], 1e-6), "the remaining components are kept in order"); }
}
// log likelihood of a step
extern "C" void em_likelihood() {
  ExpectationMaximization<GMM> em; int n = (int)sx_concretize(sx_range("n", 1, 2)), k = (int)sx_concretize(sx_range("k", 0, 2)); bool weighted = sx_concretize(sx_range("weighted", 0, 1)); double e = 0;
  std::vector<Vec> x; for (int i = 0; i < n; i++) { x.push_back(vec("x")); if (weighted) em.weights.push_back(pos("sw", 0.25, 4)); } em.samples = x;
  for (int j = 0; j < k; j++) { double w = pos("pw", 0.125, 1); Vec m = vec("pm"); Mat c = Mat::Identity(); em.gmm.params.push_back(GMM::Parameter(w, m, c)); }
  GMM before = em.gmm; double l = em.step();
  if (k == 0 || n < k) { sx_reach("too few"); sx_assert(l == 0 && em.gmm.params.size() == before.params.size(), "fewer samples than components leave the mixture as it is"); for (int j = 0; j < k; j++) sx_assert(em.gmm.params[j].dist.mean[0] == before.params[j].dist.mean[0] && em.gmm.params[j].weight == before.params[j].weight, "fewer samples than components leave the mixture as it is"); return; }
  for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < k; j++) s += before.params[j].weight * density(x[i], before.params[j].dist.mean, before.params[j].dist.cov); e += log(s); }
  sx_assert(sx_near(l, e / n, 1e-6), "a step reports the mean log likelihood of the mixture before it"); sx_reach("end");
}
// initialisation from samples: clusters of k-means with equal weights, whatever the object held before
extern "C" void em_init() {
  ExpectationMaximization<GMM> em; if (sx_concretize(sx_range("used", 0, 1))) { em.samples.assign(3, Vec::Constant(1)); em.weights.assign(3, 2.0); em.gmm.params.assign(3, GMM::Parameter(0.5, Vec::Constant(9), Mat::Identity())); sx_reach("used"); }
  int n = 2, k = (int)sx_concretize(sx_range("k", 1, 2)); bool weighted = sx_concretize(sx_range("weighted", 0, 1)); std::vector<Vec> x; std::vector<double> w;
  for (int i = 0; i < n; i++) { Vec v; for (int d = 0; d < DIM; d++) v[d] = sx_dyadic("x", -64, 64, -3); x.push_back(v); if (weighted) w.push_back(sx_dyadic("w", 1, 32, -3)); } sx_assume(x[0][0] != x[1][0]);
  em.initialize(k, x, w); sx_reach("end");
  sx_assert((int)em.samples.size() == n && em.weights.size() == w.size() && (int)em.gmm.params.size() == k, "samples, weights and components are those requested"); if ((int)em.gmm.params.size() != k || (int)em.samples.size() != n || em.weights.size() != w.size()) return;
  for (int i = 0; i < n; i++) { sx_assert(em.samples[i][0] == x[i][0], "samples are stored in order"); if (weighted) sx_assert(em.weights[i] == w[i], "weights are stored in order"); }
  for (int j = 0; j < k; j++) sx_assert(sx_near(em.gmm.params[j].weight, 1.0 / k, TOL), "components start with equal weight");
  if (k == 1) { double a = weighted ? w[0] : 1, b = weighted ? w[1] : 1; for (int d = 0; d < DIM; d++) sx_assert(sx_near(em.gmm.params[0].dist.mean[d] * (a + b), x[0][d] * a + x[1][d] * b, 1e-6), "a single component starts at the mean of the samples"); }
  else for (int j = 0; j < 2; j++) for (int d = 0; d < DIM; d++) sx_assert(sx_near(em.gmm.params[j].dist.mean[d], x[j][d], 1e-6), "two components start at the two samples");
}
// running: as many steps as allowed, fewer once the likelihood settles; a step after the run continues from its result
extern "C" void em_run() {
  ExpectationMaximization<GMM> em; for (int i = 0; i < 2; i++) em.samples.push_back(vec("x"));
  Vec m = vec("pm"); Mat c = Mat::Identity(); em.gmm.params.push_back(GMM::Parameter(pos("pw", 0.5, 1), m, c)); int it = (int)sx_concretize(sx_range("iter", 0, 3));
  sx_assume(em.samples[0][0] - em.samples[1][0] > 0.5); ExpectationMaximization<GMM> ref(em); double delta = pos("delta", 0.0625, 1000), last = 0; int done = 0;
  em.run(delta, it);
  for (; done < it; done++) { double l = ref.step(); double diff = l - last; if (diff < 0) diff = -diff; last = l; if (!(diff > delta)) { done++; break; } }
  sx_assert(em.gmm.params.size() == ref.gmm.params.size(), "running is iterating steps until the likelihood settles");
  if (em.gmm.params.size() == 1 && ref.gmm.params.size() == 1) { sx_assert(sx_near(em.gmm.params[0].weight, ref.gmm.params[0].weight, 1e-6), "running is iterating steps until the likelihood settles"); sx_assert(sx_near(em.gmm.params[0].dist.mean[0], ref.gmm.params[0].dist.mean[0], 1e-6), "running is iterating steps until the likelihood settles"); sx_assert(sx_near(em.gmm.params[0].dist.cov(0,0), ref.gmm.params[0].dist.cov(0,0), 1e-6), "running is iterating steps until the likelihood settles"); }
  if (done < it) sx_reach("settled"); sx_reach("end");
}
// k-means: every sample ends in the cluster whose mean is nearest, cluster parameters are those of its members
struct KM : KMeans<GMM> { std::vector<int>& idx() { return index; } };
extern "C" void kmeans() {
  int n = (int)sx_concretize(sx_range("n", 2, NS)), k = (int)sx_concretize(sx_range("k", 1, NC)); if (k > n) sx_kill(); bool weighted = sx_concretize(sx_range("weighted", 0, 1));
  std::vector<Vec> x; std::vector<double> w; for (int i = 0; i < n; i++) { Vec v; for (int d = 0; d < DIM; d++) v[d] = sx_dyadic("x", -64, 64, -3); x.push_back(v); if (weighted) w.push_back(sx_dyadic("w", 1, 32, -3)); }
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { bool diff = false; for (int d = 0; d < DIM; d++) diff |= x[i][d] != x[j][d]; sx_assume(diff); }
  KM km; km.initialize(k, x, w); km.run(); std::vector<G> c = km.getClusters();
  sx_assert((int)c.size() == k, "as many clusters as requested"); sx_reach("end");
  std::vector<double> S(k, 0.0); std::vector<Vec> M(k, Vec::Zero()); bool empty = false;
  for (int i = 0; i < n; i++) { int a = km.idx()[i]; sx_assert(a >= 0 && a < k, "assignment is a valid cluster"); S[a] += weighted ? w[i] : 1; M[a] += x[i] * (weighted ? w[i] : 1.0); }
  for (int j = 0; j < k; j++) if (S[j] == 0) empty = true; if (empty) { sx_reach("empty"); return; }
  for (int j = 0; j < k; j++) { M[j] /= S[j]; for (int d = 0; d < DIM; d++) sx_assert(sx_near(c[j].mean[d], M[j][d], 1e-7), "cluster mean is the mean of its members"); }
  for (int i = 0; i < n; i++) { int a = km.idx()[i]; double da = 0; for (int d = 0; d < DIM; d++) da += (x[i][d] - c[a].mean[d]) * (x[i][d] - c[a].mean[d]);
    for (int j = 0; j < k; j++) { double dj = 0; for (int d = 0; d < DIM; d++) dj += (x[i][d] - c[j].mean[d]) * (x[i][d] - c[j].mean[d]); sx_assert(da <= dj + 1e-6, "every sample belongs to the cluster with the nearest mean"); } }
}
extern "C" void sampling() {
  GMM g; int k = (int)sx_concretize(sx_range("k", 0, NC)); std::vector<double> w; double S = 0;
  for (int j = 0; j < k; j++) { w.push_back(pos("w", 0, 1)); S += w[j]; Vec m = vec("m"); Mat c = spd("c"); g.params.push_back(GMM::Parameter(w[j], m, c)); }
  long seed = sx_concretize(sx_range("seed", 1, 3)) * 7919; GaussianMixtureSampling<GMM> s(g, seed), ref(g, seed);
  for (int round = 0; round < 2; round++) {
    Vec z; for (int d = 0; d < DIM; d++) z[d] = ref.rand_norm(); double r = ref.rand_uni(); Vec v; bool thrown = false;
    try { v = s.sample(); } catch (std::runtime_error&) { thrown = true; }
    double c = 0; int pick = -1; for (int j = 0; j < k && pick < 0; j++) { c += w[j]; if (c >= r) pick = j; } pick = (int)sx_concretize(pick);
    if (pick < 0) { sx_assert(thrown, "a mixture that does not reach the drawn mass is rejected"); sx_reach("rejected"); return; }
    sx_assert(!thrown, "a mixture that reaches the drawn mass is sampled"); sx_reach("drawn");
    // v - mean = L z with L L^T = cov, L lower triangular with positive diagonal
    const Mat& C = g.params[pick].dist.cov; const Vec& m = g.params[pick].dist.mean;
#if DIM == 1
    sx_assert(sx_near(v[0], m[0] + sqrt(C(0, 0)) * z[0], 1e-7), "a sample is the chosen component's mean plus its scaled deviate");
#else
    double l00 = sqrt(C(0, 0)), l10 = C(1, 0) / l00, l11 = sqrt(C(1, 1) - l10 * l10);
    sx_assert(sx_near(v[0], m[0] + l00 * z[0], 1e-7), "a sample is the chosen component's mean plus its scaled deviate"); sx_assert(sx_near(v[1], m[1] + l10 * z[0] + l11 * z[1], 1e-7), "a sample is the chosen component's mean plus its scaled deviate");
#endif
  }
}
