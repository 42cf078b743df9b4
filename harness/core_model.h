// A small environment with a pool of items of every kind, a reference model of it, and the operations of the public interface.
#pragma once
#include <envire/Core.hpp>
#include <envire/core/Event.hpp>
#include <envire/core/EventHandler.hpp>
#include <envire/core/Serialization.hpp>
#include <set>
#include <vector>
#include <string>
#include <algorithm>
#include "sx.h"
#ifndef NF
#define NF 2
#endif
#ifndef NL
#define NL 1
#endif
#ifndef NM
#define NM 1
#endif
#ifndef NO
#define NO 1
#endif
namespace envire {
static int g_dtor[16];
struct TLayer : public Layer { ENVIRONMENT_ITEM(TLayer)
public: int value, slot; TLayer() : Layer(Environment::ITEM_NOT_ATTACHED), value(0), slot(-1) {} TLayer(std::string const& id) : Layer(id), value(0), slot(-1) {} ~TLayer() { if (slot >= 0) g_dtor[slot]++; }
  TLayer(const TLayer& o) : Layer(o), value(o.value), slot(-1) {} TLayer& operator=(const TLayer& o) { Layer::operator=(o); value = o.value; return *this; }
  void serialize(Serialization& so) { Layer::serialize(so); so.write("value", value); } void unserialize(Serialization& so) { Layer::unserialize(so); so.read("value", value); } };
struct TMap : public Map<2> { ENVIRONMENT_ITEM(TMap)
public: int value, slot; TMap() : value(0), slot(-1) {} TMap(std::string const& id) : Map<2>(id), value(0), slot(-1) {} ~TMap() { if (slot >= 0) g_dtor[slot]++; } Extents getExtents() const { return Extents(); }
  TMap(const TMap& o) : Map<2>(o), value(o.value), slot(-1) {} TMap& operator=(const TMap& o) { Map<2>::operator=(o); value = o.value; return *this; }
  void serialize(Serialization& so) { Layer::serialize(so); so.write("value", value); } void unserialize(Serialization& so) { Layer::unserialize(so); so.read("value", value); } };
struct TOp : public Operator { ENVIRONMENT_ITEM(TOp)
public: int updates, slot; TOp() : updates(0), slot(-1) {} TOp(int i, int o) : Operator(i, o), updates(0), slot(-1) {} ~TOp() { if (slot >= 0) g_dtor[slot]++; } TOp(const TOp& o) : Operator(o), updates(o.updates), slot(-1) {} TOp& operator=(const TOp& o) { updates = o.updates; return *this; } bool updateAll() { updates++; return true; } };
struct TFrame : public FrameNode { int slot; TFrame() : slot(-1) {} TFrame(const Transform& t) : FrameNode(t), slot(-1) {} ~TFrame() { if (slot >= 0) g_dtor[slot]++; } EIGEN_MAKE_ALIGNED_OPERATOR_NEW };
ENVIRONMENT_ITEM_DEF(TLayer)
ENVIRONMENT_ITEM_DEF(TMap)
ENVIRONMENT_ITEM_DEF(TOp)
}
using namespace envire;
#ifndef SX_SHARDS
#define SX_SHARDS 1
#define SX_SHARD 0
#endif
static int pick(const char* n, int k) { return (int)sx_concretize(sx_range(n, 0, k - 1)); }
static inline int share(const char* n, int k) { int v = pick(n, k); if (v % SX_SHARDS != SX_SHARD) sx_kill(); return v; }
// items: 0..NF-1 frames, then NL layers, NM maps, NO operators; layers are NL layers followed by the NM maps
enum { F0 = 0, L0 = NF, M0 = NF + NL, O0 = NF + NL + NM, N = NF + NL + NM + NO };
template <class T> static bool has(const std::list<T>& l, T x) { return std::find(l.begin(), l.end(), x) != l.end(); }
struct World {
  Environment* env; EnvironmentItem::Ptr held[N]; EnvironmentItem* it[N]; TFrame* f[NF + 1]; Layer* lay[NL + NM + 1]; TMap* m[NM + 1]; TOp* o[NO + 1];
  bool att[N]; std::string id[N]; int par[NF]; /* -2 none, -1 root, else frame */ int fr[NM + 1]; /* -2 none, -1 root */ std::set<std::pair<int, int> > tree /* child, parent */, in, out;
  World(Environment* e, bool hold = true) : env(e) {
    int k = 0; for (int i = 0; i < NF; i++) { f[i] = new TFrame(); f[i]->slot = k; it[k++] = f[i]; } for (int i = 0; i < NL; i++) { TLayer* l = new TLayer(); l->slot = k; lay[i] = l; it[k++] = l; }
    for (int i = 0; i < NM; i++) { m[i] = new TMap(); m[i]->slot = k; lay[NL + i] = m[i]; it[k++] = m[i]; } for (int i = 0; i < NO; i++) { o[i] = new TOp(); o[i]->slot = k; it[k++] = o[i]; }
    for (int i = 0; i < N; i++) { att[i] = false; if (hold) held[i] = it[i]; g_dtor[i] = 0; } for (int i = 0; i < NF; i++) par[i] = -2; for (int i = 0; i < NM; i++) fr[i] = -2;
  }
  FrameNode* fn(int i) { return i == -1 ? env->getRootNode() : (FrameNode*)f[i]; }
  void noteAttached(int i) { att[i] = true; id[i] = it[i]->getUniqueId(); }
  void mAttach(int i) { if (att[i]) return; noteAttached(i); }
  void attach(int i) { if (i >= M0 && i < O0) { env->attachItem(m[i - M0]); if (fr[i - M0] == -2) fr[i - M0] = -1; } else env->attachItem(it[i]); mAttach(i); }
  void mDetach(int i) { att[i] = false; if (i < L0) { par[i] = -2; for (int j = 0; j < NF; j++) if (par[j] == i) par[j] = -2; for (int j = 0; j < NM; j++) if (fr[j] == i) fr[j] = -2; }
    else if (i < O0) { int l = i - L0; std::set<std::pair<int, int> > t, a, b; for (auto& p : tree) if (p.first != l && p.second != l) t.insert(p); for (auto& p : in) if (p.second != l) a.insert(p); for (auto& p : out) if (p.second != l) b.insert(p); tree = t; in = a; out = b; if (i >= M0) fr[i - M0] = -2; }
    else { int q = i - O0; std::set<std::pair<int, int> > a, b; for (auto& p : in) if (p.first != q) a.insert(p); for (auto& p : out) if (p.first != q) b.insert(p); in = a; out = b; } }
  void mDeep(int i) { if (i < L0) { for (int j = 0; j < NF; j++) if (par[j] == i) mDeep(j); for (int j = 0; j < NM; j++) if (fr[j] == i) mDetach(M0 + j); } mDetach(i); }
  bool under(int a, int b) { for (int k = 0; k <= NF && a >= 0; k++) { if (a == b) return true; a = par[a]; } return false; }
  // one arbitrary operation out of the set of kinds; void choices end the path
  enum { ATTACH, DETACH, DEEP, FADD, FREM, LADD, LREM, SETF, DETF, INADD, OUTADD, INREM, OUTREM, INCLR, OUTCLR, KINDS };
  const char* last;
  void step(unsigned mask) {
    int ks[KINDS], n = 0; for (int k = 0; k < KINDS; k++) if (mask & (1u << k)) ks[n++] = k; int op = ks[pick("op", n)];
    switch (op) {
    case ATTACH: { int i = pick("item", N); if (att[i]) sx_kill(); attach(i); last = "attach"; break; }
    case DETACH: { int i = pick("item", N); if (!att[i]) sx_kill(); EnvironmentItem::Ptr p = pick("via", 2) ? it[i]->detach() : env->detachItem(it[i]); sx_assert(p.get() == it[i], "detaching hands the item back"); mDetach(i); last = "detach"; break; }
    case DEEP: { int i = pick("item", NF); if (!att[i]) sx_kill(); env->detachItem(it[i], true); mDeep(i); last = "deep"; break; }
    case FADD: { int p = pick("parent", NF + 1) - 1, c = pick("child", NF); if (p == c || (p >= 0 && !att[p]) || under(p, c)) sx_kill(); if (pick("via", 2)) fn(p)->addChild(f[c]); else env->addChild(fn(p), f[c]); mAttach(c); par[c] = p; last = "add child frame"; break; }
    case FREM: { int p = pick("parent", NF + 1) - 1, c = pick("child", NF); if (p == c) sx_kill(); env->removeChild(fn(p), f[c]); if (par[c] == p) par[c] = -2; last = "remove child frame"; break; }
    case LADD: { int p = pick("parent", NL + NM), c = pick("child", NL + NM); if (p == c || !att[L0 + p]) sx_kill(); if (pick("via", 2)) lay[p]->addChild(lay[c]); else env->addChild(lay[p], lay[c]); if (!att[L0 + c]) noteAttached(L0 + c); tree.insert(std::make_pair(c, p)); last = "add child layer"; break; }
    case LREM: { int p = pick("parent", NL + NM), c = pick("child", NL + NM); if (p == c || !att[L0 + p] || !att[L0 + c]) sx_kill(); env->removeChild(lay[p], lay[c]); tree.erase(std::make_pair(c, p)); last = "remove child layer"; break; }
    case SETF: { int i = pick("map", NM), p = pick("frame", NF + 1) - 1; if (pick("via", 2)) { if (!att[M0 + i]) sx_kill(); m[i]->setFrameNode(fn(p)); } else env->setFrameNode(m[i], fn(p)); mAttach(M0 + i); if (p >= 0) mAttach(p); fr[i] = p; last = "set frame"; break; }
    case DETF: { int i = pick("map", NM), p = pick("frame", NF + 1) - 1; env->detachFrameNode(m[i], fn(p)); if (fr[i] == p) fr[i] = -2; last = "detach frame"; break; }
    case INADD: { int q = pick("oper", NO), l = pick("layer", NL + NM); if (pick("via", 2)) { if (!att[O0 + q]) sx_kill(); o[q]->addInput(lay[l]); } else { bool fresh = !in.count(std::make_pair(q, l)); bool r = env->addInput(o[q], lay[l]); sx_assert(r == fresh, "adding an input tells whether it was new"); } linked(q, l); in.insert(std::make_pair(q, l)); last = "add input"; break; }
    case OUTADD: { int q = pick("oper", NO), l = pick("layer", NL + NM); if (pick("via", 2)) { if (!att[O0 + q]) sx_kill(); o[q]->addOutput(lay[l]); } else { bool fresh = !out.count(std::make_pair(q, l)); bool r = env->addOutput(o[q], lay[l]); sx_assert(r == fresh, "adding an output tells whether it was new"); } linked(q, l); out.insert(std::make_pair(q, l)); last = "add output"; break; }
    case INREM: { int q = pick("oper", NO), l = pick("layer", NL + NM); if (!att[O0 + q]) sx_kill(); if (pick("via", 2)) o[q]->removeInput(lay[l]); else env->removeInput(o[q], lay[l]); in.erase(std::make_pair(q, l)); last = "remove input"; break; }
    case OUTREM: { int q = pick("oper", NO), l = pick("layer", NL + NM); if (!att[O0 + q]) sx_kill(); if (pick("via", 2)) o[q]->removeOutput(lay[l]); else env->removeOutput(o[q], lay[l]); out.erase(std::make_pair(q, l)); last = "remove output"; break; }
    case INCLR: { int q = pick("oper", NO); if (!att[O0 + q]) sx_kill(); if (pick("via", 2)) o[q]->removeInputs(); else env->removeInputs(o[q]); drop(in, q); last = "remove inputs"; break; }
    case OUTCLR: { int q = pick("oper", NO); if (!att[O0 + q]) sx_kill(); if (pick("via", 2)) o[q]->removeOutputs(); else env->removeOutputs(o[q]); drop(out, q); last = "remove outputs"; break; }
    }
  }
  void linked(int q, int l) { if (!att[O0 + q]) noteAttached(O0 + q); if (!att[L0 + l]) noteAttached(L0 + l); }
  static void drop(std::set<std::pair<int, int> >& s, int q) { std::set<std::pair<int, int> > a; for (auto& p : s) if (p.first != q) a.insert(p); s = a; }
  // every query of the environment against the model
  void items(const char* what) { int n = 1; for (int i = 0; i < N; i++) { if (att[i]) n++; sx_assert(it[i]->isAttached() == att[i] && it[i]->getEnvironment() == (att[i] ? env : NULL), what); if (att[i]) { sx_assert(it[i]->getUniqueId() == id[i], what); sx_assert(env->getItem(id[i]).get() == it[i], what); for (int j = 0; j < i; j++) if (att[j]) sx_assert(id[i] != id[j], what); } }
    sx_assert((int)env->getItems<EnvironmentItem>().size() == n, what); sx_assert(env->getItem("/0").get() == env->getRootNode(), what); }
  void frames(const char* what) { for (int i = 0; i < NF; i++) sx_assert(env->getParent(f[i]) == (par[i] == -2 ? NULL : fn(par[i])), what); sx_assert(env->getParent(env->getRootNode()) == NULL, what);
    for (int p = -1; p < NF; p++) { std::list<FrameNode*> c = env->getChildren(fn(p)); int n = 0; for (int i = 0; i < NF; i++) if (par[i] == p) { n++; sx_assert(has(c, (FrameNode*)f[i]), what); } sx_assert((int)c.size() == n, what); }
    for (int i = 0; i < NF; i++) if (att[i]) { sx_assert(f[i]->isRoot() == (par[i] == -2), what); int r = i; while (r >= 0 && par[r] != -2) r = par[r]; sx_assert(f[i]->getRoot() == fn(r), what); } }
  void maps(const char* what) { for (int i = 0; i < NM; i++) { sx_assert(env->getFrameNode(m[i]) == (fr[i] == -2 ? NULL : fn(fr[i])), what); if (att[M0 + i]) sx_assert(m[i]->getFrameNode() == (fr[i] == -2 ? NULL : fn(fr[i])), what); }
    for (int p = -1; p < NF; p++) { std::list<CartesianMap*> c = env->getMaps(fn(p)); int n = 0; for (int i = 0; i < NM; i++) if (fr[i] == p) { n++; sx_assert(has(c, (CartesianMap*)m[i]), what); } sx_assert((int)c.size() == n, what); } }
  void layers(const char* what) { for (int c = 0; c < NL + NM; c++) { std::list<Layer*> l = env->getParents(lay[c]); int n = 0; for (int p = 0; p < NL + NM; p++) if (tree.count(std::make_pair(c, p))) { n++; sx_assert(has(l, lay[p]), what); } sx_assert((int)l.size() == n, what); }
    for (int p = 0; p < NL + NM; p++) { std::list<Layer*> l = env->getChildren(lay[p]); int n = 0; for (int c = 0; c < NL + NM; c++) if (tree.count(std::make_pair(c, p))) { n++; sx_assert(has(l, lay[c]), what); } sx_assert((int)l.size() == n, what); sx_assert((int)((const Environment*)env)->getChildren((const Layer*)lay[p]).size() == n, what); } }
  void graph(const char* what) { for (int q = 0; q < NO; q++) { std::list<Layer*> a = env->getInputs(o[q]), b = env->getOutputs(o[q]); int na = 0, nb = 0; for (int l = 0; l < NL + NM; l++) { if (in.count(std::make_pair(q, l))) { na++; sx_assert(has(a, lay[l]), what); } if (out.count(std::make_pair(q, l))) { nb++; sx_assert(has(b, lay[l]), what); } } sx_assert((int)a.size() == na && (int)b.size() == nb, what); }
    for (int l = 0; l < NL + NM; l++) { Operator* g = env->getGenerator(lay[l]); bool any = false, isone = false; for (int q = 0; q < NO; q++) if (out.count(std::make_pair(q, l))) { any = true; if (g == o[q]) isone = true; } sx_assert(any ? isone : g == NULL, what); if (att[L0 + l]) sx_assert(lay[l]->isGenerated() == any, what);
      std::list<Layer*> d = env->getLayersGeneratedFrom(lay[l]); int n = 0; for (int q = 0; q < NO; q++) if (in.count(std::make_pair(q, l))) for (int k = 0; k < NL + NM; k++) if (out.count(std::make_pair(q, k))) { n++; sx_assert(has(d, lay[k]), what); } sx_assert((int)d.size() == n, what); } }
  void all(const char* what) { items(what); frames(what); maps(what); layers(what); graph(what); }
};
