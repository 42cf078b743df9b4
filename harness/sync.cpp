// Binary synchronisation and scene files: what arrives is what was there.
#include "core_model.h"
#include <yaml.h>
#include <sstream>
#include <stdlib.h>
#define B(k) (1u << World::k)
#ifndef STEPS
#define STEPS 2
#endif
namespace envire {
// a layer with a binary stream of its own
struct BLayer : public Layer { ENVIRONMENT_ITEM(BLayer)
public: std::string blob; BLayer() : Layer(Environment::ITEM_NOT_ATTACHED) {} BLayer(std::string const& id) : Layer(id) {} BLayer(const BLayer& o) : Layer(o), blob(o.blob) {} BLayer& operator=(const BLayer& o) { Layer::operator=(o); blob = o.blob; return *this; }
  void serialize(Serialization& so) { Layer::serialize(so); so.write("size", (int)blob.size()); std::ostream& os = so.getBinaryOutputStream(getMapFileName() + ".bin"); os.write(blob.data(), blob.size()); } void unserialize(Serialization& so) { Layer::unserialize(so); int n = 0; so.read("size", n); blob.assign(n, 0); std::istream& is = so.getBinaryInputStream(getMapFileName() + ".bin"); if (n) is.read(&blob[0], n); } };
ENVIRONMENT_ITEM_DEF(BLayer)
}
static unsigned ops() { unsigned m = B(ATTACH) | B(DETACH); if (NF) m |= B(FADD) | B(FREM); if (NL + NM > 1) m |= B(LADD) | B(LREM); if (NM) m |= B(SETF) | B(DETF); return m; }
static int fresh() { return pick("value", 2) ? 7 : -3; }
static double coord() { return sx_dyadic("x", -100, 100, -2); }
static void set(World& w, int i) { if (i < L0) { Transform t = Transform::Identity(); t.translation() = Eigen::Vector3d(coord(), coord(), coord()); w.f[i]->setTransform(t); } else if (i < M0) ((TLayer*)w.it[i])->value = fresh(); else if (i < O0) w.m[i - M0]->value = fresh(); }
static bool sameTf(const TransformWithUncertainty& a, const TransformWithUncertainty& b) { int r = a.hasUncertainty() == b.hasUncertainty(); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r &= a.getTransform().matrix()(i, j) == b.getTransform().matrix()(i, j); if (a.hasUncertainty()) for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) r &= a.getCovariance()(i, j) == b.getCovariance()(i, j); return r; }
template <class L> static bool sameIds(const std::list<L*>& a, const std::list<L*>& b) { if (a.size() != b.size()) return false; for (L* x : a) { bool in = false; for (L* y : b) in = in || x->getUniqueId() == y->getUniqueId(); if (!in) return false; } return true; }
static void compare(Environment& env, Environment& e2, bool graph) {
  std::vector<EnvironmentItem*> v = env.getItems<EnvironmentItem>(), u = e2.getItems<EnvironmentItem>(); sx_assert(u.size() == v.size(), "the items arrive"); sx_assert(e2.getItem("/0").get() == e2.getRootNode(), "the root node is the root node");
  for (size_t i = 0; i < v.size(); i++) { EnvironmentItem* x = e2.getItem(v[i]->getUniqueId()).get(); sx_assert(x && x != v[i] && x->getEnvironment() == &e2 && std::string(x->getClassName()) == v[i]->getClassName(), "the items arrive"); if (!x) return; 
    if (FrameNode* f = dynamic_cast<FrameNode*>(v[i])) { FrameNode* g = dynamic_cast<FrameNode*>(x); sx_assert(g != 0, "the items arrive"); if (!g) return; FrameNode* p = env.getParent(f); FrameNode* q = e2.getParent(g); sx_assert(p ? q && q->getUniqueId() == p->getUniqueId() : !q, "the frame tree arrives"); sx_assert(sameTf(f->getTransformWithUncertainty(), g->getTransformWithUncertainty()), "the transforms arrive"); sx_assert(sameIds(env.getChildren(f), e2.getChildren(g)), "the frame tree arrives"); }
    if (TLayer* f = dynamic_cast<TLayer*>(v[i])) { TLayer* g = dynamic_cast<TLayer*>(x); sx_assert(g && g->value == f->value, "the contents arrive"); }
    if (BLayer* f = dynamic_cast<BLayer*>(v[i])) { BLayer* g = dynamic_cast<BLayer*>(x); sx_assert(g && g->blob == f->blob, "binary contents arrive"); }
    if (TMap* f = dynamic_cast<TMap*>(v[i])) { TMap* g = dynamic_cast<TMap*>(x); sx_assert(g && g->value == f->value, "the contents arrive"); if (!g) return; FrameNode* p = env.getFrameNode(f); FrameNode* q = e2.getFrameNode(g); sx_assert(p ? q && q->getUniqueId() == p->getUniqueId() : !q, "the frames of the maps arrive"); }
    if (Operator* f = dynamic_cast<Operator*>(v[i])) if (graph) { Operator* g = dynamic_cast<Operator*>(x); sx_assert(g && sameIds(env.getInputs(f), e2.getInputs(g)) && sameIds(env.getOutputs(f), e2.getOutputs(g)), "the operator graph arrives"); }
    if (Layer* f = dynamic_cast<Layer*>(v[i])) { Layer* g = dynamic_cast<Layer*>(x); sx_assert(g && f->isImmutable() == g->isImmutable(), "the contents arrive"); sx_assert(sameIds(env.getParents(f), e2.getParents(g)) && sameIds(env.getChildren(f), e2.getChildren(g)), "the layer tree arrives"); } }
}
static void act(World& w) { if (pick("kind", 2)) { int i = pick("touched", N); if (!w.att[i] || i >= O0) sx_kill(); set(w, i); if (i >= L0) w.it[i]->itemModified(); } else w.step(ops()); }
// pulling the events of an environment and applying them to another one, now and then
extern "C" void pull() {
  Environment env, e2; World w(&env); int early = pick("early", STEPS + 1); std::vector<BinaryEvent> ev;
  for (int i = 0; i < STEPS; i++) { if (i == early) { env.pullEvents(ev); e2.applyEvents(ev); compare(env, e2, false); } act(w); } bool all = pick("all", 2); ev.clear(); env.pullEvents(ev, all); e2.applyEvents(ev); compare(env, e2, false); ev.clear(); env.pullEvents(ev); sx_assert(ev.empty(), "events are pulled once"); sx_reach("end"); sx_reach(all ? "all" : "new");
}
// contents of every kind over the wire
extern "C" void wire() {
  { Environment a, b; std::vector<BinaryEvent> ev; a.pullEvents(ev); b.applyEvents(ev); } // fills the tables of the runtime
  long before = sx_live_heap(); { Environment env, e2; World w(&env); for (int i = 0; i < N; i++) { set(w, i); w.attach(i); } FrameNode* u = 0; if (pick("uncertain", 2)) { TransformWithUncertainty::Covariance c = TransformWithUncertainty::Covariance::Zero(); int k = pick("entry", 36); c(k / 6, k % 6) = coord(); u = new FrameNode(TransformWithUncertainty(Transform(Eigen::Translation3d(coord(), 0, 1)), c)); env.attachItem(u); }
    int len = u ? 1 : pick("len", 4); BLayer* b = new BLayer("/blob"); for (int i = 0; i < len; i++) b->blob.push_back((char)sx_range("byte", 0, 255)); if (pick("imm", 2)) b->setImmutable(); env.attachItem(b); std::string label = pick("label", 2) ? "a label: 'with' {odd} #characters" : ""; b->setLabel(label);
    std::vector<BinaryEvent> ev; env.pullEvents(ev); e2.applyEvents(ev); compare(env, e2, false); EnvironmentItem::Ptr x = e2.getItem("/blob"); sx_assert(x && x->getLabel() == label, "labels arrive"); sx_reach("end"); }
  sx_assert(sx_live_heap() == before, "synchronisation frees what it allocates");
}
// ---- scene files
static std::string dir() { return sx_symbolic() ? "/scene" : "scene" /* below the scratch folder a replay runs in */; }
extern "C" void scene() {
  Environment env; World w(&env); for (int i = 0; i < STEPS; i++) w.step(ops() | (NO ? B(INADD) | B(OUTADD) : 0)); int t = pick("touched", N); if (t < O0) set(w, t); env.serialize(dir()); Environment* e2 = Environment::unserialize(dir()); compare(env, *e2, true);
  // identifiers handed out later are new
  TLayer* l = new TLayer(); e2->attachItem(l); std::string id = l->getUniqueId(); sx_assert(env.getItem(id).get() == NULL || !env.getItem(id)->isAttached(), "a restored environment hands out new identifiers"); delete e2; sx_reach("end");
}
extern "C" void scene_full() {
  { Environment env; World w(&env); for (int i = 0; i < N; i++) { set(w, i); w.attach(i); } for (int i = 0; i < STEPS; i++) w.step((NF ? B(FADD) : 0) | B(LADD) | B(SETF) | B(INADD) | B(OUTADD));
    bool unc = pick("uncertain", 2); int len = unc ? 1 : pick("len", 3); BLayer* b = new BLayer("/blob"); for (int i = 0; i < len; i++) b->blob.push_back((char)sx_range("byte", 0, 255)); env.attachItem(b); b->setLabel("top"); if (unc) { TransformWithUncertainty::Covariance c = TransformWithUncertainty::Covariance::Zero(); int k = pick("entry", 4) * 9 + 1; c(k / 6, k % 6) = coord(); env.attachItem(new FrameNode(TransformWithUncertainty(Transform(Eigen::Translation3d(coord(), 0, 1)), c))); }
    env.serialize(dir()); Environment* e2 = Environment::unserialize(dir()); compare(env, *e2, true); sx_assert(e2->getItem("/blob")->getLabel() == "top", "labels arrive"); delete e2; sx_reach("end"); }
}
// context updates: events about a map alone are enough to place it
struct Sink : public SynchronizationEventHandler { std::vector<BinaryEvent> got; int calls; Sink() : calls(0) {} void handle(std::vector<BinaryEvent>& m) { got.insert(got.end(), m.begin(), m.end()); calls++; } using SynchronizationEventHandler::handle; };
struct MapsOnly : public EventFilter { bool filter(const Event& e) { return e.type == event::ITEM && dynamic_cast<CartesianMap*>(e.a.get()); } };
extern "C" void context() {
  Sink s; MapsOnly only; Environment e2; Environment env; World w(&env); for (int i = 0; i < NF; i++) { int p = pick("p", i + 1) - 1; set(w, i); env.addChild(w.fn(p), w.f[i]); w.mAttach(i); w.par[i] = p; } int p = pick("mp", NF + 2) - 1; set(w, M0); if (p == NF) { env.attachItem((EnvironmentItem*)w.m[0]); sx_reach("unplaced"); } else { env.attachItem(w.m[0], w.fn(p)); w.fr[0] = p; } w.mAttach(M0);
  bool queue = pick("queue", 2), async = pick("async", 2); s.useEventQueue(queue); s.allowMultithreading(async); s.useContextUpdates(&env); s.setFilter(&only); env.addEventHandler(&s); set(w, M0); if (p >= 0 && p < NF) { set(w, p); } w.m[0]->itemModified(); if (queue) { sx_assert(s.calls == 0, "queued events wait for the flush"); s.flush(); sx_reach("queued"); } else sx_reach("direct");
  e2.applyEvents(s.got); TMap* m = e2.getItem<TMap>(w.m[0]->getUniqueId()).get(); sx_assert(m && m->value == w.m[0]->value, "the map arrives"); if (!m) return; FrameNode* a = env.getFrameNode(w.m[0]); FrameNode* b = e2.getFrameNode(m); sx_assert(!a == !b, "the frames of the map arrive"); while (a && b) { sx_assert(a->getUniqueId() == b->getUniqueId() && sameTf(a->getTransformWithUncertainty(), b->getTransformWithUncertainty()), "the frames of the map arrive"); a = env.getParent(a); b = e2.getParent(b); } sx_assert(!a && !b, "the frames of the map arrive");
  env.removeEventHandler(&s);
}
// an item with much text
extern "C" void wire_large() { Environment env, e2; TLayer* l = new TLayer("/l"); int n = pick("size", 2) ? 12000 : 100; l->setLabel(std::string(n, 'x')); l->value = fresh(); env.attachItem(l); std::vector<BinaryEvent> ev; env.pullEvents(ev); bool ok = true; try { e2.applyEvents(ev); } catch (std::exception&) { ok = false; } TLayer* y = e2.getItem<TLayer>("/l").get(); sx_assert(ok && y && y->value == l->value && y->getLabel() == l->getLabel(), "an item of any size arrives"); sx_reach("end"); }
// files of two layers in one scene do not get in each other's way
extern "C" void names() {
  static const char* ID[] = { "/a", "/b", "/a/b", "/a_b", "/ab" }; int i = pick("one", 5), j = pick("two", 5); if (i >= j) sx_kill(); Environment env; BLayer* b[2]; for (int k = 0; k < 2; k++) { b[k] = new BLayer(ID[k ? j : i]); b[k]->blob.push_back((char)sx_range("byte", 0, 255)); env.attachItem(b[k]); } env.serialize(dir()); Environment* e2 = Environment::unserialize(dir()); bool folded = i == 2 && j == 3;
  for (int k = 0; k < 2; k++) { BLayer* y = e2->getItem<BLayer>(b[k]->getUniqueId()).get(); sx_assert(y && y->blob == b[k]->blob, folded ? "layers whose identifiers differ in slash and underscore keep their own contents" : "layers of one scene keep their own contents"); } delete e2; sx_reach("end");
}
// a scene written over another one, and scenes that are not there
extern "C" void scene_again() {
  { Environment a; World w(&a); int n = pick("first", N + 1); for (int i = 0; i < n; i++) { set(w, i); w.attach(i); } a.serialize(dir()); Environment b; World v(&b); int m = pick("second", N + 1); for (int i = 0; i < m; i++) { set(v, i); v.attach(i); } b.serialize(dir()); Environment* e = Environment::unserialize(dir()); compare(b, *e, true); Environment* f = Environment::unserialize(dir()); compare(*e, *f, true); delete e; delete f; }
  bool th = false; try { Environment::unserialize(dir() + "/nowhere"); } catch (std::runtime_error&) { th = true; } sx_assert(th, "a scene that is not there is refused with an exception"); sx_reach("end");
}
// ---- keys and classes
extern "C" void keys() {
  Serialization so; so.begin(); static const char* K[] = { "a", "b" }; int kind[2]; int iv = fresh(), ir; double dv = coord(); Transform t = Transform::Identity(); t.translation().x() = coord(); t.translation().z() = coord(); int row = pick("row", 3), col = pick("col", 3); t.linear()(row, col) = 0.5; std::string sv = pick("text", 2) ? "with: odd 'characters'" : "";
  for (int i = 0; i < 2; i++) { kind[i] = pick("kind", 5); switch (kind[i]) { case 0: break; case 1: so.write(K[i], iv); break; case 2: so.write(K[i], dv); break; case 3: so.write(K[i], sv); break; case 4: so.write(K[i], t); break; } }
  for (int i = 0; i < 2; i++) { sx_assert(so.hasKey(K[i]) == (kind[i] != 0), "a key is there when it was written"); switch (kind[i]) { case 0: ir = 99; sx_assert(!so.read(K[i], ir) && ir == 99 && so.read<int>(K[i]) == 0, "a missing key leaves the value alone"); sx_reach("missing"); break; case 1: ir = 0; sx_assert(so.read(K[i], ir) && ir == iv, "a number is read back"); break; case 2: sx_assert(so.read<double>(K[i]) == dv, "a number is read back"); break; case 3: { std::string r = "?"; sx_assert(so.read(K[i], r) && r == sv, "a text is read back"); break; } case 4: { Transform r = Transform::Identity(); sx_assert(so.read(K[i], r), "a transform is read back"); int ok = 1; for (int y = 0; y < 4; y++) for (int x = 0; x < 4; x++) ok &= r.matrix()(y, x) == t.matrix()(y, x); sx_assert(ok, "a transform is read back"); sx_reach("transform"); break; } } } so.end(); sx_reach("end");
}
struct Made : public TLayer { static int n; }; static int madeBy; static EnvironmentItem* makeA(Serialization&) { madeBy = 1; return new TLayer("/a"); } static EnvironmentItem* makeB(Serialization&) { madeBy = 2; return new TLayer("/b"); }
extern "C" void factory() {
  SerializationFactory::addClass("Aaa", makeA); SerializationFactory::addClass("mine::Bbb", makeB); if (pick("again", 2)) SerializationFactory::addClass("Aaa", makeB); bool again = false; { Serialization so; madeBy = 0; EnvironmentItem* p = SerializationFactory::createObject("Aaa", so); again = madeBy == 2; delete p; }
  static const char* Q[] = { "Aaa", "mine::Aaa", "very::mine::Aaa", "mine::Bbb", "Bbb", "xAaa", "Aa", "", "other::Bbb", "mine::", "envire::TLayer" }; static const int W[] = { 1, 1, 1, 2, 0, 0, 0, 0, 0, 0, 3 }; int q = pick("name", 11); Serialization so; so.begin(); so.write("id", std::string("/x")); so.write("label", std::string("")); so.write("immutable", 0); so.write("value", 5); madeBy = 0; EnvironmentItem* p = 0; bool th = false; try { p = SerializationFactory::createObject(Q[q], so); } catch (std::runtime_error&) { th = true; }
  int want = W[q] == 1 && again ? 2 : W[q]; if (want == 0) { sx_assert(th && !p, "an unknown class is refused"); sx_reach("unknown"); } else { sx_assert(!th && p, "a known class is made"); if (want == 3) { TLayer* l = dynamic_cast<TLayer*>(p); sx_assert(l && l->value == 5 && l->getUniqueId() == "/x", "a registered class is made from its keys"); } else sx_assert(madeBy == want, "a class is made by the factory registered last for it"); sx_reach("made"); } delete p; so.end();
}
