// Events: a listener's picture of the environment, replay of queued events into a second environment, binary synchronisation.
#include "core_model.h"
#define B(k) (1u << World::k)
#ifndef STEPS
#define STEPS 2
#endif
static const unsigned ALL = B(ATTACH) | B(DETACH) | B(FADD) | B(FREM) | B(LADD) | B(LREM) | B(SETF) | B(DETF) | (NF ? B(DEEP) : 0);
static unsigned ops() { unsigned m = B(ATTACH) | B(DETACH); if (NF) m |= B(FADD) | B(FREM) | B(DEEP); if (NL + NM > 1) m |= B(LADD) | B(LREM); if (NM) m |= B(SETF) | B(DETF); return m; }
// ---- what a listener knows from events alone
struct Mirror : public EventListener {
  std::set<EnvironmentItem*> items; std::set<std::pair<FrameNode*, FrameNode*> > frames; std::set<std::pair<Layer*, Layer*> > layers; std::set<std::pair<CartesianMap*, FrameNode*> > maps; FrameNode* root; int modified;
  Mirror() : root(0), modified(0) {}
  bool known(EnvironmentItem* i) { return items.count(i) != 0; }
  void itemAttached(EnvironmentItem* i) { sx_assert(i && !known(i), "an item is reported attached once"); items.insert(i); }
  void itemDetached(EnvironmentItem* i) { sx_assert(i && known(i), "an item is reported detached once"); items.erase(i); for (auto& p : frames) sx_assert(p.first != i && p.second != i, "relations are reported gone before their items"); for (auto& p : layers) sx_assert(p.first != i && p.second != i, "relations are reported gone before their items"); for (auto& p : maps) sx_assert(p.first != i && p.second != i, "relations are reported gone before their items"); }
  void itemModified(EnvironmentItem* i) { sx_assert(known(i), "only attached items are reported modified"); modified++; }
  void childAdded(FrameNode* p, FrameNode* c) { sx_assert(known(p) && known(c), "relations are reported between attached items"); for (auto& q : frames) sx_assert(q.second != c, "a frame is reported with one parent at a time"); frames.insert(std::make_pair(p, c)); }
  void childRemoved(FrameNode* p, FrameNode* c) { sx_assert(frames.erase(std::make_pair(p, c)) == 1, "a removed relation was there"); }
  void childAdded(Layer* p, Layer* c) { sx_assert(known(p) && known(c), "relations are reported between attached items"); sx_assert(layers.insert(std::make_pair(p, c)).second, "a relation is reported once"); }
  void childRemoved(Layer* p, Layer* c) { sx_assert(layers.erase(std::make_pair(p, c)) == 1, "a removed relation was there"); }
  void frameNodeSet(CartesianMap* m, FrameNode* f) { sx_assert(known(m) && known(f), "relations are reported between attached items"); for (auto& q : maps) sx_assert(q.first != m, "a map is reported with one frame at a time"); maps.insert(std::make_pair(m, f)); }
  void frameNodeDetached(CartesianMap* m, FrameNode* f) { sx_assert(maps.erase(std::make_pair(m, f)) == 1, "a removed relation was there"); }
  void setRootNode(FrameNode* r) { sx_assert(known(r), "the root is an attached item"); root = r; }
  void removeRootNode(FrameNode* r) { sx_assert(root == r, "the root reported gone is the root"); root = 0; }
  void same(World& w) {
    int n = 1; for (int i = 0; i < N; i++) { if (w.att[i]) n++; sx_assert(known(w.it[i]) == w.att[i], "a listener knows the attached items"); } sx_assert((int)items.size() == n && known(w.env->getRootNode()) && root == w.env->getRootNode(), "a listener knows the attached items");
    n = 0; for (int i = 0; i < NF; i++) if (w.par[i] != -2) { n++; sx_assert(frames.count(std::make_pair(w.fn(w.par[i]), (FrameNode*)w.f[i])), "a listener knows the frame tree"); } sx_assert((int)frames.size() == n, "a listener knows the frame tree");
    n = 0; for (int i = 0; i < NM; i++) if (w.fr[i] != -2) { n++; sx_assert(maps.count(std::make_pair((CartesianMap*)w.m[i], w.fn(w.fr[i]))), "a listener knows the frames of the maps"); } sx_assert((int)maps.size() == n, "a listener knows the frames of the maps");
    for (auto& p : w.tree) sx_assert(layers.count(std::make_pair(w.lay[p.second], w.lay[p.first])), "a listener knows the layer tree"); sx_assert(layers.size() == w.tree.size(), "a listener knows the layer tree"); }
  bool blank() { return items.empty() && frames.empty() && layers.empty() && maps.empty() && !root; }
};
extern "C" void listener() {
  Environment env; World w(&env); Mirror m; int at = pick("registered", STEPS + 1); for (int i = 0; i < STEPS; i++) { if (i == at) { env.addEventHandler(&m); m.same(w); } w.step(ops()); if (i >= at) m.same(w); } if (at == STEPS) env.addEventHandler(&m); m.same(w);
  int mod = pick("touch", N); if (w.att[mod]) { int n = m.modified; w.it[mod]->itemModified(); sx_assert(m.modified == n + 1, "a modification is reported"); } else { int n = m.modified; w.it[mod]->itemModified(); sx_assert(m.modified == n, "a detached item reports nothing"); }
  env.removeEventHandler(&m); sx_assert(m.blank(), "a listener taken off has seen everything go"); for (int i = 0; i < N; i++) if (w.att[i]) { env.detachItem(w.it[i]); break; } sx_assert(m.blank(), "a listener taken off hears nothing more"); sx_reach("end"); sx_reach(w.last);
}
// a populated environment: any shape of frame tree, maps anywhere, layers related at will
static void populate(World& w, bool orphans) {
  for (int i = 0; i < NF; i++) { int p = pick("p", i + 1 + (orphans ? 1 : 0)) - 1; if (p == i) w.attach(i); else { w.env->addChild(w.fn(p), w.f[i]); w.mAttach(i); w.par[i] = p; } }
  for (int i = 0; i < NM; i++) { int p = pick("mp", NF + 1) - 1; w.env->attachItem(w.m[i], w.fn(p)); w.mAttach(M0 + i); w.fr[i] = p; } for (int i = 0; i < NL; i++) w.attach(L0 + i); for (int i = 0; i < NO; i++) w.attach(O0 + i);
  for (int c = 0; c < NL + NM; c++) for (int p = 0; p < NL + NM; p++) if (p != c && pick("rel", 2)) { w.env->addChild(w.lay[p], w.lay[c]); w.tree.insert(std::make_pair(c, p)); } }
extern "C" void listener_full() {
  Environment* env = new Environment; World w(env); populate(w, true); Mirror m; env->addEventHandler(&m); m.same(w); for (int i = 0; i < STEPS; i++) { w.step(ops()); m.same(w); } if (pick("how", 2)) { env->removeEventHandler(&m); sx_reach("taken off"); delete env; } else { delete env; m.root = 0; sx_reach("destroyed"); } sx_assert(m.blank(), "a listener taken off has seen everything go");
}
// handlers and filters: each registered handler hears each event once, a filter decides what passes
struct Count : public EventHandler { int n; Count() : n(0) {} void handle(const Event&) { n++; } };
struct Only : public EventFilter { event::Type t; int inject; Only(event::Type t) : t(t), inject(0) {} bool filter(const Event& e) { if (inject) { inject--; handle(e); } return e.type == t; } };
extern "C" void handlers() {
  EventSource s; Count h[3]; bool reg[3] = { 0, 0, 0 }; Only f(event::ITEM), g(event::ROOT); int want[3] = { 0, 0, 0 }; if (pick("filter", 2)) h[0].setFilter(&f);
  bool filtered = false; for (int i = 0; i < 5; i++) { int op = pick("op", 3), k = pick("which", 3); if (op == 0) { if (reg[k]) sx_kill(); s.addEventHandler(&h[k]); reg[k] = true; } else if (op == 1) { s.removeEventHandler(&h[k]); reg[k] = false; } else { if (k == 2) sx_kill(); Event e(k ? event::ROOT : event::ITEM, event::ADD, EnvironmentItem::Ptr()); s.handle(e); for (int j = 0; j < 3; j++) if (reg[j]) want[j]++; } (void)filtered; }
  for (int j = 1; j < 3; j++) sx_assert(h[j].n == want[j], "a registered handler hears each event once"); sx_assert(h[0].n <= want[0], "a filter passes events, it makes none"); sx_reach("end");
}
extern "C" void filters() {
  Count h; Only f(event::ITEM), g(event::ROOT); int seen = 0; EventFilter* cur = 0; Only* c = 0; Event a(event::ITEM, event::ADD, EnvironmentItem::Ptr()), b(event::ROOT, event::ADD, EnvironmentItem::Ptr());
  for (int i = 0; i < 3; i++) { switch (pick("op", 4)) { case 0: h.setFilter(&f); c = &f; break; case 1: h.setFilter(&g); c = &g; break; case 2: h.setFilter(NULL); c = 0; sx_reach("no filter"); break; default: if (c) { c->inject = 1; seen++; } break; } bool k = pick("event", 2); h.receive(k ? b : a); if (!c || (c == &g) == k) seen++; sx_assert(h.n == seen, "a handler hears what its filter passes, or everything without a filter"); } sx_reach("end"); (void)cur;
}
// ---- a second environment follows by queued events
static void compare(Environment& env, World& w, Environment& e2, const char* what, bool strays = true) {
  std::vector<EnvironmentItem*> v = env.getItems<EnvironmentItem>(); std::vector<EnvironmentItem*> u = e2.getItems<EnvironmentItem>(); sx_assert(u.size() == v.size(), what); 
  for (size_t i = 0; i < v.size(); i++) { EnvironmentItem* x = e2.getItem(v[i]->getUniqueId()).get(); sx_assert(x && x != v[i] && std::string(x->getClassName()) == v[i]->getClassName(), what); if (!x) return;
    if (FrameNode* f = dynamic_cast<FrameNode*>(v[i])) { FrameNode* g = dynamic_cast<FrameNode*>(x); sx_assert(g != 0, what); if (!g) return; FrameNode* p = env.getParent(f); FrameNode* q = e2.getParent(g); sx_assert(p ? q && q->getUniqueId() == p->getUniqueId() : !q, "the frame tree follows"); sx_assert(g->getTransform().translation().x() == f->getTransform().translation().x(), "the contents follow"); sx_assert(env.getChildren(f).size() == e2.getChildren(g).size(), "the frame tree follows"); }
    if (TLayer* f = dynamic_cast<TLayer*>(v[i])) { TLayer* g = dynamic_cast<TLayer*>(x); sx_assert(g && g->value == f->value, "the contents follow"); }
    if (TMap* f = dynamic_cast<TMap*>(v[i])) { TMap* g = dynamic_cast<TMap*>(x); sx_assert(g && g->value == f->value, "the contents follow"); if (!g) return; FrameNode* p = env.getFrameNode(f); FrameNode* q = e2.getFrameNode(g); sx_assert(p ? q && q->getUniqueId() == p->getUniqueId() : !q, "the frames of the maps follow"); }
    if (Layer* f = dynamic_cast<Layer*>(v[i])) { Layer* g = dynamic_cast<Layer*>(x); std::list<Layer*> a = env.getParents(f), b = e2.getParents(g); sx_assert(a.size() == b.size(), "the layer tree follows"); for (Layer* y : a) { bool in = false; for (Layer* z : b) in = in || z->getUniqueId() == y->getUniqueId(); sx_assert(in, "the layer tree follows"); } } }
}
static int stamp;
static int fresh() { return (int)sx_range("value", -1000, 1000); }
static void touch(World& w) { int i = pick("touched", N); if (!w.att[i]) sx_kill(); if (i < L0) { double t = sx_dyadic("x", -100, 100, -2); w.f[i]->setTransform(Transform(Eigen::Translation3d(t, 0, 0))); } else { if (i < M0) ((TLayer*)w.it[i])->value = fresh(); else if (i < O0) w.m[i - M0]->value = fresh(); w.it[i]->setLabel(stamp++ & 1 ? "odd" : "even"); w.it[i]->itemModified(); } }
static void act(World& w) { if (pick("kind", 2)) touch(w); else w.step(ops()); }
extern "C" void replay() {
  Environment e2; EventProcessor ep(&e2); Environment env; World w(&env); stamp = 1; ep.allowMultithreading(true); bool first = pick("first", 2); if (first) env.addEventHandler(&ep); int flushAt = pick("flush", STEPS + 1);
  for (int i = 0; i < STEPS; i++) { if (i == flushAt) { if (!first) { env.addEventHandler(&ep); first = true; } ep.flush(); compare(env, w, e2, "a second environment has the items of the first after a flush"); } act(w); } if (!first) env.addEventHandler(&ep); ep.flush(); compare(env, w, e2, "a second environment has the items of the first after a flush"); sx_reach("end");
  ep.flush(); compare(env, w, e2, "flushing again changes nothing");
}
extern "C" void replay_full() {
  Environment e2; EventProcessor ep(&e2); Environment env; World w(&env); stamp = 1; populate(w, true); ep.allowMultithreading(true); env.addEventHandler(&ep); if (pick("flush", 2)) { ep.flush(); compare(env, w, e2, "a second environment has the items of the first after a flush"); sx_reach("flushed"); } for (int i = 0; i < STEPS; i++) act(w); ep.flush(); compare(env, w, e2, "a second environment has the items of the first after a flush"); sx_reach("end");
}
static void set(World& w, int i) { if (i < L0) w.f[i]->setTransform(Transform(Eigen::Translation3d(sx_dyadic("x", -100, 100, -2), 0, 0))); else if (i < M0) ((TLayer*)w.it[i])->value = fresh(); else if (i < O0) w.m[i - M0]->value = fresh(); }
// an item detached, changed and attached again under its id
extern "C" void replay_again() {
  Environment e2; EventProcessor ep(&e2); Environment env; World w(&env); stamp = 1; ep.allowMultithreading(true); for (int i = 0; i < N; i++) w.attach(i); env.addEventHandler(&ep); bool f = pick("flush", 2); if (f) ep.flush(); bool before = pick("before", 2), after = pick("after", 2), between = pick("between", 2), twice = pick("twice", 2); int i = pick("item", N); 
  for (int k = 0; k <= (twice ? 1 : 0); k++) { if (before) set(w, i); env.detachItem(w.it[i]); w.mDetach(i); if (between) set(w, i); w.attach(i); if (after) { set(w, i); w.it[i]->itemModified(); } } ep.flush(); compare(env, w, e2, "an item attached again follows with its contents"); sx_reach(f ? "flushed" : "pending");
}
// events applied to an environment that misses or already has the items
extern "C" void lenient() {
  Environment e; Mirror* m = new Mirror; int have = pick("have", 2), op = pick("op", 3); TLayer* x = new TLayer("/x"); EnvironmentItem::Ptr keep = x; x->value = fresh(); int was = fresh(); TLayer* own = 0; if (have) { own = new TLayer("/x"); own->value = was; e.attachItem(own); } e.addEventHandler(m); int n = m->modified;
  Event ev(event::ITEM, op == 0 ? event::ADD : op == 1 ? event::UPDATE : event::REMOVE, x); ev.ref(true); sx_assert(ev.id_a == "/x", "an event remembers the id"); int sent = x->value; x->value = fresh(); ev.apply(&e); TLayer* y = e.getItem<TLayer>("/x").get();
  if (op == 2) { sx_assert(!y && m->items.size() == 1, "a removed item is gone, whether it was there or not"); sx_reach("removed"); } else { sx_assert(y && y != x && y->value == sent, "an added or updated item has the contents of the event"); if (have) sx_assert(y == own && m->modified == n + 1, "an item present is changed in place and reported"); else sx_assert(m->items.count(y), "an item missing is attached and reported"); sx_reach(have ? "present" : "missing"); }
  e.removeEventHandler(m); delete m;
}
extern "C" void lenient_relations() {
  Environment e; FrameNode* f = new FrameNode(); FrameNode* g = new FrameNode(); TLayer* l = new TLayer(); TMap* k = new TMap(); e.attachItem(f); e.attachItem(g); e.attachItem(l); e.attachItem((EnvironmentItem*)k); bool fl = pick("linked", 2); if (fl) { e.addChild(f, g); e.addChild(l, k); e.setFrameNode(k, f); } int t = pick("type", 3), miss = pick("missing", 4); bool add = pick("add", 2); Event ev(t == 0 ? event::FRAMENODE_TREE : t == 1 ? event::LAYER_TREE : event::FRAMENODE, add ? event::ADD : event::REMOVE, EnvironmentItem::Ptr());
  ev.id_a = t == 0 ? f->getUniqueId() : t == 1 ? l->getUniqueId() : k->getUniqueId(); ev.id_b = t == 0 ? g->getUniqueId() : t == 1 ? k->getUniqueId() : f->getUniqueId(); if (miss & 1) ev.id_a = "/none"; if (miss & 2) ev.id_b = "/none"; ev.apply(&e); bool r[3] = { fl, fl, fl }; if (!miss) r[t] = add;
  sx_assert((e.getParent(g) == f) == r[0] && (e.getChildren(l).size() == 1) == r[1] && (e.getFrameNode(k) == f) == r[2], "a relation event changes its relation only, and nothing when an item is missing"); sx_reach(miss ? "missing" : "present");
}
