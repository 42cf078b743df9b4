// Environment: identifiers, ownership, frame tree, operator graph and layer tree, metadata - against the reference model.
#include "core_model.h"
#define B(k) (1u << World::k)
#ifndef STEPS
#define STEPS 2
#endif
static const unsigned FRAMES = B(FADD) | B(FREM) | B(SETF) | B(DETF) | B(DETACH) | B(DEEP), GRAPH = B(INADD) | B(OUTADD) | B(INREM) | B(OUTREM) | B(INCLR) | B(OUTCLR) | B(DETACH), TREE = B(LADD) | B(LREM) | B(ATTACH) | B(DETACH);
extern "C" void frames() {
  Environment env; World w(&env); for (int i = 0; i < STEPS; i++) w.step(FRAMES);
  w.items("items equal the reference"); w.frames("parent, children and root of every frame equal the reference"); w.maps("frame of every map and maps of every frame equal the reference"); sx_reach("end"); sx_reach(w.last);
}
// longer histories from a populated start
extern "C" void frames_deep() {
  Environment env; World w(&env); for (int i = 0; i < NF; i++) { int p = pick("p", i + 1) - 1; env.addChild(w.fn(p), w.f[i]); w.mAttach(i); w.par[i] = p; } for (int i = 0; i < NM; i++) { int p = pick("mp", NF + 1) - 1; env.attachItem(w.m[i], w.fn(p)); w.mAttach(M0 + i); w.fr[i] = p; }
  for (int i = 0; i < STEPS; i++) w.step(FRAMES); w.items("items equal the reference"); w.frames("parent, children and root of every frame equal the reference"); w.maps("frame of every map and maps of every frame equal the reference"); sx_reach("end"); sx_reach(w.last);
}
extern "C" void graph() { Environment env; World w(&env); for (int i = 0; i < STEPS; i++) w.step(GRAPH); w.items("items equal the reference"); w.graph("inputs, outputs, generators and derived layers equal the reference"); sx_reach("end"); sx_reach(w.last); }
extern "C" void graph_deep() {
  Environment env; World w(&env); for (int q = 0; q < NO; q++) { env.attachItem(w.o[q]); w.noteAttached(O0 + q); } for (int l = 0; l < NL + NM; l++) { env.attachItem((EnvironmentItem*)w.lay[l]); w.noteAttached(L0 + l); if (pick("in", 2)) { env.addInput(w.o[0], w.lay[l]); w.in.insert(std::make_pair(0, l)); } if (pick("out", 2)) { env.addOutput(w.o[NO - 1], w.lay[l]); w.out.insert(std::make_pair(NO - 1, l)); } }
  for (int i = 0; i < STEPS; i++) w.step(GRAPH); w.items("items equal the reference"); w.graph("inputs, outputs, generators and derived layers equal the reference"); sx_reach("end"); sx_reach(w.last);
}
extern "C" void tree() { Environment env; World w(&env); for (int i = 0; i < NL + NM; i++) if (pick("attached", 2)) w.attach(L0 + i); for (int i = 0; i < STEPS; i++) w.step(TREE); w.items("items equal the reference"); w.layers("parents and children of every layer equal the reference"); sx_reach("end"); sx_reach(w.last); }
extern "C" void mixed() { Environment env; World w(&env); for (int i = 0; i < N; i++) w.attach(i); for (int i = 0; i < STEPS; i++) w.step((1u << World::KINDS) - 1); w.all("every query equals the reference"); sx_reach("end"); sx_reach(w.last); }
// number of inputs and outputs an operator accepts
extern "C" void arity() {
  Environment env; int ai = pick("ai", 3), ao = pick("ao", 3); TOp* o = new TOp(ai, ao); env.attachItem(o); TLayer* l[3]; for (int i = 0; i < 3; i++) { l[i] = new TLayer(); env.attachItem(l[i]); }
  int n[2] = { 0, 0 }, lim[2] = { ai, ao }; bool dup = false; std::set<int> cur[2];
  for (int s = 0; s < 3; s++) { int side = pick("side", 2), set = pick("set", 2), k = pick("layer", 3); bool thrown = false; if (!set && cur[side].count(k)) sx_kill();
    try { if (set) { side ? o->setOutput(l[k]) : o->setInput(l[k]); } else { side ? o->addOutput(l[k]) : o->addInput(l[k]); } } catch (std::runtime_error&) { thrown = true; }
    if (set) { sx_assert(!thrown, "replacing the inputs or outputs is always possible"); cur[side].clear(); cur[side].insert(k); sx_reach("replaced"); } else { bool full = lim[side] && (int)cur[side].size() >= lim[side]; sx_assert(thrown == full, "an operator takes as many inputs and outputs as it declared"); if (!full) cur[side].insert(k); else sx_reach("full"); }
    std::list<Layer*> a = env.getInputs(o), b = env.getOutputs(o); sx_assert(a.size() == cur[0].size() && b.size() == cur[1].size(), "inputs and outputs are those accepted"); for (int i = 0; i < 3; i++) sx_assert(has(a, (Layer*)l[i]) == (cur[0].count(i) > 0) && has(b, (Layer*)l[i]) == (cur[1].count(i) > 0), "inputs and outputs are those accepted"); }
  sx_reach("end");
}
// typed access to inputs, outputs and derived layers
extern "C" void typed() {
  Environment env; TOp* o = new TOp(); env.attachItem(o); int nl = pick("layers", 3), nm = pick("maps", 3); bool outs = pick("outs", 2); Layer* one = 0; CartesianMap* onem = 0; TLayer* src = new TLayer(); env.attachItem(src); if (outs) env.addInput(o, src);
  for (int i = 0; i < nl; i++) { TLayer* l = new TLayer(); env.attachItem(l); one = l; outs ? o->addOutput(l) : o->addInput(l); } for (int i = 0; i < nm; i++) { TMap* m = new TMap(); env.attachItem(m); onem = m; outs ? o->addOutput(m) : o->addInput(m); }
  bool t1 = false, t2 = false; TLayer* a = 0; CartesianMap* b = 0;
  try { a = outs ? o->getOutput<TLayer*>() : o->getInput<TLayer*>(); } catch (std::runtime_error&) { t1 = true; } try { b = outs ? o->getOutput<CartesianMap*>() : o->getInput<CartesianMap*>(); } catch (std::runtime_error&) { t2 = true; }
  sx_assert(t1 == (nl != 1) && (t1 || a == one), "the layer of a type is returned when there is exactly one, otherwise an exception"); sx_assert(t2 == (nm != 1) && (t2 || b == onem), "the layer of a type is returned when there is exactly one, otherwise an exception");
  if (outs) { sx_assert((int)env.getGeneratedFrom<TLayer*>(src).size() == nl && (int)env.getGeneratedFrom<CartesianMap*>(src).size() == nm && (int)env.getGeneratedFrom<Layer*>(src).size() == nl + nm, "derived layers of a type are all of them"); sx_reach("outs"); }
  // and of items
  sx_assert((int)env.getItems<TLayer>().size() == nl + 1 && (int)env.getItems<TMap>().size() == nm && (int)env.getItems<FrameNode>().size() == 1, "items of a type are all of them");
  bool t3 = false; try { sx_assert(env.getItem<TMap>().get() == onem, "the item of a type is returned when there is exactly one, otherwise an exception"); } catch (std::runtime_error&) { t3 = true; } sx_assert(t3 == (nm != 1), "the item of a type is returned when there is exactly one, otherwise an exception");
  sx_assert(env.getItem<TMap>(src->getUniqueId()).get() == NULL && env.getItem<TLayer>(src->getUniqueId()).get() == src && env.getItem<TLayer>("/nowhere").get() == NULL, "typed lookup answers only items of the type"); sx_reach("end");
}
// generated layers: generator, dirty flag, update, detaching
extern "C" void generated() {
  Environment env; TOp* o = new TOp(); TOp* o2 = new TOp(); env.attachItem(o); env.attachItem(o2); TLayer* l = new TLayer(); TLayer* s = new TLayer(); env.attachItem(l); env.attachItem(s); o->addInput(s); bool gen = pick("gen", 2), gin = pick("gin", 2), dirty = pick("dirty", 2); if (gen) o->addOutput(l); if (gin) o2->addInput(l); if (dirty) l->setDirty();
  sx_assert(l->isDirty() == dirty && l->isGenerated() == gen && l->getGenerator() == (gen ? o : NULL), "generator and dirty flag are those set");
  switch (pick("act", 3)) {
  case 0: l->updateFromOperator(); sx_assert(o->updates == (gen && dirty ? 1 : 0) && o2->updates == 0, "a layer is recomputed by its generator when it is dirty, and only then"); if (gen) sx_assert(!l->isDirty(), "an updated layer is not dirty"); sx_reach("update"); break;
  case 1: { bool r = l->detachFromOperator(); if (r) { sx_assert(!l->isGenerated(), "a layer detached from its operator is not generated any more"); sx_assert(env.getOutputs(o).empty(), "a layer detached from its operator is not generated any more"); } sx_assert((int)env.getInputs(o2).size() == (gin ? 1 : 0) && env.getInputs(o).size() == 1, "detaching from the generator keeps other uses of the layer"); sx_reach("detach"); break; }
  case 2: env.updateOperators(); sx_assert(o->updates == 1 && o2->updates == 1, "updating runs every operator once"); sx_reach("all"); break; }
}
// ---- identifiers
static std::string num(const std::string& s) { return s; }
static bool digits(const std::string& s) { if (s.empty()) return false; for (size_t i = 0; i < s.size(); i++) if (s[i] < '0' || s[i] > '9') return false; return true; }
extern "C" void ids() {
  static const char* PRE[] = { "", "p", "/p", "p/", "/p/q/" }; static const char* PREF[] = { "/", "/p/", "/p/", "/p/", "/p/q/" }; static const char* FORM[] = { "", "a", "/a", "a/", "/b/", "/2", "3", "/p/2", "/a/" };
  Environment env; int pr = pick("prefix", 5); if (pr) env.setEnvironmentPrefix(PRE[pr]); std::string prefix = PREF[pr]; sx_assert(env.getEnvironmentPrefix() == prefix, "the prefix starts and ends with a slash");
  std::vector<EnvironmentItem::Ptr> it; std::vector<std::string> id; std::set<std::string> given; 
  for (int s = 0; s < STEPS; s++) {
    int n = (int)it.size(), op = pick("op", s ? 2 : 1);
    if (op == 1) { int k = pick("which", n); if (!it[k]->isAttached()) sx_kill(); it[k]->detach(); sx_assert(!it[k]->isAttached() && env.getItem(id[k]).get() == NULL, "a detached item is not found any more"); id[k] = ""; sx_reach("detached"); }
    else {
      std::string form = FORM[pick("form", 9)]; EnvironmentItem::Ptr x; int kind = pick("kind", 2); if (kind) x = new TLayer(form); else { x = new FrameNode(); x->setUniqueId(form); } sx_assert(x->getUniqueId() == form && !x->isAttached(), "an id given is kept until attached");
      std::string want = form.empty() ? prefix : form[0] == '/' ? form : prefix + form; bool aut = want[want.size() - 1] == '/'; bool clash = !aut && env.getItem(want).get() != NULL, thrown = false;
      try { env.attachItem(x.get()); } catch (std::runtime_error&) { thrown = true; }
      if (clash) { sx_reach("clash"); sx_assert(thrown && !x->isAttached(), "an id in use is rejected and the item stays outside"); }
      else { sx_assert(!thrown && x->isAttached() && x->getEnvironment() == &env, "an item with a free id is attached"); if (thrown) return; std::string got = x->getUniqueId();
        if (!aut) sx_assert(got == want, "a complete id is kept"); else { sx_reach("automatic"); sx_assert(got.size() > want.size() && got.compare(0, want.size(), want) == 0 && digits(got.substr(want.size())), "an automatic id is the given path and a number"); sx_assert(!given.count(got), "an automatic id is never handed out again"); for (size_t i = 0; i < id.size(); i++) sx_assert(id[i] != got, "an automatic id is free"); 
          long v = 0; std::string t = got.substr(want.size()); for (size_t i = 0; i < t.size(); i++) v = v * 10 + (t[i] - '0'); sx_assert(x->getUniqueIdNumericalSuffix() == v, "the numerical suffix is the number of the id"); }
        if (aut) given.insert(got); size_t sl = got.rfind('/'); sx_assert(x->getUniqueIdPrefix() == got.substr(0, sl) && x->getUniqueIdSuffix() == got.substr(sl + 1), "prefix and suffix are the parts of the id");
        bool th2 = false; try { x->setUniqueId("/other"); } catch (std::logic_error&) { th2 = true; } sx_assert(th2 && x->getUniqueId() == got, "the id of an attached item does not change"); it.push_back(x); id.push_back(got); } }
    for (size_t i = 0; i < it.size(); i++) if (!id[i].empty()) { sx_assert(it[i]->getUniqueId() == id[i] && env.getItem(id[i]).get() == it[i].get(), "every attached item is found under its id"); for (size_t j = 0; j < i; j++) sx_assert(id[i] != id[j], "ids are unique"); }
  }
  sx_reach("end");
}
// re-attaching: the same environment refuses, another environment takes the item over with its id
extern "C" void transfer() {
  long before = sx_live_heap();
  { Environment a, b; World w(&a); for (int i = 0; i < N; i++) w.attach(i); for (int i = 0; i < STEPS; i++) w.step(B(FADD) | B(SETF) | B(LADD) | B(INADD) | B(OUTADD)); int k = pick("which", N); bool held = pick("held", 2), clash = pick("clash", 2); std::string id = w.id[k]; 
    bool again = pick("again", 2); if (again) { bool th = false; try { a.attachItem(w.it[k]); } catch (std::runtime_error&) { th = true; } sx_assert(th, "attaching an attached item again is refused"); w.all("a refused attachment changes nothing"); sx_reach("again"); }
    if (clash) { TLayer* c = new TLayer(id); b.attachItem(c); if (!held) sx_kill(); } if (!held) w.held[k] = 0;
    bool th = false; try { b.attachItem(w.it[k]); } catch (std::runtime_error&) { th = true; }
    if (clash) { sx_assert(th && !w.it[k]->isAttached(), "an item that cannot be taken over belongs to no environment"); sx_reach("refused"); }
    else { sx_assert(!th && w.it[k]->getEnvironment() == &b && b.getItem(id).get() == w.it[k] && w.it[k]->getUniqueId() == id && g_dtor[k] == 0, "an item moves to the other environment with its id"); sx_reach(held ? "held" : "not held"); }
    sx_assert(a.getItem(id).get() == NULL, "an item belongs to one environment"); EnvironmentItem* x = w.it[k]; w.mDetach(k); w.it[k] = 0; 
    for (int i = 0; i < NF; i++) if (i != k) { sx_assert(a.getParent(w.f[i]) == (w.par[i] == -2 ? NULL : w.fn(w.par[i])), "the old environment keeps no link to a moved item"); } for (int i = 0; i < NM; i++) if (M0 + i != k) sx_assert(a.getFrameNode(w.m[i]) == (w.fr[i] == -2 ? NULL : w.fn(w.fr[i])), "the old environment keeps no link to a moved item"); if (NO && k != O0) { int na = 0; for (auto& p : w.in) if (p.first == 0) na++; sx_assert((int)a.getInputs(w.o[0]).size() == na, "the old environment keeps no link to a moved item"); } }
  sx_assert(sx_live_heap() == before, "every item is destroyed in the end");
}
// ---- ownership
extern "C" void ownership() {
  long before = sx_live_heap();
  { Environment* env = new Environment; World w(env); for (int i = 0; i < STEPS; i++) w.step(B(FADD) | B(SETF) | B(LADD) | B(INADD) | B(OUTADD) | B(ATTACH)); bool held[N]; for (int i = 0; i < N; i++) { held[i] = !w.att[i] || pick("held", 2); if (w.att[i]) sx_assert(w.it[i]->getRefCount() == 2, "the environment holds one reference to every item"); if (!held[i]) w.held[i] = 0; }
    int act = pick("act", 3); std::vector<EnvironmentItem*> gone; bool wasAtt[N]; for (int i = 0; i < N; i++) wasAtt[i] = w.att[i];
    if (act == 1) { int i = pick("item", N); if (!w.att[i]) sx_kill(); env->detachItem(w.it[i]); w.mDetach(i); sx_reach("detach"); } else if (act == 2) { int i = pick("item", NF); if (!w.att[i]) sx_kill(); env->detachItem(w.it[i], true); w.mDeep(i); sx_reach("deep"); }
    for (int i = 0; i < N; i++) sx_assert(g_dtor[i] == (wasAtt[i] && !w.att[i] && !held[i] ? 1 : 0), "a detached item is destroyed when nobody holds it, and an attached or held one is not");
    delete env; for (int i = 0; i < N; i++) { sx_assert(g_dtor[i] == (held[i] ? 0 : 1), "destroying the environment destroys exactly the items nobody else holds, once"); if (held[i]) sx_assert(!w.it[i]->isAttached() && w.it[i]->getRefCount() == 1, "an item that outlives its environment is detached"); } sx_reach("end"); }
  for (int i = 0; i < N; i++) sx_assert(g_dtor[i] == 1, "every item is destroyed once"); sx_assert(sx_live_heap() == before, "nothing leaks");
}
// ---- metadata and copies
extern "C" void metadata() {
  long before = sx_live_heap();
  { TLayer l("/a"); const TLayer& cl = l; int st[2] = { -1, -1 }; int v[2] = { 0, 0 }; static const char* KEY[] = { "one", "two" };
    for (int s = 0; s < STEPS; s++) { int k = pick("key", 2), op = pick("op", 6);
      if (op == 0 || op == 1) { bool th = false; try { if (op == 0) { int& r = l.getData<int>(KEY[k]); if (st[k] == -1) sx_assert(r == 0, "new metadata is default constructed"); else if (st[k] == 0) sx_assert(r == v[k], "metadata keeps its value"); int nv = (int)sx_range("val", -100, 100); r = nv; v[k] = nv; } else { std::string& r = l.getData<std::string>(KEY[k]); if (st[k] == -1) sx_assert(r.empty(), "new metadata is default constructed"); else if (st[k] == 1) sx_assert(r == std::string(v[k], 'x'), "metadata keeps its value"); int nv = pick("len", 3); r = std::string(nv, 'x'); v[k] = nv; } } catch (std::runtime_error&) { th = true; }
        bool mism = st[k] != -1 && st[k] != op; sx_assert(th == mism, "asking for metadata under another type is refused with an exception"); if (mism) sx_reach("mismatch"); else st[k] = op; }
      else if (op == 2) { l.removeData(KEY[k]); st[k] = -1; sx_reach("removed"); } else if (op == 3) { l.removeData(); st[0] = st[1] = -1; }
      else if (op == 4) { bool th = false; int r = 0; try { r = cl.getData<int>(KEY[k]); } catch (std::runtime_error&) { th = true; } sx_assert(th == (st[k] != 0) && (th || r == v[k]), "read access answers existing metadata of the type and refuses otherwise"); }
      else { int nv = (int)sx_range("other", -100, 100); TLayer* c = pick("assign", 2) ? new TLayer("/b") : new TLayer(l); if (c->getUniqueId() == "/b") { c->getData<std::string>("two") = "old"; *c = l; sx_assert(c->getUniqueId() == "/b", "assignment keeps the id"); } else sx_assert(c->getUniqueId() == Environment::ITEM_NOT_ATTACHED, "a copy has no id"); 
        for (int i = 0; i < 2; i++) { sx_assert(c->hasData(KEY[i]) == (st[i] != -1) && c->hasData<int>(KEY[i]) == (st[i] == 0), "a copy has the metadata of the original"); if (st[i] == 0) { sx_assert(c->getData<int>(KEY[i]) == v[i], "a copy has the metadata of the original"); c->getData<int>(KEY[i]) = nv; sx_assert(l.getData<int>(KEY[i]) == v[i], "changing a copy leaves the original alone"); } else if (st[i] == 1) { sx_assert(c->getData<std::string>(KEY[i]) == std::string(v[i], 'x'), "a copy has the metadata of the original"); c->getData<std::string>(KEY[i]) = "changed"; } } delete c; sx_reach("copied"); }
      for (int i = 0; i < 2; i++) { sx_assert(l.hasData(KEY[i]) == (st[i] != -1) && l.hasData<int>(KEY[i]) == (st[i] == 0) && l.hasData<std::string>(KEY[i]) == (st[i] == 1), "metadata is reported under its key and type"); if (st[i] == 0) sx_assert(cl.getData<int>(KEY[i]) == v[i], "metadata keeps its value"); if (st[i] == 1) sx_assert(cl.getData<std::string>(KEY[i]) == std::string(v[i], 'x'), "metadata keeps its value"); } } sx_reach("end"); }
  sx_assert(sx_live_heap() == before, "metadata is freed with its layer");
}
extern "C" void holders() {
  long before = sx_live_heap(); { int v = (int)sx_range("v", -1000, 1000), u = (int)sx_range("u", -1000, 1000); Holder<int> h; sx_assert(*h.getData() == 0, "a holder default constructs its object"); HolderBase& b = h; b.get<int>() = v; HolderBase* c = b.clone(); sx_assert(c->isOfType<int>() && !c->isOfType<double>() && c->get<int>() == v, "a cloned holder has the value"); c->get<int>() = u; sx_assert(b.get<int>() == v, "a cloned holder is independent"); delete c; Holder<int> p(new int(u)); sx_assert(*p.getData() == u, "a holder owns the object given"); bool th = false; try { b.get<double>(); } catch (std::exception&) { th = true; } sx_assert(th, "asking a holder for another type is refused with an exception"); sx_reach("end"); }
  sx_assert(sx_live_heap() == before, "holders free their object");
}
// items copied: a copy is outside every environment, assignment does not move an item
extern "C" void item_copies() {
  Environment env; TMap* m = new TMap(); env.attachItem(m); m->value = (int)sx_range("v", 0, 100); m->setLabel("x"); std::string id = m->getUniqueId(); bool imm = pick("imm", 2), dirty = pick("dirty", 2); if (imm) m->setImmutable(); if (dirty) m->setDirty();
  TMap* c = pick("how", 2) ? m->clone() : new TMap(*m); sx_assert(!c->isAttached() && c->getUniqueId() == Environment::ITEM_NOT_ATTACHED && c->value == m->value && c->isImmutable() == imm && c->isDirty() == dirty && c->getRefCount() == 0, "a copy has the contents and belongs to no environment");
  env.attachItem(c); sx_assert(c->isAttached() && c->getUniqueId() != id && env.getItem(id).get() == m, "a copy gets an id of its own"); m->value = (int)sx_range("w", 0, 100); c->set(m); sx_assert(c->value == m->value && c->getUniqueId() != id && c->getEnvironment() == &env && env.getFrameNode(c) == env.getRootNode() && c->getRefCount() == 1, "setting the contents keeps identity and place"); FrameNode* f = new FrameNode(); env.attachItem(f); c->set(f); sx_assert(c->value == m->value, "setting from another type changes nothing"); sx_reach("end");
}
// a map cloned into another environment comes with its chain of frames
extern "C" void clone_to() {
  Environment a, b; FrameNode* f[2]; double t[2]; for (int i = 0; i < 2; i++) { t[i] = sx_dyadic("t", -100, 100, -2); f[i] = new FrameNode(Transform(Eigen::Translation3d(t[i], i, 0))); } a.addChild(a.getRootNode(), f[0]); a.addChild(f[0], f[1]); int p = pick("frame", 3); TMap* m = new TMap(); m->value = (int)sx_range("v", 0, 9); a.attachItem(m, p == 2 ? a.getRootNode() : f[p]); m->cloneTo(b);
  std::vector<TMap*> r = b.getItems<TMap>(); sx_assert(r.size() == 1 && r[0]->value == m->value && r[0] != m && m->getEnvironment() == &a, "the clone has the contents and the original stays"); if (r.size() != 1) return; FrameNode* fn = r[0]->getFrameNode(); int depth = p == 2 ? 0 : p + 1; for (int i = depth - 1; i >= 0; i--) { sx_assert(fn && fn != b.getRootNode() && fn->getEnvironment() == &b && fn->getTransform().translation().x() == t[i] && fn->getTransform().translation().y() == i, "the clone hangs under copies of its frames"); if (!fn || fn == b.getRootNode()) return; fn = fn->getParent(); } sx_assert(fn == b.getRootNode() && (int)b.getItems<FrameNode>().size() == depth + 1, "the clone hangs under copies of its frames"); sx_reach("end");
}
