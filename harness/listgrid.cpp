// Grid of lists against a reference model: contents, order, cell isolation, value-copy semantics, memory safety.
#include <vector>
#include <cstring>
#include <cassert>
#include <cstdlib>
#include <envire/tools/ListGrid.hpp>
#include "sx.h"
struct Patch { int v; int w; Patch() : v(0), w(0) {} Patch(int v, int w) : v(v), w(w) {} };
typedef envire::ListGrid<Patch> LG;
struct Model { int nx, ny; std::vector<std::vector<Patch> > c; Model(int x, int y) : nx(x), ny(y), c(x * y) {} std::vector<Patch>& at(int x, int y) { return c[x * ny + y]; } };
static void compare(LG& g, Model& m, const char* what) {
  const LG& cg = g;
  for (int x = 0; x < m.nx; x++) for (int y = 0; y < m.ny; y++) {
    std::vector<Patch>& l = m.at(x, y); size_t i = 0; bool ok = true;
    LG::iterator it = g.beginCell(x, y);
    for (; it != g.endCell(); ++it, ++i) { if (i >= l.size()) { ok = false; break; } sx_assert(it->v == l[i].v && it->w == l[i].w, what); }
    sx_assert(ok && i == l.size(), what);
    size_t n = 0; for (LG::const_iterator ci = cg.beginCell(x, y); ci != cg.endCell(); ++ci) { n++; if (n > l.size() + 1) break; }
    sx_assert(n == l.size(), what);
  }
}
static int cnt;
static Patch fresh() { cnt++; return Patch((int)sx_range("val", -1000, 1000), cnt); }
static void fill(LG& g, Model& m, const char* name, int maxPer) {
  for (int x = 0; x < m.nx; x++) for (int y = 0; y < m.ny; y++) { int n = (int)sx_concretize(sx_range(name, 0, maxPer)); for (int i = 0; i < n; i++) { Patch p = fresh(); g.insertTail(x, y, p); m.at(x, y).push_back(p); } }
}
// one operation of an arbitrary history; returns false when the choice is void
static void step(LG& g, Model& m, int kinds) {
  int op = (int)sx_concretize(sx_range("op", 0, kinds - 1));
  if (op <= 2 && (m.nx == 0 || m.ny == 0)) sx_kill();
  if (op == 0 || op == 1) {
    int x = (int)sx_concretize(sx_range("x", 0, m.nx - 1)), y = (int)sx_concretize(sx_range("y", 0, m.ny - 1)); Patch p = fresh();
    if (op == 0) { g.insertHead(x, y, p); m.at(x, y).insert(m.at(x, y).begin(), p); sx_reach("insertHead"); } else { g.insertTail(x, y, p); m.at(x, y).push_back(p); sx_reach("insertTail"); }
  } else if (op == 2) {
    int x = (int)sx_concretize(sx_range("x", 0, m.nx - 1)), y = (int)sx_concretize(sx_range("y", 0, m.ny - 1)); std::vector<Patch>& l = m.at(x, y); if (l.empty()) sx_kill();
    int k = (int)sx_concretize(sx_range("k", 0, (int)l.size() - 1)); LG::iterator it = g.beginCell(x, y); for (int i = 0; i < k; i++) ++it;
    LG::iterator r = g.erase(it); l.erase(l.begin() + k);
    if (k < (int)l.size()) { sx_assert(r != g.endCell(), "erase returns the following element"); sx_assert(r->w == l[k].w, "erase returns the following element"); } else sx_assert(r == g.endCell(), "erase returns the following element");
    sx_reach("erase");
  } else if (op == 3) {
    int dx = (int)sx_concretize(sx_range("dx", -m.nx - 1, m.nx + 1)), dy = (int)sx_concretize(sx_range("dy", -m.ny - 1, m.ny + 1)); g.move(dx, dy);
    Model n(m.nx, m.ny); for (int x = 0; x < m.nx; x++) for (int y = 0; y < m.ny; y++) { int X = x + dx, Y = y + dy; if (X >= 0 && X < m.nx && Y >= 0 && Y < m.ny) n.at(X, Y) = m.at(x, y); } m = n; sx_reach("move");
  } else if (op == 4) { g.clear(); m = Model(m.nx, m.ny); sx_reach("clear"); }
  else if (op == 5) { int nx = (int)sx_concretize(sx_range("nx", 1, 3)), ny = (int)sx_concretize(sx_range("ny", 1, 3)); g.resize(nx, ny); m = Model(nx, ny); sx_reach("resize"); }
}
// any short history on a small grid behaves as the model
extern "C" void histories() {
  cnt = 0; long before = sx_live_heap();
  { int nx = NX, ny = NY; LG g(nx, ny); Model m(nx, ny); fill(g, m, "fill", 1);
    for (int i = 0; i < STEPS; i++) { step(g, m, 6); compare(g, m, "contents equal the reference after every operation"); } sx_reach("end"); }
  sx_assert(sx_live_heap() == before, "no heap object leaks");
}
// editing after a move: lists were relocated to other cells
extern "C" void moved() {
  cnt = 0; LG g(2, 2); Model m(2, 2); fill(g, m, "fill", 2);
  int dx = (int)sx_concretize(sx_range("dx", -1, 1)), dy = (int)sx_concretize(sx_range("dy", -1, 1)); g.move(dx, dy);
  Model n(2, 2); for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) { int X = x + dx, Y = y + dy; if (X >= 0 && X < 2 && Y >= 0 && Y < 2) n.at(X, Y) = m.at(x, y); } m = n;
  compare(g, m, "move shifts every cell"); step(g, m, 3); compare(g, m, "contents equal the reference after editing a moved grid"); sx_reach("end");
}
// longer lists: one cell with several elements next to another used cell, edited several times
extern "C" void lists() {
  cnt = 0; LG g(1, 2); Model m(1, 2); int n = (int)sx_concretize(sx_range("n", 0, LEN)); for (int i = 0; i < n; i++) { Patch p = fresh(); if (i % 2) { g.insertHead(0, 0, p); m.at(0, 0).insert(m.at(0, 0).begin(), p); } else { g.insertTail(0, 0, p); m.at(0, 0).push_back(p); } }
  for (int i = 0; i < 2; i++) { Patch p = fresh(); g.insertTail(0, 1, p); m.at(0, 1).push_back(p); }
  for (int i = 0; i < EDITS; i++) step(g, m, 3); compare(g, m, "contents equal the reference after editing long lists"); sx_reach("end");
}
// copies are equal and independent, for copy construction and for assignment between grids of any shape
extern "C" void copies() {
  cnt = 0; long before = sx_live_heap();
  { int nx = (int)sx_concretize(sx_range("sx", 1, 2)), ny = (int)sx_concretize(sx_range("sy", 1, 2)); LG a(nx, ny); Model ma(nx, ny); fill(a, ma, "fa", 2);
    int how = (int)sx_concretize(sx_range("how", 0, 2)); LG* b;
    if (how == 0) b = new LG(a); else if (how == 1) { b = new LG(); *b = a; } else { int tx = (int)sx_concretize(sx_range("tx", 1, 3)), ty = (int)sx_concretize(sx_range("ty", 1, 2)); b = new LG(tx, ty); Model mb(tx, ty); b->insertHead(0, 0, fresh()); *b = a; }
    Model mb = ma; compare(*b, mb, "a copy has the contents of the original"); compare(a, ma, "copying leaves the original unchanged");
    if (how == 2) { *b = *b; compare(*b, mb, "self assignment keeps the contents"); }
    bool first = sx_range("edit", 0, 1); if (first) step(a, ma, 3); else step(*b, mb, 3);
    compare(a, ma, "editing the copy does not touch the original"); compare(*b, mb, "editing the original does not touch the copy"); 
    if (sx_range("order", 0, 1)) { delete b; compare(a, ma, "original survives the copy"); } else { a.clear(); compare(*b, mb, "copy survives the original"); delete b; } sx_reach("end"); }
  sx_assert(sx_live_heap() == before, "no heap object leaks");
}
