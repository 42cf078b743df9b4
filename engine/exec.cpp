// symx: symbolic executor for LLVM IR (bounded, path-forking, SMT-decided).
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <set>
#include <deque>
#include <unordered_set>
#include <cmath>
#include <cstring>
#include <unistd.h>
using namespace llvm;
typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64;

static Solver* S;
static const DataLayout* DL;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double g_start;

// ------------------------------------------------------------------ values
struct Agg;
struct Val {
  u64 c = 0; E e = nullptr; Agg* agg = nullptr;
  Val() {} Val(u64 x) : c(x) {}
  Val(const Val& o); Val(Val&& o) noexcept : c(o.c), e(o.e), agg(o.agg) { o.agg = nullptr; }
  Val& operator=(const Val& o); Val& operator=(Val&& o) noexcept { std::swap(c, o.c); std::swap(e, o.e); std::swap(agg, o.agg); return *this; }
  ~Val();
  bool conc() const { return !e && !agg; }
};
struct Agg { int rc = 1; std::vector<Val> v; };
Val::Val(const Val& o) : c(o.c), e(o.e), agg(o.agg) { if (agg) agg->rc++; }
Val& Val::operator=(const Val& o) { if (o.agg) o.agg->rc++; if (agg && --agg->rc == 0) delete agg; c = o.c; e = o.e; agg = o.agg; return *this; }
Val::~Val() { if (agg && --agg->rc == 0) delete agg; }
static Val mkAgg(std::vector<Val> v) { Val r; r.agg = new Agg(); r.agg->v = std::move(v); return r; }
static Val fromE(E e) { Val v; if (e->isConst() && e->w <= 64) v.c = (u64)e->val; else v.e = e; return v; }
static E toE(const Val& v, unsigned w) { if (v.e) return v.e; return mkConst(v.c, w); }
static unsigned tyw(Type* t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isHalfTy()) return 16; if (t->isX86_FP80Ty()) return 80; return 0; }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sext64(u64 v, unsigned w) { if (w >= 64) return (i64)v; v &= mask64(w); if (v >> (w - 1) & 1) v |= ~mask64(w); return (i64)v; }

// ------------------------------------------------------------------ memory
struct SymB { E e; uint16_t i; };
enum OK { O_HEAP, O_STACK, O_GLOBAL, O_FUNC };
struct Obj {
  int rc = 0; u64 size = 0; uint8_t kind = O_HEAP, freed = 0, ro = 0, akind = 0; const char* name = "";
  std::vector<uint8_t> d, st; std::vector<SymB> sy; // st: 0 concrete 1 uninit 2 symbolic
};
struct OP { Obj* p = nullptr; OP() {} explicit OP(Obj* q) : p(q) { if (p) p->rc++; } OP(const OP& o) : p(o.p) { if (p) p->rc++; } OP(OP&& o) noexcept : p(o.p) { o.p = nullptr; } OP& operator=(OP o) noexcept { std::swap(p, o.p); return *this; } ~OP() { if (p && --p->rc == 0) delete p; } };
static const u64 BASEOFF = 0x10000;
static inline u64 baseOf(u32 id) { return ((u64)id << 32) | BASEOFF; }
struct Mem {
  static const int CH = 64;
  struct Chunk { int rc = 0; OP o[CH]; };
  struct CP { Chunk* p = nullptr; CP() {} explicit CP(Chunk* q) : p(q) { if (p) p->rc++; } CP(const CP& o) : p(o.p) { if (p) p->rc++; } CP(CP&& o) noexcept : p(o.p) { o.p = nullptr; } CP& operator=(CP o) noexcept { std::swap(p, o.p); return *this; } ~CP() { if (p && --p->rc == 0) delete p; } };
  std::vector<CP> ch; u32 n = 1;
  Obj* get(u32 id) const { if (id >= n || id / CH >= ch.size()) return nullptr; return ch[id / CH].p->o[id % CH].p; }
  void set(u32 id, Obj* o) { while (ch.size() <= id / CH) ch.push_back(CP(new Chunk())); CP& c = ch[id / CH]; if (c.p->rc > 1) { Chunk* q = new Chunk(); for (int i = 0; i < CH; i++) q->o[i] = c.p->o[i]; c = CP(q); } c.p->o[id % CH] = OP(o); }
  Obj* wr(u32 id) { CP& c = ch[id / CH]; if (c.p->rc > 1) { Chunk* q = new Chunk(); for (int i = 0; i < CH; i++) q->o[i] = c.p->o[i]; c = CP(q); } OP& o = c.p->o[id % CH]; if (o.p->rc > 1) { Obj* q = new Obj(*o.p); q->rc = 0; o = OP(q); } return o.p; }
  u32 alloc(u64 size, int kind) { Obj* o = new Obj(); o->size = size; o->kind = kind; o->d.resize(size); o->st.assign(size, 1); u32 id = n++; set(id, o); return id; }
};

// ------------------------------------------------------------------ compiled functions
struct KI { Instruction* I; unsigned op; int dst; std::vector<int> ops; unsigned w = 0; Type* ty = nullptr; 
  i64 gconst = 0; std::vector<std::pair<int, u64>> gidx; // GEP
  int t0 = -1, t1 = -1; Function* callee = nullptr; int special = -1; int blk = 0; };
struct KF { Function* F; std::vector<KI> code; std::vector<int> blkStart; std::unordered_map<BasicBlock*, int> blkIdx; std::vector<Val> consts; int nregs = 0; u64 execs = 0; bool repo = false; std::string file; };
static std::unordered_map<Function*, KF*> g_kf;
struct Frame { KF* f; int pc = 0; int blk = 0; std::vector<Val> regs; std::vector<u32> allocas; int retDst = -1; const KI* call = nullptr; std::vector<Val> varargs; bool ctorFrame = false; };
struct Input { std::string name; E e; u64 c; unsigned w; char kind; double extra; };
struct Obs { std::string label; E e; u64 c; char kind; };
struct Exc { u64 obj; u64 ti; u64 dtor; u64 adj; int handlers = 0; };
struct State {
  std::vector<Frame> st; Mem m; std::vector<E> pc; ModelP model; std::unordered_set<u32> pinned; std::unordered_map<E, u64> known;
  std::vector<Input> inputs; std::vector<Obs> obs; std::vector<std::string> reach; std::vector<Exc> excs; std::vector<u64> caught; // addresses
  std::map<std::string, int> occ; u64 steps = 0; u32 forks = 0; u64 liveHeap = 0; u32 uninitCnt = 0; u64 curExc = 0; int curSel = 0; std::map<u64, u64> files;
};
static std::unordered_map<Function*, u32> g_fnId; static std::unordered_map<u32, Function*> g_fnById; static std::unordered_map<const GlobalValue*, u64> g_gaddr;
static Module* M;
static std::vector<State*> work; static State* cur;

struct Opt { std::string harness = "harness"; double maxTime = 600; u64 maxPaths = 1000000, maxSteps = 50000000; int witnesses = 3; std::string out; bool verbose = false; u64 seed = 1; std::vector<std::string> mods; bool stopFirst = true; u64 maxMB = 6000; bool real = false; int maxErr = 4; bool uninitErr = true; };
static Opt opt;

struct PathKill { };                 // path ends silently (assume false)
struct Redo { };                     // restart the instruction
struct ErrRec { std::string kind, label, msg, where; std::vector<std::string> stack; std::vector<std::string> inputs; bool inconclusive; std::string pathinfo; };
static std::vector<ErrRec> g_errs; static std::map<std::string, int> g_errCount;
static std::map<std::string, u64> g_incon; // inconclusive reasons
static std::map<std::string, u64> g_reach; static u64 g_paths = 0, g_assumeKilled = 0, g_forks = 0, g_steps = 0, g_errPaths = 0, g_asserts = 0, g_assertQueries = 0, g_maxDepth = 0;
struct Witness { std::vector<std::string> inputs, obs; }; static std::vector<Witness> g_wit;

[[noreturn]] static void fatal(const std::string& s) { fprintf(stderr, "symx fatal: %s\n", s.c_str()); exit(4); }
static std::string whereOf(const KI* k) { if (!k || !k->I) return "?"; std::string s; if (auto& dl = k->I->getDebugLoc()) { auto* sc = cast<DILocalScope>(dl.getScope()); s = sc->getFilename().str() + ":" + std::to_string(dl.getLine()); if (auto* sp = sc->getSubprogram()) s += " (" + sp->getName().str() + ")"; } else s = k->I->getFunction()->getName().str(); return s; }
static std::string demang(const std::string& n) { return llvm::demangle(n); }
static std::string hex(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
static std::string inputStr(const Input& in, const Model& m) {
  u64 v; char b[200];
  if (in.kind == 'R') { Q q; double d = 0; if (!in.e) d = bitsToD(in.c); else if (Solver::evalReal(in.e, m, q)) d = qToD(q); snprintf(b, 200, "f %s 0x%llx %.9g", in.name.c_str(), (unsigned long long)(u64)fToBits((float)d), d); return b; }
  if (in.kind == 'r') { // real-mode double
    Q q; double d = 0; if (!in.e) d = bitsToD(in.c); else if (Solver::evalReal(in.e, m, q)) d = qToD(q);
    snprintf(b, 200, "d %s 0x%llx %.17g", in.name.c_str(), (unsigned long long)(u64)dToBits(d), d); return b; }
  v = in.e ? (u64)m.eval(in.e) : in.c;
  if (in.kind == 'd') snprintf(b, 200, "d %s 0x%llx %.17g", in.name.c_str(), (unsigned long long)v, bitsToD(v));
  else if (in.kind == 'f') snprintf(b, 200, "f %s 0x%llx %.9g", in.name.c_str(), (unsigned long long)v, bitsToF(v));
  else snprintf(b, 200, "i %s 0x%llx %lld", in.name.c_str(), (unsigned long long)v, (long long)v);
  return b;
}
static std::vector<std::string> inputsOf(State& s, const Model& m) { std::vector<std::string> r; for (auto& i : s.inputs) r.push_back(inputStr(i, m)); return r; }
static std::vector<std::string> stackOf(State& s) { std::vector<std::string> r; for (size_t i = s.st.size(); i-- > 0 && r.size() < 14;) { auto& f = s.st[i]; int pc = i + 1 == s.st.size() ? f.pc : f.pc - 1; if (pc < 0) pc = 0; if (pc >= (int)f.f->code.size()) pc = f.f->code.size() - 1; r.push_back(demang(f.f->F->getName().str()).substr(0, 120) + " @ " + whereOf(&f.f->code[pc])); } return r; }
static const KI* curKI(State& s) { auto& f = s.st.back(); int pc = std::min((int)f.f->code.size() - 1, std::max(0, f.pc)); return &f.f->code[pc]; }
// innermost frame whose source lies in the repository
static std::string repoWhere(State& s) { for (size_t i = s.st.size(); i-- > 0;) { auto& f = s.st[i]; int pc = i + 1 == s.st.size() ? f.pc : f.pc - 1; if (pc < 0) pc = 0; if (pc >= (int)f.f->code.size()) pc = f.f->code.size() - 1; auto w = whereOf(&f.f->code[pc]); if (w.find("/repo/") != std::string::npos || w.find("envire/") != std::string::npos) return w; } return whereOf(curKI(s)); }

static void report(State& s, const std::string& kind, const std::string& label, const std::string& msg, const ModelP& m, bool inconclusive = false) {
  if (inconclusive) { g_incon[kind + ": " + msg + " @ " + whereOf(curKI(s))]++; if (opt.verbose) { fprintf(stderr, "INCONCLUSIVE %s %s\n", kind.c_str(), msg.c_str()); for (auto& x : stackOf(s)) fprintf(stderr, "   %s\n", x.c_str()); } return; }
  std::string key = kind + "|" + label + "|" + (kind == "assert" ? "" : repoWhere(s));
  if (g_errCount[key]++ >= 2) return;
  ErrRec r; r.kind = kind; r.label = label; r.msg = msg; r.where = repoWhere(s); r.stack = stackOf(s); r.inputs = inputsOf(s, m ? *m : *s.model); r.inconclusive = false;
  if (opt.verbose) { fprintf(stderr, "ERROR %s [%s] %s @ %s\n", kind.c_str(), label.c_str(), msg.c_str(), r.where.c_str()); for (auto& x : r.stack) fprintf(stderr, "   %s\n", x.c_str()); for (auto& x : r.inputs) fprintf(stderr, "   input %s\n", x.c_str()); }
  g_errs.push_back(r);
}
struct PathErr { };
[[noreturn]] static void err(State& s, const std::string& kind, const std::string& msg, const ModelP& m = nullptr) { report(s, kind, "", msg, m); g_errPaths++; throw PathErr(); }
[[noreturn]] static void incon(State& s, const std::string& kind, const std::string& msg) { report(s, kind, "", msg, nullptr, true); throw PathErr(); }

// ------------------------------------------------------------------ path condition handling
static void addPC(State& s, E c) {
  if (c->isConst()) return;
  if (c->op == Op::And) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
  for (E x : s.pc) if (x == c) return;
  s.pc.push_back(c);
  if (c->op == Op::Eq && c->k[1]->isConst() && c->k[1]->w <= 64) { if (c->k[0]->op == Op::Sym) s.pinned.insert(c->k[0]->aux); s.known[c->k[0]] = (u64)c->k[1]->val; }
  if (c->op == Op::Sym) { s.pinned.insert(c->aux); }
  if (c->op == Op::Xor && c->w == 1 && c->k[0]->op == Op::Sym) s.pinned.insert(c->k[0]->aux);
}
static i64 realRound(State& s, E x, unsigned mode);
// in real mode a floor stays symbolic while it is only compared with constants; any other use forks over its values
static E lazyFloor(E x) { return mkApp("floor", {x}, 64); }
static bool isLazyFloor(E e) { static const u32 id = appFnId("floor"); return e->op == Op::App && e->aux == id && e->w == 64; }
static E simp(State& s, E e) {
  if (e->isConst()) return e;
  if (g_realMode && e->op == Op::App && isLazyFloor(e)) return mkConst(dToBits((double)realRound(s, e->k[0], RM_FLOOR)), 64);
  if (!s.known.empty()) { auto it = s.known.find(e); if (it != s.known.end()) return mkConst(it->second, e->w); }
  if (!s.pinned.empty() && e->syms && !e->hasReal) { for (u32 x : *e->syms) if (!(x & 0x80000000u) && !s.pinned.count(x)) return e; if (e->hasUF) return e; return mkConst(s.model->eval(e), e->w); }
  return e;
}
static bool modelBool(State& s, E c, bool& v) { return Solver::evalBool(c, *s.model, v); }
static ModelP& ensureModel(State& s) { return s.model; }

static std::map<std::string, u64> g_forkSites; static bool g_forkProf = getenv("SX_FORKPROF") != nullptr;
static State* clone(State& s) { State* n = new State(s); g_forks++; n->forks++; if (g_forkProf) g_forkSites[whereOf(curKI(s)) + " < " + repoWhere(s)]++; return n; }
static void pushWork(State* n) { work.push_back(n); }

// decide a branch; returns the side taken by the current state, forks when both feasible
static bool branch(State& s, E c) {
  c = simp(s, c);
  if (c->isConst()) return c->val != 0;
  bool v;
  E nc = mkNot(c);
  if (modelBool(s, c, v)) {
    E other = v ? nc : c; ModelP om;
    Res r = S->check(s.pc, other, s.model, &om);
    if (r == UNKNOWN) { report(s, "solver-unknown", "", "branch feasibility undecided", nullptr, true); }
    if (r == SAT) {
      State* n = clone(s); n->model = om; addPC(*n, other); pushWork(n); // re-executes this instruction and takes the other side
      s.forks++; addPC(s, v ? c : nc);
    } else if (r == UNKNOWN) addPC(s, v ? c : nc);
    return v;
  }
  ModelP mt, mf; Res rt = S->check(s.pc, c, s.model, &mt), rf = S->check(s.pc, nc, s.model, &mf);
  if (rt == UNKNOWN || rf == UNKNOWN) report(s, "solver-unknown", "", "branch feasibility undecided", nullptr, true);
  if (rt == SAT && rf == SAT) { State* n = clone(s); n->model = mf; addPC(*n, nc); pushWork(n); s.model = mt; addPC(s, c); s.forks++; return true; }
  if (rt == SAT) { s.model = mt; addPC(s, c); return true; }
  if (rf == SAT) { s.model = mf; addPC(s, nc); return false; }
  throw PathErr();
}
// concretise a value by forking over all feasible values
static u64 concretize(State& s, E e) {
  e = simp(s, e);
  if (e->isConst()) return (u64)e->val;
  if (e->fp && e->hasReal) incon(s, "unsupported", "concretising a real value");
  u64 v = (u64)s.model->eval(e);
  E eq = mkEq(e, mkConst(v, e->w));
  ModelP om; Res r = S->check(s.pc, mkNot(eq), s.model, &om);
  if (r == UNKNOWN) report(s, "solver-unknown", "", "value enumeration undecided", nullptr, true);
  if (r == SAT) { State* n = clone(s); n->model = om; addPC(*n, mkNot(eq)); pushWork(n); s.forks++; }
  addPC(s, eq); s.known[e] = v;
  return v;
}
static u64 concV(State& s, const Val& v, unsigned w) { if (v.conc()) return v.c; if (!v.e) incon(s, "unsupported", "concretise aggregate"); return concretize(s, v.e); }

// ------------------------------------------------------------------ memory access
static E symByte(const Obj* o, u64 off) { auto& b = o->sy[off]; if (b.e->w == 8) return b.e; unsigned lo = b.i * 8; if (b.e->w < lo + 8) return mkZExt(mkExtract(b.e, lo, b.e->w - lo), 8); return mkExtract(b.e, lo, 8); }
static void ensureSy(Obj* o) { if (o->sy.empty()) o->sy.resize(o->size); }
static u32 checkObj(State& s, u64 addr, u64 n, bool write) {
  u32 id = addr >> 32; 
  if (addr < 4096 || id == 0) err(s, "null-deref", std::string(write ? "write" : "read") + " through a null (or small) pointer " + hex(addr));
  Obj* o = s.m.get(id);
  if (!o) err(s, "bad-pointer", std::string(write ? "write" : "read") + " through an invalid pointer " + hex(addr));
  if (o->kind == O_FUNC) err(s, "bad-pointer", "data access to a function");
  if (o->freed) err(s, "use-after-free", std::string(write ? "write to " : "read of ") + (o->kind == O_STACK ? "dead stack object" : "freed heap object"));
  i64 off = (i64)(addr - baseOf(id));
  if (off < 0 || (u64)off + n > o->size) err(s, "out-of-bounds", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string(off) + " of object of " + std::to_string(o->size) + " bytes");
  if (write && o->ro) err(s, "write-const", "write to constant memory");
  return id;
}
static E byteExpr(State& s, u32 id, u64 off) {
  Obj* o = s.m.get(id);
  if (o->st[off] == 0) return mkConst(o->d[off], 8);
  if (o->st[off] == 1) { // uninitialised
    static std::unordered_map<std::string, E> memo; std::string nm = "uninit#" + std::to_string(s.uninitCnt++);
    E& e = memo[nm]; if (!e) { e = mkSym(nm, 8); g_syms[e->aux].undef = true; }
    Obj* w = s.m.wr(id); ensureSy(w); w->st[off] = 2; w->sy[off] = {e, 0}; return e; }
  return symByte(o, off);
}
static Val loadScalar(State& s, u32 id, u64 off, unsigned w, bool fp) {
  unsigned n = (w + 7) / 8; Obj* o = s.m.get(id);
  bool allc = true; for (unsigned i = 0; i < n; i++) if (o->st[off + i]) { allc = false; break; }
  if (allc) { if (n <= 8) { u64 v = 0; memcpy(&v, &o->d[off], n); return Val(v & mask64(w)); } u128 v = 0; memcpy(&v, &o->d[off], n); return fromE(mkConst(v, w)); }
  // whole symbolic value?
  if (o->st[off] == 2 && o->sy[off].i == 0) { E e = o->sy[off].e; if (e->w == w || (w == 8 * n && e->w == w)) { bool same = true; for (unsigned i = 0; i < n; i++) if (o->st[off + i] != 2 || o->sy[off + i].e != e || o->sy[off + i].i != i) { same = false; break; } if (same) return fromE(e); } }
  // wholly uninitialised scalar: one fresh symbol
  bool allu = true; for (unsigned i = 0; i < n; i++) if (o->st[off + i] != 1) { allu = false; break; }
  if (allu && n <= 8) {
    static std::unordered_map<std::string, E> memo; std::string nm = "uninit#" + std::to_string(s.uninitCnt++) + (fp ? "f" : "i") + std::to_string(w);
    E& e = memo[nm]; if (!e) { e = mkSym(nm, w == 1 ? 1 : 8 * n, fp && g_realMode && w == 64); g_syms[e->aux].undef = true; if (fp) const_cast<Expr*>(e)->fp = true; }
    Obj* x = s.m.wr(id); ensureSy(x); for (unsigned i = 0; i < n; i++) { x->st[off + i] = 2; x->sy[off + i] = {e, (uint16_t)i}; }
    E r = e; if (r->w > w) r = mkExtract(r, 0, w); return fromE(r);
  }
  E r = nullptr; for (unsigned i = 0; i < n; i++) { E b = byteExpr(s, id, off + i); if (b->hasReal) incon(s, "unsupported", "byte-level access to a real-mode double"); r = r ? mkConcat(b, r) : b; }
  if (r->w > w) r = mkExtract(r, 0, w);
  return fromE(r);
}
static void storeScalar(State& s, u32 id, u64 off, const Val& v, unsigned w) {
  unsigned n = (w + 7) / 8; Obj* o = s.m.wr(id);
  if (!v.e) { memcpy(&o->d[off], &v.c, std::min(n, 8u)); for (unsigned i = 0; i < n; i++) o->st[off + i] = 0; if (n > 8) memset(&o->d[off + 8], 0, n - 8); return; }
  if (v.e->isConst()) { u128 x = v.e->val; memcpy(&o->d[off], &x, n); for (unsigned i = 0; i < n; i++) o->st[off + i] = 0; return; }
  ensureSy(o); E e = v.e;
  if (e->w % 8 && e->w != 1) e = mkZExt(e, n * 8); else if (e->w == 1) e = mkZExt(e, 8);
  for (unsigned i = 0; i < n; i++) { o->st[off + i] = 2; o->sy[off + i] = {e, (uint16_t)i}; }
}
static Val loadTy(State& s, u32 id, u64 off, Type* t);
static Val loadTy(State& s, u32 id, u64 off, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); std::vector<Val> v; for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadTy(s, id, off + sl->getElementOffset(i), st->getElementType(i))); return mkAgg(std::move(v)); }
  if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); std::vector<Val> v; for (u64 i = 0; i < at->getNumElements(); i++) v.push_back(loadTy(s, id, off + i * es, at->getElementType())); return mkAgg(std::move(v)); }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { unsigned ew = tyw(vt->getElementType()); std::vector<Val> v; for (u64 i = 0; i < vt->getNumElements(); i++) v.push_back(loadScalar(s, id, off + i * (ew / 8), ew, vt->getElementType()->isFloatingPointTy())); return mkAgg(std::move(v)); }
  unsigned w = tyw(t); if (!w || w > 128 || t->isX86_FP80Ty()) incon(s, "unsupported", "load type");
  Val v = loadScalar(s, id, off, w, t->isFloatingPointTy());
  return v;
}
static void storeTy(State& s, u32 id, u64 off, const Val& v, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(s, id, off + sl->getElementOffset(i), v.agg->v[i], st->getElementType(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) storeTy(s, id, off + i * es, v.agg->v[i], at->getElementType()); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { unsigned ew = tyw(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) storeScalar(s, id, off + i * (ew / 8), v.agg->v[i], ew); return; }
  unsigned w = tyw(t); if (!w || t->isX86_FP80Ty()) incon(s, "unsupported", "store type");
  storeScalar(s, id, off, v, w);
}
// Resolve a symbolic address. Returns object id; off is either concrete (sym==nullptr) or symbolic.
static u32 resolve(State& s, E a, u64 n, bool write, u64& off, E& symOff) {
  a = simp(s, a); symOff = nullptr;
  if (a->isConst()) { u64 x = (u64)a->val; u32 id = checkObj(s, x, n, write); off = x - baseOf(id); return id; }
  u64 x = (u64)s.model->eval(a); u32 id = x >> 32;
  // fork over other objects
  E hi = mkExtract(a, 32, 32);
  if (!hi->isConst()) {
    E same = mkEq(hi, mkConst(id, 32)); ModelP om; Res r = S->check(s.pc, mkNot(same), s.model, &om);
    if (r == UNKNOWN) report(s, "solver-unknown", "", "pointer resolution undecided", nullptr, true);
    if (r == SAT) { State* nn = clone(s); nn->model = om; addPC(*nn, mkNot(same)); pushWork(nn); s.forks++; addPC(s, same); }
  }
  Obj* o = s.m.get(id);
  if (x < 4096 || !o || o->freed || o->kind == O_FUNC) { checkObj(s, x, n, write); }
  // bounds
  E off64 = mkBin(Op::Sub, a, mkConst(baseOf(id), 64));
  E inb = o->size >= n ? mkBin(Op::Ule, off64, mkConst(o->size - n, 64)) : mkBool(false);
  inb = simp(s, inb);
  if (!inb->isTrue()) {
    bool v = inb->isConst() ? false : s.model->eval(inb) != 0;
    ModelP bad = s.model; Res r = SAT;
    if (v) r = S->check(s.pc, mkNot(inb), s.model, &bad);
    if (r == UNKNOWN) report(s, "solver-unknown", "", "bounds check undecided", nullptr, true);
    if (r == SAT) {
      u64 bx = (u64)bad->eval(off64);
      report(s, "out-of-bounds", "", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at symbolic offset (e.g. " + std::to_string((i64)bx) + ") of object of " + std::to_string(o->size) + " bytes", bad);
      // continue with the in-bounds part if any
      ModelP good = s.model; if (!v) { Res r2 = inb->isConst() ? UNSAT : S->check(s.pc, inb, s.model, &good); if (r2 != SAT) { g_errPaths++; throw PathErr(); } }
      s.model = good; addPC(s, inb);
    }
  }
  off64 = simp(s, off64);
  if (off64->isConst()) { off = (u64)off64->val; return id; }
  if (write && o->ro) err(s, "write-const", "write to constant memory");
  symOff = off64; off = (u64)s.model->eval(off64); return id;
}
// candidate offsets for a symbolic in-bounds offset; returns false when it should be concretised instead
static bool candidates(State& s, u32 id, E so, u64 n, std::vector<u64>& c) {
  Obj* o = s.m.get(id); u64 step = n; u64 cu = (u64)s.model->eval(so);
  // find a stride that provably holds
  for (u64 st : {(u64)n, (u64)8, (u64)4, (u64)2}) { if (st == 0 || (st & (st - 1))) continue; E rem = mkEq(mkBin(Op::And, so, mkConst(st - 1, 64)), mkConst(cu & (st - 1), 64)); rem = simp(s, rem); if (rem->isTrue() || S->check(s.pc, mkNot(rem), s.model, nullptr) == UNSAT) { step = st; break; } step = 1; }
  u64 lo = cu % step, hi = o->size - n; 
  if (so->lo > (i128)lo && so->lo >= 0) lo = ((u64)so->lo - lo + step - 1) / step * step + lo;
  if (so->lo >= 0 && (i128)hi > so->hi) hi = (u64)so->hi;
  if (lo > hi || (hi - lo) / step > 256) return false;
  for (u64 x = lo; x <= hi; x += step) c.push_back(x);
  return true;
}
extern void attachIteDy(E);
static void markFP(E r) { if (r->op == Op::Ite) { auto* q = const_cast<Expr*>(r); q->fp = true; if (!g_realMode) attachIteDy(r); } }
static Val memLoad(State& s, const Val& p, Type* t) {
  u64 n = DL->getTypeStoreSize(t);
  if (p.conc()) { u32 id = checkObj(s, p.c, n, false); return loadTy(s, id, p.c - baseOf(id), t); }
  u64 off; E so; u32 id = resolve(s, p.e, n, false, off, so);
  if (!so) return loadTy(s, id, off, t);
  unsigned w = tyw(t); std::vector<u64> c;
  if (!w || !candidates(s, id, so, n, c)) { u64 x = concretize(s, so); return loadTy(s, id, x, t); }
  E r = nullptr; bool realv = false;
  for (size_t i = c.size(); i-- > 0;) { E v = toE(loadScalar(s, id, c[i], w, t->isFloatingPointTy()), w); if (!r) { r = v; if (t->isFloatingPointTy() && v->isConst()) {} } else { r = mkIte(mkEq(so, mkConst(c[i], 64)), v, r); if (t->isFloatingPointTy()) markFP(r); } realv |= v->hasReal; }
  return fromE(r);
}
static void memStore(State& s, const Val& p, const Val& v, Type* t) {
  u64 n = DL->getTypeStoreSize(t);
  if (p.conc()) { u32 id = checkObj(s, p.c, n, true); storeTy(s, id, p.c - baseOf(id), v, t); return; }
  u64 off; E so; u32 id = resolve(s, p.e, n, true, off, so);
  if (!so) { storeTy(s, id, off, v, t); return; }
  unsigned w = tyw(t); std::vector<u64> c;
  if (!w || !candidates(s, id, so, n, c) || c.size() > 64) { u64 x = concretize(s, so); storeTy(s, id, x, v, t); return; }
  E ve = toE(v, w);
  for (u64 x : c) { E old = toE(loadScalar(s, id, x, w, t->isFloatingPointTy()), w); storeScalar(s, id, x, fromE(mkIte(mkEq(so, mkConst(x, 64)), ve, old)), w); }
}
static u64 concPtr(State& s, const Val& p) { if (p.conc()) return p.c; return concretize(s, p.e); }
static void copyBytes(State& s, u64 dst, u64 src, u64 n) {
  if (!n) return;
  u32 a = checkObj(s, src, n, false), b = checkObj(s, dst, n, true);
  u64 so = src - baseOf(a), d0 = dst - baseOf(b);
  std::vector<uint8_t> d(n), st(n); std::vector<SymB> sy; Obj* o = s.m.get(a); bool anySym = false;
  memcpy(d.data(), &o->d[so], n); memcpy(st.data(), &o->st[so], n);
  for (u64 i = 0; i < n; i++) if (st[i] == 2) anySym = true;
  if (anySym) sy.assign(o->sy.begin() + so, o->sy.begin() + so + n);
  Obj* w = s.m.wr(b); memcpy(&w->d[d0], d.data(), n); memcpy(&w->st[d0], st.data(), n);
  if (anySym) { ensureSy(w); std::copy(sy.begin(), sy.end(), w->sy.begin() + d0); }
}
static std::string cstr(State& s, u64 p) { std::string r; for (;;) { u32 id = checkObj(s, p, 1, false); Obj* o = s.m.get(id); u64 off = p - baseOf(id); if (o->st[off]) { r += '?'; if (o->st[off] == 2) { E e = symByte(o, off); if ((s.model->eval(e) & 0xff) == 0) break; } } else { if (!o->d[off]) break; r += (char)o->d[off]; } p++; if (r.size() > 4096) break; } return r; }

// ------------------------------------------------------------------ constants and globals
static Val constVal(const Constant* c);
static u64 gaddr(const GlobalValue* g) { auto it = g_gaddr.find(g); if (it != g_gaddr.end()) return it->second; if (auto* a = dyn_cast<GlobalAlias>(g)) return g_gaddr[g] = constVal(a->getAliasee()).c; fatal("no address for global " + g->getName().str()); }
static int g_undefCnt = 0;
static Val undefVal(Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { std::vector<Val> v; for (auto* e : st->elements()) v.push_back(undefVal(e)); return mkAgg(v); }
  if (auto* at = dyn_cast<ArrayType>(t)) { std::vector<Val> v; for (u64 i = 0; i < at->getNumElements(); i++) v.push_back(undefVal(at->getElementType())); return mkAgg(v); }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { std::vector<Val> v; for (u64 i = 0; i < vt->getNumElements(); i++) v.push_back(undefVal(vt->getElementType())); return mkAgg(v); }
  unsigned w = tyw(t); if (!w || w > 64) return Val(0);
  bool fp = t->isFloatingPointTy(); E e = mkSym("undef#" + std::to_string(g_undefCnt++), w, fp); g_syms[e->aux].undef = true; return fromE(e);
}
static Val zeroVal(Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { std::vector<Val> v; for (auto* e : st->elements()) v.push_back(zeroVal(e)); return mkAgg(v); }
  if (auto* at = dyn_cast<ArrayType>(t)) { std::vector<Val> v; for (u64 i = 0; i < at->getNumElements(); i++) v.push_back(zeroVal(at->getElementType())); return mkAgg(v); }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { std::vector<Val> v; for (u64 i = 0; i < vt->getNumElements(); i++) v.push_back(zeroVal(vt->getElementType())); return mkAgg(v); }
  unsigned w = tyw(t); if (w > 64) return fromE(mkConst(0, w)); return Val(0);
}
static u64 apToU64(const APInt& a) { return a.getRawData()[0]; }
static Val constVal(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) { unsigned w = ci->getBitWidth(); if (w <= 64) return Val(ci->getZExtValue()); if (w <= 128) { u128 v = ci->getValue().getRawData()[0]; v |= (u128)ci->getValue().getRawData()[1] << 64; return fromE(mkConst(v, w)); } fatal("wide constant"); }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { if (c->getType()->isX86_FP80Ty()) return Val(0); return Val(apToU64(cf->getValueAPF().bitcastToAPInt())); }
  if (isa<ConstantPointerNull>(c)) return Val(0);
  if (isa<UndefValue>(c)) return isa<PoisonValue>(c) && !tyw(c->getType()) ? zeroVal(c->getType()) : undefVal(c->getType());
  if (auto* g = dyn_cast<GlobalValue>(c)) return Val(gaddr(g));
  if (isa<ConstantAggregateZero>(c)) return zeroVal(c->getType());
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { std::vector<Val> v; for (auto& o : ca->operands()) v.push_back(constVal(cast<Constant>(o))); return mkAgg(v); }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i))); return mkAgg(v); }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { auto* g = cast<GEPOperator>(ce); APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) fatal("const gep"); return Val(constVal(cast<Constant>(g->getPointerOperand())).c + (u64)off.getSExtValue()); }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::PtrToInt: case Instruction::IntToPtr: { Val v = constVal(ce->getOperand(0)); unsigned w = tyw(ce->getType()); if (w && w < 64 && v.conc()) v.c &= mask64(w); return v; }
      case Instruction::Sub: return Val((constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c) & mask64(tyw(ce->getType())));
      case Instruction::Add: return Val((constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c) & mask64(tyw(ce->getType())));
      case Instruction::Trunc: return Val(constVal(ce->getOperand(0)).c & mask64(tyw(ce->getType())));
      case Instruction::ICmp: { u64 a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c; switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return Val(a == b); case CmpInst::ICMP_NE: return Val(a != b); case CmpInst::ICMP_ULT: return Val(a < b); case CmpInst::ICMP_UGT: return Val(a > b); default: break; } }
      default: break;
    }
    std::string t; raw_string_ostream os(t); ce->print(os); fatal("constant expr " + t);
  }
  std::string t; raw_string_ostream os(t); c->print(os); fatal("constant " + t.substr(0, 200));
}
static void writeConst(State& s, u32 id, u64 off, const Constant* c) {
  if (isa<UndefValue>(c)) return;
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { Obj* o = s.m.wr(id); u64 n = DL->getTypeAllocSize(t); for (u64 i = 0; i < n && off + i < o->size; i++) { o->d[off + i] = 0; o->st[off + i] = 0; } return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { u64 es = DL->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) writeConst(s, id, off + i * es, cd->getElementAsConstant(i)); return; }
  if (auto* ca = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(s, id, off + i * es, ca->getOperand(i)); return; }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(s, id, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto* cv = dyn_cast<ConstantVector>(c)) { u64 es = DL->getTypeAllocSize(cv->getType()->getElementType()); for (unsigned i = 0; i < cv->getNumOperands(); i++) writeConst(s, id, off + i * es, cv->getOperand(i)); return; }
  if (t->isX86_FP80Ty()) { Obj* o = s.m.wr(id); for (int i = 0; i < 16 && off + i < o->size; i++) { o->d[off + i] = 0; o->st[off + i] = 0; } return; }
  storeTy(s, id, off, constVal(c), t);
}
static void initGlobals(State& s) {
  for (auto& F : *M) { u32 id = s.m.n++; Obj* o = new Obj(); o->kind = O_FUNC; s.m.set(id, o); g_fnId[&F] = id; g_fnById[id] = &F; g_gaddr[&F] = baseOf(id); }
  for (auto& G : M->globals()) { u64 sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 8; if (G.isDeclaration() && sz < 256) sz = 256; u32 id = s.m.alloc(sz, O_GLOBAL); g_gaddr[&G] = baseOf(id); Obj* o = s.m.get(id); o->name = strdup(G.getName().str().c_str()); if (G.isDeclaration()) std::fill(o->st.begin(), o->st.end(), 0); }
  for (auto& G : M->globals()) if (G.hasInitializer()) { u32 id = g_gaddr[&G] >> 32; Obj* o = s.m.get(id); writeConst(s, id, 0, G.getInitializer()); o = s.m.wr(id); for (auto& b : o->st) if (b == 1) b = 0; o->ro = G.isConstant(); }
}

// ------------------------------------------------------------------ function compilation
enum Spec { SP_NONE = -1 };
static std::unordered_map<std::string, int> g_specIdx; static std::vector<std::string> g_specNames;
static std::string repoRoot = "/repo/";
static KF* compile(Function* F) {
  auto& k = g_kf[F]; if (k) return k;
  k = new KF(); k->F = F; std::unordered_map<const Value*, int> slot; std::unordered_map<const Value*, int> cidx;
  if (auto* sp = F->getSubprogram()) { k->file = (sp->getFile() ? sp->getFile()->getFilename().str() : ""); std::string dir = sp->getFile() ? sp->getFile()->getDirectory().str() : ""; k->repo = k->file.find("/inc/envire/") != std::string::npos || k->file.find("/inc/repo/") != std::string::npos || k->file.find(repoRoot) == 0; }
  for (auto& a : F->args()) slot[&a] = k->nregs++;
  int bi = 0, ii = 0;
  for (auto& B : *F) { k->blkIdx[&B] = bi++; k->blkStart.push_back(ii); for (auto& I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; if (!I.getType()->isVoidTy()) slot[&I] = k->nregs++; ii++; } }
  auto opnd = [&](const Value* v) -> int {
    auto it = slot.find(v); if (it != slot.end()) return it->second;
    auto ci = cidx.find(v); if (ci != cidx.end()) return ci->second;
    if (auto* c = dyn_cast<Constant>(v)) { k->consts.push_back(constVal(c)); return cidx[v] = -(int)k->consts.size(); }
    if (isa<InlineAsm>(v) || isa<MetadataAsValue>(v)) { k->consts.push_back(Val(0)); return cidx[v] = -(int)k->consts.size(); }
    fatal("operand"); };
  bi = 0;
  for (auto& B : *F) { for (auto& I : B) {
    if (isa<DbgInfoIntrinsic>(I)) continue;
    KI x; x.I = &I; x.op = I.getOpcode(); x.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; x.ty = I.getType(); x.w = tyw(x.ty); x.blk = bi;
    switch (I.getOpcode()) {
      case Instruction::Br: { auto& b = cast<BranchInst>(I); if (b.isConditional()) { x.ops.push_back(opnd(b.getCondition())); x.t0 = k->blkIdx[b.getSuccessor(0)]; x.t1 = k->blkIdx[b.getSuccessor(1)]; } else x.t0 = k->blkIdx[b.getSuccessor(0)]; break; }
      case Instruction::Switch: { auto& sw = cast<SwitchInst>(I); x.ops.push_back(opnd(sw.getCondition())); break; }
      case Instruction::PHI: { auto& p = cast<PHINode>(I); for (unsigned i = 0; i < p.getNumIncomingValues(); i++) { x.ops.push_back(opnd(p.getIncomingValue(i))); x.ops.push_back(k->blkIdx.count(p.getIncomingBlock(i)) ? k->blkIdx[p.getIncomingBlock(i)] : -1); } break; }
      case Instruction::GetElementPtr: { auto& g = cast<GetElementPtrInst>(I); x.ops.push_back(opnd(g.getPointerOperand())); i64 c = 0;
        if (g.getType()->isVectorTy()) fatal("vector gep");
        for (auto gt = gep_type_begin(g), ge = gep_type_end(g); gt != ge; ++gt) { Value* ix = gt.getOperand(); if (auto* st = gt.getStructTypeOrNull()) c += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); else { u64 es = DL->getTypeAllocSize(gt.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) c += ci->getSExtValue() * (i64)es; else { x.gidx.push_back({opnd(ix), es}); x.ops.push_back(ix->getType()->getIntegerBitWidth()); } } }
        x.gconst = c; break; }
      case Instruction::Call: case Instruction::Invoke: { auto& cb = cast<CallBase>(I); for (auto& a : cb.args()) x.ops.push_back(opnd(a)); Value* cv = cb.getCalledOperand()->stripPointerCasts(); x.callee = dyn_cast<Function>(cv); if (!x.callee) if (auto* ga = dyn_cast<GlobalAlias>(cv)) x.callee = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts()); if (!x.callee) x.ops.push_back(opnd(cb.getCalledOperand()));
        if (auto* iv = dyn_cast<InvokeInst>(&I)) { x.t0 = k->blkIdx[iv->getNormalDest()]; x.t1 = k->blkIdx[iv->getUnwindDest()]; } break; }
      default: for (auto& o : I.operands()) if (!isa<BasicBlock>(o)) x.ops.push_back(opnd(o)); break;
    }
    k->code.push_back(std::move(x));
  } bi++; }
  return k;
}

// ------------------------------------------------------------------ scalar operations
static Val up32(State& s, const Val& a) { E r = mkFpCast(simp(s, toE(a, 32)), 64); if (!r) incon(s, "unsupported", "bit-level float in real mode"); return fromE(r); }
static Val dn32(State& s, const Val& a) { E r = mkFpCast(simp(s, toE(a, 64)), 32); if (!r) incon(s, "unsupported", "float cast in real mode"); return fromE(r); }
static bool real32(unsigned w, const Val& a, const Val& b) { return g_realMode && w == 32 && !(a.conc() && b.conc()); }
// an integer neighbour of a real value: forks over the feasible integers
static i64 realRound(State& s, E x, unsigned mode) {
  for (int tries = 0; tries < 200; tries++) {
    Q q; if (!Solver::evalReal(x, *s.model, q)) q = 0;
    double d = qToD(q); if (!(std::fabs(d) < 1e15)) incon(s, "unsupported", "huge real to integer");
    auto C = [&](double v) { return mkConst(dToBits(v), 64); };
    auto fl = [](const Q& z) { boost::multiprecision::cpp_int n = numerator(z), e = denominator(z), t = n / e; if (t * e != n && n < 0) t -= 1; return t.convert_to<double>(); };
    double v = mode == RM_FLOOR ? fl(q) : mode == RM_CEIL ? -fl(-q) : mode == RM_TRUNC ? (q < 0 ? -fl(-q) : fl(q)) : fl(q + Q(1, 2)); E c;
    unsigned m = mode == RM_TRUNC ? (v > 0 ? RM_FLOOR : v < 0 ? RM_CEIL : RM_TRUNC) : mode;
    if (m == RM_FLOOR) c = mkAndB(mkFCmp(Op::FOle, C(v), x), mkFCmp(Op::FOlt, x, C(v + 1)));
    else if (m == RM_CEIL) c = mkAndB(mkFCmp(Op::FOlt, C(v - 1), x), mkFCmp(Op::FOle, x, C(v)));
    else if (m == RM_TRUNC) c = mkAndB(mkFCmp(Op::FOlt, C(-1), x), mkFCmp(Op::FOlt, x, C(1)));
    else c = mkAndB(mkFCmp(Op::FOle, C(v - 0.5), x), mkFCmp(Op::FOlt, x, C(v + 0.5)));
    if (branch(s, c)) return (i64)v;
  }
  incon(s, "bound", "real to integer conversion");
}
static Val binop(State& s, unsigned op, const Val& a, const Val& b, Type* t) {
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { std::vector<Val> r; for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(binop(s, op, a.agg->v[i], b.agg->v[i], vt->getElementType())); return mkAgg(std::move(r)); }
  unsigned w = tyw(t);
  if (t->isFloatingPointTy()) {
    if (t->isX86_FP80Ty()) incon(s, "unsupported", "long double arithmetic");
    if (real32(w, a, b)) return dn32(s, binop(s, op, up32(s, a), up32(s, b), Type::getDoubleTy(t->getContext())));
    if (a.conc() && b.conc() && !(g_realMode && w == 64) && op != Instruction::FRem) {
      if (w == 64) { double x = bitsToD(a.c), y = bitsToD(b.c), r = 0; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; } return Val((u64)dToBits(r)); }
      float x = bitsToF(a.c), y = bitsToF(b.c), r = 0; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; } return Val((u64)fToBits(r)); }
    E x = simp(s, toE(a, w)), y = simp(s, toE(b, w));
    if (op == Instruction::FRem) return fromE(mkApp("fmod", {x, y}, w));
    if (g_realMode && w == 64) {
      if (op == Instruction::FDiv && !isSpecialConst(x) && !isSpecialConst(y)) {
        if (branch(s, mkFCmp(Op::FOeq, y, mkConst(0, 64)))) { // division by zero
          if (branch(s, mkFCmp(Op::FOeq, x, mkConst(0, 64)))) return Val((u64)dToBits(NAN));
          return Val((u64)dToBits(branch(s, mkFCmp(Op::FOlt, x, mkConst(0, 64))) ? -INFINITY : INFINITY)); }
      }
      if (isSpecialConst(x) != isSpecialConst(y) && (op == Instruction::FMul || (op == Instruction::FDiv && isSpecialConst(x)))) {
        E sp = isSpecialConst(x) ? x : y, o = isSpecialConst(x) ? y : x; double d = bitsToD(sp->val);
        if (d != d) return Val((u64)dToBits(NAN));
        if (branch(s, mkFCmp(Op::FOeq, o, mkConst(0, 64)))) return Val((u64)dToBits(op == Instruction::FMul ? NAN : d));
        return Val((u64)dToBits(branch(s, mkFCmp(Op::FOlt, o, mkConst(0, 64))) ? -d : d)); }
    }
    Op o = op == Instruction::FAdd ? Op::FAdd : op == Instruction::FSub ? Op::FSub : op == Instruction::FMul ? Op::FMul : Op::FDiv;
    E r = mkFBin(o, x, y); if (!r) incon(s, "unsupported", "real-mode operation on infinity");
    return fromE(r);
  }
  if (a.conc() && b.conc()) {
    u64 x = a.c, y = b.c, r = 0; i64 sx = sext64(x, w), sy = sext64(y, w);
    switch (op) {
      case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
      case Instruction::UDiv: if (!y) err(s, "div-by-zero", "integer division by zero"); r = x / y; break;
      case Instruction::SDiv: if (!y) err(s, "div-by-zero", "integer division by zero"); r = sy == -1 ? (u64)0 - x : (u64)(sx / sy); break;
      case Instruction::URem: if (!y) err(s, "div-by-zero", "integer remainder by zero"); r = x % y; break;
      case Instruction::SRem: if (!y) err(s, "div-by-zero", "integer remainder by zero"); r = sy == -1 ? 0 : (u64)(sx % sy); break;
      case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
      case Instruction::Shl: r = y >= w ? 0 : x << y; break; case Instruction::LShr: r = y >= w ? 0 : (x & mask64(w)) >> y; break; case Instruction::AShr: r = (u64)(sx >> (y >= w ? w - 1 : y)); break;
      default: incon(s, "unsupported", "binop");
    }
    return Val(r & mask64(w));
  }
  E x = simp(s, toE(a, w)), y = simp(s, toE(b, w)); Op o;
  switch (op) {
    case Instruction::Add: o = Op::Add; break; case Instruction::Sub: o = Op::Sub; break; case Instruction::Mul: o = Op::Mul; break;
    case Instruction::UDiv: o = Op::UDiv; break; case Instruction::SDiv: o = Op::SDiv; break; case Instruction::URem: o = Op::URem; break; case Instruction::SRem: o = Op::SRem; break;
    case Instruction::And: o = Op::And; break; case Instruction::Or: o = Op::Or; break; case Instruction::Xor: o = Op::Xor; break;
    case Instruction::Shl: o = Op::Shl; break; case Instruction::LShr: o = Op::LShr; break; case Instruction::AShr: o = Op::AShr; break; default: incon(s, "unsupported", "binop");
  }
  if (o == Op::UDiv || o == Op::SDiv || o == Op::URem || o == Op::SRem) { if (branch(s, mkEq(y, mkConst(0, w)))) err(s, "div-by-zero", "integer division by zero"); }
  return fromE(mkBin(o, x, y));
}
static Val icmp(State& s, CmpInst::Predicate p, const Val& a, const Val& b, Type* t) {
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { std::vector<Val> r; for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(icmp(s, p, a.agg->v[i], b.agg->v[i], vt->getElementType())); return mkAgg(std::move(r)); }
  unsigned w = tyw(t);
  if (a.conc() && b.conc()) { u64 x = a.c, y = b.c; i64 sx = sext64(x, w), sy = sext64(y, w); bool r = false; switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; default: break; } return Val(r); }
  E x = simp(s, toE(a, w)), y = simp(s, toE(b, w));
  if (x->hasReal && x->w == 64 && x->fp) { incon(s, "unsupported", "bit comparison of real-mode double"); }
  switch (p) {
    case CmpInst::ICMP_EQ: return fromE(mkEq(x, y)); case CmpInst::ICMP_NE: return fromE(mkNot(mkEq(x, y)));
    case CmpInst::ICMP_ULT: return fromE(mkBin(Op::Ult, x, y)); case CmpInst::ICMP_ULE: return fromE(mkBin(Op::Ule, x, y)); case CmpInst::ICMP_UGT: return fromE(mkBin(Op::Ult, y, x)); case CmpInst::ICMP_UGE: return fromE(mkBin(Op::Ule, y, x));
    case CmpInst::ICMP_SLT: return fromE(mkBin(Op::Slt, x, y)); case CmpInst::ICMP_SLE: return fromE(mkBin(Op::Sle, x, y)); case CmpInst::ICMP_SGT: return fromE(mkBin(Op::Slt, y, x)); case CmpInst::ICMP_SGE: return fromE(mkBin(Op::Sle, y, x));
    default: incon(s, "unsupported", "icmp");
  }
}
static Val fcmp(State& s, CmpInst::Predicate p, const Val& a, const Val& b, Type* t) {
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { std::vector<Val> r; for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(fcmp(s, p, a.agg->v[i], b.agg->v[i], vt->getElementType())); return mkAgg(std::move(r)); }
  unsigned w = tyw(t); if (t->isX86_FP80Ty()) incon(s, "unsupported", "long double");
  if (real32(w, a, b)) return fcmp(s, p, up32(s, a), up32(s, b), Type::getDoubleTy(t->getContext()));
  E x = toE(a, w), y = toE(b, w); bool lx = g_realMode && w == 64 && isLazyFloor(x), ly = g_realMode && w == 64 && isLazyFloor(y);
  if (lx != ly && p != CmpInst::FCMP_FALSE && p != CmpInst::FCMP_TRUE && p != CmpInst::FCMP_ORD && p != CmpInst::FCMP_UNO) { // floor(z) against a number: a comparison of z with an integer
    E z = lx ? x->k[0] : y->k[0]; E o = lx ? y : x; Q q; bool num = o->isConst() ? std::isfinite(bitsToD(o->val)) && std::fabs(bitsToD(o->val)) < 1e15 : rvIsConst(o, &q); double c = !num ? 0 : o->isConst() ? bitsToD(o->val) : qToD(q); if (num && !o->isConst() && dToQ(c) != q) num = false;
    if (num) { auto lt = [&](double v) { return mkFCmp(Op::FOlt, z, mkConst(dToBits(v), 64)); }; CmpInst::Predicate pp = lx ? p : CmpInst::getSwappedPredicate(p); E less = lt(std::ceil(c)), atmost = lt(std::floor(c) + 1), equal = std::floor(c) == c ? mkAndB(mkNot(lt(c)), lt(c + 1)) : mkBool(false);
      switch (pp) { case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return fromE(less); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return fromE(atmost); case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return fromE(mkNot(atmost)); case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return fromE(mkNot(less)); case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return fromE(equal); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return fromE(mkNot(equal)); default: break; } }
  }
  x = simp(s, x); y = simp(s, y); auto C = [&](Op o, E q, E r) { return mkFCmp(o, q, r); };
  E un = mkBool(false), r; bool unord = p >= CmpInst::FCMP_UNO && p <= CmpInst::FCMP_TRUE;
  switch (p) {
    case CmpInst::FCMP_FALSE: return Val(0); case CmpInst::FCMP_TRUE: return Val(1);
    case CmpInst::FCMP_ORD: return fromE(mkNot(C(Op::FUno, x, y))); case CmpInst::FCMP_UNO: return fromE(C(Op::FUno, x, y));
    case CmpInst::FCMP_OEQ: return fromE(C(Op::FOeq, x, y)); case CmpInst::FCMP_UNE: return fromE(mkNot(C(Op::FOeq, x, y)));
    case CmpInst::FCMP_OLT: return fromE(C(Op::FOlt, x, y)); case CmpInst::FCMP_OLE: return fromE(C(Op::FOle, x, y)); case CmpInst::FCMP_OGT: return fromE(C(Op::FOlt, y, x)); case CmpInst::FCMP_OGE: return fromE(C(Op::FOle, y, x));
    case CmpInst::FCMP_ULT: return fromE(mkNot(C(Op::FOle, y, x))); case CmpInst::FCMP_ULE: return fromE(mkNot(C(Op::FOlt, y, x))); case CmpInst::FCMP_UGT: return fromE(mkNot(C(Op::FOle, x, y))); case CmpInst::FCMP_UGE: return fromE(mkNot(C(Op::FOlt, x, y)));
    case CmpInst::FCMP_ONE: return fromE(mkOrB(C(Op::FOlt, x, y), C(Op::FOlt, y, x)));
    case CmpInst::FCMP_UEQ: return fromE(mkOrB(C(Op::FUno, x, y), C(Op::FOeq, x, y)));
    default: break;
  }
  (void)un; (void)r; (void)unord; incon(s, "unsupported", "fcmp");
}
static Val fptoi(State& s, const Val& a, unsigned sw, unsigned w, bool sgn) {
  if (real32(sw, a, a)) return fptoi(s, up32(s, a), 64, w, sgn);
  E x = simp(s, toE(a, sw)); E r; Q cq;
  if (g_realMode && sw == 64 && !x->isConst() && !rvIsConst(x, &cq)) return Val((u64)realRound(s, x, RM_TRUNC) & mask64(w));
  auto si = [&](E q, unsigned ww) { E z = mkFpToSI(q, ww); if (!z) incon(s, "unsupported", "real to integer conversion"); return z; };
  if (sgn) { r = w <= 32 ? si(x, 32) : si(x, 64); }
  else if (w <= 31) r = si(x, 32);
  else if (w == 32) r = si(x, 64);
  else { // uint64 conversion as emitted for x86-64
    E two63 = sw == 64 ? mkConst(dToBits(9223372036854775808.0), 64) : mkConst(fToBits(9223372036854775808.0f), 32);
    E lt = mkNot(mkFCmp(Op::FOle, two63, x));
    if (lt->isTrue()) r = si(x, 64);
    else r = mkIte(lt, si(x, 64), mkBin(Op::Xor, si(mkFBin(Op::FSub, x, two63), 64), mkConst((u128)1 << 63, 64))); }
  if (r->w > w) r = mkExtract(r, 0, w);
  return fromE(r);
}
static Val castop(State& s, unsigned op, const Val& a, Type* st, Type* dt) {
  auto *sv = dyn_cast<FixedVectorType>(st), *dv = dyn_cast<FixedVectorType>(dt);
  if (op == Instruction::BitCast) {
    if (!sv && !dv) return a;
    // flatten to bits
    E all = nullptr; 
    if (sv && dv && sv->getNumElements() == dv->getNumElements()) return a;
    if (sv) { unsigned ew = tyw(sv->getElementType()); for (unsigned i = 0; i < sv->getNumElements(); i++) { E x = toE(a.agg->v[i], ew); all = all ? mkConcat(x, all) : x; } } else all = toE(a, tyw(st));
    if (!dv) return fromE(all);
    unsigned ew = tyw(dv->getElementType()); std::vector<Val> r; for (unsigned i = 0; i < dv->getNumElements(); i++) r.push_back(fromE(mkExtract(all, i * ew, ew))); return mkAgg(std::move(r)); }
  if (sv) { std::vector<Val> r; for (unsigned i = 0; i < sv->getNumElements(); i++) r.push_back(castop(s, op, a.agg->v[i], sv->getElementType(), dv->getElementType())); return mkAgg(std::move(r)); }
  unsigned sw = tyw(st), dw = tyw(dt);
  if (st->isX86_FP80Ty() || dt->isX86_FP80Ty()) incon(s, "unsupported", "long double");
  switch (op) {
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (dw == sw) return a; if (dw < sw) goto trunc; goto zext;
    case Instruction::Trunc: trunc: if (a.conc()) return Val(a.c & mask64(dw)); return fromE(mkExtract(simp(s, a.e), 0, dw));
    case Instruction::ZExt: zext: if (a.conc() && dw <= 64) return a; return fromE(mkZExt(simp(s, toE(a, sw)), dw));
    case Instruction::SExt: if (a.conc() && dw <= 64) return Val((u64)sext64(a.c, sw) & mask64(dw)); return fromE(mkSExt(simp(s, toE(a, sw)), dw));
    case Instruction::FPToSI: return fptoi(s, a, sw, dw, true); case Instruction::FPToUI: return fptoi(s, a, sw, dw, false);
    case Instruction::SIToFP: case Instruction::UIToFP: { E x = simp(s, toE(a, sw)); if (g_realMode && !x->isConst()) { x = mkConst(concretize(s, x), sw); } return fromE(mkIntToFP(x, dw, op == Instruction::SIToFP)); }
    case Instruction::FPExt: case Instruction::FPTrunc: { E r = mkFpCast(simp(s, toE(a, sw)), dw); if (!r) incon(s, "unsupported", "float cast in real mode"); return fromE(r); }
    default: incon(s, "unsupported", "cast");
  }
}
static Val selectv(State& s, const Val& c, const Val& a, const Val& b, Type* t) {
  if (c.agg) { std::vector<Val> r; auto* vt = cast<FixedVectorType>(t); for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(selectv(s, c.agg->v[i], a.agg->v[i], b.agg->v[i], vt->getElementType())); return mkAgg(std::move(r)); }
  if (c.conc()) return c.c ? a : b;
  E ce = simp(s, c.e); if (ce->isConst()) return ce->val ? a : b;
  if (a.agg) { std::vector<Val> r; for (size_t i = 0; i < a.agg->v.size(); i++) { Type* et = isa<StructType>(t) ? cast<StructType>(t)->getElementType(i) : isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<VectorType>(t)->getElementType(); r.push_back(selectv(s, c, a.agg->v[i], b.agg->v[i], et)); } return mkAgg(std::move(r)); }
  unsigned w = tyw(t);
  if (t->isPointerTy() || (t->isFloatingPointTy() && g_realMode && ((!a.e && !a.agg && !std::isfinite(tyw(t) == 64 ? bitsToD(a.c) : bitsToF(a.c))) || (!b.e && !b.agg && !std::isfinite(tyw(t) == 64 ? bitsToD(b.c) : bitsToF(b.c)))))) { return branch(s, ce) ? a : b; }
  E x = toE(a, w), y = toE(b, w); if (g_realMode && w == 64) { if (isLazyFloor(x)) x = simp(s, x); if (isLazyFloor(y)) y = simp(s, y); }
  if (t->isFloatingPointTy() && x->isConst() && y->isConst() && x != y) { // keep fp marker: build through an fp-typed ite
    E r = mkIte(ce, x, y); markFP(r); return fromE(r); }
  return fromE(mkIte(ce, x, y));
}
#include "calls.inc"
