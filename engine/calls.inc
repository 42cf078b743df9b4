// ------------------------------------------------------------------ helpers
static u64 rdPtr(State& s, u64 a) { u32 id = checkObj(s, a, 8, false); Val v = loadScalar(s, id, a - baseOf(id), 64, false); return concV(s, v, 64); }
static u32 rd32(State& s, u64 a) { u32 id = checkObj(s, a, 4, false); Val v = loadScalar(s, id, a - baseOf(id), 32, false); return (u32)concV(s, v, 32); }
static const Val& getv(State& s, Frame& f, int o) { return o >= 0 ? f.regs[o] : f.f->consts[-1 - o]; }
static std::string tiKind(State& s, u64 ti) { u64 vp = rdPtr(s, ti); Obj* o = s.m.get(vp >> 32); return o ? o->name : ""; }
static std::string tiName(State& s, u64 ti) { return cstr(s, rdPtr(s, ti + 8)); }
static bool tiEq(State& s, u64 a, u64 b) { return a == b || (a && b && tiName(s, a) == tiName(s, b)); }
struct Sub { u64 addr, ti; bool pub; };
static void subobjects(State& s, u64 obj, u64 ti, bool pub, std::vector<Sub>& out, bool haveObj = true) {
  out.push_back({obj, ti, pub}); std::string k = tiKind(s, ti);
  if (k.find("__si_class_type_info") != std::string::npos) subobjects(s, obj, rdPtr(s, ti + 16), pub, out, haveObj);
  else if (k.find("__vmi_class_type_info") != std::string::npos) { u32 n = rd32(s, ti + 20); for (u32 i = 0; i < n; i++) { u64 b = rdPtr(s, ti + 24 + 16 * i); i64 of = (i64)rdPtr(s, ti + 32 + 16 * i); i64 off = of >> 8; if (of & 1) { if (!haveObj) off = 0; else { u64 vp = rdPtr(s, obj); off = (i64)rdPtr(s, vp + off); } } subobjects(s, obj + off, b, pub && (of & 2), out, haveObj); } }
}
static bool findBase(State& s, u64 obj, u64 ti, u64 target, u64& adj) {
  std::string k = tiKind(s, ti);
  if (tiEq(s, ti, target)) { adj = obj; return true; }
  if (k.find("class_type_info") == std::string::npos) return false;
  std::vector<Sub> v; subobjects(s, obj, ti, true, v); std::set<u64> a; for (auto& x : v) if (tiEq(s, x.ti, target) && x.pub) a.insert(x.addr);
  if (a.size() == 1) { adj = *a.begin(); return true; } return false;
}
static std::map<u64, int> g_typeId; static int typeId(u64 ti) { auto it = g_typeId.find(ti); if (it != g_typeId.end()) return it->second; int n = g_typeId.size() + 1; g_typeId[ti] = n; return n; }
static void jump(State& s, Frame& f, int to) {
  int from = f.blk; f.blk = to; f.pc = f.f->blkStart[to];
  // phis
  std::vector<std::pair<int, Val>> up;
  while (f.f->code[f.pc].op == Instruction::PHI) { auto& k = f.f->code[f.pc]; bool ok = false; for (size_t i = 0; i < k.ops.size(); i += 2) if (k.ops[i + 1] == from) { up.push_back({k.dst, getv(s, f, k.ops[i])}); ok = true; break; } if (!ok) fatal("phi"); f.pc++; }
  for (auto& u : up) f.regs[u.first] = std::move(u.second);
}
static void popFrame(State& s) { Frame& f = s.st.back(); for (u32 a : f.allocas) { Obj* o = s.m.wr(a); o->freed = 1; o->d.clear(); o->st.clear(); o->sy.clear(); } s.st.pop_back(); }
static Exc* excOf(State& s, u64 obj) { for (auto& e : s.excs) if (e.obj == obj) return &e; return nullptr; }
// does landing pad lp (in frame f) handle the exception?  0 none, 1 cleanup only, 2 handler
static int lpMatch(State& s, Frame& f, int blk, Exc& ex, int& sel, u64& adj) {
  int pc = f.f->blkStart[blk]; while (f.f->code[pc].op == Instruction::PHI) pc++;
  auto* lp = cast<LandingPadInst>(f.f->code[pc].I); sel = 0; adj = ex.obj;
  for (unsigned i = 0; i < lp->getNumClauses(); i++) {
    if (lp->isCatch(i)) { Constant* c = lp->getClause(i); u64 t = constVal(c).c; if (t == 0) { sel = typeId(0); return 2; } if (findBase(s, ex.obj, ex.ti, t, adj)) { sel = typeId(t); return 2; }
      // pointer exceptions: thrown pointer types match by exact type only
      adj = ex.obj; }
    else { auto* arr = lp->getClause(i); bool ok = false; unsigned n = cast<ArrayType>(arr->getType())->getNumElements(); for (unsigned j = 0; j < n; j++) { u64 t = constVal(arr->getAggregateElement(j)).c, ad; if (!t || findBase(s, ex.obj, ex.ti, t, ad)) ok = true; } if (!ok) { sel = -1 - (int)i; return 2; } }
  }
  return lp->isCleanup() ? 1 : 0;
}
// unwind the stack with exception ex, starting in the current frame at a call instruction whose KI is k
static void unwind(State& s, Exc ex, bool first) {
  // search phase
  bool handled = false;
  for (size_t i = s.st.size(); i-- > 0;) { Frame& f = s.st[i]; const KI& k = f.f->code[first && i + 1 == s.st.size() ? f.pc : f.pc - 1]; if (k.op == Instruction::Invoke) { int sel; u64 adj; if (lpMatch(s, f, k.t1, ex, sel, adj) == 2) { handled = true; break; } } }
  if (!handled) { std::string n = tiName(s, ex.ti); err(s, "uncaught-exception", "exception of type " + demang("_ZTS" + n) + " escapes"); }
  while (!s.st.empty()) {
    Frame& f = s.st.back(); const KI& k = f.f->code[first ? f.pc : f.pc - 1]; first = false;
    if (k.op == Instruction::Invoke) { int sel; u64 adj; int r = lpMatch(s, f, k.t1, ex, sel, adj); if (r) { s.curExc = ex.obj; s.curSel = sel; Exc* e = excOf(s, ex.obj); if (e) e->adj = adj; f.blk = k.blk; jump(s, f, k.t1); return; } }
    popFrame(s);
  }
  fatal("unwind ran off the stack");
}
static void doThrow(State& s, u64 obj, bool atCall) { Exc* e = excOf(s, obj); if (!e) fatal("throw of unknown exception"); unwind(s, *e, atCall); }

// push a call frame
static void pushCall(State& s, Function* F, const std::vector<Val>& args, int dst, const KI* k) {
  KF* kf = compile(F); kf->execs++;
  if (s.st.size() > 400) err(s, "stack-overflow", "call depth exceeds 400 (unbounded recursion?)");
  g_maxDepth = std::max<u64>(g_maxDepth, s.st.size());
  Frame nf; nf.f = kf; nf.regs.resize(kf->nregs); nf.retDst = dst; nf.call = k;
  size_t n = F->arg_size(); for (size_t i = 0; i < n; i++) { nf.regs[i] = args[i];
    if (F->hasParamAttribute(i, Attribute::ByVal)) { Type* t = F->getParamByValType(i); u64 sz = DL->getTypeAllocSize(t); u32 id = s.m.alloc(sz, O_STACK); u64 src = concPtr(s, args[i]); copyBytes(s, baseOf(id), src, sz); nf.allocas.push_back(id); nf.regs[i] = Val(baseOf(id)); } }
  for (size_t i = n; i < args.size(); i++) nf.varargs.push_back(args[i]);
  s.st.push_back(std::move(nf));
}
static u64 heapAlloc(State& s, u64 n, int akind, bool zero = false) { if (n > (64u << 20)) incon(s, "bound", "allocation larger than 64 MB"); u32 id = s.m.alloc(n, O_HEAP); Obj* o = s.m.get(id); o->akind = akind; if (zero) std::fill(o->st.begin(), o->st.end(), 0); s.liveHeap++; return baseOf(id); }
static void heapFree(State& s, const Val& p, int akind) {
  if (p.e) { E x = simp(s, p.e); if (!x->isConst()) { bool und = false; if (x->syms) for (u32 q : *x->syms) if (!(q & 0x80000000u) && g_syms[q].undef) und = true; if (und) err(s, "invalid-free", "free of an uninitialised pointer"); } }
  u64 a = concPtr(s, p); if (!a) return; u32 id = a >> 32; Obj* o = s.m.get(id);
  if (!o || o->kind != O_HEAP || a != baseOf(id)) err(s, "invalid-free", "free of a pointer that was not allocated on the heap: " + hex(a));
  if (o->freed) err(s, "double-free", "heap object freed twice");
  if (o->akind != akind) err(s, "alloc-dealloc-mismatch", "allocated with kind " + std::to_string(o->akind) + " but released with kind " + std::to_string(akind));
  o = s.m.wr(id); o->freed = 1; o->d.clear(); o->st.clear(); o->sy.clear(); s.liveHeap--;
}
static E inputSym(State& s, const std::string& name, unsigned w, bool ranged, i128 lo, i128 hi, bool fp) {
  static std::unordered_map<std::string, E> memo; std::string key = name + "#" + std::to_string(s.occ[name]++) + ":" + std::to_string(w) + ":" + std::to_string((long long)lo) + ":" + std::to_string((long long)hi) + (fp ? "f" : "");
  E& e = memo[key]; if (!e) e = ranged ? mkSymRange(key, w, lo, hi) : mkSym(key, w, fp); return e;
}
static void recordInput(State& s, const std::string& n, const Val& v, unsigned w, char kind) { Input i; i.name = n; i.e = v.e; i.c = v.c; i.w = w; i.kind = kind; s.inputs.push_back(i); }
static unsigned bitsOf(i128 lo, i128 hi) { unsigned n = 2; while (n < 64 && !(lo >= -((i128)1 << (n - 1)) && hi <= ((i128)1 << (n - 1)) - 1)) n++; return n; }

static void doAssert(State& s, E c, const std::string& label) {
  g_asserts++; c = simp(s, c);
  if (c->isTrue()) return;
  ModelP bad; Res r;
  bool v; if (c->isFalse()) { r = SAT; bad = s.model; }
  else if (modelBool(s, c, v) && !v) { r = SAT; bad = s.model; }
  else { g_assertQueries++; r = S->check(s.pc, mkNot(c), s.model, &bad); }
  if (r == UNKNOWN) { report(s, "solver-unknown", "", "assertion '" + label + "' undecided", nullptr, true); return; }
  if (r == SAT) {
    report(s, "assert", label, "assertion '" + label + "' fails", bad);
    ModelP good; Res r2 = c->isFalse() ? UNSAT : S->check(s.pc, c, s.model, &good);
    if (r2 != SAT) { g_errPaths++; throw PathErr(); }
    s.model = good; addPC(s, c);
  }
}
static Val fpUn(State& s, Op o, const Val& a, unsigned w, unsigned aux = 0) {
  if (a.agg) { std::vector<Val> r; for (auto& x : a.agg->v) r.push_back(fpUn(s, o, x, w, aux)); return mkAgg(std::move(r)); }
  if (real32(w, a, a)) return dn32(s, fpUn(s, o, up32(s, a), 64, aux));
  E x = simp(s, toE(a, w)); Q cq;
  if (g_realMode && w == 64 && o == Op::FRound && !x->isConst() && !rvIsConst(x, &cq)) if (aux == RM_FLOOR) return fromE(lazyFloor(x)); else return Val((u64)dToBits((double)realRound(s, x, aux)));
  if (g_realMode && w == 64 && o == Op::FSqrt && !x->isConst()) { if (branch(s, mkFCmp(Op::FOlt, x, mkConst(0, 64)))) return Val((u64)dToBits(NAN)); }
  E r = mkFUn(o, x, aux); if (!r) incon(s, "unsupported", "fp unary"); return fromE(r);
}
static Val fpMinMax(State& s, bool mx, const Val& a, const Val& b, unsigned w) {
  if (a.agg) { std::vector<Val> r; for (size_t i = 0; i < a.agg->v.size(); i++) r.push_back(fpMinMax(s, mx, a.agg->v[i], b.agg->v[i], w)); return mkAgg(std::move(r)); }
  if (real32(w, a, b)) return dn32(s, fpMinMax(s, mx, up32(s, a), up32(s, b), 64));
  E x = simp(s, toE(a, w)), y = simp(s, toE(b, w));
  E r = mkIte(mx ? mkFCmp(Op::FOlt, x, y) : mkFCmp(Op::FOlt, y, x), y, x);
  r = mkIte(mkFCmp(Op::FUno, x, x), y, r); return fromE(r);
}
static const char* mathFns[] = {"sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log10", "log2", "exp2", "pow", "atan2", "hypot", "fmod", "cbrt", "log1p", "expm1", "erf", "tanh", "sinh", "cosh", "remainder", nullptr};
static Val mathCall(State& s, const std::string& f, const std::vector<Val>& a, unsigned w) {
  if (g_realMode && w == 32) { bool cc = true; for (auto& v : a) cc = cc && v.conc(); if (!cc) { std::vector<Val> u; for (auto& v : a) u.push_back(up32(s, v)); return dn32(s, mathCall(s, f, u, 64)); } }
  std::vector<E> x; for (auto& v : a) { x.push_back(simp(s, toE(v, w))); }
  if (g_realMode && w == 64) {
    for (E e : x) if (isSpecialConst(e)) { bool allc = true; for (E q : x) if (!q->isConst()) allc = false; double d = bitsToD(e->val); if (!allc) { if (d != d) return Val((u64)dToBits(NAN)); incon(s, "unsupported", "libm of infinity with symbolic operand"); } }
    if (f == "log" && !x[0]->isConst()) { if (branch(s, mkFCmp(Op::FOle, x[0], mkConst(0, 64)))) { if (branch(s, mkFCmp(Op::FOeq, x[0], mkConst(0, 64)))) return Val((u64)dToBits(-INFINITY)); return Val((u64)dToBits(NAN)); } }
    if (f == "pow" && !x[0]->isConst()) { Q q; if (rvIsConst(x[1], &q) && boost::multiprecision::denominator(q) == 1 && q >= 0 && q <= 8) { E r = mkConst(dToBits(1.0), 64); for (int i = 0; i < (int)q; i++) r = mkFBin(Op::FMul, r, x[0]); return fromE(r); } }
  }
  if (f == "pow" && x[1]->isConst() && (w == 64 ? bitsToD(x[1]->val) : bitsToF(x[1]->val)) == 2.0) return fromE(mkFBin(Op::FMul, x[0], x[0])); // pow(x,2) is correctly rounded x*x in glibc (<1ulp, exact cases exact)
  return fromE(mkApp(f, x, w));
}
static Val overflowOp(State& s, Intrinsic::ID id, const Val& a, const Val& b, unsigned w) {
  unsigned W = w <= 64 ? 2 * w : 128; if (w > 64) incon(s, "unsupported", "wide overflow op");
  bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
  E x = simp(s, toE(a, w)), y = simp(s, toE(b, w)); E X = sg ? mkSExt(x, W) : mkZExt(x, W), Y = sg ? mkSExt(y, W) : mkZExt(y, W);
  Op o = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? Op::Add : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? Op::Sub : Op::Mul;
  E R = mkBin(o, X, Y), r = mkExtract(R, 0, w); E ov = mkNot(mkEq(R, sg ? mkSExt(r, W) : mkZExt(r, W)));
  return mkAgg({fromE(r), fromE(ov)});
}

static void libcCall(State& s, const std::string& n, const std::vector<Val>& a, Type* rt, bool& handled, Val& res);

// executes a call; returns true when control moved elsewhere (frame pushed / unwound)
static bool intrinsic(State& s, Frame& f, const KI& k, Intrinsic::ID id, const std::vector<Val>& a, Val& r) {
  auto* CB = cast<CallBase>(k.I); Type* t = CB->getType(); unsigned w = tyw(t->getScalarType());
  auto map2 = [&](auto fn) { if (a[0].agg) { std::vector<Val> v; for (size_t i = 0; i < a[0].agg->v.size(); i++) v.push_back(fn(a[0].agg->v[i], a[1].agg->v[i])); return mkAgg(std::move(v)); } return fn(a[0], a[1]); };
  switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::var_annotation: return true;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: r = Val(0); return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: r = a[0]; return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = concV(s, a[2], 64); u64 d = concPtr(s, a[0]), sr = concPtr(s, a[1]); copyBytes(s, d, sr, n); return true; }
    case Intrinsic::memset: { u64 n = concV(s, a[2], 64); u64 d = concPtr(s, a[0]); if (n) { u32 o = checkObj(s, d, n, true); Obj* w2 = s.m.wr(o); u64 off = d - baseOf(o); if (a[1].conc()) { memset(&w2->d[off], (int)a[1].c, n); memset(&w2->st[off], 0, n); } else { ensureSy(w2); for (u64 i = 0; i < n; i++) { w2->st[off + i] = 2; w2->sy[off + i] = {a[1].e, 0}; } } } return true; }
    case Intrinsic::fabs: r = fpUn(s, Op::FAbs, a[0], w); return true; case Intrinsic::sqrt: r = fpUn(s, Op::FSqrt, a[0], w); return true;
    case Intrinsic::floor: r = fpUn(s, Op::FRound, a[0], w, RM_FLOOR); return true; case Intrinsic::ceil: r = fpUn(s, Op::FRound, a[0], w, RM_CEIL); return true; case Intrinsic::trunc: r = fpUn(s, Op::FRound, a[0], w, RM_TRUNC); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: r = fpUn(s, Op::FRound, a[0], w, RM_RINT); return true; case Intrinsic::round: r = fpUn(s, Op::FRound, a[0], w, RM_ROUND); return true;
    case Intrinsic::minnum: r = fpMinMax(s, false, a[0], a[1], w); return true; case Intrinsic::maxnum: r = fpMinMax(s, true, a[0], a[1], w); return true;
    case Intrinsic::fma: r = fromE(mkFFma(toE(a[0], w), toE(a[1], w), toE(a[2], w))); return true;
    case Intrinsic::fmuladd: { Val m = binop(s, Instruction::FMul, a[0], a[1], t); r = binop(s, Instruction::FAdd, m, a[2], t); return true; }
    case Intrinsic::copysign: { E x = simp(s, toE(a[0], w)), y = simp(s, toE(a[1], w)); E ab = mkFUn(Op::FAbs, x); E neg; if (g_realMode && w == 64) neg = mkFCmp(Op::FOlt, y, mkConst(0, 64)); else neg = mkExtract(y, w - 1, 1); r = fromE(mkIte(neg, mkFUn(Op::FNeg, ab), ab)); return true; }
    case Intrinsic::pow: r = mathCall(s, "pow", a, w); return true; case Intrinsic::exp: r = mathCall(s, "exp", a, w); return true; case Intrinsic::exp2: r = mathCall(s, "exp2", a, w); return true; case Intrinsic::log: r = mathCall(s, "log", a, w); return true; case Intrinsic::log10: r = mathCall(s, "log10", a, w); return true; case Intrinsic::log2: r = mathCall(s, "log2", a, w); return true;
    case Intrinsic::sin: r = mathCall(s, "sin", a, w); return true; case Intrinsic::cos: r = mathCall(s, "cos", a, w); return true;
    case Intrinsic::powi: { unsigned nw = 32; i64 n = sext64(concV(s, a[1], nw), 32); if (n < 0 || n > 16) incon(s, "unsupported", "powi"); Val x = Val((u64)(w == 64 ? dToBits(1.0) : fToBits(1.0f))); for (i64 i = 0; i < n; i++) x = binop(s, Instruction::FMul, x, a[0], t); r = x; return true; }
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: r = map2([&](const Val& x, const Val& y) { CmpInst::Predicate p = id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT; Val c = icmp(s, p, x, y, t->getScalarType()); return selectv(s, c, x, y, t->getScalarType()); }); return true;
    case Intrinsic::abs: { E x = simp(s, toE(a[0], w)); r = fromE(mkIte(mkBin(Op::Slt, x, mkConst(0, w)), mkBin(Op::Sub, mkConst(0, w), x), x)); if (r.e && r.e->op == Op::Ite && x->w <= 64 && x->lo > -((i128)1 << (w - 1)) && r.e->lo < 0) { auto* q = const_cast<Expr*>(r.e); i128 h = std::max(x->hi, -x->lo); q->lo = 0; q->hi = h; } return true; }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: case Intrinsic::bitreverse: { 
      if (id == Intrinsic::bswap) { E x = toE(a[0], w); E q = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(x, i * 8, 8); q = q ? mkConcat(q, b) : b; } r = fromE(q); return true; }
      u64 x = concV(s, a[0], w) & mask64(w); if (id == Intrinsic::ctpop) r = Val(__builtin_popcountll(x)); else if (id == Intrinsic::ctlz) r = Val(x ? __builtin_clzll(x) - (64 - w) : w); else if (id == Intrinsic::cttz) r = Val(x ? __builtin_ctzll(x) : w); else incon(s, "unsupported", "bitreverse"); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: { u64 n = concV(s, a[2], w) % w; E hi = toE(a[0], w), lo = toE(a[1], w); if (w > 64) incon(s, "unsupported", "wide fsh"); E cat = mkConcat(hi, lo); r = fromE(id == Intrinsic::fshl ? mkExtract(cat, w - n, w) : mkExtract(cat, n, w)); return true; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: r = overflowOp(s, id, a[0], a[1], tyw(cast<StructType>(t)->getElementType(0))); return true;
    case Intrinsic::usub_sat: r = map2([&](const Val& x, const Val& y) { Val c = icmp(s, CmpInst::ICMP_UGT, x, y, t->getScalarType()); return selectv(s, c, binop(s, Instruction::Sub, x, y, t->getScalarType()), Val(0), t->getScalarType()); }); return true;
    case Intrinsic::uadd_sat: r = map2([&](const Val& x, const Val& y) { Val z = binop(s, Instruction::Add, x, y, t->getScalarType()); Val c = icmp(s, CmpInst::ICMP_ULT, z, x, t->getScalarType()); return selectv(s, c, Val(mask64(w)), z, t->getScalarType()); }); return true;
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: err(s, "trap", "compiler-inserted trap reached (undefined behaviour)");
    case Intrinsic::eh_typeid_for: r = Val((u64)(u32)typeId(a[0].c)); return true;
    case Intrinsic::objectsize: r = Val(mask64(w)); return true; case Intrinsic::is_constant: r = Val(0); return true;
    case Intrinsic::is_fpclass: { unsigned sw = tyw(CB->getArgOperand(0)->getType()); E x = simp(s, toE(a[0], sw)); unsigned m = (unsigned)a[1].c; auto C = [&](double d) { return sw == 64 ? mkConst(dToBits(d), 64) : mkConst(fToBits((float)d), 32); };
      E inf = C(INFINITY), ninf = C(-INFINITY), z = C(0), mn = C(sw == 64 ? 2.2250738585072014e-308 : 1.17549435e-38); E ab = mkFUn(Op::FAbs, x); E res = mkBool(false); auto add = [&](bool on, E c) { if (on) res = mkOrB(res, c); };
      if ((m & 3) == 3) add(true, mkFCmp(Op::FUno, x, x)); else if (m & 3) incon(s, "unsupported", "sNaN test");
      add(m & 4, mkFCmp(Op::FOeq, x, ninf)); add(m & 0x200, mkFCmp(Op::FOeq, x, inf));
      E normal = mkAndB(mkFCmp(Op::FOle, mn, ab), mkFCmp(Op::FOlt, ab, inf)), sub = mkAndB(mkFCmp(Op::FOlt, z, ab), mkFCmp(Op::FOlt, ab, mn)), neg = mkFCmp(Op::FOlt, x, z), pos = mkFCmp(Op::FOlt, z, x), zero = mkFCmp(Op::FOeq, x, z);
      if ((m & 0x1f8) == 0x1f8) add(true, mkFCmp(Op::FOlt, ab, inf)); else { add(m & 8, mkAndB(normal, neg)); add(m & 0x100, mkAndB(normal, pos)); add(m & 0x10, mkAndB(sub, neg)); add(m & 0x80, mkAndB(sub, pos)); if ((m & 0x60) == 0x60) add(true, zero); else if (m & 0x60) { E sb = mkExtract(x, sw - 1, 1); add(m & 0x20, mkAndB(zero, sb)); add(m & 0x40, mkAndB(zero, mkNot(sb))); } }
      r = fromE(res); return true; }
    case Intrinsic::vector_reduce_fadd: { Val x = a[0]; for (auto& e : a[1].agg->v) x = binop(s, Instruction::FAdd, x, e, t); r = x; return true; }
    case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: return true;
    default: break;
  }
  incon(s, "unsupported", "intrinsic " + CB->getCalledFunction()->getName().str());
}

static bool builtin(State& s, Frame& f, const KI& k, const std::string& n, const std::vector<Val>& a, Val& r, bool& moved) {
  Type* t = k.I->getType(); moved = false;
  auto is = [&](const char* x) { return n == x; };
  if (n.compare(0, 3, "sx_") == 0) {
    if (is("sx_range")) { std::string nm = cstr(s, a[0].c); i64 lo = (i64)concV(s, a[1], 64), hi = (i64)concV(s, a[2], 64); if (lo > hi) throw PathKill(); E e = mkSExt(lo == hi ? mkConst((u128)(i128)lo, bitsOf(lo, hi)) : inputSym(s, nm, bitsOf(lo, hi), true, lo, hi, false), 64); r = fromE(e); recordInput(s, nm, r, 64, 'i'); return true; }
    if (is("sx_bits")) { std::string nm = cstr(s, a[0].c); unsigned w = (unsigned)concV(s, a[1], 32); E e = mkZExt(inputSym(s, nm, w, false, 0, 0, false), 64); r = fromE(e); recordInput(s, nm, r, 64, 'i'); return true; }
    if (is("sx_double")) { std::string nm = cstr(s, a[0].c); E e = inputSym(s, nm, 64, false, 0, 0, true); r = fromE(e); recordInput(s, nm, r, 64, g_realMode ? 'r' : 'd'); return true; }
    if (is("sx_float")) { std::string nm = cstr(s, a[0].c); if (g_realMode) { E e = inputSym(s, nm, 64, false, 0, 0, true); r = dn32(s, fromE(e)); recordInput(s, nm, fromE(e), 64, 'R'); return true; } E e = inputSym(s, nm, 32, false, 0, 0, true); r = fromE(e); recordInput(s, nm, r, 32, 'f'); return true; }
    if (is("sx_dyadic")) { std::string nm = cstr(s, a[0].c); i64 lo = (i64)concV(s, a[1], 64), hi = (i64)concV(s, a[2], 64); int ex = (int)concV(s, a[3], 32);
      if (g_realMode) { E e = inputSym(s, nm, 64, false, 0, 0, true); r = fromE(e); recordInput(s, nm, r, 64, 'r'); E c = mkAndB(mkFCmp(Op::FOle, mkConst(dToBits(std::ldexp((double)lo, ex)), 64), e), mkFCmp(Op::FOle, e, mkConst(dToBits(std::ldexp((double)hi, ex)), 64))); bool v; if (modelBool(s, c, v) && v) { addPC(s, c); return true; } ModelP m; if (S->check(s.pc, c, s.model, &m) != SAT) incon(s, "solver-unknown", "range"); s.model = m; addPC(s, c); return true; }
      E m = lo == hi ? mkConst((u128)(i128)lo, 64) : mkSExt(inputSym(s, nm, bitsOf(lo, hi), true, lo, hi, false), 64); E fl = mkIntToFP(m, 64, true); if (ex) fl = mkFBin(Op::FMul, fl, mkConst(dToBits(std::ldexp(1.0, ex)), 64)); r = fromE(fl); recordInput(s, nm, r, 64, 'd'); return true; }
    if (is("sx_concretize")) { r = Val(concV(s, a[0], 64)); return true; }
    if (is("sx_concretize_d")) { if (g_realMode) { r = a[0]; return true; } r = Val(concV(s, a[0], 64)); return true; }
    if (is("sx_assume")) { E c = simp(s, toE(a[0], tyw(cast<CallBase>(k.I)->getArgOperand(0)->getType()))); c = mkNot(mkEq(c, mkConst(0, c->w))); if (c->isTrue()) return true; if (c->isFalse()) throw PathKill(); bool v; if (modelBool(s, c, v) && v) { addPC(s, c); return true; } ModelP m; Res q = S->check(s.pc, c, s.model, &m); if (q == UNSAT) throw PathKill(); if (q == UNKNOWN) incon(s, "solver-unknown", "assumption undecided"); s.model = m; addPC(s, c); return true; }
    if (is("sx_assert")) { E c = simp(s, toE(a[0], tyw(cast<CallBase>(k.I)->getArgOperand(0)->getType()))); doAssert(s, mkNot(mkEq(c, mkConst(0, c->w))), cstr(s, a[1].c)); return true; }
    if (is("sx_near")) { // boolean: |x-y| <= tol*(1+|y|), exact identity short-cut
      E x = simp(s, toE(a[0], 64)), y = simp(s, toE(a[1], 64)); 
      if (x == y && !x->isConst()) { if (g_realMode) { r = Val(1); return true; } r = fromE(mkZExt(mkNot(mkFCmp(Op::FUno, x, x)), 32)); return true; }
      if (g_realMode) {
        bool sx = isSpecialConst(x), sy = isSpecialConst(y); if (sx || sy) { double p = sx ? bitsToD(x->val) : 0, q = sy ? bitsToD(y->val) : 0; r = Val(sx && sy && (p == q || (p != p && q != q))); return true; }
        E d = mkFBin(Op::FSub, x, y); Q q; if (rvIsConst(d, &q)) { double tol = bitsToD(a[2].c); if (q == 0 || (q < dToQ(tol) && q > -dToQ(tol))) { r = Val(1); return true; } }
        E bound = mkFBin(Op::FMul, toE(a[2], 64), mkFBin(Op::FAdd, mkConst(dToBits(1.0), 64), mkFUn(Op::FAbs, y)));
        r = fromE(mkZExt(mkAndB(mkFCmp(Op::FOle, d, bound), mkFCmp(Op::FOle, mkFUn(Op::FNeg, bound), d)), 32)); return true; }
      E same = mkFCmp(Op::FOeq, x, y); if (same->isTrue()) { r = Val(1); return true; }
      E d = mkFUn(Op::FAbs, mkFBin(Op::FSub, x, y)); E bound = mkFBin(Op::FMul, toE(a[2], 64), mkFBin(Op::FAdd, mkConst(dToBits(1.0), 64), mkFUn(Op::FAbs, y)));
      // exact (dyadic) equality decides quickly when both views are exact
      if (x->dy && (y->dy || y->isConst()) && x->dy->kind == Dy::Exact) { r = fromE(mkZExt(same, 32)); return true; }
      r = fromE(mkZExt(mkOrB(same, mkFCmp(Op::FOle, d, bound)), 32)); return true; }
    if (is("sx_observe_i")) { s.obs.push_back({cstr(s, a[0].c), a[1].e, a[1].c, 'i'}); return true; }
    if (is("sx_observe_d")) { s.obs.push_back({cstr(s, a[0].c), a[1].e, a[1].c, g_realMode ? 'r' : 'd'}); return true; }
    if (is("sx_reach")) { s.reach.push_back(cstr(s, a[0].c)); return true; }
    if (is("sx_symbolic")) { r = Val(1); return true; }
    if (is("sx_live_heap")) { r = Val(s.liveHeap); return true; }
    if (is("sx_kill")) throw PathKill();
    if (is("sx_is_freed")) { u64 p = concPtr(s, a[0]); Obj* o = s.m.get(p >> 32); r = Val(o ? o->freed : 1); return true; }
    if (is("sx_print")) { fprintf(stderr, "[sx] %s", cstr(s, a[0].c).c_str()); for (size_t i = 1; i < a.size(); i++) fprintf(stderr, " %s", a[i].e ? (toStr(a[i].e, 8) + "=" + (a[i].e->hasReal ? std::string("?") : hex((u64)s.model->eval(a[i].e)))).c_str() : hex(a[i].c).c_str()); fprintf(stderr, "\n"); return true; }
    incon(s, "unsupported", "intrinsic " + n);
  }
  if (is("malloc") || is("_Znwm") || is("_Znam") || is("_ZnwmRKSt9nothrow_t") || is("_ZnamRKSt9nothrow_t") || is("_ZnwmSt11align_val_t") || is("_ZnamSt11align_val_t")) { u64 sz = concV(s, a[0], 64); r = Val(heapAlloc(s, sz, is("malloc") ? 0 : n.compare(0, 4, "_Znw") == 0 ? 1 : 2)); return true; }
  if (is("calloc")) { u64 x = concV(s, a[0], 64), y = concV(s, a[1], 64); r = Val(heapAlloc(s, x * y, 0, true)); return true; }
  if (is("aligned_alloc")) { u64 y = concV(s, a[1], 64); r = Val(heapAlloc(s, y, 0)); return true; }
  if (is("posix_memalign")) { u64 y = concV(s, a[2], 64); u64 d = concPtr(s, a[0]); u64 p = heapAlloc(s, y, 0); u32 id = checkObj(s, d, 8, true); storeScalar(s, id, d - baseOf(id), Val(p), 64); r = Val(0); return true; }
  if (is("realloc")) { u64 p = concPtr(s, a[0]), sz = concV(s, a[1], 64); u64 q = heapAlloc(s, sz, 0); if (p) { Obj* o = s.m.get(p >> 32); if (!o || o->freed) err(s, "use-after-free", "realloc of invalid pointer"); copyBytes(s, q, p, std::min(sz, o->size)); heapFree(s, Val(p), 0); } r = Val(q); return true; }
  if (is("free")) { heapFree(s, a[0], 0); return true; }
  if (is("_ZdlPv") || is("_ZdlPvm") || is("_ZdlPvSt11align_val_t") || is("_ZdlPvmSt11align_val_t") || is("_ZdlPvRKSt9nothrow_t")) { heapFree(s, a[0], 1); return true; }
  if (is("_ZdaPv") || is("_ZdaPvm") || is("_ZdaPvSt11align_val_t") || is("_ZdaPvRKSt9nothrow_t")) { heapFree(s, a[0], 2); return true; }
  if (is("__cxa_allocate_exception")) { u64 sz = concV(s, a[0], 64); u32 id = s.m.alloc(sz, O_HEAP); s.m.get(id)->akind = 9; r = Val(baseOf(id)); return true; }
  if (is("__cxa_free_exception")) return true;
  if (is("__cxa_throw")) { Exc e; e.obj = a[0].c; e.ti = a[1].c; e.dtor = a[2].c; e.adj = e.obj; s.excs.push_back(e); doThrow(s, e.obj, true); moved = true; return true; }
  if (is("__cxa_rethrow")) { if (s.caught.empty()) err(s, "terminate", "rethrow without active exception"); u64 o = s.caught.back(); Exc* e = excOf(s, o); if (e->handlers > 0) e->handlers = -e->handlers; doThrow(s, o, true); moved = true; return true; }
  if (is("__cxa_begin_catch")) { Exc* e = excOf(s, a[0].c); if (!e) fatal("begin_catch"); if (e->handlers < 0) e->handlers = -e->handlers; e->handlers++; s.caught.push_back(e->obj); r = Val(e->adj);
    std::string kd = tiKind(s, e->ti); if (kd.find("__pointer_type_info") != std::string::npos) r = Val(rdPtr(s, e->obj)); return true; }
  if (is("__cxa_get_exception_ptr")) { Exc* e = excOf(s, a[0].c); r = Val(e ? e->adj : a[0].c); return true; }
  if (is("__cxa_end_catch")) { if (s.caught.empty()) return true; u64 o = s.caught.back(); s.caught.pop_back(); Exc* e = excOf(s, o); if (e->handlers < 0) { e->handlers++; return true; } if (--e->handlers == 0) { u64 d = e->dtor; for (size_t i = 0; i < s.excs.size(); i++) if (s.excs[i].obj == o) { s.excs.erase(s.excs.begin() + i); break; } if (d) { Function* F = g_fnById[d >> 32]; if (F && !F->isDeclaration()) { if (k.op == Instruction::Invoke) { f.pc++; } else f.pc++; pushCall(s, F, {Val(o)}, -1, &k); moved = true; } } } return true; }
  if (is("_ZSt18uncaught_exceptionv")) { r = Val(0); return true; }
  if (is("_ZSt19uncaught_exceptionsv")) { r = Val(0); return true; }
  if (is("_ZSt9terminatev") || is("__clang_call_terminate") || is("abort") || is("__cxa_call_unexpected")) err(s, "terminate", n + " called");
  if (is("__cxa_pure_virtual")) err(s, "pure-virtual", "pure virtual function called");
  if (is("__assert_fail")) err(s, "assert-fail", "assert(" + cstr(s, a[0].c).substr(0, 160) + ") fails");
  if (is("exit") || is("_exit")) err(s, "exit", "exit called");
  if (is("__dynamic_cast")) {
    u64 src = concPtr(s, a[0]); if (!src) { r = Val(0); return true; } u64 vp = rdPtr(s, src); i64 ott = (i64)rdPtr(s, vp - 16); u64 ti = rdPtr(s, vp - 8); std::vector<Sub> v; subobjects(s, src + ott, ti, true, v); std::set<u64> m; for (auto& x : v) if (tiEq(s, x.ti, a[2].c)) m.insert(x.addr); r = Val(m.size() == 1 ? *m.begin() : 0); return true; }
  if (is("__cxa_bad_typeid")) err(s, "bad-cast", n);
  if (is("__cxa_atexit") || is("__cxa_thread_atexit")) { r = Val(0); return true; }
  if (is("__cxa_guard_acquire")) { u64 g = concPtr(s, a[0]); u32 id = checkObj(s, g, 1, true); Val v = loadScalar(s, id, g - baseOf(id), 8, false); r = Val(v.c ? 0 : 1); return true; }
  if (is("__cxa_guard_release")) { u64 g = concPtr(s, a[0]); u32 id = checkObj(s, g, 1, true); storeScalar(s, id, g - baseOf(id), Val(1), 8); return true; }
  if (is("__cxa_guard_abort")) return true;
  if (is("memcpy") || is("memmove")) { u64 nn = concV(s, a[2], 64); u64 d = concPtr(s, a[0]), q = concPtr(s, a[1]); copyBytes(s, d, q, nn); r = a[0]; return true; }
  // math
  {
    std::string b = n; unsigned w = 64; bool fl = false; if (t->isFloatTy()) { if (!b.empty() && b.back() == 'f') { b.pop_back(); fl = true; w = 32; } }
    if (t->isDoubleTy() || fl) {
      if (b.size() > 9 && b.compare(0, 2, "__") == 0 && b.find("_finite") != std::string::npos) b = b.substr(2, b.find("_finite") - 2);
      for (int i = 0; mathFns[i]; i++) if (b == mathFns[i]) { r = mathCall(s, b, a, w); return true; }
      if (b == "sqrt") { r = fpUn(s, Op::FSqrt, a[0], w); return true; } if (b == "fabs") { r = fpUn(s, Op::FAbs, a[0], w); return true; }
      if (b == "floor") { r = fpUn(s, Op::FRound, a[0], w, RM_FLOOR); return true; } if (b == "ceil") { r = fpUn(s, Op::FRound, a[0], w, RM_CEIL); return true; } if (b == "trunc") { r = fpUn(s, Op::FRound, a[0], w, RM_TRUNC); return true; }
      if (b == "rint" || b == "nearbyint") { r = fpUn(s, Op::FRound, a[0], w, RM_RINT); return true; } if (b == "round") { r = fpUn(s, Op::FRound, a[0], w, RM_ROUND); return true; }
      if (b == "fmax") { r = fpMinMax(s, true, a[0], a[1], w); return true; } if (b == "fmin") { r = fpMinMax(s, false, a[0], a[1], w); return true; }
      if (b == "fdim") { Val d = binop(s, Instruction::FSub, a[0], a[1], t); r = fpMinMax(s, true, d, Val(0), w); return true; }
      if (b == "fma") { r = fromE(mkFFma(toE(a[0], w), toE(a[1], w), toE(a[2], w))); return true; }
      if (b == "ldexp" || b == "scalbn") { i64 e = sext64(concV(s, a[1], 32), 32); r = binop(s, Instruction::FMul, a[0], Val((u64)(w == 64 ? dToBits(std::ldexp(1.0, (int)e)) : fToBits(std::ldexp(1.0f, (int)e)))), t); return true; }
    }
    if (is("lround") || is("llround") || is("lrint") || is("llrint")) { Val q = fpUn(s, Op::FRound, a[0], 64, n.find("int") != std::string::npos ? RM_RINT : RM_ROUND); r = fptoi(s, q, 64, 64, true); return true; }
    if (is("frexp")) { if (!a[0].conc()) incon(s, "unsupported", "frexp"); int e; double d = std::frexp(bitsToD(a[0].c), &e); u64 p = concPtr(s, a[1]); u32 id = checkObj(s, p, 4, true); storeScalar(s, id, p - baseOf(id), Val((u64)(u32)e), 32); r = Val((u64)dToBits(d)); return true; }
    if (is("sincos")) { Val sv = mathCall(s, "sin", {a[0]}, 64), cv = mathCall(s, "cos", {a[0]}, 64); u64 p = concPtr(s, a[1]), q = concPtr(s, a[2]); u32 id = checkObj(s, p, 8, true); storeScalar(s, id, p - baseOf(id), sv, 64); id = checkObj(s, q, 8, true); storeScalar(s, id, q - baseOf(id), cv, 64); return true; }
  }
  static const std::set<std::string> nops = {"printf", "puts", "putchar", "fprintf", "fflush", "fputs", "fputc", "perror", "setvbuf", "__cxa_finalize", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "__pthread_key_create", "vfprintf", "vprintf", "sched_yield", "setlocale"};
  if (nops.count(n)) { if (!t->isVoidTy()) r = Val(0); return true; }
  return false;
}

static void doCall(State& s, Frame& f, const KI& k) {
  auto* cb = cast<CallBase>(k.I); std::vector<Val> a; unsigned n = cb->arg_size(); a.reserve(n);
  for (unsigned i = 0; i < n; i++) { const Val& v = getv(s, f, k.ops[i]); if (v.e) a.push_back(fromE(simp(s, v.e))); else a.push_back(v); }
  Function* F = k.callee;
  if (!F) {
    if (cb->isInlineAsm()) { f.pc++; return; }
    u64 p = concPtr(s, getv(s, f, k.ops[n])); u32 id = p >> 32; auto it = g_fnById.find(id);
    if (it == g_fnById.end() || p != baseOf(id)) err(s, "bad-call", "indirect call through invalid function pointer " + hex(p));
    F = it->second;
  }
  Val r; bool moved = false;
  if (F->isIntrinsic()) { intrinsic(s, f, k, F->getIntrinsicID(), a, r); }
  else {
    std::string nm = F->getName().str();
    bool h = builtin(s, f, k, nm, a, r, moved);
    if (!h) {
      if (F->isDeclaration()) incon(s, "unmodelled-external", nm);
      if (F->arg_size() > a.size()) err(s, "bad-call", "argument count mismatch in call of " + nm);
      f.pc++; pushCall(s, F, a, k.dst, &k); return;
    }
    if (moved) return;
  }
  Frame& g = s.st.back();
  if (k.dst >= 0) g.regs[k.dst] = std::move(r);
  if (k.op == Instruction::Invoke) { g.blk = k.blk; jump(s, g, k.t0); } else g.pc++;
}
static void doRet(State& s, const Val& v, bool has) {
  int dst = s.st.back().retDst; const KI* call = s.st.back().call; popFrame(s);
  if (s.st.empty()) return;
  Frame& f = s.st.back();
  if (dst >= 0 && has) f.regs[dst] = v;
  if (call && call->op == Instruction::Invoke) { f.blk = call->blk; jump(s, f, call->t0); }
}
static void step(State& s) {
  Frame& f = s.st.back(); const KI& k = f.f->code[f.pc]; s.steps++;
  auto V = [&](int i) -> const Val& { return getv(s, f, k.ops[i]); };
  switch (k.op) {
    case Instruction::Ret: { Val v; bool has = !k.ops.empty(); if (has) v = V(0); doRet(s, v, has); return; }
    case Instruction::Br: if (k.ops.empty()) { jump(s, f, k.t0); return; } else { const Val& c = V(0); bool b = c.conc() ? c.c & 1 : branch(s, c.e); f.blk = k.blk; jump(s, f, b ? k.t0 : k.t1); return; }
    case Instruction::Switch: { auto* sw = cast<SwitchInst>(k.I); unsigned w = tyw(sw->getCondition()->getType()); const Val& c = V(0); BasicBlock* to = sw->getDefaultDest();
      if (c.conc()) { for (auto& cs : sw->cases()) if ((cs.getCaseValue()->getZExtValue() & mask64(w)) == c.c) { to = cs.getCaseSuccessor(); break; } }
      else { E e = simp(s, c.e); for (auto& cs : sw->cases()) { if (branch(s, mkEq(e, mkConst(cs.getCaseValue()->getZExtValue(), w)))) { to = cs.getCaseSuccessor(); break; } } }
      f.blk = k.blk; jump(s, f, f.f->blkIdx[to]); return; }
    case Instruction::Unreachable: err(s, "unreachable", "unreachable instruction executed");
    case Instruction::Call: case Instruction::Invoke: doCall(s, f, k); return;
    case Instruction::Resume: { u64 o = V(0).agg->v[0].c; Exc* e = excOf(s, o); if (!e) fatal("resume"); Exc ex = *e; popFrame(s); if (s.st.empty()) err(s, "uncaught-exception", "exception escapes"); unwind(s, ex, false); return; }
    case Instruction::LandingPad: f.regs[k.dst] = mkAgg({Val(s.curExc), Val((u64)(u32)s.curSel)}); break;
    case Instruction::Alloca: { auto* ai = cast<AllocaInst>(k.I); u64 n = concV(s, V(0), 64); u64 sz = DL->getTypeAllocSize(ai->getAllocatedType()) * n; u32 id = s.m.alloc(sz, O_STACK); f.allocas.push_back(id); f.regs[k.dst] = Val(baseOf(id)); break; }
    case Instruction::Load: { Val p = V(0); Val v = memLoad(s, p, k.ty); f.regs[k.dst] = std::move(v); break; }
    case Instruction::Store: { Type* t = cast<StoreInst>(k.I)->getValueOperand()->getType(); memStore(s, V(1), V(0), t); break; }
    case Instruction::GetElementPtr: { const Val& b = V(0); bool conc = b.conc(); u64 off = k.gconst; E so = nullptr; int oi = 1;
      for (auto& g : k.gidx) { const Val& ix = getv(s, f, g.first); unsigned iw = k.ops[oi++]; if (ix.conc()) off += (u64)sext64(ix.c, iw) * g.second; else { E e = simp(s, ix.e); if (e->isConst()) off += (u64)sext64((u64)e->val, iw) * g.second; else { e = iw < 64 ? mkSExt(e, 64) : e; e = mkBin(Op::Mul, e, mkConst(g.second, 64)); so = so ? mkBin(Op::Add, so, e) : e; } } }
      if (conc && !so) f.regs[k.dst] = Val(b.c + off); else { E e = toE(b, 64); if (so) e = mkBin(Op::Add, e, so); e = mkBin(Op::Add, e, mkConst(off, 64)); f.regs[k.dst] = fromE(simp(s, e)); } break; }
    case Instruction::ICmp: { Val v = icmp(s, cast<ICmpInst>(k.I)->getPredicate(), V(0), V(1), k.I->getOperand(0)->getType()); f.regs[k.dst] = std::move(v); break; }
    case Instruction::FCmp: { Val v = fcmp(s, cast<FCmpInst>(k.I)->getPredicate(), V(0), V(1), k.I->getOperand(0)->getType()); f.regs[k.dst] = std::move(v); break; }
    case Instruction::Select: { Val v = selectv(s, V(0), V(1), V(2), k.ty); f.regs[k.dst] = std::move(v); break; }
    case Instruction::PHI: fatal("phi reached");
    case Instruction::FNeg: { Val v = fpUn(s, Op::FNeg, V(0), tyw(k.ty->getScalarType())); f.regs[k.dst] = std::move(v); break; }
    case Instruction::Freeze: f.regs[k.dst] = V(0); break;
    case Instruction::ExtractValue: { Val v = V(0); for (unsigned i : cast<ExtractValueInst>(k.I)->indices()) { Val x = v.agg->v[i]; v = x; } f.regs[k.dst] = std::move(v); break; }
    case Instruction::InsertValue: { auto* iv = cast<InsertValueInst>(k.I); std::function<Val(const Val&, ArrayRef<unsigned>)> ins = [&](const Val& b, ArrayRef<unsigned> ix) -> Val { if (ix.empty()) return V(1); Val r = mkAgg(b.agg->v); r.agg->v[ix[0]] = ins(b.agg->v[ix[0]], ix.slice(1)); return r; }; Val v = ins(V(0), iv->getIndices()); f.regs[k.dst] = std::move(v); break; }
    case Instruction::ExtractElement: { u64 i = concV(s, V(1), 64); Val v = V(0).agg->v.at(i); f.regs[k.dst] = std::move(v); break; }
    case Instruction::InsertElement: { u64 i = concV(s, V(2), 64); Val v = mkAgg(V(0).agg->v); v.agg->v.at(i) = V(1); f.regs[k.dst] = std::move(v); break; }
    case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(k.I); std::vector<Val> r; auto& a = V(0).agg->v; auto& b = V(1).agg->v; for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? Val(0) : m < (int)a.size() ? a[m] : b[m - a.size()]); f.regs[k.dst] = mkAgg(std::move(r)); break; }
    case Instruction::AtomicRMW: { auto* rm = cast<AtomicRMWInst>(k.I); Type* t = rm->getValOperand()->getType(); Val p = V(0), x = V(1); Val o = memLoad(s, p, t), nv; switch (rm->getOperation()) { case AtomicRMWInst::Xchg: nv = x; break; case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, o, x, t); break; case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, o, x, t); break; case AtomicRMWInst::And: nv = binop(s, Instruction::And, o, x, t); break; case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, o, x, t); break; default: incon(s, "unsupported", "atomicrmw"); } memStore(s, p, nv, t); f.regs[k.dst] = o; break; }
    case Instruction::AtomicCmpXchg: { auto* cx = cast<AtomicCmpXchgInst>(k.I); Type* t = cx->getCompareOperand()->getType(); Val p = V(0); Val o = memLoad(s, p, t); Val eq = icmp(s, CmpInst::ICMP_EQ, o, V(1), t); bool b = eq.conc() ? eq.c : branch(s, eq.e); if (b) memStore(s, p, V(2), t); f.regs[k.dst] = mkAgg({o, Val(b)}); break; }
    case Instruction::Fence: break;
    case Instruction::VAArg: incon(s, "unsupported", "va_arg");
    default:
      if (k.I->isBinaryOp()) { Val v = binop(s, k.op, V(0), V(1), k.ty); f.regs[k.dst] = std::move(v); }
      else if (k.I->isCast()) { Val v = castop(s, k.op, V(0), k.I->getOperand(0)->getType(), k.ty); f.regs[k.dst] = std::move(v); }
      else { std::string t; raw_string_ostream os(t); k.I->print(os); incon(s, "unsupported", "instruction " + t); }
  }
  f.pc++;
}
// ------------------------------------------------------------------ driver
static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string jarr(const std::vector<std::string>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? ", \"" : "\"") + jesc(v[i]) + "\""; return r + "]"; }
static u64 rssMB() { FILE* f = fopen("/proc/self/statm", "r"); u64 a = 0, b = 0; if (f) { if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0; fclose(f); } return b * 4096 >> 20; }
static u64 g_rng;
// numeric evaluation of real-mode values with the actual library functions
static bool numEval(E e, const Model& m, double& d) {
  Q q; if (rvIsConst(e, &q)) { d = qToD(q); return true; } if (e->isConst()) { d = bitsToD(e->val); return true; }
  if (e->rf) { auto pv = [&](const Poly& p, double& out) { out = 0; for (auto& t : p.t) { double x = qToD(t.second), y; for (auto& mm : t.first) { if (!numEval(atomExpr(mm.first), m, y)) return false; for (u32 k = 0; k < mm.second; k++) x *= y; } out += x; } return true; };
    if (!pv(e->rf->num, d)) return false; for (auto& x : e->rf->fac) { double y; if (!pv(facPoly(x.first), y)) return false; for (u32 k = 0; k < x.second; k++) d /= y; } return true; }
  if (e->op == Op::Sym) { if (!Solver::evalReal(e, m, q)) return false; d = qToD(q); return true; }
  if (e->op == Op::Ite) { bool b; if (!Solver::evalBool(e->k[0], m, b)) return false; return numEval(e->k[b ? 1 : 2], m, d); }
  if (e->op == Op::App) { u128 a[3]; for (int i = 0; i < e->nk; i++) { double x; if (!numEval(e->k[i], m, x)) return false; a[i] = dToBits(x); } bool ok; u128 r = applyFn(e->aux, a, e->nk, 64, ok); d = bitsToD(r); return ok; }
  return false;
}
// does the path condition hold with the actual library functions (uninterpreted ones may have been chosen freely)?
static bool numBool(E c, const Model& m, bool& v) {
  if (!c->hasReal) { v = m.eval(c) != 0; return true; }
  bool a, b;
  switch (c->op) {
    case Op::RCmp: { double sum = 0, mag = 0; for (auto& t : c->rf->num.t) { double x = qToD(t.second), y; for (auto& mm : t.first) { if (!numEval(atomExpr(mm.first), m, y)) return false; for (u32 k = 0; k < mm.second; k++) x *= y; } sum += x; mag += std::fabs(x); }
      if (std::fabs(sum) <= 1e-9 * mag) sum = 0;
      int k = c->aux & 3; v = k == RC_EQ ? sum == 0 : k == RC_LT ? sum < 0 : sum <= 0; return std::isfinite(sum); }
    case Op::And: if (!numBool(c->k[0], m, a) || !numBool(c->k[1], m, b)) return false; v = a && b; return true;
    case Op::Or: if (!numBool(c->k[0], m, a) || !numBool(c->k[1], m, b)) return false; v = a || b; return true;
    case Op::Xor: if (!numBool(c->k[0], m, a) || !numBool(c->k[1], m, b)) return false; v = a != b; return true;
    case Op::Ite: if (c->w == 1) { if (!numBool(c->k[0], m, a)) return false; return numBool(c->k[a ? 1 : 2], m, v); } return false;
    default: return false;
  }
}
static bool numPath(State& s) { for (E c : s.pc) { bool v; if (!numBool(c, *s.model, v) || !v) return false; } return true; }
static void pathDone(State& s) {
  g_paths++; for (auto& r : s.reach) g_reach[r]++;
  // reservoir of witnesses
  g_rng = g_rng * 6364136223846793005ull + 1442695040888963407ull; u64 rnd = g_rng >> 33; size_t slot = g_wit.size(); bool keep = false;
  if ((int)g_wit.size() < opt.witnesses) { g_wit.emplace_back(); keep = true; } else if (opt.witnesses && rnd % g_paths < (u64)opt.witnesses) { slot = rnd % opt.witnesses; keep = true; }
  if (keep && g_realMode && !numPath(s)) { keep = false; if (slot + 1 == g_wit.size() && g_wit[slot].inputs.empty()) g_wit.pop_back(); }
  if (keep) { Witness w; w.inputs = inputsOf(s, *s.model); for (auto& o : s.obs) { char b[64]; if (o.kind == 'r') { Q q; double d = 0; bool ok = true; if (!o.e) d = bitsToD(o.c); else ok = numEval(o.e, *s.model, d); snprintf(b, 64, "%.17g", d); w.obs.push_back("r " + o.label + " " + (ok ? b : "?")); } else { u64 v = o.e ? (u64)s.model->eval(o.e) : o.c; if (o.kind == 'd' && std::isnan(bitsToD(v))) v = 0x7ff8000000000000ull; snprintf(b, 64, "0x%llx", (unsigned long long)v); w.obs.push_back(std::string(1, o.kind) + " " + o.label + " " + b); } } g_wit[slot] = w; }
}
static bool runState(State* s, bool ctor) {
  cur = s;
  try {
    while (!s->st.empty()) {
      step(*s); g_steps++;
      if ((g_steps & 0x3fff) == 0) { if (now() - g_start > opt.maxTime) { g_incon["bound: time limit"]++; return false; } if (rssMB() > opt.maxMB) { g_incon["bound: memory limit"]++; return false; } }
      if (s->steps > opt.maxSteps) { report(*s, "bound", "", "step limit per path reached", nullptr, true); return false; }
    }
    if (!ctor) pathDone(*s);
    return true;
  } catch (PathKill&) { g_assumeKilled++; }
  catch (PathErr&) { }
  catch (PolyBlow&) { g_incon["bound: polynomial size"]++; }
  catch (RealBits&) { try { report(*s, "unsupported", "", "bit-level use of a real-mode value", nullptr, true); } catch (...) {} }
  return false;
}
int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--harness") opt.harness = nx(); else if (a == "--time") opt.maxTime = atof(nx().c_str()); else if (a == "--paths") opt.maxPaths = strtoull(nx().c_str(), 0, 10); else if (a == "--steps") opt.maxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--witnesses") opt.witnesses = atoi(nx().c_str()); else if (a == "--out") opt.out = nx(); else if (a == "-v") opt.verbose = true; else if (a == "--seed") opt.seed = strtoull(nx().c_str(), 0, 10); else if (a == "--real") opt.real = true; else if (a == "--mem") opt.maxMB = strtoull(nx().c_str(), 0, 10); else if (a == "--maxerr") opt.maxErr = atoi(nx().c_str()); else if (a == "--qtimeout") { setenv("SX_QT", nx().c_str(), 1); } else if (a == "--dump") setenv("SX_DUMP", nx().c_str(), 1); else if (a == "--repo") repoRoot = nx(); else opt.mods.push_back(a); }
  g_start = now(); g_rng = opt.seed * 7919 + 17; g_realMode = opt.real; g_evalRCmp = [](E e, const Model& m, bool& b) { return Solver::evalBool(e, m, b); };
  LLVMContext ctx; SMDiagnostic diag; std::unique_ptr<Module> mod;
  for (auto& m : opt.mods) { auto x = parseIRFile(m, diag, ctx); if (!x) { diag.print("symx", errs()); return 4; } if (!mod) mod = std::move(x); else if (Linker::linkModules(*mod, std::move(x))) return 4; }
  M = mod.get(); DL = &M->getDataLayout(); Solver solver; S = &solver; S->verbose = opt.verbose; if (getenv("SX_QT")) S->timeoutMs = atoi(getenv("SX_QT")); if (getenv("SX_DUMP")) S->dumpDir = getenv("SX_DUMP");
  State* init = new State(); init->model = std::make_shared<Model>(); initGlobals(*init);
  bool ctorsOk = true;
  if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<u64, Function*>> v; for (auto& o : arr->operands()) { auto* st = cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())}); } std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& p : v) if (p.second) { pushCall(*init, p.second, {}, -1, nullptr); if (!runState(init, true)) { ctorsOk = false; break; } } }
  if (!work.empty()) fatal("fork in global constructors");
  Function* H = M->getFunction(opt.harness); if (!H) fatal("no harness function " + opt.harness);
  if (ctorsOk) { pushCall(*init, H, {}, -1, nullptr); work.push_back(init); } else g_incon["global constructor failed"]++;
  bool bound = false;
  while (!work.empty()) {
    State* s = work.back(); work.pop_back();
    runState(s, false); delete s;
    if (now() - g_start > opt.maxTime || rssMB() > opt.maxMB) { bound = true; break; }
    if (g_paths + g_assumeKilled + g_errPaths > opt.maxPaths) { g_incon["bound: path limit"]++; bound = true; break; }
    if ((int)g_errs.size() >= opt.maxErr) break;
  }
  if (bound && g_incon.empty()) g_incon["bound: time limit"]++;
  std::vector<std::string> fns, libfns; u64 ninst = 0; for (auto& x : g_kf) if (x.second->execs) { if (x.second->repo) { fns.push_back(demang(x.first->getName().str())); } else libfns.push_back(x.first->getName().str()); ninst += x.second->code.size(); }
  std::sort(fns.begin(), fns.end());
  FILE* o = opt.out.empty() ? stdout : fopen(opt.out.c_str(), "w"); if (!o) return 4;
  auto& q = S->st;
  if (g_forkProf) { std::vector<std::pair<u64, std::string>> fs; for (auto& f : g_forkSites) fs.push_back({f.second, f.first}); std::sort(fs.rbegin(), fs.rend()); for (size_t i = 0; i < fs.size() && i < 25; i++) fprintf(stderr, "fork %lu %s\n", fs[i].first, fs[i].second.c_str()); }
  fprintf(o, "{\n \"harness\": \"%s\",\n \"paths\": %lu, \"assume_killed\": %lu, \"error_paths\": %lu, \"forks\": %lu, \"steps\": %lu, \"asserts\": %lu, \"assert_queries\": %lu, \"pending\": %zu,\n", opt.harness.c_str(), g_paths, g_assumeKilled, g_errPaths, g_forks, g_steps, g_asserts, g_assertQueries, work.size());
  fprintf(o, " \"queries\": %lu, \"z3_calls\": %lu, \"cache_hits\": %lu, \"model_hits\": %lu, \"sat\": %lu, \"unsat\": %lu, \"unknown\": %lu, \"solver_s\": %.3f, \"max_query_s\": %.3f, \"wall_s\": %.3f, \"exprs\": %zu, \"max_depth\": %lu, \"symbols\": %zu, \"rss_mb\": %lu,\n", q.queries, q.z3calls, q.cacheHits, q.modelHits, q.sat, q.unsat, q.unknown, q.secs, q.maxSecs, now() - g_start, exprCount(), g_maxDepth, g_syms.size(), rssMB());
  fprintf(o, " \"inconclusive\": {"); bool c = false; for (auto& x : g_incon) { fprintf(o, "%s\"%s\": %lu", c ? ", " : "", jesc(x.first).c_str(), x.second); c = true; } fprintf(o, "},\n");
  fprintf(o, " \"reach\": {"); c = false; for (auto& x : g_reach) { fprintf(o, "%s\"%s\": %lu", c ? ", " : "", jesc(x.first).c_str(), x.second); c = true; } fprintf(o, "},\n");
  fprintf(o, " \"functions\": %s,\n \"lib_functions\": %zu, \"instructions_encoded\": %lu,\n", jarr(fns).c_str(), libfns.size(), ninst);
  fprintf(o, " \"errors\": ["); for (size_t i = 0; i < g_errs.size(); i++) { auto& e = g_errs[i]; fprintf(o, "%s\n  {\"kind\": \"%s\", \"label\": \"%s\", \"msg\": \"%s\", \"where\": \"%s\", \"stack\": %s, \"inputs\": %s}", i ? "," : "", jesc(e.kind).c_str(), jesc(e.label).c_str(), jesc(e.msg).c_str(), jesc(e.where).c_str(), jarr(e.stack).c_str(), jarr(e.inputs).c_str()); } fprintf(o, "],\n");
  fprintf(o, " \"witnesses\": ["); for (size_t i = 0; i < g_wit.size(); i++) fprintf(o, "%s\n  {\"inputs\": %s, \"obs\": %s}", i ? "," : "", jarr(g_wit[i].inputs).c_str(), jarr(g_wit[i].obs).c_str()); fprintf(o, "]\n}\n");
  fflush(o); if (o != stdout) fclose(o);
  _exit(0);
}
