// ---------------------------------------------------------------- execution
static std::unordered_map<u64, u64> excTypes; struct ExcSt { u64 dtor = 0; int handlers = 0; bool rethrown = false; }; static std::unordered_map<u64, ExcSt> excSt; static std::vector<u64> caught; static std::map<u64, int> typeIds;
static int typeId(u64 ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int i = typeIds.size() + 1; typeIds[ti] = i; return i; }
static bool tiMatch(u64 thrown, u64 want, int depth = 0) {
  if (!want || thrown == want) return true; if (!thrown || depth > 8) return false;
  const char *a = ((const char **)thrown)[1], *b = ((const char **)want)[1]; if (a && b && !strcmp(a, b)) return true;
  static u64 siV = (u64)dlsym(RTLD_DEFAULT, "_ZTVN10__cxxabiv120__si_class_type_infoE") + 16, vmiV = (u64)dlsym(RTLD_DEFAULT, "_ZTVN10__cxxabiv121__vmi_class_type_infoE") + 16;
  u64 v = *(u64 *)thrown; if (v == siV) return tiMatch(((u64 *)thrown)[2], want, depth + 1);
  if (v == vmiV) { u32 n = ((u32 *)thrown)[5]; for (u32 i = 0; i < n; i++) if (tiMatch(((u64 *)thrown)[3 + 2 * i], want, depth + 1)) return true; }
  return false;
}
static inline Val gv(Frame &f, int o) { return o >= 0 ? regs[f.base + o] : f.fi->consts[-1 - o]; }
static void takeEdge(Frame &f, int ei) {
  Edge &e = f.fi->edges[ei]; size_t n = e.moves.size();
  if (n == 1) { regs[f.base + e.moves[0].first] = gv(f, e.moves[0].second); }
  else if (n) { Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; i++) t[i] = gv(f, e.moves[i].second);
    for (size_t i = 0; i < n; i++) regs[f.base + e.moves[i].first] = t[i]; }
  f.pc = e.pc;
}
static void popFrame() { Frame &f = frames.back(); if (sTop != f.sSave) { poison(f.sSave, sTop - f.sSave); clearSym(f.sSave, sTop - f.sSave); sTop = f.sSave; } regs.resize(f.base); frames.pop_back(); }
static u64 stackAlloc(u64 n, u64 align) { u64 a = allocFrom(sTop, n, align); if (sTop > ABASE + S_OFF + S_SIZE - 65536) errPath("stack", "stack exhausted (runaway recursion)"); clearSym(a, n); memset((void *)a, 0xA5, n); return a; }
static void unwind(u64 obj, u64 ti, int edge) {
  for (;;) {
    Frame &f = frames.back();
    if (edge >= 0) { DI &d = f.fi->code[f.fi->edges[edge].pc]; if (d.op == D_LPAD) { LpI *li = (LpI *)d.aux; bool hit = li->cleanup; int sel = 0;
        for (auto &c : li->clauses) { if (c.first == 1) { hit = true; break; } u64 w = gv(f, c.second).c; if (tiMatch(ti, w)) { hit = true; sel = typeId(w); break; } }
        if (hit) { takeEdge(f, edge); Agg *g = newAgg(2); g->v[0] = {obj, 0}; g->v[1] = {(u64)sel, 0}; regs[f.base + d.dst] = {0, (Expr *)g}; f.pc++; return; } } }
    edge = f.edgeUnwind;
    if (frames.size() == 1) { std::string nm = ti ? demangle(((const char **)ti)[1]) : "?"; errPath("exception", "uncaught exception " + nm); }
    popFrame();
  }
}
static void pushFrame(FnInfo *fi, const Val *args, unsigned n, int dst, int en, int eu) {
  if (!fi->decoded) { Dec d; d.fi = fi; d.run(); }
  if (fi->idx < sizeof(SH->fnBits) && inEntry) SH->fnBits[fi->idx] = 1;
  if (frames.size() > 20000) errPath("stack", "call depth exceeded (runaway recursion)");
  Frame f; f.fi = fi; f.base = regs.size(); f.pc = 0; f.dst = dst; f.sSave = sTop; f.edgeNormal = en; f.edgeUnwind = eu; f.isCtor = false; f.vaArea = 0;
  unsigned np = fi->F->arg_size(); std::vector<Val> tmp(args, args + n);
  regs.resize(f.base + fi->nregs, Val{0, 0});
  for (unsigned i = 0; i < np && i < n; i++) { Val v = tmp[i]; if (fi->byval[i]) { u64 src = concretize(v, 64, "byval"); u64 d = stackAlloc(fi->byval[i], 16); copyMem(d, src, fi->byval[i]); v = {d, 0}; } regs[f.base + i] = v; }
  frames.push_back(f);
}
typedef u64 (*NF)(u64, u64, u64, u64, u64, u64, double, double, double, double);
typedef double (*NFd)(u64, u64, u64, u64, u64, u64, double, double, double, double);
typedef float (*NFf)(u64, u64, u64, u64, u64, u64, double, double, double, double);
static u64 nativeCall(void *fn, CallI &ci, Val *a, unsigned n, bool ptrCheck) {
  u64 iv[6] = {0}; double fv[4] = {0}; unsigned ni = 0, nf = 0;
  for (unsigned i = 0; i < n; i++) {
    if (ci.at[i]->agg) { incomplete("native call with aggregate"); endPath(false); }
    u64 v = concretize(a[i], ci.at[i]->w, "native argument");
    if (ptrCheck && ci.at[i]->w == 64 && inArena(v)) { u64 lo, hi; if (objBounds(v, lo, hi) && anySym(lo, hi - lo)) { incomplete("native call on symbolic data: " + (ci.F ? ci.F->getName().str() : std::string("?"))); endPath(false); } }
    if (ci.isFp[i]) { if (nf < 4) { if (ci.at[i]->w == 32) { double t = 0; memcpy(&t, &v, 4); fv[nf++] = t; } else fv[nf++] = bd(v); } } else if (ni < 6) iv[ni++] = ci.at[i]->w < 64 ? (u64)sx(v, ci.at[i]->w) : v; else { incomplete("native call with too many arguments"); endPath(false); }
  }
  if (ci.rFp) { if (ci.rt->w == 32) return fb(((NFf)fn)(iv[0], iv[1], iv[2], iv[3], iv[4], iv[5], fv[0], fv[1], fv[2], fv[3])); return db(((NFd)fn)(iv[0], iv[1], iv[2], iv[3], iv[4], iv[5], fv[0], fv[1], fv[2], fv[3])); }
  u64 r = ((NF)fn)(iv[0], iv[1], iv[2], iv[3], iv[4], iv[5], fv[0], fv[1], fv[2], fv[3]); return ci.rt->w ? r & maskw(ci.rt->w) : r;
}
static bool nativeAllowed(const std::string &n, bool &chkp) {
  static const char *safe[] = {"_ZSt29_Rb_tree_insert_and_rebalance", "_ZSt18_Rb_tree_increment", "_ZSt18_Rb_tree_decrement", "_ZSt28_Rb_tree_rebalance_for_erase", "_ZNSt8__detail15_List_node_base", "_ZNKSt8__detail20_Prime_rehash_policy", "getenv", "setlocale", "getpid", "strdup_native", "_ZNSt6localeD1Ev", "_ZNSt8ios_baseD2Ev"};
  for (auto s : safe) if (n.compare(0, strlen(s), s) == 0) { chkp = false; return true; }
  static const char *chk[] = {"_ZSt11_Hash_bytes", "sprintf", "snprintf", "toupper", "tolower", "isspace", "isdigit", "isalpha", "towlower", "towupper", "atoi", "atol", "atof", "strtol", "strtoll", "strtoul", "strtoull", "strtod", "strtof", "floor", "ceil", "pow", "log", "exp", "sin", "cos", "tan", "fmod", "round", "trunc", "fabs", "swprintf", "wcstombs", "mbstowcs", "mbrtowc", "time", "clock", "dladdr", "_ZNSt6localeC1Ev", "_ZNSt6localeC1EPKc", "_ZNKSt6locale2id5_M_idEv", "_ZNSt8ios_base"};
  for (auto s : chk) if (n == s || (s[0] == '_' && n.compare(0, strlen(s), s) == 0)) { chkp = true; return true; }
  return false;
}
static void setRes(Frame &f, int dst, Val v) { if (dst >= 0) regs[f.base + dst] = v; }
static u64 gprArea(u64 ap) { return ap; }

static void intrinsic(CallI &ci, Val *a, unsigned n, Val &r) {
  unsigned w = ci.rt->w; auto E = [&](int i) { return ex(a[i], ci.at[i]->w); };
  switch (ci.iid) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 d = concretize(a[0], 64, "memcpy"), s = concretize(a[1], 64, "memcpy"), k = concretize(a[2], ci.at[2]->w, "memcpy size"); copyMem(d, s, k); return; }
    case Intrinsic::memset: m_memset(ci, a, n, r); return;
    case Intrinsic::umax: r = mkv(P.ite(P.cmp(O_ULT, E(0), E(1)), E(1), E(0))); return;
    case Intrinsic::umin: r = mkv(P.ite(P.cmp(O_ULT, E(0), E(1)), E(0), E(1))); return;
    case Intrinsic::smax: r = mkv(P.ite(P.cmp(O_SLT, E(0), E(1)), E(1), E(0))); return;
    case Intrinsic::smin: r = mkv(P.ite(P.cmp(O_SLT, E(0), E(1)), E(0), E(1))); return;
    case Intrinsic::abs: r = mkv(P.ite(P.cmp(O_SLT, E(0), P.cst(0, w)), P.bin(O_SUB, P.cst(0, w), E(0)), E(0))); return;
    case Intrinsic::usub_sat: r = mkv(P.ite(P.cmp(O_ULT, E(0), E(1)), P.cst(0, w), P.bin(O_SUB, E(0), E(1)))); return;
    case Intrinsic::uadd_sat: { Expr *s = P.bin(O_ADD, E(0), E(1)); r = mkv(P.ite(P.cmp(O_ULT, s, E(0)), P.cst(~0ull, w), s)); return; }
    case Intrinsic::fabs: r = mkv(P.bin(O_AND, E(0), P.cst(maskw(w - 1), w))); return;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: r = a[0]; return;
    case Intrinsic::fmuladd: r = mkv(P.bin(O_FADD, P.bin(O_FMUL, E(0), E(1)), E(2))); return;
    case Intrinsic::bswap: { Expr *e = E(0), *o = 0; for (unsigned i = 0; i < w; i += 8) { Expr *b = P.extract(e, i, 8); o = o ? P.concat(o, b) : b; } r = mkv(o); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: { Expr *s = P.bin(O_UREM, E(2), P.cst(w, w)); Expr *inv = P.bin(O_SUB, P.cst(w, w), s);
      if (ci.iid == Intrinsic::fshl) r = mkv(P.bin(O_OR, P.bin(O_SHL, E(0), s), P.bin(O_LSHR, E(1), inv))); else r = mkv(P.bin(O_OR, P.bin(O_LSHR, E(1), s), P.bin(O_SHL, E(0), inv))); return; }
    case Intrinsic::ctpop: { Expr *e = E(0), *o = P.cst(0, w); for (unsigned i = 0; i < w; i++) o = P.bin(O_ADD, o, P.zext(P.extract(e, i, 1), w)); r = mkv(o); return; }
    case Intrinsic::ctlz: { Expr *e = E(0), *o = P.cst(w, w); for (unsigned i = 0; i < w; i++) o = P.ite(P.extract(e, i, 1), P.cst(w - 1 - i, w), o); r = mkv(o); return; }
    case Intrinsic::cttz: { Expr *e = E(0), *o = P.cst(w, w); for (unsigned i = w; i-- > 0;) o = P.ite(P.extract(e, i, 1), P.cst(i, w), o); r = mkv(o); return; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned k = ci.at[0]->w; Expr *x = E(0), *y = E(1), *s, *o; Expr *z = P.cst(0, k);
      switch (ci.iid) {
        case Intrinsic::uadd_with_overflow: s = P.bin(O_ADD, x, y); o = P.cmp(O_ULT, s, x); break;
        case Intrinsic::usub_with_overflow: s = P.bin(O_SUB, x, y); o = P.cmp(O_ULT, x, y); break;
        case Intrinsic::sadd_with_overflow: s = P.bin(O_ADD, x, y); o = P.cmp(O_SLT, P.bin(O_AND, P.bin(O_XOR, s, x), P.bin(O_XOR, s, y)), z); break;
        case Intrinsic::ssub_with_overflow: s = P.bin(O_SUB, x, y); o = P.cmp(O_SLT, P.bin(O_AND, P.bin(O_XOR, x, y), P.bin(O_XOR, s, x)), z); break;
        case Intrinsic::umul_with_overflow: s = P.bin(O_MUL, x, y); o = P.bin(O_AND, P.not_(P.cmp(O_EQ, y, z)), P.cmp(O_ULT, P.bin(O_UDIV, P.cst(~0ull, k), y), x)); break;
        default: if (k <= 32) { Expr *p = P.bin(O_MUL, P.sext(x, 2 * k), P.sext(y, 2 * k)); s = P.extract(p, 0, k); o = P.not_(P.cmp(O_EQ, P.sext(s, 2 * k), p)); }
          else { s = P.bin(O_MUL, x, y); Expr *ok = P.bin(O_AND, P.cmp(O_EQ, P.bin(O_SDIV, s, y), x), P.not_(P.bin(O_AND, P.cmp(O_EQ, x, P.cst(1ull << (k - 1), k)), P.cmp(O_EQ, y, P.cst(~0ull, k))))); o = P.bin(O_AND, P.not_(P.cmp(O_EQ, y, z)), P.not_(ok)); } }
      Agg *g = newAgg(2); g->v[0] = mkv(s); g->v[1] = mkv(o); r = {0, (Expr *)g}; return; }
    case Intrinsic::trap: case Intrinsic::ubsantrap: errPath("abort", "trap instruction");
    case Intrinsic::stacksave: r = {sTop, 0}; return; case Intrinsic::stackrestore: { u64 s = a[0].c; if (s < sTop) { poison(s, sTop - s); clearSym(s, sTop - s); sTop = s; } return; }
    case Intrinsic::eh_typeid_for: r = {(u64)typeId(a[0].c), 0}; return;
    case Intrinsic::threadlocal_address: r = a[0]; return;
    case Intrinsic::objectsize: r = {maskw(w), 0}; return; case Intrinsic::is_constant: r = {0, 0}; return;
    case Intrinsic::vastart: { Frame &f = frames.back(); u64 ap = a[0].c; chk(ap, 24, true); if (!f.vaArea) errPath("internal", "va_start without variadic area"); u64 st = f.vaArea; // [u32 gp][u32 fp][ptr overflow][ptr regsave] prepared at call time
      copyMem(ap, st, 24); return; }
    case Intrinsic::vaend: return; case Intrinsic::vacopy: copyMem(a[0].c, a[1].c, 24); return;
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::sqrt: case Intrinsic::nearbyint: {
      u64 v = concretize(a[0], w, "math intrinsic"); double x = fpv(v, w), y; switch (ci.iid) { case Intrinsic::floor: y = floor(x); break; case Intrinsic::ceil: y = ceil(x); break; case Intrinsic::trunc: y = trunc(x); break; case Intrinsic::round: y = round(x); break; case Intrinsic::sqrt: y = sqrt(x); break; default: y = rint(x); } r = {w == 32 ? fb((float)y) : db(y), 0}; return; }
    default: incomplete("unsupported intrinsic " + ci.F->getName().str()); endPath(false);
  }
}
static void doCall(DI &d) {
  Frame &f = frames.back(); CallI &ci = *(CallI *)d.aux; unsigned n = ci.args.size(); Val a[32]; if (n > 32) { incomplete("too many call arguments"); endPath(false); }
  for (unsigned i = 0; i < n; i++) a[i] = gv(f, ci.args[i]);
  if (ci.iid) { Val r{0, 0}; intrinsic(ci, a, n, r); Frame &g = frames.back(); setRes(g, d.dst, r); if (ci.normal >= 0) takeEdge(g, ci.normal); else g.pc++; return; }
  FnInfo *fi; void *raw = 0;
  if (ci.F) fi = getFn(ci.F);
  else { u64 t = concretize(gv(f, ci.fop), 64, "call target"); auto it = fnByAddr.find(t); if (it != fnByAddr.end()) fi = it->second; else { fi = 0; raw = (void *)t; if (t < 0x10000 || inArena(t)) errPath("memory", "call through an invalid function pointer (" + descAddr(t) + ")"); } }
  if (raw) { Dl_info di; if (dladdr(raw, &di) && di.dli_saddr == raw && di.dli_sname) { Function *G = M->getFunction(di.dli_sname); if (G && !G->isDeclaration()) { fi = getFn(G); raw = 0; } } } // a library function the harness defines
  if (fi && !fi->resolved) {
    fi->resolved = true; auto it = models.find(fi->name); if (it != models.end()) fi->model = it->second;
    else if (fi->F->isDeclaration()) { bool cp; if (nativeAllowed(fi->name, cp)) { fi->native = dlsym(RTLD_DEFAULT, fi->name.c_str()); fi->nativeMode = cp; } }
  }
  if (fi && !fi->model && !fi->F->isDeclaration()) {
    if (f.fi == 0) abort();
    u64 va = 0;
    if (fi->F->isVarArg()) { // SysV register save area + overflow area
      unsigned np = fi->F->arg_size(); u64 sv = sTop; (void)sv; pushFrame(fi, a, np, d.dst, ci.normal, ci.unwind);
      unsigned gp = 0, fp = 0; for (unsigned i = 0; i < np; i++) if (ci.isFp[i]) fp++; else gp++;
      u64 ap = stackAlloc(24, 16), rs = stackAlloc(176, 16), ov = stackAlloc(16 + 8 * 40, 16); va = ap; unsigned g0 = gp < 6 ? gp : 6, f0 = fp < 8 ? fp : 8, o = gp > 6 ? 8 * (gp - 6) : 0; unsigned oo = 0; (void)o;
      for (unsigned i = np; i < n; i++) { if (ci.byval[i]) { u64 k = (ci.byval[i] + 7) & ~7ull; copyMem(ov + oo, concretize(a[i], 64, "byval"), ci.byval[i]); oo += k; continue; } if (ci.at[i]->agg) { TyInfo *t = ci.at[i]; Agg *g = a[i].agg();
            // first-class aggregate vararg: each leaf is passed as a separate argument
            for (size_t q = 0; q < t->leaves.size(); q++) { Expr *e = ex(g->v[q], t->leaves[q].w); if (e->w < 64) e = P.zext(e, 64); if (gp < 6) { storeC(rs + 8 * gp, mkv(e), 8, 64); gp++; } else { storeC(ov + oo, mkv(e), 8, 64); oo += 8; } } continue; }
        Expr *e = ex(a[i], ci.at[i]->w); if (e->w < 64) e = P.zext(e, 64);
        if (ci.isFp[i]) { if (fp < 8) { storeC(rs + 48 + 16 * fp, mkv(e), 8, 64); fp++; } else { storeC(ov + oo, mkv(e), 8, 64); oo += 8; } }
        else if (gp < 6) { storeC(rs + 8 * gp, mkv(e), 8, 64); gp++; } else { storeC(ov + oo, mkv(e), 8, 64); oo += 8; } if (oo > 8 * 40) { incomplete("too many variadic arguments"); endPath(false); } }
      *(u32 *)ap = 8 * g0; *(u32 *)(ap + 4) = 48 + 16 * f0; *(u64 *)(ap + 8) = ov; *(u64 *)(ap + 16) = rs; frames.back().vaArea = va; return;
    }
    pushFrame(fi, a, n, d.dst, ci.normal, ci.unwind); return;
  }
  Val r{0, 0};
  if (fi && fi->model) {
    if (fi->idx < sizeof(SH->fnBits) && inEntry) {}
    fi->model(ci, a, n, r);
  }
  else if (fi && (fi->name == "__cxa_allocate_exception")) { u64 sz = a[0].c; u64 p = allocFrom(hTop, sz + 64, 16); memset((void *)p, 0, sz); objs[p] = {p, sz + 64, 'e', false, 0}; r = {p, 0}; }
  else if (fi && (fi->name == "__cxa_free_exception")) {}
  else if (fi && fi->name == "__cxa_throw") { excTypes[a[0].c] = a[1].c; excSt[a[0].c] = ExcSt(); excSt[a[0].c].dtor = a[2].c; unwind(a[0].c, a[1].c, ci.unwind); return; }
  else if (fi && fi->name == "__cxa_begin_catch") { caught.push_back(a[0].c); ExcSt &x = excSt[a[0].c]; x.handlers++; x.rethrown = false; r = a[0]; }
  else if (fi && fi->name == "__cxa_end_catch") {
    if (!caught.empty()) { u64 o = caught.back(); caught.pop_back(); ExcSt &x = excSt[o];
      if (--x.handlers == 0 && !x.rethrown && x.dtor) { auto it = fnByAddr.find(x.dtor); x.dtor = 0; if (it != fnByAddr.end() && !it->second->F->isDeclaration()) { Val o1[1] = {{o, 0}}; pushFrame(it->second, o1, 1, d.dst, ci.normal, ci.unwind); return; } } } }
  else if (fi && fi->name == "__cxa_get_exception_ptr") { r = a[0]; }
  else if (fi && fi->name == "__cxa_rethrow") { u64 o = caught.empty() ? 0 : caught.back(); if (o) excSt[o].rethrown = true; unwind(o, excTypes[o], ci.unwind); return; }
  else if (fi && fi->native) { r = {nativeCall(fi->native, ci, a, n, fi->nativeMode), 0}; }
  else if (!fi && raw) { Dl_info di; if (!dladdr(raw, &di)) errPath("memory", "call through an invalid function pointer"); r = {nativeCall(raw, ci, a, n, true), 0}; }
  else { incomplete("call to an external function without a model: " + fi->name + " from " + trace().substr(0, 80)); if (optVerbose) fprintf(stderr, "  trace %s\n", trace().c_str()); endPath(false); }
  Frame &g = frames.back(); setRes(g, d.dst, r); if (ci.normal >= 0) takeEdge(g, ci.normal); else g.pc++;
}
static Expr *fcmpE(unsigned p, Expr *a, Expr *b) {
  auto oeq = [&] { return P.mk(O_FOEQ, 1, a, b); }; auto olt = [&] { return P.mk(O_FOLT, 1, a, b); }; auto ole = [&] { return P.mk(O_FOLE, 1, a, b); }; auto ogt = [&] { return P.mk(O_FOLT, 1, b, a); }; auto oge = [&] { return P.mk(O_FOLE, 1, b, a); }; auto uno = [&] { return P.mk(O_FUNO, 1, a, b); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return P.cst(0, 1); case CmpInst::FCMP_TRUE: return P.cst(1, 1);
    case CmpInst::FCMP_OEQ: return oeq(); case CmpInst::FCMP_OGT: return ogt(); case CmpInst::FCMP_OGE: return oge(); case CmpInst::FCMP_OLT: return olt(); case CmpInst::FCMP_OLE: return ole();
    case CmpInst::FCMP_ONE: return P.bin(O_AND, P.not_(oeq()), P.not_(uno())); case CmpInst::FCMP_ORD: return P.not_(uno()); case CmpInst::FCMP_UNO: return uno();
    case CmpInst::FCMP_UEQ: return P.bin(O_OR, oeq(), uno()); case CmpInst::FCMP_UGT: return P.not_(ole()); case CmpInst::FCMP_UGE: return P.not_(olt()); case CmpInst::FCMP_ULT: return P.not_(oge()); case CmpInst::FCMP_ULE: return P.not_(ogt()); case CmpInst::FCMP_UNE: return P.not_(oeq());
  }
  abort();
}
static bool cmpC(unsigned p, u64 a, u64 b, unsigned w) {
  switch (p) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w); case CmpInst::ICMP_SGE: return sx(a, w) >= sx(b, w); case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w); default: return sx(a, w) <= sx(b, w); } }
static Expr *cmpE(unsigned p, Expr *a, Expr *b) {
  switch (p) { case CmpInst::ICMP_EQ: return P.cmp(O_EQ, a, b); case CmpInst::ICMP_NE: return P.not_(P.cmp(O_EQ, a, b)); case CmpInst::ICMP_UGT: return P.cmp(O_ULT, b, a); case CmpInst::ICMP_UGE: return P.cmp(O_ULE, b, a); case CmpInst::ICMP_ULT: return P.cmp(O_ULT, a, b); case CmpInst::ICMP_ULE: return P.cmp(O_ULE, a, b);
    case CmpInst::ICMP_SGT: return P.cmp(O_SLT, b, a); case CmpInst::ICMP_SGE: return P.cmp(O_SLE, b, a); case CmpInst::ICMP_SLT: return P.cmp(O_SLT, a, b); default: return P.cmp(O_SLE, a, b); } }
static Val doBin(DI &d, Val x, Val y) {
  Op o = (Op)d.c; unsigned w = d.w;
  if (o >= O_UDIV && o <= O_SREM) {
    if (y.e) { if (branch(P.cmp(O_EQ, y.e, P.cst(0, w)))) errPath("arith", "division by zero"); }
    else if (y.c == 0) errPath("arith", "division by zero");
    if (o == O_SDIV || o == O_SREM) if (w >= 32) { Expr *ov = P.bin(O_AND, P.cmp(O_EQ, ex(x, w), P.cst(1ull << (w - 1), w)), P.cmp(O_EQ, ex(y, w), P.cst(~0ull, w))); if (branch(ov)) errPath("arith", "signed division overflow"); }
  }
  if (!x.e && !y.e) return {ExprPool::fold(o, w, 0, w, x.c, y.c, 0, w), 0};
  Expr *a = ex(x, w), *b = ex(y, w);
  return mkv(P.bin(o, a, b));
}
static void run(size_t stopDepth) {
  while (frames.size() > stopDepth) {
    Frame &f = frames.back(); DI &d = f.fi->code[f.pc]; localInstr++;
    if (++curSteps > optMaxSteps) { errPath("hang", "no termination within " + std::to_string(optMaxSteps) + " instructions"); }
    if ((curSteps & 0xfffff) == 0 && nowS() > deadline) { incomplete("time budget exhausted"); endPath(false); }
    Val *R = regs.data() + f.base; auto G = [&](int o) -> Val { return o >= 0 ? R[o] : f.fi->consts[-1 - o]; };
    switch (d.op) {
      case D_BIN: { Val r = doBin(d, G(d.a), G(d.b)); regs[f.base + d.dst] = r; f.pc++; break; }
      case D_CMP: { Val x = G(d.a), y = G(d.b); if (!x.e && !y.e) R[d.dst] = {cmpC(d.c, x.c, y.c, d.w), 0}; else R[d.dst] = mkv(cmpE(d.c, ex(x, d.w), ex(y, d.w))); f.pc++; break; }
      case D_FCMP: { Val x = G(d.a), y = G(d.b); R[d.dst] = mkv(fcmpE(d.c, ex(x, d.w), ex(y, d.w))); f.pc++; break; }
      case D_FNEG: { Val x = G(d.a); R[d.dst] = mkv(P.bin(O_XOR, ex(x, d.w), P.cst(1ull << (d.w - 1), d.w))); f.pc++; break; }
      case D_LOAD: { Val p = G(d.a); Val r = d.w ? loadV(p, d.w2, d.w) : loadT((TyInfo *)d.aux, p); regs[f.base + d.dst] = r; f.pc++; break; }
      case D_STORE: { Val p = G(d.a), v = G(d.b); if (d.w) storeV(p, v, d.w2, d.w); else storeT((TyInfo *)d.aux, p, v); f.pc++; break; }
      case D_GEP: { GepI *g = (GepI *)d.aux; Val b = G(d.a); u64 c = g->cofs; Expr *e = 0;
        for (auto &v : g->var) { Val x = G(std::get<0>(v)); unsigned w = std::get<2>(v); i64 s = std::get<1>(v); if (!x.e) c += (u64)(sx(x.c, w) * s); else { Expr *t = w < 64 ? P.sext(x.e, 64) : P.extract(x.e, 0, 64); t = P.bin(O_MUL, t, P.cst(s, 64)); e = e ? P.bin(O_ADD, e, t) : t; } }
        if (!b.e && !e) R[d.dst] = {b.c + c, 0}; else { Expr *r = b.e ? P.bin(O_ADD, b.e, P.cst(c, 64)) : P.cst(b.c + c, 64); if (e) r = P.bin(O_ADD, r, e); R[d.dst] = mkv(r); } f.pc++; break; }
      case D_CAST: { Val x = G(d.a); Expr *e = x.e; unsigned sw = d.w2, w = d.w;
        switch (d.c) {
          case Instruction::Trunc: R[d.dst] = e ? mkv(P.extract(e, 0, w)) : Val{x.c & maskw(w), 0}; break;
          case Instruction::ZExt: R[d.dst] = e ? mkv(P.zext(e, w)) : x; break;
          case Instruction::SExt: R[d.dst] = e ? mkv(P.sext(e, w)) : Val{(u64)sx(x.c, sw) & maskw(w), 0}; break;
          case Instruction::BitCast: case Instruction::AddrSpaceCast: R[d.dst] = x; break;
          case Instruction::PtrToInt: case Instruction::IntToPtr: if (w < sw) R[d.dst] = e ? mkv(P.extract(e, 0, w)) : Val{x.c & maskw(w), 0}; else R[d.dst] = e ? mkv(P.zext(e, w)) : x; break;
          case Instruction::FPToSI: R[d.dst] = mkv(P.mk(O_FPTOSI, w, ex(x, sw))); break;
          case Instruction::FPToUI: R[d.dst] = mkv(P.mk(O_FPTOUI, w, ex(x, sw))); break;
          case Instruction::SIToFP: R[d.dst] = mkv(P.mk(O_SITOFP, w, ex(x, sw))); break;
          case Instruction::UIToFP: R[d.dst] = mkv(P.mk(O_UITOFP, w, ex(x, sw))); break;
          case Instruction::FPTrunc: case Instruction::FPExt: R[d.dst] = mkv(P.mk(O_FPCVT, w, ex(x, sw))); break;
          default: incomplete("unsupported cast"); endPath(false);
        } f.pc++; break; }
      case D_SELECT: { Val c = G(d.a), x = G(d.b), y = G(d.c); if (!c.e) R[d.dst] = c.c ? x : y; else if (d.w2) { bool t = branch(c.e); regs[f.base + d.dst] = t ? x : y; } else R[d.dst] = mkv(P.ite(c.e, ex(x, d.w), ex(y, d.w))); f.pc++; break; }
      case D_BR: takeEdge(f, d.a); break;
      case D_CBR: { Val c = G(d.a); bool t = c.e ? branch(c.e) : c.c; takeEdge(f, t ? d.b : d.c); break; }
      case D_SWITCH: { Val v = G(d.a); SwI *s = (SwI *)d.aux; if (!v.e) { int e = s->def; for (auto &c : s->cases) if (c.first == v.c) { e = c.second; break; } takeEdge(f, e); break; }
        for (;;) { u64 x = P.eval(v.e); int e = s->def; for (auto &c : s->cases) if (c.first == x) { e = c.second; break; }
          int tpc = f.fi->edges[e].pc; Expr *cond;
          if (e == s->def) { cond = P.cst(1, 1); for (auto &c : s->cases) cond = P.bin(O_AND, cond, P.not_(P.cmp(O_EQ, v.e, P.cst(c.first, d.w)))); }
          else { cond = P.cst(0, 1); bool same = f.fi->edges[e].moves.empty(); for (auto &c : s->cases) if (c.second == e || (same && f.fi->edges[c.second].pc == tpc)) cond = P.bin(O_OR, cond, P.cmp(O_EQ, v.e, P.cst(c.first, d.w))); }
          if (branch(cond)) { takeEdge(f, e); break; } }
        break; }
      case D_RET: { Val r{0, 0}; if (d.b) r = G(d.a); int dst = f.dst, en = f.edgeNormal; popFrame(); if (frames.size() > stopDepth && !frames.empty()) { Frame &g = frames.back(); setRes(g, dst, r); if (en >= 0) takeEdge(g, en); else g.pc++; } break; }
      case D_CALL: doCall(d); break;
      case D_ALLOCA: { u64 n = concretize(G(d.a), d.w, "alloca size"); u64 a = stackAlloc(n * d.imm, d.b); regs[frames.back().base + d.dst] = {a, 0}; frames.back().pc++; break; }
      case D_EXTRACT: { Agg *g = G(d.a).agg(); if (d.b < 0) R[d.dst] = g->v[d.imm]; else { Agg *h = newAgg(d.b); for (int i = 0; i < d.b; i++) h->v[i] = g->v[d.imm + i]; R[d.dst] = {0, (Expr *)h}; } f.pc++; break; }
      case D_INSERT: { Agg *g = G(d.a).agg(); Agg *h = newAgg(g->n); memcpy(h->v, g->v, sizeof(Val) * g->n); Val v = G(d.b); if (d.c < 0) h->v[d.imm] = v; else for (int i = 0; i < d.c; i++) h->v[d.imm + i] = v.agg()->v[i]; R[d.dst] = {0, (Expr *)h}; f.pc++; break; }
      case D_COPY: R[d.dst] = G(d.a); f.pc++; break;
      case D_UNREACH: errPath("abort", "unreachable code executed");
      case D_LPAD: f.pc++; break;
      case D_RESUME: { Agg *g = G(d.a).agg(); u64 o = g->v[0].c; u64 ti = excTypes[o]; int eu = f.edgeUnwind; if (frames.size() == 1) errPath("exception", "uncaught exception"); popFrame(); unwind(o, ti, eu); break; }
      case D_VAARG: { u64 ap = concretize(G(d.a), 64, "va_list"); chk(ap, 24, true); TyInfo *t = (TyInfo *)d.aux; u64 src;
        if (t->agg) { src = *(u64 *)(ap + 8); *(u64 *)(ap + 8) = src + ((t->size + 7) & ~7ull); regs[f.base + d.dst] = loadT(t, {src, 0}); f.pc++; break; }
        if (d.w2) { u32 fo = *(u32 *)(ap + 4); if (fo < 176) { src = *(u64 *)(ap + 16) + fo; *(u32 *)(ap + 4) = fo + 16; } else { src = *(u64 *)(ap + 8); *(u64 *)(ap + 8) = src + 8; } }
        else { u32 go = *(u32 *)ap; if (go < 48) { src = *(u64 *)(ap + 16) + go; *(u32 *)ap = go + 8; } else { src = *(u64 *)(ap + 8); *(u64 *)(ap + 8) = src + 8; } }
        chk(src, t->leaves[0].size, false); regs[f.base + d.dst] = loadC(src, t->leaves[0].size, d.w); f.pc++; break; }
      case D_ATOMICRMW: { Val p = G(d.a), v = G(d.b); Val o = loadV(p, d.w2, d.w); Expr *x = ex(o, d.w), *y = ex(v, d.w), *r; switch (d.c) { case AtomicRMWInst::Add: r = P.bin(O_ADD, x, y); break; case AtomicRMWInst::Sub: r = P.bin(O_SUB, x, y); break; case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::And: r = P.bin(O_AND, x, y); break; case AtomicRMWInst::Or: r = P.bin(O_OR, x, y); break; default: incomplete("unsupported atomicrmw"); endPath(false); } storeV(p, mkv(r), d.w2, d.w); regs[f.base + d.dst] = o; f.pc++; break; }
      case D_CMPXCHG: { Val p = G(d.a); Val o = loadV(p, d.w2, d.w); bool eq = branch(P.cmp(O_EQ, ex(o, d.w), ex(gv(frames.back(), d.b), d.w))); if (eq) storeV(p, gv(frames.back(), d.c), d.w2, d.w); Agg *g = newAgg(2); g->v[0] = o; g->v[1] = {eq, 0}; regs[f.base + d.dst] = {0, (Expr *)g}; f.pc++; break; }
      default: incomplete(std::string("unsupported instruction: ") + std::string((char *)d.aux).substr(0, 90)); endPath(false);
    }
  }
}
static void segv(int, siginfo_t *si, void *) {
  char m[100]; snprintf(m, 100, "invalid access at native address %p", si->si_addr); signal(SIGSEGV, SIG_DFL); errPath("memory", m);
}
static void runEntry(const std::string &nm) {
  Function *F = M->getFunction(nm); if (!F || F->isDeclaration()) { incomplete("entry function not found: " + nm); endPath(false); }
  curSteps = 0; inEntry = true; std::vector<Val> av(F->arg_size(), Val{0, 0});
  pushFrame(getFn(F), av.data(), av.size(), -1, -1, -1); run(0); endPath(true);
}
static void dumpResult(FILE *f, EntryStats *e, const std::string &nm) {
  fprintf(f, "{\"entry\":\"%s\",\"paths\":%llu,\"forks\":%llu,\"instructions\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"asserts\":%llu,\"asserts_by_solver\":%llu,\"assume_drops\":%llu,\"violations\":%u,\"incomplete\":%llu,\"engine_errors\":%llu,\"wall_s\":%.3f,\"covers\":[",
    nm.c_str(), (unsigned long long)e->paths, (unsigned long long)e->forks, (unsigned long long)e->instrs, (unsigned long long)e->queries, (unsigned long long)e->qsat, (unsigned long long)e->qunsat, (unsigned long long)e->qunk, e->solverUs / 1e6, (unsigned long long)e->asserts, (unsigned long long)e->assertsSolver, (unsigned long long)e->assumeDrops, (unsigned)e->nviol, (unsigned long long)e->incomplete, (unsigned long long)e->engineErrors, e->wall);
  for (u32 i = 0; i < 64 && e->covers[i]; i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(e->coverNames[i]).c_str());
  fprintf(f, "],\"incomplete_msgs\":["); for (u32 i = 0; i < e->nIncomplete && i < 8; i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(e->incompleteMsg[i]).c_str());
  fprintf(f, "],\"samples\":["); for (u32 i = 0; i < e->nsample && i < 8; i++) { std::string s = e->sample[i]; fprintf(f, "%s\"%s\"", i ? "," : "", jesc(s).c_str()); } fprintf(f, "]}");
}
int main(int argc, char **argv) {
  std::vector<std::string> files, entries, libs;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "-entry") { std::string s = nx(); size_t p = 0; while (p <= s.size()) { size_t q = s.find(',', p); if (q == std::string::npos) q = s.size(); if (q > p) entries.push_back(s.substr(p, q - p)); p = q + 1; } }
    else if (a == "-out") optOut = nx(); else if (a == "-max-steps") optMaxSteps = atol(nx().c_str()); else if (a == "-max-time") optMaxTime = atof(nx().c_str()); else if (a == "-j") optJobs = atoi(nx().c_str());
    else if (a == "-rlimit") optRlimit = atol(nx().c_str()); else if (a == "-max-paths") optMaxPaths = atol(nx().c_str()); else if (a == "-max-enum") optMaxEnum = atol(nx().c_str()); else if (a == "-v") optVerbose = true; else if (a == "-t") optTrace = true; else if (a == "-load") libs.push_back(nx()); else files.push_back(a); }
  for (auto &l : libs) if (!dlopen(l.c_str(), RTLD_NOW | RTLD_GLOBAL)) fprintf(stderr, "dlopen: %s\n", dlerror());
  SMDiagnostic err; std::unique_ptr<Module> mod;
  for (auto &fn : files) { auto m2 = parseIRFile(fn, err, Ctx); if (!m2) { err.print("symex", errs()); return 3; } if (!mod) mod = std::move(m2); else { m2->setDataLayout(mod->getDataLayout()); m2->setTargetTriple(mod->getTargetTriple()); if (Linker::linkModules(*mod, std::move(m2))) { fprintf(stderr, "link error\n"); return 3; } } }
  M = mod.get(); DL = &M->getDataLayout();
  if (entries.size() == 1 && entries[0].back() == '*') { std::string pre = entries[0].substr(0, entries[0].size() - 1); entries.clear(); for (Function &F : *M) if (!F.isDeclaration() && F.getName().starts_with(pre)) entries.push_back(F.getName().str()); std::sort(entries.begin(), entries.end()); }
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sem_init(&SH->tokens, 1, optJobs);
  EntryStats *all = (EntryStats *)mmap(0, sizeof(EntryStats) * (entries.size() + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  ES = &all[entries.size()]; deadline = nowS() + optMaxTime; entryName = "_init";
  initMem(); initModels(); layoutGlobals(); regs.reserve(1 << 20); frames.reserve(1 << 14);
  static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
  Solver solver(P, optRlimit); S = &solver;
  { // static constructors, in a guarded way: a failing constructor ends the run
    for (const char *gn : {"llvm.global_ctors", "vx.global_ctors"}) if (GlobalVariable *g = M->getGlobalVariable(gn)) if (g->hasInitializer()) if (auto ca = dyn_cast<ConstantArray>(g->getInitializer())) {
      std::vector<std::pair<u64, Function *>> cs; for (auto &o : ca->operands()) { auto st = cast<ConstantStruct>(o); if (auto F = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), F}); }
      std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
      if (!solver.c) solver.init();
      for (auto &c : cs) { curSteps = 0; pushFrame(getFn(c.second), 0, 0, -1, -1, -1); run(0); } } }
  if (!solver.c) solver.init();
  localInstr = 0; std::vector<std::pair<pid_t, size_t>> kids; size_t done = 0; (void)done;
  auto reap = [&](bool block) { int st; pid_t p = waitpid(-1, &st, block ? 0 : WNOHANG); if (p > 0) for (auto &k : kids) if (k.first == p && st != 0) { all[k.second].engineErrors++; all[k.second].incomplete++; strcpy(all[k.second].incompleteMsg[0], "entry process crashed"); all[k.second].nIncomplete = 1; } return p > 0; };
  for (size_t i = 0; i < entries.size(); i++) {
    while (sem_wait(&SH->tokens) < 0); ES = &all[i]; entryName = entries[i]; fflush(stdout);
    pid_t p = fork();
    if (p == 0) { // entry root: sub-reaper for every path process of this entry
      prctl(PR_SET_CHILD_SUBREAPER, 1); double t0 = nowS(); fflush(stdout); pid_t q = fork();
      if (q == 0) { prctl(PR_SET_CHILD_SUBREAPER, 0); ownToken = true; runEntry(entries[i]); }
      int st; pid_t z; while ((z = waitpid(-1, &st, 0)) > 0 || errno == EINTR) if (z > 0) childStatus(st);
      ES->wall = nowS() - t0; _exit(0); }
    kids.push_back({p, i}); while (reap(false));
  }
  while (reap(true));
  FILE *f = fopen((optOut + "/result.json").c_str(), "w"); if (!f) { perror("result"); return 3; } fprintf(f, "{\"entries\":["); for (size_t i = 0; i < entries.size(); i++) { if (i) fprintf(f, ",\n"); dumpResult(f, &all[i], entries[i]); }
  fprintf(f, "],\n\"functions\":["); bool first = true; for (auto fi : fns) if (fi->idx < sizeof(SH->fnBits) && SH->fnBits[fi->idx]) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(demangle(fi->name)).c_str()); first = false; } fprintf(f, "]}\n"); fclose(f);
  if (optVerbose) for (size_t i = 0; i < entries.size(); i++) { dumpResult(stderr, &all[i], entries[i]); fputc('\n', stderr); }
  return 0;
}
