// ---------------------------------------------------------------- library models
#define MODEL(nm) static void m_##nm(CallI &ci, Val *a, unsigned n, Val &r)
static u64 C(Val *a, unsigned i, unsigned w, const char *why) { return concretize(a[i], w, why); }
MODEL(malloc) { r = {heapAlloc(C(a, 0, 64, "malloc size")), 0}; }
MODEL(calloc) { u64 k = C(a, 0, 64, "calloc") * C(a, 1, 64, "calloc"); u64 p = heapAlloc(k); memset((void *)p, 0, k); r = {p, 0}; }
MODEL(free) { heapFree(C(a, 0, 64, "free pointer")); }
MODEL(realloc) {
  u64 p = C(a, 0, 64, "realloc pointer"), sz = C(a, 1, 64, "realloc size");
  if (!p) { r = {heapAlloc(sz), 0}; return; }
  auto it = objs.find(p); if (it == objs.end() || it->second.kind != 'h' || it->second.freed) errPath("memory", "realloc of a pointer that is not a live heap block");
  u64 os = it->second.size, q = heapAlloc(sz); copyMem(q, p, std::min(os, sz)); heapFree(p); r = {q, 0};
}
MODEL(new) { r = {heapAlloc(C(a, 0, 64, "operator new size")), 0}; }
MODEL(memcpy) { u64 d = C(a, 0, 64, "memcpy dst"), s = C(a, 1, 64, "memcpy src"), k = C(a, 2, 64, "memcpy size"); copyMem(d, s, k); r = {d, 0}; }
MODEL(memset) { u64 d = C(a, 0, 64, "memset dst"), k = C(a, 2, ci.at[2]->w, "memset size"); if (k) chk(d, k, true);
  if (a[1].e) { Expr *b = P.extract(a[1].e, 0, 8); for (u64 i = 0; i < k; i++) storeC(d + i, mkv(b), 1, 8); } else { memset((void *)d, (int)a[1].c, k); clearSym(d, k); } r = {d, 0}; }
MODEL(memcmp) {
  u64 p = C(a, 0, 64, "memcmp"), q = C(a, 1, 64, "memcmp"), k = C(a, 2, 64, "memcmp size"); if (k) { chk(p, k, false); chk(q, k, false); }
  for (u64 i = 0; i < k; i++) { Val x = loadC(p + i, 1, 8), y = loadC(q + i, 1, 8);
    if (!x.e && !y.e) { if (x.c != y.c) { r = {(u64)(u32)(x.c < y.c ? -1 : 1), 0}; return; } continue; }
    Expr *ex1 = ex(x, 8), *ey = ex(y, 8);
    if (!branch(P.cmp(O_EQ, ex1, ey))) { r = {(u64)(u32)(branch(P.cmp(O_ULT, ex1, ey)) ? -1 : 1), 0}; return; } }
  r = {0, 0};
}
MODEL(nop) { r = {0, 0}; }
MODEL(abort) { errPath("abort", "abort/terminate called"); }
MODEL(exit) { errPath("abort", "exit called"); }
MODEL(stdthrow) { errPath("exception", std::string("library exception: ") + demangle(ci.F ? ci.F->getName().str() : "?")); }
MODEL(guard_acquire) { u64 p = a[0].c; chk(p, 1, true); r = {*(u8 *)p ? 0ull : 1ull, 0}; }
MODEL(guard_release) { *(u8 *)a[0].c = 1; }
// --- harness interface
MODEL(vx_sym) {
  u64 p = C(a, 0, 64, "vx_sym"), k = C(a, 1, 64, "vx_sym"); std::string nm = cstr(C(a, 2, 64, "name")); chk(p, k, true); Input in; in.name = nm;
  if (k == 1 || k == 2 || k == 4 || k == 8) { Expr *e = P.sym(nm, k * 8); in.parts.push_back(e); storeC(p, mkv(e), k, k * 8); }
  else for (u64 i = 0; i < k; i++) { Expr *e = P.sym(nm + "[" + std::to_string(i) + "]", 8); in.parts.push_back(e); storeC(p + i, mkv(e), 1, 8); }
  inputs.push_back(in);
}
static void symW(Val *a, Val &r, unsigned w, bool hasName = true) { std::string nm = hasName ? cstr(a[0].c) : "v"; Expr *e = P.sym(nm, w); Input in; in.name = nm; in.parts.push_back(e); inputs.push_back(in); r = mkv(e); }
MODEL(vx_u8) { symW(a, r, 8); } MODEL(vx_u16) { symW(a, r, 16); } MODEL(vx_u32) { symW(a, r, 32); } MODEL(vx_u64) { symW(a, r, 64); }
MODEL(vx_bool) { std::string nm = cstr(a[0].c); Expr *e = P.sym(nm, 8); Input in; in.name = nm; in.parts.push_back(e); inputs.push_back(in); assumeExpr(P.cmp(O_ULT, e, P.cst(2, 8))); r = mkv(P.extract(e, 0, ci.rt->w)); }
// vx_range(lo, hi, name): a symbolic 32-bit integer in [lo,hi]
MODEL(vx_range) { i64 lo = sx(a[0].c, 32), hi = sx(a[1].c, 32); std::string nm = cstr(a[2].c); Expr *e = P.sym(nm, 32); Input in; in.name = nm; in.parts.push_back(e); addDom(e, (u64)lo, (u64)(hi - lo + 1)); inputs.push_back(in);
  assumeExpr(P.cmp(O_ULE, P.bin(O_SUB, e, P.cst(lo, 32)), P.cst(hi - lo, 32))); r = mkv(e); }
// vx_choose(n, name): a symbolic value below n, made concrete by forking over every feasible value
MODEL(vx_choose) { std::string nm = cstr(a[1].c); u64 k = C(a, 0, 32, "choose"); Expr *e = P.sym(nm, 32); Input in; in.name = nm; in.parts.push_back(e); inputs.push_back(in);
  // a fresh variable: every value below k is feasible, so no query is needed
  u64 v = 0; std::unordered_map<u32, u64> m; while (v + 1 < k && !forkPath()) v++;
  addPC(P.cmp(O_EQ, e, P.cst(v, 32))); m[(u32)e->val] = v; applyModel(m); r = {v, 0}; }
MODEL(vx_fork) { r = {concretize(a[0], 32, "vx_fork"), 0}; }
static Expr *asB(CallI &ci, Val *a, unsigned i) { unsigned w = ci.at[i]->w; Expr *e = ex(a[i], w); return w == 1 ? e : P.not_(P.cmp(O_EQ, e, P.cst(0, w))); }
MODEL(vx_assume) { assumeExpr(asB(ci, a, 0)); }
MODEL(vx_assert) { assertExpr(asB(ci, a, 0), cstr(a[1].c)); }
MODEL(vx_fail) { nAsserts++; errPath("assert", cstr(a[0].c)); }
MODEL(vx_cover) { std::string nm = cstr(a[0].c); u64 h = hashStr(nm); for (int i = 0; i < 64; i++) { u64 c = ES->covers[i]; if (c == h) return; if (!c) { u64 z = 0; if (ES->covers[i].compare_exchange_strong(z, h)) { strncpy(ES->coverNames[i], nm.c_str(), 47); ES->ncover++; return; } if (z == h) return; } } }
MODEL(vx_note) { pathNotes.push_back(cstr(a[0].c)); }
MODEL(vx_note_i) { char b[200]; u64 v = a[1].e ? P.eval(a[1].e) : a[1].c; snprintf(b, 200, "%s=%lld%s", cstr(a[0].c).c_str(), (long long)sx(v, ci.at[1]->w), a[1].e ? "*" : ""); pathNotes.push_back(b); if (optTrace) fprintf(stderr, "[note] %s\n", b); }
MODEL(vx_live) { r = {(u64)liveHeap & maskw(ci.rt->w), 0}; }
MODEL(vx_end) { endPath(true); }
MODEL(vx_symbolic) { r = {1, 0}; }
// memory validity of [p,p+n): used to state validity obligations explicitly
MODEL(vx_check) { u64 p = C(a, 0, 64, "vx_check"), k = C(a, 1, 64, "vx_check"); if (k) chk(p, k, false); }
MODEL(vx_overlap) { if (a[0].e || a[1].e) return; u64 d = a[0].c, s = a[1].c, k = concretize(a[2], 64, "overlap"); if (d < s + k && s < d + k) errPath("memory", "copy between overlapping ranges"); }
MODEL(vx_freed) { u64 p = C(a, 0, 64, "vx_freed"); const Obj *o = findObj(p); r = {o && o->freed ? 1ull : 0ull, 0}; }
// --- formatted output (concrete arguments only)
static u64 nativeCall(void *fn, CallI &ci, Val *a, unsigned n, bool ptrCheck);
MODEL(puts_nop) { r = {0, 0}; }
MODEL(sqrt) { u64 x = C(a, 0, 64, "sqrt argument"); r = {db(sqrt(bd(x))), 0}; }

static Expr *exf(Val v, unsigned w) { return ex(v, w); }
MODEL(fmod) { r = mkv(P.bin(O_FREM, exf(a[0], 64), exf(a[1], 64))); }
MODEL(fmodf) { r = mkv(P.bin(O_FREM, exf(a[0], 32), exf(a[1], 32))); }

static void initModels() {
  auto add = [&](std::initializer_list<const char *> l, ModelFn f) { for (auto s : l) models[s] = f; };
  add({"malloc"}, m_malloc); add({"calloc"}, m_calloc); add({"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}, m_free); add({"realloc"}, m_realloc);
  add({"_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t"}, m_new); add({"memcpy", "memmove"}, m_memcpy); add({"memset"}, m_memset); add({"memcmp", "bcmp"}, m_memcmp);
  add({"__cxa_atexit", "__cxa_thread_atexit", "atexit", "__cxa_guard_abort", "fflush", "_ZNSo5flushEv", "pthread_mutex_lock", "pthread_mutex_unlock", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"}, m_nop);
  add({"abort", "_ZSt9terminatev", "__assert_fail", "__cxa_pure_virtual", "__clang_call_terminate", "__stack_chk_fail"}, m_abort); add({"exit", "_exit"}, m_exit);
  add({"__cxa_guard_acquire"}, m_guard_acquire); add({"__cxa_guard_release"}, m_guard_release);
  add({"vx_sym"}, m_vx_sym); add({"vx_u8"}, m_vx_u8); add({"vx_u16"}, m_vx_u16); add({"vx_u32"}, m_vx_u32); add({"vx_u64"}, m_vx_u64); add({"vx_bool"}, m_vx_bool); add({"vx_f64"}, m_vx_u64); add({"vx_f32"}, m_vx_u32);
  add({"vx_range"}, m_vx_range); add({"vx_choose"}, m_vx_choose); add({"vx_fork"}, m_vx_fork); add({"vx_assume"}, m_vx_assume); add({"vx_assert"}, m_vx_assert); add({"vx_fail"}, m_vx_fail); add({"vx_cover"}, m_vx_cover);
  add({"vx_note"}, m_vx_note); add({"vx_note_i"}, m_vx_note_i); add({"vx_live"}, m_vx_live); add({"vx_end"}, m_vx_end); add({"vx_symbolic"}, m_vx_symbolic); add({"vx_check"}, m_vx_check); add({"vx_freed"}, m_vx_freed); add({"vx_overlap"}, m_vx_overlap);
  add({"printf", "puts", "putchar", "fputs", "fwrite", "fputc", "putc", "perror", "fprintf"}, m_puts_nop);
  for (const char *s : {"_ZSt20__throw_length_errorPKc", "_ZSt19__throw_logic_errorPKc", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt17__throw_bad_allocv", "_ZSt25__throw_bad_function_callv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt24__throw_invalid_argumentPKc", "_ZSt16__throw_bad_castv", "__cxa_bad_cast", "__cxa_throw_bad_array_new_length"}) models[s] = m_stdthrow;
  models["sqrt"] = m_sqrt; models["fmod"] = m_fmod; models["fmodf"] = m_fmodf;
}
