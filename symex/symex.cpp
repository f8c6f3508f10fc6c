// A KLEE-style symbolic executor for LLVM 18 bitcode over real host memory.
// Path forking is done with fork(2); branch feasibility and assertions are
// decided by Z3 over the path condition. See /verif/DESIGN.md.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <semaphore.h>
#include <signal.h>
#include <unistd.h>
#include <dlfcn.h>
#include <errno.h>
#include <cxxabi.h>
#include <atomic>
#include <map>
#include <functional>
using namespace llvm;

// ---------------------------------------------------------------- options
static unsigned optMaxSteps = 20000000, optRlimit = 40000000, optJobs = 8, optMaxPaths = 2000000, optMaxEnum = 600;
static double optMaxTime = 800; static bool optVerbose = false; static std::string optOut = "."; static bool optTrace = false;

// ---------------------------------------------------------------- shared state
struct EntryStats {
  std::atomic<u64> paths, instrs, forks, queries, qsat, qunsat, qunk, asserts, assertsSolver, assumeDrops, pathErrors, incomplete;
  std::atomic<u64> solverUs; std::atomic<u32> nviol; std::atomic<u64> violKeys[64]; std::atomic<u64> covers[64]; std::atomic<u32> ncover;
  char coverNames[64][48]; std::atomic_flag lock; char incompleteMsg[8][160]; std::atomic<u32> nIncomplete; char sample[8][3000]; std::atomic<u32> nsample; double wall;
  std::atomic<u64> engineErrors;
};
struct Shared { sem_t tokens; std::atomic<u64> violFiles; u8 fnBits[1 << 16]; };
static Shared *SH; static EntryStats *ES; // current entry
static double deadline;

static u64 hashStr(const std::string &s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h ? h : 1; }
static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

// ---------------------------------------------------------------- memory
static const u64 ABASE = 0x100000000000ull, ASIZE = 1ull << 33;
static const u64 G_OFF = 0, G_SIZE = 1ull << 29, C_OFF = 1ull << 29, C_SIZE = 1ull << 28, RO_OFF = (1ull << 29) + (1ull << 28), RO_SIZE = 1ull << 28,
                 S_OFF = 1ull << 30, S_SIZE = 1ull << 30, H_OFF = 1ull << 31;
static u8 *shadowA;              // 1 byte per 8 bytes of arena
static Expr ***symPages;         // per 4K page
static u64 gTop, roTop, sTop, hTop;
struct Obj { u64 base, size; u8 kind; bool freed; u32 serial; };
static std::map<u64, Obj> objs;  // heap + globals
static i64 liveHeap = 0; static u32 heapSerial = 0;

static inline bool inArena(u64 a) { return a - ABASE < ASIZE; }
static void unpoison(u64 a, u64 n) { u64 i = (a - ABASE) >> 3; memset(shadowA + i, 8, n >> 3); if (n & 7) shadowA[i + (n >> 3)] = n & 7; }
static void poison(u64 a, u64 n) { u64 i = (a - ABASE) >> 3; memset(shadowA + i, 0, (n + 7) >> 3); }
static inline bool okAccess(u64 a, u64 n) {
  u64 o = a - ABASE; u8 s = shadowA[o >> 3]; u64 in = o & 7;
  if (in + n <= 8) return s >= in + n;
  u64 end = o + n;
  if (s != 8) return false;
  for (u64 g = (o >> 3) + 1; g < end >> 3; g++) if (shadowA[g] != 8) return false;
  if (end & 7) return shadowA[end >> 3] >= (end & 7);
  return true;
}
static inline Expr **symPage(u64 a) { return inArena(a) ? symPages[(a - ABASE) >> 12] : 0; }
static bool anySym(u64 a, u64 n) {
  while (n) { u64 off = a & 4095, m = std::min<u64>(n, 4096 - off); Expr **p = symPage(a);
    if (p) for (u64 i = 0; i < m; i++) if (p[off + i]) return true;
    a += m; n -= m; }
  return false;
}
static void clearSym(u64 a, u64 n) {
  while (n) { u64 off = a & 4095, m = std::min<u64>(n, 4096 - off); Expr **p = symPage(a); if (p) memset(p + off, 0, m * sizeof(Expr *)); a += m; n -= m; }
}
static void initMem() {
  void *r = mmap((void *)ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (r != (void *)ABASE) { fprintf(stderr, "symex: cannot reserve arena\n"); exit(3); }
  mprotect((void *)(ABASE + C_OFF), C_SIZE, PROT_NONE);
  shadowA = (u8 *)mmap(0, ASIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  symPages = (Expr ***)mmap(0, (ASIZE >> 12) * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  gTop = ABASE + G_OFF + 4096; roTop = ABASE + RO_OFF + 4096; sTop = ABASE + S_OFF + 4096; hTop = ABASE + H_OFF + 4096;
}
static u64 allocFrom(u64 &top, u64 size, u64 align) {
  if (align < 16) align = 16;
  top = (top + align - 1) & ~(align - 1); u64 a = top; u64 rz = size > 256 ? std::min<u64>(size / 2, 4096) : 48;
  top = (a + size + rz + 15) & ~15ull; unpoison(a, size); return a;
}

// ---------------------------------------------------------------- values & code
struct Agg;
struct Val { u64 c; Expr *e; Agg *agg() const { return (Agg *)e; } };
struct Agg { unsigned n; Val v[1]; };
static Agg *newAgg(unsigned n) { Agg *a = (Agg *)calloc(1, sizeof(Agg) + sizeof(Val) * n); a->n = n; return a; }

struct Leaf { u32 off; u8 size, w; };
struct TyInfo { bool agg, bad; u64 size; u8 w; unsigned align; std::vector<Leaf> leaves; };

struct Edge { int pc; std::vector<std::pair<int, int>> moves; };
struct GepI { i64 cofs; std::vector<std::tuple<int, i64, u8>> var; };
struct FnInfo;
struct CallI { Function *F; int fop; std::vector<int> args; std::vector<TyInfo *> at; std::vector<u8> isFp; TyInfo *rt; bool rFp; int normal, unwind; std::vector<u64> byval; bool isVar; const char *iname; unsigned iid; };
struct SwI { std::vector<std::pair<u64, int>> cases; int def; };
struct LpI { bool cleanup; std::vector<std::pair<int, int>> clauses; /*kind(0 catch,1 filter), op*/ };
struct IdxI { unsigned off, n; };
struct DI { u16 op; u8 w, w2; int dst, a, b, c; i64 imm; void *aux; };
enum { D_BIN = 1000, D_CMP, D_FCMP, D_LOAD, D_STORE, D_GEP, D_CAST, D_SELECT, D_BR, D_CBR, D_SWITCH, D_RET, D_CALL, D_ALLOCA, D_EXTRACT, D_INSERT, D_UNREACH, D_LPAD, D_RESUME, D_VAARG, D_FNEG, D_COPY, D_UNSUP, D_ATOMICRMW, D_CMPXCHG, D_FENCE };

typedef void (*ModelFn)(CallI &ci, Val *args, unsigned n, Val &ret);
struct FnInfo { Function *F; unsigned idx; u64 addr; std::vector<DI> code; std::vector<Edge> edges; std::vector<Val> consts; int nregs; bool decoded; ModelFn model; void *native; bool resolved; std::string name; u8 nativeMode; std::vector<u64> byval; };

static LLVMContext Ctx; static Module *M; static const DataLayout *DL;
static std::unordered_map<Type *, TyInfo *> tyCache; static std::unordered_map<const GlobalValue *, u64> gaddr;
static std::vector<FnInfo *> fns; static std::unordered_map<const Function *, FnInfo *> fnOf; static std::unordered_map<u64, FnInfo *> fnByAddr;
static ExprPool P; static Solver *S;

struct Frame { FnInfo *fi; size_t base; int pc; int dst; u64 sSave; int edgeNormal, edgeUnwind; bool isCtor; u64 vaArea; };
static std::vector<Val> regs; static std::vector<Frame> frames;
static std::vector<Expr *> pc; static std::unordered_set<Expr *> pcSet;
struct Input { std::string name; std::vector<Expr *> parts; std::vector<u8> cbytes; };
static std::vector<Input> inputs; static u64 steps = 0; static bool ownToken = true; static std::vector<std::string> pathNotes;
static u64 localInstr = 0; static u64 curSteps = 0; static std::string entryName; static bool inEntry = false;
static u64 curForks = 0; static u64 nAsserts = 0, nAssertsSolver = 0;

[[noreturn]] static void endPath(bool completed);
static std::string initMsg;
static void incomplete(const std::string &m);
static std::string trace();

static bool isFpTy(Type *t) { return t->isFloatTy() || t->isDoubleTy(); }
static TyInfo *ty(Type *t) {
  auto it = tyCache.find(t); if (it != tyCache.end()) return it->second;
  TyInfo *r = new TyInfo(); r->agg = false; r->bad = false; r->w = 0; r->size = 0; r->align = 1; tyCache[t] = r;
  if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy() || t->isFunctionTy()) return r;
  if (!t->isSized()) { r->bad = true; return r; }
  r->size = DL->getTypeAllocSize(t); r->align = DL->getABITypeAlign(t).value();
  if (t->isIntegerTy()) { r->w = t->getIntegerBitWidth() <= 64 ? t->getIntegerBitWidth() : 0; if (!r->w) r->bad = true; r->leaves.push_back({0, (u8)DL->getTypeStoreSize(t), r->w}); return r; }
  if (t->isPointerTy()) { r->w = 64; r->leaves.push_back({0, 8, 64}); return r; }
  if (t->isFloatTy()) { r->w = 32; r->leaves.push_back({0, 4, 32}); return r; }
  if (t->isDoubleTy()) { r->w = 64; r->leaves.push_back({0, 8, 64}); return r; }
  r->agg = true;
  std::function<void(Type *, u64)> go = [&](Type *x, u64 off) {
    if (auto st = dyn_cast<StructType>(x)) { auto sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) go(st->getElementType(i), off + (u64)sl->getElementOffset(i)); return; }
    if (auto at = dyn_cast<ArrayType>(x)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) { go(at->getElementType(), off + i * es); if (r->leaves.size() > 100000) { r->bad = true; return; } } return; }
    if (auto vt = dyn_cast<FixedVectorType>(x)) { u64 es = DL->getTypeAllocSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) go(vt->getElementType(), off + i * es); return; }
    TyInfo *s = ty(x); if (s->bad || s->agg) { r->bad = true; return; }
    r->leaves.push_back({(u32)off, s->leaves[0].size, s->w});
  };
  go(t, 0); return r;
}
static unsigned leafCount(Type *t) { TyInfo *i = ty(t); return i->leaves.size(); }
static unsigned leafIndex(Type *t, ArrayRef<unsigned> idx, Type *&res) {
  unsigned o = 0;
  for (unsigned i : idx) {
    if (auto st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) o += leafCount(st->getElementType(j)); t = st->getElementType(i); }
    else if (auto at = dyn_cast<ArrayType>(t)) { o += i * leafCount(at->getElementType()); t = at->getElementType(); }
  }
  res = t; return o;
}

static Expr *ex(const Val &v, unsigned w) { return v.e ? v.e : P.cst(v.c, w); }
static Val mkv(Expr *e) { if (e->op == O_CONST) return {e->val, 0}; return {0, e}; }

// ---------------------------------------------------------------- path condition & forking
static std::vector<Expr *> slice(Expr *c) {
  std::vector<Expr *> out{c}; std::unordered_set<u32> sy; for (u32 s : P.symset(c)) sy.insert(s);
  std::vector<char> used(pc.size(), 0); bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { auto &ss = P.symset(pc[i]); bool hit = false; for (u32 s : ss) if (sy.count(s)) { hit = true; break; }
      if (hit) { used[i] = 1; ch = true; out.push_back(pc[i]); for (u32 s : ss) sy.insert(s); } } }
  return out;
}
static std::unordered_map<std::string, int> qcache; // only UNSAT results cached
static SatRes query(Expr *c, std::unordered_map<u32, u64> &m) {
  if (c->op == O_CONST && !c->val) return UNSAT;
  auto sl = slice(c);
  std::vector<u32> ids; for (auto e : sl) ids.push_back(e->id); std::sort(ids.begin(), ids.end());
  std::string key((char *)ids.data(), ids.size() * 4);
  auto it = qcache.find(key); if (it != qcache.end()) return UNSAT;
  SatRes r = S->check(sl, m); if (r == UNSAT) qcache[key] = 1;
  return r;
}
static void applyModel(const std::unordered_map<u32, u64> &m) { for (auto &kv : m) { if (P.model.size() <= kv.first) P.model.resize(kv.first + 1, 0); P.model[kv.first] = kv.second; } P.bumpModel(); }
// Inputs with a small range also carry the set of values that the path condition's constraints on that input alone leave: a branch condition over one such
// input is decided on that set (exactly, unless the input also occurs in constraints with others: then a value that satisfies all of them, the other inputs
// being as in the current model, shows feasibility, no value at all shows infeasibility, and the SMT solver decides the rest). Assertions always go to the SMT solver.
struct Dom { std::vector<u32> v; bool multi = false; };
static std::unordered_map<u32, Dom> doms; static std::vector<Expr *> pcMulti;
static void addDom(Expr *sym, u64 lo, u64 n) { if (n > 2048) return; Dom d; for (u64 i = 0; i < n; i++) d.v.push_back((u32)(lo + i)); doms[(u32)sym->val] = d; }
static Dom *domOf(Expr *c, u32 &s) { auto &ss = P.symset(c); if (ss.size() != 1) return 0; s = ss[0]; auto it = doms.find(s); return it == doms.end() ? 0 : &it->second; }
template<class F> static void overDom(Dom *d, u32 s, Expr *c, F f) {
  if (P.model.size() <= s) P.model.resize(s + 1, 0); u64 old = P.model[s];
  for (u32 x : d->v) { P.model[s] = x; P.bumpModel(); if (!f(x, P.eval(c) & 1)) break; } P.model[s] = old; P.bumpModel(); }
static SatRes domQuery(Expr *c, std::unordered_map<u32, u64> &m) {
  for (u32 s : P.symset(c)) { auto it = doms.find(s); if (it == doms.end()) continue; Dom *d = &it->second; bool any = false, found = false; u32 w = 0;
    overDom(d, s, c, [&](u32 x, bool t) { if (!t) return true; any = true;
      if (d->multi) for (Expr *e : pcMulti) if (!(P.eval(e) & 1)) return true; // a witness has to satisfy the constraints over several inputs too
      found = true; w = x; return false; });
    if (found) { m[s] = w; return SAT; } if (!any && P.symset(c).size() == 1) return UNSAT; }
  auto &ss = P.symset(c); if (ss.size() != 2) return UNKNOWN;
  u32 s = ss[0], t = ss[1]; auto is = doms.find(s), it = doms.find(t); if (is == doms.end() || it == doms.end() || is->second.v.size() * it->second.v.size() > 16384) return UNKNOWN;
  bool any = false, found = false; u32 ws = 0, wt = 0;
  overDom(&is->second, s, c, [&](u32 x, bool) { overDom(&it->second, t, c, [&](u32 y, bool h) { if (!h) return true; any = true;
    for (Expr *e : pcMulti) if (!(P.eval(e) & 1)) return true;
    found = true; ws = x; wt = y; return false; }); return !found; });
  if (found) { m[s] = ws; m[t] = wt; return SAT; } return any ? UNKNOWN : UNSAT; }
static void addPC(Expr *c) {
  if (c->op == O_CONST) return;
  if (c->op == O_AND && c->w == 1) { addPC(c->k[0]); addPC(c->k[1]); return; }
  if (!pcSet.insert(c).second) return;
  pc.push_back(c); u32 s; Dom *d = domOf(c, s);
  if (d) { std::vector<u32> k; overDom(d, s, c, [&](u32 x, bool t) { if (t) k.push_back(x); return true; }); d->v = k; }
  else for (u32 y : P.symset(c)) { auto it = doms.find(y); if (it != doms.end()) it->second.multi = true; }
  if (P.symset(c).size() > 1) pcMulti.push_back(c);
}
static void flushStats() {
  ES->instrs += localInstr; localInstr = 0; ES->queries += S->nq; ES->qsat += S->nsat; ES->qunsat += S->nunsat; ES->qunk += S->nunk; ES->solverUs += (u64)(S->tq * 1e6);
  ES->asserts += nAsserts; ES->assertsSolver += nAssertsSolver; nAsserts = nAssertsSolver = 0;
  S->nq = S->nsat = S->nunsat = S->nunk = 0; S->tq = 0;
}
static void childStatus(int st) { if (st != 0) { ES->engineErrors++; incomplete("engine process ended abnormally"); } }
// returns true in the child
static bool forkPath() {
  ES->forks++;
  if (ES->paths + ES->forks > 2ull * optMaxPaths + 1000 || nowS() > deadline) { incomplete("path or time budget exhausted"); return false; }
  flushStats();
  bool conc = sem_trywait(&SH->tokens) == 0;
  fflush(stdout); fflush(stderr);
  pid_t p; int tries = 0;
  while ((p = fork()) < 0) { if (++tries > 200) { incomplete("fork failed"); if (conc) sem_post(&SH->tokens); return false; } usleep(20000); int st; while (waitpid(-1, &st, WNOHANG) > 0) childStatus(st); }
  if (p == 0) { ownToken = conc; prctl(PR_SET_CHILD_SUBREAPER, 0); return true; }
  if (!conc) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR); childStatus(st); }
  else { int st; pid_t q; while ((q = waitpid(-1, &st, WNOHANG)) > 0) childStatus(st); }
  return false;
}
static bool branch(Expr *c) {
  if (c->op == O_CONST) return c->val;
  Expr *n = P.not_(c);
  if (pcSet.count(c)) return true; if (pcSet.count(n)) return false;
  bool d = P.eval(c); Expr *mine = d ? c : n, *other = d ? n : c;
  std::unordered_map<u32, u64> m; SatRes r = domQuery(other, m); if (r == UNKNOWN) r = query(other, m);
  if (r == UNSAT) { pcSet.insert(mine); return d; }
  if (r == UNKNOWN) { incomplete("solver gave up on a branch condition"); addPC(mine); return d; }
  if (forkPath()) { addPC(other); applyModel(m); return !d; }
  addPC(mine); return d;
}
static u64 concretize(const Val &v, unsigned w, const char *why) {
  if (!v.e) return v.c;
  for (unsigned i = 0;; i++) {
    u64 x = P.eval(v.e); if (i > optMaxEnum) { incomplete(std::string("too many values while enumerating ") + why); endPath(false); }
    if (branch(P.cmp(O_EQ, v.e, P.cst(x, w)))) return x;
  }
}

// ---------------------------------------------------------------- reporting
static std::string demangle(const std::string &n) { int st; char *d = abi::__cxa_demangle(n.c_str(), 0, 0, &st); if (st == 0 && d) { std::string r = d; free(d); return r; } return n; }
static std::string trace() { std::string s; int k = 0; for (size_t i = frames.size(); i-- > 0 && k < 14; k++) { if (k) s += " < "; std::string d = demangle(frames[i].fi->name); if (d.size() > 110) d = d.substr(0, 110) + ".."; s += d; } return s; }
static void incomplete(const std::string &m) {
  if (entryName == "_init") initMsg = m + " in " + trace();
  ES->incomplete++; std::string t = m + " @ " + (frames.empty() ? "" : demangle(frames.back().fi->name));
  while (ES->lock.test_and_set()); bool dup = false; for (u32 i = 0; i < ES->nIncomplete && i < 8; i++) if (!strncmp(ES->incompleteMsg[i], t.c_str(), 150)) dup = true;
  if (!dup && ES->nIncomplete < 8) { strncpy(ES->incompleteMsg[ES->nIncomplete], t.c_str(), 150); ES->nIncomplete++; } ES->lock.clear();
  if (optVerbose) fprintf(stderr, "[incomplete] %s\n", t.c_str());
}
static std::string inputsJson() {
  std::string s = "["; bool first = true;
  for (auto &in : inputs) { std::string hex; char b[4];
    for (auto e : in.parts) { u64 v = P.eval(e); for (unsigned i = 0; i < (e->w + 7) / 8; i++) { snprintf(b, 4, "%02x", (unsigned)(v >> (8 * i)) & 255); hex += b; } }
    for (u8 x : in.cbytes) { snprintf(b, 4, "%02x", x); hex += b; }
    s += std::string(first ? "" : ",") + "[\"" + jesc(in.name) + "\",\"" + hex + "\"]"; first = false; }
  return s + "]";
}
static void violation(const std::string &kind, const std::string &msg, const std::unordered_map<u32, u64> *m) {
  ES->pathErrors++;
  std::string keys = kind + "|" + msg + (kind == "assert" ? "" : "|" + (frames.empty() ? "" : frames.back().fi->name)); u64 key = hashStr(keys);
  bool dup = false; while (ES->lock.test_and_set());
  u32 n = ES->nviol; for (u32 i = 0; i < n; i++) if (ES->violKeys[i] == key) dup = true;
  if (!dup) { if (n < 64) { ES->violKeys[n] = key; ES->nviol++; } else dup = true; }
  ES->lock.clear(); if (dup) return;
  std::vector<u64> save = P.model; if (m) applyModel(*m);
  char fn[64]; snprintf(fn, 64, "/viol.%s.%u.json", "", (unsigned)n);
  std::string path = optOut + "/" + entryName + ".v" + std::to_string(n) + ".json"; FILE *f = fopen(path.c_str(), "w");
  if (f) { fprintf(f, "{\"entry\":\"%s\",\"kind\":\"%s\",\"message\":\"%s\",\"trace\":\"%s\",\"notes\":[", entryName.c_str(), kind.c_str(), jesc(msg).c_str(), jesc(trace()).c_str());
    for (size_t i = 0; i < pathNotes.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(pathNotes[i]).c_str());
    fprintf(f, "],\"inputs\":%s}\n", inputsJson().c_str()); fclose(f); }
  if (optVerbose) fprintf(stderr, "[violation] %s: %s @ %s inputs %s\n", kind.c_str(), msg.c_str(), trace().c_str(), inputsJson().c_str());
  P.model = save; P.bumpModel();
}
[[noreturn]] static void endPath(bool completed) {
  if (entryName == "_init") { fprintf(stderr, "symex: initialisation ended early: %s\n", initMsg.c_str()); _exit(4); }
  flushStats();
  if (completed) { u64 k = ES->paths++;
    if ((k & (k + 1)) == 0 || k < 3) { u32 i = ES->nsample++; if (i < 8) { std::string s = inputsJson(); strncpy(ES->sample[i], s.c_str(), 2999); } } }
  fflush(stdout); fflush(stderr);
  if (ownToken) sem_post(&SH->tokens);
  // concurrent children are reaped by the sub-reaper (entry root)
  _exit(0);
}
[[noreturn]] static void errPath(const std::string &kind, const std::string &msg) { if (entryName == "_init") initMsg = kind + " " + msg + " in " + trace(); violation(kind, msg, 0); endPath(true); }
static void assumeExpr(Expr *c) {
  if (c->op == O_CONST) { if (!c->val) { ES->assumeDrops++; endPath(false); } return; }
  if (pcSet.count(c)) return;
  if (!P.eval(c)) { std::unordered_map<u32, u64> m; SatRes r = domQuery(c, m); if (r == UNKNOWN) r = query(c, m);
    if (r == UNSAT) { ES->assumeDrops++; endPath(false); } if (r == UNKNOWN) { incomplete("solver gave up on an assumption"); endPath(false); } applyModel(m); }
  addPC(c);
}
static void assertExpr(Expr *c, const std::string &msg) {
  nAsserts++;
  if (c->op == O_CONST) { if (!c->val) errPath("assert", msg); return; }
  if (pcSet.count(c)) return;
  nAssertsSolver++;
  Expr *n = P.not_(c);
  if (!P.eval(c)) { violation("assert", msg, 0); }
  else {
    std::unordered_map<u32, u64> m; SatRes r = query(n, m);
    if (r == UNSAT) { pcSet.insert(c); return; }
    if (r == UNKNOWN) { incomplete("solver gave up on assertion: " + msg); return; }
    violation("assert", msg, &m);
  }
  std::unordered_map<u32, u64> m; if (!P.eval(c)) { if (query(c, m) != SAT) endPath(true); applyModel(m); } addPC(c);
}

// ---------------------------------------------------------------- memory access
static const Obj *findObj(u64 a) { auto it = objs.upper_bound(a); if (it == objs.begin()) return 0; --it; if (a < it->second.base + it->second.size + 64) return &it->second; return 0; }
static std::string descAddr(u64 a) {
  char b[160]; if (a < 0x10000) { snprintf(b, 160, "null-page address 0x%llx", (unsigned long long)a); return b; }
  const Obj *o = findObj(a);
  if (o && a < o->base + o->size + 64) return std::string(o->freed ? "freed " : "") + (o->kind == 'h' ? "heap block" : "global") + " (size " + std::to_string(o->size) + ", offset " + std::to_string((i64)(a - o->base)) + ")";
  if (inArena(a) && a - ABASE >= S_OFF && a - ABASE < H_OFF) return "stack area";
  return "unmapped address";
}
static void memErr(const char *what, u64 a, u64 n) { errPath("memory", std::string("invalid ") + what + " of " + std::to_string(n) + " bytes at " + descAddr(a)); }
static bool isRO(u64 a) { u64 o = a - ABASE; return o >= RO_OFF && o < RO_OFF + RO_SIZE; }
static inline void chk(u64 a, u64 n, bool wr) {
  if (inArena(a)) { if (!okAccess(a, n)) memErr(wr ? "write" : "read", a, n); if (wr && isRO(a)) errPath("memory", "write to constant memory"); }
  else if (a < 0x10000 || a >= 0x800000000000ull) memErr(wr ? "write" : "read", a, n);
}
static Expr *byteAt(u64 a) { Expr **p = symPage(a); if (p && p[a & 4095]) return p[a & 4095]; return 0; }
static Val loadC(u64 a, unsigned sz, unsigned w) { // checked already
  Expr **p = symPage(a); bool sym = false;
  if (__builtin_expect(p != 0, 0) || (inArena(a) && ((a & 4095) + sz > 4096))) for (unsigned i = 0; i < sz; i++) if (byteAt(a + i)) { sym = true; break; }
  if (!sym) { u64 v = 0; memcpy(&v, (void *)a, sz); return {v & maskw(w), 0}; }
  Expr *r = 0;
  for (unsigned i = 0; i < sz; i++) { Expr *b = byteAt(a + i); if (!b) b = P.cst(*(u8 *)(a + i), 8); r = r ? P.concat(b, r) : b; }
  if (w < r->w) r = P.extract(r, 0, w);
  return mkv(r);
}
static void storeC(u64 a, Val v, unsigned sz, unsigned w) {
  if (!v.e) { memcpy((void *)a, &v.c, sz); Expr **p = symPage(a); if (p || (a & 4095) + sz > 4096) clearSym(a, sz); return; }
  if (!inArena(a)) { incomplete("symbolic store outside the arena"); u64 x = concretize(v, w, "store"); memcpy((void *)a, &x, sz); return; }
  Expr *e = v.e; if (e->w < sz * 8) e = P.zext(e, sz * 8);
  for (unsigned i = 0; i < sz; i++) { u64 q = a + i; Expr *b = P.extract(e, 8 * i, 8); Expr **&pg = symPages[(q - ABASE) >> 12];
    if (b->op == O_CONST) { *(u8 *)q = b->val; if (pg) pg[q & 4095] = 0; continue; }
    if (!pg) pg = (Expr **)calloc(4096, sizeof(Expr *));
    pg[q & 4095] = b; }
}
// resolve a symbolic address to a single object; returns its bounds, forking error/other-object paths
static bool objBounds(u64 a, u64 &lo, u64 &hi) {
  const Obj *o = findObj(a); if (o && a >= o->base && a < o->base + o->size + 0 && !o->freed) { lo = o->base; hi = o->base + o->size; return true; }
  if (inArena(a) && a - ABASE >= S_OFF && a - ABASE < H_OFF && shadowA[(a - ABASE) >> 3]) {
    u64 g = (a - ABASE) >> 3, l = g, h = g; while (shadowA[l - 1] == 8) l--; while (shadowA[h] == 8) h++; lo = ABASE + l * 8; hi = ABASE + h * 8 + shadowA[h]; return true; }
  return false;
}
static Val loadS(Val av, unsigned sz, unsigned w) {
  for (;;) {
    u64 a = P.eval(av.e); u64 lo, hi;
    if (!objBounds(a, lo, hi) || hi - lo < sz) { if (branch(P.cmp(O_EQ, av.e, P.cst(a, 64)))) { chk(a, sz, false); return loadC(a, sz, w); } continue; }
    Expr *in = P.cmp(O_ULE, P.bin(O_SUB, av.e, P.cst(lo, 64)), P.cst(hi - lo - sz, 64));
    if (!branch(in)) continue;
    u64 n = hi - lo - sz + 1; unsigned stride = 1;
    if (n > 4096) { u64 c = concretize(av, 64, "address"); return loadC(c, sz, w); }
    // stride: low bits of the offset that are constant
    Expr *off = P.bin(O_SUB, av.e, P.cst(lo, 64)); while (stride < 64 && P.extract(off, __builtin_ctz(stride), 1)->op == O_CONST) stride *= 2;
    u64 first = P.eval(off) & (stride - 1); Val r{0, 0}; bool have = false; Expr *acc = 0;
    for (u64 o = first; o + sz <= hi - lo; o += stride) { Val x = loadC(lo + o, sz, w); Expr *xe = ex(x, w); acc = acc ? P.ite(P.cmp(O_EQ, off, P.cst(o, 64)), xe, acc) : xe; have = true; }
    (void)have; (void)r; return mkv(acc);
  }
}
static Val loadV(const Val &a, unsigned sz, unsigned w) { if (a.e) return loadS(a, sz, w); chk(a.c, sz, false); return loadC(a.c, sz, w); }
static void storeV(const Val &a, const Val &v, unsigned sz, unsigned w) { u64 x = a.e ? concretize(a, 64, "store address") : a.c; chk(x, sz, true); storeC(x, v, sz, w); }
static Val loadT(TyInfo *t, const Val &a) {
  if (!t->agg) return loadV(a, t->leaves[0].size, t->w);
  u64 x = a.e ? concretize(a, 64, "aggregate address") : a.c; Agg *g = newAgg(t->leaves.size());
  if (t->size) chk(x, t->size, false);
  for (size_t i = 0; i < t->leaves.size(); i++) g->v[i] = loadC(x + t->leaves[i].off, t->leaves[i].size, t->leaves[i].w);
  return {0, (Expr *)g};
}
static void storeT(TyInfo *t, const Val &a, const Val &v) {
  if (!t->agg) return storeV(a, v, t->leaves[0].size, t->w);
  u64 x = a.e ? concretize(a, 64, "aggregate address") : a.c; Agg *g = v.agg(); if (t->size) chk(x, t->size, true);
  for (size_t i = 0; i < t->leaves.size(); i++) storeC(x + t->leaves[i].off, g->v[i], t->leaves[i].size, t->leaves[i].w);
}
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n) return; chk(s, n, false); chk(d, n, true);
  bool sy = anySym(s, n); if (!sy) { memmove((void *)d, (void *)s, n); clearSym(d, n); return; }
  std::vector<Val> t(n); for (u64 i = 0; i < n; i++) t[i] = loadC(s + i, 1, 8);
  for (u64 i = 0; i < n; i++) storeC(d + i, t[i], 1, 8);
}
static u64 heapAlloc(u64 n) {
  if (n > (1ull << 28)) { errPath("memory", "allocation of " + std::to_string((i64)n) + " bytes"); }
  u64 a = allocFrom(hTop, n, 16); memset((void *)a, 0xA5, n); objs[a] = {a, n, 'h', false, ++heapSerial}; liveHeap++; return a;
}
static void heapFree(u64 a) {
  if (!a) return; auto it = objs.find(a);
  if (it == objs.end() || it->second.kind != 'h') { if (!inArena(a) && a >= 0x10000) { free((void *)a); return; } errPath("memory", "free of a pointer that is not a heap block (" + descAddr(a) + ")"); }
  if (it->second.freed) errPath("memory", "double free of heap block (size " + std::to_string(it->second.size) + ")");
  it->second.freed = true; poison(a, it->second.size); clearSym(a, it->second.size); memset((void *)a, 0xDD, it->second.size); liveHeap--;
}
static std::string cstr(u64 a) { std::string s; for (int i = 0; i < 4096; i++) { chk(a + i, 1, false); if (byteAt(a + i)) { s += '?'; continue; } char c = *(char *)(a + i); if (!c) break; s += c; } return s; }

#include "decode.inc"
#include "models.inc"
#include "run.inc"
