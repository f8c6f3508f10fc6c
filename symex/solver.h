// Z3 back end: lowering of Expr to Z3 bit-vectors / floating point, and queries
// over independent slices of the path condition.
#pragma once
#include "expr.h"
#include "lia.h"
#include <time.h>
#include <unistd.h>

static inline double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

enum SatRes { SAT, UNSAT, UNKNOWN };

struct Solver {
  ExprPool &P; Z3_context c = 0; Z3_solver sBv = 0, sFp = 0, sQuick = 0, sLia = 0; u64 nlia = 0; unsigned rlimit; u64 nq = 0, nsat = 0, nunsat = 0, nunk = 0; double tq = 0;
  std::unordered_map<u32, Z3_ast> symAst; bool unsupported = false;
  bool logic = true;
  // Divisions by constants are lowered to their definition x = c*q + r with fresh
  // q and r; `defs` has the defining constraints of each such Expr.
  struct DivDef { Z3_ast q, r, def; }; std::map<std::tuple<bool, Expr *, u64>, DivDef> divs;
  std::unordered_map<Expr *, std::vector<DivDef *>> divMemo;
  DivDef *divDef(Expr *e) {
    bool sg = e->op == O_SDIV || e->op == O_SREM; unsigned w = e->w; u64 d = e->k[1]->val;
    auto key = std::make_tuple(sg, e->k[0], d); auto it = divs.find(key); if (it != divs.end()) return &it->second;
    unsigned rb = 1; while (rb < w && (d - 1) >> rb) rb++;
    Z3_ast x = lower(e->k[0]), C = Z3_mk_unsigned_int64(c, d, bv(w)), q = Z3_mk_fresh_const(c, "q", bv(w)), r0 = Z3_mk_fresh_const(c, "r", bv(rb)), r1 = rb < w ? Z3_mk_zero_ext(c, w - rb, r0) : r0, r = r1;
    Z3_ast rl = Z3_mk_bvult(c, r0, Z3_mk_unsigned_int64(c, d, bv(rb))), z = Z3_mk_unsigned_int64(c, 0, bv(w));
    bool full = rb < 64 && d == (1ull << rb);
    Z3_ast a[6]; int n = 0; if (!full) a[n++] = rl;
    if (sg) {
      Z3_ast neg = Z3_mk_bvslt(c, x, z); r = Z3_mk_ite(c, neg, Z3_mk_bvneg(c, r1), r1);
      u64 mx = maskw(w) >> 1; i64 lo = -(i64)((mx + 1) / d), hi = (i64)(mx / d);
      a[n++] = Z3_mk_bvsle(c, Z3_mk_int64(c, lo, bv(w)), q); a[n++] = Z3_mk_bvsle(c, q, Z3_mk_int64(c, hi, bv(w)));
      // the quotient has the sign of the dividend
      a[n++] = Z3_mk_ite(c, neg, Z3_mk_bvsle(c, q, z), Z3_mk_bvsge(c, q, z));
      // no wrap at the ends of the range
      Z3_ast rmin = Z3_mk_unsigned_int64(c, (mx + 1) % d, bv(w)), rmax = Z3_mk_unsigned_int64(c, mx % d, bv(w));
      a[n++] = Z3_mk_ite(c, neg, Z3_mk_implies(c, Z3_mk_eq(c, q, Z3_mk_int64(c, lo, bv(w))), Z3_mk_bvule(c, r1, rmin)), Z3_mk_implies(c, Z3_mk_eq(c, q, Z3_mk_int64(c, hi, bv(w))), Z3_mk_bvule(c, r1, rmax)));
    } else {
      u64 hi = maskw(w) / d; a[n++] = Z3_mk_bvule(c, q, Z3_mk_unsigned_int64(c, hi, bv(w)));
      a[n++] = Z3_mk_implies(c, Z3_mk_eq(c, q, Z3_mk_unsigned_int64(c, hi, bv(w))), Z3_mk_bvule(c, r1, Z3_mk_unsigned_int64(c, maskw(w) % d, bv(w))));
    }
    Z3_ast eq = Z3_mk_eq(c, x, Z3_mk_bvadd(c, Z3_mk_bvmul(c, q, C), r));
    a[n++] = eq;
    return &(divs[key] = DivDef{q, r, Z3_mk_and(c, n, a)});
  }
  static bool constDiv(Expr *e) {
    if (e->op < O_UDIV || e->op > O_SREM || !ExprPool::isC(e->k[1]) || e->w < 16 || e->w > 64) return false;
    u64 d = e->k[1]->val; return d > 1 && d <= (maskw(e->w) >> 1);
  }
  // the division definitions that e depends on
  const std::vector<DivDef *> &divset(Expr *e) {
    auto it = divMemo.find(e); if (it != divMemo.end()) return it->second;
    std::vector<DivDef *> r; std::vector<Expr *> st{e}; std::unordered_set<Expr *> seen;
    while (!st.empty()) {
      Expr *x = st.back(); st.pop_back(); if (!x->hasDiv || !seen.insert(x).second) continue;
      if (x != e) { auto m = divMemo.find(x); if (m != divMemo.end()) { r.insert(r.end(), m->second.begin(), m->second.end()); continue; } }
      if (constDiv(x)) r.push_back(divDef(x));
      for (int i = 0; i < 3; i++) if (x->k[i]) st.push_back(x->k[i]);
    }
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
    return divMemo[e] = r;
  }
  Solver(ExprPool &p, unsigned rl) : P(p), rlimit(rl) {}
  static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
  void init() {
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
    c = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(c, onErr);
    auto mk = [&](Z3_solver s, unsigned rlimit) { Z3_solver_inc_ref(c, s); Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
      Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "rlimit"), rlimit); Z3_solver_set_params(c, s, p); return s; };
    sQuick = mk(Z3_mk_simple_solver(c), 100000); // most queries are tiny: an attempt with a small budget comes first
    sLia = mk(Z3_mk_simple_solver(c), 3000000);
    sBv = mk(Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV")), rlimit);
    sFp = mk(Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_FPBV")), rlimit);
  }
  Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(c, w); }
  Z3_sort fs(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(c) : Z3_mk_fpa_sort_64(c); }
  Z3_ast toFp(Z3_ast b, unsigned w) { return Z3_mk_fpa_to_fp_bv(c, b, fs(w)); }
  Z3_ast toBv(Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(c, f); }
  Z3_ast one(bool v) { return Z3_mk_unsigned_int64(c, v, bv(1)); }
  Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(c, b, one(1), one(0)); }
  Z3_ast asBool(Expr *e) { return lowerB(e); }
  std::unordered_map<Expr *, Z3_ast> boolMemo;
  // width-1 expressions as Z3 booleans
  Z3_ast lowerB(Expr *e) {
    auto it = boolMemo.find(e); if (it != boolMemo.end()) return it->second;
    Z3_ast r;
    switch (e->op) {
      case O_CONST: r = e->val ? Z3_mk_true(c) : Z3_mk_false(c); break;
      case O_EQ: r = e->k[0]->w == 1 ? Z3_mk_eq(c, lowerB(e->k[0]), lowerB(e->k[1])) : Z3_mk_eq(c, lower(e->k[0]), lower(e->k[1])); break;
      case O_ULT: r = Z3_mk_bvult(c, lower(e->k[0]), lower(e->k[1])); break;
      case O_ULE: r = Z3_mk_bvule(c, lower(e->k[0]), lower(e->k[1])); break;
      case O_SLT: r = Z3_mk_bvslt(c, lower(e->k[0]), lower(e->k[1])); break;
      case O_SLE: r = Z3_mk_bvsle(c, lower(e->k[0]), lower(e->k[1])); break;
      case O_FOEQ: r = Z3_mk_fpa_eq(c, lf(e->k[0]), lf(e->k[1])); break;
      case O_FOLT: r = Z3_mk_fpa_lt(c, lf(e->k[0]), lf(e->k[1])); break;
      case O_FOLE: r = Z3_mk_fpa_leq(c, lf(e->k[0]), lf(e->k[1])); break;
      case O_FUNO: { Z3_ast a[2] = {Z3_mk_fpa_is_nan(c, lf(e->k[0])), Z3_mk_fpa_is_nan(c, lf(e->k[1]))}; r = Z3_mk_or(c, 2, a); break; }
      case O_AND: { Z3_ast a[2] = {lowerB(e->k[0]), lowerB(e->k[1])}; r = Z3_mk_and(c, 2, a); break; }
      case O_OR: { Z3_ast a[2] = {lowerB(e->k[0]), lowerB(e->k[1])}; r = Z3_mk_or(c, 2, a); break; }
      case O_XOR: if (ExprPool::isC(e->k[1], 1)) r = Z3_mk_not(c, lowerB(e->k[0])); else r = Z3_mk_xor(c, lowerB(e->k[0]), lowerB(e->k[1])); break;
      case O_ITE: r = Z3_mk_ite(c, lowerB(e->k[0]), lowerB(e->k[1]), lowerB(e->k[2])); break;
      default: r = Z3_mk_eq(c, lowerX(e), one(1));
    }
    boolMemo[e] = r; return r;
  }
  Z3_ast lf(Expr *e) { return toFp(lower(e), e->w); }
  Z3_ast lower(Expr *e) {
    if (e->z) return e->z;
    // pre-lower deep chains iteratively
    std::vector<Expr *> st{e};
    while (!st.empty()) {
      Expr *x = st.back(); if (x->z) { st.pop_back(); continue; }
      bool ready = true;
      for (int i = 0; i < 3; i++) if (x->k[i] && !x->k[i]->z) { ready = false; st.push_back(x->k[i]); }
      if (!ready) continue;
      st.pop_back();
      if (x->w == 1 && x->op != O_SYM && x->op != O_CONST && x->op != O_EXTRACT) x->z = b2bv(lowerB(x)); else x->z = lowerX(x);
    }
    return e->z;
  }
  Z3_ast fpc(double d, unsigned w) { return w == 32 ? Z3_mk_fpa_numeral_float(c, (float)d, fs(32)) : Z3_mk_fpa_numeral_double(c, d, fs(64)); }
  Z3_ast rne() { return Z3_mk_fpa_rne(c); } Z3_ast rtz() { return Z3_mk_fpa_rtz(c); }
  Z3_ast lowerX(Expr *e) {
    Expr **k = e->k; unsigned w = e->w;
    if (constDiv(e)) { DivDef *d = divDef(e); return e->op == O_UDIV || e->op == O_SDIV ? d->q : d->r; }
    switch (e->op) {
      case O_CONST: return Z3_mk_unsigned_int64(c, e->val, bv(w));
      case O_SYM: { auto it = symAst.find((u32)e->val); if (it != symAst.end()) return it->second;
        char b[32]; snprintf(b, 32, "s%u", (u32)e->val);
        Z3_ast a = Z3_mk_const(c, Z3_mk_string_symbol(c, b), bv(w)); symAst[(u32)e->val] = a; return a; }
      case O_ADD: return Z3_mk_bvadd(c, lower(k[0]), lower(k[1]));
      case O_SUB: return Z3_mk_bvsub(c, lower(k[0]), lower(k[1]));
      case O_MUL: return Z3_mk_bvmul(c, lower(k[0]), lower(k[1]));
      case O_UDIV: return Z3_mk_bvudiv(c, lower(k[0]), lower(k[1]));
      case O_SDIV: return Z3_mk_bvsdiv(c, lower(k[0]), lower(k[1]));
      case O_UREM: return Z3_mk_bvurem(c, lower(k[0]), lower(k[1]));
      case O_SREM: return Z3_mk_bvsrem(c, lower(k[0]), lower(k[1]));
      case O_AND: return Z3_mk_bvand(c, lower(k[0]), lower(k[1]));
      case O_OR: return Z3_mk_bvor(c, lower(k[0]), lower(k[1]));
      case O_XOR: return Z3_mk_bvxor(c, lower(k[0]), lower(k[1]));
      case O_SHL: return Z3_mk_bvshl(c, lower(k[0]), lower(k[1]));
      case O_LSHR: return Z3_mk_bvlshr(c, lower(k[0]), lower(k[1]));
      case O_ASHR: return Z3_mk_bvashr(c, lower(k[0]), lower(k[1]));
      case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: case O_FOEQ: case O_FOLT: case O_FOLE: case O_FUNO: return b2bv(lowerB(e));
      case O_ITE: return Z3_mk_ite(c, lowerB(k[0]), lower(k[1]), lower(k[2]));
      case O_CONCAT: return Z3_mk_concat(c, lower(k[0]), lower(k[1]));
      case O_EXTRACT: return Z3_mk_extract(c, e->aux + w - 1, e->aux, lower(k[0]));
      case O_ZEXT: return Z3_mk_zero_ext(c, w - k[0]->w, lower(k[0]));
      case O_SEXT: return Z3_mk_sign_ext(c, w - k[0]->w, lower(k[0]));
      case O_FADD: return toBv(Z3_mk_fpa_add(c, rne(), lf(k[0]), lf(k[1])));
      case O_FSUB: return toBv(Z3_mk_fpa_sub(c, rne(), lf(k[0]), lf(k[1])));
      case O_FMUL: return toBv(Z3_mk_fpa_mul(c, rne(), lf(k[0]), lf(k[1])));
      case O_FDIV: return toBv(Z3_mk_fpa_div(c, rne(), lf(k[0]), lf(k[1])));
      case O_FPCVT: return toBv(Z3_mk_fpa_to_fp_float(c, rne(), lf(k[0]), fs(w)));
      case O_SITOFP: return toBv(Z3_mk_fpa_to_fp_signed(c, rne(), lower(k[0]), fs(w)));
      case O_UITOFP: return toBv(Z3_mk_fpa_to_fp_unsigned(c, rne(), lower(k[0]), fs(w)));
      case O_FPTOSI: case O_FPTOUI: {
        unsigned kw = k[0]->w; Z3_ast f = lf(k[0]);
        unsigned cw = (e->op == O_FPTOSI ? w <= 32 : w < 32) ? 32 : 64;
        auto sconv = [&](Z3_ast x) {
          Z3_ast in[3] = { cw == 32 ? Z3_mk_fpa_gt(c, x, fpc(kw == 64 ? -2147483649.0 : -2147483904.0, kw)) : Z3_mk_fpa_geq(c, x, fpc(-9223372036854775808.0, kw)),
                           Z3_mk_fpa_lt(c, x, fpc(cw == 32 ? 2147483648.0 : 9223372036854775808.0, kw)), Z3_mk_not(c, Z3_mk_fpa_is_nan(c, x)) };
          return Z3_mk_ite(c, Z3_mk_and(c, 3, in), Z3_mk_fpa_to_sbv(c, rtz(), x, cw), Z3_mk_unsigned_int64(c, 1ull << (cw - 1), bv(cw))); };
        Z3_ast r = sconv(f);
        if (e->op == O_FPTOUI && w == 64) {
          Z3_ast in[2] = { Z3_mk_fpa_geq(c, f, fpc(9223372036854775808.0, kw)), Z3_mk_fpa_lt(c, f, fpc(18446744073709551616.0, kw)) };
          r = Z3_mk_ite(c, Z3_mk_and(c, 2, in), Z3_mk_fpa_to_ubv(c, rtz(), f, 64), r);
        }
        return w == cw ? r : Z3_mk_extract(c, w - 1, 0, r); }
      default: unsupported = true; return Z3_mk_const(c, Z3_mk_fresh_const(c, "unsup", bv(w)) ? Z3_mk_string_symbol(c, "unsup") : 0, bv(w));
    }
  }
  SatRes tryLia(const std::vector<Expr *> &cs, const std::vector<u32> &sy, std::unordered_map<u32, u64> &out) {
    Z3_solver_reset(c, sLia); Lia l(P, c, sLia); std::unordered_map<u32, u64> cand; int r = l.run(cs, cand);
    if (r == 0) { nlia++; return UNSAT; }
    if (r != 1) return UNKNOWN;
    // the integer view over-approximates: its model counts only if the constraints hold on it
    std::vector<u64> saved = P.model; for (auto y : sy) { if (y >= P.model.size()) P.model.resize(y + 1); P.model[y] = cand.count(y) ? cand[y] : 0; }
    P.bumpModel(); bool ok = true; for (auto e : cs) if (!(P.eval(e) & 1)) { ok = false; break; }
    P.model = saved; P.bumpModel(); if (!ok) return UNKNOWN;
    for (auto y : sy) out[y] = cand.count(y) ? cand[y] : 0;
    nlia++; return SAT;
  }
  // Solve conj(cs); on SAT fills out[sym]=value for symbols in cs.
  SatRes check(const std::vector<Expr *> &cs, std::unordered_map<u32, u64> &out) {
    double t0 = nowS(); nq++;
    bool fp = false, dv = false; for (auto e : cs) fp |= e->hasFp, dv |= e->hasDiv;
    unsupported = false;
    std::vector<u32> sy; std::vector<Z3_ast> as;
    for (auto e : cs) { as.push_back(lowerB(e)); auto &ss = P.symset(e); sy.insert(sy.end(), ss.begin(), ss.end()); }
    if (dv) { std::vector<DivDef *> ds; for (auto e : cs) if (e->hasDiv) { auto &d = divset(e); ds.insert(ds.end(), d.begin(), d.end()); }
      std::sort(ds.begin(), ds.end()); ds.erase(std::unique(ds.begin(), ds.end()), ds.end()); for (auto d : ds) as.push_back(d->def); }
    std::sort(sy.begin(), sy.end()); sy.erase(std::unique(sy.begin(), sy.end()), sy.end());
    SatRes res = UNKNOWN; bool lia = false;
    for (Z3_solver s : {fp ? sFp : sQuick, sBv}) {
      if (dv && s == sQuick) { res = tryLia(cs, sy, out); lia = true; if (res != UNKNOWN) break; continue; }
      if (s == sBv && !fp && !lia) { res = tryLia(cs, sy, out); lia = true; if (res != UNKNOWN) break; }
      if (unsupported || (fp && s == sBv)) break;
      Z3_solver_reset(c, s); for (auto a : as) Z3_solver_assert(c, s, a);
      Z3_lbool r = Z3_solver_check(c, s);
      res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
      if (res == SAT) {
        Z3_model m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
        for (u32 y : sy) { auto it = symAst.find(y); if (it == symAst.end()) continue;
          Z3_ast v = 0; u64 x = 0; if (Z3_model_eval(c, m, it->second, true, &v) && Z3_get_ast_kind(c, v) == Z3_NUMERAL_AST) Z3_get_numeral_uint64(c, v, (uint64_t *)&x);
          out[y] = x; }
        Z3_model_dec_ref(c, m);
      }
      if (res != UNKNOWN) break;
    }
    if (res == UNKNOWN && getenv("VX_DUMP")) { static int k = 0; char b[256]; snprintf(b, 256, "%s/q%d_%d.smt2", getenv("VX_DUMP"), (int)getpid(), k++); FILE *f = fopen(b, "w"); Z3_solver_reset(c, sBv); for (auto a : as) Z3_solver_assert(c, sBv, a); fputs(Z3_solver_to_string(c, sBv), f); fputs("(check-sat)\n", f); fclose(f); }
    if (getenv("VX_SLOW") && nowS() - t0 > 3) { fprintf(stderr, "slow query %.1fs -> %d (%zu conjuncts, fp %d, div %d)\n", nowS() - t0, res, cs.size(), fp, dv); for (auto e : cs) fprintf(stderr, "   %s\n", P.str(e, 7).substr(0, 300).c_str()); }
    tq += nowS() - t0;
    if (res == SAT) nsat++; else if (res == UNSAT) nunsat++; else nunk++;
    return res;
  }
};
