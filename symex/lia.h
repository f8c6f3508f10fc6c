// Linear integer view of a bit-vector query: an over-approximation used to prove
// queries infeasible (and, when its model checks out on the real constraints,
// feasible). Every Expr becomes a linear form congruent to it modulo 2^w; wrap
// counts appear only where an interval cannot exclude wrapping. Operations
// without a linear form become unconstrained values of their width.
#pragma once
#include "expr.h"
typedef __int128 i128;
struct Lia {
  ExprPool &P; Z3_context c; Z3_solver s; Z3_sort I; bool giveUp = false; int atoms = 0, budget = 4000;
  struct Lin { i128 k = 0; std::map<int, i128> t; };
  struct Iv { i128 lo, hi; };
  std::vector<Z3_ast> atomAst; std::vector<Iv> atomIv; std::unordered_map<u32, int> symAtom; std::unordered_map<u32, unsigned> symW;
  std::unordered_map<Expr *, Iv> refU, refS; std::unordered_map<Expr *, Lin> memo; std::unordered_map<Expr *, Lin> cU, cS; std::unordered_map<Expr *, Z3_ast> bmemo; std::map<std::tuple<bool, Expr *, u64>, std::pair<int, int>> divs;
  Lia(ExprPool &p, Z3_context c_, Z3_solver s_) : P(p), c(c_), s(s_) { I = Z3_mk_int_sort(c); }
  static i128 p2(unsigned n) { return (i128)1 << n; }
  Z3_ast num(i128 v) { bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : v; char b[64]; int i = 63; b[i] = 0; do { b[--i] = '0' + (int)(u % 10); u /= 10; } while (u); if (neg) b[--i] = '-'; return Z3_mk_numeral(c, b + i, I); }
  void add(Z3_ast a) { Z3_solver_assert(c, s, a); }
  int atom(i128 lo, i128 hi) { if (++atoms > budget) giveUp = true; Z3_ast a = Z3_mk_fresh_const(c, "i", I); atomAst.push_back(a); atomIv.push_back({lo, hi}); add(Z3_mk_ge(c, a, num(lo))); add(Z3_mk_le(c, a, num(hi))); return (int)atomAst.size() - 1; }
  static Lin of(int a) { Lin l; l.t[a] = 1; return l; }
  static Lin cst(i128 v) { Lin l; l.k = v; return l; }
  Lin mulc(const Lin &a, i128 m) { Lin r; if (!m) return r; if (big(a.k, m)) { giveUp = true; return r; } r.k = a.k * m; for (auto &x : a.t) { if (big(x.second, m)) { giveUp = true; return r; } r.t[x.first] = x.second * m; } return r; }
  static bool big(i128 a, i128 b) { auto l = [](i128 x) { if (x < 0) x = -x; int n = 0; while (x) { n++; x >>= 1; } return n; }; return l(a) + l(b) > 120; }
  static Lin add2(const Lin &a, const Lin &b, int sg = 1) { Lin r = a; r.k += sg * b.k; for (auto &x : b.t) { i128 &v = r.t[x.first]; v += sg * x.second; if (!v) r.t.erase(x.first); } return r; }
  Iv iv(const Lin &a) { Iv r{a.k, a.k}; for (auto &x : a.t) { Iv v = atomIv[x.first]; if (big(v.lo, x.second) || big(v.hi, x.second)) { giveUp = true; return r; } i128 p = v.lo * x.second, q = v.hi * x.second; r.lo += p < q ? p : q; r.hi += p < q ? q : p; } return r; }
  Z3_ast ast(const Lin &a) { std::vector<Z3_ast> v; for (auto &x : a.t) { if (x.second == 1) v.push_back(atomAst[x.first]); else { Z3_ast m[2] = {num(x.second), atomAst[x.first]}; v.push_back(Z3_mk_mul(c, 2, m)); } } if (a.k || v.empty()) v.push_back(num(a.k)); return v.size() == 1 ? v[0] : Z3_mk_add(c, v.size(), v.data()); }
  static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if (a % b && ((a < 0) != (b < 0))) q--; return q; }
  // the representative of l modulo 2^w that lies in [base, base + 2^w)
  Lin canon(Lin l, unsigned w, i128 base) {
    Iv v = iv(l); i128 m = p2(w), a = fdiv(v.lo - base, m), b = fdiv(v.hi - base, m);
    if (a == b) { l.k -= a * m; return l; }
    Lin r = add2(l, mulc(of(atom(a, b)), m), -1);
    // name the result: its interval is the width's
    int n = atom(base, base + m - 1); add(Z3_mk_eq(c, atomAst[n], ast(r))); return of(n);
  }
  void clampTo(Lin &l, Expr *e, bool sg) { // intervals from the path condition sharpen a single atom's interval
    auto &mp = sg ? refS : refU; auto it = mp.find(e); if (it == mp.end()) return;
    if (l.t.size() == 1 && l.t.begin()->second == 1) { Iv &v = atomIv[l.t.begin()->first]; i128 lo = it->second.lo - l.k, hi = it->second.hi - l.k; if (lo > v.lo) v.lo = lo; if (hi < v.hi) v.hi = hi; }
    else { Iv v = iv(l); if (it->second.lo > v.lo || it->second.hi < v.hi) { i128 lo = std::max(v.lo, it->second.lo), hi = std::min(v.hi, it->second.hi); if (lo > hi) hi = lo; int n = atom(std::max(v.lo, it->second.lo), std::min(v.hi, it->second.hi)); add(Z3_mk_eq(c, atomAst[n], ast(l))); l = of(n); } }
  }
  Lin U(Expr *e) { auto it = cU.find(e); if (it != cU.end()) return it->second; Lin r;
    auto rs = refS.find(e); bool viaS = rs != refS.end() && (rs->second.lo >= 0 || rs->second.hi < 0);
    if (viaS) { r = S(e); if (rs->second.hi < 0) r.k += p2(e->w); } else r = canon(lin(e), e->w, 0);
    clampTo(r, e, false); return cU[e] = r; }
  Lin S(Expr *e) { auto it = cS.find(e); if (it != cS.end()) return it->second; Lin r = canon(lin(e), e->w, -p2(e->w - 1)); clampTo(r, e, true); return cS[e] = r; }
  Lin lin(Expr *e) { auto it = memo.find(e); if (it != memo.end()) return it->second; if (giveUp) return Lin(); Lin r = lin0(e); return memo[e] = r; }
  Lin opaque(Expr *e) { return of(atom(0, p2(e->w) - 1)); }
  static i64 sxv(Expr *e) { return e->w == 64 ? (i64)e->val : ((i64)(e->val << (64 - e->w))) >> (64 - e->w); }
  int decide(Expr *b) { // 1 true, 0 false, -1 unknown, by intervals
    if (b->op == O_CONST) return b->val != 0;
    if (b->op == O_XOR && ExprPool::isC(b->k[1], 1)) { int d = decide(b->k[0]); return d < 0 ? d : !d; }
    if (b->op == O_ULT || b->op == O_ULE || b->op == O_SLT || b->op == O_SLE) {
      bool sg = b->op == O_SLT || b->op == O_SLE, le = b->op == O_ULE || b->op == O_SLE; Iv x = iv(sg ? S(b->k[0]) : U(b->k[0])), y = iv(sg ? S(b->k[1]) : U(b->k[1]));
      if (le) { if (x.hi <= y.lo) return 1; if (x.lo > y.hi) return 0; } else { if (x.hi < y.lo) return 1; if (x.lo >= y.hi) return 0; } }
    return -1; }
  Lin lin0(Expr *e) {
    unsigned w = e->w; Expr **k = e->k;
    switch (e->op) {
      case O_CONST: return cst(sxv(e));
      case O_SYM: { i128 lo = 0, hi = p2(w) - 1; auto rs = refS.find(e); if (rs != refS.end() && rs->second.lo < 0) { lo = -p2(w - 1); hi = p2(w - 1) - 1; if (rs->second.lo > lo) lo = rs->second.lo; if (rs->second.hi < hi) hi = rs->second.hi; }
        int a = atom(lo, hi); symAtom[(u32)e->val] = a; symW[(u32)e->val] = w; return of(a); }
      case O_ADD: return add2(lin(k[0]), lin(k[1]));
      case O_SUB: return add2(lin(k[0]), lin(k[1]), -1);
      case O_MUL: if (ExprPool::isC(k[1])) return mulc(lin(k[0]), sxv(k[1])); if (ExprPool::isC(k[0])) return mulc(lin(k[1]), sxv(k[0])); return opaque(e);
      case O_XOR: if (ExprPool::isC(k[1], maskw(w))) { Lin r = mulc(lin(k[0]), -1); r.k -= 1; return r; } return opaque(e);
      case O_ZEXT: return U(k[0]);
      case O_SEXT: return S(k[0]);
      case O_EXTRACT: { if (e->aux == 0) return lin(k[0]);
        Lin x = U(k[0]); unsigned lo = e->aux, top = k[0]->w - lo - w; Lin r = of(atom(0, p2(w) - 1)), rest = of(atom(0, p2(lo) - 1)); Lin sum = add2(rest, mulc(r, p2(lo))); if (top) sum = add2(sum, mulc(of(atom(0, p2(top) - 1)), p2(lo + w)));
        add(Z3_mk_eq(c, ast(x), ast(sum))); return r; }
      case O_CONCAT: return add2(U(k[1]), mulc(lin(k[0]), p2(k[1]->w)));
      case O_ITE: { int d = decide(k[0]); if (d >= 0) return lin(k[d ? 1 : 2]); Lin a = lin(k[1]), b = lin(k[2]); Iv x = iv(a), y = iv(b); int n = atom(std::min(x.lo, y.lo), std::max(x.hi, y.hi)); add(Z3_mk_eq(c, atomAst[n], Z3_mk_ite(c, B(k[0]), ast(a), ast(b)))); return of(n); }
      case O_SDIV: case O_SREM: case O_UDIV: case O_UREM: {
        bool sg = e->op == O_SDIV || e->op == O_SREM; if (!ExprPool::isC(k[1])) return opaque(e); i128 d = sg ? (i128)sxv(k[1]) : (i128)k[1]->val; if (d <= 1) return opaque(e);
        auto key = std::make_tuple(sg, k[0], k[1]->val); auto it = divs.find(key);
        if (it == divs.end()) {
          Lin x = sg ? S(k[0]) : U(k[0]); Iv v = iv(x); i128 ql = v.lo / d, qh = v.hi / d; // truncation towards zero is monotone
          int q = atom(ql, qh), r = atom(v.lo < 0 ? -(d - 1) : 0, v.hi > 0 ? d - 1 : 0);
          add(Z3_mk_eq(c, ast(x), ast(add2(mulc(of(q), d), of(r)))));
          if (v.lo < 0 && v.hi > 0) { Z3_ast neg = Z3_mk_lt(c, ast(x), num(0)); add(Z3_mk_ite(c, neg, Z3_mk_le(c, atomAst[r], num(0)), Z3_mk_ge(c, atomAst[r], num(0)))); }
          it = divs.emplace(key, std::make_pair(q, r)).first;
        }
        return of(e->op == O_SDIV || e->op == O_UDIV ? it->second.first : it->second.second); }
      default: if (w == 1) { int n = atom(0, 1); add(Z3_mk_eq(c, atomAst[n], Z3_mk_ite(c, B(e), num(1), num(0)))); return of(n); } return opaque(e);
    }
  }
  Z3_ast B(Expr *e) { auto it = bmemo.find(e); if (it != bmemo.end()) return it->second; Z3_ast r = B0(e); bmemo[e] = r; return r; }
  Z3_ast B0(Expr *e) {
    Expr **k = e->k; if (giveUp) return Z3_mk_true(c);
    switch (e->op) {
      case O_CONST: return e->val ? Z3_mk_true(c) : Z3_mk_false(c);
      case O_AND: { Z3_ast a[2] = {B(k[0]), B(k[1])}; return Z3_mk_and(c, 2, a); }
      case O_OR: { Z3_ast a[2] = {B(k[0]), B(k[1])}; return Z3_mk_or(c, 2, a); }
      case O_XOR: if (ExprPool::isC(k[1], 1)) return Z3_mk_not(c, B(k[0])); return Z3_mk_xor(c, B(k[0]), B(k[1]));
      case O_ITE: return Z3_mk_ite(c, B(k[0]), B(k[1]), B(k[2]));
      case O_ULT: return Z3_mk_lt(c, ast(U(k[0])), ast(U(k[1])));
      case O_ULE: return Z3_mk_le(c, ast(U(k[0])), ast(U(k[1])));
      case O_SLT: return Z3_mk_lt(c, ast(S(k[0])), ast(S(k[1])));
      case O_SLE: return Z3_mk_le(c, ast(S(k[0])), ast(S(k[1])));
      case O_EQ: { if (k[0]->w == 1) return Z3_mk_iff(c, B(k[0]), B(k[1]));
        Lin d = add2(lin(k[0]), lin(k[1]), -1); Iv v = iv(d); i128 m = p2(k[0]->w); if (v.lo > -m && v.hi < m) return Z3_mk_eq(c, ast(d), num(0)); return Z3_mk_eq(c, ast(canon(d, k[0]->w, 0)), num(0)); }
      case O_SYM: { Z3_ast r = Z3_mk_fresh_const(c, "b", Z3_mk_bool_sort(c)); return r; }
      default: return Z3_mk_fresh_const(c, "b", Z3_mk_bool_sort(c));
    }
  }
  void refine(Expr *e, bool neg) {
    if (e->op == O_XOR && e->w == 1 && ExprPool::isC(e->k[1], 1)) return refine(e->k[0], !neg);
    if (!neg && e->op == O_AND) { refine(e->k[0], false); refine(e->k[1], false); return; }
    if (neg && e->op == O_OR) { refine(e->k[0], true); refine(e->k[1], true); return; }
    auto cut = [&](Expr *x, bool sg, i128 lo, i128 hi) { auto &m = sg ? refS : refU; unsigned w = x->w; auto it = m.find(x); if (it == m.end()) it = m.emplace(x, sg ? Iv{-p2(w - 1), p2(w - 1) - 1} : Iv{0, p2(w) - 1}).first; if (lo > it->second.lo) it->second.lo = lo; if (hi < it->second.hi) it->second.hi = hi; if (it->second.lo > it->second.hi) giveUp = true; };
    auto low = [&](Expr *x, bool sg) { return sg ? -p2(x->w - 1) : (i128)0; }; auto high = [&](Expr *x, bool sg) { return sg ? p2(x->w - 1) - 1 : p2(x->w) - 1; };
    if (e->op == O_ULT || e->op == O_ULE || e->op == O_SLT || e->op == O_SLE) {
      bool sg = e->op == O_SLT || e->op == O_SLE, st = e->op == O_ULT || e->op == O_SLT; Expr *a = e->k[0], *b = e->k[1]; if (neg) { std::swap(a, b); st = !st; } // !(a<b) is b<=a
      if (ExprPool::isC(b) && !ExprPool::isC(a)) cut(a, sg, low(a, sg), (sg ? (i128)sxv(b) : (i128)b->val) - st);
      if (ExprPool::isC(a) && !ExprPool::isC(b)) cut(b, sg, (sg ? (i128)sxv(a) : (i128)a->val) + st, high(b, sg));
    }
    if (e->op == O_EQ && !neg && ExprPool::isC(e->k[1]) && e->k[0]->w > 1) { cut(e->k[0], false, e->k[1]->val, e->k[1]->val); cut(e->k[0], true, sxv(e->k[1]), sxv(e->k[1])); }
  }
  // 1 feasible (candidate model in out), 0 infeasible, -1 not decided
  int run(const std::vector<Expr *> &cs, std::unordered_map<u32, u64> &out) {
    for (auto e : cs) refine(e, false);
    if (giveUp) return -1;
    for (auto e : cs) { add(B(e)); if (giveUp) return -1; }
    Z3_lbool r = Z3_solver_check(c, s);
    if (r == Z3_L_FALSE) return 0; if (r != Z3_L_TRUE) return -1;
    Z3_model m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
    for (auto &x : symAtom) { Z3_ast v = 0; i64 n = 0; if (Z3_model_eval(c, m, atomAst[x.second], true, &v) && Z3_get_ast_kind(c, v) == Z3_NUMERAL_AST) { if (Z3_get_numeral_int64(c, v, (int64_t *)&n)) {} else { u64 u = 0; Z3_get_numeral_uint64(c, v, (uint64_t *)&u); n = (i64)u; } } out[x.first] = (u64)n & maskw(symW[x.first]); }
    Z3_model_dec_ref(c, m); return 1;
  }
};
