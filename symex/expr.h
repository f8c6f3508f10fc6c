// Hash-consed bit-vector expressions (width <= 64), with constant folding,
// light simplification, evaluation under a model, and lowering to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cstdlib>
#include <cstdio>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <map>
#include <tuple>
#include <z3.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;

enum Op : u8 {
  O_CONST, O_SYM, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM,
  O_FOEQ, O_FOLT, O_FOLE, O_FUNO,
  O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FPCVT
};

struct Expr {
  Op op; u8 w; u8 aux; bool hasFp, hasDiv;
  u32 id; u64 val;            // CONST: value; SYM: symbol index
  Expr *k[3];
  Z3_ast z; u64 evGen; u64 evVal;
  std::vector<u32> *syms;     // cached sorted symbol set
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
static inline double bd(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static inline u64 db(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static inline float bf(u64 b) { float f; u32 x = (u32)b; memcpy(&f, &x, 4); return f; }
static inline u64 fb(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static inline double fpv(u64 b, unsigned w) { return w == 32 ? (double)bf(b) : bd(b); }

struct SymInfo { std::string name; u8 w; };

struct ExprPool {
  struct Key { Op op; u8 w, aux; u64 val; Expr *k0, *k1, *k2;
    bool operator==(const Key &o) const { return op==o.op&&w==o.w&&aux==o.aux&&val==o.val&&k0==o.k0&&k1==o.k1&&k2==o.k2; } };
  struct KH { size_t operator()(const Key &k) const {
    u64 h = k.op * 0x9E3779B97F4A7C15ull ^ ((u64)k.w << 8) ^ k.aux;
    auto mix = [&](u64 x) { h = (h ^ x) * 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(k.val); mix((u64)k.k0); mix((u64)k.k1); mix((u64)k.k2); return h; } };
  std::unordered_map<Key, Expr *, KH> tab;
  std::vector<SymInfo> syms;
  u32 nextId = 1;

  Expr *raw(Op op, unsigned w, u64 val = 0, Expr *a = 0, Expr *b = 0, Expr *c = 0, unsigned aux = 0) {
    Key k{op, (u8)w, (u8)aux, val, a, b, c};
    auto it = tab.find(k);
    if (it != tab.end()) return it->second;
    Expr *e = new Expr();
    e->op = op; e->w = w; e->aux = aux; e->id = nextId++; e->val = val; e->k[0] = a; e->k[1] = b; e->k[2] = c;
    e->z = 0; e->evGen = 0; e->syms = 0;
    e->hasFp = (op >= O_FADD) || (a && a->hasFp) || (b && b->hasFp) || (c && c->hasFp);
    e->hasDiv = (op >= O_UDIV && op <= O_SREM) || (a && a->hasDiv) || (b && b->hasDiv) || (c && c->hasDiv);
    tab.emplace(k, e);
    return e;
  }
  Expr *cst(u64 v, unsigned w) { return raw(O_CONST, w, v & maskw(w)); }
  Expr *sym(const std::string &n, unsigned w) { syms.push_back({n, (u8)w}); return raw(O_SYM, w, syms.size() - 1); }

  static bool isC(Expr *e) { return e->op == O_CONST; }
  static bool isC(Expr *e, u64 v) { return e->op == O_CONST && e->val == v; }

  // Concrete semantics, shared by folding and model evaluation.
  static u64 fold(Op op, unsigned w, unsigned aux, unsigned kw, u64 a, u64 b, u64 c, unsigned k1w) {
    u64 m = maskw(w);
    switch (op) {
      case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
      case O_UDIV: return b ? a / b : m;
      case O_UREM: return b ? a % b : a;
      case O_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x >= 0 ? m : 1; if (y == -1) return (0 - (u64)x) & m; return (u64)(x / y) & m; }
      case O_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
      case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
      case O_SHL: return b >= w ? 0 : (a << b) & m;
      case O_LSHR: return b >= w ? 0 : a >> b;
      case O_ASHR: { i64 x = sx(a, w); return (u64)(b >= w ? (x < 0 ? -1 : 0) : x >> b) & m; }
      case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
      case O_SLT: return sx(a, kw) < sx(b, kw); case O_SLE: return sx(a, kw) <= sx(b, kw);
      case O_ITE: return a ? b : c;
      case O_CONCAT: return ((a << k1w) | b) & m;
      case O_EXTRACT: return (a >> aux) & m;
      case O_ZEXT: return a;
      case O_SEXT: return (u64)sx(a, kw) & m;
      case O_FADD: return w == 32 ? fb(bf(a) + bf(b)) : db(bd(a) + bd(b));
      case O_FSUB: return w == 32 ? fb(bf(a) - bf(b)) : db(bd(a) - bd(b));
      case O_FMUL: return w == 32 ? fb(bf(a) * bf(b)) : db(bd(a) * bd(b));
      case O_FDIV: return w == 32 ? fb(bf(a) / bf(b)) : db(bd(a) / bd(b));
      case O_FREM: return w == 32 ? fb(fmodf(bf(a), bf(b))) : db(fmod(bd(a), bd(b)));
      case O_FOEQ: return fpv(a, kw) == fpv(b, kw);
      case O_FOLT: return fpv(a, kw) < fpv(b, kw);
      case O_FOLE: return fpv(a, kw) <= fpv(b, kw);
      case O_FUNO: return std::isnan(fpv(a, kw)) || std::isnan(fpv(b, kw));
      case O_FPTOSI: { // x86 semantics: out of range gives the minimum integer of the conversion width
        double d = fpv(a, kw);
        if (w <= 32) { i64 r = (d > -2147483649.0 && d < 2147483648.0) ? (i64)d : -2147483648ll; return (u64)r & m; }
        i64 r = (d >= -9223372036854775808.0 && d < 9223372036854775808.0) ? (i64)d : INT64_MIN; return (u64)r; }
      case O_FPTOUI: { double d = fpv(a, kw);
        if (w < 32) { i64 r = (d > -2147483649.0 && d < 2147483648.0) ? (i64)d : -2147483648ll; return (u64)r & m; }
        if (w == 32) { i64 r = (d >= -9223372036854775808.0 && d < 9223372036854775808.0) ? (i64)d : INT64_MIN; return (u64)r & m; }
        if (d >= -9223372036854775808.0 && d < 9223372036854775808.0) return (u64)(i64)d;
        if (d >= 9223372036854775808.0 && d < 18446744073709551616.0) return (u64)(i64)(d - 9223372036854775808.0) ^ (1ull << 63);
        return 1ull << 63; }
      case O_SITOFP: { i64 x = sx(a, kw); return w == 32 ? fb((float)x) : db((double)x); }
      case O_UITOFP: return w == 32 ? fb((float)a) : db((double)a);
      case O_FPCVT: return w == 32 ? (kw == 64 ? fb((float)bd(a)) : a) : (kw == 32 ? db((double)bf(a)) : a);
      default: abort();
    }
  }

  Expr *mk(Op op, unsigned w, Expr *a, Expr *b = 0, Expr *c = 0, unsigned aux = 0) {
    if (isC(a) && (!b || isC(b)) && (!c || isC(c)))
      return cst(fold(op, w, aux, a->w, a->val, b ? b->val : 0, c ? c->val : 0, b ? b->w : 0), w);
    return raw(op, w, 0, a, b, c, aux);
  }

  Expr *bin(Op op, Expr *a, Expr *b) {
    unsigned w = a->w; u64 m = maskw(w);
    if (isC(a) && isC(b)) return mk(op, w, a, b);
    switch (op) {
      case O_ADD: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_FADD: case O_FMUL:
        if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); break;
      default: break;
    }
    switch (op) {
      case O_ADD:
        if (isC(b, 0)) return a;
        if (isC(b) && a->op == O_ADD && isC(a->k[1])) return bin(O_ADD, a->k[0], cst(a->k[1]->val + b->val, w));
        if (isC(b) && a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], bin(O_ADD, a->k[1], b), bin(O_ADD, a->k[2], b));
        if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[1] == b->k[1] && isC(a->k[1], 0)) return concat(bin(op, a->k[0], b->k[0]), a->k[1]);
        // (x - y) + y
        if (a->op == O_SUB && a->k[1] == b) return a->k[0];
        if (b->op == O_SUB && b->k[1] == a) return b->k[0];
        // (x + c) + y -> (x + y) + c
        if (!isC(b) && a->op == O_ADD && isC(a->k[1])) return bin(O_ADD, bin(O_ADD, a->k[0], b), a->k[1]);
        if (!isC(b) && b->op == O_ADD && isC(b->k[1])) return bin(O_ADD, bin(O_ADD, a, b->k[0]), b->k[1]);
        break;
      case O_SUB:
        if (a == b) return cst(0, w);
        if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[1] == b->k[1] && isC(a->k[1], 0)) return concat(bin(op, a->k[0], b->k[0]), a->k[1]);
        if (isC(b)) return bin(O_ADD, a, cst(0 - b->val, w));
        if (a->op == O_ADD && a->k[0] == b) return a->k[1];
        if (a->op == O_ADD && a->k[1] == b) return a->k[0];
        if (a->op == O_ADD && isC(a->k[1]) ) return bin(O_ADD, bin(O_SUB, a->k[0], b), a->k[1]);
        if (b->op == O_ADD && isC(b->k[1]) ) return bin(O_ADD, bin(O_SUB, a, b->k[0]), cst(0 - b->k[1]->val, w));
        break;
      case O_MUL: if (isC(b, 0)) return b; if (isC(b, 1)) return a;
        if (isC(b) && (b->val & (b->val - 1)) == 0) return bin(O_SHL, a, cst(__builtin_ctzll(b->val), w));
        if (isC(b) && a->op == O_MUL && isC(a->k[1])) return bin(O_MUL, a->k[0], cst(a->k[1]->val * b->val, w));
        // (x << s) * y -> (x * y) << s
        for (int t = 0; t < 2; t++) { Expr *x = t ? b : a, *y = t ? a : b;
          if (x->op == O_CONCAT && isC(x->k[1], 0)) { unsigned s = x->k[1]->w; return concat(bin(O_MUL, x->k[0], extract(y, 0, w - s)), x->k[1]); } }
        break;
      case O_UDIV: if (isC(b, 1)) return a;
        if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return bin(O_LSHR, a, cst(__builtin_ctzll(b->val), w));
        break;
      case O_UREM: if (isC(b, 1)) return cst(0, w);
        if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return bin(O_AND, a, cst(b->val - 1, w));
        break;
      case O_SDIV: if (isC(b, 1)) return a; break;
      case O_SREM: if (isC(b, 1)) return cst(0, w); break;
      case O_AND:
        if (a == b) return a; if (isC(b, 0)) return b; if (isC(b, m)) return a;
        if (isC(b) && a->op == O_AND && isC(a->k[1])) return bin(O_AND, a->k[0], cst(a->k[1]->val & b->val, w));
        if (isC(b) && a->op == O_ZEXT && (b->val & maskw(a->k[0]->w)) == maskw(a->k[0]->w)) return a;
        if (w == 1 && (a == not_(b))) return cst(0, 1);
        // low-bit mask -> zext(extract)
        if (isC(b) && w > 1 && (b->val & (b->val + 1)) == 0) { unsigned n = __builtin_popcountll(b->val); return zext(extract(a, 0, n), w); }
        break;
      case O_OR:
        if (a == b) return a; if (isC(b, 0)) return a; if (isC(b, m)) return b;
        if (w == 1 && (a == not_(b))) return cst(1, 1);
        break;
      case O_XOR:
        if (a == b) return cst(0, w); if (isC(b, 0)) return a;
        if (isC(b) && a->op == O_XOR && isC(a->k[1])) return bin(O_XOR, a->k[0], cst(a->k[1]->val ^ b->val, w));
        if (isC(b, 1) && w == 1) return not_(a);
        break;
      case O_SHL: case O_LSHR: case O_ASHR:
        if (isC(b, 0)) return a;
        if (isC(b) && b->val >= w && op != O_ASHR) return cst(0, w);
        if (isC(b) && op == O_SHL) { unsigned s = b->val; return concat(extract(a, 0, w - s), cst(0, s)); }
        if (isC(b) && op == O_LSHR) { unsigned s = b->val; return zext(extract(a, s, w - s), w); }
        if (isC(b) && op == O_ASHR && b->val < w) { unsigned s = b->val; return sext(extract(a, s, w - s), w); }
        break;
      default: break;
    }
    return mk(op, w, a, b);
  }
  Expr *not_(Expr *a) { // width 1
    if (isC(a)) return cst(!a->val, 1);
    if (a->op == O_XOR && a->w == 1 && isC(a->k[1], 1)) return a->k[0];
    switch (a->op) {
      case O_ULT: return cmp(O_ULE, a->k[1], a->k[0]);
      case O_ULE: return cmp(O_ULT, a->k[1], a->k[0]);
      case O_SLT: return cmp(O_SLE, a->k[1], a->k[0]);
      case O_SLE: return cmp(O_SLT, a->k[1], a->k[0]);
      default: break;
    }
    return mk(O_XOR, 1, a, cst(1, 1));
  }
  Expr *cmp(Op op, Expr *a, Expr *b) {
    if (isC(a) && isC(b)) return mk(op, 1, a, b);
    unsigned w = a->w;
    if (op == O_EQ) {
      if (a == b) return cst(1, 1);
      if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
      if (isC(b)) {
        if (w == 1) return b->val ? a : not_(a);
        if (a->op == O_ZEXT) { if (b->val > maskw(a->k[0]->w)) return cst(0, 1); return cmp(O_EQ, a->k[0], cst(b->val, a->k[0]->w)); }
        if (a->op == O_SEXT) { u64 lo = b->val & maskw(a->k[0]->w); if (((u64)sx(lo, a->k[0]->w) & maskw(w)) != b->val) return cst(0, 1); return cmp(O_EQ, a->k[0], cst(lo, a->k[0]->w)); }
        if (a->op == O_ADD && isC(a->k[1])) return cmp(O_EQ, a->k[0], cst(b->val - a->k[1]->val, w));
        if (a->op == O_XOR && isC(a->k[1])) return cmp(O_EQ, a->k[0], cst(b->val ^ a->k[1]->val, w));
        if (a->op == O_ITE) {
          if (isC(a->k[1]) && isC(a->k[2])) {
            bool t = a->k[1]->val == b->val, f = a->k[2]->val == b->val;
            if (t && f) return cst(1, 1); if (!t && !f) return cst(0, 1); return t ? a->k[0] : not_(a->k[0]);
          }
          if (isC(a->k[1]) || isC(a->k[2])) return ite(a->k[0], cmp(O_EQ, a->k[1], b), cmp(O_EQ, a->k[2], b));
        }
        if (a->op == O_CONCAT) { unsigned lw = a->k[1]->w;
          return bin(O_AND, cmp(O_EQ, a->k[0], cst(b->val >> lw, a->k[0]->w)), cmp(O_EQ, a->k[1], cst(b->val, lw))); }
      }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return cmp(O_EQ, a->k[0], b->k[0]);
      if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return cmp(O_EQ, a->k[0], b->k[0]);
      return mk(op, 1, a, b);
    }
    if (op == O_ULT || op == O_ULE || op == O_SLT || op == O_SLE) {
      if (a == b) return cst(op == O_ULE || op == O_SLE, 1);
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w)
        return cmp(op == O_SLT ? O_ULT : op == O_SLE ? O_ULE : op, a->k[0], b->k[0]);
      if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return cmp(op, a->k[0], b->k[0]);
      if (op == O_ULT && isC(b, 0)) return cst(0, 1);
      if (op == O_ULE && isC(a, 0)) return cst(1, 1);
      if (op == O_ULT && isC(b, 1)) return cmp(O_EQ, a, cst(0, w));
      if (op == O_ULE && isC(b, maskw(w))) return cst(1, 1);
      if (op == O_ULT && isC(a, maskw(w))) return cst(0, 1);
      if (a->op == O_ZEXT && isC(b)) { unsigned kw = a->k[0]->w;
        if (op == O_SLT || op == O_SLE) { if (sx(b->val, w) < 0) return cst(0, 1); op = op == O_SLT ? O_ULT : O_ULE; }
        if (b->val > maskw(kw)) return cst(1, 1);
        return cmp(op, a->k[0], cst(b->val, kw)); }
      if (b->op == O_ZEXT && isC(a)) { unsigned kw = b->k[0]->w;
        if (op == O_SLT || op == O_SLE) { if (sx(a->val, w) < 0) return cst(1, 1); op = op == O_SLT ? O_ULT : O_ULE; }
        if (a->val > maskw(kw)) return cst(0, 1);
        return cmp(op, cst(a->val, kw), b->k[0]); }
      if (w == 1) { if (op == O_ULT) return bin(O_AND, not_(a), b); if (op == O_ULE) return bin(O_OR, not_(a), b);
        if (op == O_SLT) return bin(O_AND, a, not_(b)); return bin(O_OR, a, not_(b)); }
    }
    return mk(op, 1, a, b);
  }
  Expr *ite(Expr *c, Expr *a, Expr *b) {
    if (isC(c)) return c->val ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
      if (isC(a, 1) && isC(b, 0)) return c;
      if (isC(a, 0) && isC(b, 1)) return not_(c);
      if (isC(a, 1)) return bin(O_OR, c, b);
      if (isC(a, 0)) return bin(O_AND, not_(c), b);
      if (isC(b, 0)) return bin(O_AND, c, a);
      if (isC(b, 1)) return bin(O_OR, not_(c), a);
    }
    if (c->op == O_XOR && c->w == 1 && isC(c->k[1], 1)) return ite(c->k[0], b, a);
    if (a->op == O_ITE && a->k[0] == c) return ite(c, a->k[1], b);
    if (b->op == O_ITE && b->k[0] == c) return ite(c, a, b->k[2]);
    return mk(O_ITE, a->w, c, a, b);
  }
  Expr *extract(Expr *a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (isC(a)) return cst(a->val >> lo, w);
    if (a->op == O_EXTRACT) return extract(a->k[0], lo + a->aux, w);
    if (a->op == O_CONCAT) { unsigned lw = a->k[1]->w;
      if (lo + w <= lw) return extract(a->k[1], lo, w);
      if (lo >= lw) return extract(a->k[0], lo - lw, w);
      return concat(extract(a->k[0], 0, lo + w - lw), extract(a->k[1], lo, lw - lo)); }
    if (a->op == O_ZEXT) { unsigned kw = a->k[0]->w;
      if (lo >= kw) return cst(0, w);
      if (lo + w <= kw) return extract(a->k[0], lo, w);
      return zext(extract(a->k[0], lo, kw - lo), w); }
    if (a->op == O_SEXT && lo + w <= a->k[0]->w) return extract(a->k[0], lo, w);
    if (a->op == O_SEXT && lo == 0) return sext(a->k[0], w);
    if ((a->op == O_AND || a->op == O_OR || a->op == O_XOR)) return bin(a->op, extract(a->k[0], lo, w), extract(a->k[1], lo, w));
    if (lo == 0 && (a->op == O_ADD || a->op == O_SUB || a->op == O_MUL)) return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
    if (a->op == O_ITE && (isC(a->k[1]) || isC(a->k[2]))) return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
    return mk(O_EXTRACT, w, a, 0, 0, lo);
  }
  Expr *concat(Expr *hi, Expr *lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return cst((hi->val << lo->w) | lo->val, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w) return extract(hi->k[0], lo->aux, w);
    // extract of x at its base followed by lo == x truncated
    if (hi->op == O_EXTRACT && hi->aux == lo->w && extract(hi->k[0], 0, lo->w) == lo) return extract(hi->k[0], 0, w);
    if (isC(hi, 0)) return zext(lo, w);
    if (hi->op == O_EXTRACT && lo->op == O_CONCAT && lo->k[0]->op == O_EXTRACT && lo->k[0]->k[0] == hi->k[0] && hi->aux == lo->k[0]->aux + lo->k[0]->w)
      return concat(extract(hi->k[0], lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
    if (hi->op == O_ZEXT) return zext(concat(hi->k[0], lo), w);
    if (isC(hi) && lo->op == O_CONCAT && isC(lo->k[0])) return concat(cst((hi->val << lo->k[0]->w) | lo->k[0]->val, hi->w + lo->k[0]->w), lo->k[1]);
    // sign bits of a sext split across bytes: rebuild sext
    return mk(O_CONCAT, w, hi, lo);
  }
  Expr *zext(Expr *a, unsigned w) {
    if (a->w == w) return a; if (isC(a)) return cst(a->val, w);
    if (a->op == O_ZEXT) return zext(a->k[0], w);
    return mk(O_ZEXT, w, a);
  }
  Expr *sext(Expr *a, unsigned w) {
    if (a->w == w) return a; if (isC(a)) return cst((u64)sx(a->val, a->w), w);
    if (a->op == O_SEXT) return sext(a->k[0], w);
    if (a->op == O_ZEXT) return zext(a->k[0], w);
    return mk(O_SEXT, w, a);
  }

  // ---- symbol sets ----
  const std::vector<u32> &symset(Expr *e) {
    if (e->syms) return *e->syms;
    std::vector<u32> *s = new std::vector<u32>();
    // iterative DFS
    std::vector<Expr *> st{e}; std::unordered_set<Expr *> seen;
    while (!st.empty()) {
      Expr *x = st.back(); st.pop_back();
      if (!seen.insert(x).second) continue;
      if (x != e && x->syms) { s->insert(s->end(), x->syms->begin(), x->syms->end()); continue; }
      if (x->op == O_SYM) s->push_back((u32)x->val);
      for (int i = 0; i < 3; i++) if (x->k[i]) st.push_back(x->k[i]);
    }
    std::sort(s->begin(), s->end()); s->erase(std::unique(s->begin(), s->end()), s->end());
    e->syms = s; return *s;
  }

  // ---- evaluation ----
  u64 gen = 1;
  std::vector<u64> model; // by symbol
  void bumpModel() { gen++; }
  u64 eval(Expr *e) {
    if (e->op == O_CONST) return e->val;
    if (e->evGen == gen) return e->evVal;
    // explicit stack to survive deep chains
    static std::vector<Expr *> st; size_t base = st.size();
    st.push_back(e);
    while (st.size() > base) {
      Expr *x = st.back();
      if (x->op == O_CONST || x->evGen == gen) { st.pop_back(); continue; }
      if (x->op == O_SYM) { x->evVal = x->val < model.size() ? model[x->val] & maskw(x->w) : 0; x->evGen = gen; st.pop_back(); continue; }
      bool ready = true;
      for (int i = 0; i < 3; i++) { Expr *k = x->k[i]; if (k && k->op != O_CONST && k->evGen != gen) { st.push_back(k); ready = false; } }
      if (!ready) continue;
      auto v = [&](int i) { Expr *k = x->k[i]; return !k ? 0 : k->op == O_CONST ? k->val : k->evVal; };
      x->evVal = fold(x->op, x->w, x->aux, x->k[0]->w, v(0), v(1), v(2), x->k[1] ? x->k[1]->w : 0);
      x->evGen = gen; st.pop_back();
    }
    return e->evVal;
  }

  std::string str(Expr *e, int depth = 6) {
    static const char *nm[] = {"c","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","frem","foeq","folt","fole","funo","fptosi","fptoui","sitofp","uitofp","fpcvt"};
    char b[64];
    if (e->op == O_CONST) { snprintf(b, 64, "%llu:%d", (unsigned long long)e->val, e->w); return b; }
    if (e->op == O_SYM) return syms[e->val].name;
    if (!depth) return "...";
    std::string s = std::string("(") + nm[e->op];
    if (e->op == O_EXTRACT) { snprintf(b, 64, "[%d+%d]", e->aux, e->w); s += b; }
    for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + str(e->k[i], depth - 1);
    return s + ")";
  }
};
