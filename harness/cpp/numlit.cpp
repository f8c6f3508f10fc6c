// C04: the type and value that the compiler gives to an integer literal, and the constants in array sizes, bit counts and the like.
#include "spp.h"
#include "vx.h"
using namespace Core; using namespace Core::Basic; using namespace Spp; using namespace Spp::CodeGen;
static Ast::IntegerType *ty; static int askedSign, askedSize, genSign, genSize, gens; static int64_t genValue; static bool askedNull; static TiObject *tgt;
static Ast::IntegerType *mkInt(TiObject *, Word s) { askedSign = 1; askedSize = s; return ty; }
static Ast::IntegerType *mkWord(TiObject *, Word s) { askedSign = 0; askedSize = s; return ty; }
static Ast::IntegerType *mkNull(TiObject *) { askedNull = true; return ty; }
static Ast::FloatType *fy; static double genDouble;
static Ast::FloatType *mkFloat(TiObject *, Word s) { askedSize = s; return fy; }
static Bool mkFlit(TiObject *, TiObject *, Word bits, Double v, TioSharedPtr &) { gens++; genSize = bits; genDouble = v; return true; }
static Bool mkType(TiObject *, TiObject *ref, Session *, TiObject *&t, Ast::Type **a) { vx_assert(ref == ty || ref == fy, "type of the literal"); t = tgt; if (a) *a = ty; return true; }
static Bool mkLit(TiObject *, TiObject *, Word bits, Bool s, LongInt v, TioSharedPtr &) { gens++; genSize = bits; genSign = s; genValue = v; return true; }
struct Env {
  Main::RootManager *rm; Ast::Helper *h; ExpressionGenerator *eg; Generation *g; TargetGeneration *tg; ExtraDataAccessor *eda; Session *s;
  Env() { extern void resetHead(); resetHead();
    rm = new Main::RootManager(); h = new Ast::Helper(rm, 0); tgt = new TiInt(1); ty = new Ast::IntegerType(); fy = new Ast::FloatType();
    h->getIntType = &mkInt; h->getWordType = &mkWord; h->getNullType = &mkNull; h->getFloatType = &mkFloat;
    static struct Own : TiObject, DynamicBinding { TYPE_INFO(Own, TiObject, "h", "h", "h", (INHERITANCE_INTERFACES(DynamicBinding))); IMPLEMENT_DYNAMIC_BINDINGS(bindingMap); } *own; own = new Own();
    g = new Generation(own); tg = new TargetGeneration(own); g->getGeneratedType = &mkType; tg->generateIntLiteral = &mkLit; tg->generateFloatLiteral = &mkFlit;
    eg = new ExpressionGenerator(h, 0, 0); eda = 0;
    s = new Session(0, eda, tg, false, 0, 0, tgt, tgt, 0);
  }
};
static const char *const PRE[5][5] = {{""}, {"0b", "0B", "0ن"}, {"0o", "0O", "0م"}, {"0h", "0H", "0x", "0X"}}; static const int NPRE[] = {1, 3, 3, 4}; static const int BASE[] = {10, 2, 8, 16};
static const char *const US[] = {"", "u", "U", "ط"}, *const IS[] = {"", "i", "I", "ص"};
static const char *const SZ[] = {"", "8", "16", "32", "64"}; static const int SZN[] = {0, 8, 16, 32, 64};
static char buf[96]; static int len;
static void put(const char *s) { while (*s) buf[len++] = *s++; }
static uint64_t digit(int base, int kind) { // kind: which class of characters a hexadecimal digit belongs to
  int c = vx_u8("digit");
  int lo = kind == 0 ? '0' : kind == 1 ? 'a' : 'A', hi = kind == 0 ? (base < 10 ? '0' + base - 1 : '9') : kind == 1 ? 'f' : 'F';
  vx_assume(c >= lo && c <= hi); buf[len++] = (char)c; return kind == 0 ? c - '0' : c - lo + 10;
}
static const char *head = 0; // fixed digits in front of the free ones
void resetHead() { head = 0; }
static uint64_t number(int b, int n) {
  uint64_t v = 0; if (head) for (const char *p = head; *p; p++) { v = v * BASE[b] + (*p <= '9' ? *p - '0' : *p - 'a' + 10); buf[len++] = *p; }
  int special = BASE[b] == 16 ? vx_choose(n, "letters") : 0;
  for (int i = 0; i < n; i++) { int kind = 0; if (BASE[b] == 16 && (i == special || i == special + 1)) kind = vx_choose(3, "class"); v = v * BASE[b] + digit(BASE[b], kind); }
  buf[len] = 0; return v;
}
static int minInt(uint64_t v) { int64_t s = v; return s == 0 || s == -1 ? 1 : s >= -128 && s < 128 ? 8 : s >= -32768 && s < 32768 ? 16 : s >= -2147483648LL && s < 2147483648LL ? 32 : 64; }
static int minWord(uint64_t v) { return v < 2 ? 1 : v < 256 ? 8 : v < 65536 ? 16 : v < 4294967296ULL ? 32 : 64; }
static void literal(Env &e, int b, int n, int u, int is, int sz, int pre = -1) {
  len = 0; gens = 0; askedNull = false; askedSize = -1;
  put(PRE[b][pre >= 0 ? pre : vx_choose(NPRE[b], "prefix")]); uint64_t v = number(b, n);
  vx_assume((v >> 63) == 0);
  put(US[u]); put(IS[is]); if (is) put(SZ[sz]); buf[len] = 0;
  auto lit = Core::Data::Ast::IntegerLiteral::create(); lit->setValue(buf); lit->setSourceLocation(newSrdObj<Core::Data::SourceLocationRecord>());
  GenResult r; vx_assert(e.eg->generateIntegerLiteral(lit.get(), e.g, e.s, r), "accepted");
  bool sign = u == 0; int size = is ? SZN[sz] : 0;
  if (size == 0) { if (v < 2) sign = false; size = sign ? minInt(v) : minWord(v); }
  vx_assert(gens == 1 && r.astType == ty, "one constant");
  if (!is && v == 0) vx_assert(askedNull, "zero is the null literal");
  else { vx_assert(!askedNull, "not null"); vx_assert(askedSign == sign, "signedness of the type"); vx_assert(askedSize == size, "size of the type"); }
  vx_assert(genSign == sign && genSize == size, "size and signedness of the constant");
  uint64_t mask = size == 64 ? ~0ULL : (1ULL << size) - 1;
  vx_assert(((uint64_t)genValue & mask) == (v & mask), "value of the constant");
  vx_cover("literal");
}
static bool same(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
static void floating(Env &e, int ni, int nf, int ex, int suffix, int size, bool wide = false) { // ex: 0 none, else the digit characters follow e, e+, e-, E
  static const char *volatile E[] = {"", "e", "e+", "e-", "E"}; static const char *volatile F[] = {"", "f", "F", "ع"};
  len = 0; gens = 0;
  for (int i = 0; i < ni + nf; i++) { if (i == ni) buf[len++] = '.'; digit(10, 0); }
  put(E[ex]); if (ex) { int d = vx_choose(VX_THOROUGH ? 7 : 5, "exponent"); buf[len++] = '0' + d; }
  put(F[suffix]); if (suffix && size) put(size == 32 ? "32" : "64"); buf[len] = 0;
  auto lit = Core::Data::Ast::FloatLiteral::create(); lit->setValue(buf); lit->setSourceLocation(newSrdObj<Core::Data::SourceLocationRecord>());
  GenResult r; vx_assert(e.eg->generateFloatLiteral(lit.get(), e.g, e.s, r), "accepted");
  int want = suffix && size == 64 ? 64 : 32; vx_assert(gens == 1 && r.astType == fy && askedSize == want && genSize == want, "type of the literal");
  double near = wide ? strtod(buf, 0) : (double)strtof(buf, 0); vx_assert(same(genDouble, near), wide ? "nearest value in double precision" : "nearest value in single precision");
  vx_cover("float");
}
extern "C" {
void t_float() { Env e; int ni = vx_choose(3, "whole"), nf = vx_choose(4, "fraction"); vx_assume(ni + nf > 0); floating(e, ni, nf, nf == 0 ? 1 + vx_choose(4, "e") : vx_choose(5, "e"), 0, 0); }
void t_float32() { Env e; int ni = vx_choose(3, "whole"), nf = vx_choose(3, "fraction"); vx_assume(ni > 0); floating(e, ni, nf, vx_choose(3, "e"), 1 + vx_choose(3, "f"), vx_choose(2, "size") * 32); }
void t_float64() { Env e; int nf = vx_choose(3, "fraction"); floating(e, 2, nf, vx_choose(4, "e"), 1 + vx_choose(3, "f"), 64); }
void t_float64_precision() { Env e; floating(e, 1, 1, 0, 1, 64, true); }

// Short literals with every digit free; long ones next to each change of size, with the last digits free.
void t_dec() { Env e; literal(e, 0, 1 + vx_choose(VX_THOROUGH ? 7 : 5, "digits"), 0, 0, 0); }
void t_dec_long() { Env e; static const char *volatile H[] = {"00000000000000000000", "32", "65", "21474", "42949", "99999999999", "12345678901", "9223372036854", "1844674407370", "000000000000000", "0000021474"};
  head = H[vx_choose(11, "head")]; literal(e, 0, VX_THOROUGH ? 6 : 5, vx_choose(2, "u"), 0, 0); }
void t_bin() { Env e; static volatile int N[] = {1, 2, 7, 8, 9, 16, 17}; literal(e, 1, VX_THOROUGH ? 1 + vx_choose(36, "digits") : N[vx_choose(7, "digits")], 0, 0, 0, 0); }
void t_bin_long() { Env e; static const char *volatile H[] = {"1111111111111111111111111111", "10000000000000000000000000000", "000000000000000000000000000000000000000", "11111111111111111111111111111111111111111111111111111111111"}; head = H[vx_choose(4, "head")]; literal(e, 1, 4, vx_choose(2, "u"), 0, 0, 0); }
void t_oct() { Env e; literal(e, 2, 1 + vx_choose(VX_THOROUGH ? 10 : 6, "digits"), 0, 0, 0, 0); }
void t_oct_long() { Env e; static const char *volatile H[] = {"1777777", "3777777", "77777777777777777", "000000000000000000000"}; head = H[vx_choose(4, "head")]; literal(e, 2, 4, vx_choose(2, "u"), 0, 0, 0); }
void t_hex() { Env e; literal(e, 3, 1 + vx_choose(VX_THOROUGH ? 15 : 4, "digits"), 0, 0, 0, 0); }
void t_hex_long() { Env e; static const char *volatile H[] = {"7fff", "80000", "ffff", "fffffffffff", "7ffffffffffff", "00000000000000"}; head = H[vx_choose(6, "head")]; literal(e, 3, 3, vx_choose(2, "u"), 0, 0, 0); }
// Every prefix and suffix.
void t_prefix() { Env e; literal(e, vx_choose(4, "base"), VX_THOROUGH ? 4 : 2, 0, 0, 0); }
void t_suffix() { Env e; int u = vx_choose(4, "u"), is = vx_choose(4, "i"); literal(e, vx_choose(3, "base"), VX_THOROUGH ? 5 : 3, u, is, is ? vx_choose(5, "size") : 0, 0); }
void t_suffix_hex() { Env e; int u = vx_choose(2, "u"), is = vx_choose(2, "i"); literal(e, 3, VX_THOROUGH ? 4 : 2, u, is, is ? vx_choose(5, "size") : 0, 0); }
// The smallest size that holds a value.
void t_size() {
  Env e; uint64_t v = vx_u64("v");
  vx_assert((int)e.h->getNeededIntSize((LongInt)v) == minInt(v), "signed size"); vx_assert((int)e.h->getNeededWordSize(v) == minWord(v), "unsigned size"); vx_cover("size");
}
// Constants used by the compiler itself: the value, and the rest of the text.
void t_const() {
  int b = vx_choose(4, "base"), n = 1 + vx_choose(BASE[b] == 16 ? 2 : 5, "digits"), k = vx_choose(4, "suffix"); len = 0; put(PRE[b][NPRE[b] - 1]); uint64_t v = number(b, n);
  int end = len; put(US[k]); put(IS[k]); buf[len] = 0;
  char const *p = buf; uint64_t w = Core::Data::Ast::parseIntegerLiteral(p); vx_assert(w == v, "value"); vx_assert(p == buf + end, "end of the digits");
  vx_cover("const");
}
}
