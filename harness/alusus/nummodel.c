// Reference side of number/text conversions for C18.
#include "vx.h"
static uint64_t val(const unsigned char **pp, int *n, uint32_t *bad) {
  const unsigned char *p = *pp; uint64_t v = 0; *n = 0;
  while (vx_fork(*p >= '0') && vx_fork(*p <= '9')) { v = v * 10 + (uint64_t)(uint8_t)(*p - '0'); p++; ++*n; }
  *pp = p; return v; }
uint64_t n_abs(int64_t i) { return i < 0 ? 0 - (uint64_t)i : (uint64_t)i; }
void n_decimal(const unsigned char *p, int32_t neg, uint64_t mag) {
  if (vx_fork(neg)) { vx_assert(*p == '-', "sign"); p++; }
  int n; uint32_t bad = 0; const unsigned char *q = p; uint64_t v = val(&q, &n, &bad);
  vx_assert(n >= 1 && *q == 0, "only digits");
  vx_assert(n == 1 || *p != '0', "no leading zero");
  vx_assert(v == mag, "decimal value");
}
uint64_t n_digits(unsigned char *p, int32_t n) { vx_sym(p, n, "text"); uint64_t v = 0; for (int k = 0; k < n; k++) { vx_assume(p[k] >= '0' && p[k] <= '9'); v = v * 10 + (uint64_t)(p[k] - '0'); } p[n] = 0; return v; }
int32_t n_hex(int32_t c) { return c <= '9' ? c - '0' : c <= 'F' ? c - 'A' + 10 : c - 'a' + 10; }

static uint64_t M; // significand, top bit 52
double n_float(int32_t e, int32_t bits, int32_t fill, int32_t neg) {
  uint64_t top = vx_u64("m"); vx_assume(top < (1ull << bits));
  M = 1ull << 52 | top << (52 - bits) | (fill ? (1ull << (52 - bits)) - 1 : 0);
  uint64_t u = (M & ((1ull << 52) - 1)) | (uint64_t)(e + 1023) << 52 | (uint64_t)(uint32_t)neg << 63;
  double d; __builtin_memcpy(&d, &u, 8); return d; }
// the text at p is a decimal with six digits after the point, within half of the last digit (and 2 millionths of it) of the value
void n_near(int32_t e, const unsigned char *p, int32_t neg) {
  if (neg) { vx_assert(*p == '-', "sign"); p++; }
  int n; uint32_t bad = 0; const unsigned char *q = p; uint64_t w = val(&q, &n, &bad);
  vx_assert(n >= 1 && (n == 1 || *p != '0'), "whole digits");
  vx_assert(*q == '.', "decimal point"); q++;
  uint64_t f = val(&q, &n, &bad); vx_assert(n == 6 && *q == 0, "six fraction digits");
  int s = 52 - e; uint64_t whole = s > 52 ? 0 : M >> s, frac = s > 52 ? M : M & ((1ull << s) - 1);
  uint64_t fr = s >= 104 ? 0 : s >= 40 ? frac >> (s - 40) : frac << (40 - s);
  int64_t d = (int64_t)(((w - whole) * 1000000 + f) << 40) - (int64_t)(fr * 1000000);
  int64_t lim = (1ll << 39) + (1 << 21);
  vx_assert(w - whole <= 1, "whole part"); vx_assert(d <= lim && d >= -lim, "nearest six-digit decimal");
}

static int64_t D; static int B;
// a digits, then, if b is not zero, a point and b digits
void n_point(unsigned char *p, int32_t a, int32_t b, int32_t neg) {
  if (neg) *p++ = '-'; vx_sym(p, a, "whole"); D = 0; B = b;
  for (int k = 0; k < a; k++) { vx_assume(p[k] >= '0' && p[k] <= '9'); D = D * 10 + (p[k] - '0'); } p += a;
  if (b) { *p++ = '.'; vx_sym(p, b, "fraction"); for (int k = 0; k < b; k++) { vx_assume(p[k] >= '0' && p[k] <= '9'); D = D * 10 + (p[k] - '0'); } p += b; }
  *p = 0; if (neg) D = -D; }
// a whole digits and b fraction digits, all the same known digit but the one at position k, which is free
void n_long(unsigned char *p, int32_t a, int32_t b, int32_t k, int32_t neg, int32_t fill) {
  if (neg) *p++ = '-'; D = 0; B = b; unsigned char f = vx_u8("digit"); vx_assume(f <= 9);
  for (int j = 0; j < a + b; j++) { if (j == a) *p++ = '.'; int d = j == k ? f : fill; *p++ = '0' + d; D = D * 10 + d; }
  *p = 0; if (neg) D = -D; }
void n_approxLong(double v) { double x = (double)D, y = v; static const double pw[] = {1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8}; y *= pw[B]; double d = y - x; vx_assert(d < 0.01 && d > -0.01, "parsed long number"); }
void n_approx(double v) { double x = (double)D; double y = B == 0 ? v : B == 1 ? v * 10.0 : B == 2 ? v * 100.0 : v * 1000.0;
  if (B == 0) vx_assert(v == x, "parsed whole number"); else { double d = y - x; vx_assert(d < 1e-9 && d > -1e-9, "parsed number"); } }
