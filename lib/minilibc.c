// Reference definitions of the C library text functions, linked into every
// harness so that they are executed symbolically. Semantics per ISO C.
#include <stddef.h>
#include <stdint.h>
#include <wchar.h>
#define W __attribute__((weak))
void vx_fail(const char *what) __attribute__((noreturn));
void vx_overlap(const void *d, const void *s, size_t n); // undefined behaviour if [d,d+n) and [s,s+n) overlap
W size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
W int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
W int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
W char *strcpy(char *d, const char *s) { char *r = d; if (d != s) vx_overlap(d, s, strlen(s) + 1); while ((*d++ = *s++)); return r; }
W char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
W char *strcat(char *d, const char *s) { char *r = d; while (*d) d++; while ((*d++ = *s++)); return r; }
W char *strncat(char *d, const char *s, size_t n) { char *r = d; while (*d) d++; for (; n && *s; n--) *d++ = *s++; *d = 0; return r; }
W char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
W char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
W char *strstr(const char *h, const char *n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char *)h; if (!*h) return 0; } }
W void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void *)s; return 0; }
W size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
W size_t wcslen(const wchar_t *s) { size_t n = 0; while (s[n]) n++; return n; }
W int wcscmp(const wchar_t *a, const wchar_t *b) { while (*a && *a == *b) { a++; b++; } return *a < *b ? -1 : *a > *b; }
W int wcsncmp(const wchar_t *a, const wchar_t *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; } return 0; }
W wchar_t *wcscpy(wchar_t *d, const wchar_t *s) { wchar_t *r = d; while ((*d++ = *s++)); return r; }
W wchar_t *wcsncpy(wchar_t *d, const wchar_t *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
W wchar_t *wcscat(wchar_t *d, const wchar_t *s) { wchar_t *r = d; while (*d) d++; while ((*d++ = *s++)); return r; }
W wchar_t *wcsncat(wchar_t *d, const wchar_t *s, size_t n) { wchar_t *r = d; while (*d) d++; for (; n && *s; n--) *d++ = *s++; *d = 0; return r; }
W wchar_t *wcschr(const wchar_t *s, wchar_t c) { for (;; s++) { if (*s == c) return (wchar_t *)s; if (!*s) return 0; } }
W wchar_t *wcsrchr(const wchar_t *s, wchar_t c) { const wchar_t *r = 0; for (;; s++) { if (*s == c) r = s; if (!*s) return (wchar_t *)r; } }
W wchar_t *wcsstr(const wchar_t *h, const wchar_t *n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (wchar_t *)h; if (!*h) return 0; } }
W wchar_t *wmemchr(const wchar_t *s, wchar_t c, size_t n) { for (; n; n--, s++) if (*s == c) return (wchar_t *)s; return 0; }
W wchar_t *wmemcpy(wchar_t *d, const wchar_t *s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
W wchar_t *wmemmove(wchar_t *d, const wchar_t *s, size_t n) { if (d < s) for (size_t i = 0; i < n; i++) d[i] = s[i]; else while (n--) d[n] = s[n]; return d; }
W wchar_t *wmemset(wchar_t *d, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
W int wmemcmp(const wchar_t *a, const wchar_t *b, size_t n) { for (; n; n--, a++, b++) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
W int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
W int isdigit(int c) { return c >= '0' && c <= '9'; }
W int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
W int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
W int abs(int x) { return x < 0 ? (int)(0u - (unsigned)x) : x; }
W long long llabs(long long x) { return x < 0 ? (long long)(0ull - (unsigned long long)x) : x; }
W long labs(long x) { return x < 0 ? (long)(0ul - (unsigned long)x) : x; }

// String streams (libstdc++ layout, so that inlined library code works on them): the text is kept in the stringbuf's own std::string (s+96) and put
// pointers (s+56 begin, s+64 current); the ostream (s+16) is recognised by its vtable. Any other output stream (cout, clog) swallows its text.
void _ZNSt6localeC1Ev(void *); void _ZNSt8ios_baseC2Ev(void *); void _ZdlPv(void *); void *_Znwm(size_t); int snprintf(char *, size_t, const char *, ...);
typedef struct { char *p; size_t n; char b[16]; } Str_;
static long vt_i[4] = {128, 0, 0, 0}, vt_o[4] = {112, 0, 0, 0};
#define OSTR(o) ((Str_ *)((o) + 80))
#define OBEG(o) (*(char **)((o) + 40))
#define OCUR(o) (*(char **)((o) + 48))
#define OEND(o) (*(char **)((o) + 56))
static void at_(char *o, size_t pos) { Str_ *t = OSTR(o); OBEG(o) = t->p; OCUR(o) = t->p + pos; OEND(o) = t->p + t->n; }
void _ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev(char *s) { for (int i = 0; i < 392; i++) s[i] = 0; _ZNSt6localeC1Ev(s + 80); _ZNSt8ios_baseC2Ev(s + 128);
  *(long **)s = vt_i + 3; *(long **)(s + 16) = vt_o + 3; OSTR(s + 16)->p = OSTR(s + 16)->b; at_(s + 16, 0); }
void _ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev(char *s) { Str_ *t = OSTR(s + 16); if (t->p != t->b) _ZdlPv(t->p); t->p = t->b; }
void _ZNSt7__cxx1115basic_stringbufIcSt11char_traitsIcESaIcEE7_M_syncEPcmm(char *b, char *base, size_t i, size_t o) { at_(b - 8, o); }
static void *put_(char *o, const char *v, size_t n) {
  if (*(long **)o != vt_o + 3) return o;
  Str_ *t = OSTR(o); size_t pos = OCUR(o) - OBEG(o), cap = t->p == t->b ? 15 : *(size_t *)t->b;
  if (pos + n > cap) { size_t nc = (pos + n) * 2; char *q = _Znwm(nc + 1); for (size_t i = 0; i < t->n; i++) q[i] = t->p[i]; if (t->p != t->b) _ZdlPv(t->p); t->p = q; *(size_t *)t->b = nc; }
  for (size_t i = 0; i < n; i++) t->p[pos + i] = v[i];
  pos += n; if (pos > t->n) { t->n = pos; t->p[pos] = 0; } at_(o, pos); return o;
}
void _ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv(void *r, const char *s) { Str_ *o = r; const Str_ *t = OSTR(s + 16); o->p = o->b;
  if (t->n > 15) { o->p = _Znwm(t->n + 1); *(size_t *)o->b = t->n; } o->n = t->n; for (size_t i = 0; i <= t->n; i++) o->p[i] = t->p[i]; }
typedef struct { long off, state; } Pos_;
Pos_ _ZNSo5tellpEv(char *o) { Pos_ p = {*(long **)o == vt_o + 3 ? OCUR(o) - OBEG(o) : 0, 0}; return p; }
static void *num_(char *o, unsigned long v, int neg) { char b[24]; int i = 24; if (*(long **)o != vt_o + 3) return o;
  if ((*(int *)(o + 112 + 24) & 0x4a) == 8) { do b[--i] = "0123456789abcdef"[v & 15]; while (v >>= 4); return put_(o, b + i, 24 - i); } do b[--i] = '0' + v % 10; while (v /= 10); if (neg) b[--i] = '-'; return put_(o, b + i, 24 - i); }
void *_ZNSolsEi(void *s, int v) { return num_(s, v < 0 ? -(long)v : v, v < 0); }
void *_ZNSolsEj(void *s, unsigned v) { return num_(s, v, 0); }
void *_ZNSolsEl(void *s, long v) { return num_(s, v < 0 ? 0ul - v : v, v < 0); }
void *_ZNSolsEm(void *s, unsigned long v) { return num_(s, v, 0); }
void *_ZNSo9_M_insertIlEERSoT_(void *s, long v) { return _ZNSolsEl(s, v); }
void *_ZNSo9_M_insertImEERSoT_(void *s, unsigned long v) { return num_(s, v, 0); }
void *_ZNSo9_M_insertIdEERSoT_(void *s, double v) { char b[40]; return put_(s, b, snprintf(b, 40, "%g", v)); }
void *_ZNSo9_M_insertIPKvEERSoT_(void *s, void *v) { return s; }
void *_ZNSo3putEc(void *s, char c) { return put_(s, &c, 1); }
void *_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c(void *s, char c) { return put_(s, &c, 1); }
void *_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(void *s, const char *v) { return put_(s, v, strlen(v)); }
void *_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void *s, const char *v, long n) { return put_(s, v, n); }
void _ZNSt9exceptionD2Ev(void *s) {}
void _ZNSt9exceptionD1Ev(void *s) {}

// UTF-8 <-> wide conversion of the standard locale facet (called through its native vtable; see run.inc). 0 ok, 1 partial, 2 error.
int _ZNKSt7codecvtIwc11__mbstate_tE5do_inERS0_PKcS4_RS4_PwS6_RS6_(void *self, void *st, const unsigned char *f, const unsigned char *fe, const unsigned char **fn, wchar_t *t, wchar_t *te, wchar_t **tn) {
  int r = 0;
  while (f < fe && t < te) {
    unsigned c = *f, n, v;
    if (c < 0x80) n = 1, v = c; else if (c < 0xC2) { r = 2; break; } else if (c < 0xE0) n = 2, v = c & 31; else if (c < 0xF0) n = 3, v = c & 15; else if (c < 0xF5) n = 4, v = c & 7; else { r = 2; break; }
    unsigned i = 1; while (i < n && f + i < fe && (f[i] & 0xC0) == 0x80) v = v << 6 | (f[i] & 63), i++;
    if (i < n) { r = f + i < fe ? 2 : 1; break; }
    if ((n == 3 && v < 0x800) || (n == 4 && (v < 0x10000 || v > 0x10FFFF)) || (v >= 0xD800 && v < 0xE000)) { r = 2; break; }
    *t++ = v; f += n;
  }
  if (!r && f < fe) r = 1;
  *fn = f; *tn = t; return r;
}
int _ZNKSt7codecvtIwc11__mbstate_tE6do_outERS0_PKwS4_RS4_PcS6_RS6_(void *self, void *st, const wchar_t *f, const wchar_t *fe, const wchar_t **fn, char *t, char *te, char **tn) {
  int r = 0;
  while (f < fe) {
    unsigned v = *f, n = v < 0x80 ? 1 : v < 0x800 ? 2 : v < 0x10000 ? 3 : 4; if (v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) { r = 2; break; }
    if (t + n > te) { r = 1; break; }
    if (n == 1) *t++ = v; else { *t++ = (n == 2 ? 0xC0 : n == 3 ? 0xE0 : 0xF0) | v >> 6 * (n - 1); for (int i = n - 2; i >= 0; i--) *t++ = 0x80 | (v >> 6 * i & 63); } f++;
  }
  *fn = f; *tn = t; return r;
}
// Hashed containers: one bucket and one hash value for everything (the contents of a container do not depend on either), so that keys are compared as values.
typedef struct { _Bool b; size_t n; } Rehash_;
Rehash_ _ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(const void *p, size_t b, size_t e, size_t i) { Rehash_ r = {0, 0}; return r; }
size_t _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(const void *p, size_t n) { return 1; }
size_t _ZSt11_Hash_bytesPKvmm(const void *p, size_t n, size_t seed) { return 0; }
// The process environment as seen by the code: no environment variables, program and working directory /x.
W char *getenv(const char *n) { return 0; }
W char *getcwd(char *b, size_t n) { return strcpy(b, "/x"); }
W long readlink(const char *p, char *b, size_t n) { strcpy(b, "/x/alusus"); return 9; }
W char *realpath(const char *p, char *b) { return b ? strcpy(b, p) : 0; }
W long strtol(const char *s, char **e, int base) {
  const char *p = s; while (isspace(*p)) p++; int neg = *p == '-'; if (*p == '-' || *p == '+') p++;
  const char *b = p; long v = 0; while (*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0');
  if (e) *e = (char *)(p == b ? s : p); return neg ? -v : v;
}
static int errno_; W int *__errno_location(void) { return &errno_; }
W long __isoc23_strtol(const char *s, char **e, int base) { return strtol(s, e, base); }
// Exact where one correctly rounded operation gives the nearest value: up to seven digits, powers of ten up to ten.
W float strtof(const char *s, char **e) {
  static const float P[] = {1, 1e1f, 1e2f, 1e3f, 1e4f, 1e5f, 1e6f, 1e7f, 1e8f, 1e9f, 1e10f};
  const char *p = s; int neg = *p == '-', n = 0, x = 0; uint32_t m = 0; if (*p == '-' || *p == '+') p++;
  while (*p >= '0' && *p <= '9') m = m * 10 + (*p++ - '0'), n++;
  if (*p == '.') { p++; while (*p >= '0' && *p <= '9') m = m * 10 + (*p++ - '0'), n++, x--; }
  if (n == 0 || n > 7) vx_fail("model: strtof");
  if (*p == 'e' || *p == 'E') { const char *q = p + 1; int sg = *q == '-', v = 0; if (*q == '-' || *q == '+') q++; if (*q >= '0' && *q <= '9') { while (*q >= '0' && *q <= '9') v = v * 10 + (*q++ - '0'); x += sg ? -v : v; p = q; } }
  if (x < -10 || x > 10) vx_fail("model: strtof");
  if (e) *e = (char *)p; float r = m; r = x < 0 ? r / P[-x] : r * P[x]; return neg ? -r : r;
}
W double strtod(const char *s, char **e) {
  static const double P[] = {1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10};
  const char *p = s; int neg = *p == '-', n = 0, x = 0; uint32_t m = 0; if (*p == '-' || *p == '+') p++;
  while (*p >= '0' && *p <= '9') m = m * 10 + (*p++ - '0'), n++;
  if (*p == '.') { p++; while (*p >= '0' && *p <= '9') m = m * 10 + (*p++ - '0'), n++, x--; }
  if (n == 0 || n > 7) vx_fail("model: strtod");
  if (*p == 'e' || *p == 'E') { const char *q = p + 1; int sg = *q == '-', v = 0; if (*q == '-' || *q == '+') q++; if (*q >= '0' && *q <= '9') { while (*q >= '0' && *q <= '9') v = v * 10 + (*q++ - '0'); x += sg ? -v : v; p = q; } }
  if (x < -10 || x > 10) vx_fail("model: strtod");
  if (e) *e = (char *)p; double r = m; r = x < 0 ? r / P[-x] : r * P[x]; return neg ? -r : r;
}
