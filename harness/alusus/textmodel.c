// Reference model of text operations for C17: registers of characters, any width.
#include "vx.h"
#define N 64
static int32_t M[10][N]; static int L[10];
static int32_t rd(const void *p, int w, int64_t k) { return w == 1 ? ((const uint8_t *)p)[k] : ((const int32_t *)p)[k]; }
static void wr(void *p, int w, int64_t k, int32_t v) { if (w == 1) ((uint8_t *)p)[k] = v; else ((int32_t *)p)[k] = v; }
int32_t x_len(int32_t i) { return L[i]; }
int32_t x_at(int32_t i, int32_t k) { return k >= 0 && k < L[i] ? M[i][k] : 0; }
// n symbolic non-zero characters at p and in register i
void x_text(int32_t i, void *p, int32_t n, int32_t w, const char *name) {
  vx_sym(p, n * w, name); for (int k = 0; k < n; k++) { int32_t c = rd(p, w, k); vx_assume(c != 0); if (w == 4) vx_assume(c > 0 && c < 0x110000); M[i][k] = c; } wr(p, w, n, 0); L[i] = n; }
void x_check(int32_t i, const void *p, int32_t w, const char *what) { uint32_t bad = 0; for (int k = 0; k < L[i]; k++) bad |= rd(p, w, k) ^ M[i][k]; bad |= rd(p, w, L[i]); vx_assert(bad == 0, what); }
static int at(int i, int k, int j) { if (k + L[j] > L[i]) return 0; int ok = 1; for (int q = 0; q < L[j]; q++) ok &= M[i][k + q] == M[j][q]; return ok; }
int32_t x_find(int32_t i, int32_t from, int32_t j) { if (from < 0) from = 0; int r = -1; for (int k = L[i]; k >= from; k--) r = at(i, k, j) ? k : r; return r; }
int32_t x_findLast(int32_t i, int32_t j) { int r = -1; for (int k = 0; k <= L[i]; k++) r = at(i, k, j) ? k : r; return r; }
int32_t x_findC(int32_t i, int32_t from, int32_t c) { if (from < 0) from = 0; int r = -1; for (int k = L[i] - 1; k >= from; k--) r = M[i][k] == c ? k : r; return r; }
int32_t x_findLastC(int32_t i, int32_t c) { int r = -1; for (int k = 0; k < L[i]; k++) r = M[i][k] == c ? k : r; return r; }
int32_t x_cmp(int32_t i, int32_t j, int32_t n) { for (int k = 0; k < n; k++) { int a = x_at(i, k), b = x_at(j, k); if (a != b) return a < b ? -1 : 1; if (!a) return 0; } return 0; }
void x_copy(int32_t d, int32_t i) { for (int k = 0; k < L[i]; k++) M[d][k] = M[i][k]; L[d] = L[i]; }
void x_cat(int32_t d, int32_t i) { int n = L[i]; for (int k = 0; k < n; k++) M[d][L[d] + k] = M[i][k]; L[d] += n; }
void x_addc(int32_t d, int32_t c) { M[d][L[d]++] = c; }
void x_slice(int32_t d, int32_t i, int32_t from, int32_t n) { int c = 0; if (from >= 0) for (int k = from; k < L[i] && c < n; k++) M[d][c++] = M[i][k]; L[d] = c; }
static int sp(int32_t c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
void x_trim(int32_t d, int32_t i, int32_t s, int32_t e) { int a = 0, b = L[i]; if (s) while (a < b && sp(M[i][a])) a++; if (e) while (b > a && sp(M[i][b - 1])) b--; x_slice(d, i, a, b - a); }
void x_upper(int32_t d, int32_t i) { for (int k = 0; k < L[i]; k++) { int c = M[i][k]; M[d][k] = c >= 'a' && c <= 'z' ? c - 32 : c; } L[d] = L[i]; }
void x_lower(int32_t d, int32_t i) { for (int k = 0; k < L[i]; k++) { int c = M[i][k]; M[d][k] = c >= 'A' && c <= 'Z' ? c + 32 : c; } L[d] = L[i]; }
// non-overlapping occurrences from the left; an empty match leaves the text as it is
void x_replace(int32_t d, int32_t i, int32_t j, int32_t r) { L[d] = 0; for (int k = 0; k < L[i];) { if (L[j] && at(i, k, j)) { x_cat(d, r); k += L[j]; } else x_addc(d, M[i][k++]); } }
// piece q of splitting i by j; the number of pieces when q < 0
int32_t x_split(int32_t d, int32_t i, int32_t j, int32_t q) { int c = 0; L[d] = 0; for (int k = 0; k < L[i];) { if (L[j] && at(i, k, j)) { c++; k += L[j]; } else { if (c == q) x_addc(d, M[i][k]); k++; } } return c + 1; }
void x_removeC(int32_t d, int32_t c) { int n = 0; for (int k = 0; k < L[d]; k++) if (M[d][k] != c) M[d][n++] = M[d][k]; L[d] = n; }
void x_replaceC(int32_t d, int32_t a, int32_t b) { for (int k = 0; k < L[d]; k++) if (M[d][k] == a) M[d][k] = b; }
