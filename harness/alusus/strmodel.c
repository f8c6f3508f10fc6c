// Reference model of string values for C16..C19: plain arrays and counts.
#include "vx.h"
#include <string.h>
static unsigned char M[6][400]; static int L[6];
int32_t m_len(int32_t i) { return L[i]; }
void m_copy(int32_t i, int32_t j) { if (i != j) { memcpy(M[i], M[j], L[j]); L[i] = L[j]; } }
void m_set(int32_t i, const unsigned char *p, int64_t n) { for (int64_t k = 0; k < n; k++) M[i][k] = p[k]; L[i] = (int)n; }
void m_add(int32_t i, const unsigned char *p, int64_t n) { for (int64_t k = 0; k < n; k++) M[i][L[i] + k] = p[k]; L[i] += (int)n; }
void m_addc(int32_t i, unsigned char c) { M[i][L[i]++] = c; }
void m_cat(int32_t i, int32_t j) { int n = L[j]; for (int k = 0; k < n; k++) M[i][L[i] + k] = M[j][k]; L[i] += n; }
void m_sub(int32_t i, int32_t j, int64_t from, int64_t n) { unsigned char t[400]; if (from > L[j]) from = L[j]; if (n > L[j] - from) n = L[j] - from; for (int64_t k = 0; k < n; k++) t[k] = M[j][from + k]; for (int64_t k = 0; k < n; k++) M[i][k] = t[k]; L[i] = (int)n; }
void m_clear(int32_t i) { L[i] = 0; }
void m_setc(int32_t i, int32_t k, unsigned char c) { M[i][k] = c; }
unsigned char m_at(int32_t i, int32_t k) { return M[i][k]; }
// the text at p must be exactly the model's text, zero terminated
void m_check(int32_t i, const unsigned char *p, const char *what) {
  uint32_t bad = 0; for (int k = 0; k < L[i]; k++) bad |= p[k] ^ M[i][k];
  bad |= p[L[i]]; vx_assert(bad == 0, what);
}
// fill p with n symbolic non-zero characters and a terminator
void m_text(unsigned char *p, int64_t n, const char *name) { vx_sym(p, n, name); for (int64_t k = 0; k < n; k++) vx_assume(p[k] != 0); p[n] = 0; }
// decimal text of a small integer
void m_int(int32_t i, int64_t v) { if (vx_fork(v < 0)) { m_addc(i, '-'); v = -v; } if (vx_fork(v >= 10)) m_addc(i, (unsigned char)('0' + v / 10)); m_addc(i, (unsigned char)('0' + v % 10)); }
