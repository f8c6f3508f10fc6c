// Reference model of sequences for C20 (and of finite maps for C21): plain C arrays.
#include "vx.h"
#include <stdlib.h>
static int32_t A[8][64]; static int L[8];
int32_t a_len(int32_t i) { return L[i]; }
int32_t a_at(int32_t i, int32_t k) { return A[i][k]; }
void a_clear(int32_t i) { L[i] = 0; }
void a_copy(int32_t i, int32_t j) { if (i == j) return; for (int k = 0; k < L[j]; k++) A[i][k] = A[j][k]; L[i] = L[j]; }
void a_add(int32_t i, int32_t v) { A[i][L[i]++] = v; }
void a_cat(int32_t i, int32_t j) { int n = L[j]; for (int k = 0; k < n; k++) A[i][L[i] + k] = A[j][k]; L[i] += n; }
void a_insert(int32_t i, int32_t at, int32_t v) { if (at < 0 || at >= L[i]) { a_add(i, v); return; } for (int k = L[i]; k > at; k--) A[i][k] = A[i][k - 1]; A[i][at] = v; L[i]++; }
void a_set(int32_t i, int32_t at, int32_t v) { if (at < 0 || at >= L[i]) { a_add(i, v); return; } A[i][at] = v; }
void a_remove(int32_t i, int32_t at) { if (at < 0 || at >= L[i]) return; for (int k = at; k + 1 < L[i]; k++) A[i][k] = A[i][k + 1]; L[i]--; }
void a_slice(int32_t i, int32_t j, int32_t from, int32_t n) { int32_t t[64]; int c = 0; for (int k = from; k < L[j] && c < n; k++) t[c++] = A[j][k]; for (int k = 0; k < c; k++) A[i][k] = t[k]; L[i] = c; }
int32_t a_find(int32_t i, int32_t v) { int r = -1; for (int k = L[i] - 1; k >= 0; k--) r = A[i][k] == v ? k : r; return r; }
// tokens: every live element owns one, so a missed or repeated destruction is a leak or an invalid access
int32_t *tok_new(int32_t v) { int32_t *p = malloc(4); *p = v; return p; }
void tok_check(int32_t *p, int32_t v) { vx_assert(*p == v, "element is alive and intact"); }
void tok_free(int32_t *p) { free(p); }
// maps: parallel sequences i (keys) and i+4 (values)
int32_t mp_pos(int32_t i, int32_t k) { for (int n = 0; n < L[i]; n++) if (A[i][n] == k) return n; return -1; }
void mp_set(int32_t i, int32_t k, int32_t v) { int n = mp_pos(i, k); if (n < 0) { a_add(i, k); a_add(i + 4, v); } else A[i + 4][n] = v; }
void mp_remove_at(int32_t i, int32_t n) { a_remove(i, n); a_remove(i + 4, n); }
void mp_insert(int32_t i, int32_t at, int32_t k, int32_t v) { a_insert(i, at, k); a_insert(i + 4, at, v); }
void mp_set_at(int32_t i, int32_t at, int32_t v) { A[i + 4][at] = v; }
void mp_copy(int32_t i, int32_t j) { a_copy(i, j); a_copy(i + 4, j + 4); }
void mp_clear(int32_t i) { L[i] = L[i + 4] = 0; }
int32_t mp_key(int32_t i, int32_t n) { return A[i][n]; }
int32_t mp_val(int32_t i, int32_t n) { return A[i + 4][n]; }
