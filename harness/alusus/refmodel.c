// Reference model of shared ownership for C22: explicit counts over object ids.
#include "vx.h"
#include <stdlib.h>
#define NO 16
static int cnt[NO], nxt[NO], alive[NO], made, S[8], toks;
void r_reset(void) { made = 0; toks = 0; for (int i = 0; i < 8; i++) S[i] = -1; }
static void drop(int o) { if (o < 0) return; if (--cnt[o] == 0) { int n = nxt[o]; alive[o] = 0; nxt[o] = -1; drop(n); } }
static void put(int *slot, int o) { if (o >= 0) cnt[o]++; int old = *slot; *slot = o; drop(old); }
int32_t r_new(int32_t i) { int o = made++; cnt[o] = 0; nxt[o] = -1; alive[o] = 1; put(&S[i], o); return o; }
void r_assign(int32_t i, int32_t j) { put(&S[i], S[j]); }
void r_release(int32_t i) { put(&S[i], -1); }
void r_next(int32_t i, int32_t j) { put(&nxt[S[i]], S[j]); }
void r_advance(int32_t i, int32_t j) { put(&S[i], nxt[S[j]]); }
int32_t r_obj(int32_t i) { return S[i]; }
int32_t r_nextOf(int32_t i) { return nxt[S[i]]; }
int32_t r_alive(int32_t o) { return o >= 0 && alive[o]; }
int32_t r_count(int32_t i) { return S[i] < 0 ? 0 : cnt[S[i]]; }
int32_t *obj_new(void) { int32_t *p = malloc(4); *p = 77; toks++; return p; }
void obj_check(int32_t *p) { vx_assert(*p == 77, "object is alive"); }
void obj_free(int32_t *p) { vx_assert(*p == 77, "destroyed object was alive"); free(p); toks--; }
void r_check(void) { int n = 0; for (int i = 0; i < made; i++) n += alive[i]; vx_assert(n == toks, "exactly the owned objects are alive"); }
