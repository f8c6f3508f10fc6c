// Native side of the harness interface: replays a counterexample produced by the
// solver. Inputs come from the file named by VX_INPUTS (one "name hex" per line, in
// the order the harness asked for them).
#define _GNU_SOURCE
#include "vx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dlfcn.h>
#include <link.h>
#include <signal.h>
#define API __attribute__((visibility("default")))
static FILE *f; static int diverged = 0; static int counting = 0;
static void out(const char *s, const char *t) { char b[512]; int n = snprintf(b, 512, "\nVX-%s: %s\n", s, t); (void)!write(2, b, n); }
static void crash(int s) { out("REPRODUCED", s == SIGFPE ? "arith fault" : s == SIGABRT ? "abort" : "memory fault"); _exit(77); }
static void next1(void *p, size_t n, const char *name) {
  if (!f) { const char *fn = getenv("VX_INPUTS"); f = fn ? fopen(fn, "r") : 0; if (!f) { out("NOINPUT", name); _exit(78); }
    signal(SIGSEGV, crash); signal(SIGBUS, crash); signal(SIGFPE, crash); signal(SIGABRT, crash); signal(SIGILL, crash); }
  static char line[1 << 20]; memset(p, 0, n);
  if (!fgets(line, sizeof line, f)) { out("DIVERGED", name); _exit(78); }
  char *nl = strchr(line, '\n'); if (nl) *nl = 0; char *h = strrchr(line, ' '); if (!h) { out("DIVERGED", name); _exit(78); } *h++ = 0;
  if (strcmp(line, name)) { out("DIVERGED", name); _exit(78); }
  for (size_t i = 0; i < n && h[2 * i] && h[2 * i + 1]; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); ((unsigned char *)p)[i] = v; }
}
static void next(void *p, size_t n, const char *name) { int c = counting; counting = 0; next1(p, n, name); counting = c; } // the reader's own buffers do not count
API void vx_sym(void *p, int64_t n, const char *name) { next(p, n, name); }
API uint8_t vx_u8(const char *n) { uint8_t v; next(&v, 1, n); return v; }
API uint16_t vx_u16(const char *n) { uint16_t v; next(&v, 2, n); return v; }
API uint32_t vx_u32(const char *n) { uint32_t v; next(&v, 4, n); return v; }
API uint64_t vx_u64(const char *n) { uint64_t v; next(&v, 8, n); return v; }
API double vx_f64(const char *n) { double v; next(&v, 8, n); return v; }
API float vx_f32(const char *n) { float v; next(&v, 4, n); return v; }
API int32_t vx_range(int32_t lo, int32_t hi, const char *n) { (void)lo; (void)hi; return (int32_t)vx_u32(n); }
API int32_t vx_choose(int32_t k, const char *n) { (void)k; return (int32_t)vx_u32(n); }
API int32_t vx_fork(int32_t v) { return v; }
API void vx_assume(int32_t c) { if (!c) { out("ASSUME-FAILED", ""); _exit(78); } }
API void vx_assert(int32_t c, const char *w) { if (!c) { out("REPRODUCED", w); _exit(77); } }
API void vx_fail(const char *w) { out("REPRODUCED", w); _exit(77); }
API void vx_cover(const char *w) { (void)w; }
API void vx_note(const char *w) { if (getenv("VX_VERBOSE")) out("NOTE", w); }
API void vx_note_i(const char *w, int64_t v) { if (getenv("VX_VERBOSE")) { char b[200]; snprintf(b, 200, "%s=%lld", w, (long long)v); out("NOTE", b); } }
API int32_t vx_symbolic(void) { return 0; }
#ifdef VX_COUNT_MALLOC
// Live-block counting: this object overrides the allocator entry points. Only blocks requested by
// harness code count: generated (JIT) code, or libraries whose name contains "vx" or "libref".
extern void *__libc_malloc(size_t); extern void __libc_free(void *); extern void *__libc_realloc(void *, size_t); extern void *__libc_calloc(size_t, size_t);
#define HN (1 << 20)
static void *hs[HN]; static long live = 0;
static unsigned hh(void *p) { return ((uintptr_t)p >> 4) * 2654435761u % HN; }
#ifdef VX_MAIN_PROGRAM
static int mine(void *ra) { (void)ra; return counting; }
static void scan(void) {}
#else
// address ranges of loaded objects; JIT code lies in none of them
static struct { uintptr_t a, b; int ours; } rg[512]; static int nrg, lastHit;
static int addRange(struct dl_phdr_info *i, size_t z, void *d) { (void)z; (void)d; const char *b = strrchr(i->dlpi_name, '/'); b = b ? b + 1 : i->dlpi_name; int ours = strstr(b, "vxlib") || strstr(b, "libref");
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && nrg < 512) { rg[nrg].a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; rg[nrg].b = rg[nrg].a + i->dlpi_phdr[k].p_memsz; rg[nrg++].ours = ours; } return 0; }
static void scan(void) { nrg = 0; dl_iterate_phdr(addRange, 0); }
static int mine(void *ra) { if (!counting) return 0; uintptr_t a = (uintptr_t)ra; if (a >= rg[lastHit].a && a < rg[lastHit].b) return rg[lastHit].ours;
  for (int k = 0; k < nrg; k++) if (a >= rg[k].a && a < rg[k].b) { lastHit = k; return rg[k].ours; } return 1; }
#endif
static void put(void *p) { if (!p) return; unsigned k = hh(p); while (hs[k]) k = (k + 1) % HN; hs[k] = p; live++; }
static int del(void *p) { if (!counting || !p) return 0; unsigned k = hh(p); while (hs[k] && hs[k] != p) k = (k + 1) % HN; if (!hs[k]) return 0; live--;
  for (unsigned j = k;;) { hs[k] = 0; for (;;) { j = (j + 1) % HN; if (!hs[j]) return 1; unsigned h = hh(hs[j]); if (k <= j ? (h <= k || h > j) : (h <= k && h > j)) break; } hs[k] = hs[j]; k = j; } }
API void *malloc(size_t n) { void *p = __libc_malloc(n); if (counting && mine(__builtin_return_address(0))) put(p); return p; }
API void free(void *p) { del(p); __libc_free(p); }
API void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (counting && mine(__builtin_return_address(0))) put(p); return p; }
API void *realloc(void *p, size_t n) { int d = del(p); void *q = __libc_realloc(p, n); if (d || (counting && !p && mine(__builtin_return_address(0)))) put(q); return q; }
API int32_t vx_live(void) { scan(); counting = 1; return (int32_t)live; }
#else
API int32_t vx_live(void) { return 0; }
#endif
