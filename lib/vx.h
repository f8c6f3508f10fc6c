// Harness interface: implemented by the symbolic executor (symex/models.inc) and,
// for replay on native code, by lib/vxstub.c.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void vx_sym(void *p, int64_t n, const char *name);      // n symbolic bytes
uint8_t vx_u8(const char *name); uint16_t vx_u16(const char *name); uint32_t vx_u32(const char *name); uint64_t vx_u64(const char *name);
double vx_f64(const char *name); float vx_f32(const char *name);
int32_t vx_range(int32_t lo, int32_t hi, const char *name); // symbolic, lo <= v <= hi
int32_t vx_choose(int32_t n, const char *name);          // every value below n, one path each
int32_t vx_fork(int32_t v);                              // one path per feasible value of v
void vx_assume(int32_t c);
void vx_assert(int32_t c, const char *what);
void vx_fail(const char *what) __attribute__((noreturn));
void vx_cover(const char *what);                         // reachability witness
int32_t vx_live(void);                                   // live heap blocks
void vx_note(const char *what); void vx_note_i(const char *what, int64_t v);
int32_t vx_symbolic(void);
#ifdef __cplusplus
}
#endif
