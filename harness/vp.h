/* Common harness vocabulary.
 *
 * The same harness text is compiled twice:
 *  - by goto-cc for CBMC: ND_*() are symbolic values, CHECK() is a proof obligation, ASSUME()
 *    restricts the symbolic values, WITNESS() is a reachability obligation (an assertion that must
 *    come back VIOLATED, otherwise the harness is vacuous);
 *  - by gcc with -DVP_REPLAY: ND_*() replay the values of a solver counterexample in order against the
 *    ordinary native build of the same sources, CHECK() aborts with a message.
 */
#ifndef VP_H
#define VP_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#ifdef VP_REPLAY
#include <stdio.h>
extern FILE* vp_values;
long long vp_next(const char* what);
void vp_fail(const char* msg, const char* file, int line);
#define ND_DECL(name, type) static inline type nd_##name(void) { return (type)vp_next(#name); }
#define CHECK(c, msg) do { if (!(c)) vp_fail(msg, __FILE__, __LINE__); } while (0)
#define ASSUME(c) do { if (!(c)) { fprintf(stderr, "REPLAY-ASSUME-FALSE %s:%d\n", __FILE__, __LINE__); _Exit(77); } } while (0)
#define WITNESS(name) ((void)0)
#else
void __CPROVER_assume(_Bool);
void __CPROVER_assert(_Bool, const char*);
void __CPROVER_input(const char*, ...);
#define ND_DECL(name, type)                                                                                            \
  type nondet_##name(void);                                                                                            \
  static inline type nd_##name(void) {                                                                                 \
    type vp_v = nondet_##name();                                                                                       \
    __CPROVER_input("vp", vp_v);                                                                                       \
    return vp_v;                                                                                                       \
  }
#define CHECK(c, msg) __CPROVER_assert((c), "VP " msg)
#define ASSUME(c) __CPROVER_assume(c)
#define WITNESS(name) __CPROVER_assert(0, "WITNESS " name)
#endif

ND_DECL(i64, int64_t)
ND_DECL(u64, uint64_t)
ND_DECL(i32, int32_t)
ND_DECL(u32, uint32_t)
ND_DECL(i16, int16_t)
ND_DECL(u16, uint16_t)
ND_DECL(u8, uint8_t)
ND_DECL(size, size_t)
static inline bool nd_bool(void) { return nd_u8() & 1; }
/* A value in [lo, hi]. */
static inline int nd_range(int lo, int hi) {
  int v = nd_i32();
  ASSUME(v >= lo && v <= hi);
  return v;
}
static inline int64_t nd_range64(int64_t lo, int64_t hi) {
  int64_t v = nd_i64();
  ASSUME(v >= lo && v <= hi);
  return v;
}
#endif
