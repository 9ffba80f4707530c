/* One single-threaded environment, its clock and its generated code, for the runtime-level harnesses. */
#ifndef VP_WORLD_H
#define VP_WORLD_H
#include "stubs.h"
#include "lf_types.h"
#include "environment.h"
#include "reactor_common.h"
#include "api/schedule.h"
#include "tag.h"
#include "lf_token.h"
#include "atomics.h"
environment_t env;
int _lf_get_environments(environment_t** e) { *e = &env; return 1; }
extern instant_t start_time;
/* The physical clock: arbitrary, never backwards. */
static instant_t vp_clock;
static bool vp_clock_free = true;
int lf_clock_gettime(instant_t* t) {
  if (vp_clock_free) { int64_t v = nd_i64(); ASSUME(v >= vp_clock && v < FOREVER); vp_clock = v; }
  *t = vp_clock;
  return 0;
}
static int vp_disabled;
int lf_disable_interrupts_nested(void) { vp_disabled++; return 0; }
int lf_enable_interrupts_nested(void) { CHECK(vp_disabled > 0, "critical sections are left as often as entered"); vp_disabled--; return 0; }
int _lf_single_threaded_notify_of_event(void) { return 0; }
static inline int vp_cmp(tag_t a, tag_t b) {
  if (a.time != b.time) return a.time < b.time ? -1 : 1;
  if (a.microstep != b.microstep) return a.microstep < b.microstep ? -1 : 1;
  return 0;
}
/* A tag at which execution can be: a finite time from 1970 on, microstep far from wrapping. */
static inline tag_t vp_finite_tag(void) {
  tag_t t; t.time = nd_i64(); t.microstep = nd_u32();
  ASSUME(t.time >= 0 && t.time < FOREVER && t.microstep < 0x7fffffff);
  return t;
}
static inline instant_t vp_sat(instant_t a, interval_t b) {
  if (a == NEVER || b == NEVER) return NEVER;
  if (a == FOREVER || b == FOREVER) return FOREVER;
  if (b > 0 && a > FOREVER - b) return FOREVER;
  if (b < 0 && a < NEVER - b) return NEVER;
  return a + b;
}
static inline event_t* vp_event(void) { static const event_t zero; event_t* e = (event_t*)malloc(sizeof(event_t)); *e = zero; return e; }
#endif
