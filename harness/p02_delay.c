#include "vp.h"
#include "tag.h"
static tag_t nd_tag(void) { tag_t t; t.time = nd_i64(); t.microstep = nd_u32(); return t; }
static int cmp(tag_t a, tag_t b) {
  if (a.time != b.time) return a.time < b.time ? -1 : 1;
  if (a.microstep != b.microstep) return a.microstep < b.microstep ? -1 : 1;
  return 0;
}
/* Tags that occur: the microstep range is not exhausted (documented limitation of superdense time) unless forever. */
static tag_t nd_real_tag(void) { tag_t t = nd_tag(); ASSUME(t.microstep < UINT32_MAX || t.time == FOREVER); return t; }

void h_delay_value(void) {
  tag_t a = nd_real_tag(); int64_t d = nd_i64();
  tag_t r = lf_delay_tag(a, d);
  if (a.time == NEVER || d < 0) { CHECK(cmp(r, a) == 0, "no delay or infinite past: unmodified"); WITNESS("no delay"); return; }
  if (a.time == FOREVER) { CHECK(cmp(r, FOREVER_TAG) == 0, "forever stays forever"); return; }
  if (d == 0) { CHECK(r.time == a.time && r.microstep == a.microstep + 1, "zero delay is one microstep"); WITNESS("zero delay"); return; }
  __int128 s = (__int128)a.time + d;
  if (s >= FOREVER) { CHECK(cmp(r, FOREVER_TAG) == 0, "overflow saturates at forever"); WITNESS("saturates"); }
  else { CHECK(r.time == (int64_t)s && r.microstep == 0, "positive delay adds to the time and resets the microstep"); WITNESS("finite"); }
}
void h_delay_monotone(void) {
  tag_t a = nd_real_tag(), b = nd_real_tag(); int64_t d = nd_i64();
  tag_t ra = lf_delay_tag(a, d), rb = lf_delay_tag(b, d);
  CHECK(cmp(ra, a) >= 0 || a.time == FOREVER, "delayed tag is not earlier");
  if (d >= 0 && a.time != NEVER && a.time != FOREVER) CHECK(cmp(ra, a) > 0, "a real delay strictly advances");
  if (cmp(a, b) <= 0 && a.time != NEVER) { CHECK(cmp(ra, rb) <= 0, "delay preserves order"); WITNESS("ordered pair"); }
}
/* lf_delay_strict(a, d) is the greatest tag below every delay(x, d), x > a. */
void h_strict_bound(void) {
  tag_t a = nd_real_tag(), x = nd_real_tag(); int64_t d = nd_i64();
  ASSUME(a.time >= 0 || d != FOREVER); /* an infinite delay from a negative time is meaningless */
  tag_t s = lf_delay_strict(a, d);
  if (a.time == NEVER || d < 0) { CHECK(cmp(s, a) == 0, "no delay: unmodified"); WITNESS("no delay"); return; }
  if (a.time == FOREVER) { CHECK(s.time == FOREVER, "forever stays forever"); return; }
  ASSUME(cmp(x, a) > 0 && x.time != FOREVER);
  tag_t m = lf_delay_tag(x, d);
  if (m.time != FOREVER) {
    CHECK(cmp(s, m) < 0, "strict delay is below every later message");
    if (d > 0) WITNESS("positive delay");
    if (d == 0) WITNESS("zero delay");
  } else CHECK(cmp(s, FOREVER_TAG) <= 0, "bounded by forever");
}
void h_strict_tight(void) {
  tag_t a = nd_real_tag(), y = nd_tag(); int64_t d = nd_i64();
  ASSUME(a.time >= 0 || d != FOREVER);
  ASSUME(d >= 0 && a.time != NEVER && a.time != FOREVER && a.microstep + 1 < UINT32_MAX);
  tag_t s = lf_delay_strict(a, d);
  tag_t next = a; next.microstep++;              /* the earliest tag after a */
  tag_t m = lf_delay_tag(next, d);               /* the earliest message that can follow */
  ASSUME(m.time != FOREVER);
  if (cmp(y, s) > 0) { CHECK(cmp(y, m) >= 0, "nothing lies between the strict delay and the earliest message"); WITNESS("tight"); }
}
