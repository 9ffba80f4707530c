#include "vp.h"
#include "tag.h"
static tag_t nd_tag(void) { tag_t t; t.time = nd_i64(); t.microstep = nd_u32(); return t; }
static int ref_cmp(tag_t a, tag_t b) {
  if (a.time != b.time) return a.time < b.time ? -1 : 1;
  if (a.microstep != b.microstep) return a.microstep < b.microstep ? -1 : 1;
  return 0;
}
void h_tag_order(void) {
  tag_t a = nd_tag(), b = nd_tag(), c = nd_tag();
  int r = lf_tag_compare(a, b);
  CHECK(r == ref_cmp(a, b), "comparison is lexicographic in (time, microstep)");
  CHECK(lf_tag_compare(b, a) == -r, "comparison is antisymmetric");
  if (r <= 0 && lf_tag_compare(b, c) <= 0) {
    CHECK(lf_tag_compare(a, c) <= 0, "comparison is transitive");
    WITNESS("transitive triple");
  }
  if (r == 0) WITNESS("equal tags");
}
/* The documented sum. FOREVER + NEVER is the documented past infinity. */
static int64_t ref_add(int64_t a, int64_t b) {
  if (a == NEVER || b == NEVER) return NEVER;
  if (a == FOREVER || b == FOREVER) return FOREVER;
  __int128 s = (__int128)a + b;
  return s >= FOREVER ? FOREVER : s <= NEVER ? NEVER : (int64_t)s;
}
void h_time_add(void) {
  int64_t a = nd_i64(), b = nd_i64();
  int64_t r = lf_time_add(a, b);
  CHECK(r == ref_add(a, b), "sum is exact or saturates on its side");
  if (r == FOREVER && a != FOREVER && b != FOREVER) WITNESS("overflow");
  if (r == NEVER && a != NEVER && b != NEVER) WITNESS("underflow");
}
void h_tag_add(void) {
  tag_t a = nd_tag(), b = nd_tag();
  tag_t r = lf_tag_add(a, b);
  int64_t t = ref_add(a.time, b.time);
  if (t == FOREVER) CHECK(ref_cmp(r, FOREVER_TAG) == 0, "infinite future result is the forever tag");
  else if (t == NEVER) CHECK(ref_cmp(r, NEVER_TAG) == 0, "infinite past result is the never tag");
  else {
    uint64_t m = (b.time > 0 ? 0 : (uint64_t)a.microstep) + b.microstep;
    if (m > UINT32_MAX) { CHECK(ref_cmp(r, FOREVER_TAG) == 0, "microstep overflow saturates at forever"); WITNESS("microstep overflow"); }
    else { CHECK(r.time == t && r.microstep == m, "tag sum is exact"); WITNESS("finite sum"); }
  }
  /* A non-negative delay never moves a tag backwards. */
  if (b.time >= 0 && a.time != NEVER) CHECK(ref_cmp(r, a) >= 0 || a.time == FOREVER, "adding a non-negative tag does not go back");
}
