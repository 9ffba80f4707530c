#include "stubs.h"
#include "pqueue_tag.h"
#include "vp_realloc.h"
#ifndef N
#define N 4
#endif
#ifndef CAP
#define CAP N
#endif
/* An element with a payload, as the event and in-transit queues use it. */
typedef struct { pqueue_tag_element_t base; int payload; } elem_t;
static tag_t tags[N];
static elem_t* el[N];
static bool in[N];
static int count;
static int eq(void* a, void* b) { return ((elem_t*)a)->payload == ((elem_t*)b)->payload; }
static void prt(void* e) {}
/* Ties and orders of N tags in both fields are covered by times and microsteps in 0..3 plus the infinite tags. */
static tag_t nd_tag(void) {
  tag_t t;
  uint8_t c = nd_u8();
  t.time = (c & 3); t.microstep = ((c >> 2) & 3);
  if (c & 16) t = FOREVER_TAG;
  else if (c & 32) t = NEVER_TAG;
  return t;
}
#ifndef SPLIT
#define SPLIT 2
#endif
static int cmp(tag_t a, tag_t b) {
  if (a.time != b.time) return a.time < b.time ? -1 : 1;
  if (a.microstep != b.microstep) return a.microstep < b.microstep ? -1 : 1;
  return 0;
}
static pqueue_tag_t* make(int n, int cap) {
  pqueue_tag_t* q = pqueue_tag_init_customize(cap, pqueue_tag_compare, eq, prt);
  CHECK(pqueue_tag_size(q) == 0 && cmp(pqueue_tag_peek_tag(q), FOREVER_TAG) == 0 && pqueue_tag_peek(q) == NULL && pqueue_tag_pop(q) == NULL, "an empty queue has no head and reports forever");
  for (int i = 0; i < n; i++) {
    el[i] = (elem_t*)malloc(sizeof(elem_t));
    el[i]->base.tag = tags[i] = nd_tag();
    el[i]->base.is_dynamic = 1;
    el[i]->payload = i;
    CHECK(pqueue_tag_insert(q, &el[i]->base) == 0, "insertion succeeds");
    in[i] = true; count++;
  }
  return q;
}
static tag_t least(void) {
  tag_t m = FOREVER_TAG;
  for (int i = 0; i < N; i++) if (in[i] && cmp(tags[i], m) < 0) m = tags[i];
  return m;
}
static void drain(pqueue_tag_t* q) {
  for (int k = 0; k < N; k++) {
    tag_t m = least();
    CHECK(cmp(pqueue_tag_peek_tag(q), m) == 0, "the reported head tag is the least queued tag or forever");
    CHECK(pqueue_tag_size(q) == (size_t)count, "size is the number of elements");
    elem_t* e = (elem_t*)pqueue_tag_pop(q);
    if (count == 0) { CHECK(e == NULL, "nothing left"); continue; }
    CHECK(e != NULL, "an element is left");
    int i = e->payload;
    CHECK(i >= 0 && i < N && el[i] == e && in[i], "pop returns an element of the queue once");
    CHECK(cmp(e->base.tag, m) == 0, "pop returns an element with the least tag");
    in[i] = false; count--;
    free(e);
  }
  CHECK(count == 0 && pqueue_tag_size(q) == 0, "everything came out");
}
void h_tq_sort(void) { pqueue_tag_t* q = make(N, 1); drain(q); pqueue_tag_free(q); WITNESS("sorted"); }
void h_tq_remove(void) {
  pqueue_tag_t* q = make(N, N);
  int k = nd_range(0, N - 1);
  pqueue_tag_remove(q, &el[k]->base); in[k] = false; count--;
  drain(q); WITNESS("removed");
}
void h_tq_find(void) {
  pqueue_tag_t* q = make(N, N);
  tag_t t = nd_tag(); bool any = false;
  for (int i = 0; i < N; i++) any |= cmp(tags[i], t) == 0;
  pqueue_tag_element_t* f = pqueue_tag_find_with_tag(q, t);
  CHECK((f != NULL) == any, "an element with the tag is found exactly if there is one");
  if (f) { CHECK(cmp(f->tag, t) == 0, "the element found has the tag"); WITNESS("found"); }
  elem_t probe; probe.base.tag = t; probe.payload = nd_range(0, N - 1);
  elem_t* g = (elem_t*)pqueue_tag_find_equal_same_tag(q, &probe.base);
  bool match = cmp(tags[probe.payload], t) == 0;
  CHECK((g != NULL) == match, "an equal element at the tag is found exactly if there is one");
  if (g) { CHECK(g->payload == probe.payload && cmp(g->base.tag, t) == 0, "the equal element matches"); WITNESS("match"); }
  WITNESS("looked up");
}
void h_tq_remove_up_to(void) {
  pqueue_tag_t* q = make(N, N);
  tag_t t = nd_tag(); int left = 0;
  for (int i = 0; i < N; i++) if (cmp(tags[i], t) <= 0) in[i] = false; else left++;
  pqueue_tag_remove_up_to(q, t);
  count = left;
  CHECK(pqueue_tag_size(q) == (size_t)left, "exactly the elements up to the tag are removed");
  CHECK(cmp(pqueue_tag_peek_tag(q), least()) == 0, "the least remaining tag is the head");
  WITNESS("removed up to");
}
void h_tq_insert_if_absent(void) {
  /* SIZE distinct tags queued (the state every sequence of insert-if-absent leads to), then one more. */
  pqueue_tag_t* q = pqueue_tag_init(N + 1);
  tag_t s[N];
  for (int i = 0; i < N; i++) {
    s[i] = nd_tag();
    for (int j = 0; j < i; j++) ASSUME(cmp(s[j], s[i]) != 0);
    pqueue_tag_insert_tag(q, s[i]);
  }
  tag_t t = nd_tag(); bool dup = false;
  for (int i = 0; i < N; i++) dup |= cmp(s[i], t) == 0;
  int r = pqueue_tag_insert_if_no_match(q, t);
  CHECK(r == (dup ? 1 : 0), "insert-if-absent reports whether it inserted");
  CHECK(pqueue_tag_size(q) == (size_t)(dup ? N : N + 1), "one element per tag");
  if (dup) WITNESS("kept");
  tag_t m = t;
  for (int i = 0; i < N; i++) if (cmp(s[i], m) < 0) m = s[i];
  CHECK(cmp(pqueue_tag_peek_tag(q), m) == 0, "the least tag is the head");
  WITNESS("inserted");
}
void h_tq_empty_into(void) {
  pqueue_tag_t* a = pqueue_tag_init(N);
  pqueue_tag_t* b = pqueue_tag_init(N);
  tag_t s[N];
  for (int i = 0; i < N; i++) { s[i] = nd_tag(); pqueue_tag_insert_tag(i < SPLIT ? a : b, s[i]); }
  pqueue_empty_into((pqueue_t**)&a, (pqueue_t**)&b);
  CHECK(pqueue_tag_size(a) == N && pqueue_tag_size(b) == 0, "every element moved");
  tag_t prev = NEVER_TAG;
  tag_t w = nd_tag(); int before = 0, after = 0; /* multiplicity of an arbitrary tag is preserved */
  for (int i = 0; i < N; i++) before += cmp(s[i], w) == 0;
  for (int i = 0; i < N; i++) {
    tag_t t = pqueue_tag_pop_tag(a);
    CHECK(cmp(prev, t) <= 0, "tags come out in order");
    prev = t; after += cmp(t, w) == 0;
  }
  CHECK(before == after, "no tag lost or duplicated");
  WITNESS("moved");
}
