#include "stubs.h"
#include "vector.h"
/* Storage model: every block has MAXC slots; slots beyond the requested capacity hold a sentinel that must never change,
 * so reads and writes past the requested capacity are visible without symbolic-size objects. */
#ifndef MAXC
#define MAXC 24
#endif
#define SENT ((void*)0x5a5a5a5a)
static void* arena[2 * MAXC]; /* a resize moves to the other half, so that stale pointers are noticed */
static size_t cap, base;
static void** cur;
static void vp_take(size_t bytes) {
  cap = bytes / sizeof(void*);
  CHECK(cap <= MAXC, "capacity stays within the model");
  cur = arena + base;
  for (size_t i = 0; i < MAXC; i++) arena[base + i] = SENT; /* uninitialised slots */
}
void* vp_alloc(size_t bytes) { base = 0; vp_take(bytes); return cur; }
void* vp_resize(void* old, size_t bytes) {
  size_t oc = cap, ob = base;
  CHECK(old == (void*)cur, "the block being resized is the current one");
  base = MAXC - base;
  vp_take(bytes);
  for (size_t i = 0; i < MAXC; i++) if (i < oc && i < cap) arena[base + i] = arena[ob + i];
  for (size_t i = 0; i < MAXC; i++) arena[ob + i] = SENT;
  return cur;
}
void vp_free(void* p) { CHECK(p == (void*)cur, "the current block is freed"); cap = 0; }
#define free vp_free
#define malloc vp_alloc
#define realloc vp_resize
#include "core/utils/vector.c"
#undef malloc
#undef realloc
#undef free
#ifndef S
#define S 4
#endif
#ifndef C0
#define C0 2
#endif
#define MAXLEN (MAXC + 2)
static void* model[MAXLEN];
static size_t len;
static vector_t v;
static void wf(void) {
  CHECK(vector_size(&v) == len, "the size is the number of elements");
  for (size_t i = 0; i < MAXC; i++) if (i >= cap) CHECK(arena[base + i] == SENT, "nothing is stored past the capacity");
}
/* Distinct non-null elements carry a number. */
static void* elem(void) { uint8_t x = nd_u8(); ASSUME(x != 0); return (void*)(uintptr_t)x; }
/* Any state a vector of capacity C0 can be in: any size, any contents, any voting history. */
static void any_state(void) {
  v = vector_new(C0);
  CHECK(vector_size(&v) == 0 && vector_pop(&v) == NULL && vector_size(&v) == 0, "a new vector is empty");
  len = nd_range(0, C0);
  for (size_t i = 0; i < C0; i++) if (i < len) { void* e = elem(); *(v.start + i) = e; model[i] = e; }
  v.next = v.start + len;
  v.votes_required = nd_range(0, 20); v.votes = nd_range(0, 20);
  wf();
}
static void finish(void) {
  wf();
  size_t n = len;
  for (size_t k = 0; k < C0 + 6; k++) {
    void* e = vector_pop(&v);
    if (len == 0) { CHECK(e == NULL, "popping an empty vector gives null"); break; }
    len--; CHECK(e == model[len], "pop returns the most recently added element");
    CHECK(vector_size(&v) == len, "the size is the number of elements");
  }
  wf();
}
void h_vec_push(void) {
  any_state();
  void* e = elem();
  vector_push(&v, e); model[len++] = e;
  if (len > C0) WITNESS("grown by push");
  finish(); WITNESS("pushed");
}
void h_vec_pushall(void) {
  any_state();
  void* a[4] = {elem(), elem(), elem(), elem()};
  size_t n = nd_range(0, 4);
  vector_pushall(&v, a, n);
  for (size_t i = 0; i < 4; i++) if (i < n) model[len++] = a[i];
  if (len > C0) WITNESS("grown by bulk push");
  finish(); WITNESS("bulk pushed");
}
void h_vec_at(void) {
  any_state();
  size_t i = nd_range(0, C0 + 4), j = nd_range(0, C0 + 4);
  for (size_t k = 0; k < C0 + 5; k++) if (k >= len && k <= i) model[k] = NULL;
  if (i >= len) len = i + 1;
  void** p = vector_at(&v, i);
  CHECK(p == v.start + i && i < cap, "the slot lies in the vector");
  CHECK(*p == model[i], "indexed access reads the element, or null where nothing was stored");
  if (nd_bool()) { void* e = elem(); *p = e; model[i] = e; }
  wf();
  if (j < len) { void** q = vector_at(&v, j); CHECK(q == v.start + j && *q == model[j], "every slot up to the index reads as its element or null"); WITNESS("reread"); }
  if (i >= C0) WITNESS("grown by access");
  finish(); WITNESS("accessed");
}
void h_vec_shrink(void) {
  any_state();
  ASSUME(len <= 1);
  if (len) { CHECK(vector_pop(&v) == model[0], "pop"); len = 0; }
  vector_vote(&v);
  CHECK(vector_pop(&v) == NULL && vector_pop(&v) == NULL, "empty at the end");
  wf();
  if (cap < C0) WITNESS("shrunk");
  CHECK(cap >= 1, "never shrinks to nothing");
  for (int k = 0; k < 2; k++) { void* e = elem(); vector_push(&v, e); model[len++] = e; }
  finish();
  WITNESS("usable after shrinking");
}
