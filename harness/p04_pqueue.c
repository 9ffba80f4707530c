/* The priority queue as the runtime uses it for reactions, driven by an arbitrary sequence of operations and
 * compared with a set. */
#include "stubs.h"
#include "lf_types.h"
#include "pqueue.h"
#include "vp_realloc.h"
#ifndef N
#define N 5
#endif
#ifndef S
#define S 3
#endif
#ifndef SIZE
#define SIZE (N-1)
#endif
/* Elements are opaque to the queue: it only hands them to its callbacks. Element i is represented by the handle
 * (void*)(i+1), its priority and position live in tables. The queue sees priorities only through the comparison
 * callback, so values 0..N-1 cover every possible order of N elements. */
static uint8_t pri[N + 1];
static uint8_t pos[N + 1];
static bool in[N];
static int count;
static pqueue_t* q;
#define HANDLE(i) ((void*)(uintptr_t)((i) + 1))
static uint8_t idx(void* e) {
  CHECK((uintptr_t)e >= 1 && (uintptr_t)e <= N + 1, "callback gets a valid element");
  uint8_t i = (uint8_t)(uintptr_t)e;
  return i >= 1 && i <= N + 1 ? i - 1 : 0;
}
static pqueue_pri_t get_pri(void* e) { return pri[idx(e)]; }
static size_t get_pos(void* e) { return pos[idx(e)]; }
static void set_pos(void* e, size_t p) { pos[idx(e)] = (uint8_t)p; }
static int matches(void* a, void* b) { return a == b; }
static void prt(void* e) {}

static int which(void* p) {
  for (int i = 0; i < N; i++) if (p == HANDLE(i)) return i;
  return -1;
}
static void insert(int i) {
  ASSUME(!in[i]);
  CHECK(pqueue_insert(q, HANDLE(i)) == 0, "insertion succeeds");
  in[i] = true; count++;
}
static void check_head(int i) {
  CHECK(i >= 0 && in[i], "head is an element of the queue");
  if (i < 0) return;
  for (int j = 0; j < N; j++) if (in[j]) CHECK(pri[i] <= pri[j], "head has least priority value");
}
static void pop(void) {
  void* pk = pqueue_peek(q);
  void* e = pqueue_pop(q);
  CHECK(pk == e, "peek shows what pop returns");
  if (count == 0) { CHECK(e == NULL, "pop of an empty queue is null"); return; }
  int i = which(e);
  check_head(i);
  if (i >= 0) { in[i] = false; count--; }
}
static void op(void) {
  int o = nd_range(0, 2), i = nd_range(0, N - 1);
  if (o == 0) pop();
  else if (o == 1) insert(i);
  else { ASSUME(in[i]); pqueue_remove(q, HANDLE(i)); in[i] = false; count--; WITNESS("remove"); }
  CHECK(pqueue_size(q) == (size_t)count, "size is the number of elements");
}
static void init(void) {
  q = pqueue_init(CAP, in_reverse_order, get_pri, get_pos, set_pos, matches, prt);
  for (int i = 0; i < N; i++) pri[i] = (uint8_t)nd_range(0, N - 1);
}
static void drain(void) {
  for (int i = 0; i <= N; i++) pop();
  CHECK(count == 0, "everything inserted came out");
  pqueue_free(q);
}
/* Fill, then arbitrary operations, then drain. */
void h_pq_ops(void) {
  init();
  for (int i = 0; i < N - 1; i++) insert(i);
  for (int s = 0; s < S; s++) op();
  drain();
  WITNESS("drained");
}
/* Sorting N arbitrary priorities. */
void h_pq_sort(void) {
  init();
  for (int i = 0; i < N; i++) insert(i);
  drain();
  WITNESS("sorted");
}
/* Removal from any position of a full queue keeps the order of the rest. */
void h_pq_remove(void) {
  init();
  for (int i = 0; i < N; i++) insert(i);
  int k = nd_range(0, N - 1);
  pqueue_remove(q, HANDLE(k)); in[k] = false; count--;
  drain();
  WITNESS("removed");
}

/* The callbacks the runtime uses for reactions. */
void h_pq_reaction_callbacks(void) {
  reaction_t a, b;
  a.index = nd_u64(); b.index = nd_u64();
  CHECK(get_reaction_index(&a) == a.index, "a reaction's priority is its index");
  int c = in_reverse_order(a.index, b.index);
  CHECK((c == 1) == (a.index > b.index) && (c == -1) == (a.index < b.index) && (c == 0) == (a.index == b.index), "order of 64-bit priorities");
  size_t p = nd_size();
  set_reaction_position(&a, p);
  CHECK(get_reaction_position(&a) == p, "position is stored");
  CHECK(reaction_matches(&a, &b) == 0 && reaction_matches(&a, &a) == 1, "reactions match by identity");
  WITNESS("callbacks");
}

/* Lookup by priority in a queue of any size up to N, in any heap order the insertions produce. */
void h_pq_find(void) {
  init();
  int n = SIZE;
  for (int i = 0; i < n; i++) insert(i);
  pri[N] = (uint8_t)nd_range(0, N - 1);
  int i = nd_range(0, N - 1);
  bool any = false;
  for (int j = 0; j < N; j++) any |= in[j] && pri[j] == pri[N];
  void* f = pqueue_find_same_priority(q, HANDLE(N));
  CHECK((f != NULL) == any, "an element of equal priority is found exactly if there is one");
  if (f) { int k = which(f); CHECK(k >= 0 && in[k] && pri[k] == pri[N], "the element found is queued with that priority"); WITNESS("found"); }
  CHECK(pqueue_find_equal_same_priority(q, HANDLE(i)) == (in[i] ? HANDLE(i) : NULL), "a matching element is found exactly if queued");
  WITNESS("looked up");
}

/* One operation on an arbitrary valid heap of up to N elements: by induction, histories of any length whose queue never
 * holds more. Element i sits in slot i+1 (the names of elements are arbitrary), which loses no generality. */
static int n0; static void* slots[N + 3];
static void arbitrary_heap(int least) {
  n0 = nd_range(least, N);
  q = pqueue_init(N + 2, in_reverse_order, get_pri, get_pos, set_pos, matches, prt);
  for (int i = 0; i < N; i++) {
    pri[i] = (uint8_t)nd_range(0, N - 1);
    if (i > 0) ASSUME(i >= n0 || pri[i] >= pri[(i + 1) / 2 - 1]);
    if (i < n0) { q->d[i + 1] = HANDLE(i); pos[i] = (uint8_t)(i + 1); in[i] = true; }
  }
  q->size = (size_t)n0 + 1; count = n0;
}
static void check_heap(void) {
  CHECK(pqueue_size(q) == (size_t)count, "size is the number of elements");
  uint32_t seen = 0;
  for (int p = 1; p <= N + 1; p++) if (p <= count) {
    int e = (int)(uintptr_t)q->d[p] - 1;
    CHECK(e >= 0 && e <= N && !(seen >> e & 1), "each queued element is there once");
    if (e < 0 || e > N) return;
    seen |= 1u << e;
    CHECK(pos[e] == p, "the queue knows the position of the element");
    if (p > 1) CHECK(pri[idx(q->d[p / 2])] <= pri[e], "no element precedes one of lesser priority value");
  }
  for (int i = 0; i < N; i++) CHECK(((seen >> i) & 1) == in[i], "exactly the elements inserted and not removed are queued");
}
void h_pq_step_remove(void) {
  arbitrary_heap(1);
  int k = nd_range(0, N - 1); ASSUME(k < n0);
  pqueue_remove(q, HANDLE(k)); in[k] = false; count--;
  check_heap();
  WITNESS("removed");
}
void h_pq_step_pop(void) {
  arbitrary_heap(0);
  pop();
  check_heap();
  WITNESS("popped");
}
void h_pq_step_insert(void) {
  arbitrary_heap(0);
  ASSUME(n0 < N);
  pri[n0] = (uint8_t)nd_range(0, N - 1);
  CHECK(pqueue_insert(q, HANDLE(n0)) == 0, "insertion succeeds"); in[n0] = true; count++;
  check_heap();
  WITNESS("inserted");
}
