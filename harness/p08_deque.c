#include "stubs.h"
#include "util/deque.c"
#ifndef S
#define S 6
#endif
static void* model[2 * S + 1];
static int lo, hi; /* model[lo..hi) */
static deque_t d;
static void* elem(void) { return (void*)(uintptr_t)nd_u8(); } /* null values are legal */
static void look(void) {
  int n = hi - lo;
  CHECK(deque_size(&d) == (size_t)n, "size is the number of elements");
  CHECK(deque_is_empty(&d) == (n == 0), "emptiness");
  CHECK(deque_peek_front(&d) == (n ? model[lo] : NULL), "front element");
  CHECK(deque_peek_back(&d) == (n ? model[hi - 1] : NULL), "back element");
}
void h_deque(void) {
  if (nd_bool()) deque_initialize(&d); else memset(&d, 0, sizeof d);
  lo = hi = S;
  look();
  for (int s = 0; s < S; s++) {
    uint8_t k = nd_u8() & 3;
    if (k == 0) { void* e = elem(); deque_push_front(&d, e); model[--lo] = e; }
    else if (k == 1) { void* e = elem(); deque_push_back(&d, e); model[hi++] = e; }
    else if (k == 2) { void* e = deque_pop_front(&d); CHECK(e == (lo < hi ? model[lo] : NULL), "pop front"); if (lo < hi) lo++; }
    else { void* e = deque_pop_back(&d); CHECK(e == (lo < hi ? model[hi - 1] : NULL), "pop back"); if (lo < hi) hi--; }
    look();
  }
  if (hi - lo == 3) WITNESS("three left");
  bool front = nd_bool();
  for (int s = 0; s < S; s++) {
    if (lo == hi) break;
    void* e = front ? deque_pop_front(&d) : deque_pop_back(&d);
    CHECK(e == (front ? model[lo] : model[hi - 1]), "drained in order");
    if (front) lo++; else hi--;
    look();
  }
  CHECK(deque_pop_front(&d) == NULL && deque_pop_back(&d) == NULL && d.front == NULL && d.back == NULL, "empty at the end");
  CHECK(deque_is_empty(NULL) && deque_pop_front(NULL) == NULL && deque_pop_back(NULL) == NULL && deque_peek_front(NULL) == NULL && deque_peek_back(NULL) == NULL, "a null deque is empty");
  WITNESS("end");
}
