/* Abstract priority queues: the contract that P04 and P05 decide for the real ones (least element first, nothing lost, lookups exact),
 * over an unordered array of at most QCAP elements. Used by harnesses of properties above the queue layer.
 * Elements of equal priority come out in insertion order. */
#include "vp.h"
#include "pqueue.h"
#include "pqueue_tag.h"
#ifndef QCAP
#define QCAP 4
#endif
static int vpq_tagcmp(tag_t a, tag_t b) {
  if (a.time != b.time) return a.time < b.time ? -1 : 1;
  if (a.microstep != b.microstep) return a.microstep < b.microstep ? -1 : 1;
  return 0;
}
static pqueue_t* vpq_new(pqueue_eq_elem_f eq) {
  /* malloc rather than calloc: CBMC then sees a typed object instead of a byte array */
  static const pqueue_t zero;
  pqueue_t* q = (pqueue_t*)malloc(sizeof(pqueue_t)); *q = zero;
  q->d = (void**)malloc(sizeof(void*) * QCAP);
  q->eqelem = eq; q->size = 0; q->avail = QCAP;
  return q;
}
static void vpq_add(pqueue_t* q, void* e) {
  CHECK(e != NULL, "only elements are queued");
  bool fits = q->size < QCAP;
#ifndef VP_REPLAY
  __CPROVER_assert(fits, "VP model queue bound exceeded");
#endif
  ASSUME(fits);
  for (size_t i = 0; i < QCAP; i++) if (i < q->size) CHECK(q->d[i] != e, "an element is in a queue at most once");
  for (size_t i = 0; i < QCAP; i++) if (i == q->size) q->d[i] = e;
  q->size++;
}
static void vpq_del(pqueue_t* q, size_t k) {
  for (size_t i = 0; i + 1 < QCAP; i++) if (i >= k) q->d[i] = q->d[i + 1];
  q->size--;
}
/* tag queues */
int pqueue_tag_compare(pqueue_pri_t a, pqueue_pri_t b) { return vpq_tagcmp(((pqueue_tag_element_t*)a)->tag, ((pqueue_tag_element_t*)b)->tag); }
pqueue_tag_t* pqueue_tag_init_customize(size_t n, pqueue_cmp_pri_f cmp, pqueue_eq_elem_f eq, pqueue_print_entry_f prt) { return (pqueue_tag_t*)vpq_new(eq); }
pqueue_tag_t* pqueue_tag_init(size_t n) { return (pqueue_tag_t*)vpq_new(NULL); }
void pqueue_tag_free(pqueue_tag_t* q) { free(((pqueue_t*)q)->d); free(q); }
size_t pqueue_tag_size(pqueue_tag_t* q) { return ((pqueue_t*)q)->size; }
int pqueue_tag_insert(pqueue_tag_t* q, pqueue_tag_element_t* e) { vpq_add((pqueue_t*)q, e); return 0; }
static size_t vpq_tmin(pqueue_t* q) {
  size_t m = 0;
  for (size_t i = 1; i < QCAP; i++) if (i < q->size && vpq_tagcmp(((pqueue_tag_element_t*)q->d[i])->tag, ((pqueue_tag_element_t*)q->d[m])->tag) < 0) m = i;
  return m;
}
pqueue_tag_element_t* pqueue_tag_peek(pqueue_tag_t* q) { pqueue_t* p = (pqueue_t*)q; return p->size ? (pqueue_tag_element_t*)p->d[vpq_tmin(p)] : NULL; }
tag_t pqueue_tag_peek_tag(pqueue_tag_t* q) { pqueue_tag_element_t* e = pqueue_tag_peek(q); return e ? e->tag : FOREVER_TAG; }
pqueue_tag_element_t* pqueue_tag_pop(pqueue_tag_t* q) {
  pqueue_t* p = (pqueue_t*)q;
  if (!p->size) return NULL;
  size_t m = vpq_tmin(p);
  pqueue_tag_element_t* e = (pqueue_tag_element_t*)p->d[m];
  vpq_del(p, m);
  return e;
}
pqueue_tag_element_t* pqueue_tag_find_with_tag(pqueue_tag_t* q, tag_t t) {
  pqueue_t* p = (pqueue_t*)q;
  for (size_t i = 0; i < QCAP; i++) if (i < p->size && vpq_tagcmp(((pqueue_tag_element_t*)p->d[i])->tag, t) == 0) return (pqueue_tag_element_t*)p->d[i];
  return NULL;
}
pqueue_tag_element_t* pqueue_tag_find_equal_same_tag(pqueue_tag_t* q, pqueue_tag_element_t* e) {
  pqueue_t* p = (pqueue_t*)q;
  for (size_t i = 0; i < QCAP; i++) if (i < p->size && vpq_tagcmp(((pqueue_tag_element_t*)p->d[i])->tag, e->tag) == 0 && p->eqelem(p->d[i], e)) return (pqueue_tag_element_t*)p->d[i];
  return NULL;
}
void pqueue_tag_remove(pqueue_tag_t* q, pqueue_tag_element_t* e) {
  pqueue_t* p = (pqueue_t*)q;
  for (size_t i = 0; i < QCAP; i++) if (i < p->size && p->d[i] == (void*)e) { vpq_del(p, i); return; }
}
static void vpq_addtag(pqueue_t* p, tag_t t) {
  static const pqueue_tag_element_t zero;
  pqueue_tag_element_t* e = (pqueue_tag_element_t*)malloc(sizeof(pqueue_tag_element_t)); *e = zero;
  e->tag = t; e->is_dynamic = 1;
  vpq_add(p, e);
}
int pqueue_tag_insert_tag(pqueue_tag_t* q, tag_t t) { vpq_addtag((pqueue_t*)q, t); return 0; }
int pqueue_tag_insert_if_no_match(pqueue_tag_t* q, tag_t t) { if (pqueue_tag_find_with_tag(q, t)) return 1; vpq_addtag((pqueue_t*)q, t); return 0; }
tag_t pqueue_tag_pop_tag(pqueue_tag_t* q) {
  pqueue_tag_element_t* e = pqueue_tag_pop(q);
  if (!e) return FOREVER_TAG;
  tag_t t = e->tag;
  if (e->is_dynamic) free(e);
  return t;
}
void pqueue_tag_remove_up_to(pqueue_tag_t* q, tag_t t) {
  for (int k = 0; k < QCAP; k++) {
    pqueue_tag_element_t* e = pqueue_tag_peek(q);
    if (!e || vpq_tagcmp(e->tag, t) > 0) break;
    pqueue_tag_pop_tag(q);
  }
}
void pqueue_tag_dump(pqueue_tag_t* q) {}
/* reaction queues: ordered by the reaction's index */
#include "lf_types.h"
int in_reverse_order(pqueue_pri_t a, pqueue_pri_t b) { return a > b; }
int in_no_particular_order(pqueue_pri_t a, pqueue_pri_t b) { return 0; }
pqueue_pri_t get_reaction_index(void* r) { return ((reaction_t*)r)->index; }
size_t get_reaction_position(void* r) { return ((reaction_t*)r)->pos; }
void set_reaction_position(void* r, size_t pos) { ((reaction_t*)r)->pos = pos; }
int reaction_matches(void* a, void* b) { return a == b; }
void print_reaction(void* r) {}
pqueue_t* pqueue_init(size_t n, pqueue_cmp_pri_f c, pqueue_get_pri_f g, pqueue_get_pos_f gp, pqueue_set_pos_f sp, pqueue_eq_elem_f eq, pqueue_print_entry_f prt) { return vpq_new(eq); }
void pqueue_free(pqueue_t* q) { free(q->d); free(q); }
size_t pqueue_size(pqueue_t* q) { return q->size; }
int pqueue_insert(pqueue_t* q, void* d) { vpq_add(q, d); return 0; }
static size_t vpq_rmin(pqueue_t* q) {
  size_t m = 0;
  for (size_t i = 1; i < QCAP; i++) if (i < q->size && ((reaction_t*)q->d[i])->index < ((reaction_t*)q->d[m])->index) m = i;
  return m;
}
void* pqueue_peek(pqueue_t* q) { return q->size ? q->d[vpq_rmin(q)] : NULL; }
#ifdef VPQ_CANON
/* A harness may name all reactions of its world, which keeps the solver's points-to sets exact; it then pops from nonempty queues only. */
void* vpq_canon(void* e);
#define VPQ_EMPTY { CHECK(0, "the reaction queue is popped only when it is not empty"); ASSUME(0); }
#else
#define vpq_canon(e) (e)
#define VPQ_EMPTY return NULL;
#endif
void* pqueue_pop(pqueue_t* q) { if (!q->size) VPQ_EMPTY size_t m = vpq_rmin(q); void* e = vpq_canon(q->d[m]); vpq_del(q, m); return e; }
int pqueue_remove(pqueue_t* q, void* e) { for (size_t i = 0; i < QCAP; i++) if (i < q->size && q->d[i] == e) { vpq_del(q, i); return 0; } return 0; }
void pqueue_dump(pqueue_t* q, pqueue_print_entry_f p) {}
