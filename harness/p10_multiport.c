#include "world.h"
#include "port.h"
#include "vector.h"
#ifndef W
#define W 4
#endif
#ifndef L
#define L 5
#endif
#ifndef CAP
#define CAP 2
#endif
void lf_set_present(lf_port_base_t* port);
void _lf_start_time_step(environment_t* env);
#ifndef VP_REPLAY
void _lf_free_token_copies(void) {}
/* qsort: a stable insertion sort with the caller's comparison function */
void qsort(void* b, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
  size_t* a = (size_t*)b;
  CHECK(sz == sizeof(size_t), "element size");
  for (size_t i = 1; i < W; i++) if (i < n)
    for (size_t j = i; j > 0; j--) if (cmp(&a[j - 1], &a[j]) > 0) { size_t t = a[j]; a[j] = a[j - 1]; a[j - 1] = t; }
}
#else
void _lf_free_token_copies(void) {}
#endif
/* the vector of sparse records: P06 decides the vector itself */
void** vector_at(vector_t* v, size_t i) { CHECK(i < (size_t)(v->next - v->start), "index in range"); return v->start + i; }
size_t vector_size(vector_t* v) { return v->next - v->start; }
static self_base_t src;
/* separate objects, so that the solver sees field updates rather than byte updates of one array */
static lf_port_base_t c0, c1, c2, c3, c4;
static lf_port_base_t* pch[W] = {&c0, &c1, &c2,
#if W > 3
  &c3,
#endif
#if W > 4
  &c4
#endif
};
#define ch(k) (*(k == 0 ? &c0 : k == 1 ? &c1 : k == 2 ? &c2 : k == 3 ? &c3 : &c4))
static bool *fields[W], *abbr[W]; static int* sizes[1];
static lf_sparse_io_record_t rec; static size_t chans[CAP + 1];
static bool on[W];
static void iterate(void) {
  lf_multiport_iterator_t it = _lf_multiport_iterator_impl(pch, W);
  int prev = -1;
  for (int k = 0; k < W + 1; k++) {
    int c = lf_multiport_next(&it), want = -1;
    for (int i = W - 1; i > prev; i--) if (on[i]) want = i;
    CHECK(c == want, "the next present channel in ascending order, each once, then -1");
    if (c < 0) break;
    prev = c;
  }
  CHECK(lf_multiport_next(&it) == -1, "the end stays the end");
}
static void put(int c) { lf_port_base_t* p = NULL;
  for (int k = 0; k < W; k++) if (k == c) { p = &ch(k); on[k] = true; }
  if (p) lf_set_present(p);
 }
static void writes(void) {
  for (int i = 0; i < L; i++) {
    int c = nd_range(0, W); /* W: no write */
    put(c);
  }
}
void h_multiport(void) {
  bool sparse = nd_bool();
  src.environment = &env; env.execution_started = true;
  env.is_present_fields = fields; env.is_present_fields_abbreviated = abbr; env.is_present_fields_size = W;
  rec.capacity = CAP; rec.present_channels = chans;
  for (int i = 0; i < W; i++) {
    fields[i] = &ch(i).is_present; ch(i).source_reactor = &src; ch(i).destination_channel = i;
    ch(i).sparse_record = sparse ? &rec : NULL;
  }
  sizes[0] = &rec.size;
  if (sparse) { env.sparse_io_record_sizes.start = (void**)sizes; env.sparse_io_record_sizes.next = (void**)sizes + 1; env.sparse_io_record_sizes.end = (void**)sizes + 1; }
  writes(); iterate();
  int n = 0; for (int i = 0; i < W; i++) { CHECK(ch(i).is_present == on[i], "presence"); n += on[i]; }
  if (sparse && n > CAP) WITNESS("overflow"); if (sparse && n == CAP) WITNESS("sparse"); if (!sparse && n > 1) WITNESS("dense");
  if (nd_bool()) iterate(); /* a second reader */
  _lf_start_time_step(&env);
  for (int i = 0; i < W; i++) { CHECK(!ch(i).is_present, "absent at the next tag"); on[i] = false; }
  CHECK(!sparse || rec.size == 0, "the sparse record is empty at the next tag");
  iterate();
  int c = nd_range(0, W - 1); put(c);
  iterate();
  WITNESS("next tag");
}
