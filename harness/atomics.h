#ifndef VP_ATOMICS_H
#define VP_ATOMICS_H
/* Sequentially consistent atomics (the interleavings are chosen by the harness). */
int lf_atomic_fetch_add(int* p, int v) { int o = *p; *p = o + v; return o; }
int lf_atomic_add_fetch(int* p, int v) { return *p += v; }
int64_t lf_atomic_fetch_add64(int64_t* p, int64_t v) { int64_t o = *p; *p = o + v; return o; }
int64_t lf_atomic_add_fetch64(int64_t* p, int64_t v) { return *p += v; }
bool lf_atomic_bool_compare_and_swap(int* p, int o, int n) { if (*p != o) return false; *p = n; return true; }
bool lf_atomic_bool_compare_and_swap64(int64_t* p, int64_t o, int64_t n) { if (*p != o) return false; *p = n; return true; }
int lf_atomic_val_compare_and_swap(int* p, int o, int n) { int x = *p; if (x == o) *p = n; return x; }
int64_t lf_atomic_val_compare_and_swap64(int64_t* p, int64_t o, int64_t n) { int64_t x = *p; if (x == o) *p = n; return x; }
#endif
