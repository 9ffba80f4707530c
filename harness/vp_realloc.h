/* realloc for arrays of pointer-sized slots. Functionally the C standard's realloc; typed so that CBMC keeps the new
 * object as an array of words instead of bytes. */
#ifndef VP_REPLAY
void* realloc(void* p, size_t n) {
#ifdef VP_NO_GROWTH /* the harness stays below the initial capacity */
  CHECK(0, "the queue grows although its capacity suffices");
  ASSUME(0);
#endif
  void** r = (void**)malloc(sizeof(void*) * (n / sizeof(void*)));
  if (p) {
    size_t old = __CPROVER_OBJECT_SIZE(p) / sizeof(void*), m = old < n / sizeof(void*) ? old : n / sizeof(void*);
    for (size_t i = 0; i < m; i++) r[i] = ((void**)p)[i];
    free(p);
  }
  return r;
}
#endif
