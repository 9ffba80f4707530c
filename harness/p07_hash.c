#include "stubs.h"
/* Tables live in two banks of one array so that a table pointer is just an offset; slots past a table's capacity must stay untouched. */
#define BANK 8
static void* bank[2 * BANK];
static int curbank = 1; static size_t curcap;
void* vp_calloc(size_t n, size_t sz) {
  if (n == 1 && sz != sizeof(void*)) return (calloc)(n, sz);
  CHECK(n <= BANK, "capacity stays within the model");
  curbank = 1 - curbank; curcap = n;
  for (int i = 0; i < BANK; i++) bank[curbank * BANK + i] = i < n ? NULL : (void*)0x5a5a;
  return bank + curbank * BANK;
}
void vp_free(void* p) { if (p != (void*)bank && p != (void*)(bank + BANK)) (free)(p); }
#define calloc(a, b) vp_calloc(a, b)
#define free(p) vp_free(p)
#include "core/utils/hashset/hashset.c"
#include "core/utils/hashset/hashset_itr.c"
#undef calloc
#undef free
/* Items are small non-null, non-deleted-marker values; the hash (73*x masked) makes them collide arbitrarily in small tables. */
#ifndef S
#define S 4
#endif
#ifndef BITS
#define BITS 2
#endif
#define UNIV 16 /* item values 2..17 */
static bool mem[UNIV];
static int card;
static void* item(int* k) { *k = nd_range(0, UNIV - 1); return (void*)(uintptr_t)(*k + 2); }
static void step(hashset_t h) {
  int k; void* x = item(&k);
  uint8_t o = nd_u8() % 3;
  if (o == 0) {
    int r = hashset_add(h, x);
    CHECK(r == (mem[k] ? 0 : 1), "add reports whether the set changed");
    if (!mem[k]) { mem[k] = true; card++; }
  } else if (o == 1) {
    int r = hashset_remove(h, x);
    CHECK(r == (mem[k] ? 1 : 0), "remove reports whether the set changed");
    if (mem[k]) { mem[k] = false; card--; }
  } else {
    CHECK(hashset_is_member(h, x) == (mem[k] ? 1 : 0), "membership");
  }
  CHECK(hashset_num_items(h) == (size_t)card, "number of items");
}
static void any_member(hashset_t h) {
  int k; void* x = item(&k);
  CHECK(hashset_is_member(h, x) == (mem[k] ? 1 : 0), "membership after any history");
}
void h_set_ops(void) {
  hashset_t h = hashset_create(BITS);
  CHECK(hashset_num_items(h) == 0, "new set is empty");
  CHECK(hashset_add(h, NULL) == -1 && hashset_add(h, (void*)1) == -1 && hashset_num_items(h) == 0, "reserved values are rejected");
  for (int s = 0; s < S; s++) step(h);
  any_member(h);
  hashset_destroy(h);
  WITNESS("end");
}
/* Any well-formed table of capacity 2^BITS: every slot empty, deleted or an item on its own probe chain. */
static hashset_t any_table(int maxused) {
  hashset_t h = hashset_create(BITS);
  size_t C = (size_t)1 << BITS;
  int used = 0;
  for (size_t i = 0; i < C; i++) {
    uint8_t c = nd_u8();
    if (c == 1) { h->items[i] = (void*)1; h->n_deleted_items++; used++; }
    else if (c >= 2) {
      int k; void* x = item(&k);
      ASSUME(!mem[k]); mem[k] = true; card++; used++;
      h->items[i] = x;
    }
  }
  h->nitems = card;
  ASSUME(used <= maxused);
  /* representation invariant: no empty slot before an item on its chain */
  for (size_t i = 0; i < C; i++) if ((uintptr_t)h->items[i] >= 2) {
    size_t p = h->mask & (prime_1 * (size_t)h->items[i]);
    for (size_t n = 0; n < C; n++) { if (p == i) break; ASSUME(h->items[p] != 0); p = h->mask & (p + prime_2); }
  }
  return h;
}
void h_set_any(void) { /* one operation from any table; also: a free slot always remains, so that searches end */
  hashset_t h = any_table(((1 << BITS) * 85 - 1) / 100);
  step(h);
  any_member(h);
  CHECK(h->capacity == curcap && h->mask == curcap - 1, "capacity and mask agree");
  int e = 0;
  for (int i = 0; i < BANK; i++) { if (i < curcap) e += h->items[i] == NULL; else CHECK(bank[curbank * BANK + i] == (void*)0x5a5a, "nothing is stored past the capacity"); }
  CHECK(e >= 1, "a free slot remains");
  if (h->capacity > (size_t)1 << BITS) WITNESS("rehashed");
  if (card >= 2) WITNESS("stepped");
}
void h_set_iterate(void) {
  hashset_t h = any_table(((1 << BITS) * 85 - 1) / 100);
  int k; void* x = item(&k);
  hashset_itr_t it = hashset_iterator(h);
  int seen = 0, hit = 0;
  for (int i = 0; i <= 1 << BITS; i++) {
    int more = hashset_iterator_has_next(it), n = hashset_iterator_next(it);
    CHECK((more != 0) == (n >= 0), "has_next predicts next");
    CHECK((n >= 0) == (i < card), "the iterator ends after all items");
    if (n < 0) break;
    void* v = hashset_iterator_value(it);
    uintptr_t u = (uintptr_t)v;
    CHECK(u >= 2 && u < 2 + UNIV && mem[u - 2], "the iterator yields items of the set");
    if (v == x) hit++;
    seen++;
  }
  CHECK(seen == card && hit == (mem[k] ? 1 : 0), "each item exactly once");
  if (card >= 3) WITNESS("iterated");
}

#define KEYS 4
#define K uint32_t
#define V int
#define HASH_OF(key) (size_t)(hashof[(key)&(KEYS-1)])
static uint8_t hashof[KEYS]; /* an arbitrary hash function over 8 keys */
#define HASHMAP(token) vpmap##_##token
#include "core/utils/impl/hashmap.h"
#ifndef MC
#define MC 3
#endif
void h_map(void) {
  for (int i = 0; i < KEYS; i++) hashof[i] = nd_u8() & (KEYS-1);
  vpmap_t* m = vpmap_new(MC, 99);
  int val[KEYS]; bool put[KEYS] = {0}; int n = 0;
  for (int s = 0; s < MC + 1; s++) {
    uint32_t k = nd_u8() & (KEYS-1); int v = nd_u8();
    if (!put[k] && n == MC) continue; /* the map holds at most its capacity */
    vpmap_put(m, k, v);
    if (!put[k]) { put[k] = true; n++; }
    val[k] = v;
    uint32_t q = nd_u8() & (KEYS-1);
    if (put[q]) CHECK(vpmap_get(m, q) == val[q], "lookup returns the last value put under the key");
  }
  if (n == MC) WITNESS("full");
  for (int i = 0; i < KEYS; i++) if (put[i]) CHECK(vpmap_get(m, i) == val[i], "every key put is found");
  WITNESS("end");
  vpmap_free(m);
}
#define PK void*
#include "core/utils/impl/pointer_hashmap.h"
void h_map_pointers(void) { /* the pointer map as instantiated for user code */
  hashmap_object2int_t* m = hashmap_object2int_new(3, NULL);
  uint64_t a = nd_u64(), b = nd_u64(), c = nd_u64();
  ASSUME(a && b && c && a != b && b != c && a != c && a < 16 && b < 16 && c < 16);
  int x = nd_i32(), y = nd_i32(), z = nd_i32(), w = nd_i32();
  hashmap_object2int_put(m, (void*)a, x);
  hashmap_object2int_put(m, (void*)b, y);
  hashmap_object2int_put(m, (void*)c, z);
  hashmap_object2int_put(m, (void*)a, w);
  CHECK(hashmap_object2int_get(m, (void*)a) == w && hashmap_object2int_get(m, (void*)b) == y && hashmap_object2int_get(m, (void*)c) == z, "every key has its last value");
  WITNESS("end");
  hashmap_object2int_free(m);
}
