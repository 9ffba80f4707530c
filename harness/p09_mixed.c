#include "stubs.h"
#include "core/mixed_radix.c"
#ifndef D
#define D 3
#endif
static int dig[D], rad[D], perm[D];
static mixed_radix_int_t m = {D, dig, rad, perm};
static void any(int maxr) {
  int seen = 0;
  for (int i = 0; i < D; i++) {
    rad[i] = nd_range(1, maxr); dig[i] = nd_range(0, rad[i] - 1); perm[i] = nd_range(0, D - 1);
    ASSUME(!(seen & (1 << perm[i]))); seen |= 1 << perm[i];
  }
}
/* Position of the digit vector in the order the permutation prescribes. */
static int rank(void) {
  int r = 0, f = 1;
  for (int i = 0; i < D; i++) { r += f * dig[perm[i]]; f *= rad[perm[i]]; }
  return r;
}
void h_incr(void) { /* successor in the permuted order, wrapping: hence every combination is visited exactly once */
  any(4);
  int total = 1;
  for (int i = 0; i < D; i++) total *= rad[i];
  int r = rank();
  mixed_radix_incr(&m);
  for (int i = 0; i < D; i++) CHECK(dig[i] >= 0 && dig[i] < rad[i], "every digit stays below its radix");
  CHECK(rank() == (r + 1 == total ? 0 : r + 1), "increment moves to the successor, and from the last value to zero");
  if (r + 1 == total) WITNESS("wrapped"); else WITNESS("advanced");
}
void h_value(void) {
  any(6);
  int n = nd_range(0, D + 1), v = 0;
  for (int i = D - 1; i >= 0; i--) if (i >= n) v = v * rad[i] + dig[i];
  CHECK(mixed_radix_parent(&m, n) == v, "value after dropping low-order digits is positional");
  int w = 0;
  for (int i = D - 1; i >= 0; i--) w = w * rad[i] + dig[i];
  CHECK(mixed_radix_to_int(&m) == w, "integer value is positional");
  if (n == D + 1) WITNESS("all dropped");
  WITNESS("value");
}
