/* Native replay driver: runs one harness on the values of a solver counterexample. */
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
FILE* vp_values;
void HARNESS(void);
long long vp_next(const char* what) {
  (void)what;
  long long v = 0;
  if (vp_values && fscanf(vp_values, "%lld", &v) == 1) return v;
  return 0; /* values past the end of the counterexample are unconstrained */
}
void vp_fail(const char* msg, const char* file, int line) {
  fflush(stdout);
  fprintf(stderr, "REPLAY-VIOLATION %s (%s:%d)\n", msg, file, line);
  fflush(stderr);
  _Exit(66);
}
int main(int argc, char** argv) {
  vp_values = argc > 1 ? fopen(argv[1], "r") : NULL;
  HARNESS();
  fprintf(stderr, "REPLAY-OK\n");
  return 0;
}
