#include "stubs.h"
#include <stdarg.h>
#include "tag.h"
#ifndef VP_REPLAY
/* The C library's formatted output for the directives %d-style with optional zero padding, and %s. */
static size_t put(char* b, size_t n, size_t at, char c) { if (at + 1 < n) b[at] = c; return at + 1; }
static size_t num(char* b, size_t n, size_t at, long long v, int width, char pad) {
  char t[20]; int k = 0; bool neg = v < 0; unsigned long long u = neg ? -(unsigned long long)v : v;
  if (u < 1000) { uint16_t w = u; t[0] = '0' + w % 10; k = 1; if (w >= 10) { t[1] = '0' + w / 10 % 10; k = 2; } if (w >= 100) { t[2] = '0' + w / 100; k = 3; } }
  else { CHECK(0, "groups printed are below 1000"); ASSUME(0); }
  if (neg) at = put(b, n, at, '-');
  for (int i = 2; i >= 0; i--) if (i < width && i >= k) at = put(b, n, at, pad);
  for (int i = 2; i >= 0; i--) if (i < k) at = put(b, n, at, t[i]);
  return at;
}
int snprintf(char* b, size_t n, const char* f, ...) {
  va_list ap; va_start(ap, f);
  size_t at = 0;
  while (*f) {
    if (*f != '%') { at = put(b, n, at, *f++); continue; }
    f++;
    char pad = ' '; int width = 0;
    if (*f == '0') { pad = '0'; f++; }
    while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    int l = 0;
    while (*f == 'l') { l++; f++; }
    if (*f == 'd') at = num(b, n, at, l ? va_arg(ap, long long) : va_arg(ap, int), width, pad);
    else if (*f == 's') { const char* s = va_arg(ap, const char*); while (*s) at = put(b, n, at, *s++); }
    else CHECK(0, "format directive outside the model");
    f++;
  }
  va_end(ap);
  if (n > 0) b[at < n ? at : n - 1] = 0;
  return (int)at;
}
#else
#include <stdio.h>
#endif
#ifndef HI
#define HI 999999
#endif
#ifndef LO
#define LO 0
#endif
#define BUF 26 /* "9,223,372,036,854,775,807" and the terminator */
/* Checks that p denotes v in groups of three; returns the length. */
static int commas(const char* p, int n, int64_t v) {
  int64_t acc = 0; int lead = 0, g = 0; bool sep = false;
  for (int i = 0; i < BUF; i++) {
    if (i >= n) break;
    if (p[i] == ',') { CHECK(sep ? g == 3 : (g >= 1 && g <= 3), "groups have three digits, the first one to three"); sep = true; g = 0; continue; }
    CHECK(p[i] >= '0' && p[i] <= '9', "only digits and commas");
    CHECK(!(i == 0 && p[0] == '0' && n > 1), "no leading zero");
    acc = acc * 10 + (p[i] - '0'); g++;
  }
  CHECK(sep ? g == 3 : (g >= 1 && g <= 3), "the last group is complete");
  CHECK(acc == v, "the digits denote the time");
  return n;
}
void h_commas(void) {
  char buf[BUF]; /* exactly the documented size */
  int64_t v = nd_range64(LO, HI);
  size_t n = lf_comma_separated_time(buf, v);
  CHECK(n < BUF && buf[n] == 0, "NUL terminated at the returned length");
  CHECK(n >= 1, "at least one digit");
  for (int i = 0; i < BUF; i++) if (i < n) CHECK(buf[i] != 0, "the returned length is the string length");
  commas(buf, n, v);
  
  WITNESS("printed");
}
/* One group of three digits takes every value while the others take one of four patterns: reaches every number of groups and
 * every padding of each group in the full 63-bit range. */
#ifndef J
#define J 6
#endif
#ifndef FILL
#define FILL 60
#endif
static int64_t grouped(int* g) {
  *g = nd_range(0, 999);
  int64_t v = 0;
  for (int k = 6; k >= 0; k--) {
    int d = k == J ? *g : FILL;
    if (k == 6 && d > 9) { ASSUME(k != J); d = 9 * (FILL > 500) + 8; }
    if (k == 6 && d > 9) d = 9;
    v = v * 1000 + d;
  }
  ASSUME(v >= 0);
  return v;
}
void h_commas_groups(void) {
  char buf[BUF];
  int g; int64_t v = grouped(&g);
  size_t n = lf_comma_separated_time(buf, v);
  CHECK(n < BUF && buf[n] == 0, "NUL terminated at the returned length");
  CHECK(n >= 1, "at least one digit");
  for (int i = 0; i < BUF; i++) if (i < n) CHECK(buf[i] != 0, "the returned length is the string length");
  commas(buf, n, v);
  WITNESS("printed");
}

/* Values around every power of ten and at the top of the range. */
static const int64_t edge[] = {0, 9, 10, 99, 100, 999, 1000, 1001, 9999, 10000, 99999, 100000, 999999, 1000000, 999999999, 1000000000, 999999999999LL,
  1000000000000LL, 1000000000000000LL, 999999999999999LL, 1000000000000000000LL, 999999999999999999LL, 9223372036854775807LL, 9000000000000000007LL,
  100000000000000000LL, 10000000000000000LL, 99999999999999999LL, 12003004005006LL};
void h_commas_edges(void) {
  char buf[BUF];
  int64_t v = edge[nd_range(0, sizeof edge / sizeof *edge - 1)];
  size_t n = lf_comma_separated_time(buf, v);
  CHECK(n < BUF && buf[n] == 0, "NUL terminated at the returned length");
  for (int i = 0; i < BUF; i++) if (i < n) CHECK(buf[i] != 0, "the returned length is the string length");
  commas(buf, n, v);
  WITNESS("printed");
}
#ifndef PLEN
#define PLEN LF_TIME_BUFFER_LENGTH
#endif
static bool at(const char* p, const char* s) { for (int i = 0; s[i]; i++) if (p[i] != s[i]) return false; return true; }
/* The rendering is clauses "number unit" joined by ", " whose values add up to the time. */
static void parse(const char* b, size_t n, int64_t v) {
  int64_t sum = 0, num = 0; bool digits = false, first = true; int last = 100;
  size_t i = 0;
  for (int k = 0; k < PLEN; k++) {
    if (i >= n) break;
    if (b[i] >= '0' && b[i] <= '9') { num = num * 10 + (b[i] - '0'); digits = true; i++; continue; }
    if (b[i] == ',' && digits) { i++; continue; } /* thousands separator, its placement is decided by the other harnesses */
    CHECK(b[i] == ' ' && digits, "a number is followed by its unit");
    i++;
    int64_t u = 0; int len = 0, ord = 0;
    if (at(b + i, "weeks")) { u = WEEKS(1); len = 5; ord = 9; }
    else if (at(b + i, "min")) { u = MINUTES(1); len = 3; ord = 6; }
    else if (at(b + i, "ms")) { u = MSEC(1); len = 2; ord = 3; }
    else if (at(b + i, "us")) { u = USEC(1); len = 2; ord = 2; }
    else if (at(b + i, "ns")) { u = 1; len = 2; ord = 1; }
    else if (b[i] == 'd') { u = DAYS(1); len = 1; ord = 8; }
    else if (b[i] == 'h') { u = HOURS(1); len = 1; ord = 7; }
    else if (b[i] == 's') { u = SECONDS(1); len = 1; ord = 5; }
    CHECK(u != 0, "a known unit");
    CHECK(ord < last, "each unit at most once, largest first");
    last = ord;
    sum += num * u; num = 0; digits = false; i += len;
    if (i < n) { CHECK(b[i] == ',' && b[i + 1] == ' ', "clauses are separated by a comma and a blank"); i += 2; CHECK(i < n, "a clause follows the separator"); }
  }
  CHECK(i == n, "the whole text is well formed");
  CHECK(sum == v, "the clauses add up to the time");
}
#ifndef WK /* the count of each unit: constant or a choice */
#define WK 0
#define DY 0
#define HR 0
#define MN 0
#define SE 0
#define SUB 0
#endif
static int64_t pick(int64_t a, int64_t b, int64_t c) { uint8_t s = nd_u8(); return s == 0 ? a : s == 1 ? b : c; }
void h_readable(void) {
  char buf[LF_TIME_BUFFER_LENGTH];
  int64_t v = 0;
  v += WEEKS(WK); v += DAYS(DY); v += HOURS(HR); v += MINUTES(MN); v += SECONDS(SE); v += SUB;
  size_t n = lf_readable_time(buf, v);
  CHECK(n < LF_TIME_BUFFER_LENGTH && buf[n] == 0, "NUL terminated at the returned length within the documented buffer");
  CHECK(n >= 1, "something is written");
  for (int i = 0; i < LF_TIME_BUFFER_LENGTH; i++) if (i < n) CHECK(buf[i] != 0, "the returned length is the string length");
  if (v == 0) CHECK(n == 1 && buf[0] == '0', "zero renders as 0");
  else parse(buf, n, v);
  WITNESS("rendered");
}
