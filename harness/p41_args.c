/* The command line of a program: every known option followed by any values and any other option, cut short anywhere; any single argument. */
#include "stubs.h"
int vp_printf(const char* f, ...) { return 0; }
#include <stdbool.h>
#include "reactor_common.h"
#include "util.h"
#ifdef FEDERATED
#include "federate.h"
#endif
#define ARGC 7
#ifndef VMAX
#define VMAX 99
#endif
#ifndef VLEN
#define VLEN 7
#endif
#ifndef OPT1
#define OPT1 0
#endif
#ifndef OPT2
#define OPT2 0
#endif
#ifndef LEN
#define LEN 12
#endif
extern bool fast, keepalive_specified; extern interval_t duration; extern unsigned int _lf_number_of_workers;
int process_args(int argc, const char* argv[]);
static char a0[LEN + 1], a1[LEN + 1], a2[LEN + 1], a3[LEN + 1], a4[LEN + 1], a5[LEN + 1], a6[LEN + 1];
static char* const arg[ARGC] = {a0, a1, a2, a3, a4, a5, a6};
static const char* argv_[ARGC + 3] = {0};
static bool eq(const char* a, const char* b) { for (int i = 0; i <= LEN + 1; i++) { if (a[i] != b[i]) return false; if (!a[i]) return true; } return false; }
static bool starts(const char* a, const char* b) { for (int i = 0; b[i]; i++) if (a[i] != b[i]) return false; return true; }
/* reading a number is the C library's: an arbitrary result for each argument, the same whenever it is read */
static int argc_;
static int64_t val[ARGC];
static int64_t number(const char* s) { for (int k = 0; k < ARGC; k++) if (s == arg[k]) return val[k]; CHECK(0, "a value is read from an argument"); return 0; }
long long vp_atoll(const char* s) { return number(s); }
int vp_atoi(const char* s) { return (int)number(s); }
#ifdef FEDERATED
static const char *rti_seen, *id_seen; static int rti_code;
parse_rti_code_t lf_parse_rti_addr(const char* s) { rti_seen = s; rti_code = nd_range(0, 4); return (parse_rti_code_t)rti_code; }
void lf_set_federation_id(const char* s) { id_seen = s; }
#endif
static interval_t w_duration; static bool w_fast, w_keep, fine = true; static unsigned w_workers; static const char *w_id, *w_rti;
static bool known(const char* u) { return starts(u, "sec") || starts(u, "msec") || starts(u, "usec") || starts(u, "nsec") || starts(u, "min") || starts(u, "hour") || starts(u, "day") || starts(u, "week"); }
static int64_t length(int64_t v, const char* u) {
  return starts(u, "sec") ? v * 1000000000LL : starts(u, "msec") ? v * 1000000LL : starts(u, "usec") ? v * 1000LL : starts(u, "nsec") ? v : starts(u, "min") ? v * 60000000000LL
    : starts(u, "hour") ? v * 3600000000000LL : starts(u, "day") ? v * 86400000000000LL : v * 604800000000000LL;
}
static void reference(void) {
  fine = true;
  int skip = 0;
  for (int i = 1; i < ARGC; i++) {
    if (i >= argc_) break;
    if (skip) { skip--; continue; }
    if (!fine) continue;
    const char *a = arg[i], *v = argv_[i + 1], *u = v ? argv_[i + 2] : 0;
    bool f = eq(a, "-f") || eq(a, "--fast"), k = eq(a, "-k") || eq(a, "--keepalive"), w = eq(a, "-w") || eq(a, "--workers"), t = eq(a, "-o") || eq(a, "--timeout") || eq(a, "-timeout");
    bool id = false, r = false;
#ifdef FEDERATED
    id = eq(a, "-i") || eq(a, "--id"); r = eq(a, "-r") || eq(a, "--rti");
#endif
    if (f || k || w || id || r) {
      if (!v) { fine = false; continue; }
      skip = 1;
      if (f && eq(v, "true")) w_fast = true;
      if (f && eq(v, "false")) w_fast = false;
      if (k && eq(v, "true")) w_keep = true;
      if (k && eq(v, "false")) w_keep = false;
      if (w) w_workers = number(v) > 0 ? (unsigned)number(v) : 1;
      if (id) w_id = v;
#ifdef FEDERATED
      if (r) { w_rti = v; if (rti_seen == v && rti_code != SUCCESS) fine = false; }
#endif
    } else if (t) {
      if (!u) { fine = false; continue; }
      skip = 2;
      if ((number(v) == 0 && v[0] != '0') || !known(u)) { fine = false; continue; }
      w_duration = length(number(v), u);
    } else if (!eq(a, "--ros-args")) fine = false;
  }
}
static const char* const opts[] = {"-f", "--fast", "-k", "--keepalive", "-w", "--workers", "-o", "--timeout", "-timeout", "--ros-args",
#ifdef FEDERATED
  "-i", "--id", "-r", "--rti",
#endif
};
static const int nvals[] = {1, 1, 1, 1, 1, 1, 2, 2, 2, 0, 1, 1, 1, 1};
#define NOPT ((int)(sizeof(opts) / sizeof(opts[0])))
static void option(int o) { int j = 0; for (; opts[o][j]; j++) arg[argc_][j] = opts[o][j]; arg[argc_++][j] = 0; for (int k = 0; k < nvals[o]; k++, argc_++) for (int i = 0; i < VLEN; i++) arg[argc_][i] = i < VLEN - 1 ? (char)nd_u8() : 0; }
static void run(int argc) {
  w_duration = duration = nd_i64(); w_fast = fast = nd_bool(); w_keep = keepalive_specified = nd_bool(); w_workers = _lf_number_of_workers = nd_range(0, 100);
#ifdef FEDERATED
  w_id = id_seen = w_rti = rti_seen = 0;
#endif
  for (int i = 0; i < ARGC; i++) if (i < argc) argv_[i] = arg[i]; else argv_[i] = 0;
  for (int i = 0; i < ARGC; i++) val[i] = nd_range(-VMAX, VMAX);
  argc_ = argc;
  int ok = process_args(argc, argv_);
  reference();
  CHECK((ok != 0) == fine, "unknown options, missing arguments, unknown units and timeouts that are not numbers are rejected, and nothing else");
  if (ok) {
    CHECK(duration == w_duration, "the timeout is the number times its unit");
    CHECK(fast == w_fast && keepalive_specified == w_keep, "fast and keepalive as given");
    CHECK(_lf_number_of_workers == w_workers, "the number of workers as given");
#ifdef FEDERATED
    CHECK(id_seen == w_id && rti_seen == w_rti, "the federation identifier and the address as given");
#endif
    WITNESS("accepted");
  } else WITNESS("rejected");
}
void h_known(void) {
  for (int cut = 0; cut < 3; cut++) {
    argc_ = 1; option(OPT1); option(OPT2);
    if (argc_ - cut >= 1) run(argc_ - cut);
  }
}
void h_any(void) {
  for (int j = 0; j < LEN; j++) arg[1][j] = (char)nd_u8();
  run(2);
}
