/* The runtime clock and clock synchronization. */
#include "stubs.h"
#include <errno.h>
#include <sys/types.h>
#include "lf_types.h"
#include "clock.h"
#include "tag.h"
#include "environment.h"
#include "clock-sync.h"
#include "net_common.h"
environment_t env;
extern interval_t _lf_clock_sync_offset, _lf_clock_sync_constant_bias;
void clock_sync_add_offset(instant_t*); void clock_sync_subtract_offset(instant_t*); void clock_sync_set_constant_bias(interval_t);
int _lf_my_fed_id = 1;
static int interfere;
static int64_t *lastp; static bool advanced; static int64_t adv_to;
int64_t lf_atomic_fetch_add64(int64_t* p, int64_t v) { int64_t o = *p; *p = o + v; if (p != &_lf_clock_sync_offset) lastp = p; return o; }
/* another thread may have read the clock in between: the last value can have grown */
bool lf_atomic_bool_compare_and_swap64(int64_t* p, int64_t o, int64_t n) {
  if (interfere > 0 && nd_bool()) { interfere--; int64_t v = nd_i64(); ASSUME(v >= *p && v <= (1LL << 62) + (1LL << 61)); *p = v; adv_to = v; advanced = true; }
  if (*p != o) return false;
  *p = n; return true;
}
static int64_t raw; static int fails; static instant_t slept; static int waits;
#ifndef SYNC
int _lf_clock_gettime(instant_t* t) { if (fails) { *t = nd_i64(); return -1; } *t = raw; return 0; }
int _lf_interruptable_sleep_until_locked(environment_t* e, instant_t t) { CHECK(e == &env, "the environment is passed on"); slept = t; waits++; return 7; }
int _lf_cond_timedwait(lf_cond_t* c, instant_t t) { slept = t; waits++; return 8; }
static int64_t sat_(int64_t a, int64_t b) {
  if (a == INT64_MIN || b == INT64_MIN) return INT64_MIN;
  if (a == INT64_MAX || b == INT64_MAX) return INT64_MAX;
  __int128 s = (__int128)a + b; return s >= INT64_MAX ? INT64_MAX : s <= INT64_MIN ? INT64_MIN : (int64_t)s;
}
#define LIM (1LL << 61)
void h_monotone(void) {
  instant_t prev = NEVER; bool have = false;
  for (int i = 0; i < 3; i++) {
    raw = nd_range64(0, LIM); fails = nd_bool();
    _lf_clock_sync_offset = nd_range64(-LIM, LIM); _lf_clock_sync_constant_bias = nd_range64(-LIM, LIM);
    interfere = nd_range(0, 2); advanced = false;
    instant_t t, before = have ? *lastp : NEVER;
    int r = lf_clock_gettime(&t);
    if (fails) { CHECK(r != 0, "a failing system clock is reported"); CHECK(!have || *lastp == before, "and has no effect"); continue; }
    CHECK(r == 0, "a working clock is no failure");
    instant_t want = sat_(raw, _lf_clock_sync_offset + _lf_clock_sync_constant_bias);
    if (advanced) { CHECK(t >= adv_to || t == *lastp, "no thread reads less than what another has read"); CHECK(t >= adv_to, "readings of all threads are ordered"); WITNESS("concurrent"); }
    if (have) CHECK(t >= prev, "the clock never runs backwards");
    if (want >= prev && !advanced) CHECK(t == want, "otherwise it shows the synchronized system time");
    prev = t; have = true;
  }
  WITNESS("read");
}
void h_wait(void) {
  instant_t w = nd_i64();
  _lf_clock_sync_offset = nd_range64(-LIM, LIM); _lf_clock_sync_constant_bias = nd_range64(-LIM, LIM);
  interval_t off = _lf_clock_sync_offset + _lf_clock_sync_constant_bias;
  int r = lf_clock_interruptable_sleep_until_locked(&env, w);
  CHECK(r == 7 && waits == 1 && slept == sat_(w, -off), "sleeps until the platform's clock shows the corresponding time");
  static lf_cond_t c;
  r = lf_clock_cond_timedwait(&c, w);
  CHECK(r == 8 && waits == 2 && slept == sat_(w, -off), "waits until the platform's clock shows the corresponding time");
  interval_t b = nd_range64(-LIM, LIM);
  clock_sync_set_constant_bias(b);
  CHECK(_lf_clock_sync_constant_bias == b && _lf_clock_sync_offset + b == off - (off - _lf_clock_sync_offset) + b, "a constant bias is set without touching the offset");
  if (w == FOREVER) WITNESS("forever");
  WITNESS("waited");
}
#else
/* P37 */
extern socket_stat_t _lf_rti_socket_stat; extern int _lf_rti_socket_UDP;
#define EX _LF_CLOCK_SYNC_EXCHANGES_PER_INTERVAL
#define AT _LF_CLOCK_SYNC_ATTENUATION
#define LIM (1LL << LBITS)
static instant_t t5, r5, clk[2]; static int nclk, probe_fails; static unsigned char probe_type; static int reads;
long double powl(long double a, long double b) { return (long double)nd_u32(); }
long double sqrtl(long double v) { return (long double)nd_u32(); }
int lf_clock_gettime(instant_t* t) { *t = r5; return 0; }
instant_t lf_time_physical(void) { return r5; }
static void put64(unsigned char* b, int64_t v) { for (int i = 0; i < 8; i++) b[i] = (unsigned char)((uint64_t)v >> (8 * i)); }
static int64_t get64(unsigned char* b) { uint64_t v = 0; for (int i = 0; i < 8; i++) v |= (uint64_t)b[i] << (8 * i); return (int64_t)v; }
int64_t extract_int64(unsigned char* b) { return get64(b); }
void encode_int32(int32_t v, unsigned char* b) { for (int i = 0; i < 4; i++) b[i] = (unsigned char)((uint32_t)v >> (8 * i)); }
int read_from_socket(int s, size_t n, unsigned char* b) {
  CHECK(s == _lf_rti_socket_UDP && n == 9, "the coded probe is read from the UDP socket");
  reads++;
  if (probe_fails) return 1;
  b[0] = probe_type; put64(b + 1, t5);
  return 0;
}
static int wrote, write_fails; static unsigned char out[8];
int write_to_socket(int s, size_t n, unsigned char* b) {
  CHECK(n == 5, "T3 carries the federate's number"); wrote++;
  for (int i = 0; i < 5; i++) out[i] = b[i];
  return write_fails ? -1 : 0;
}
static int64_t abs_(int64_t x) { return x < 0 ? -x : x; }
/* One T4 message from any state of the current window. */
void h_t4(void) {
  socket_stat_t* s = &_lf_rti_socket_stat;
  _lf_rti_socket_UDP = nd_range(-1, 4);
  int sock = nd_range(0, 5);
  instant_t T1 = s->remote_physical_clock_snapshot_T1 = nd_range64(0, LIM), T2 = s->local_physical_clock_snapshot_T2 = nd_range64(0, LIM);
  interval_t delay = s->local_delay = nd_range64(0, LIM);
  int n0 = s->received_T4_messages_in_current_sync_window = nd_range(0, EX - 1);
  s->network_stat_sample_index = n0;
  interval_t h0 = s->history = nd_range64(-LIM, LIM);
  for (int i = 0; i < EX; i++) s->network_stat_samples[i] = nd_range64(-LIM, LIM);
  interval_t o0 = _lf_clock_sync_offset = nd_range64(-LIM, LIM);
  instant_t t4 = nd_range64(0, LIM), r4 = nd_range64(0, LIM);
  t5 = nd_range64(0, LIM); r5 = nd_range64(0, LIM); probe_fails = nd_bool(); probe_type = nd_u8();
  unsigned char b[9]; b[0] = MSG_TYPE_CLOCK_SYNC_T4; put64(b + 1, t4);
  handle_T4_clock_sync_message(b, sock, r4);
  bool udp = sock == _lf_rti_socket_UDP;
  CHECK(reads == udp, "a coded probe follows exactly in runtime rounds");
  /* half the difference of the two one-way delays */
  interval_t err = ((t4 - T1) - delay) / 2 - (T2 - T1);
  bool genuine = !udp || (!probe_fails && probe_type == MSG_TYPE_CLOCK_SYNC_CODED_PROBE && abs_((r5 - r4) - (t5 - t4)) < CLOCK_SYNC_GUARD_BAND);
  if (!genuine) {
    CHECK(_lf_clock_sync_offset == o0, "a round that is not genuine does not change the clock");
    CHECK(s->history == h0 && s->received_T4_messages_in_current_sync_window == n0, "nor does it count as a round");
    WITNESS("ignored");
    return;
  }
  interval_t adj = udp ? err / AT : err, h1 = h0 + adj / EX;
  if (n0 + 1 < EX) {
    CHECK(_lf_clock_sync_offset == o0, "the offset is adjusted only after the configured number of rounds");
    CHECK(s->history == h1 && s->received_T4_messages_in_current_sync_window == n0 + 1, "the round is averaged in");
    WITNESS("accumulated");
  } else {
    CHECK(_lf_clock_sync_offset == o0 + h1 || _lf_clock_sync_offset == o0, "the offset is adjusted by the average");
    CHECK(s->history == 0 && s->received_T4_messages_in_current_sync_window == 0 && s->network_stat_sample_index == 0, "and a new window begins");
    if (_lf_clock_sync_offset == o0 + h1 && h1 != 0) WITNESS("adjusted");
  }
}
void h_t1(void) {
  unsigned char b[9]; b[0] = MSG_TYPE_CLOCK_SYNC_T1; instant_t t1 = nd_range64(0, LIM), t2 = nd_range64(0, LIM);
  put64(b + 1, t1); r5 = nd_range64(0, LIM); write_fails = nd_bool(); _lf_my_fed_id = nd_range(0, 65535);
  int r = handle_T1_clock_sync_message(b, 3, t2);
  CHECK(wrote == 1 && out[0] == MSG_TYPE_CLOCK_SYNC_T3 && (out[1] | out[2] << 8 | out[3] << 16) == _lf_my_fed_id && out[4] == 0, "T3 is sent with the federate's number");
  CHECK((r != 0) == (write_fails != 0), "failure to reply is reported");
  if (r == 0) {
    CHECK(_lf_rti_socket_stat.remote_physical_clock_snapshot_T1 == t1 && _lf_rti_socket_stat.local_physical_clock_snapshot_T2 == t2 && _lf_rti_socket_stat.local_delay == r5 - t2, "the four timestamps of a round are recorded");
    WITNESS("replied");
  }
}
/* The listening thread: only a T4 that follows an answered T1 makes a round. */
static int step, bad, nm; static unsigned char type_[4];
static bool expect_t4; static int rounds;
ssize_t vp_recvfrom(int s, void* b, size_t n, int fl, void* addr, void* alen) {
  CHECK(n == 9, "a whole message is awaited");
  if (step > 0) { /* what the previous message did */
    unsigned char t = type_[step - 1];
    if (!expect_t4) { if (t == MSG_TYPE_CLOCK_SYNC_T1) { CHECK(wrote == 1, "T1 is answered"); expect_t4 = !write_fails; } else CHECK(wrote == 0, "nothing else is answered"); CHECK(reads == 0, "no round without a T1"); }
    else { CHECK(wrote == 0, "nothing to answer"); CHECK(reads == (t == MSG_TYPE_CLOCK_SYNC_T4), "a round is completed by T4 only"); if (reads) rounds++; expect_t4 = false; }
  }
  wrote = reads = 0;
  if (step == nm) { errno = ECONNRESET; return -1; }
  type_[step] = nd_u8(); ((unsigned char*)b)[0] = type_[step]; put64((unsigned char*)b + 1, nd_range64(0, LIM));
  write_fails = nd_bool(); probe_fails = 1;
  step++; errno = 0;
  return 9;
}
int vp_connect(int s, const void* a, unsigned l) { return 0; }
void initialize_lf_thread_id(void) {}
void* listen_to_rti_UDP_thread(void*);
void h_listen(void) {
  nm = nd_range(0, 4); _lf_rti_socket_UDP = 3;
  listen_to_rti_UDP_thread(NULL);
  CHECK(step == nm, "every message is handled until the socket breaks");
  if (rounds == 2) WITNESS("two rounds");
  WITNESS("ended");
}
#endif
