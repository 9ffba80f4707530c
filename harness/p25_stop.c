/* The stop negotiation: every sequence of K requests, replies and departures, in any order, from any federate. */
#include "rti_world.h"
#include "netfns.h"
#ifndef K
#define K 4
#endif
#ifndef FIRST
#define FIRST 0
#endif
static int cur; static unsigned char in[16]; static int ilen, ipos;
static bool gone[N], proposed[N], asked[N]; static int grants[N], asks[N]; static tag_t best; static bool any, granted, timer; static tag_t gtag; static int closed[N];
static int64_t le(const unsigned char* b, int n) { uint64_t x = 0; for (int i = 0; i < n; i++) x |= (uint64_t)b[i] << (8 * i); return (int64_t)x; }
static int rd(int s, size_t n, unsigned char* b) {
  CHECK(s == 10 + cur, "reads from the sender");
  if (ipos + (int)n > ilen) return 1;
  if (n == 1) { b[0] = in[ipos]; ipos++; return 0; }
  for (int i = 0; i < 12; i++) if (i < (int)n) b[i] = in[ipos + i];
  ipos += (int)n;
  return 0;
}
static int wr(int s, size_t n, const unsigned char* b) {
  CHECK(held == 1, "writes holding the mutex");
  CHECK(n == 13 && (b[0] == MSG_TYPE_STOP_REQUEST || b[0] == MSG_TYPE_STOP_GRANTED), "a stop request or grant");
  tag_t t; t.time = le(b + 1, 8); t.microstep = (microstep_t)le(b + 9, 4);
  bool known = false;
  for (int i = 0; i < N; i++) if (s == 10 + i) {
    known = true;
    CHECK(!gone[i], "nothing is sent to a federate that has left");
    if (b[0] == MSG_TYPE_STOP_REQUEST) {
      CHECK(!granted && !proposed[i], "only a federate that has not proposed a tag is asked");
      CHECK(cmpt(t, best) == 0, "with the greatest tag proposed so far");
      asks[i]++; asked[i] = true;
      CHECK(asks[i] == 1, "and only once");
    } else {
      for (int j = 0; j < N; j++) CHECK(gone[j] || proposed[j], "a stop is granted only after every connected federate has proposed");
      CHECK(cmpt(t, best) == 0, "at the greatest tag proposed");
      grants[i]++;
      CHECK(grants[i] == 1, "once");
      gtag = t;
    }
  }
  CHECK(known, "to a federate");
  return 0;
}
static void hangup(int s) { CHECK(0, "no transfer fails"); }
ssize_t vp_read(int s, void* p, size_t n) { CHECK(s == 10 + cur, "drains the departing federate's socket"); return 0; }
int vp_close(int s) { CHECK(s == 10 + cur, "closes the departing federate's socket"); return 0; }
int vp_shutdown(int s, int h) { return 0; }
int lf_thread_create(lf_thread_t* t, void* (*f)(void*), void* a) { CHECK(!timer, "one timeout"); timer = true; return 0; }
int lf_cond_wait(lf_cond_t* c) { ASSUME(0); return 0; }
void initialize_lf_thread_id(void) {}
pqueue_tag_t* pqueue_tag_init(size_t n) { return NULL; }
static void put(tag_t t) { for (int i = 0; i < 8; i++) in[i] = (unsigned char)((uint64_t)t.time >> (8 * i)); for (int i = 0; i < 4; i++) in[8 + i] = (unsigned char)(t.microstep >> (8 * i)); ilen = 12; ipos = 0; }
static void event(int i, int first) {
  cur = i;
  CHECK(feds[i]->socket == 10 + i && nodes_[i]->state == GRANTED, "a connected federate stays connected");
  feds[i]->socket = 10 + i; nodes_[i]->state = GRANTED; /* for the benefit of constant propagation */
  int e = 0; if (!first) e = nd_range(0, 2);
  tag_t t; t.time = 0x0123456789abcd00LL + nd_range(0, 7); t.microstep = 0x01020300u + (unsigned)nd_range(0, 3);
  if (e == 0) { /* asks for a stop, whatever happened before */
    put(t);
    if (!proposed[i]) { if (!any || LT(best, t)) best = t; any = true; proposed[i] = true; }
    handle_stop_request_message(feds[i]);
  } else if (e == 1) { /* replies, having been asked */
    ASSUME(asked[i]); asked[i] = false;
    put(t);
    if (!granted && (!any || LT(best, t))) best = t;
    proposed[i] = true;
    handle_stop_request_reply(feds[i]);
  } else { /* resigns, reports a failure, or loses its connection */
    int w = nd_range(0, 2);
    ipos = 0; gone[i] = true;
    if (w == 0) { ilen = 0; federate_info_thread_TCP(feds[i]); }
    else if (w == 1) { ilen = 1; in[0] = MSG_TYPE_RESIGN; federate_info_thread_TCP(feds[i]); }
    else { ilen = 1; in[0] = MSG_TYPE_FAILED; federate_info_thread_TCP(feds[i]); }
  }
}
void h_stop(void) {
  setup();
  for (int i = 0; i < N; i++) { nodes_[i]->state = GRANTED; if (nd_bool()) { nodes_[i]->state = NOT_CONNECTED; gone[i] = true; } }
  rti.base.max_stop_tag = NEVER_TAG;
  for (int k = 0; k < K; k++) {
    int f = FIRST; if (k) f = nd_range(0, N - 1); /* departures before the first request are covered by the initial state */
    bool moved = false, left[N];
    for (int i = 0; i < N; i++) left[i] = gone[i];
    if (k == 0) { ASSUME(!gone[FIRST]); event(FIRST, 1); moved = true; }
    else for (int i = 0; i < N; i++) if (i == f && !gone[i]) { event(i, 0); moved = true; }
    ASSUME(moved);
    CHECK(held == 0, "the mutex is released");
    bool all = any; int alive = 0;
    for (int i = 0; i < N; i++) { if (!gone[i]) { alive++; if (!proposed[i]) all = false; } }
    if (all && !granted) {
      granted = true;
      for (int i = 0; i < N; i++) CHECK(grants[i] == !gone[i], "every connected federate is granted the stop");
      if (alive) { for (int i = 0; i < N; i++) if (!gone[i]) CHECK(!LT(gtag, nodes_[i]->next_event), "its next event is no later than the stop"); WITNESS("granted"); }
      bool dep = false; for (int i = 0; i < N; i++) if (gone[i] && !left[i]) dep = true;
      if (dep && alive) WITNESS("granted on a departure");
    }
    if (!all) {
      for (int i = 0; i < N; i++) CHECK(grants[i] == 0, "not yet");
      if (any) for (int i = 0; i < N; i++) CHECK(gone[i] || proposed[i] || asks[i] == 1, "every connected federate that has not proposed is asked");
    }
  }
}
