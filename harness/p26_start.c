/* The start of the federation: every federate proposes a time; the coordinator's threads are interleaved at their waits. */
#include "rti_world.h"
#include "netfns.h"
#ifndef SPUR /* a spurious wake-up when so many have proposed */
#define SPUR 0
#endif
extern instant_t start_time;
static bool begun[N], replied[N], broadcast; static int64_t prop[N], most; static int nread, cur, spurious;
static int rd(int s, size_t n, unsigned char* b) {
  CHECK(n == 8, "the proposed time");
  for (int i = 0; i < N; i++) if (s == 10 + i) {
    CHECK(begun[i], "from a federate that proposes");
    for (int j = 0; j < 8; j++) b[j] = (unsigned char)((uint64_t)prop[i] >> (8 * j));
    if (prop[i] > most) most = prop[i];
    nread++;
  }
  return 0;
}
static int wr(int s, size_t n, const unsigned char* b) {
  CHECK(n == 9 && b[0] == MSG_TYPE_TIMESTAMP, "the documented reply");
  CHECK(nread == N, "no start time before everyone has proposed");
  uint64_t x = 0; for (int j = 0; j < 8; j++) x |= (uint64_t)b[1 + j] << (8 * j);
  CHECK((int64_t)x == most + DELAY_START, "the latest proposal plus the startup delay");
  bool known = false;
  for (int i = 0; i < N; i++) if (s == 10 + i) { known = true; CHECK(!replied[i] && begun[i], "each federate gets one reply"); replied[i] = true; CHECK(nodes_[i]->state == PENDING, "before anything else is sent to it"); }
  CHECK(known, "to a federate");
  return 0;
}
static void hangup(int s) { CHECK(0, "no transfer fails"); }
int lf_cond_broadcast(lf_cond_t* c) { CHECK(c == &received_start_times || c == &sent_start_time, "a condition of the start"); CHECK(held == 1, "signalled holding the mutex"); if (c == &received_start_times) broadcast = true; else for (int i = 0; i < N; i++) CHECK(!(nodes_[i]->state == GRANTED && !replied[i]), "granted only after the reply"); return 0; }
int lf_cond_signal(lf_cond_t* c) { CHECK(0, "one signal does not wake every waiting federate"); return 0; }
static void one(void) { /* the federates come in turn */
  static int turn;
  CHECK(turn < N, "nobody waits once everyone has proposed");
  int i = REV ? N - 1 - turn : turn;
  turn++;
  begun[i] = true;
  handle_timestamp(feds[i]);
  CHECK(replied[i] && nodes_[i]->state == GRANTED, "the federate has been told and is running");
}
int lf_cond_wait(lf_cond_t* c) {
  CHECK(c == &received_start_times && held == 1, "waits for the other proposals, holding the mutex once");
  CHECK(nread < N, "nobody waits once everyone has proposed");
  if (spurious == 0 && nread == SPUR) { spurious = 1; return 0; }
  held = 0;
  one();
  CHECK(held == 0 && broadcast, "the waiting federates are woken");
  held = 1;
  return 0;
}
pqueue_tag_t* pqueue_tag_init(size_t n) { return NULL; }
void h_start(void) {
  setup();
  most = NEVER;
  for (int i = 0; i < N; i++) { nodes_[i]->state = PENDING; prop[i] = nd_range64(0, FOREVER - DELAY_START - 1); }
  one();
  for (int i = 0; i < N; i++) CHECK(replied[i], "every federate has been told");
  CHECK(start_time == most + DELAY_START, "the coordinator uses the same time");
  WITNESS("started");
}
