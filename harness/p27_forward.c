/* Messages the coordinator forwards: one message of any content and length from any sender, in any state of the destination.
 * The stream is modelled by its header and one payload byte at an arbitrary position: whatever is true of that one is true of all. */
#include "rti_world.h"
#include "netfns.h"
#ifndef S
#define S 0
#endif
#ifndef DST
#define DST 2
#endif
#ifndef LMAX
#define LMAX 700
#endif
extern instant_t start_time;
static int src, dst; static tag_t mtag; static uint16_t port;
static unsigned char header[21]; static size_t hlen, total, rpos, wpos; static uint32_t plen;
static size_t k; static unsigned char v; static bool mtag_grant_ok;
static tag_t peek; static int inserted, sent_grants, records; static tag_t rec; static bool dead;
static int rd(int s, size_t n, unsigned char* b) {
  CHECK(s == 10 + src, "reads from the sender");
  CHECK(n <= total - rpos, "reads no more than the message");
#ifndef VP_REPLAY
  CHECK(__CPROVER_w_ok(b, n), "reads into its own buffer");
#endif
  if (rpos < hlen) {
    CHECK(rpos == 1 && n == hlen - 1, "the rest of the header is read first"); /* what it says decides what is read next */
    for (size_t i = 0; i < 20; i++) if (i < hlen - 1) b[i] = header[1 + i];
  } else if (rpos <= k && k < rpos + n) b[k - rpos] = v;
  rpos += n;
  return 0;
}
static int wr(int s, size_t n, const unsigned char* b) {
  CHECK(held == 1, "writes holding the mutex, so that nothing comes in between");
  CHECK(!dead && nodes_[dst]->state == GRANTED, "writes only to a connected federate that has been told the start time");
  CHECK(s == 10 + dst, "writes to the destination only");
  CHECK(n <= total - wpos && wpos + n <= rpos, "writes what was read, no more than the message");
#ifndef VP_REPLAY
  CHECK(__CPROVER_r_ok(b, n), "writes from its own buffer");
#endif
  CHECK(wpos ? wpos >= hlen : n >= hlen, "the header in one piece");
  if (wpos == 0) for (size_t i = 0; i < 21; i++) if (i < hlen) CHECK(b[i] == header[i], "the header arrives unchanged");
  if (wpos <= k && k < wpos + n) CHECK(b[k - wpos] == v, "every byte of the payload arrives unchanged and in order");
  wpos += n;
  return 0;
}
static void hangup(int s) { CHECK(0, "no socket is closed"); }
int lf_cond_wait(lf_cond_t* c) {
  CHECK(c == &sent_start_time && held == 1, "waits for the start time, holding the mutex");
  if (nodes_[dst]->state == PENDING && nd_bool()) nodes_[dst]->state = GRANTED;
  else { ASSUME(nodes_[dst]->state == PENDING); nodes_[dst]->state = GRANTED; if (nd_bool()) { nodes_[dst]->state = NOT_CONNECTED; feds[dst]->socket = -1; dead = true; WITNESS("leaves while waited for"); } }
  return 0;
}
pqueue_tag_t* pqueue_tag_init(size_t n) { return NULL; }
tag_t pqueue_tag_peek_tag(pqueue_tag_t* q) { int i = (int)(uintptr_t)q - 1; return i != dst ? FOREVER_TAG : records && LT(rec, peek) ? rec : peek; }
int pqueue_tag_insert_if_no_match(pqueue_tag_t* q, tag_t t) { CHECK((int)(uintptr_t)q - 1 == dst, "recorded for the destination"); records++; rec = t; return 0; }
int pqueue_tag_insert_tag(pqueue_tag_t* q, tag_t t) { return pqueue_tag_insert_if_no_match(q, t); }
static tag_t arb(void) { tag_t t; t.time = nd_i64(); t.microstep = nd_u32(); return t; }
static void world(unsigned char type) {
  setup();
  start_time = nd_range64(0, 1LL << 61);
  src = S; dst = DST;
  for (int i = 0; i < N; i++) {
    feds[i]->in_transit_message_tags = (pqueue_tag_t*)(uintptr_t)(i + 1);
    int s = nd_range(0, 2);
    nodes_[i]->state = s == 0 ? NOT_CONNECTED : s == 1 ? GRANTED : PENDING;
    nodes_[i]->next_event = arb(); nodes_[i]->completed = arb();
  }
  ASSUME(nodes_[src]->state == GRANTED);
  peek = arb();
  header[0] = type;
  for (int i = 1; i < 21; i++) header[i] = nd_u8();
  mtag.time = 0; mtag.microstep = 0;
  rpos = 1;
}
static int64_t le(int o, int n) { uint64_t x = 0; for (int i = 0; i < n; i++) x |= (uint64_t)header[o + i] << (8 * i); return (int64_t)x; }
static void done(void) {
  CHECK(held == 0, "the mutex is released");
  CHECK(rpos == total, "exactly the message is taken from the sender's stream");
  CHECK(wpos == (nodes_[dst]->state == NOT_CONNECTED ? 0 : total), "the whole message is forwarded if the destination is connected");
}
void h_message(void) {
  static unsigned char buffer[FED_COM_BUFFER_SIZE];
  world(MSG_TYPE_TAGGED_MESSAGE);
  hlen = 21;
  header[3] = (unsigned char)dst; header[4] = 0;
  plen = (uint32_t)le(5, 4); ASSUME(plen <= LMAX);
  mtag.time = le(9, 8); mtag.microstep = (microstep_t)le(17, 4);
  total = hlen + plen;
  k = nd_size(); v = nd_u8(); ASSUME(k >= hlen && (plen == 0 || k < total));
  for (int i = 0; i < N; i++) { ASSUME(mtag.time > NEVER && mtag.time < FOREVER); }
  buffer[0] = header[0];
  tag_t ne[N], comp[N]; for (int i = 0; i < N; i++) { ne[i] = nodes_[i]->next_event; comp[i] = nodes_[i]->completed; }
  handle_timed_message(feds[src], buffer);
  done();
  for (int i = 0; i < N; i++) {
    tag_t b = nodes_[i]->next_event;
    if (i != dst || nodes_[i]->state == NOT_CONNECTED) { CHECK(records == 0 || i != dst, "no record of a message that was dropped"); if (i != dst) CHECK(cmpt(b, ne[i]) == 0, "nobody else is affected"); continue; }
    if (LT(comp[i], mtag)) { CHECK(records == 1 && cmpt(rec, mtag) == 0, "the message is remembered until its tag completes"); WITNESS("remembered"); }
    CHECK(!LT(mtag, b), "the message bounds the destination's next event");
    CHECK(!LT(mtag, ne[i]) ? cmpt(b, ne[i]) == 0 : cmpt(b, mtag) == 0 || cmpt(b, peek) == 0, "and changes nothing else about it");
    if (plen > 500) WITNESS("in pieces");
    if (plen == 0) WITNESS("empty");
  }
  if (nodes_[dst]->state == NOT_CONNECTED) WITNESS("dropped");
}
void h_absent(void) {
  static unsigned char buffer[FED_COM_BUFFER_SIZE];
  world(MSG_TYPE_PORT_ABSENT);
  hlen = total = 17; k = 1000; v = 0;
  header[3] = (unsigned char)dst; header[4] = 0;
  buffer[0] = header[0];
  handle_port_absent_message(feds[src], buffer);
  done();
  CHECK(records == 0, "nothing to remember");
  if (nodes_[dst]->state == NOT_CONNECTED) WITNESS("dropped"); else WITNESS("forwarded");
}
