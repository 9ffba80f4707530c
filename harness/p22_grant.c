/* Tag advance grants: one message from any federate in any state of the coordinator. */
#define NO_NET
#include "rti_world.h"
extern instant_t start_time;
#ifndef TOPO /* bit 3*i+j: a connection from i to j */
#define TOPO 0b011101110
#endif
#ifndef F
#define F 0
#endif
#ifndef TMAX
#define TMAX 15
#endif
#ifndef MAXD
#define MAXD 3
#endif
#define HAS(i, j) ((i) != (j) && (TOPO >> (N * (i) + (j)) & 1))
#define START 4
static minimum_delay_t md[N][N];
static bool zdc[N];
typedef struct { int64_t t; uint32_t m; bool ok; } del;
static void build(void) {
  setup();
  start_time = START;
  for (int j = 0; j < N; j++) {
    scheduling_node_t* e = nodes_[j]; int n = 0, m = 0;
    for (int k = 0; k < N; k++) {
      int i = REV ? N - 1 - k : k;
      conn[i][j] = NONE;
      if (HAS(i, j)) { conn[i][j] = nd_range64(-1, MAXD); up_[j][n] = (uint16_t)i; upd_[j][n] = conn[i][j] < 0 ? NEVER : conn[i][j]; n++; }
      if (HAS(j, i)) { down_[j][m] = (uint16_t)i; m++; }
    }
    e->upstream = up_[j]; e->upstream_delay = upd_[j]; e->num_upstream = n; e->downstream = down_[j]; e->num_downstream = m;
  }
  /* the delay tables as P24 decides them, computed when everyone was connected */
  for (int e = 0; e < N; e++) {
    del d[N];
    for (int i = 0; i < N; i++) d[i] = (del){0, 0, false};
    for (int r = 0; r < N; r++) for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) if (HAS(i, j)) {
      if (j != e && !d[j].ok) continue;
      del p = j == e ? (del){0, 0, true} : d[j];
      del x = {conn[i][j] > 0 ? conn[i][j] : 0, conn[i][j] == 0 && p.t == 0, true};
      x.t += p.t; x.m += p.m;
      if (!d[i].ok || x.t < d[i].t || (x.t == d[i].t && x.m < d[i].m)) d[i] = x;
    }
    int n = 0;
    for (int i = 0; i < N; i++) if (d[i].ok) { md[e][n].id = i; md[e][n].min_delay.time = d[i].t; md[e][n].min_delay.microstep = d[i].m; n++; }
    zdc[e] = d[e].ok && d[e].t == 0 && d[e].m == 0;
    nodes_[e]->min_delays = md[e]; nodes_[e]->num_min_delays = n; nodes_[e]->flags = (d[e].ok ? 2 : 0) | (zdc[e] ? 1 : 0);
  }
}
static tag_t arb_tag(void) { tag_t t; t.time = nd_range64(START, START + TMAX); t.microstep = (microstep_t)nd_range(0, 3); return t; }
static tag_t arb_or_never(void) { return nd_bool() ? NEVER_TAG : arb_tag(); }
static tag_t arb_or_forever(void) { return nd_bool() ? FOREVER_TAG : arb_tag(); }
static void arb_state(void) {
  for (int i = 0; i < N; i++) {
    scheduling_node_t* e = nodes_[i];
    e->state = nd_bool() ? GRANTED : NOT_CONNECTED;
    uint8_t k = nd_u8();
    e->next_event = k == 0 ? NEVER_TAG : k == 1 ? FOREVER_TAG : arb_tag();
    e->completed = arb_or_never(); e->last_granted = arb_or_never(); e->last_provisionally_granted = arb_or_never();
  }
}
static tag_t succ(tag_t t) { if (t.time == NEVER) return t; t.microstep++; return t; }
/* the earliest tag at which federate u can still do anything, given what the coordinator knows */
static void earliest(tag_t b[N]) {
  for (int i = 0; i < N; i++) b[i] = FOREVER_TAG;
  for (int r = 0; r < N; r++) for (int u = 0; u < N; u++) {
    scheduling_node_t* e = nodes_[u];
    if (e->state == NOT_CONNECTED) { b[u] = FOREVER_TAG; continue; }
    tag_t x = e->next_event.time == NEVER ? (tag_t){START, 0} : e->next_event;
    for (int w = 0; w < N; w++) if (HAS(w, u)) { tag_t y = dly(b[w], conn[w][u]); if (LT(y, x)) x = y; }
    tag_t c = succ(e->completed);
    b[u] = LT(x, c) ? c : x;
  }
}
static tag_t in_transit[N]; /* earliest message on its way to each federate */
pqueue_tag_t* pqueue_tag_init(size_t n) { return NULL; }
tag_t pqueue_tag_peek_tag(pqueue_tag_t* q) { return in_transit[(int)(uintptr_t)q - 1]; }
static tag_t removed; static int removals;
void pqueue_tag_remove_up_to(pqueue_tag_t* q, tag_t t) { CHECK((int)(uintptr_t)q - 1 == F, "its own record"); removed = t; removals++; }
void lf_cond_wait_hook(void);
int lf_cond_wait(lf_cond_t* c) { CHECK(c == &sent_start_time && held == 1, "waiting for a start time, holding the mutex once"); for (int i = 0; i < N; i++) if (nodes_[i]->state == PENDING) nodes_[i]->state = GRANTED; return 0; }
static int grants[N], tags[N], ptags[N]; static tag_t granted[N]; static bool werr, werr_ok, quiet; static tag_t now[N]; /* the bounds: unchanged while grants are sent, unless a federate turns out to have left */
static int64_t get(const unsigned char* b, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)b[i] << (8 * i); return n == 4 ? (int32_t)v : (int64_t)v; }
int write_to_socket(int s, size_t n, unsigned char* buf) {
  int e = s - 10;
  CHECK(held > 0, "grants are sent holding the mutex");
  CHECK(e >= 0 && e < N, "to a federate");
  CHECK(n == 13 && (buf[0] == MSG_TYPE_TAG_ADVANCE_GRANT || buf[0] == MSG_TYPE_PROVISIONAL_TAG_ADVANCE_GRANT), "a grant message");
  bool prov = buf[0] == MSG_TYPE_PROVISIONAL_TAG_ADVANCE_GRANT;
  tag_t g; g.time = get(buf + 1, 8); g.microstep = (microstep_t)get(buf + 9, 4);
  for (int x = 0; x < N; x++) if (x == e) {
    if (werr_ok) earliest(now);
    tag_t* b = now;
    scheduling_node_t* n_ = nodes_[x];
    CHECK(n_->state != NOT_CONNECTED, "no grant to a federate that has left");
    CHECK(LT(n_->last_granted, g), "grants increase");
    if (prov) CHECK(LT(n_->last_provisionally_granted, g), "provisional grants increase"); else CHECK(!LT(g, n_->last_provisionally_granted), "a full grant is not below a provisional one");
    if (!quiet) for (int u = 0; u < N; u++) if (HAS(u, x) && nodes_[u]->state != NOT_CONNECTED) {
      tag_t a = dly(b[u], conn[u][x]);
      bool never = a.time == FOREVER;
      if (!prov) CHECK(never || LT(g, a), "a grant is given only when no message at or before it can still arrive");
      else {
        CHECK(never || !LT(a, g), "a provisional grant is given only when no message before it can still arrive");
        if (!zdc[u]) CHECK(never || LT(g, a), "nor, from outside zero-delay cycles, one at it");
      }
    }
    grants[x]++; granted[x] = g; if (prov) ptags[x]++; else tags[x]++;
  }
  return werr_ok ? nd_bool() : 0;
}
#ifdef MODEL_RECURSION
#endif
static void wr64(unsigned char* b, int64_t v) { for (int i = 0; i < 8; i++) b[i] = (unsigned char)((uint64_t)v >> (8 * i)); }
static void wr32(unsigned char* b, uint32_t v) { for (int i = 0; i < 4; i++) b[i] = (unsigned char)(v >> (8 * i)); }
void encode_int64(int64_t v, unsigned char* b) { wr64(b, v); }
void encode_int32(int32_t v, unsigned char* b) { wr32(b, (uint32_t)v); }
tag_t extract_tag(unsigned char* b) { tag_t t; t.time = get(b, 8); t.microstep = (microstep_t)get(b + 8, 4); return t; }
static tag_t msg;
void read_from_socket_fail_on_error(int* s, size_t n, unsigned char* b, lf_mutex_t* m, char* f, ...) {
  CHECK(*s == 10 + F && n == 12, "the body of the message");
  wr64(b, msg.time); wr32(b + 8, msg.microstep);
}

#ifndef E
#define E 0
#endif
static void safe(int x, tag_t g, bool prov) {
  tag_t b[N]; earliest(b);
  for (int u = 0; u < N; u++) if (HAS(u, x) && nodes_[u]->state != NOT_CONNECTED) {
    tag_t a = dly(b[u], conn[u][x]);
    bool never = a.time == FOREVER;
    if (!prov) CHECK(never || LT(g, a), "a grant is given only when no message at or before it can still arrive");
    else {
      CHECK(never || !LT(a, g), "a provisional grant is given only when no message before it can still arrive");
      if (!zdc[u]) CHECK(never || LT(g, a), "nor, from outside zero-delay cycles, one at it");
    }
  }
}
/* The decision for one federate. */
void h_decide(void) {
  build(); arb_state();
  scheduling_node_t* e = nodes_[E];
  e->state = GRANTED;
  tag_t ne = e->next_event;
  tag_advance_grant_t g = tag_advance_grant_if_safe(e);
  if (g.tag.time == NEVER) return;
  safe(E, g.tag, g.is_provisional);
  if (ne.time == NEVER) ne = (tag_t){START, 0};
  if (g.is_provisional) CHECK(cmpt(g.tag, ne) == 0, "a provisional grant is for the reported next event");
  else CHECK(!LT(g.tag, ne), "a grant covers the reported next event");
  if (g.is_provisional) { CHECK(zdc[E], "provisional grants are for zero-delay cycles only"); }
  else WITNESS("granted");
  WITNESS("decided");
}
/* A provisional grant, and the grants to upstream federates that it triggers. */
void h_ptag(void) {
  build(); arb_state();
  scheduling_node_t* e = nodes_[E];
  tag_t g = arb_tag();
  earliest(now);
  for (int u = 0; u < N; u++) if (HAS(u, E) && nodes_[u]->state != NOT_CONNECTED) {
    tag_t a = dly(now[u], conn[u][E]);
    ASSUME(!LT(a, g)); if (!zdc[u]) ASSUME(LT(g, a));
  }
  bool sendable = e->state != NOT_CONNECTED && LT(e->last_granted, g) && LT(e->last_provisionally_granted, g);
  held = 1;
  notify_provisional_tag_advance_grant(e, g);
  CHECK(held == 1, "the mutex stays held");
  CHECK((ptags[E] > 0) == sendable, "sent exactly when it is new");
  if (sendable) {
    if (e->state != NOT_CONNECTED) CHECK(cmpt(e->last_provisionally_granted, g) == 0, "and remembered");
    int others = 0;
    for (int i = 0; i < N; i++) if (i != E) { CHECK(grants[i] == 0 || cmpt(granted[i], g) == 0, "others are granted the same tag"); others += grants[i]; }
    if (others) WITNESS("triggers");
    WITNESS("sent");
  }
}
/* Whoever may be affected by a message is re-evaluated: afterwards no grant is due that was not given. */
static bool reported[N];
static void nothing_due(bool ltc) {
  bool r[N]; for (int i = 0; i < N; i++) r[i] = i == F;
  for (int k = 0; k < N; k++) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (HAS(i, j) && r[i]) r[j] = true;
  for (int i = 0; i < N; i++) if (r[i] && reported[i] && !(ltc && i == F) && nodes_[i]->state != NOT_CONNECTED && nodes_[i]->num_upstream > 0) {
    tag_advance_grant_t g = tag_advance_grant_if_safe(nodes_[i]);
    if (g.tag.time == NEVER) continue;
    CHECK(!LT(nodes_[i]->last_granted, g.tag) || LT(g.tag, nodes_[i]->last_provisionally_granted), "a grant that is due has been given");
    WITNESS("given");
  }
}
#ifndef CYCLIC
void h_due_net(void) {
  build(); arb_state();
  for (int i = 0; i < N; i++) { feds[i]->in_transit_message_tags = (pqueue_tag_t*)(uintptr_t)(i + 1); in_transit[i] = FOREVER_TAG; }
  nodes_[F]->state = GRANTED;
  msg = arb_or_forever();
  for (int i = 0; i < N; i++) reported[i] = i == F || nodes_[i]->next_event.time != NEVER;
  quiet = true; /* the safety of grants is decided by the other harnesses */
  handle_next_event_tag(feds[F]);
  nothing_due(false);
  WITNESS("done");
}
void h_due_ltc(void) {
  build(); arb_state();
  for (int i = 0; i < N; i++) feds[i]->in_transit_message_tags = (pqueue_tag_t*)(uintptr_t)(i + 1);
  nodes_[F]->state = GRANTED;
  msg = arb_tag();
  for (int i = 0; i < N; i++) reported[i] = nodes_[i]->next_event.time != NEVER;
  quiet = true;
  handle_latest_tag_confirmed(feds[F]);
  nothing_due(true);
  WITNESS("done");
}
#endif
/* Everyone has reported: someone with the earliest next event can go on. */
void h_progress(void) {
  build(); arb_state();
  bool some = false, ready = false; tag_t m = FOREVER_TAG;
  for (int i = 0; i < N; i++) if (nodes_[i]->state != NOT_CONNECTED) {
    ASSUME(nodes_[i]->next_event.time != NEVER && nodes_[i]->next_event.time != FOREVER);
    /* what is granted has been used: the next event reported afterwards is later */
    ASSUME(LT(nodes_[i]->completed, nodes_[i]->next_event));
    if (LT(nodes_[i]->next_event, m)) m = nodes_[i]->next_event;
    some = true;
  } else nodes_[i]->next_event = FOREVER_TAG;
  for (int i = 0; i < N; i++) {
    scheduling_node_t* e = nodes_[i];
    if (e->state == NOT_CONNECTED || cmpt(e->next_event, m) != 0) continue;
    if (e->num_upstream == 0 || !LT(e->last_granted, m) || !LT(e->last_provisionally_granted, m)) { ready = true; continue; }
    tag_advance_grant_t g = tag_advance_grant_if_safe(e);
    if (g.tag.time != NEVER && !LT(g.tag, m)) { ready = true; WITNESS("granted"); }
  }
  CHECK(!some || ready, "some federate with the earliest next event can proceed");
  WITNESS("done");
}
/* F reports its next event */
void h_net(void) {
  build(); arb_state();
  for (int i = 0; i < N; i++) { feds[i]->in_transit_message_tags = (pqueue_tag_t*)(uintptr_t)(i + 1); in_transit[i] = arb_or_forever(); }
  nodes_[F]->state = GRANTED;
  werr_ok = true;
  msg = arb_or_forever();
  tag_t bound = LT(in_transit[F], msg) ? in_transit[F] : msg;
  handle_next_event_tag(feds[F]);
  CHECK(held == 0, "the mutex is released");
  CHECK(cmpt(nodes_[F]->next_event, bound) == 0, "a message in transit bounds the next event");
  for (int i = 0; i < N; i++) if (i != F) {
    CHECK(nodes_[i]->num_upstream == 0 || grants[i] <= 3, "bounded");
    if (tags[i] == 1 && ptags[i] == 0 && nodes_[i]->state == GRANTED) { CHECK(cmpt(nodes_[i]->last_granted, granted[i]) == 0, "a grant is remembered"); WITNESS("granted"); }
  }
  WITNESS("handled");
}
/* F has completed a tag */
void h_ltc(void) {
  build(); arb_state();
  for (int i = 0; i < N; i++) feds[i]->in_transit_message_tags = (pqueue_tag_t*)(uintptr_t)(i + 1);
  nodes_[F]->state = GRANTED;
  werr_ok = true;
  msg = arb_tag();
  handle_latest_tag_confirmed(feds[F]);
  CHECK(held == 0, "the mutex is released");
  CHECK(cmpt(nodes_[F]->completed, msg) == 0 && removals == 1 && cmpt(removed, msg) == 0, "completion is recorded and its messages forgotten");
  WITNESS("handled");
}
/* F resigns, fails or loses its connection. */
#ifndef W
#define W 0
#endif
static bool typed, after; static int closed;
int read_from_socket(int s, size_t n, unsigned char* b) {
  CHECK(s == 10 + F && n == 1, "the next message of the departing federate");
  if (typed || W == 0) return 1;
  typed = true;
  b[0] = W == 1 ? MSG_TYPE_RESIGN : MSG_TYPE_FAILED;
  return 0;
}
ssize_t vp_read(int s, void* p, size_t n) { CHECK(s == 10 + F && W == 1 && !closed, "drains the departing federate's socket"); return after ? 0 : (after = true, (ssize_t)n); }
int vp_close(int s) { CHECK(s == 10 + F, "closes the departed federate's socket"); closed++; return 0; }
int vp_shutdown(int s, int h) { CHECK(s == 10 + F, "shuts the departing federate's socket down"); return 0; }
void initialize_lf_thread_id(void) {}
void h_depart(void) {
  build(); arb_state();
  nodes_[F]->state = GRANTED;
  tag_t ne[N], c[N]; scheduling_node_state_t st[N];
  for (int i = 0; i < N; i++) { reported[i] = nodes_[i]->next_event.time != NEVER; ne[i] = nodes_[i]->next_event; c[i] = nodes_[i]->completed; st[i] = nodes_[i]->state; }
  quiet = true;
  federate_info_thread_TCP(feds[F]);
  CHECK(held == 0, "the mutex is released");
  CHECK(nodes_[F]->state == NOT_CONNECTED && cmpt(nodes_[F]->next_event, FOREVER_TAG) == 0, "no further events are expected from it");
  CHECK(closed == 1, "its socket is closed once");
  CHECK(grants[F] == 0, "nothing is sent to it");
  for (int i = 0; i < N; i++) if (i != F) CHECK((cmpt(ne[i], nodes_[i]->next_event) == 0 || (ne[i].time == NEVER && nodes_[i]->next_event.time == START)) && cmpt(c[i], nodes_[i]->completed) == 0 && st[i] == nodes_[i]->state, "the other federates are unaffected");
  nothing_due(false);
  WITNESS("done");
}
