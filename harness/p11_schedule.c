#include "world.h"
/* Reference counts are modelled: what the scheduler does with its references is what counts here (P13 decides the token layer). */
static lf_token_t tok_new, tok_old;
static int released_new, released_old;
token_freed _lf_done_using(lf_token_t* t) {
  if (t == NULL) return NOT_FREED;
  CHECK(t->ref_count > 0, "a payload is not released more often than referenced");
  t->ref_count--;
  if (t == &tok_new) released_new++; else if (t == &tok_old) released_old++;
  return NOT_FREED;
}
#ifndef K
#define K 2
#endif
static trigger_t trg, other;
static event_t *ev[K + 1];
static trigger_t* ev_trg[K + 1]; static tag_t ev_tag[K + 1];
static tag_t cur, stop;
static void setup(void) {
  start_time = nd_i64();
  cur = vp_finite_tag(); stop.time = nd_i64(); stop.microstep = nd_u32();
  ASSUME(vp_cmp(stop, cur) >= 0);
  env.current_tag = cur; env.stop_tag = stop; env.execution_started = true; env._lf_handle = 1;
  env.event_q = pqueue_tag_init_customize(4, NULL, NULL, NULL);
  env.recycle_q = pqueue_tag_init_customize(4, NULL, NULL, NULL);
}
static int same_trigger(void* a, void* b) { return ((event_t*)a)->trigger == ((event_t*)b)->trigger; }
static int qn; /* queue content beforehand: qn events of either trigger, in the future, no trigger twice at one tag */
static void preload(void) {
  ((pqueue_t*)env.event_q)->eqelem = same_trigger;
  qn = nd_range(0, K);
  for (int i = 0; i < K; i++) if (i < qn) {
    ev[i] = vp_event();
    ev_tag[i] = vp_finite_tag();
    ASSUME(vp_cmp(ev_tag[i], cur) > 0 && vp_cmp(ev_tag[i], stop) <= 0);
    ev_trg[i] = nd_bool() ? &trg : &other;
    for (int j = 0; j < i; j++) ASSUME(ev_trg[i] != ev_trg[j] || vp_cmp(ev_tag[i], ev_tag[j]) != 0);
    ev[i]->base.tag = ev_tag[i]; ev[i]->trigger = ev_trg[i];
    pqueue_tag_insert(env.event_q, &ev[i]->base);
  }
}
static bool taken(tag_t t) { bool r = false; for (int i = 0; i < K; i++) if (i < qn) r |= ev_trg[i] == &trg && vp_cmp(ev_tag[i], t) == 0; return r; }
static void unchanged(void) {
  for (int i = 0; i < K; i++) if (i < qn) {
    CHECK(vp_cmp(ev[i]->base.tag, ev_tag[i]) == 0 && ev[i]->trigger == ev_trg[i], "pending events are left alone");
  }
}
static int count(event_t** mine) {
  int n = 0; pqueue_t* q = (pqueue_t*)env.event_q;
  for (int i = 0; i < K + 1; i++) if (i < q->size) {
    event_t* e = (event_t*)q->d[i]; bool old = false;
    for (int j = 0; j < K; j++) if (j < qn) old |= e == ev[j];
    if (!old) { n++; *mine = e; }
  }
  return n;
}
void h_schedule(void) {
  setup();
  trg.is_physical = nd_bool(); trg.offset = nd_i64(); trg.period = nd_i64(); trg.policy = nd_u8() % 4;
  trg.last_tag.time = nd_i64(); trg.last_tag.microstep = nd_u32();
  ASSUME(trg.offset >= 0 && trg.period <= 0);
  tag_t last0 = trg.last_tag;
  preload();
  interval_t extra = nd_i64();
  bool with = nd_bool();
  size_t rc = nd_u8() & 3; tok_new.ref_count = rc;
  vp_clock = nd_i64(); ASSUME(vp_clock < FOREVER && vp_clock >= 0); vp_clock_free = false;
  trigger_handle_t h = lf_schedule_trigger(&env, &trg, extra, with ? &tok_new : NULL);
  /* specification */
  interval_t d = vp_sat(extra < 0 ? 0 : extra, trg.offset);
  tag_t want;
  instant_t base = trg.is_physical ? vp_clock : cur.time;
  if (!trg.is_physical && d == 0) want = (tag_t){cur.time, cur.microstep + 1};
  else if (vp_sat(base, d) == FOREVER) want = trg.is_physical ? (tag_t){FOREVER, 0} : FOREVER_TAG;
  else { want = (tag_t){vp_sat(base, d), 0}; if (vp_cmp(want, cur) <= 0) want = (tag_t){cur.time, cur.microstep + 1}; }
  for (int i = 0; i < K; i++) if (taken(want)) { want.microstep++; }
  bool reject = vp_cmp(want, stop) > 0;
  event_t* mine = NULL; int n = count(&mine);
  unchanged();
  if (reject) {
    CHECK(n == 0, "an event after the stop tag is not queued");
    CHECK(!with || tok_new.ref_count == rc, "the payload of a rejected event is released");
    CHECK(vp_cmp(trg.last_tag, last0) == 0, "a rejected event leaves the spacing record alone");
    WITNESS("rejected");
  } else {
    CHECK(n == 1, "exactly one event is queued");
    CHECK(mine->trigger == &trg && mine->token == (with ? &tok_new : NULL), "the event carries the action and the payload");
    CHECK(vp_cmp(mine->base.tag, cur) > 0, "the event is in the future");
    CHECK(vp_cmp(mine->base.tag, want) == 0, "the event occurs at the requested tag, at the first free microstep");
    CHECK(!with || tok_new.ref_count == rc + 1, "the event holds one reference to the payload");
    CHECK(vp_cmp(trg.last_tag, want) == 0, "the action's last tag is recorded");
    if (qn == K && taken((tag_t){want.time, want.microstep - 1})) WITNESS("piled up");
    if (trg.is_physical) WITNESS("physical"); else WITNESS("logical");
    if (extra < 0) WITNESS("negative delay");
  }
  CHECK(h >= 0, "a handle is returned");
}
/* Handles stay positive when the counter wraps. */
void h_handle(void) {
  setup();
  preload();
  env._lf_handle = nd_i32(); ASSUME(env._lf_handle >= 1);
  trigger_handle_t h = lf_schedule_trigger(&env, &trg, 0, NULL);
  CHECK(h >= 0 && env._lf_handle >= 1, "handles are positive and the counter stays positive");
  WITNESS("handle");
}
void h_null_trigger(void) {
  setup(); preload(); tok_new.ref_count = nd_u8() & 3; size_t rc = tok_new.ref_count;
  CHECK(lf_schedule_trigger(&env, NULL, nd_i64(), &tok_new) == 0 && tok_new.ref_count == rc, "scheduling nothing releases the payload");
  event_t* m; CHECK(count(&m) == 0, "and queues nothing");
  WITNESS("null");
}

/* P12: minimum spacing. */
void h_spacing(void) {
  setup();
  trg.is_physical = nd_bool(); trg.offset = nd_i64(); trg.period = nd_i64();
  ASSUME(trg.offset >= 0 && trg.period > 0);
  trg.policy = nd_range(0, 3); /* defer, drop, replace, (update) */
  /* last_tag is never, or the tag of this action's latest event: queued if later than now */
  preload();
  trg.last_tag = NEVER_TAG;
  int p = -1;
  if (nd_bool()) {
    trg.last_tag = vp_finite_tag();
    ASSUME(vp_cmp(trg.last_tag, stop) <= 0);
    /* representation invariant: this action's queued events are at or before last_tag, spaced; last_tag is queued iff after now */
    bool queued = false;
    for (int i = 0; i < K; i++) if (i < qn && ev_trg[i] == &trg) {
      ASSUME(vp_cmp(ev_tag[i], trg.last_tag) <= 0);
      if (vp_cmp(ev_tag[i], trg.last_tag) == 0) { queued = true; p = i; }
    }
    ASSUME(queued == (vp_cmp(trg.last_tag, cur) > 0));
  } else {
    for (int i = 0; i < K; i++) ASSUME(i >= qn || ev_trg[i] != &trg);
  }
  tag_t last = trg.last_tag;
  if (p >= 0) { bool same = nd_bool(); ev[p]->token = same ? &tok_new : &tok_old; }
  tok_old.ref_count = 1 + (nd_u8() & 1);
  size_t oc = tok_old.ref_count, rc;
  tok_new.ref_count = nd_u8() & 1;
  if (p >= 0 && ev[p]->token == &tok_new) tok_new.ref_count++;
  rc = tok_new.ref_count;
  lf_token_t* pend = p >= 0 ? ev[p]->token : NULL;
  interval_t extra = nd_i64(); ASSUME(extra >= 0);
  vp_clock = nd_i64(); ASSUME(vp_clock < FOREVER && vp_clock >= 0); vp_clock_free = false;
  lf_schedule_trigger(&env, &trg, extra, &tok_new);
  interval_t d = vp_sat(extra, trg.offset);
  tag_t want;
  instant_t base = trg.is_physical ? vp_clock : cur.time;
  if (!trg.is_physical && d == 0) want = (tag_t){cur.time, cur.microstep + 1};
  else if (vp_sat(base, d) == FOREVER) want = trg.is_physical ? (tag_t){FOREVER, 0} : FOREVER_TAG;
  else { want = (tag_t){vp_sat(base, d), 0}; if (vp_cmp(want, cur) <= 0) want = (tag_t){cur.time, cur.microstep + 1}; }
  event_t* mine = NULL; int n = count(&mine);
  unchanged();
  bool early = last.time != NEVER && want.time < vp_sat(last.time, trg.period);
  if (early && trg.policy == drop) {
    CHECK(n == 0 && tok_new.ref_count == rc && vp_cmp(trg.last_tag, last) == 0, "an early event is dropped and its payload released");
    if (p >= 0) CHECK(ev[p]->token == pend, "dropping leaves the pending payload");
    WITNESS("dropped"); return;
  }
  if (early && trg.policy == replace && p >= 0) {
    CHECK(n == 0 && ev[p]->token == &tok_new, "an early event replaces the payload of the pending one");
    if (pend == &tok_old) CHECK(tok_old.ref_count == oc - 1 && tok_new.ref_count == rc + 1, "the replaced payload is released once");
    else CHECK(tok_new.ref_count == rc, "replacing a payload by itself keeps one reference");
    CHECK(vp_cmp(trg.last_tag, last) == 0, "the pending event keeps its tag");
    WITNESS("replaced"); return;
  }
  if (early) { want = (tag_t){vp_sat(last.time, trg.period), 0}; WITNESS("deferred"); }
  if (p >= 0) CHECK(ev[p]->token == pend, "the pending payload stays");
  if (vp_cmp(want, stop) > 0) {
    CHECK(n == 0 && tok_new.ref_count == rc, "an event after the stop tag is not queued and its payload is released");
    return;
  }
  CHECK(n == 1 && vp_cmp(mine->base.tag, want) == 0 && mine->token == &tok_new && tok_new.ref_count == rc + 1, "one event at the earliest allowed time");
  CHECK(last.time == NEVER || mine->base.tag.time - last.time >= trg.period || vp_sat(last.time, trg.period) == FOREVER, "events are at least the minimum spacing apart");
  CHECK(vp_cmp(trg.last_tag, want) == 0, "the last tag is recorded");
  if (!early) WITNESS("not early");
}
