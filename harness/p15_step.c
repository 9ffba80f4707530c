/* One step of the single-threaded runtime on an arbitrary small program from an arbitrary state between steps (inductive step). */
#include "world.h"
#include "pqueue.h"
#include "port.h"
token_freed _lf_done_using(lf_token_t* t) { CHECK(t == NULL, "no payloads here"); return NOT_FREED; }
void _lf_replace_template_token(token_template_t* a, lf_token_t* t) { CHECK(t == NULL, "no payloads here"); }
void _lf_free_token_copies(void) {}
int next(environment_t* env);
int _lf_do_step(environment_t* env);
void lf_request_stop(void);
static reaction_t R0, R1, R2;
extern bool fast, keepalive_specified;
#ifndef K
#define K 2
#endif
#ifndef QCAP
#define QCAP 4
#endif
#define NR 3
/* separate objects, so that symbolic pointers range over whole objects */
static self_base_t s0, s1, s2, *const selfp[NR] = {&s0, &s1, &s2};
static reaction_t R0, R1, R2, *const Rp[NR] = {&R0, &R1, &R2};
static trigger_t A0, A1, P0, P1, P2, *const actp[2] = {&A0, &A1}, *const ptrgp[NR] = {&P0, &P1, &P2};
static lf_port_base_t port0, port1, port2, *const portp[NR] = {&port0, &port1, &port2};
#define R(i) (*Rp[i])
#define act(i) (*actp[i])
#define ptrg(i) (*ptrgp[i])
#define port(i) (*portp[i])
#define selfs(i) (*selfp[i])
static reaction_t *arx0[2], *arx1[2], *prx0[2], *prx1[2], *prx2[2];
static reaction_t **const arx[2] = {arx0, arx1}, **const prx[NR] = {prx0, prx1, prx2};
static trigger_t *pt0[1] = {&P0}, *pt1[1] = {&P1}, *pt2[1] = {&P2}, **pta0[1] = {pt0}, **pta1[1] = {pt1}, **pta2[1] = {pt2};
static bool *prod0[1] = {&port0.is_present}, *prod1[1] = {&port1.is_present}, *prod2[1] = {&port2.is_present};
static int tsz0[1] = {1}, tsz1[1] = {1}, tsz2[1] = {1};
static bool *fields[5], *abbr[5];
static reaction_t* shut[1];
static tag_t cur, stop, want;
static event_t* ev[K + 1]; static tag_t ev_tag[K + 1]; static int ev_trg[K + 1]; static int qn;
static int log_n, count_[NR], order_[NR]; static bool sets[NR], direct_ok;
static bool in_step, interrupted, handler_called[NR], missed[NR], stop_req;
static instant_t sleep_until;
static int same_trigger(void* a, void* b) { return ((event_t*)a)->trigger == ((event_t*)b)->trigger; }
static inline void body_(int i, bool handler) {
    CHECK(in_step, "reactions run only in a step");
  CHECK(R(i).status == running || direct_ok, "a running reaction has been dequeued");
  CHECK(fast || vp_clock >= env.current_tag.time, "a reaction never starts before physical time reaches its tag");
  CHECK(vp_cmp(env.current_tag, want) == 0, "a reaction executes at the tag of the step");
  count_[i]++; order_[i] = log_n++;
  handler_called[i] = handler;
  if (sets[i]) lf_set_present(&port(i));
  if (stop_req && i == 1) lf_request_stop();
}
static void fn(void* s, bool h) {
  CHECK(h || ((self_base_t*)s)->executing_reaction != NULL, "the executing reaction is recorded");
  if (s == &s0) body_(0, h); else if (s == &s1) body_(1, h); else body_(2, h);
}
static void body(void* s) { fn(s, false); }
static void late(void* s) { fn(s, true); }
#ifdef STUB_SCHED
/* P11 decides what scheduling does; here there is no timer, so the step itself schedules nothing */
trigger_handle_t lf_schedule_trigger(environment_t* e, trigger_t* t, interval_t d, lf_token_t* k) { CHECK(0, "only timers are rescheduled by the step"); return 0; }
#endif
/* The platform sleep: completes at or after the wake-up time, or is interrupted after something was scheduled asynchronously. */
int lf_clock_interruptable_sleep_until_locked(environment_t* e, instant_t t) {
  CHECK(!fast, "no waiting in fast execution");
  sleep_until = t;
  if (interrupted) return -1;
  int64_t v = nd_i64(); ASSUME(v >= vp_clock && v >= t); vp_clock = v;
  return 0;
}
static void program(void) {
  start_time = 0;
  for (int i = 0; i < NR; i++) {
    selfs(i).environment = &env;
    R(i).function = body; R(i).self = &selfs(i); R(i).deadline = -1; R(i).index = nd_u64();
    R(i).number = 0; R(i).status = inactive;
    sets[i] = nd_bool();
  }
  /* reaction 0 writes port 0, reaction 1 writes port 1; a reaction triggered by a port has a greater index than the writer */
  ASSUME(R(0).index < R(1).index && R(1).index < R(2).index);
  R0.output_produced = prod0; R1.output_produced = prod1; R2.output_produced = prod2;
  R0.triggered_sizes = tsz0; R1.triggered_sizes = tsz1; R2.triggered_sizes = tsz2;
  R0.triggers = pta0; R1.triggers = pta1; R2.triggers = pta2;
  for (int p = 0; p < NR; p++) {
    port(p).source_reactor = selfp[p]; port(p).destination_channel = -1;
    Rp[p]->num_outputs = 1; ptrg(p).reactions = prx[p]; ptrg(p).number_of_reactions = 2;
    fields[p] = &port(p).is_present;
  }
  prx0[0] = nd_bool() ? &R1 : NULL; prx0[1] = nd_bool() ? &R2 : NULL; prx1[0] = nd_bool() ? &R2 : NULL;
  for (int a = 0; a < 2; a++) {
    arx[a][0] = a ? &R2 : &R0; arx[a][1] = &R1;
    act(a).reactions = arx[a]; act(a).number_of_reactions = nd_range(0, 2);
    act(a).last_tag = NEVER_TAG;
    fields[3 + a] = (bool*)&act(a).status;
  }
#ifdef DIRECT
  shut[0] = &R0;
#else
  shut[0] = &R2;
#endif
  env.shutdown_reactions = shut; env.shutdown_reactions_size = nd_range(0, 1);
  env.is_present_fields = fields; env.is_present_fields_abbreviated = abbr; env.is_present_fields_size = 5;
  cur = vp_finite_tag(); stop.time = nd_i64(); stop.microstep = nd_u32();
  ASSUME(vp_cmp(stop, cur) > 0);
  env.current_tag = cur; env.stop_tag = stop; env.execution_started = true; env._lf_handle = 1;
  env.event_q = pqueue_tag_init_customize(4, NULL, same_trigger, NULL);
  env.recycle_q = pqueue_tag_init_customize(4, NULL, NULL, NULL);
  env.reaction_q = pqueue_init(4, NULL, NULL, NULL, NULL, NULL, NULL);
}
static void events(void) {
  qn = nd_range(0, K);
  for (int i = 0; i < K; i++) if (i < qn) {
    ev[i] = vp_event();
    ev_tag[i] = vp_finite_tag();
    ASSUME(vp_cmp(ev_tag[i], cur) > 0 && vp_cmp(ev_tag[i], stop) <= 0);
    ev_trg[i] = nd_range(0, 2);
    for (int j = 0; j < i; j++) ASSUME(ev_trg[i] == 2 || ev_trg[i] != ev_trg[j] || vp_cmp(ev_tag[i], ev_tag[j]) != 0);
    ev[i]->base.tag = ev_tag[i]; ev[i]->trigger = ev_trg[i] == 2 ? NULL : ev_trg[i] ? &act(1) : &act(0);
    pqueue_tag_insert(env.event_q, &ev[i]->base);
  }
}
/* what was present in the previous step */
static void leftovers(void) {
  env.is_present_fields_abbreviated_size = 0;
  for (int f = 0; f < 5; f++) if (nd_bool()) {
    *fields[f] = true;
    if (env.is_present_fields_abbreviated_size < 5) abbr[env.is_present_fields_abbreviated_size] = fields[f];
    env.is_present_fields_abbreviated_size++;
  }
  if (nd_bool()) { /* more was recorded than fits: everything must be reset */ env.is_present_fields_abbreviated_size = 6 + nd_range(0, 2); }
}
void* vpq_canon(void* e) {
  CHECK(e == &R0 || e == &R1 || e == &R2, "only known reactions are queued");
  return e == &R0 ? &R0 : e == &R1 ? &R1 : &R2;
}
static bool in_queue(int i) { bool r = false; pqueue_t* q = (pqueue_t*)env.event_q; for (int j = 0; j < QCAP; j++) if (j < q->size) r |= q->d[j] == (void*)ev[i]; return r; }
static bool acts(int a, int r) {
  bool x = false;
  for (int k = 0; k < 2; k++) if (k < act(a).number_of_reactions) x |= arx[a][k] == &R(r);
  return x;
}
static bool ptrigs(int p, int r) { bool x = false; for (int k = 0; k < 2; k++) x |= prx[p][k] == &R(r); return x; }
static int step(void) {
  fast = nd_bool(); keepalive_specified = nd_bool();
  vp_clock = nd_i64(); ASSUME(vp_clock >= 0 && vp_clock < FOREVER);
  ASSUME(fast || vp_clock >= cur.time);
  interrupted = !fast && nd_bool();
  stop_req = nd_bool();
  tag_t m = FOREVER_TAG;
  for (int i = 0; i < K; i++) if (i < qn && vp_cmp(ev_tag[i], m) < 0) m = ev_tag[i];
  if (qn == 0 && !keepalive_specified) { tag_t n = {cur.time, cur.microstep + 1}; if (vp_cmp(n, stop) < 0) stop = n; }
  want = vp_cmp(m, stop) > 0 ? stop : m;
  in_step = true;
  int rc = next(&env);
  in_step = false;
  CHECK(vp_disabled == 0, "critical sections are balanced");
  return rc;
}
void h_step(void) {
  program(); events(); leftovers();
#ifdef DIRECT
  /* the compiler's promise: reaction 2 is enabled by nothing but reaction 1 */
  R(2).last_enabling_reaction = &R(1); direct_ok = true;
  ASSUME(!ptrigs(0, 2) && !acts(0, 2) && !acts(1, 2));
#endif
  int rc = step();
  if (!fast) CHECK(sleep_until == want.time, "the runtime waits for the time of the next tag");
  if (interrupted) {
    CHECK(rc == 1 && vp_cmp(env.current_tag, cur) == 0 && log_n == 0, "an interrupted wait changes nothing");
    for (int i = 0; i < K; i++) if (i < qn) CHECK(in_queue(i), "pending events survive an interrupted wait");
    WITNESS("interrupted");
    return;
  }
  CHECK(vp_cmp(env.current_tag, want) == 0 && vp_cmp(want, cur) > 0, "the tag advances to the earliest event, never past the stop tag");
  bool stopping = vp_cmp(want, stop) == 0;
  bool trig[NR], p0, p1; bool a_now[2] = {false, false};
  for (int i = 0; i < K; i++) if (i < qn && ev_trg[i] < 2 && vp_cmp(ev_tag[i], want) == 0) a_now[ev_trg[i]] = true;
  for (int r = 0; r < NR; r++) trig[r] = (a_now[0] && acts(0, r)) || (a_now[1] && acts(1, r)) || (stopping && env.shutdown_reactions_size == 1 && shut[0] == &R(r));
  p0 = trig[0] && sets[0];
  trig[1] |= p0 && ptrigs(0, 1); trig[2] |= p0 && ptrigs(0, 2);
  p1 = trig[1] && sets[1];
  trig[2] |= p1 && ptrigs(1, 2);
  for (int r = 0; r < NR; r++) CHECK(count_[r] == (trig[r] ? 1 : 0), "a reaction executes once if one of its triggers is present and not otherwise");
  for (int r = 0; r < NR; r++) for (int s = 0; s < r; s++) if (trig[r] && trig[s]) CHECK(order_[s] < order_[r], "reactions execute in the order of their indices");
  CHECK(port(0).is_present == p0 && port(1).is_present == p1 && port(2).is_present == (trig[2] && sets[2]), "exactly the ports written at this tag are present");
  for (int a = 0; a < 2; a++) CHECK((act(a).status == present) == a_now[a], "exactly the actions with an event at this tag are present");
  for (int i = 0; i < K; i++) if (i < qn) CHECK(in_queue(i) == (vp_cmp(ev_tag[i], want) != 0) , "events at this tag are consumed, others remain");
  CHECK(pqueue_size(env.reaction_q) == 0, "no triggered reaction is left over");
  for (int r = 0; r < NR; r++) CHECK(R(r).status == inactive || direct_ok, "reactions are inactive between steps");
  if (stop_req && trig[1]) {
    tag_t t = {want.time, want.microstep + 1};
    CHECK(vp_cmp(env.stop_tag, vp_cmp(t, stop) < 0 ? t : stop) == 0, "a requested stop happens one microstep later");
  } else CHECK(vp_cmp(env.stop_tag, stop) == 0, "the stop tag does not move by itself");
  CHECK(rc == (stopping ? 0 : 1), "execution continues exactly until the stop tag");
  if (stopping) WITNESS("stop"); else WITNESS("step");
#ifndef DIRECT
  if (a_now[0] && a_now[1] && trig[2]) WITNESS("simultaneous actions");
#else
  if (trig[2]) WITNESS("direct execution");
#endif
}
/* P16: a stop request at any time takes effect one microstep later, unless an earlier stop is already set. */
void h_request(void) {
  program();
  bool past = nd_bool();
  if (past) { env.current_tag = stop; cur = stop; ASSUME(cur.time < FOREVER && cur.microstep < 0x7fffffff); }
  lf_request_stop();
  tag_t t = {cur.time, cur.microstep + 1};
  CHECK(vp_cmp(env.stop_tag, vp_cmp(t, stop) < 0 ? t : stop) == 0, "a requested stop happens one microstep later, and never moves a stop tag back");
  CHECK(vp_cmp(env.stop_tag, cur) >= 0, "the stop tag is never in the past");
  if (past) WITNESS("at stop"); else WITNESS("running");
}
void h_set_stop(void) {
  tag_t a = {nd_i64(), nd_u32()}, b = {nd_i64(), nd_u32()}, c = {nd_i64(), nd_u32()};
  env.stop_tag = a;
  lf_set_stop_tag(&env, b);
  CHECK(vp_cmp(env.stop_tag, vp_cmp(b, a) < 0 ? b : a) == 0, "the earliest stop wins");
  CHECK(lf_is_tag_after_stop_tag(&env, c) == (vp_cmp(c, env.stop_tag) > 0), "after means strictly after");
  WITNESS("set");
}
void environment_init_tags(environment_t* env, instant_t start_time, interval_t duration);
void h_init_tags(void) {
  instant_t s = nd_i64(); interval_t d = nd_i64(); ASSUME(s >= 0 && s < FOREVER);
  environment_init_tags(&env, s, d);
  CHECK(env.current_tag.time == s && env.current_tag.microstep == 0, "execution starts at (start, 0)");
  if (d < 0) CHECK(vp_cmp(env.stop_tag, FOREVER_TAG) == 0, "no timeout: no stop tag");
  else CHECK(env.stop_tag.time == vp_sat(s, d) && env.stop_tag.microstep == 0, "the stop tag is start + timeout");
  WITNESS("init");
}
/* P18: deadlines. */
void h_deadline(void) {
  program();
  interval_t d = nd_i64(); 
  R(0).deadline = d;
  bool has = nd_bool(); R(0).deadline_violation_handler = has ? late : NULL;
  /* downstream reaction 1 has a deadline too, executed through the queue or immediately */
  interval_t d1 = nd_i64(); R(1).deadline = d1;
  R(1).deadline_violation_handler = late;
  prx0[0] = &R1; prx0[1] = NULL;
#ifdef DIRECT
  R(1).last_enabling_reaction = &R(0); direct_ok = true;
#endif
  vp_clock = nd_i64(); vp_clock_free = false; ASSUME(vp_clock >= 0 && vp_clock < FOREVER);
  want = cur; fast = true; in_step = true;
  sets[1] = false;
  _lf_trigger_reaction(&env, &R(0), -1);
  int rc = _lf_do_step(&env);
  bool miss = d >= 0 && (d == 0 || vp_clock > vp_sat(cur.time, d));
  bool miss1 = d1 >= 0 && (d1 == 0 || vp_clock > vp_sat(cur.time, d1));
  CHECK(count_[0] == (miss && !has ? 0 : 1), "body or handler, not both");
  CHECK(!count_[0] || handler_called[0] == miss, "the handler replaces the body exactly when the deadline is missed");
  bool out = sets[0] && count_[0];
  CHECK(count_[1] == (out ? 1 : 0), "outputs of body or handler trigger downstream reactions");
  CHECK(!out || handler_called[1] == miss1, "the downstream deadline is decided the same way");
  CHECK(rc == 1, "continues");
  if (miss && has && out) WITNESS("missed"); if (miss && !has) WITNESS("missed, no handler"); if (!miss && d > 0 && out && miss1) WITNESS("met, downstream missed");
}
static int checked;
static void dl_handler(void* s) { checked++; }
void h_check_deadline(void) {
  program();
  R(0).deadline = nd_i64(); ASSUME(R(0).deadline >= 0);
  R(0).deadline_violation_handler = dl_handler; selfs(0).executing_reaction = &R(0);
  vp_clock = nd_i64(); vp_clock_free = false; ASSUME(vp_clock >= 0 && vp_clock < FOREVER);
  bool inv = nd_bool();
  bool r = lf_check_deadline(&selfs(0), inv);
  CHECK(r == (vp_clock > vp_sat(cur.time, R(0).deadline)), "the explicit check agrees with the clock");
  CHECK(checked == (r && inv ? 1 : 0), "the handler is invoked on request only when missed");
  WITNESS("check");
}
/* P17: timers. */
void h_timer_init(void) {
  program();
  env.current_tag.microstep = 0; start_time = cur.time; cur = env.current_tag;
  trigger_t* t = &act(0); trigger_t* tt[1] = {t};
  t->is_timer = true; t->offset = nd_i64(); t->period = nd_i64(); ASSUME(t->offset >= 0 && t->period >= 0);
  t->number_of_reactions = 1; t->reactions[0] = &R(1);
  env.timer_triggers = tt; env.timer_triggers_size = 1;
  ASSUME(vp_cmp(stop, cur) >= 0);
  _lf_initialize_timers(&env);
  pqueue_t* q = (pqueue_t*)env.event_q;
  bool now = t->offset == 0;
  CHECK(R(1).status == (now ? queued : inactive), "a timer with offset zero fires at the start tag");
  tag_t first = {vp_sat(cur.time, now ? t->period : t->offset), 0};
  bool any = !(now && t->period == 0) && vp_cmp(first, stop) <= 0;
  CHECK(q->size == (any ? 1 : 0), "one pending firing unless there is none before the stop tag");
  if (any) CHECK(((event_t*)q->d[0])->trigger == t && vp_cmp(((event_t*)q->d[0])->base.tag, first) == 0, "the next firing is at start + offset (or + period)");
  if (any && now) WITNESS("periodic from start"); if (any && !now) WITNESS("offset"); if (now && t->period == 0) WITNESS("once"); if (!any && !now) WITNESS("never");
}
/* From a pending firing at any tag: it fires then, and the next one is exactly one period later. */
void h_timer_step(void) {
  program();
  trigger_t* t = &A0;
  t->is_timer = true; t->offset = nd_i64(); t->period = nd_i64(); ASSUME(t->offset >= 0 && t->period >= 0);
  t->number_of_reactions = 1; t->reactions[0] = &R2;
  t->policy = nd_range(0, 2);
  event_t* e = vp_event(); e->trigger = t; tag_t at = vp_finite_tag(); at.microstep = 0; e->base.tag = at;
  ASSUME(vp_cmp(at, stop) <= 0);
  pqueue_tag_insert(env.event_q, &e->base);
  env.current_tag = at;
  _lf_pop_events(&env);
  CHECK(R2.status == queued && pqueue_size(env.reaction_q) == 1, "the timer fires");
  pqueue_t* q = (pqueue_t*)env.event_q;
  tag_t nx = {vp_sat(at.time, t->period), 0};
  bool any = t->period > 0 && nx.time < FOREVER && vp_cmp(nx, stop) <= 0;
  if (nx.time < FOREVER || t->period == 0) CHECK(q->size == (any ? 1 : 0), "exactly one next firing, none after the stop tag or without a period");
  if (any) CHECK(((event_t*)q->d[0])->trigger == t && vp_cmp(((event_t*)q->d[0])->base.tag, nx) == 0, "the next firing is one period later, without drift");
  if (any) WITNESS("again"); else if (t->period == 0) WITNESS("last"); else WITNESS("after stop");
}
/* P19 */
#include "reactor_common.h"
void h_combine(void) {
  interval_t d1 = nd_i64(), d2 = nd_i64(); int l1 = nd_range(0, 0xffff), l2 = nd_range(0, 0xffff);
  ASSUME(d1 >= 0 && d2 >= 0);
  index_t a = lf_combine_deadline_and_level(d1, l1), b = lf_combine_deadline_and_level(d2, l2);
  uint64_t m = (1ULL << 48) - 1;
  uint64_t e1 = (uint64_t)d1 > m ? m : d1, e2 = (uint64_t)d2 > m ? m : d2;
  if (e1 < e2) CHECK(a < b, "an earlier deadline has priority");
  if (e1 == e2) CHECK((a < b) == (l1 < l2) && (a == b) == (l1 == l2), "equal deadlines are ordered by level");
  CHECK(LF_LEVEL(a) == (unsigned)l1, "the level is recoverable");
  if (e1 == m && d1 != d2 && e2 == m) WITNESS("saturated"); else WITNESS("plain");
}
