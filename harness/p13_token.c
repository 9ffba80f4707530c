/* Token reference counting and recycling: one operation from an arbitrary consistent state (inductive step), and the writable copy. */
#include "stubs.h"
#include "lf_types.h"
#include "environment.h"
#include "lf_token.h"
#include "hashset/hashset.h"
#include "hashset/hashset_itr.h"
#undef free
environment_t env;
static int locked;
int lf_critical_section_enter(environment_t* e) { locked++; return 0; }
int lf_critical_section_exit(environment_t* e) { CHECK(locked > 0, "critical sections are left as often as entered"); locked--; return 0; }
/* Sets of pointers: P07 decides the real ones. Iteration order is arbitrary; the bin may report being near its limit. */
#define CAPS 8
static struct hashset_st bin_s, tmp_s, *bin, *tmpls;
static void* bin_items[CAPS]; static int bin_n; static size_t bin_extra;
static void* tmp_items[2]; static int tmp_n;
static int created;
static bool tmpl_first; /* which of the two sets is created first */
hashset_t hashset_create(unsigned short nbits) { return (hashset_t)malloc(sizeof(struct hashset_st)); }
#define IS_T(p) ((p) == (void*)&tm0 || (p) == (void*)&tm1)
static lf_port_base_t tm0, tm1;
size_t hashset_num_items(hashset_t s) { return s == bin ? bin_n + bin_extra : tmp_n; }
int hashset_add(hashset_t s, void* x) {
  if (IS_T(x)) { tmpls = s; for (int i = 0; i < tmp_n; i++) if (tmp_items[i] == x) return 0; tmp_items[tmp_n++] = x; return 1; }
  CHECK(s != NULL && (bin == NULL || bin == s), "the bin"); bin = s;
  for (int i = 0; i < CAPS; i++) if (i < bin_n && bin_items[i] == x) { CHECK(0, "a token is not put in the bin twice"); return 0; }
  if (bin_n < CAPS) bin_items[bin_n++] = x;
  return 1;
}
int hashset_remove(hashset_t s, void* x) {
  for (int i = 0; i < CAPS; i++) if (i < bin_n && bin_items[i] == x) { bin_items[i] = bin_items[--bin_n]; return 1; }
  return 0;
}
int hashset_is_member(hashset_t s, void* x) { for (int i = 0; i < CAPS; i++) if (i < bin_n && bin_items[i] == x) return 1; return 0; }
void hashset_destroy(hashset_t s) { if (s == bin) { bin = NULL; bin_n = 0; } else tmpls = NULL; }
static struct hashset_itr_st itr;
hashset_itr_t hashset_iterator(hashset_t s) { itr.set = s; itr.index = -1; return &itr; }
int hashset_iterator_has_next(hashset_itr_t it) { return it->index + 1 < (it->set == tmpls ? tmp_n : bin_n); }
int hashset_iterator_next(hashset_itr_t it) {
  if (!hashset_iterator_has_next(it)) { it->index = -1; return -1; }
  return ++it->index;
}
void* hashset_iterator_value(hashset_itr_t it) { return it->set == tmpls ? tmp_items[it->index] : bin_items[it->index]; }

/* Tokens T0..T2, the copies C0, C1 made by lf_writable_copy, and a token made by the operation. */
static lf_token_t T0, T1, T2; static lf_token_t *C0, *C1, *newt;
static char pay[8], cpy[2]; static int ncopy;
static int destroyed[8], pfreed[8], tfreed[6], sfreed;
static int payload(void* v) { for (int i = 0; i < 8; i++) if (v == &pay[i]) return i; return -1; }
static int token(void* p) { return p == &T0 ? 0 : p == &T1 ? 1 : p == &T2 ? 2 : p == NULL ? -1 : p == C0 ? 3 : p == C1 ? 4 : p == newt ? 5 : -1; }
static void dtor(void* v) { int i = payload(v); CHECK(i >= 0, "the destructor gets a payload"); if (i >= 0) destroyed[i]++; }
static void* ctor(void* v) { int i = payload(v); CHECK(i >= 0 && !destroyed[i] && !pfreed[i], "a live payload is copied"); return &pay[6 + ncopy++ % 2]; }
void vp_free(void* p) {
  int i = payload(p), t = token(p);
  if (i >= 0) pfreed[i]++;
  else if (t >= 0) tfreed[t]++;
  else sfreed++;
}
#define TK(i) ((i) == 0 ? &T0 : (i) == 1 ? &T1 : (i) == 2 ? &T2 : (i) == 3 ? C0 : C1)
#define TM(k) (*((k) ? &tm1 : &tm0))
static int ev[5], user[5]; /* references from pending events; held by a reaction and not yet sent */
static bool live[5], inlist[5];
static int holders(int i) { return ev[i] + inlist[i] + (tm0.tmplt.token == TK(i)) + (tm1.tmplt.token == TK(i)); }
static int before[5]; static void* val[5];
static int nc, dest;
static void state(void) {
  tm0.num_destinations = tm1.num_destinations = 2;
  tm0.tmplt.type.copy_constructor = tm1.tmplt.type.copy_constructor = ctor;
  tm0.tmplt.type.element_size = tm1.tmplt.type.element_size = 8;
  static self_base_t self; self.environment = &env; tm0.source_reactor = tm1.source_reactor = &self;
  bin_extra = nd_range(509, 513);
  /* copies made for mutable inputs at this tag */
  nc = nd_range(0, 2);
  tm0.tmplt.type.destructor = tm1.tmplt.type.destructor = dtor;
  T0.value = &pay[0]; T0.length = 1; T0.ref_count = 1; T0.type = &tm0.tmplt.type; tm0.tmplt.token = &T0;
  if (nc > 0) C0 = lf_writable_copy(&tm0);
  if (nc > 1) C1 = lf_writable_copy(&tm0);
  CHECK(nc < 1 || C0 != &T0, "a copy is made where there are several readers");
  dest = nd_bool(); if (!dest) tm0.tmplt.type.destructor = tm1.tmplt.type.destructor = NULL;
  tm0.tmplt.token = NULL; T0.ref_count = 0;
  for (int i = 0; i < 3 + nc; i++) {
    lf_token_t* t = TK(i);
    live[i] = i >= 3 ? true : nd_bool();
    inlist[i] = i >= 3;
    ev[i] = live[i] ? nd_range(0, 2) : 0;
    user[i] = live[i] && nd_bool();
    if (i < 3) { t->value = live[i] && nd_bool() ? &pay[i] : NULL; t->length = nd_range(0, 2); t->type = nd_bool() ? &tm0.tmplt.type : &tm1.tmplt.type; }
    val[i] = t->value;
  }
  for (int k = 0; k < 2; k++) {
    int i = nd_range(-1, 2 + nc);
    TM(k).tmplt.token = NULL;
    for (int j = 0; j < 3 + nc; j++) if (j == i) { ASSUME(live[j]); TM(k).tmplt.token = TK(j); }
  }
  for (int i = 0; i < 3 + nc; i++) {
    int h = holders(i);
    ASSUME(!live[i] || h > 0 || user[i]); /* a token no one holds has been freed */
    before[i] = h; TK(i)->ref_count = (size_t)h;
  }
  for (int i = 0; i < 3; i++) if (!live[i] && nd_bool()) { TK(i)->type = &tm0.tmplt.type; _lf_free_token(TK(i)); tfreed[i] = 0; }
}
static bool in_bin(lf_token_t* t) { for (int i = 0; i < CAPS; i++) if (i < bin_n && bin_items[i] == t) return true; return false; }
static int gone(int p) { return destroyed[p] + pfreed[p]; }
static int paynr(int i) { return payload(val[i]); }
/* Every token of the pre-state, given who holds it now. reused: the token whose payload the operation replaced. */
static void post(int reused) {
  for (int i = 0; i < 3 + nc; i++) if (live[i]) {
    lf_token_t* t = TK(i);
    int h = holders(i), p = paynr(i);
    if (h > 0) CHECK(t->ref_count == (size_t)h, "the reference count is the number of holders");
    if (h > 0 || before[i] == 0) {
      CHECK(!in_bin(t) && tfreed[i] == 0, "a token in use is neither recycled nor freed");
      if (i != reused) {
        CHECK(t->value == val[i], "the payload of a token in use is untouched");
        if (p >= 0) CHECK(gone(p) == 0, "the payload of a token in use is not freed");
      } else if (p >= 0) CHECK(gone(p) == 1, "the payload that was replaced is freed once");
    } else {
      CHECK(in_bin(t) + tfreed[i] == 1, "a token that is no longer held is recycled or freed, once");
      if (p >= 0) {
        CHECK(gone(p) == 1, "a payload is freed exactly once when its last reference is released");
        CHECK(destroyed[p] == dest, "by the destructor if there is one");
      }
    }
  } else if (val[i]) CHECK(0, "unreachable");
}
static void fresh(lf_token_t* t, int holds) {
  CHECK(t != NULL && t->ref_count == (size_t)holds, "a new token has the documented reference count");
  for (int i = 0; i < 3 + nc; i++) if (live[i] && (before[i] || user[i])) CHECK(t != TK(i), "a new token is not one that is in use");
  CHECK(!in_bin(t), "a new token is not in the bin");
}
void h_done_using(void) {
  state();
  int i = nd_range(0, 4);
  ASSUME(i < 3 + nc && live[i] && ev[i] > 0);
  for (int j = 0; j < 5; j++) if (j == i && j < 3 + nc) { ev[j]--; _lf_done_using(TK(j)); }
  post(-1);
  WITNESS("released");
}
void h_replace_template(void) {
  state();
  int i = nd_range(-1, 4), k = nd_bool();
  lf_token_t* t = NULL;
  for (int j = 0; j < 5; j++) if (j == i) { ASSUME(j < 3 + nc && live[j]); t = TK(j); }
  _lf_replace_template_token(&TM(k).tmplt, t);
  CHECK(TM(k).tmplt.token == t, "the template carries the token given");
  for (int j = 0; j < 5; j++) if (j == i) { before[j]++; }
  post(-1);
  if (t && t->ref_count == 1) WITNESS("first holder");
  if (!t) WITNESS("cleared");
}
void h_set_value(void) {
  state();
  int k = nd_bool(); size_t len = nd_range(0, 3);
  lf_token_t* old = TM(k).tmplt.token; bool sole = old && old->ref_count == 1; int oi = token(old);
  lf_token_t* t = _lf_initialize_token_with_value(&TM(k).tmplt, &pay[5], len);
  CHECK(t && t->value == &pay[5] && t->length == len, "the token carries the value");
  CHECK(TM(k).tmplt.token == t, "it is the template's token");
  CHECK(t->type == &TM(k).tmplt.type || (sole && t == old), "of the template's type, or the template's own token");
  if (sole) { CHECK(t == old && t->ref_count == 1, "a template's own token is reused when nobody else holds it"); WITNESS("reused"); }
  else { newt = t; fresh(t, 1); if (old) WITNESS("replaced"); }
  CHECK(gone(5) == 0, "the new payload is not freed");
  post(sole ? oi : -1);
}
void h_new_token(void) {
  state();
  lf_token_t* t = lf_new_token(&tm1, &pay[5], 2);
  if (token(t) < 0) newt = t;
  fresh(t, 0);
  CHECK(t->value == &pay[5] && t->length == 2 && t->type == &tm1.tmplt.type, "the token carries the value");
  if (t == &T1) WITNESS("recycled");
  if (newt) WITNESS("allocated");
  if (token(t) >= 0) tfreed[token(t)] = 0;
  post(-1);
}
void h_free_copies(void) {
  state();
  bool used = nc > 0 && ev[3] > 0;
  _lf_free_token_copies();
  for (int i = 3; i < 5; i++) inlist[i] = false;
  post(-1);
  if (nc == 2) WITNESS("two copies");
  if (used) WITNESS("a copy lives on in an event");
  int e = gone(6) + gone(7);
  _lf_free_token_copies();
  CHECK(e == gone(6) + gone(7), "a second call does nothing");
}
void h_initialize_template(void) {
  state();
  int k = nd_bool(); size_t es = nd_range(8, 9);
  lf_token_t* old = TM(k).tmplt.token; bool keep = old && old->ref_count == 1 && old->type->element_size == es; int oi = token(old);
  _lf_initialize_template(&TM(k).tmplt, es);
  lf_token_t* t = TM(k).tmplt.token;
  CHECK(t && t->ref_count == 1 && t->value == NULL && t->type->element_size == es, "the template has an empty token of the element size");
  if (keep) { CHECK(t == old, "kept"); WITNESS("kept"); }
  else if (t == old) { /* released and then recycled for the template */ for (int i = 0; i < 5; i++) if (i == oi) CHECK(before[i] == 1, "only a token that nobody else holds is reused"); WITNESS("recycled"); }
  else { newt = t; fresh(t, 1); WITNESS("new"); }
  post(t == old ? oi : -1);
}
/* End of the program: whatever only templates hold is released, and no token is freed twice. */
void h_free_all(void) {
  _lf_initialize_template(&tm0.tmplt, 8); _lf_initialize_template(&tm1.tmplt, 8);
  CHECK(tmp_n == 2, "every template is registered");
  state();
  _lf_free_token_copies();
  for (int i = 3; i < 5; i++) inlist[i] = false;
  _lf_free_all_tokens();
  CHECK(tm0.tmplt.token == NULL && tm1.tmplt.token == NULL, "templates hold nothing any more");
  for (int i = 0; i < 3 + nc; i++) {
    CHECK(tfreed[i] <= 1, "no token is freed twice");
    if (live[i] && (holders(i) > 0 || before[i] == 0)) CHECK(tfreed[i] == 0 && (paynr(i) < 0 || gone(paynr(i)) == 0), "a token still referred to is not freed");
    if (live[i] && before[i] > 0 && holders(i) == 0) CHECK(tfreed[i] == 1 && (paynr(i) < 0 || gone(paynr(i)) == 1), "a released token is freed with its payload");
  }
  WITNESS("end");
}
/* lf_writable_copy: private to its owner, same contents, released at the end of the tag. */
#ifndef EL
#define EL 3
#endif
static lf_port_base_t in_; static unsigned char src[2 * EL]; static int ctor_calls; static unsigned char made[2 * EL];
static void* copy_ctor(void* v) { CHECK(v == src, "the copy constructor gets the payload"); ctor_calls++; return made; }
void h_writable_copy(void) {
  static self_base_t self; self.environment = &env; in_.source_reactor = &self;
  in_.num_destinations = nd_range(1, 3);
  in_.tmplt.type.element_size = nd_range(0, EL); in_.tmplt.type.copy_constructor = nd_bool() ? copy_ctor : NULL;
  in_.tmplt.type.destructor = NULL;
  bool none = nd_bool(), ctored = in_.tmplt.type.copy_constructor != NULL;
  size_t len = nd_range(0, 2), es = in_.tmplt.type.element_size, rc = nd_range(1, 3);
  unsigned char ref[2 * EL];
  for (int i = 0; i < 2 * EL; i++) ref[i] = src[i] = nd_u8();
  T0.value = src; T0.length = len; T0.ref_count = rc; T0.type = &in_.tmplt.type;
  in_.tmplt.token = none ? NULL : &T0;
  lf_token_t* t = lf_writable_copy(&in_);
  if (none) { CHECK(t == NULL, "nothing to copy"); WITNESS("primitive"); return; }
  bool sole = in_.num_destinations == 1 && rc == 1;
  if (t == &T0) {
    CHECK(sole || (!ctored && es * len == 0), "the original is handed out only to its sole holder, or if it has no contents");
    if (sole) WITNESS("original");
  } else {
    CHECK(t->ref_count == 1 && t->value != src && t->value != NULL, "a fresh payload");
    CHECK(t->length == len && t->type == &in_.tmplt.type, "length and type are those of the original");
    if (ctored) { CHECK(ctor_calls == 1 && t->value == made, "custom payloads are copied with their copy constructor"); WITNESS("constructor"); }
    else for (int i = 0; i < 2 * EL; i++) if ((size_t)i < es * len) {
      CHECK(((unsigned char*)t->value)[i] == ref[i], "same contents");
      ((unsigned char*)t->value)[i] = (unsigned char)~ref[i];
    }
    WITNESS("copied");
  }
  CHECK(in_.tmplt.token == &T0, "the port still carries the original");
  CHECK(T0.ref_count == rc && T0.value == src && T0.length == len, "the original is as before");
  if (t != &T0) for (int i = 0; i < 2 * EL; i++) CHECK(src[i] == ref[i], "other holders do not see modifications");
  /* end of the tag: the copy is released, unless it was sent on */
  bool sent = nd_bool();
  void* v = t->value;
  if (t != &T0) {
    newt = t;
    if (sent) t->ref_count++;
    bin_extra = nd_range(0, 600);
    sfreed = 0;
    _lf_free_token_copies();
    if (sent) CHECK(t->ref_count == 1 && t->value == v && sfreed == 0 && tfreed[5] == 0 && !in_bin(t), "a copy that was sent on lives on");
    else CHECK(sfreed == 1 && in_bin(t) + tfreed[5] == 1, "the copy is released with its payload at the end of the tag");
  } else {
    _lf_free_token_copies();
    CHECK(T0.ref_count == rc && T0.value == src, "the original is not released with the copies");
  }
  WITNESS("tag completed");
}
#ifdef DELIVER
/* Delivering an event: its reference to the payload passes to the action; the action's previous payload is released. */
#include "reactor_common.h"
#include "atomics.h"
static trigger_t act;
static int same_trigger(void* a, void* b) { return ((event_t*)a)->trigger == ((event_t*)b)->trigger; }
void h_deliver(void) {
  static bool* abbr[2];
  state();
  env.event_q = pqueue_tag_init_customize(4, NULL, same_trigger, NULL);
  env.recycle_q = pqueue_tag_init_customize(4, NULL, NULL, NULL);
  env.is_present_fields_abbreviated = abbr; env.is_present_fields_size = 2; env.stop_tag = FOREVER_TAG;
  env.current_tag = (tag_t){.time = 5, .microstep = 1};
  int i = nd_range(-1, 4);
  lf_token_t* t = NULL;
  for (int j = 0; j < 5; j++) if (j == i) { ASSUME(j < 3 + nc && ev[j] > 0); t = TK(j); }
  act.tmplt.token = tm0.tmplt.token;
  static event_t e; e.base.tag = env.current_tag; e.trigger = &act; e.token = t;
  pqueue_tag_insert(env.event_q, &e.base);
  _lf_pop_events(&env);
  CHECK(act.tmplt.token == t && act.status == present, "the action carries the payload of its event");
  tm0.tmplt.token = act.tmplt.token;
  for (int j = 0; j < 5; j++) if (j == i) ev[j]--;
  post(-1);
  if (t) WITNESS("delivered");
}
#endif
