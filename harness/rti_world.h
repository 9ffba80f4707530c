/* The coordinator's world: N federates in arbitrary topologies, sockets that replay a script and log what is written. */
#include "stubs.h"
#include <errno.h>
#include <sys/types.h>
#include <sys/socket.h>
#ifdef __RTI_AUTH__
#include <openssl/hmac.h>
#include <openssl/rand.h>
#endif
#include "rti_remote.h"
#include "net_util.h"
#include "net_common.h"
#ifdef NFED
#define N NFED
#endif
#ifndef N
#define N 3
#endif
#ifndef D
#define D (N - 1)
#endif
extern lf_mutex_t rti_mutex;
extern lf_cond_t received_start_times, sent_start_time;
static rti_remote_t rti;
static federate_info_t fed_[N];
static federate_info_t* const feds[N] = {&fed_[0],
#if N > 1
  &fed_[1], &fed_[2],
#endif
#if N > 3
  &fed_[3],
#endif
#if N > 4
  &fed_[4],
#endif
};
static scheduling_node_t* nodes_[N];
static uint16_t up_[N][N], down_[N][N]; static interval_t upd_[N][N];
#define NONE (-2)
static int64_t conn[N][N]; /* delay of the connection from [i] to [j]: NONE, -1 for no delay, or the delay */
static int cmpt(tag_t a, tag_t b) { return a.time != b.time ? (a.time < b.time ? -1 : 1) : a.microstep != b.microstep ? (a.microstep < b.microstep ? -1 : 1) : 0; }
#define LT(a, b) (cmpt(a, b) < 0)
static tag_t dly(tag_t t, int64_t d) { /* a message sent at t arrives with this tag */
  if (t.time == NEVER || t.time == FOREVER || d < 0) return t;
  if (d == 0) { t.microstep++; return t; }
  t.time += d; t.microstep = 0; return t;
}
/* mutex */
static int held;
int lf_mutex_init(lf_mutex_t* m) { return 0; }
int lf_mutex_lock(lf_mutex_t* m) { CHECK(m == &rti_mutex, "the coordinator's mutex"); held++; return 0; }
int lf_mutex_unlock(lf_mutex_t* m) { CHECK(m == &rti_mutex && held > 0, "the coordinator's mutex is released only while held"); held--; return 0; }
int lf_cond_init(lf_cond_t* c, lf_mutex_t* m) { return 0; }
/* Every node lists every other one; a connection that is absent has the delay FOREVER (nothing ever arrives), which is what the
 * code under test must treat as no connection; lists may also be cut short. Concrete identifiers keep the encoding small. */
#ifndef REV
#define REV 0
#endif
static void arb_topology(int64_t maxdelay) {
  for (int j = 0; j < N; j++) {
    scheduling_node_t* e = &feds[j]->enclave;
    int n = 0, m = N - 1;
    for (int k = 0; k < N; k++) {
      int i = REV ? N - 1 - k : k;
      if (i == j) { conn[i][j] = NONE; continue; }
      int64_t d = nd_range64(NONE, maxdelay);
      if (n >= m) d = NONE;
      conn[i][j] = d; up_[j][n] = (uint16_t)i; upd_[j][n] = d == NONE ? FOREVER : d < 0 ? NEVER : d; down_[j][n] = (uint16_t)i; n++;
    }
    e->id = (uint16_t)j; e->upstream = up_[j]; e->upstream_delay = upd_[j]; e->num_upstream = m; e->downstream = down_[j];
  }
  for (int j = 0; j < N; j++) feds[j]->enclave.num_downstream = N - 1;
}
static void setup(void) {
#ifndef NO_NET
  host_is_big_endian(); /* remembers its result, which the solver then knows */
#endif
  for (int i = 0; i < N; i++) nodes_[i] = &feds[i]->enclave;
  initialize_RTI(&rti);
  rti.base.number_of_scheduling_nodes = N; rti.base.scheduling_nodes = nodes_;
  for (int i = 0; i < N; i++) { initialize_scheduling_node(nodes_[i], (uint16_t)i); feds[i]->socket = 10 + i; feds[i]->server_port = -1; }
}
