/* Minimum delays and cycles in arbitrary topologies. */
#define NO_NET
#include "rti_world.h"
instant_t start_time;
#ifndef MAXD
#define MAXD 3
#endif
typedef struct { int64_t t; uint32_t m; } del;
static bool dlt(del a, del b) { return a.t < b.t || (a.t == b.t && a.m < b.m); }
/* connection delay d followed by path p */
static del ext(int64_t d, del p) {
  del c = {0, 0};
  if (d == 0) c.m = 1; else if (d > 0) c.t = d;
  if (p.t > 0) c.m = 0;
  c.t += p.t; c.m += p.m;
  return c;
}
void h_min_delays(void) {
  setup();
  arb_topology(MAXD);
  for (int i = 0; i < N; i++) feds[i]->enclave.state = nd_bool() ? GRANTED : NOT_CONNECTED;
  const int e = E;
  scheduling_node_t* n = nodes_[E];
  bool zdc = is_in_zero_delay_cycle(n), cyc = is_in_cycle(n);
  /* reference: Bellman-Ford over walks into e (paths through a node that is not connected do not count) */
  static const del INF = {INT64_MAX, 0};
  del d[N]; bool has[N];
  for (int i = 0; i < N; i++) { d[i] = INF; has[i] = false; }
  if (n->state != NOT_CONNECTED) {
    for (int r = 0; r < N; r++)
      for (int j = 0; j < N; j++) {
        del z = {0, 0}; bool from = j == e ? true : has[j];
        if (!from || nodes_[j]->state == NOT_CONNECTED) continue;
        del p = j == e ? z : d[j];
        for (int i = 0; i < N; i++) if (conn[i][j] != NONE) {
          del x = ext(conn[i][j], p);
          if (!has[i] || dlt(x, d[i])) { d[i] = x; has[i] = true; }
        }
      }
  }
  size_t cnt = 0;
  for (int i = 0; i < N; i++) if (has[i]) cnt++;
  CHECK(n->num_min_delays == cnt, "an entry exists exactly for the nodes with a path");
  for (size_t k = 0; k < N; k++) if (k < n->num_min_delays) {
    int id = n->min_delays[k].id;
    CHECK(id >= 0 && id < N, "entries name nodes");
    for (size_t l = 0; l < k; l++) CHECK(n->min_delays[l].id != id, "one entry per node");
    for (int i = 0; i < N; i++) if (i == id) CHECK(has[i] && n->min_delays[k].min_delay.time == d[i].t && n->min_delays[k].min_delay.microstep == d[i].m, "the least total delay over all paths");
  }
  CHECK(cyc == has[e], "a node is flagged as being in a cycle exactly when one exists");
  CHECK(zdc == (has[e] && d[e].t == 0 && d[e].m == 0), "and in a zero-delay cycle exactly when one exists");
  if (zdc) WITNESS("zero-delay cycle");
  if (cyc && !zdc) WITNESS("cycle");
  if (cnt == N - 1 && !cyc) WITNESS("several");
  WITNESS("done");
}
/* After a change of topology the cache is dropped and computed anew; without one it is stable. */
void h_cache(void) {
  setup();
  arb_topology(MAXD);
  for (int i = 0; i < N; i++) feds[i]->enclave.state = GRANTED;
  scheduling_node_t* n = nodes_[N - 1];
  update_min_delays_upstream(n);
  minimum_delay_t* old = n->min_delays; size_t c = n->num_min_delays; int f = n->flags;
  update_min_delays_upstream(n);
  CHECK(n->num_min_delays == c && n->flags == f, "asking again changes nothing");
  invalidate_min_delays_upstream(n);
  CHECK(n->num_min_delays == 0 && n->min_delays == NULL, "invalidation forgets the delays");
  update_min_delays_upstream(n);
  CHECK(n->num_min_delays == c && n->flags == f, "recomputation gives the same result");
  WITNESS("recomputed");
}
