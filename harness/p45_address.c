/* Advertisements and queries of addresses, in any order, from and about any federate. */
#include "rti_world.h"
#include "netfns.h"
#ifndef K
#define K 3
#endif
static int cur; static unsigned char in[8]; static int ilen, ipos; static int32_t port[N]; static uint32_t addr[N]; static unsigned char out[16]; static int olen;
static int rd(int s, size_t n, unsigned char* b) {
  CHECK(s == 10 + cur && ipos + (int)n <= ilen, "reads the message of the sender");
  for (int i = 0; i < 4; i++) if (i < (int)n) b[i] = in[ipos + i];
  ipos += (int)n;
  return 0;
}
static int wr(int s, size_t n, const unsigned char* b) {
  CHECK(held == 1, "writes holding the mutex");
  CHECK(s == 10 + cur, "replies to the sender");
  CHECK(olen + n <= 9, "no more than the reply");
  for (int i = 0; i < 9; i++) if (i < (int)n) out[olen + i] = b[i];
  olen += (int)n;
  return 0;
}
static void hangup(int s) { CHECK(0, "no transfer fails"); }
int lf_cond_wait(lf_cond_t* c) { ASSUME(0); return 0; }
pqueue_tag_t* pqueue_tag_init(size_t n) { return NULL; }
static void step(int i, int j) {
  cur = i; ipos = olen = 0;
  if (nd_bool()) {
    int32_t p = nd_range(0, 65535);
    for (int k = 0; k < 4; k++) in[k] = (unsigned char)((uint32_t)p >> (8 * k));
    ilen = 4; port[i] = p;
    handle_address_ad((uint16_t)i);
    CHECK(olen == 0, "no reply to an advertisement");
  } else {
    in[0] = (unsigned char)j; in[1] = 0; ilen = 2;
    handle_address_query((uint16_t)i);
    CHECK(olen == 9 && out[0] == MSG_TYPE_ADDRESS_QUERY_REPLY, "a reply");
    uint32_t p = 0; for (int k = 0; k < 4; k++) p |= (uint32_t)out[1 + k] << (8 * k);
    CHECK((int32_t)p == port[j], "with the port last advertised, or -1");
    CHECK(!memcmp(out + 5, &addr[j], 4), "and the recorded address");
    if (port[j] == -1) WITNESS("unknown"); else WITNESS("known");
  }
  CHECK(ipos == ilen && held == 0, "exactly the message is read");
}
void h_address(void) {
  setup();
  for (int i = 0; i < N; i++) { nodes_[i]->state = GRANTED; port[i] = -1; addr[i] = nd_u32(); feds[i]->server_ip_addr.s_addr = addr[i]; }
  for (int k = 0; k < K; k++) {
    int f = nd_range(0, N - 1), g = nd_range(0, N - 1);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (i == f && j == g) step(i, j);
    for (int i = 0; i < N; i++) CHECK(feds[i]->server_port == port[i] && feds[i]->server_ip_addr.s_addr == addr[i], "only the advertiser's entry changes");
  }
}
