/* A federate joins: whatever it sends, complete or cut short anywhere. */
#define VP_ERROR_EXIT exit_ok()
static void exit_ok(void), auth_exit(void);
#define VP_IO_EXIT exit_ok()
#include <stddef.h>
size_t vp_strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
int vp_memcmp(const void* a, const void* b, size_t n) { const unsigned char *x = a, *y = b; for (size_t i = 0; i < 40; i++) { if (i >= n) return 0; if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; } return 0; }
#include "rti_world.h"
#include "netfns.h"
#ifndef ID
#define ID 0 /* the federate number sent; N: any that is out of range */
#endif
#ifndef L
#define L 3
#endif
#ifndef RL
#define RL L
#endif
#ifndef NU
#define NU 0
#define ND 0
#endif
#define FD 50
#ifndef AUTH
#define AUTH 0
#endif
static unsigned char in[200], out[64], mac[2][32], nonce[8], macdata[2][16]; static int ilen, ipos, olen, closes, maclen[2], macs, rands, accepts, threads, cut; static bool shut, auth; static char fid[L + 1]; static void* targ;
static bool wfail; static int flen; static bool was[N]; static struct in_addr addr;
#ifndef VERDICT
#define VERDICT verdict
#endif
static bool broken;
static void exit_ok(void) { if (AUTH == 0) CHECK(broken, "the coordinator ends only when the connection of an acknowledged federate breaks"); else auth_exit(); }
static int rd(int s, size_t n, unsigned char* b) {
  CHECK(s == FD && !closes, "reads from the joining federate");
  CHECK(ipos + (int)n <= ilen, "reads no more than the messages");
#ifndef VP_REPLAY
  CHECK(__CPROVER_w_ok(b, n), "reads into a buffer that is large enough");
#endif
  for (int i = 0; i < 60; i++) if (i < (int)n) b[i] = in[ipos + i]; /* even if cut short: what is there must not matter then */
  ipos += (int)n;
  if (broken) return 1;
  if (ipos > cut) { broken = true; return 1; }
  return 0;
}
static int wr(int s, size_t n, const unsigned char* b) {
  CHECK(s == FD && !closes, "writes to the joining federate");
  if (wfail) { broken = true; return -1; }
  CHECK(olen + (int)n <= 64, "short replies");
  for (int i = 0; i < 41; i++) if (i < (int)n) out[olen + i] = b[i];
  olen += (int)n;
  return 0;
}
static void hangup(int s) { CHECK(s == FD && !closes, "closes its connection"); closes++; }
int vp_close(int s) { if (s >= 0) hangup(s); return 0; }
int vp_shutdown(int s, int h) { return 0; }
ssize_t vp_read(int s, void* p, size_t n) { return 0; }
int lf_cond_wait(lf_cond_t* c) { ASSUME(0); return 0; }
pqueue_tag_t* pqueue_tag_init(size_t n) { return NULL; }
void initialize_lf_thread_id(void) {}
int lf_thread_create(lf_thread_t* t, void* (*f)(void*), void* a) { CHECK(f == federate_info_thread_TCP, "the thread that listens to the federate"); threads++; targ = a; return 0; }
static void verdict(void), refused(void), stored(void), authenticated(void);
int vp_accept(int s, struct sockaddr* a, socklen_t* l) {
  CHECK(s == rti.socket_descriptor_TCP, "listens on its socket");
  if (accepts++) { VERDICT();  ASSUME(0); }
  ((struct sockaddr_in*)a)->sin_family = AF_INET; ((struct sockaddr_in*)a)->sin_addr = addr;
  return FD;
}
static void u16(int v) { in[ilen++] = (unsigned char)v; in[ilen++] = (unsigned char)(v >> 8); }
static void world(void) {
  setup();
  rti.clock_sync_global_status = clock_sync_off;
  addr.s_addr = nd_u32();
  for (int i = 0; i < L; i++) fid[i] = (char)nd_u8();
  fid[L] = 0;
  flen = L; for (int i = L - 1; i >= 0; i--) if (!fid[i]) flen = i;
  rti.federation_id = fid;
  int others = 0;
  for (int i = 0; i < N; i++) { was[i] = nd_bool(); if (i + 1 == N) was[i] = was[i] && others < N - 1; nodes_[i]->state = was[i] ? nd_bool() ? PENDING : GRANTED : NOT_CONNECTED; others += was[i]; }
  cut = 1000;
}
static unsigned char type, nbr, udp; static int id; enum { rlen = RL }; static char rid[L + 2];
static uint16_t ups[8], downs[8]; static int64_t delays[8];
static void fedid(void) {
  type = nd_u8(); in[ilen++] = type;
  id = ID; if (ID == N) id = nd_range(N, 65535);
  u16(id);
  in[ilen++] = RL;
  for (int i = 0; i < L + 1; i++) { rid[i] = (char)nd_u8(); if (i < rlen) in[ilen + i] = (unsigned char)rid[i]; }
  ilen += rlen;
}
static void rest(void) {
  nbr = nd_u8(); in[ilen++] = nbr; for (int i = 0; i < 4; i++) { in[ilen + i] = (unsigned char)((unsigned)(NU) >> (8 * i)); in[ilen + 4 + i] = (unsigned char)((unsigned)(ND) >> (8 * i)); } ilen += 8;
  for (int i = 0; i < NU; i++) { ups[i] = nd_u16(); u16(ups[i]); delays[i] = nd_i64(); for (int j = 0; j < 8; j++) in[ilen++] = (unsigned char)((uint64_t)delays[i] >> (8 * j)); }
  for (int i = 0; i < ND; i++) { downs[i] = nd_u16(); u16(downs[i]); }
  udp = nd_u8(); in[ilen++] = udp; u16(nd_u16());
}
/* Checked when the coordinator waits for the next federate. */
static void verdict(void) {
  bool right = type == MSG_TYPE_FED_IDS, same = rlen == flen;
  for (int i = 0; i < L; i++) if (i < rlen && i < flen && rid[i] != fid[i]) same = false;
  bool range = id < N, use = false;
  for (int i = 0; i < N; i++) if (id == i && was[i]) use = true;
  bool admit = right && same && range && !use;
  int n = olen, o = 0;
  if (n > 0 && out[0] == MSG_TYPE_ACK) { CHECK(admit, "only a federate of this federation with a free number in range is acknowledged"); o = 1; n--; 
#if VP_JOIN && ID < N && RL <= L
  WITNESS("acknowledged");
#endif
 }
  else if (!broken) CHECK(!admit, "such a federate is acknowledged");
  bool both = !broken && o == 1 && nbr == MSG_TYPE_NEIGHBOR_STRUCTURE && udp == MSG_TYPE_UDP_PORT;
  if (both) {
    CHECK(threads == 1 && closes == 0 && n == 0, "an accepted federate is counted once, and stays connected");
    CHECK(ID < N && targ == feds[ID < N ? ID : 0] && nodes_[ID < N ? ID : 0]->state == PENDING && feds[ID < N ? ID : 0]->socket == FD && feds[ID < N ? ID : 0]->server_ip_addr.s_addr == addr.s_addr, "under its number and address");
    
#if VP_JOIN && ID < N && RL <= L
  WITNESS("accepted");
#endif

  } else {
    CHECK(threads == 0 && closes == 1, "the connection of a rejected federate is closed, and it is not counted");
    if (n) {
      CHECK(n == 2 && out[o] == MSG_TYPE_REJECT, "rejected with a code");
      unsigned char c = out[o + 1];
      bool peer = type == MSG_TYPE_P2P_SENDING_FED_ID || type == MSG_TYPE_P2P_TAGGED_MESSAGE;
      if (o) CHECK(c == UNEXPECTED_MESSAGE, "for the wrong message");
      else CHECK((c == WRONG_SERVER && peer) || (c == RTI_NOT_EXECUTED_WITH_AUTH && type == MSG_TYPE_FED_NONCE) || (c == UNEXPECTED_MESSAGE && !right && !peer && type != MSG_TYPE_FED_NONCE) || (right && ((c == FEDERATION_ID_DOES_NOT_MATCH && !same) || (same && c == FEDERATE_ID_OUT_OF_RANGE && !range) || (same && c == FEDERATE_ID_IN_USE && use))), "the documented code");
      
#if VP_JOIN
      if (c == FEDERATION_ID_DOES_NOT_MATCH) WITNESS("rejected");
#endif

    } else CHECK(broken, "only a broken connection is closed without a code");
  }
  for (int i = 0; i < N; i++) if (!(both && i == id)) CHECK((nodes_[i]->state != NOT_CONNECTED) == was[i], "no other number is taken");
}
void h_join(void) {
  world();
  fedid();
  rest();
  cut = nd_range(0, 40); wfail = nd_bool();
  lf_connect_to_federates(7);
}
/* The neighbour structure is stored as sent. */
static void stored(void) {
  scheduling_node_t* e = nodes_[ID];
  CHECK(!broken && threads == 1 && closes == 0, "the federate is accepted");
  CHECK(e->num_upstream == NU && e->num_downstream == ND, "as many neighbours as sent");
  for (int i = 0; i < NU; i++) CHECK(e->upstream[i] == ups[i] && e->upstream_delay[i] == delays[i], "upstream federates and delays as sent");
  for (int i = 0; i < ND; i++) CHECK(e->downstream[i] == downs[i], "downstream federates as sent");
#if VP_STORED
  WITNESS("stored");
#endif
}
/* A negative number of neighbours. */
static void refused(void) {
  CHECK(threads == 0 && closes == 1, "a malformed description is rejected");
  if (!broken) { CHECK(olen == 3 && out[1] == MSG_TYPE_REJECT && out[2] == UNEXPECTED_MESSAGE, "with a code"); 
#ifdef VP_REFUSED
    WITNESS("refused");
#endif
   }
}
static void plain(void) {
  for (int i = 0; i < L; i++) fid[i] = 'a';
  type = in[0] = MSG_TYPE_FED_IDS; for (int i = 0; i < RL; i++) in[4 + i] = 'a';
  for (int i = 0; i < N; i++) nodes_[i]->state = NOT_CONNECTED;
}
void h_neighbours(void) {
  world(); fedid(); plain(); rest();
  in[4 + RL] = MSG_TYPE_NEIGHBOR_STRUCTURE; in[ilen - 3] = MSG_TYPE_UDP_PORT;
  cut = nd_range(4 + RL, 200); /* cut short anywhere after the identification: nothing is accepted */
  lf_connect_to_federates(7);
#if N == 1
  VERDICT();
#endif
}
/* Authentication, with the keyed hash uninterpreted: its values are arbitrary, what matters is what it is applied to. */
static unsigned char hello[11], answer[33], rnd[8];
#if AUTH
const EVP_MD* EVP_sha256(void) { return (const EVP_MD*)1; }
int RAND_bytes(unsigned char* b, int n) { CHECK(n == NONCE_LENGTH && !rands++, "one nonce of the documented length"); for (int i = 0; i < 8; i++) b[i] = rnd[i] = nd_u8(); return 1; }
unsigned char* HMAC(const EVP_MD* t, const void* key, int klen, const unsigned char* d, size_t n, unsigned char* md, unsigned int* mlen) {
  CHECK(key == (const void*)fid && klen == flen, "under the federation identifier");
  CHECK(macs < 2 && n <= 16 && *mlen == 32, "a tag of the documented length");
  CHECK(t == EVP_sha256(), "with SHA-256");
  maclen[macs] = (int)n;
  for (int i = 0; i < 16; i++) if (i < (int)n) macdata[macs][i] = d[i];
  for (int i = 0; i < 32; i++) md[i] = mac[macs][i] = nd_u8();
  macs++;
  return md;
}
#endif
static void authenticated(void) {
  bool right = hello[0] == MSG_TYPE_FED_NONCE && answer[0] == MSG_TYPE_FED_RESPONSE && macs == 2;
  CHECK(right, "only an answer to the coordinator's own nonce is considered");
  CHECK(maclen[0] == 11 && macdata[0][0] == MSG_TYPE_RTI_RESPONSE, "the coordinator authenticates the federate's number and nonce");
  for (int i = 1; i < 11; i++) CHECK(macdata[0][i] == hello[i], "as received");
  CHECK(olen >= 41 && out[0] == MSG_TYPE_RTI_RESPONSE, "the documented answer");
  for (int i = 0; i < 8; i++) CHECK(out[1 + i] == rnd[i], "with its own fresh nonce");
  for (int i = 0; i < 32; i++) CHECK(out[9 + i] == mac[0][i], "and the tag");
  CHECK(maclen[1] == 9 && macdata[1][0] == MSG_TYPE_FED_RESPONSE, "the federate authenticates the coordinator's nonce");
  for (int i = 0; i < 8; i++) CHECK(macdata[1][1 + i] == rnd[i], "as sent");
  bool match = true; for (int i = 0; i < 32; i++) if (answer[1 + i] != mac[1][i]) match = false;
  if (match) { CHECK(threads == 1 && closes == 0 && olen == 42 && out[41] == MSG_TYPE_ACK, "a federate that knows the key joins"); }
  else { CHECK(threads == 0 && closes == 1 && olen == 43 && out[41] == MSG_TYPE_REJECT && out[42] == HMAC_DOES_NOT_MATCH, "any other is rejected with the documented code"); }
#if AUTH
  if (match) WITNESS("authenticated"); else WITNESS("rejected by tag");
#endif
}
static void auth_exit(void) { CHECK(broken || (ipos == 11 && hello[0] != MSG_TYPE_FED_NONCE) || (ipos == 44 && answer[0] != MSG_TYPE_FED_RESPONSE), "ends only when the connection breaks or on an unexpected message"); CHECK(threads == 0, "without having admitted the federate"); }
void h_auth(void) {
  world();
  for (int i = 0; i < N; i++) nodes_[i]->state = NOT_CONNECTED;
  rti.authentication_enabled = true;
  for (int i = 0; i < 11; i++) hello[i] = in[ilen++] = nd_u8();
  for (int i = 0; i < 33; i++) answer[i] = in[ilen++] = nd_u8();
  int o = ilen;
  for (int i = 0; i < L; i++) fid[i] = 'a';
  flen = L;
  fedid(); in[o] = MSG_TYPE_FED_IDS; for (int i = 0; i < RL; i++) in[o + 4 + i] = 'a';
  rest(); in[o + 4 + RL] = MSG_TYPE_NEIGHBOR_STRUCTURE; in[ilen - 3] = MSG_TYPE_UDP_PORT;
  cut = nd_bool() ? 200 : nd_range(0, 43);
  lf_connect_to_federates(7);
#if N == 1
  VERDICT();
#endif
}
