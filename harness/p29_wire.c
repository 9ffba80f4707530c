/* Wire encodings. */
#include "stubs.h"
#include "net_util.h"
#include "net_common.h"
static unsigned char b[24];
static void guard(void) { for (int i = 0; i < 24; i++) b[i] = 0xa5; }
static void check_bytes(int off, int n, uint64_t v) {
  for (int i = 0; i < 24; i++) {
    if (i >= off && i < off + n) CHECK(b[i] == (unsigned char)(v >> (8 * (i - off))), "little-endian bytes at the documented place");
    else CHECK(b[i] == 0xa5, "no other byte is written");
  }
}
void h_ints(void) {
  int off = nd_range(0, 7); /* any alignment */
  int64_t a = nd_i64(); int32_t c = nd_i32(); uint32_t d = nd_u32(); uint16_t e = nd_u16();
  CHECK(!host_is_big_endian(), "the host is little-endian");
  guard(); encode_int64(a, b + off); check_bytes(off, 8, (uint64_t)a); CHECK(extract_int64(b + off) == a, "64-bit round trip"); check_bytes(off, 8, (uint64_t)a);
  guard(); encode_int32(c, b + off); check_bytes(off, 4, (uint32_t)c); CHECK(extract_int32(b + off) == c, "32-bit signed round trip");
  guard(); encode_uint32(d, b + off); check_bytes(off, 4, d); CHECK(extract_uint32(b + off) == d, "32-bit round trip");
  guard(); encode_uint16(e, b + off); check_bytes(off, 2, e); CHECK(extract_uint16(b + off) == e, "16-bit round trip");
  CHECK(swap_bytes_if_big_endian_int64(a) == a && swap_bytes_if_big_endian_int32(c) == c && swap_bytes_if_big_endian_uint32(d) == d && swap_bytes_if_big_endian_uint16(e) == e, "no swap on a little-endian host");
  WITNESS("integers");
}
void h_tag(void) {
  int off = nd_range(0, 7);
  tag_t t; t.time = nd_i64(); t.microstep = nd_u32();
  guard(); encode_tag(b + off, t);
  for (int i = 0; i < 24; i++) {
    unsigned char want = i >= off && i < off + 8 ? (unsigned char)((uint64_t)t.time >> (8 * (i - off))) : i >= off + 8 && i < off + 12 ? (unsigned char)(t.microstep >> (8 * (i - off - 8))) : 0xa5;
    CHECK(b[i] == want, "a tag is 8 bytes of time and 4 of microstep, little-endian");
  }
  tag_t u = extract_tag(b + off);
  CHECK(u.time == t.time && u.microstep == t.microstep, "tag round trip");
  WITNESS("tag");
}
/* Message headers as net_common.h documents them: port, federate, length, tag. */
void h_header(void) {
  for (int i = 0; i < 24; i++) b[i] = nd_u8();
  uint16_t port = 0, fed = 0; size_t len = 0; tag_t tag;
  uint32_t rawlen = (uint32_t)b[4] | (uint32_t)b[5] << 8 | (uint32_t)b[6] << 16 | (uint32_t)b[7] << 24;
  extract_header(b, &port, &fed, &len);
  CHECK(port == (b[0] | b[1] << 8) && fed == (b[2] | b[3] << 8) && len == rawlen, "header fields");
  port = fed = 0; len = 0;
  extract_timed_header(b, &port, &fed, &len, &tag);
  CHECK(port == (b[0] | b[1] << 8) && fed == (b[2] | b[3] << 8) && len == rawlen, "header fields");
  uint64_t t = 0; for (int i = 0; i < 8; i++) t |= (uint64_t)b[8 + i] << (8 * i);
  CHECK((uint64_t)tag.time == t && tag.microstep == ((uint32_t)b[16] | (uint32_t)b[17] << 8 | (uint32_t)b[18] << 16 | (uint32_t)b[19] << 24), "tag of a tagged message");
  WITNESS("header");
}
void h_stop_messages(void) {
  tag_t t; t.time = nd_i64(); t.microstep = nd_u32();
  int k = nd_range(0, 2); size_t n;
  guard();
  if (k == 0) { ENCODE_STOP_REQUEST(b, t.time, t.microstep); n = MSG_TYPE_STOP_REQUEST_LENGTH; }
  else if (k == 1) { ENCODE_STOP_REQUEST_REPLY(b, t.time, t.microstep); n = MSG_TYPE_STOP_REQUEST_REPLY_LENGTH; }
  else { ENCODE_STOP_GRANTED(b, t.time, t.microstep); n = MSG_TYPE_STOP_GRANTED_LENGTH; }
  CHECK(b[0] == (k == 0 ? 10 : k == 1 ? 11 : 12), "message type");
  tag_t u = extract_tag(b + 1);
  CHECK(u.time == t.time && u.microstep == t.microstep, "the receiver decodes the same tag");
  CHECK(n == 13, "13 bytes");
  for (int i = 13; i < 24; i++) CHECK(b[i] == 0xa5, "no other byte is written");
  WITNESS("stop messages");
}
