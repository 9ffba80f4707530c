/* Socket transfers under arbitrary short transfers, transient errors, permanent errors and end of file. */
static void vp_exit_(void);
#define VP_ERROR_EXIT vp_exit_()
#include "stubs.h"
#include <errno.h>
#include <sys/types.h>
#include "net_util.h"
#ifndef N
#define N 4
#endif
#ifndef TR
#define TR 2
#endif
static lf_mutex_t mtx; static int unlocked;
int lf_mutex_unlock(lf_mutex_t* m) { CHECK(m == &mtx, "the mutex given is released"); unlocked++; return 0; }
static unsigned char buf[N + 2], stream[N + 2];
static size_t want, done; static int transient, closes, shutdowns, fd; static bool eof_, err_, dead;
int lf_sleep(interval_t d) { CHECK(d >= 0, "waits before retrying"); return 0; }
static int outcome(size_t n) {
  CHECK(!dead, "nothing is transferred after an end of file, an error or completion");
  CHECK(n == want - done && n > 0, "exactly the remaining bytes are asked for");
  int k = nd_range(0, 3);
  if (k == 0) { ASSUME(transient < TR); transient++; int e = nd_range(0, 2); errno = e == 0 ? EAGAIN : e == 1 ? EWOULDBLOCK : EINTR; }
  if (k == 1) { err_ = dead = true; int e = nd_i32(); ASSUME(e != EAGAIN && e != EWOULDBLOCK && e != EINTR && e > 0); errno = e; }
  return k;
}
ssize_t vp_read(int f, void* p, size_t n) {
  CHECK(f == fd && (unsigned char*)p == buf + done, "reads into the right place");
  int k = outcome(n);
  if (k <= 1) return -1;
  if (k == 2) { eof_ = dead = true; return 0; }
  int m = nd_range(1, N); ASSUME((size_t)m <= n);
  for (int i = 0; i < N; i++) if (i < m) ((unsigned char*)p)[i] = stream[done + i];
  done += (size_t)m; dead = done == want;
  return m;
}
ssize_t vp_write(int f, const void* p, size_t n) {
  CHECK(f == fd && (const unsigned char*)p == buf + done, "writes from the right place");
  int k = outcome(n);
  if (k <= 1) return -1;
  int m = nd_range(1, N); ASSUME((size_t)m <= n);
  for (int i = 0; i < N; i++) if (i < m) stream[done + i] = ((const unsigned char*)p)[i];
  done += (size_t)m; dead = done == want;
  return m;
}
int vp_close(int f) { if (f >= 0) { CHECK(f == fd, "the socket given is closed"); closes++; } return 0; }
int vp_shutdown(int f, int how) { if (f >= 0) { CHECK(f == fd && closes == 0, "shut down before closing"); shutdowns++; } return 0; }
static void setup(void) {
  fd = nd_range(-1, 5); want = nd_range(0, N); errno = 0;
  for (int i = 0; i < N + 2; i++) { buf[i] = nd_u8(); stream[i] = nd_u8(); }
}
static void verdict(int r, unsigned char* from, unsigned char* to, unsigned char* old) {
  if (fd < 0) { CHECK(r != 0 && done == 0, "an invalid socket is an error"); return; }
  CHECK((r == 0) == (done == want && !eof_ && !err_), "success is reported exactly if every byte was transferred");
  if (eof_) CHECK(r != 0, "end of file is reported");
  if (err_) CHECK(r != 0, "a permanent error is reported");
  for (int i = 0; i < N + 2; i++) {
    if ((size_t)i < done) CHECK(to[i] == from[i], "the bytes arrive in order");
    else CHECK(to[i] == old[i], "nothing else is written");
  }
}
#define SEEN do { if (fd < 0) WITNESS("invalid"); if (fd >= 0 && r == 0 && transient == TR) WITNESS("success after transient errors"); if (err_) WITNESS("error"); } while (0)
static int closing; static int sock;
static void closed(int r, int s) {
  if (!closing) return;
  if (r == 0) CHECK(s == fd && closes == 0 && shutdowns == 0, "a working socket stays open");
  else CHECK(s == -1 && closes == (fd >= 0), "a failed socket is closed exactly once and marked invalid");
}
void h_read(void) {
  setup();
  unsigned char old[N + 2]; for (int i = 0; i < N + 2; i++) old[i] = buf[i];
  closing = nd_bool(); sock = fd;
  int r = closing ? read_from_socket_close_on_error(&sock, want, buf) : read_from_socket(fd, want, buf);
  if (!closing && fd >= 0) CHECK((r > 0) == eof_ && (r < 0) == err_, "end of file and errors are told apart");
  verdict(r, stream, buf, old);
  closed(r, sock);
  SEEN;
}
void h_write(void) {
  setup();
  unsigned char old[N + 2]; for (int i = 0; i < N + 2; i++) old[i] = stream[i];
  closing = nd_bool(); sock = fd;
  int r = closing ? write_to_socket_close_on_error(&sock, want, buf) : write_to_socket(fd, want, buf);
  verdict(r, buf, stream, old);
  closed(r, sock);
  SEEN;
}

static bool with_mutex, exits_ok;
static void vp_exit_(void) {
  CHECK(exits_ok, "the program ends only where documented");
  CHECK(done != want || eof_ || err_ || fd < 0, "the program ends only after a failure");
  CHECK(unlocked == with_mutex, "the mutex is released before the program ends");
  CHECK(closes == (fd >= 0) && sock == -1, "the socket has been closed");
  WITNESS("ends the program");
}
/* The variants that end the program (or close the socket) on failure. */
void h_read_fail(void) {
  setup(); ASSUME(want > 0);
  unsigned char old[N + 2]; for (int i = 0; i < N + 2; i++) old[i] = buf[i];
  with_mutex = nd_bool(); sock = fd; exits_ok = true;
  read_from_socket_fail_on_error(&sock, want, buf, with_mutex ? &mtx : NULL, nd_bool() ? "failed" : NULL);
  CHECK(unlocked == 0, "the mutex stays held on success");
  CHECK(fd >= 0 && done == want, "it returns only after success");
  verdict(0, stream, buf, old);
  CHECK(sock == fd && closes == 0, "a working socket stays open");
}
void h_write_fail(void) {
  setup(); ASSUME(want > 0);
  unsigned char old[N + 2]; for (int i = 0; i < N + 2; i++) old[i] = stream[i];
  with_mutex = nd_bool(); sock = fd; exits_ok = true;
  bool fmt = nd_bool();
  write_to_socket_fail_on_error(&sock, want, buf, with_mutex ? &mtx : NULL, fmt ? "failed" : NULL);
  bool failed = fd < 0 || done != want || eof_ || err_;
  CHECK(!(failed && fmt), "with a message, a failure ends the program");
  CHECK(unlocked == (failed && with_mutex), "the mutex is released on failure only");
  closing = 1; closed(failed, sock);
  if (failed) WITNESS("survives"); else verdict(0, buf, stream, old);
}
