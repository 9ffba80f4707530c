/* The transfer functions of net_util.h (P30 decides the real ones) over two functions of the harness, rd and wr, which transfer
 * everything or fail; the encoding functions are the real ones. */
#include <unistd.h>
#include "net_util.h"
#define read_from_socket real_read_from_socket
#define write_to_socket real_write_to_socket
#define read_from_socket_close_on_error real_read_from_socket_close_on_error
#define write_to_socket_close_on_error real_write_to_socket_close_on_error
#define read_from_socket_fail_on_error real_read_from_socket_fail_on_error
#define write_to_socket_fail_on_error real_write_to_socket_fail_on_error
#include "core/federated/network/net_util.c"
#undef read_from_socket
#undef write_to_socket
#undef read_from_socket_close_on_error
#undef write_to_socket_close_on_error
#undef read_from_socket_fail_on_error
#undef write_to_socket_fail_on_error
static int rd(int s, size_t n, unsigned char* b), wr(int s, size_t n, const unsigned char* b);
static void hangup(int s);
int read_from_socket(int s, size_t n, unsigned char* b) { return s < 0 ? -1 : rd(s, n, b); }
int write_to_socket(int s, size_t n, unsigned char* b) { return s < 0 ? -1 : wr(s, n, b); }
int read_from_socket_close_on_error(int* s, size_t n, unsigned char* b) { if (!read_from_socket(*s, n, b)) return 0; if (*s >= 0) hangup(*s); *s = -1; return -1; }
int write_to_socket_close_on_error(int* s, size_t n, unsigned char* b) { int r = write_to_socket(*s, n, b); if (r) { if (*s >= 0) hangup(*s); *s = -1; } return r; }
#ifndef VP_IO_EXIT
#define VP_IO_EXIT CHECK(0, "the program ends although no transfer may fail here")
#endif
void read_from_socket_fail_on_error(int* s, size_t n, unsigned char* b, lf_mutex_t* m, char* f, ...) { if (*s < 0) { VP_IO_EXIT; ASSUME(0); } if (rd(*s, n, b)) { VP_IO_EXIT; ASSUME(0); } }
void write_to_socket_fail_on_error(int* s, size_t n, unsigned char* b, lf_mutex_t* m, char* f, ...) { if (*s < 0) { VP_IO_EXIT; ASSUME(0); } if (wr(*s, n, b)) { VP_IO_EXIT; ASSUME(0); } }
