/* Environment shared by most harnesses: logging has empty bodies; an internal error exit is a failed obligation
 * unless the harness defines VP_ERROR_EXIT before including this file. */
#ifndef VP_STUBS_H
#define VP_STUBS_H
#include "vp.h"
#include <stdarg.h>
#ifndef VP_ERROR_EXIT
#define VP_ERROR_EXIT CHECK(0, "the runtime terminates with an internal error")
#endif
void lf_print(const char* f, ...) {}
void lf_print_log(const char* f, ...) {}
void lf_print_debug(const char* f, ...) {}
void lf_print_error(const char* f, ...) {}
void lf_print_warning(const char* f, ...) {}
void lf_print_error_and_exit(const char* f, ...) { VP_ERROR_EXIT; ASSUME(0); }
void lf_print_error_system_failure(const char* f, ...) { VP_ERROR_EXIT; ASSUME(0); }
#ifndef VP_REPLAY
char* strerror(int e) { static char m[1]; return m; }
#endif
#endif
