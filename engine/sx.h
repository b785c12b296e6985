// Harness interface: interpreted by the symbolic executor, or by the native replay runtime.
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
void sx_bytes(void *p, size_t n, const char *name);       // n unconstrained input bytes
uint32_t sx_choose(uint32_t n, const char *name);         // one of 0..n-1 (every value is explored)
void sx_assume(int cond);
void sx_check(int cond, const char *msg);                 // the property
void sx_known(int cond, const char *id);                  // cond characterises a recorded finding
void sx_reach(const char *label);                         // reachability witness
void sx_tag(const char *text);
void sx_end(void) __attribute__((noreturn));
int sx_decide(int cond);                               // branch now: the result is concrete on each path
int sx_native(void);                                      // 1 in the native replay build
int sx_issym(uint64_t v);                                 // engine only
void sx_print(const char *label, const void *p, size_t n);
void sx_main(void);
void sx_digits(uint64_t x, char *out, size_t n);
uint64_t sx_undigits(const char *p, size_t n);
double sx_strtod(const char *p, size_t n);
float sx_strtof(const char *p, size_t n);
void sx_setpoint(int comma);                              // model only
// 1: setlocale to one with a decimal comma, 2: the same for the thread only, 4: C++ streams group digits, 8: back to "C"
void sx_locale(int kinds);
// f(p) in two threads at once; explored once, with everything made before as shared storage
void sx_threads(void (*f)(void *), void *p);
void sx_freeze(int on);                                   // model only
}
template <class T> static inline T sx_value(const char *name) { T v; sx_bytes(&v, sizeof v, name); return v; }
static inline bool sx_bool(const char *name) { uint8_t b; sx_bytes(&b, 1, name); sx_assume(b <= 1); return b; }
#define CHECK(c, m) sx_check((c) ? 1 : 0, m)
// files and process exit; native replays run in a scratch directory
extern "C" {
void sx_file_put(const char *name, const void *p, size_t n);
void sx_file_mkdir(const char *name);
long sx_file_size(const char *name);                      // -1: does not exist; "<stdout>", "<stderr>" once captured
void sx_file_get(const char *name, void *p);
void sx_file_limit(long n);                               // bytes that any file can hold
void sx_file_rfault(const char *name, long at);           // reading beyond 'at' bytes fails
void sx_file_cfault(const char *name);                    // closing reports an error when the file was being written
void sx_capture(void);
void sx_onexit(void (*f)(int));                           // called when the program exits
}
