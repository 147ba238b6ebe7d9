/* Harness API. Under the symbolic executor these are intercepted; natively they replay a recorded input. */
#ifndef SYMX_H
#define SYMX_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
void symx_sym(void *p, size_t n, const char *name);        /* n fresh symbolic bytes */
void symx_assume(int cond);
void symx_assert_(int cond, const char *msg);
void symx_fail(const char *msg);
unsigned long symx_concretize(unsigned long v);            /* fork over every feasible value */
void symx_reach(const char *label);
void symx_observe(const char *name, const void *p, size_t n);
int symx_is_native(void);
unsigned long symx_param(const char *name, unsigned long dflt);
int symx_is_symbolic(unsigned long v);
int symx_valid(const void *p, size_t n);
void symx_print(const char *s);
#define symx_assert(c) symx_assert_(!!(c), #c)
#define CHECK(c, msg) symx_assert_(!!(c), msg)
static inline unsigned char symx_u8(const char *name) { unsigned char c; symx_sym(&c, 1, name); return c; }
/* symbolic value in [lo,hi] */
static inline unsigned symx_range(unsigned lo, unsigned hi, const char *name) { unsigned char c; symx_sym(&c, 1, name); symx_assume(c >= lo); symx_assume(c <= hi); return c; }
/* like symx_range, forked into one path per value */
static inline unsigned symx_pick(unsigned n, const char *name) { if (n <= 1) return 0; unsigned char c; symx_sym(&c, 1, name); symx_assume(c < n); return (unsigned) symx_concretize(c); }
#ifdef __cplusplus
}
#endif
#endif
