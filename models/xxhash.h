/* Stand-in for vendor/xxhash: the digest is an uninterpreted function of the hashed bytes under the
   symbolic executor (concrete inputs get the real XXH3 value); natively it is the real XXH3 unless the replay pins it. */
#ifndef XXH_STUB_H
#define XXH_STUB_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#define XXH_VERSION_MAJOR 0
#define XXH_VERSION_MINOR 7
#define XXH_VERSION_RELEASE 4
#define XXH_VERSION_NUMBER 704
typedef uint64_t XXH64_hash_t;
typedef uint32_t XXH32_hash_t;
typedef enum { XXH_OK = 0, XXH_ERROR } XXH_errorcode;
extern unsigned long XXH3_64bits(const void *p, size_t n);
typedef struct { const char *p; size_t n; char *own; } XXH3_state_t;
static inline __attribute__((unused)) XXH_errorcode XXH3_64bits_reset(XXH3_state_t *s) { s->p = ""; s->n = 0; s->own = 0; return XXH_OK; }
static inline __attribute__((unused)) XXH_errorcode XXH3_64bits_update(XXH3_state_t *s, const void *d, size_t n) {
  if (s->n == 0) { s->p = (const char *) d; s->n = n; }
  else { char *b = (char *) malloc(s->n + n); memcpy(b, s->p, s->n); memcpy(b + s->n, d, n); free(s->own); s->own = b; s->p = b; s->n += n; }
  return XXH_OK; }
static inline __attribute__((unused)) XXH64_hash_t XXH3_64bits_digest(XXH3_state_t *s) { XXH64_hash_t r = XXH3_64bits(s->p, s->n); free(s->own); s->own = 0; return r; }
#endif
