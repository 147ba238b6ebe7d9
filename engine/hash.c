#define XXH_INLINE_ALL
#define XXH_VECTOR 0
#include "xxhash.h"
unsigned long symx_native_xxh3(const void *p, unsigned long n) { return XXH3_64bits(p, n); }
