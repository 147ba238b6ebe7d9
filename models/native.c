/* Native runtime for replays: inputs come from the file named by SYMX_REPLAY ("I name hex" / "H hexbytes hash" lines, in order). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "symx.h"
static struct { char *name; unsigned char *b; size_t n; } *in; static size_t nin, cur; static struct { unsigned char *b; size_t n; unsigned long h; } *hs; static size_t nh; static int loaded;
static unsigned char *unhex(const char *s, size_t *n) { size_t l = strlen(s) / 2; unsigned char *b = malloc(l + 1); for (size_t i = 0; i < l; i++) { unsigned v; sscanf(s + 2 * i, "%2x", &v); b[i] = v; } *n = l; return b; }
static void load(void) { if (loaded) return; loaded = 1; const char *p = getenv("SYMX_REPLAY"); FILE *f = p ? fopen(p, "r") : NULL; if (!f) return; static char line[1 << 20];
  while (fgets(line, sizeof line, f)) { char *t = strtok(line, " \n"); if (!t) continue; if (!strcmp(t, "I")) { char *nm = strtok(NULL, " \n"), *hx = strtok(NULL, " \n"); in = realloc(in, (nin + 1) * sizeof *in); in[nin].name = strdup(nm); in[nin].b = unhex(hx ? hx : "", &in[nin].n); nin++; }
    else if (!strcmp(t, "H")) { char *hx = strtok(NULL, " \n"), *v = strtok(NULL, " \n"); hs = realloc(hs, (nh + 1) * sizeof *hs); hs[nh].b = unhex(hx, &hs[nh].n); hs[nh].h = strtoul(v, 0, 10); nh++; } } fclose(f); }
void symx_sym(void *p, size_t n, const char *name) { load(); memset(p, 0, n); if (cur >= nin) { fprintf(stderr, "SYMX-DIVERGED: no more inputs (%s)\n", name); exit(79); } if (strcmp(in[cur].name, name) || in[cur].n != n) { fprintf(stderr, "SYMX-DIVERGED: input %s/%zu, recorded %s/%zu\n", name, n, in[cur].name, in[cur].n); exit(79); } memcpy(p, in[cur].b, n); cur++; }
void symx_assume(int c) { if (!c) { fprintf(stderr, "SYMX-ASSUME-FALSE\n"); exit(78); } }
void symx_assert_(int c, const char *m) { if (!c) { fflush(stdout); fprintf(stderr, "SYMX-ASSERT-FAIL: %s\n", m); exit(77); } }
void symx_fail(const char *m) { symx_assert_(0, m); abort(); }
unsigned long symx_concretize(unsigned long v) { return v; }
void symx_reach(const char *l) { (void)l; }
void symx_observe(const char *name, const void *p, size_t n) { printf("OBS %s ", name); for (size_t i = 0; i < n; i++) printf("%02x", ((const unsigned char *)p)[i]); printf("\n"); }
int symx_is_native(void) { return 1; }
int symx_is_symbolic(unsigned long v) { (void)v; return 0; }
int symx_valid(const void *p, size_t n) { (void)p; (void)n; return 1; }
void symx_print(const char *s) { fprintf(stderr, "[symx] %s\n", s); }
unsigned long symx_param(const char *name, unsigned long d) { char b[128]; snprintf(b, sizeof b, "SYMX_PARAM_%s", name); const char *v = getenv(b); return v ? strtoul(v, 0, 10) : d; }
extern unsigned long symx_native_xxh3(const void *p, unsigned long n);
unsigned long XXH3_64bits(const void *p, size_t n) { load(); for (size_t i = 0; i < nh; i++) if (hs[i].n == n && !memcmp(hs[i].b, p, n)) return hs[i].h; return symx_native_xxh3(p, n); }
extern void harness(void);
int main(void) { harness(); printf("SYMX-DONE\n"); return 0; }
