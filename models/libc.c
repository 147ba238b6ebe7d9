/* C library model (bitcode only): plain loops, compiled with -fno-builtin. */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <limits.h>
#include <stdbool.h>
#include "symx.h"
extern void *malloc(size_t); extern void free(void *); extern size_t strlen(const char *); extern void *memcpy(void *, const void *, size_t);
extern int symx_fmt_double(char *buf, size_t n, const char *fmt, double d);
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } if (!n) return 0; return (unsigned char)*a - (unsigned char)*b; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { while (*a && lc((unsigned char)*a) == lc((unsigned char)*b)) { a++; b++; } return lc((unsigned char)*a) - lc((unsigned char)*b); }
int strncasecmp(const char *a, const char *b, size_t n) { while (n && *a && lc((unsigned char)*a) == lc((unsigned char)*b)) { a++; b++; n--; } if (!n) return 0; return lc((unsigned char)*a) - lc((unsigned char)*b); }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void *)s; return 0; }
void *memrchr(const void *p, int c, size_t n) { const unsigned char *s = p; while (n--) if (s[n] == (unsigned char)c) return (void *)(s + n); return 0; }
void *memmem(const void *h, size_t hn, const void *n, size_t nn) { const unsigned char *a = h, *b = n; if (!nn) return (void*)h; for (size_t i = 0; i + nn <= hn; i++) { size_t j = 0; while (j < nn && a[i + j] == b[j]) j++; if (j == nn) return (void *)(a + i); } return 0; }
char *strstr(const char *h, const char *n) { if (!*n) return (char *)h; for (; *h; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char *)h; } return 0; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char *strcpy(char *d, const char *s) { memcpy(d, s, strlen(s) + 1); return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *stpcpy(char *d, const char *s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d + n; }
size_t strspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *p = a; while (*p && *p != s[n]) p++; if (!*p) break; } return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *p = a; while (*p && *p != s[n]) p++; if (*p) break; } return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); if (p) memcpy(p, s, n); return p; }
char *strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
char *strerror(int e) { (void)e; return (char *)"error"; }
static int symx_errno; int *__errno_location(void) { return &symx_errno; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int tolower(int c) { return lc(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
#include "ctype_tab.h"
static const unsigned short *const ctype_p = symx_ctype_tab + 128;
const unsigned short **__ctype_b_loc(void) { return (const unsigned short **)&ctype_p; }
static const int *const tolower_p = symx_tolower_tab + 128; static const int *const toupper_p = symx_toupper_tab + 128;
const int **__ctype_tolower_loc(void) { return (const int **)&tolower_p; }
const int **__ctype_toupper_loc(void) { return (const int **)&toupper_p; }
unsigned long strtoul(const char *s, char **e, int base);
long strtol(const char *s, char **e, int base) {
  const char *p = s; while (isspace((unsigned char)*p)) p++; bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; bool any = false, of = false;
  for (;; p++) { int c = (unsigned char)*p, d; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; any = true;
    if (!of) { unsigned long lim = neg ? (unsigned long)LONG_MAX + 1 : LONG_MAX; if (v > (lim - d) / base) of = true; else v = v * base + d; } }
  if (e) *e = (char *)(any ? p : s); if (of) { symx_errno = 34; return neg ? LONG_MIN : LONG_MAX; } return neg ? (long)(0 - v) : (long)v; }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { return (unsigned long)strtol(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return (unsigned long)strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return (unsigned long)strtol(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
/* the syntax is decided symbolically; only the bytes of the number itself are made concrete */
extern double symx_strtod(const char *, char **);
double strtod(const char *s, char **e) {
  const char *p = s; while (isspace((unsigned char)*p)) p++; if (*p == '-' || *p == '+') p++;
  bool word = (*p == 'i' || *p == 'I') ? (p[1] == 'n' || p[1] == 'N') && (p[2] == 'f' || p[2] == 'F') : (*p == 'n' || *p == 'N') ? (p[1] == 'a' || p[1] == 'A') && (p[2] == 'n' || p[2] == 'N') : *p == '0' && (p[1] == 'x' || p[1] == 'X');
  if (word) return symx_strtod(s, e);
  bool any = false; while (*p >= '0' && *p <= '9') { p++; any = true; } if (*p == '.') { p++; while (*p >= '0' && *p <= '9') { p++; any = true; } } if (!any) { if (e) *e = (char *)s; return 0; }
  if (*p == 'e' || *p == 'E') { const char *q = p + 1; if (*q == '-' || *q == '+') q++; if (*q >= '0' && *q <= '9') { while (*q >= '0' && *q <= '9') q++; p = q; } }
  unsigned long n = (unsigned long)(p - s); char *b = malloc(n + 1); memcpy(b, s, n); b[n] = 0; double d = symx_strtod(b, 0); free(b); if (e) *e = (char *)p; return d; }
double atof(const char *s) { return strtod(s, 0); }
/* sscanf: %[width][l|ll|h]d / %u / %n / %c / literal text */
static int vscan(const char *s, const char *f, va_list ap) {
  const char *s0 = s; int n = 0; bool started = false;
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
    if (*f != '%') { if (*s != *f) { if (!*s && !started) return -1; return n; } s++; continue; }
    f++; int width = 0; bool sup = false; if (*f == '*') { sup = true; f++; } while (isdigit((unsigned char)*f)) width = width * 10 + (*f++ - '0'); int l = 0; while (*f == 'l' || *f == 'z' || *f == 'h') { if (*f != 'h') l++; f++; }
    if (*f == 'n') { *va_arg(ap, int *) = (int)(s - s0); continue; }
    if (*f == 'c') { if (!*s) return n ? n : -1; if (!sup) { *va_arg(ap, char *) = *s; n++; } s++; started = true; continue; }
    if (*f == 'd' || *f == 'u' || *f == 'i') { while (isspace((unsigned char)*s)) s++; if (!*s) return n ? n : -1; int w = width ? width : 1000; bool neg = false; const char *p = s; if ((*p == '-' || *p == '+') && w > 0) { neg = *p == '-'; p++; w--; } unsigned long v = 0; int dg = 0; while (w > 0 && isdigit((unsigned char)*p)) { v = v * 10 + (*p - '0'); p++; w--; dg++; } if (!dg) return n; s = p; if (!sup) { if (l) *va_arg(ap, long *) = neg ? -(long)v : (long)v; else *va_arg(ap, int *) = neg ? -(int)v : (int)v; n++; } started = true; continue; }
    symx_fail("sscanf model: unsupported conversion"); }
  return n; }
int __isoc99_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vscan(s, f, ap); va_end(ap); return r; }
int sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vscan(s, f, ap); va_end(ap); return r; }
struct out { char *b; size_t n, pos; };
static void oc(struct out *o, char c) { if (o->pos + 1 < o->n) o->b[o->pos] = c; o->pos++; }
int vsnprintf(char *buf, size_t size, const char *f, va_list ap) {
  struct out o = {buf, size, 0};
  for (; *f; f++) {
    if (*f != '%') { oc(&o, *f); continue; }
    f++; bool left = false, zero = false, alt = false, plus = false, space = false; for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '#') alt = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else break; }
    int width = 0, prec = -1; if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = true; width = -width; } f++; } else while (isdigit((unsigned char)*f)) width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit((unsigned char)*f)) prec = prec * 10 + (*f++ - '0'); }
    int l = 0, h = 0; while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'h') { if (*f == 'h') h++; else l++; f++; }
    char tmp[72]; const char *p = tmp; size_t n = 0; char sign = 0;
    switch (*f) {
    case '%': oc(&o, '%'); continue;
    case 'c': tmp[0] = (char)va_arg(ap, int); n = 1; break;
    case 's': { p = va_arg(ap, const char *); if (!p) p = "(null)"; if (prec >= 0) { n = 0; while (n < (size_t)prec && p[n]) n++; } else n = strlen(p); break; }
    case 'd': case 'i': { long v = l ? va_arg(ap, long) : (long)va_arg(ap, int); if (h == 1) v = (short)v; else if (h >= 2) v = (signed char)v; unsigned long u; if (v < 0) { sign = '-'; u = 0 - (unsigned long)v; } else { u = v; if (plus) sign = '+'; else if (space) sign = ' '; } char *q = tmp + 70; do { *--q = '0' + u % 10; u /= 10; n++; } while (u); while (prec > (int)n) { *--q = '0'; n++; } p = q; break; }
    case 'u': case 'x': case 'X': case 'o': case 'p': { unsigned long u = (*f == 'p' || l) ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned); if (h == 1) u = (unsigned short)u; else if (h >= 2) u = (unsigned char)u; unsigned base = *f == 'u' ? 10 : *f == 'o' ? 8 : 16; const char *dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef"; char *q = tmp + 70; unsigned long u0 = u; do { unsigned long r = u % base; *--q = r < 10 ? '0' + r : (*f == 'X' ? 'A' : 'a') + (r - 10); u /= base; n++; } while (u); (void)dg; while (prec > (int)n) { *--q = '0'; n++; } if (*f == 'p' || (alt && base == 16 && u0)) { *--q = 'x'; *--q = '0'; n += 2; } p = q; break; }
    case 'f': case 'g': case 'e': case 'G': case 'E': case 'F': { double d = va_arg(ap, double); char ff[8]; int k = 0; ff[k++] = '%'; if (prec >= 0) { ff[k++] = '.'; if (prec > 9) ff[k++] = '0' + prec / 10 % 10; ff[k++] = '0' + prec % 10; } ff[k++] = *f; ff[k] = 0; n = symx_fmt_double(tmp, sizeof tmp, ff, d); break; }
    default: symx_fail("printf model: unsupported conversion"); }
    size_t tot = n + (sign ? 1 : 0); if (!left && !zero) for (size_t i = tot; i < (size_t)width; i++) oc(&o, ' '); if (sign) oc(&o, sign); if (!left && zero) for (size_t i = tot; i < (size_t)width; i++) oc(&o, '0'); for (size_t i = 0; i < n; i++) oc(&o, p[i]); if (left) for (size_t i = tot; i < (size_t)width; i++) oc(&o, ' '); }
  if (size) buf[o.pos < size ? o.pos : size - 1] = 0; return (int)o.pos; }
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, 1 << 20, f, ap); }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 20, f, ap); va_end(ap); return r; }
/* stdio: output is discarded */
void *stdin, *stdout, *stderr;
int fprintf(void *f, const char *fmt, ...) { (void)f; (void)fmt; return 0; }
int printf(const char *fmt, ...) { (void)fmt; return 0; }
int vfprintf(void *f, const char *fmt, va_list ap) { (void)f; (void)fmt; (void)ap; return 0; }
int fputc(int c, void *f) { (void)f; return c; }
int putc(int c, void *f) { (void)f; return c; }
int fputs(const char *s, void *f) { (void)s; (void)f; return 0; }
int puts(const char *s) { (void)s; return 0; }
int putchar(int c) { return c; }
int fflush(void *f) { (void)f; return 0; }
size_t fwrite(const void *p, size_t s, size_t n, void *f) { (void)p; (void)s; (void)f; return n; }
int getc(void *f) { (void)f; return -1; }
int fgetc(void *f) { (void)f; return -1; }
int ferror(void *f) { (void)f; return 0; }
void clearerr(void *f) { (void)f; }
size_t fread(void *p, size_t s, size_t n, void *f) { (void)p; (void)s; (void)n; (void)f; return 0; }
int isatty(int fd) { (void)fd; return 0; }
int fileno(void *f) { (void)f; return 0; }
char *getenv(const char *n) { (void)n; return 0; }
double difftime(long a, long b) { return (double)(a - b); }
char *ctime(const long *t) { (void)t; return (char *)"Thu Jan  1 00:00:00 1970\n"; }
static void swapb(char *a, char *b, size_t s) { while (s--) { char t = *a; *a++ = *b; *b++ = t; } }
void qsort(void *base, size_t n, size_t s, int (*cmp)(const void *, const void *)) { char *b = base; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(b + (j - 1) * s, b + j * s) > 0; j--) swapb(b + (j - 1) * s, b + j * s, s); }
void qsort_r(void *base, size_t n, size_t s, int (*cmp)(const void *, const void *, void *), void *arg) { char *b = base; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(b + (j - 1) * s, b + j * s, arg) > 0; j--) swapb(b + (j - 1) * s, b + j * s, s); }
int __isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vscan(s, f, ap); va_end(ap); return r; }
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
void *rawmemchr(const void *p, int c) { const unsigned char *s = p; while (*s != (unsigned char)c) s++; return (void *)s; }
char *strcasestr(const char *h, const char *n) { for (;; h++) { size_t i = 0; while (n[i] && lc((unsigned char)h[i]) == lc((unsigned char)n[i])) i++; if (!n[i]) return (char *)h; if (!*h) return 0; } }
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char *e = s + strcspn(s, d); if (*e) *e++ = 0; *sv = e; return s; }
char *strtok(char *s, const char *d) { static char *sv; return strtok_r(s, d, &sv); }
char *strsep(char **sp, const char *d) { char *s = *sp; if (!s) return 0; char *e = s + strcspn(s, d); if (*e) { *e++ = 0; *sp = e; } else *sp = 0; return s; }
char *strncat(char *d, const char *s, size_t n) { size_t k = strnlen(s, n), l = strlen(d); memcpy(d + l, s, k); d[l + k] = 0; return d; }
char *stpncpy(char *d, const char *s, size_t n) { size_t k = strnlen(s, n); strncpy(d, s, n); return d + k; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
void *memccpy(void *d, const void *s, int c, size_t n) { for (size_t i = 0; i < n; i++) { ((char *)d)[i] = ((const char *)s)[i]; if (((const char *)s)[i] == (char)c) return (char *)d + i + 1; } return 0; }
void *bsearch(const void *k, const void *b, size_t n, size_t s, int (*cmp)(const void *, const void *)) { size_t lo = 0, hi = n; while (lo < hi) { size_t m = lo + (hi - lo) / 2; const void *p = (const char *)b + m * s; int c = cmp(k, p); if (!c) return (void *)p; if (c < 0) hi = m; else lo = m + 1; } return 0; }
int isblank(int c) { return c == ' ' || c == 9; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
size_t strlcpy(char *d, const char *s, size_t n) { size_t l = strlen(s); if (n) { size_t k = l < n - 1 ? l : n - 1; memcpy(d, s, k); d[k] = 0; } return l; }
int asprintf(char **r, const char *f, ...) { va_list ap, a2; va_start(ap, f); va_copy(a2, ap); int n = vsnprintf(0, 0, f, ap); va_end(ap); *r = malloc((size_t)n + 1); if (*r) vsnprintf(*r, (size_t)n + 1, f, a2); va_end(a2); return *r ? n : -1; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
