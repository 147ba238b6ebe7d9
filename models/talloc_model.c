/* Model of libtalloc (bitcode only; native replays use the real library): hierarchical allocation, each chunk a
   separate object so that out-of-bounds, use-after-free and double free are visible to the executor. */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdbool.h>
#include "symx.h"
extern void *symx_malloc(size_t); extern void symx_free(void *); extern void *memcpy(void *, const void *, size_t); extern void *memset(void *, int, size_t);
extern size_t strlen(const char *); extern int strcmp(const char *, const char *); extern size_t strnlen(const char *, size_t); extern int vsnprintf(char *, size_t, const char *, va_list);
struct hdr { struct hdr *parent, *child, *next, *prev; size_t size; const char *name; int (*dtor)(void *); unsigned magic, flags; };
#define MAGIC 0xe8150c70u
#define MAXSZ 0x10000000ul
#define H(p) tc_hdr(p)
#define P(h) ((void *)((struct hdr *)(h) + 1))
static struct hdr *tc_hdr(const void *p) { struct hdr *h = (struct hdr *)p - 1; if (h->magic != MAGIC) symx_fail("talloc: bad magic value (not a live talloc chunk)"); return h; }
static void link_(struct hdr *h, struct hdr *p) { h->parent = p; h->prev = 0; h->next = 0; if (p) { h->next = p->child; if (p->child) p->child->prev = h; p->child = h; } }
static void unlink_(struct hdr *h) { if (h->prev) h->prev->next = h->next; else if (h->parent) h->parent->child = h->next; if (h->next) h->next->prev = h->prev; h->next = h->prev = 0; h->parent = 0; }
void *talloc_named_const(const void *ctx, size_t size, const char *name) {
  if (size >= MAXSZ) return 0; struct hdr *h = symx_malloc(sizeof *h + size); if (!h) return 0;
  h->child = 0; h->size = size; h->name = name; h->dtor = 0; h->magic = MAGIC; h->flags = 0; link_(h, ctx ? H(ctx) : 0); return P(h); }
void *_talloc(const void *ctx, size_t size) { return talloc_named_const(ctx, size, "UNNAMED"); }
void *_talloc_zero(const void *ctx, size_t size, const char *name) { void *p = talloc_named_const(ctx, size, name); if (p) memset(p, 0, size); return p; }
void *_talloc_array(const void *ctx, size_t el, unsigned n, const char *name) { if (el && n >= MAXSZ / el) return 0; return talloc_named_const(ctx, el * n, name); }
void *_talloc_zero_array(const void *ctx, size_t el, unsigned n, const char *name) { if (el && n >= MAXSZ / el) return 0; return _talloc_zero(ctx, el * n, name); }
void *_talloc_memdup(const void *t, const void *p, size_t size, const char *name) { void *q = talloc_named_const(t, size, name); if (q) memcpy(q, p, size); return q; }
int _talloc_free(void *p, const char *loc) {
  (void)loc; if (!p) return -1; struct hdr *h = H(p); if (h->flags & 2) return 0; /* loop */
  if (h->dtor) { int (*d)(void *) = h->dtor; if (h->flags & 4) return -1; h->flags |= 4; if (d(p) == -1) { h->flags &= ~4u; return -1; } h->dtor = 0; h->flags &= ~4u; }
  h->flags |= 2; struct hdr *par = h->parent; unlink_(h);
  while (h->child) { struct hdr *c = h->child; if (_talloc_free(P(c), loc) == -1) { unlink_(c); link_(c, par); } }
  h->magic = 0; symx_free(h); return 0; }
void talloc_free_children(void *p) { struct hdr *h = H(p); while (h->child) { struct hdr *c = h->child; if (_talloc_free(P(c), "") == -1) { unlink_(c); link_(c, h->parent); } } }
void *_talloc_realloc(const void *ctx, void *p, size_t size, const char *name) {
  if (size == 0) { if (p) _talloc_free(p, name); return 0; } if (size >= MAXSZ) return 0; if (!p) return talloc_named_const(ctx, size, name);
  struct hdr *h = H(p); struct hdr *n = symx_malloc(sizeof *n + size); if (!n) return 0; *n = *h; n->size = size; if (!(size < h->size && h->size - size < 1024)) n->name = name; /* as talloc: small shrinks keep the name */
  if (n->prev) n->prev->next = n; else if (n->parent) n->parent->child = n; if (n->next) n->next->prev = n; for (struct hdr *c = n->child; c; c = c->next) c->parent = n;
  memcpy(P(n), p, h->size < size ? h->size : size); h->magic = 0; symx_free(h); return P(n); }
void *_talloc_realloc_array(const void *ctx, void *p, size_t el, unsigned n, const char *name) { if (el && n >= MAXSZ / el) return 0; return _talloc_realloc(ctx, p, el * n, name); }
void *_talloc_steal_loc(const void *nc, const void *p, const char *loc) { (void)loc; if (!p) return 0; struct hdr *h = H(p), *n = nc ? H(nc) : 0; if (h == n || h->parent == n) return (void *)p; unlink_(h); link_(h, n); return (void *)p; }
void *_talloc_move(const void *nc, const void *pp) { const void **q = (const void **)pp; void *r = _talloc_steal_loc(nc, *q, ""); *q = 0; return r; }
void _talloc_set_destructor(const void *p, int (*d)(void *)) { H(p)->dtor = d; }
size_t talloc_get_size(const void *p) { return p ? H(p)->size : 0; }
const char *talloc_get_name(const void *p) { return H(p)->name; }
void talloc_set_name_const(const void *p, const char *name) { H(p)->name = name; }
void *talloc_check_name(const void *p, const char *name) { if (!p) return 0; struct hdr *h = H(p); return h->name && (h->name == name || strcmp(h->name, name) == 0) ? (void *)p : 0; }
void *_talloc_get_type_abort(const void *p, const char *name, const char *loc) { (void)loc; if (!p) symx_fail("talloc: get_type_abort on NULL"); void *r = talloc_check_name(p, name); if (!r) symx_fail("talloc: type mismatch"); return r; }
void *talloc_parent(const void *p) { struct hdr *h = p ? H(p) : 0; return h && h->parent ? P(h->parent) : 0; }
static size_t tsz(struct hdr *h) { size_t n = h->size; for (struct hdr *c = h->child; c; c = c->next) n += tsz(c); return n; }
static size_t tbl(struct hdr *h) { size_t n = 1; for (struct hdr *c = h->child; c; c = c->next) n += tbl(c); return n; }
size_t talloc_total_size(const void *p) { return p ? tsz(H(p)) : 0; }
size_t talloc_total_blocks(const void *p) { return p ? tbl(H(p)) : 0; }
char *talloc_strndup(const void *t, const char *p, size_t n) { if (!p) return 0; n = strnlen(p, n); char *r = talloc_named_const(t, n + 1, "s"); if (!r) return 0; memcpy(r, p, n); r[n] = 0; H(r)->name = r; return r; }
char *talloc_strdup(const void *t, const char *p) { if (!p) return 0; size_t n = strlen(p); char *r = talloc_named_const(t, n + 1, "s"); if (!r) return 0; memcpy(r, p, n + 1); H(r)->name = r; return r; }
static char *appendn(char *s, size_t sl, const char *a, size_t n) { char *r = _talloc_realloc(0, s, sl + n + 1, "s"); if (!r) return 0; memcpy(r + sl, a, n); r[sl + n] = 0; H(r)->name = r; return r; }
char *talloc_strdup_append(char *s, const char *a) { if (!s) return talloc_strdup(0, a); if (!a) return s; return appendn(s, strlen(s), a, strlen(a)); }
char *talloc_strdup_append_buffer(char *s, const char *a) { if (!s) return talloc_strdup(0, a); if (!a) return s; size_t sl = talloc_get_size(s); return appendn(s, sl ? sl - 1 : 0, a, strlen(a)); }
char *talloc_strndup_append(char *s, const char *a, size_t n) { if (!s) return talloc_strndup(0, a, n); if (!a) return s; return appendn(s, strlen(s), a, strnlen(a, n)); }
char *talloc_strndup_append_buffer(char *s, const char *a, size_t n) { if (!s) return talloc_strndup(0, a, n); if (!a) return s; size_t sl = talloc_get_size(s); return appendn(s, sl ? sl - 1 : 0, a, strnlen(a, n)); }
char *talloc_vasprintf(const void *t, const char *f, va_list ap) { va_list a2; va_copy(a2, ap); char c; int n = vsnprintf(&c, 1, f, a2); va_end(a2); char *r = talloc_named_const(t, n + 1, "s"); if (!r) return 0; va_copy(a2, ap); vsnprintf(r, n + 1, f, a2); va_end(a2); H(r)->name = r; return r; }
char *talloc_asprintf(const void *t, const char *f, ...) { va_list ap; va_start(ap, f); char *r = talloc_vasprintf(t, f, ap); va_end(ap); return r; }
static char *vapp(char *s, size_t sl, const char *f, va_list ap) { va_list a2; va_copy(a2, ap); char c; int n = vsnprintf(&c, 1, f, a2); va_end(a2); if (n <= 0) return s; char *r = _talloc_realloc(0, s, sl + n + 1, "s"); if (!r) return 0; va_copy(a2, ap); vsnprintf(r + sl, n + 1, f, a2); va_end(a2); H(r)->name = r; return r; }
char *talloc_vasprintf_append(char *s, const char *f, va_list ap) { if (!s) return talloc_vasprintf(0, f, ap); return vapp(s, strlen(s), f, ap); }
char *talloc_vasprintf_append_buffer(char *s, const char *f, va_list ap) { if (!s) return talloc_vasprintf(0, f, ap); size_t sl = talloc_get_size(s); return vapp(s, sl ? sl - 1 : 0, f, ap); }
char *talloc_asprintf_append(char *s, const char *f, ...) { va_list ap; va_start(ap, f); char *r = talloc_vasprintf_append(s, f, ap); va_end(ap); return r; }
char *talloc_asprintf_append_buffer(char *s, const char *f, ...) { va_list ap; va_start(ap, f); char *r = talloc_vasprintf_append_buffer(s, f, ap); va_end(ap); return r; }
int _talloc_unlink(const void *c, void *p) { (void)c; return _talloc_free(p, ""); }
int talloc_unlink(const void *c, void *p) { (void)c; return _talloc_free(p, ""); }
void *talloc_init(const char *f, ...) { (void)f; return talloc_named_const(0, 0, "init"); }
