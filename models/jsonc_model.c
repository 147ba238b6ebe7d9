/* Model of the part of json-c 0.17 the library and the harnesses use: reference counted trees, insertion-ordered objects, and a tokener for standard JSON
   (json-c's extensions, such as comments or single quotes, are not modelled and the harnesses do not write them). */
#include <json.h>
#include <stdlib.h>
#include <string.h>
#include "symx.h"
struct json_object { int rc; enum json_type t; int64_t i; double d; char *s; size_t n; struct lh_table tab; struct json_object **a; size_t cap; };
static struct json_object *mk(enum json_type t) { struct json_object *o = calloc(1, sizeof *o); o->rc = 1; o->t = t; return o; }
int symx_json_live;
struct json_object *json_object_new_boolean(json_bool b) { struct json_object *o = mk(json_type_boolean); o->i = b; return o; }
struct json_object *json_object_new_int64(int64_t i) { struct json_object *o = mk(json_type_int); o->i = i; return o; }
struct json_object *json_object_new_double(double d) { struct json_object *o = mk(json_type_double); o->d = d; return o; }
struct json_object *json_object_new_string_len(const char *s, const int n) { struct json_object *o = mk(json_type_string); o->s = malloc((size_t) n + 1); memcpy(o->s, s, (size_t) n); o->s[n] = 0; o->n = (size_t) n; return o; }
struct json_object *json_object_new_string(const char *s) { return json_object_new_string_len(s, (int) strlen(s)); }
struct json_object *json_object_new_object(void) { return mk(json_type_object); }
struct json_object *json_object_new_array(void) { return mk(json_type_array); }
struct json_object *json_object_get(struct json_object *o) { if (o) o->rc++; return o; }
int json_object_put(struct json_object *o) { if (!o) return 0; if (o->rc <= 0) symx_fail("json reference count"); if (--o->rc) return 0;
    for (struct lh_entry *e = o->tab.head; e;) { struct lh_entry *x = e->next; json_object_put((struct json_object *) e->v); free((void *) e->k); free(e); e = x; }
    for (size_t i = 0; i < o->n && o->t == json_type_array; i++) json_object_put(o->a[i]); free(o->a); free(o->s); free(o); return 1; }
enum json_type json_object_get_type(const struct json_object *o) { return o ? o->t : json_type_null; }
int json_object_is_type(const struct json_object *o, enum json_type t) { return json_object_get_type(o) == t; }
json_bool json_object_get_boolean(const struct json_object *o) { return o && (o->t == json_type_string ? o->n != 0 : o->t == json_type_double ? o->d != 0 : o->i != 0); }
int64_t json_object_get_int64(const struct json_object *o) { return o && (o->t == json_type_int || o->t == json_type_boolean) ? o->i : o && o->t == json_type_double ? (int64_t) o->d : 0; }
int json_object_get_int(const struct json_object *o) { int64_t v = json_object_get_int64(o); return v > 2147483647 ? 2147483647 : v < -2147483647 - 1 ? -2147483647 - 1 : (int) v; }
uint64_t json_object_get_uint64(const struct json_object *o) { int64_t v = json_object_get_int64(o); return v < 0 ? 0 : (uint64_t) v; }
double json_object_get_double(const struct json_object *o) { return o && o->t == json_type_double ? o->d : o ? (double) o->i : 0; }
const char *json_object_get_string(struct json_object *o) { if (o && o->t != json_type_string) symx_fail("model: text of a json value that is not a string"); return o ? o->s : NULL; }
int json_object_get_string_len(const struct json_object *o) { return o && o->t == json_type_string ? (int) o->n : 0; }
struct lh_table *json_object_get_object(const struct json_object *o) { return o && o->t == json_type_object ? (struct lh_table *) &o->tab : NULL; }
int json_object_object_length(const struct json_object *o) { return o->tab.count; }
static struct lh_entry *ent(const struct json_object *o, const char *k) { for (struct lh_entry *e = o->tab.head; e; e = e->next) if (!strcmp((const char *) e->k, k)) return e; return NULL; }
json_bool json_object_object_get_ex(const struct json_object *o, const char *k, struct json_object **v) { if (v) *v = NULL; if (!o || o->t != json_type_object) return 0; struct lh_entry *e = ent(o, k); if (e && v) *v = (struct json_object *) e->v; return e != NULL; }
struct json_object *json_object_object_get(const struct json_object *o, const char *k) { struct json_object *v; json_object_object_get_ex(o, k, &v); return v; }
int json_object_object_add(struct json_object *o, const char *k, struct json_object *v) { struct lh_entry *e = ent(o, k); if (e) { json_object_put((struct json_object *) e->v); e->v = v; return 0; } e = calloc(1, sizeof *e); e->k = strdup(k); e->v = v; e->prev = o->tab.tail; if (o->tab.tail) o->tab.tail->next = e; else o->tab.head = e; o->tab.tail = e; o->tab.count++; return 0; }
void json_object_object_del(struct json_object *o, const char *k) { struct lh_entry *e = ent(o, k); if (!e) return; if (e->prev) e->prev->next = e->next; else o->tab.head = e->next; if (e->next) e->next->prev = e->prev; else o->tab.tail = e->prev; o->tab.count--; json_object_put((struct json_object *) e->v); free((void *) e->k); free(e); }
size_t json_object_array_length(const struct json_object *o) { return o->n; }
struct json_object *json_object_array_get_idx(const struct json_object *o, size_t i) { return o && o->t == json_type_array && i < o->n ? o->a[i] : NULL; }
int json_object_array_add(struct json_object *o, struct json_object *v) { if (o->n == o->cap) { o->cap = o->cap * 2 + 4; o->a = realloc(o->a, o->cap * sizeof *o->a); } o->a[o->n++] = v; return 0; }
int json_object_array_put_idx(struct json_object *o, size_t i, struct json_object *v) { if (i >= o->n) return -1; json_object_put(o->a[i]); o->a[i] = v; return 0; }
/* tokener */
static const char *p, *e; static enum json_tokener_error er;
static struct json_object *stop(enum json_tokener_error x) { if (er == json_tokener_success) er = x; return NULL; }
static int end(void) { if (p == e) { stop(json_tokener_continue); return 1; } if (!*p) { stop(json_tokener_error_parse_eof); return 1; } return 0; }
static void ws(void) { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) p++; }
static unsigned hex4(void) { unsigned v = 0; for (int i = 0; i < 4; i++) { if (end()) return 0; int c = (unsigned char) *p++; if (c >= '0' && c <= '9') c -= '0'; else if (c >= 'a' && c <= 'f') c -= 'a' - 10; else if (c >= 'A' && c <= 'F') c -= 'A' - 10; else { stop(json_tokener_error_parse_string); return 0; } v = v * 16 + (unsigned) c; } return v; }
static size_t utf8(char *b, unsigned u) { if (u < 0x80) { b[0] = (char) u; return 1; } if (u < 0x800) { b[0] = (char) (0xc0 | u >> 6); b[1] = (char) (0x80 | (u & 63)); return 2; } if (u < 0x10000) { b[0] = (char) (0xe0 | u >> 12); b[1] = (char) (0x80 | (u >> 6 & 63)); b[2] = (char) (0x80 | (u & 63)); return 3; } b[0] = (char) (0xf0 | u >> 18); b[1] = (char) (0x80 | (u >> 12 & 63)); b[2] = (char) (0x80 | (u >> 6 & 63)); b[3] = (char) (0x80 | (u & 63)); return 4; }
static char *str(size_t *n) { char *b = malloc((size_t) (e - p) * 3 + 4); *n = 0; p++;
    for (;;) { if (end()) { free(b); return NULL; } char c = *p++; if (c == '"') break; if (c != '\\') { b[(*n)++] = c; continue; } if (end()) { free(b); return NULL; } c = *p++;
        switch (c) { case 'b': b[(*n)++] = '\b'; break; case 'n': b[(*n)++] = '\n'; break; case 'r': b[(*n)++] = '\r'; break; case 't': b[(*n)++] = '\t'; break; case 'f': b[(*n)++] = '\f'; break; case '"': case '\\': case '/': b[(*n)++] = c; break;
            case 'u': { unsigned u = hex4(); if (er) { free(b); return NULL; } if (u >= 0xd800 && u < 0xdc00 && e - p >= 6 && p[0] == '\\' && p[1] == 'u') { p += 2; unsigned l = hex4(); if (er) { free(b); return NULL; } u = l >= 0xdc00 && l < 0xe000 ? 0x10000 + ((u & 0x3ff) << 10 | (l & 0x3ff)) : 0xfffd; } else if (u >= 0xd800 && u < 0xe000) u = 0xfffd; *n += utf8(b + *n, u); break; }
            default: stop(json_tokener_error_parse_string); free(b); return NULL; } }
    b[*n] = 0; return b; }
static int word(const char *w) { for (; *w; w++) { if (end()) return 0; if (*p++ != *w) { stop(*w == 'n' ? json_tokener_error_parse_null : json_tokener_error_parse_boolean); return 0; } } return 1; }
static struct json_object *val(int depth) {
    ws(); if (end()) return NULL; if (depth > 31) return stop(json_tokener_error_depth);
    switch (*p) {
        case '{': { p++; struct json_object *o = json_object_new_object(); for (int first = 1;; first = 0) { ws(); if (end()) break; if (*p == '}') { p++; return o; } if (!first) { } if (*p != '"') { stop(json_tokener_error_parse_object_key_name); break; } size_t n; char *k = str(&n); if (!k) break; ws(); if (end()) { free(k); break; } if (*p != ':') { stop(json_tokener_error_parse_object_key_sep); free(k); break; } p++; struct json_object *v = val(depth + 1); if (er) { free(k); break; } json_object_object_add(o, k, v); free(k); ws(); if (end()) break; if (*p == '}') { p++; return o; } if (*p != ',') { stop(json_tokener_error_parse_object_value_sep); break; } p++; } json_object_put(o); return NULL; }
        case '[': { p++; struct json_object *o = json_object_new_array(); for (;;) { ws(); if (end()) break; if (*p == ']') { p++; return o; } struct json_object *v = val(depth + 1); if (er) break; json_object_array_add(o, v); ws(); if (end()) break; if (*p == ']') { p++; return o; } if (*p != ',') { stop(json_tokener_error_parse_array); break; } p++; } json_object_put(o); return NULL; }
        case '"': { size_t n; char *b = str(&n); if (!b) return NULL; struct json_object *o = json_object_new_string_len(b, (int) n); free(b); return o; }
        case 't': return word("true") ? json_object_new_boolean(1) : NULL; case 'f': return word("false") ? json_object_new_boolean(0) : NULL; case 'n': word("null"); return NULL;
        default: { char b[64]; size_t n = 0; int dbl = 0; while (p < e && n < 60 && (*p >= '0' && *p <= '9' || *p == '-' || *p == '+' || *p == '.' || *p == 'e' || *p == 'E')) { dbl |= *p == '.' || *p == 'e' || *p == 'E'; b[n++] = *p++; } b[n] = 0; if (!n) return stop(json_tokener_error_parse_unexpected); if (p == e) return stop(json_tokener_continue); if (dbl) return json_object_new_double(strtod(b, NULL)); return json_object_new_int64(strtol(b, NULL, 10)); } } }
struct json_tokener *json_tokener_new(void) { return calloc(1, sizeof(struct json_tokener)); }
void json_tokener_free(struct json_tokener *t) { free(t->str); free(t); }
void json_tokener_set_flags(struct json_tokener *t, int f) { t->flags = f; }
size_t json_tokener_get_parse_end(struct json_tokener *t) { return (size_t) t->char_offset; }
enum json_tokener_error json_tokener_get_error(struct json_tokener *t) { return t->err; }
/* after "continue" the next call goes on: the text so far is kept and read again */
struct json_object *json_tokener_parse_ex(struct json_tokener *t, const char *s, int n) {
    size_t l = n < 0 ? strlen(s) + 1 : (size_t) n, old = t->err == json_tokener_continue ? (size_t) t->st_pos : 0; char *b = malloc(old + l + 1); if (old) memcpy(b, t->str, old); memcpy(b + old, s, l); p = b; e = b + old + l; er = json_tokener_success;
    struct json_object *o = val(0); if (!er) ws(); if (!er && (t->flags & JSON_TOKENER_STRICT) && p < e && *p) { json_object_put(o); o = NULL; er = json_tokener_error_parse_unexpected; } t->err = er; t->char_offset = (int) ((size_t) (p - b) < old ? 0 : (size_t) (p - b) - old); free(t->str); t->str = b; t->st_pos = (int) (old + l); return o; }
struct json_object *json_tokener_parse_verbose(const char *s, enum json_tokener_error *x) { struct json_tokener *t = json_tokener_new(); struct json_object *o = json_tokener_parse_ex(t, s, -1); *x = t->err; json_tokener_free(t); return o; }
struct json_object *json_tokener_parse(const char *s) { enum json_tokener_error x; return json_tokener_parse_verbose(s, &x); }
const char *json_tokener_error_desc(enum json_tokener_error x) { return x == json_tokener_continue ? "continue" : "malformed"; }
