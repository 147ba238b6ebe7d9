/* Model values: a plain description of a value, how to build it with the library, and what it must print. */
#ifndef MV_H
#define MV_H
#include "h.h"
enum { MV_NULL, MV_TRUE, MV_FALSE, MV_INT, MV_FLT, MV_STR, MV_ARR, MV_MAP, MV_HLP };
typedef struct mv { int t; long i; double d; const char *dt; char s[12]; size_t n; bool safe; struct mv *k[6]; unsigned kn; const char *key[6]; int hole; const char *big; } mv;   /* big: the bytes of a string that does not fit s */
#define MVS(m) ((m)->big ? (m)->big : (m)->s)
//   /* hole: an entry is added and removed again after that many */
#ifndef OUTMAX
#define OUTMAX 8192
#endif
typedef struct { char b[OUTMAX]; size_t n; } out;
static inline void o_c(out *o, char c) { if (o->n < OUTMAX - 1) o->b[o->n++] = c; }
static inline void o_n(out *o, const char *s, size_t n) { for (size_t i = 0; i < n; i++) o_c(o, s[i]); }
static inline void o_s(out *o, const char *s) { o_n(o, s, strlen(s)); }
/* & < > " ' ` are escaped and nothing else */
static inline void o_esc(out *o, const char *s, size_t n) {
    for (size_t i = 0; i < n; i++) { char c = s[i];
        if (c == '&') o_s(o, "&amp;"); else if (c == '<') o_s(o, "&lt;"); else if (c == '>') o_s(o, "&gt;"); else if (c == '"') o_s(o, "&quot;"); else if (c == '\'') o_s(o, "&#x27;"); else if (c == '`') o_s(o, "&#x60;"); else o_c(o, c); }
}
static inline void o_int(out *o, long v) { char t[24]; int n = 0; unsigned long u = v < 0 ? 0UL - (unsigned long) v : (unsigned long) v; if (v < 0) o_c(o, '-'); do { t[n++] = (char) ('0' + u % 10); u /= 10; } while (u); while (n) o_c(o, t[--n]); }
static inline void mv_print(const mv *m, bool esc, out *o) {
    switch (m->t) {
    case MV_TRUE: o_s(o, "true"); break; case MV_FALSE: o_s(o, "false"); break; case MV_INT: o_int(o, m->i); break; case MV_FLT: o_s(o, m->dt); break;
    case MV_STR: if (esc && !m->safe) o_esc(o, MVS(m), m->n); else o_n(o, MVS(m), m->n); break;
    case MV_ARR: for (unsigned i = 0; i < m->kn; i++) { if (i) o_c(o, ','); mv_print(m->k[i], esc, o); } break;
    default: break; }
}
static inline bool mv_empty(const mv *m) {
    switch (m->t) { case MV_TRUE: return false; case MV_INT: return m->i == 0; case MV_FLT: return m->d == 0; case MV_STR: return m->n == 0 || (m->n == 1 && MVS(m)[0] == '0'); case MV_ARR: case MV_MAP: return m->kn == 0; default: return true; }
}
static handlebars_helper_func mv_hlp;   /* what a callable model value does */
static inline V *mv_helper(int argc, V *argv, struct handlebars_options *options, struct handlebars_vm *vm, V *rv) { return mv_hlp ? mv_hlp(argc, argv, options, vm, rv) : rv; }
static inline void mv_set(C *c, V *v, const mv *m) {
    switch (m->t) {
    case MV_NULL: handlebars_value_null(v); break; case MV_TRUE: case MV_FALSE: handlebars_value_boolean(v, m->t == MV_TRUE); break;
    case MV_INT: handlebars_value_integer(v, m->i); break; case MV_FLT: handlebars_value_float(v, m->d); break;
    case MV_STR: handlebars_value_str(v, handlebars_string_ctor(c, MVS(m), m->n)); if (m->safe) handlebars_value_set_flag(v, HANDLEBARS_VALUE_FLAG_SAFE_STRING); break;
    case MV_ARR: { K *st = handlebars_stack_ctor(c, m->kn); handlebars_stack_addref(st); for (unsigned i = 0; i < m->kn; i++) { V *e = h_val(c); mv_set(c, e, m->k[i]); st = handlebars_stack_push(st, e); handlebars_value_dtor(e); talloc_free(e); } handlebars_value_array(v, st); handlebars_stack_delref(st); break; }
    case MV_MAP: { M *mp = handlebars_map_ctor(c, m->kn); handlebars_map_addref(mp); for (unsigned i = 0; i < m->kn; i++) { if (m->hole && (unsigned) m->hole == i + 1) { V *e = h_vint(c, 7); mp = handlebars_map_update(mp, h_str(c, "gone"), e); } V *e = h_val(c); mv_set(c, e, m->k[i]); S *k = h_str(c, m->key[i]); mp = handlebars_map_update(mp, k, e); handlebars_value_dtor(e); talloc_free(e); } if (m->hole) mp = handlebars_map_remove(mp, h_str(c, "gone")); handlebars_value_map(v, mp); handlebars_map_delref(mp); break; }
    case MV_HLP: handlebars_value_helper(v, mv_helper); break; }
}
static inline V *mv_val(C *c, const mv *m) { V *v = h_val(c); mv_set(c, v, m); return v; }
static inline int out_is(const out *o, S *s) { return s && h_eqn(o->b, o->n, hbs_str_val(s), hbs_str_len(s)); }
#endif
