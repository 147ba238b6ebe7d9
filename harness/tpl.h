/* Template model: expressions and nodes are built by harness generators, written out as template text, and evaluated by a reference interpreter
   over model values (mv.h). The reference is written from the language description, not from the library's code. */
#ifndef TPL_H
#define TPL_H
#include "mv.h"
enum { E_PATH, E_DATA, E_INT, E_STR, E_TRUE, E_FALSE, E_NULL, E_UNDEF, E_CALL, E_FLT };
enum { SC_NONE, SC_THIS, SC_DOT };                      /* plain, this.x, ./x */
enum { F_ESC, F_RAW, F_AMP };                           /* {{ }}, {{{ }}}, {{& }} */
enum { N_TEXT, N_MUS, N_COM, N_BLK, N_INV, N_PART, N_PBLK, N_RAWB };
typedef struct ex { int k, up, scope, sep; const char *seg[4]; int ns; long i; const char *s; size_t sn; const char *fn; struct ex *arg[4]; int na; const char *hk[3]; struct ex *hv[3]; int nh; bool br; double d; } ex;
typedef struct nd { int k, form; const char *t; size_t tn; ex *e; struct nd *body[200]; int nb; struct nd *inv[8]; int ni; bool has_inv, chain; const char *bp[2]; int nbp; const char *pre, *post; const char *indent; } nd;
static ex ex_pool[1024]; static int ex_n; static nd nd_pool[1024]; static int nd_n; static mv mv_pool[2048]; static int mv_n;
static inline ex *mk_ex(int k) { ex *e = &ex_pool[ex_n++]; memset(e, 0, sizeof *e); e->k = k; return e; }
static inline nd *mk_nd(int k) { nd *n = &nd_pool[nd_n++]; memset(n, 0, sizeof *n); n->k = k; return n; }
static inline mv *mk_mv(int t) { mv *m = &mv_pool[mv_n++]; memset(m, 0, sizeof *m); m->t = t; return m; }
static inline mv *m_str(const char *s) { mv *m = mk_mv(MV_STR); m->n = strlen(s); memcpy(m->s, s, m->n); return m; }
static inline mv *m_int(long i) { mv *m = mk_mv(MV_INT); m->i = i; return m; }
static inline mv *m_bool(bool b) { return mk_mv(b ? MV_TRUE : MV_FALSE); }
static inline mv *m_add(mv *c, const char *key, mv *v) { c->key[c->kn] = key; c->k[c->kn++] = v; return c; }
static inline ex *x_path(int up, int ns, const char *a, const char *b, const char *c) { ex *e = mk_ex(E_PATH); e->up = up; e->ns = ns; e->seg[0] = a; e->seg[1] = b; e->seg[2] = c; return e; }
static inline ex *x_id(const char *a) { return x_path(0, 1, a, 0, 0); }
static inline ex *x_this(void) { return x_path(0, 0, 0, 0, 0); }
static inline ex *x_data(int up, const char *a) { ex *e = mk_ex(E_DATA); e->up = up; e->ns = 1; e->seg[0] = a; return e; }
static inline ex *x_int(long i) { ex *e = mk_ex(E_INT); e->i = i; return e; }
static inline ex *x_str(const char *s, size_t n) { ex *e = mk_ex(E_STR); e->s = s; e->sn = n; return e; }
static inline ex *x_flt(double d, const char *s) { ex *e = mk_ex(E_FLT); e->d = d; e->s = s; return e; }
static inline ex *x_call(const char *fn) { ex *e = mk_ex(E_CALL); e->fn = fn; return e; }
static inline ex *x_arg(ex *c, ex *a) { c->arg[c->na++] = a; return c; }
static inline ex *x_hash(ex *c, const char *k, ex *v) { c->hk[c->nh] = k; c->hv[c->nh++] = v; return c; }
static inline nd *n_text(const char *t) { nd *n = mk_nd(N_TEXT); n->t = t; n->tn = strlen(t); return n; }
static inline nd *n_mus(ex *e) { nd *n = mk_nd(N_MUS); n->e = e; return n; }
static inline nd *n_blk(ex *e) { nd *n = mk_nd(N_BLK); n->e = e; return n; }
static inline nd *n_body(nd *n, nd *b) { n->body[n->nb++] = b; return n; }
static inline nd *n_else(nd *n, nd *b) { n->has_inv = true; if (b) n->inv[n->ni++] = b; return n; }
static inline nd *n_bp(nd *n, const char *a, const char *b) { n->bp[0] = a; n->bp[1] = b; n->nbp = b ? 2 : 1; return n; }

/* ---- writing the template text ---- */
typedef struct { char b[OUTMAX]; size_t n; const char *op, *cl; } tb;
static inline void t_c(tb *t, char c) { if (t->n < sizeof t->b - 1) t->b[t->n++] = c; }
static inline void t_n(tb *t, const char *s, size_t n) { for (size_t i = 0; i < n; i++) t_c(t, s[i]); }
static inline void t_s(tb *t, const char *s) { t_n(t, s, strlen(s)); }
static inline void t_int(tb *t, long v) { out o; o.n = 0; o_int(&o, v); t_n(t, o.b, o.n); }
static inline void t_op(tb *t) { t_s(t, t->op ? t->op : "{{"); }
static inline void t_cl(tb *t) { t_s(t, t->cl ? t->cl : "}}"); }
static void t_ex(tb *t, const ex *e, bool sub) {
    switch (e->k) {
    case E_PATH: case E_DATA: {
        if (e->k == E_DATA) t_c(t, '@');
        for (int i = 0; i < e->up; i++) { t_s(t, ".."); if (i + 1 < e->up || e->ns) t_c(t, '/'); }
        if (!e->up && e->k == E_PATH) { if (!e->ns) t_s(t, e->scope == SC_DOT ? "." : "this"); else if (e->scope == SC_THIS) t_s(t, e->sep == '/' ? "this/" : "this."); else if (e->scope == SC_DOT) t_s(t, "./"); }
        for (int i = 0; i < e->ns; i++) { if (i) t_c(t, e->sep == '/' ? '/' : '.'); if (e->br || (e->seg[i][0] >= '0' && e->seg[i][0] <= '9' && 0)) { t_c(t, '['); t_s(t, e->seg[i]); t_c(t, ']'); } else t_s(t, e->seg[i]); }
        break; }
    case E_INT: t_int(t, e->i); break; case E_FLT: t_s(t, e->s); break;
    case E_STR: t_c(t, e->i ? '\'' : '"'); for (size_t i = 0; i < e->sn; i++) { if (e->s[i] == (e->i ? '\'' : '"')) t_c(t, '\\'); t_c(t, e->s[i]); } t_c(t, e->i ? '\'' : '"'); break;
    case E_TRUE: t_s(t, "true"); break; case E_FALSE: t_s(t, "false"); break; case E_NULL: t_s(t, "null"); break; case E_UNDEF: t_s(t, "undefined"); break;
    case E_CALL: if (sub) t_c(t, '('); t_s(t, e->fn); for (int i = 0; i < e->na; i++) { t_c(t, ' '); t_ex(t, e->arg[i], true); } for (int i = 0; i < e->nh; i++) { t_c(t, ' '); t_s(t, e->hk[i]); t_c(t, '='); t_ex(t, e->hv[i], true); } if (sub) t_c(t, ')'); break;
    }
}
static inline const char *t_name(const ex *e, char *buf) { tb t; t.n = 0; t.op = t.cl = 0; if (e->k == E_CALL) return e->fn; t_ex(&t, e, false); memcpy(buf, t.b, t.n); buf[t.n] = 0; return buf; }
static void t_nodes(tb *t, nd *const *b, int n);
static void t_bp(tb *t, const nd *n) { if (n->nbp) { t_s(t, " as |"); t_s(t, n->bp[0]); if (n->nbp > 1) { t_c(t, ' '); t_s(t, n->bp[1]); } t_c(t, '|'); } }
static void t_inv(tb *t, const nd *n) {
    if (!n->has_inv) return;
    if (n->chain) { const nd *c = n->inv[0]; t_op(t); t_s(t, "else "); t_ex(t, c->e, false); t_bp(t, c); t_cl(t); t_nodes(t, c->body, c->nb); t_inv(t, c); return; }
    t_op(t); t_s(t, n->form == 1 ? "^" : "else"); t_cl(t); t_nodes(t, n->inv, n->ni);
}
/* partial tag contents; form 1: the name is given by the subexpression arg[0] */
static void t_pargs(tb *t, const nd *n) { const ex *e = n->e; if (n->form != 1) { t_ex(t, e, false); return; } t_ex(t, e->arg[0], true); if (e->na > 1) { t_c(t, ' '); t_ex(t, e->arg[1], true); } for (int i = 0; i < e->nh; i++) { t_c(t, ' '); t_s(t, e->hk[i]); t_c(t, '='); t_ex(t, e->hv[i], true); } }
static void t_node(tb *t, const nd *n) {
    char buf[64];
    switch (n->k) {
    case N_TEXT: t_n(t, n->t, n->tn); break;
    case N_MUS: if (n->form == F_RAW) { t_s(t, "{{{"); t_ex(t, n->e, false); t_s(t, "}}}"); } else { t_op(t); if (n->form == F_AMP) t_c(t, '&'); t_ex(t, n->e, false); t_cl(t); } break;
    case N_COM: t_op(t); t_c(t, '!'); t_n(t, n->t, n->tn); t_cl(t); break;
    case N_BLK: case N_INV: t_op(t); t_c(t, n->k == N_BLK ? '#' : '^'); t_ex(t, n->e, false); t_bp(t, n); t_cl(t); t_nodes(t, n->body, n->nb); t_inv(t, n); t_op(t); t_c(t, '/'); t_s(t, t_name(n->e, buf)); t_cl(t); break;
    case N_PART: if (n->indent) t_s(t, n->indent); t_op(t); t_s(t, "> "); t_pargs(t, n); t_cl(t); if (n->indent) t_c(t, '\n'); break;
    case N_PBLK: t_op(t); t_s(t, "#> "); t_pargs(t, n); t_cl(t); t_nodes(t, n->body, n->nb); t_op(t); t_c(t, '/'); t_s(t, t_name(n->e, buf)); t_cl(t); break;
    case N_RAWB: t_s(t, "{{{{"); t_ex(t, n->e, false); t_s(t, "}}}}"); t_n(t, n->t, n->tn); t_s(t, "{{{{/"); t_s(t, t_name(n->e, buf)); t_s(t, "}}}}"); break;
    }
}
static void t_nodes(tb *t, nd *const *b, int n) { for (int i = 0; i < n; i++) t_node(t, b[i]); }

/* ---- reference interpreter ---- */
typedef struct cf { const mv *v; struct cf *up; } cf;
typedef struct bpf { const char *n[2]; const mv *v[2]; struct bpf *up; } bpf;
typedef struct fr { const mv *index, *key, *first, *last; const mv *user; struct fr *up; } fr;
struct pb;
typedef struct env { cf *c; const mv *root; bpf *b; fr *d; struct pb *p; int lvl; } env;
typedef struct pb { const nd *n; bpf *b; struct pb *up; } pb;
static const mv MNULL = { MV_NULL };
static struct { const char *name; nd *n[6]; int nn; } parts[6]; static int nparts;   /* registered partials */
static bool ref_error; static const char *ref_msg; static bool ref_nobuiltin;   /* every name is the harness's */
static unsigned long tpl_flags;
static bool mv_same(const mv *a, const mv *b) { if (a == b) return true; if (a->t != b->t) return false; switch (a->t) { case MV_INT: return a->i == b->i; case MV_FLT: return a->d == b->d; case MV_STR: return h_eqn(a->s, a->n, b->s, b->n); case MV_ARR: case MV_MAP: return false; default: return true; } }
static const mv *step(const mv *v, const char *k) {
    if (v->t == MV_MAP) { for (unsigned i = 0; i < v->kn; i++) if (h_eqn(v->key[i], strlen(v->key[i]), k, strlen(k))) return v->k[i]; return &MNULL; }
    if (v->t == MV_ARR) { unsigned long x = 0; if (!*k) return &MNULL; for (const char *p = k; *p; p++) { if (*p < '0' || *p > '9') return &MNULL; x = x * 10 + (unsigned long) (*p - '0'); } return x < v->kn ? v->k[x] : &MNULL; }
    return &MNULL;
}
static const mv *ev(const ex *e, env *n);
static const mv *ref_call(const ex *e, env *n, const nd *blk, out *o);   /* provided by the harness for its own helpers, NULL when unknown */
static const mv *ev_path(const ex *e, env *n) {
    const mv *v = NULL; int i = 0;
    if (!e->up && !e->scope && e->ns) for (bpf *b = n->b; b && !v; b = b->up) for (int j = 0; j < 2; j++) if (b->n[j] && strcmp(b->n[j], e->seg[0]) == 0) { v = b->v[j]; i = 1; break; }
    if (!v) { cf *c = n->c; for (int u = 0; u < e->up && c; u++) c = c->up; v = c ? c->v : &MNULL; 
      if ((tpl_flags & handlebars_compiler_flag_compat) && !e->scope && e->ns && !e->up) { v = &MNULL; for (cf *q = n->c; q; q = q->up) if (q->v->t == MV_MAP) { bool has = false; for (unsigned k = 0; k < q->v->kn; k++) has = has || strcmp(q->v->key[k], e->seg[0]) == 0; if (has) { v = q->v; break; } } } }
    for (; i < e->ns; i++) v = step(v, e->seg[i]);
    return v;
}
static const mv *ev_data(const ex *e, env *n) {
    fr *d = n->d; for (int u = 0; u < e->up && d; u++) d = d->up;
    const mv *v = NULL; const char *k = e->seg[0];
    if (d) { if (!strcmp(k, "index")) v = d->index; else if (!strcmp(k, "key")) v = d->key; else if (!strcmp(k, "first")) v = d->first; else if (!strcmp(k, "last")) v = d->last; 
      if (!v) for (fr *q = d; q && !v; q = NULL) if (q->user) { const mv *u = step(q->user, k); if (u->t != MV_NULL) v = u; } }
    if (!v) v = !strcmp(k, "root") ? n->root : &MNULL;
    for (int i = 1; i < e->ns; i++) v = step(v, e->seg[i]);
    return v;
}
static const mv *ev(const ex *e, env *n) {
    switch (e->k) { case E_PATH: return ev_path(e, n); case E_DATA: return ev_data(e, n); case E_INT: return m_int(e->i); case E_FLT: { mv *m = mk_mv(MV_FLT); m->d = e->d; m->dt = e->s; return m; } case E_STR: { mv *m = mk_mv(MV_STR); memcpy(m->s, e->s, e->sn); m->n = e->sn; return m; } case E_TRUE: return m_bool(true); case E_FALSE: return m_bool(false); case E_CALL: if (!ref_nobuiltin && !strcmp(e->fn, "lookup") && e->na == 2) { const mv *o = ev(e->arg[0], n), *k = ev(e->arg[1], n); char b[24]; if (k->t == MV_INT && o->t == MV_ARR) return k->i >= 0 && (unsigned long) k->i < o->kn ? o->k[k->i] : &MNULL; if (k->t == MV_STR && o->t == MV_MAP) { memcpy(b, k->s, k->n); b[k->n] = 0; return step(o, b); } return &MNULL; } return ref_call(e, n, NULL, NULL); default: return &MNULL; }
}
static void rf_nodes(nd *const *b, int n, env e, out *o);
/* run a block program: body in a (possibly new) context, with its block parameters */
static void rf_prog(const nd *n, bool inv, env e, const mv *ctx, fr *d, const mv *p0, const mv *p1, out *o) {
    cf c; bpf b; if (inv && !n->has_inv) return;
    if (ctx && !mv_same(ctx, e.c->v)) { c.v = ctx; c.up = e.c; e.c = &c; }
    if (d) e.d = d;
    memset(&b, 0, sizeof b); b.up = e.b; if (!inv) for (int i = 0; i < n->nbp; i++) { b.n[i] = n->bp[i]; b.v[i] = i ? (p1 ? p1 : &MNULL) : (p0 ? p0 : &MNULL); } e.b = &b;
    if (inv) rf_nodes(n->inv, n->ni, e, o); else rf_nodes(n->body, n->nb, e, o);
}
static void rf_each(const nd *n, const mv *v, env *e, out *o) {
    if ((v->t != MV_ARR && v->t != MV_MAP) || !v->kn) { rf_prog(n, true, *e, NULL, NULL, NULL, NULL, o); return; }
    for (unsigned i = 0; i < v->kn; i++) { fr f; memset(&f, 0, sizeof f); f.user = e->d ? e->d->user : NULL; f.up = e->d; f.index = m_int(i); f.key = v->t == MV_MAP ? m_str(v->key[i]) : f.index; f.first = m_bool(i == 0); f.last = m_bool(i + 1 == v->kn); rf_prog(n, false, *e, v->k[i], &f, v->k[i], f.key, o); }
}
static bool truthy(const ex *call, const mv *v, env *e) { if (!mv_empty(v)) return true; if (v->t == MV_INT && call) for (int i = 0; i < call->nh; i++) if (!strcmp(call->hk[i], "includeZero") && !mv_empty(ev(call->hv[i], e))) return true; return false; }
static void rf_section(const nd *n0, const mv *v, env *e, out *o) {
    nd t, *n = (nd *) n0;
    if (n0->k == N_INV) { t = *n0; memcpy(t.body, n0->inv, sizeof n0->inv); t.nb = n0->ni; memcpy(t.inv, n0->body, sizeof t.inv); t.ni = n0->nb; t.has_inv = true; n = &t; if (!n0->has_inv) t.nb = 0; }   /* ^ exchanges the two bodies */
    if (v->t == MV_TRUE) rf_prog(n, false, *e, NULL, NULL, NULL, NULL, o);
    else if (mv_empty(v) && v->t != MV_INT) rf_prog(n, true, *e, NULL, NULL, NULL, NULL, o);
    else if (v->t == MV_ARR) rf_each(n, v, e, o);
    else rf_prog(n, false, *e, v, NULL, NULL, NULL, o);
}
static void rf_block(const nd *n, env *e, out *o) {
    const ex *c = n->e;
    if (c->k != E_CALL) { rf_section(n, ev(c, e), e, o); return; }
    if (ref_nobuiltin) { ref_call(c, e, n, o); return; }
    if (!strcmp(c->fn, "if") || !strcmp(c->fn, "unless")) { bool t = truthy(c, ev(c->arg[0], e), e); if (c->fn[0] == 'u') t = !t; rf_prog(n, !t, *e, NULL, NULL, NULL, NULL, o); return; }
    if (!strcmp(c->fn, "each")) { rf_each(n, ev(c->arg[0], e), e, o); return; }
    if (!strcmp(c->fn, "with")) { const mv *v = ev(c->arg[0], e); if (v->t == MV_NULL) rf_prog(n, true, *e, v, NULL, NULL, NULL, o); else rf_prog(n, false, *e, v, NULL, v, NULL, o); return; }
    ref_call(c, e, n, o);
}
static void rf_indent(const char *ind, const out *s, out *o) { for (size_t i = 0; i < s->n; i++) { if (i == 0 || s->b[i - 1] == '\n') o_s(o, ind); o_c(o, s->b[i]); } }
static mv *merge(const mv *c, const ex *call, int from, env *e) {
    if (!call || !call->nh || (c->t != MV_MAP && c->t != MV_NULL)) return (mv *) c;
    mv *m = mk_mv(MV_MAP);
    if (c->t == MV_MAP) for (unsigned i = 0; i < c->kn; i++) m_add(m, c->key[i], c->k[i]);
    (void) from;
    for (int i = 0; i < call->nh; i++) { const mv *v = ev(call->hv[i], e); unsigned j = 0; for (; j < m->kn; j++) if (!strcmp(m->key[j], call->hk[i])) { m->k[j] = (mv *) v; break; } if (j == m->kn) m_add(m, call->hk[i], (mv *) v); }
    return m;
}
/* in Mustache mode the template of an indented partial is indented, not its output */
static nd **indented(nd **b, int n, const char *ind) {
    nd **r = malloc(sizeof *r * (size_t) (n + 1)); size_t il = strlen(ind); bool bol = true;
    for (int i = 0; i < n; i++) {
        nd *c = mk_nd(b[i]->k); *c = *b[i]; r[i] = c;
        if (c->k == N_TEXT) { char *t = malloc(c->tn * (il + 1) + 1); size_t k = 0; for (size_t j = 0; j < c->tn; j++) { if (bol) { memcpy(t + k, ind, il); k += il; } bol = c->t[j] == '\n'; t[k++] = c->t[j]; } t[k] = 0; c->t = t; c->tn = k; }
        else if (c->k == N_PART && c->indent) { size_t l = strlen(c->indent); char *t = malloc(l + il + 1); memcpy(t, ind, il); memcpy(t + il, c->indent, l + 1); c->indent = t; bol = true; }
        else { if (bol) symx_fail("harness: tag at line start in an indented partial"); bol = false; }
    }
    return r;
}
static void rf_partial(const nd *n, env *e, out *o) {
    const ex *c = n->e; const char *name = c->fn; char nb[16];
    if (n->form == 1) { const mv *v = ev(c->arg[0], e); if (v->t == MV_STR) { memcpy(nb, v->s, v->n); nb[v->n] = 0; name = nb; } else name = "\1none"; }
    const mv *ctx = n->form != 1 && c->na ? ev(c->arg[0], e) : (n->form == 1 && c->na > 1) ? ev(c->arg[1], e) : e->c->v;
    ctx = merge(ctx, c, 0, e);
    env e2 = *e; pb p; cf cc;
    if (!mv_same(ctx, e->c->v)) { cc.v = ctx; cc.up = e->c; e2.c = &cc; }
    if (n->k == N_PBLK) { p.n = n; p.b = e->b; p.up = e->p; e2.p = &p; }
    int i; for (i = 0; i < nparts; i++) if (!strcmp(parts[i].name, name)) break;
    if (++e->lvl > 40) { ref_error = true; return; } e2.lvl = e->lvl;
    static out bufs[8]; static int depth; out *b = &bufs[depth++ & 7]; b->n = 0;
    bool tind = n->indent && (tpl_flags & handlebars_compiler_flag_compat);
    if (i < nparts) { e2.b = NULL; rf_nodes(tind ? indented(parts[i].n, parts[i].nn, n->indent) : parts[i].n, parts[i].nn, e2, b); }
    else if (!strcmp(name, "@partial-block") && e->p) { pb *q = e->p; e2.p = q->up; bpf x; memset(&x, 0, sizeof x); x.up = q->b; e2.b = &x; rf_nodes(q->n->body, q->n->nb, e2, b); }
    else if (n->k == N_PBLK) { e2.p = e->p; bpf x; memset(&x, 0, sizeof x); x.up = e->b; e2.b = &x; rf_nodes(n->body, n->nb, e2, b); }
    else if (!(tpl_flags & handlebars_compiler_flag_compat)) { ref_error = true; ref_msg = name; }
    depth--; if (n->indent && !tind) rf_indent(n->indent, b, o); else o_n(o, b->b, b->n);
}
static void rf_node(const nd *n, env *e, out *o) {
    if (ref_error) return;
    switch (n->k) {
    case N_TEXT: o_n(o, n->t, n->tn); break;
    case N_MUS: { const mv *v = ev(n->e, e); if (!ref_error) mv_print(v, n->form == F_ESC && !(tpl_flags & handlebars_compiler_flag_no_escape), o); break; }
    case N_BLK: case N_INV: rf_block(n, e, o); break;
    case N_PART: case N_PBLK: rf_partial(n, e, o); break;
    case N_RAWB: ref_call(n->e, e, n, o); break;
    default: break; }
}
static void rf_nodes(nd *const *b, int n, env e, out *o) { for (int i = 0; i < n && !ref_error; i++) rf_node(b[i], &e, o); }
static out ref_out;
static void ref_run(nd *const *b, int n, const mv *root, const mv *data) { static cf c; static fr f; env e; memset(&e, 0, sizeof e); c.v = root; c.up = NULL; e.c = &c; e.root = root; memset(&f, 0, sizeof f); f.user = data; e.d = data ? &f : NULL; ref_out.n = 0; ref_error = false; ref_msg = NULL; rf_nodes(b, n, e, &ref_out); }

/* ---- running the library on it ---- */
static tb tpl; static C *tctx; static V *tpl_partials, *tpl_helpers, *tpl_data;
static inline V *partials_val(C *c) { M *m = handlebars_map_ctor(c, (size_t) nparts); handlebars_map_addref(m); for (int i = 0; i < nparts; i++) { static tb t; t.n = 0; t.op = t.cl = 0; t_nodes(&t, parts[i].n, parts[i].nn); V *v = h_vstr(c, t.b, t.n); m = handlebars_map_update(m, h_str(c, parts[i].name), v); } V *v = h_val(c); handlebars_value_map(v, m); return v; }
/* returns the rendering, NULL on error (message in the context) */
static S *tpl_render(C *c, const tb *t, V *root) { struct h_opts o = { tpl_flags, tpl_partials, tpl_helpers, tpl_data, NULL }; S *volatile r = NULL; jmp_buf jb; if (handlebars_setjmp_ex(c, &jb)) { HBSCTX(c)->e->jmp = NULL; return NULL; } r = h_render(c, t->b, t->n, root, &o); HBSCTX(c)->e->jmp = NULL; return r; }
static void tpl_check(nd *const *b, int n, const mv *root, const mv *data) {
    if (!tctx) tctx = handlebars_context_ctor(); tpl.n = 0; t_nodes(&tpl, b, n); tpl.b[tpl.n] = 0;
    V *rv = mv_val(tctx, root); tpl_partials = nparts ? partials_val(tctx) : NULL; tpl_data = data ? mv_val(tctx, data) : NULL;
    ref_run(b, n, root, data);
    S *r = tpl_render(tctx, &tpl, rv);
    symx_observe("template", tpl.b, tpl.n);
    if (r) symx_observe("output", hbs_str_val(r), hbs_str_len(r));
    if (ref_error) { CHECK(r == NULL, "an error is reported"); symx_reach("error"); return; }
    CHECK(r != NULL, "rendering succeeds"); symx_observe("expected", ref_out.b, ref_out.n);
    CHECK(out_is(&ref_out, r), "rendered text");
    symx_reach("done");
}
#endif
