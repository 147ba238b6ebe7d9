/* Ownership histories over nv value slots: every operation keeps value semantics, and after the last drop nothing remains allocated.
   params: nv slots, l operations, pre (index of the scripted start state), kinds (0 all operations) */
#include "mv.h"
#include "handlebars_ptr.h"
#include "handlebars_value_handlers.h"
typedef struct nd { char k; unsigned id, n; struct nd *c[6]; char key[6]; } nd;
static nd pool[600]; static unsigned np; static C *ctx; static struct handlebars_vm *vm; static V *sl[4], *tmp; static nd *md[4]; static unsigned nv, ids; static int made, gone; static char small;
static nd *mk(char k) { nd *x = &pool[np++]; x->k = k; x->id = ids++; return x; }
static nd *dup_(nd *a) { nd *x = &pool[np++]; *x = *a; return x; }
struct uu { struct handlebars_user u; unsigned id; };
static V *u_copy(V *v) { (void) v; return NULL; } static void u_dtor(struct handlebars_user *u) { (void) u; gone++; } static enum handlebars_value_type u_type(V *v) { (void) v; return HANDLEBARS_VALUE_TYPE_MAP; }
static V *u_mf(V *v, S *k, V *rv) { (void) v; (void) k; (void) rv; return NULL; } static V *u_af(V *v, size_t i, V *rv) { (void) v; (void) i; (void) rv; return NULL; } static bool u_next(struct handlebars_value_iterator *it) { (void) it; return false; } static bool u_it(struct handlebars_value_iterator *it, V *v) { (void) v; it->next = u_next; return false; } static long u_cnt(V *v) { (void) v; return 0; }
static const struct handlebars_value_handlers uh = { "u", u_copy, u_dtor, NULL, u_type, u_mf, u_af, u_it, NULL, u_cnt };
static V *clo(int localc, V *localv, int argc, V *argv, struct handlebars_options *options, struct handlebars_vm *v, V *rv) { (void) argc; (void) argv; (void) options; (void) v; if (localc > 0) handlebars_value_value(rv, localv); return rv; }
static void pn(const nd *a, out *o) { if (!a) { o_c(o, '0'); return; } o_c(o, a->k); switch (a->k) { case 's': o_int(o, a->id); for (unsigned i = 0; i < a->n; i++) o_c(o, a->key[i]); break; case 'l': for (unsigned i = 0; i < a->n; i++) { pn(a->c[i], o); o_c(o, ','); } break; case 'm': for (unsigned i = 0; i < a->n; i++) { o_c(o, a->key[i]); pn(a->c[i], o); o_c(o, ','); } break; case 'u': case 'p': o_int(o, a->id); break; case 'c': pn(a->c[0], o); break; } o_c(o, '.'); }
static void pv(V *v, out *o) {
    switch (handlebars_value_get_real_type(v)) {
    case HANDLEBARS_VALUE_TYPE_NULL: o_c(o, '0'); return; case HANDLEBARS_VALUE_TYPE_STRING: o_c(o, 's'); o_n(o, handlebars_value_get_strval(v), handlebars_value_get_strlen(v)); break;
    case HANDLEBARS_VALUE_TYPE_ARRAY: o_c(o, 'l'); HANDLEBARS_VALUE_FOREACH(v, ch) { pv(ch, o); o_c(o, ','); } HANDLEBARS_VALUE_FOREACH_END(); break;
    case HANDLEBARS_VALUE_TYPE_MAP: o_c(o, 'm'); HANDLEBARS_VALUE_FOREACH_KV(v, k, ch) { o_n(o, hbs_str_val(k), hbs_str_len(k)); pv(ch, o); o_c(o, ','); } HANDLEBARS_VALUE_FOREACH_END(); break;
    case HANDLEBARS_VALUE_TYPE_USER: o_c(o, 'u'); o_int(o, ((struct uu *) handlebars_value_get_user(v))->id); break;
    case HANDLEBARS_VALUE_TYPE_PTR: o_c(o, 'p'); o_int(o, *(long *) handlebars_value_get_ptr_ex(v, "long")); break;
    case HANDLEBARS_VALUE_TYPE_CLOSURE: { V *rv = h_val(ctx); struct handlebars_options op; memset(&op, 0, sizeof op); rv = handlebars_closure_call(handlebars_value_get_closure(v), 0, rv, &op, vm, rv); o_c(o, 'c'); pv(rv, o); handlebars_value_dtor(rv); talloc_free(rv); break; }
    default: o_c(o, '?'); } o_c(o, '.'); }
static S *text(unsigned id) { char b[24]; out o; (void) b; o.n = 0; o_int(&o, id); return handlebars_string_ctor(ctx, o.b, o.n); }
static void fresh(unsigned i, unsigned c) {
    nd *x;
    switch (c) {
    case 0: x = mk('s'); handlebars_value_str(sl[i], text(x->id)); break;
    case 1: x = mk('l'); handlebars_value_array(sl[i], handlebars_stack_ctor(ctx, symx_param("cap", 1))); break;
    case 2: x = mk('m'); handlebars_value_map(sl[i], handlebars_map_ctor(ctx, 0)); break;
    case 3: { unsigned j = symx_pick(nv, "captured"); x = mk('c'); x->c[0] = md[j]; handlebars_value_closure(sl[i], handlebars_closure_ctor(vm, clo, 1, sl[j])); break; }
    case 4: { x = mk('p'); long *d = talloc(ctx, long); *d = x->id; handlebars_value_ptr(sl[i], handlebars_ptr_ctor_ex(ctx, "long", d, false)); break; }
    default: { x = mk('u'); struct uu *u = talloc_zero(ctx, struct uu); handlebars_user_init(&u->u, ctx, &uh); u->id = x->id; made++; handlebars_value_user(sl[i], &u->u); break; } }
    md[i] = x;
}
static void op(unsigned c) {
    unsigned i = symx_pick(nv, "slot"), j; nd *a = md[i];
    if (c < 3) { fresh(i, c == 0 ? symx_pick(small ? 2 : 6, "kind") : c); return; }
    switch (c) {
    case 3: j = symx_pick(nv, "from"); handlebars_value_value(sl[i], sl[j]); md[i] = md[j]; break;
    case 4: handlebars_value_null(sl[i]); md[i] = NULL; break;
    case 5: j = symx_pick(nv, "from"); if (i == j || !a || a->n >= 6) return; if (a->k == 'l') { handlebars_value_array_push(sl[i], sl[j]); a = dup_(a); a->c[a->n++] = md[j]; md[i] = a; } else if (a->k == 'm') { char k = symx_pick(2, "key") ? 'x' : 'y'; S *ks = handlebars_string_ctor(ctx, &k, 1); handlebars_string_addref(ks); handlebars_value_map_update(sl[i], ks, sl[j]); handlebars_string_delref(ks); a = dup_(a); unsigned q = 0; while (q < a->n && a->key[q] != k) q++; if (q == a->n) { a->key[q] = k; a->n++; } a->c[q] = md[j]; md[i] = a; } break;
    case 6: if (!a || !a->n) return; if (a->k == 'l') { unsigned q = symx_pick(a->n, "which"); handlebars_value_array_find(sl[i], q, tmp); handlebars_value_value(sl[i], tmp); handlebars_value_null(tmp); md[i] = a->c[q]; } else if (a->k == 'm') { unsigned q = symx_pick(a->n, "which"); handlebars_value_value(sl[i], handlebars_map_str_find(handlebars_value_get_map(sl[i]), &a->key[q], 1)); md[i] = a->c[q]; } break;
    case 7: if (!a || a->k != 's' || a->n >= 5) return; { S *s = handlebars_value_get_string(sl[i]); handlebars_string_addref(s); handlebars_value_null(sl[i]); s = handlebars_string_append(ctx, s, "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", 1); handlebars_value_str(sl[i], s); handlebars_string_delref(s); a = dup_(a); a->key[a->n++] = 'a'; md[i] = a; } break;
    case 8: if (!a || a->k != 'm' || !a->n) return; { unsigned q = symx_pick(a->n, "which"); M *m = handlebars_value_get_map(sl[i]); handlebars_map_addref(m); handlebars_value_null(sl[i]); m = handlebars_map_str_remove(m, &a->key[q], 1); handlebars_value_map(sl[i], m); handlebars_map_delref(m); a = dup_(a); for (; q + 1 < a->n; q++) { a->c[q] = a->c[q + 1]; a->key[q] = a->key[q + 1]; } a->n--; md[i] = a; } break;
    default: j = symx_pick(nv, "from"); if (i == j || !a || a->k != 'l' || !a->n) return; { unsigned q = symx_pick(a->n, "which"); handlebars_value_array_set(sl[i], q, sl[j]); a = dup_(a); a->c[q] = md[j]; md[i] = a; } break;
    }
}
void harness(void) {
    unsigned l = symx_param("l", 3), pre = symx_param("pre", 0), lo = symx_param("lo", 0), hi = symx_param("hi", 9); nv = symx_param("nv", 2); small = (char) symx_param("small", 0);
    ctx = handlebars_context_ctor(); vm = handlebars_vm_ctor(ctx); jmp_buf jb; if (handlebars_setjmp_ex(ctx, &jb)) { symx_fail("an operation reported an error"); return; }
    for (unsigned i = 0; i < nv; i++) sl[i] = h_val(ctx); tmp = h_val(ctx); size_t base = talloc_total_blocks(ctx);
    if (pre == 1) { fresh(0, 1); fresh(1, 0); handlebars_value_array_push(sl[0], sl[1]); nd *a = dup_(md[0]); a->c[a->n++] = md[1]; md[0] = a; }
    if (pre == 2) { fresh(0, 2); fresh(1, 5); S *k = handlebars_string_ctor(ctx, "x", 1); handlebars_value_map_update(sl[0], k, sl[1]); nd *a = dup_(md[0]); a->key[0] = 'x'; a->c[a->n++] = md[1]; md[0] = a; }
    if (pre == 3) { fresh(0, 1); fresh(1, 0); for (int i = 0; i < 2; i++) { handlebars_value_array_push(sl[0], sl[1]); nd *a = dup_(md[0]); a->c[a->n++] = md[1]; md[0] = a; } handlebars_value_value(sl[1], sl[0]); md[1] = md[0]; }
    if (pre == 4) { fresh(0, 0); for (unsigned i = 1; i < nv; i++) { handlebars_value_value(sl[i], sl[0]); md[i] = md[0]; } }
    for (unsigned i = 0; i < l; i++) op(lo + symx_pick(hi - lo + 1, "op"));
    static out want, got; for (unsigned i = 0; i < nv; i++) { want.n = got.n = 0; pn(md[i], &want); pv(sl[i], &got); CHECK(h_eqn(want.b, want.n, got.b, got.n), "each holder still sees its own content"); symx_observe("slot", got.b, got.n); }
    for (unsigned i = 0; i < nv; i++) handlebars_value_dtor(sl[i]);
    CHECK(made == gone, "every user object is destroyed exactly once"); CHECK(talloc_total_blocks(ctx) == base, "nothing stays allocated after the last holder is gone");
    symx_reach("done");
}
