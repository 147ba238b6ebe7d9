/* Values: params: mode 0 facts about one value, 1 comparison of two, 2 reuse of one value for two contents; n string bytes; t / t2 restrict the type */
#include "mv.h"
#include "handlebars_ptr.h"
#include "handlebars_value_handlers.h"
static C *ctx; static struct handlebars_vm *vm;
static const struct { double d; const char *t; } flt[] = { {0, "0"}, {1.5, "1.5"}, {-2, "-2"}, {1e100, "1e+100"}, {0.1, "0.1"}, {123456789.25, "123456789.25"}, {0.1 + 0.2, "0.30000000000000004"}, {1.0 / 3, "0.3333333333333333"}, {1e-7, "1e-07"}, {3, "3"}, {-0.0, "-0"}, {1.0 / 0.0, "inf"}, {100000, "100000"}, {1e6, "1000000"} };
static const long bases[] = { 0, 128, 1000, 65400, 2147483520L, 4294967168L, 9223372036854775680L - 128, -9223372036854775807L - 1, -2147483776L, -1100, -256 };
static mv kids[24]; static unsigned nkid;
static unsigned nb;
static void gen(mv *m, unsigned t, unsigned depth) {
    m->t = (int) t;
    if (t == MV_INT) { m->i = bases[symx_pick(sizeof bases / sizeof *bases, "base")] + (long) symx_u8("low"); }
    if (t == MV_FLT) { unsigned i = symx_pick(sizeof flt / sizeof *flt, "flt"); m->d = flt[i].d; m->dt = flt[i].t; }
    if (t == MV_STR) { m->n = symx_pick(nb + 1, "len"); symx_sym(m->s, m->n, "text"); m->safe = symx_pick(2, "safe"); }
    if (t == MV_ARR || t == MV_MAP) { static const char *ks[] = { "a", "bb", "c<" }; m->kn = symx_pick(depth ? symx_param("kids", 2) + 1 : 1, "count"); for (unsigned i = 0; i < m->kn; i++) { m->key[i] = ks[i]; m->k[i] = &kids[nkid++]; unsigned kt = symx_pick(depth > 1 ? 8 : 6, "kid"); if (symx_param("lite", 0) && kt == MV_STR) { m->k[i]->t = MV_STR; m->k[i]->n = 1; symx_sym(m->k[i]->s, 1, "text"); } else if (kt == MV_FLT || kt == MV_INT) { m->k[i]->t = MV_INT; m->k[i]->i = kt == MV_INT ? -7 : 42; } else gen(m->k[i], kt, depth - 1); } }
}
/* user-defined list type over a model value */
struct ul { struct handlebars_user u; const mv *m; int t; }; static int udtors;
static V *ul_copy(V *v) { (void) v; return NULL; }
static void ul_dtor(struct handlebars_user *u) { (void) u; udtors++; }
static enum handlebars_value_type ul_type(V *v) { return ((struct ul *) handlebars_value_get_user(v))->t; }
static V *ul_mfind(V *v, S *k, V *rv) { const mv *m = ((struct ul *) handlebars_value_get_user(v))->m; for (unsigned i = 0; i < m->kn; i++) if (h_eqn(m->key[i], strlen(m->key[i]), hbs_str_val(k), hbs_str_len(k))) { mv_set(ctx, rv, m->k[i]); return rv; } return NULL; }
static V *ul_afind(V *v, size_t ix, V *rv) { const mv *m = ((struct ul *) handlebars_value_get_user(v))->m; if (ix >= m->kn) return NULL; mv_set(ctx, rv, m->k[ix]); return rv; }
static bool ul_next(struct handlebars_value_iterator *it) { const mv *m = it->usr; if (it->index + 1 >= m->kn) { handlebars_value_dtor(it->cur); return false; } it->index++; if (m->t == MV_MAP) it->key = h_str(ctx, m->key[it->index]); mv_set(ctx, it->cur, m->k[it->index]); return true; }
static bool ul_void(struct handlebars_value_iterator *it) { (void) it; return false; }
static bool ul_iter(struct handlebars_value_iterator *it, V *v) { const mv *m = ((struct ul *) handlebars_value_get_user(v))->m; it->usr = (void *) m; it->value = v; if (!m->kn) { it->next = ul_void; return false; } it->next = ul_next; if (m->t == MV_MAP) it->key = h_str(ctx, m->key[0]); mv_set(ctx, it->cur, m->k[0]); return true; }
static long ul_count(V *v) { return ((struct ul *) handlebars_value_get_user(v))->m->kn; }
static const struct handlebars_value_handlers ulh = { "ul", ul_copy, ul_dtor, NULL, ul_type, ul_mfind, ul_afind, ul_iter, NULL, ul_count };
static void set_user(V *v, const mv *m) { struct ul *u = talloc_zero(ctx, struct ul); handlebars_user_init(&u->u, ctx, &ulh); u->m = m; u->t = m->t == MV_ARR ? HANDLEBARS_VALUE_TYPE_ARRAY : HANDLEBARS_VALUE_TYPE_MAP; handlebars_value_user(v, &u->u); }

static void facts(V *v, const mv *m, bool user) {
    static const int ty[] = { HANDLEBARS_VALUE_TYPE_NULL, HANDLEBARS_VALUE_TYPE_TRUE, HANDLEBARS_VALUE_TYPE_FALSE, HANDLEBARS_VALUE_TYPE_INTEGER, HANDLEBARS_VALUE_TYPE_FLOAT, HANDLEBARS_VALUE_TYPE_STRING, HANDLEBARS_VALUE_TYPE_ARRAY, HANDLEBARS_VALUE_TYPE_MAP, HANDLEBARS_VALUE_TYPE_HELPER };
    CHECK((int) handlebars_value_get_type(v) == ty[m->t], "type"); CHECK((int) handlebars_value_get_real_type(v) == (user ? HANDLEBARS_VALUE_TYPE_USER : ty[m->t]), "stored type");
    CHECK(handlebars_value_get_intval(v) == (m->t == MV_INT ? m->i : 0), "integer content"); CHECK(handlebars_value_get_floatval(v) == (m->t == MV_FLT ? m->d : 0), "float content");
    const char *s = handlebars_value_get_strval(v); size_t n = handlebars_value_get_strlen(v); S *str = handlebars_value_get_string(v);
    if (m->t == MV_STR) { CHECK(s && h_eqn(s, n, m->s, m->n) && s[n] == 0, "text content"); CHECK(str && hbs_str_len(str) == m->n, "string content"); } else { CHECK(!s && n == 0 && !str, "no text in other types"); }
    CHECK((handlebars_value_get_map(v) != NULL) == (m->t == MV_MAP && !user), "map accessor"); CHECK((handlebars_value_get_stack(v) != NULL) == (m->t == MV_ARR && !user), "list accessor"); CHECK((handlebars_value_get_user(v) != NULL) == user, "user accessor"); CHECK(handlebars_value_get_closure(v) == NULL, "closure accessor");
    CHECK(handlebars_value_get_boolval(v) == !mv_empty(m), "truth"); CHECK(handlebars_value_is_empty(v) == mv_empty(m), "emptiness");
    CHECK(handlebars_value_is_scalar(v) == (m->t < MV_ARR), "scalar"); CHECK(handlebars_value_is_callable(v) == (m->t == MV_HLP), "callable");
    CHECK(handlebars_value_count(v) == (m->t == MV_ARR || m->t == MV_MAP ? (long) m->kn : -1), "count");
    static out o; for (int e = 0; e < 2; e++) { o.n = 0; mv_print(m, e, &o); CHECK(out_is(&o, handlebars_value_expression(ctx, v, e)), e ? "escaped text" : "plain text"); o.n = 2; o.b[0] = 'x'; o.b[1] = '&'; mv_print(m, e, &o); CHECK(out_is(&o, handlebars_value_expression_append(ctx, v, handlebars_string_ctor(ctx, "x&", 2), e)), "appended text"); }
    o.n = 0; if (m->t != MV_ARR) mv_print(m, false, &o); CHECK(out_is(&o, handlebars_value_to_string(v, ctx)), "conversion to string");
    V *rv = h_val(ctx);
    if (m->t == MV_ARR) { for (unsigned i = 0; i < m->kn; i++) { V *e = handlebars_value_array_find(v, i, rv); CHECK(e && (int) handlebars_value_get_type(e) == ty[m->k[i]->t], "element"); } CHECK(!handlebars_value_array_find(v, m->kn, rv) && !handlebars_value_array_find(v, (size_t) -1, rv), "no element past the end"); } else CHECK(!handlebars_value_array_find(v, 0, rv), "no elements in other types");
    if (m->t == MV_MAP) { for (unsigned i = 0; i < m->kn; i++) { S *k = h_str(ctx, m->key[i]); V *e = handlebars_value_map_find(v, k, rv); CHECK(e && (int) handlebars_value_get_type(e) == ty[m->k[i]->t], "entry"); e = handlebars_value_map_str_find(v, m->key[i], strlen(m->key[i]), rv); CHECK(e && (int) handlebars_value_get_type(e) == ty[m->k[i]->t], "entry by text"); } } 
    CHECK(!handlebars_value_map_str_find(v, "zz", 2, rv), "no such entry");
    unsigned p = 0, bad = 0; HANDLEBARS_VALUE_FOREACH_IDX_KV(v, ix, k, ch) { if (p >= m->kn || ix != p || (int) handlebars_value_get_type(ch) != ty[m->k[p]->t]) bad++; if (m->t == MV_MAP && !user && p < m->kn && !h_eqn(hbs_str_val(k), hbs_str_len(k), m->key[p], strlen(m->key[p]))) bad++; p++; } HANDLEBARS_VALUE_FOREACH_END();
    CHECK(!bad && p == (m->t == MV_ARR || m->t == MV_MAP ? m->kn : 0), "iteration visits each element in order");
    char *d = handlebars_value_dump(v, ctx, symx_param("depth", 0)); CHECK(d && (strlen(d) > 0 || m->t == MV_STR), "dump");
}
static bool meq(const mv *a, const mv *b) { if (a->t != b->t) return false; if (a->t == MV_INT) return a->i == b->i; if (a->t == MV_FLT) return a->d == b->d; if (a->t == MV_STR) return h_eqn(a->s, a->n, b->s, b->n); if (a->t == MV_ARR || a->t == MV_MAP) return false; return true; }
void harness(void) {
    unsigned mode = symx_param("mode", 0), t = symx_param("type", 99), t2 = symx_param("type2", 99); nb = symx_param("n", 2);
    ctx = handlebars_context_ctor(); vm = handlebars_vm_ctor(ctx); jmp_buf jb; if (handlebars_setjmp_ex(ctx, &jb)) { symx_fail("a value operation reported an error"); return; }
    static mv a, b; if (t == 99) t = symx_pick(9, "type"); gen(&a, t, symx_param("nest", 1)); V *v = mv_val(ctx, &a);
    if (mode == 0) { facts(v, &a, false); V *w = h_val(ctx); handlebars_value_value(w, v); facts(w, &a, false); if (!(a.t == MV_FLT && a.d != a.d)) CHECK(handlebars_value_eq(w, v), "a copy is equal"); handlebars_value_null(v); facts(w, &a, false); facts(v, &b, false);
        if (a.t == MV_ARR || a.t == MV_MAP) { set_user(w, &a); facts(w, &a, true); CHECK(udtors == 0, "user data kept"); handlebars_value_value(v, w); handlebars_value_dtor(w); CHECK(udtors == 0, "user data kept while held"); facts(v, &a, true); handlebars_value_dtor(v); CHECK(udtors == 1, "user data released once"); } }
    if (mode == 1) { if (t2 == 99) t2 = symx_pick(9, "type2"); gen(&b, t2, 1); V *w = mv_val(ctx, &b); bool e = handlebars_value_eq(v, w); CHECK(e == meq(&a, &b), "equality"); CHECK(handlebars_value_eq(w, v) == e, "equality is symmetric"); CHECK(handlebars_value_eq(v, v) == (a.t != MV_FLT || a.d == a.d), "equal to itself"); }
    if (mode == 2) { if (t2 == 99) t2 = symx_pick(9, "type2"); gen(&b, t2, 1); mv_set(ctx, v, &b); facts(v, &b, false); handlebars_value_value(v, v); facts(v, &b, false); if (b.t == MV_ARR && b.kn) { V *el = handlebars_stack_get(handlebars_value_get_stack(v), 0); handlebars_value_value(v, el); facts(v, b.k[0], false); } }
    symx_reach("done");
}
