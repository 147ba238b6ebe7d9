/* P25: rendering through a cache gives the text rendering without one gives, whatever happened to the cache before. */
#include "h.h"
#include "handlebars_cache_private.h"
static unsigned be, fault; static unsigned char s1, s2;
static C *cc; static struct handlebars_cache *cache;
static V *gd, *gp, *gh; static char *want[10]; static size_t wn[10]; static bool wbad[10];
static V *boom(int argc, V *argv, struct handlebars_options *o, struct handlebars_vm *vm, V *rv) { (void) argc; (void) argv; (void) o; (void) rv; handlebars_throw((C *) vm, HANDLEBARS_ERROR, "boom"); }
static void gc(struct handlebars_cache *k) { (void) handlebars_cache_gc(k); }
static void rs(struct handlebars_cache *k) { handlebars_cache_reset(k); }
static V *flush(int argc, V *argv, struct handlebars_options *o, struct handlebars_vm *vm, V *rv) { (void) argc; (void) argv; (void) o; (void) vm; if (cache) (symx_param("how", 0) ? rs : gc)(cache); return rv; }
static void put(C *c, V *m, const char *k, V *v) { handlebars_value_map_update(m, h_str(c, k), v); }
static const char *NM[] = {"a", "b", "n", "e", "r"};   /* one byte apart, nested, failing, recursive */
static const char *HOST[] = {"[{{> a}}]", "[{{> b}}]", "[{{> n}}{{> n}}]", "[{{> a}}{{> e}}]", "[{{> r l}}]", "[{{> f}}{{> f}}]"};
#define NH 6
static struct handlebars_cache *make(C *c) {
    struct handlebars_cache *k = be == 0 ? handlebars_cache_simple_ctor(c) : be == 1 ? handlebars_cache_mmap_ctor(c, symx_param("room", 16384), symx_param("slots", 2)) : handlebars_cache_lmdb_ctor(c, "db");
    unsigned cfg = symx_param("cfg", 0); if (cfg == 1) k->max_entries = 1; if (cfg == 2) k->max_age = 10; if (cfg == 3) k->max_size = 1; if (cfg == 4) k->max_age = 0; return k; }
/* one render in a context of its own; which: the host template; flags: of the interpreter */
static void render(unsigned which, unsigned long flags, struct handlebars_cache *k, char **out, size_t *n, bool *bad) {
    C *c = k && fault ? cc : handlebars_context_ctor(); jmp_buf jb;   /* a cache reports its errors where its own context does */
    if (handlebars_setjmp_ex(c, &jb)) { const char *e = handlebars_error_msg(c); *n = e ? strlen(e) : 0; *out = malloc(*n + 1); memcpy(*out, e, *n); *bad = true; c->e->jmp = NULL; if (c != cc) handlebars_context_dtor(c); return; }
    struct h_opts o = {0}; o.partials = gp; o.helpers = gh; o.cache = k; o.flags = flags;
    S *s = h_render(c, HOST[which], strlen(HOST[which]), gd, &o); *n = hbs_str_len(s); *out = malloc(*n + 1); memcpy(*out, hbs_str_val(s), *n); *bad = false; c->e->jmp = NULL; if (c != cc) handlebars_context_dtor(c);
}
static void step(unsigned which, unsigned long flags) {
    char *g; size_t n; bool bad; bool prior = cache != NULL; unsigned w = flags ? which + 6 : which; size_t h0 = 0, m0 = 0;
    long f0 = symx_mdb_fail, p0 = symx_mprotect_fail;
    if (prior && fault != 1) { struct handlebars_cache_stat st = handlebars_cache_stat(cache); h0 = st.hits; m0 = st.misses; }
    render(which, flags, cache, &g, &n, &bad);
    bool failed = (f0 >= 0 && symx_mdb_fail < 0) || (p0 >= 0 && symx_mprotect_fail < 0);   /* the store failed during this render: an error is fine, another text is not */
    if (!(failed && bad)) symx_observe("got", g, n);
    if (!(failed && bad)) { CHECK(bad == wbad[w], "the same outcome as without a cache"); if (!bad) CHECK(h_eqn(g, n, want[w], wn[w]), "the same text as without a cache"); else CHECK(h_eqn(g, n, want[w], wn[w]), "the same error as without a cache"); }
    free(g);
    CHECK(symx_lock_depth == 0 && symx_lock_errors == 0, "locks released"); CHECK(symx_mdb_txns == 0, "transactions ended");
    if (prior && fault != 1) { struct handlebars_cache_stat st = handlebars_cache_stat(cache); CHECK(st.refcount == 0, "nothing is in use after rendering"); CHECK(which == 5 || st.hits + st.misses >= h0 + m0 + 1, "every lookup counts as a hit or a miss"); }
}
static int attempt(void (*f)(struct handlebars_cache *)) { jmp_buf jb; C *c = (C *) cache; if (handlebars_setjmp_ex(c, &jb)) { c->e->jmp = NULL; return 0; } f(cache); c->e->jmp = NULL; return 1; }
void harness(void) {
    be = symx_param("be", 0); fault = symx_param("fault", 0); symx_pagesize = 64; symx_now = 1000; symx_mdb_maxkey = symx_param("maxkey", 15); symx_mdb_room = symx_param("dbroom", 1000000);
    unsigned sy = symx_param("sy", 1); s1 = 'g'; s2 = 'h'; if (sy & 2) { s1 = symx_u8("s1"); symx_assume(s1 >= 'f'); symx_assume(s1 <= 'm'); } if (sy & 1) { s2 = symx_u8("s2"); symx_assume(s2 >= 'f'); symx_assume(s2 <= 'm'); }
    C *cw = handlebars_context_ctor(); gd = h_val(cw); gp = h_val(cw); gh = h_val(cw); V *f = h_val(cw), *l = h_val(cw), *l2 = h_val(cw), *e;
    handlebars_value_array(l2, handlebars_stack_ctor(cw, 2)); e = h_val(cw); handlebars_value_array(e, handlebars_stack_ctor(cw, 2)); handlebars_value_array_push(l2, e);
    handlebars_value_array(l, handlebars_stack_ctor(cw, 2)); handlebars_value_array_push(l, l2);
    handlebars_value_map(gd, handlebars_map_ctor(cw, 4)); put(cw, gd, "x", h_vstr(cw, "<v>", 3)); put(cw, gd, "l", l);
    handlebars_value_helper(f, boom); handlebars_value_map(gh, handlebars_map_ctor(cw, 2)); put(cw, gh, "boom", f); f = h_val(cw); handlebars_value_helper(f, flush); put(cw, gh, "flush", f);
    char a[] = "A{{x}}.........1", b[] = "A{{x}}.........2", n[] = "({{> a}}{{> b}})"; unsigned kl = symx_param("kl", 15) - 1; a[kl] = (char) s1; b[kl] = (char) s2; kl++;
    handlebars_value_map(gp, handlebars_map_ctor(cw, 8)); put(cw, gp, "a", h_vstr(cw, a, kl)); put(cw, gp, "b", h_vstr(cw, b, kl)); put(cw, gp, "n", h_vstr(cw, n, strlen(n)));
    put(cw, gp, "e", h_vstr(cw, "q{{> b}}{{boom}}", 16)); put(cw, gp, "r", h_vstr(cw, "{{#each .}}<{{> r}}>{{/each}}", 29)); put(cw, gp, "f", h_vstr(cw, "1{{flush}}2{{> a}}3{{x}}", 24));
    for (unsigned i = 0; i < NH; i++) render(i, 0, NULL, &want[i], &wn[i], &wbad[i]);
    for (unsigned i = 0; i < 3; i++) render(i, symx_param("flags2", 8), NULL, &want[6 + i], &wn[6 + i], &wbad[6 + i]);
    CHECK(!wbad[0] && !wbad[1] && !wbad[2] && wbad[3] && !wbad[4] && !wbad[5], "the set-up renders");
    cc = handlebars_context_ctor(); cache = make(cc); size_t blocks = talloc_total_size(cache); unsigned L = symx_param("l", 3);
    if (fault == 1) symx_mdb_fail = symx_pick(symx_param("nf", 20), "fault");
    if (fault == 2) symx_mprotect_fail = symx_pick(symx_param("nf", 8), "fault");
    for (unsigned i = 0; i < L; i++) {
        unsigned op = i == 0 && symx_param("o0", 99) != 99 ? symx_param("o0", 0) : symx_pick(symx_param("nop", 9), "op");
        if (op < 5) { unsigned w = op; step(w, 0); }
        if (op == 5) { unsigned t = symx_pick(2, "tick"); symx_now += t ? 10 : 9; }
        if (op == 6) { bool ok = attempt(gc); CHECK(ok || fault, "collecting works"); }
        if (op == 7) { bool ok = attempt(rs); CHECK(ok || fault, "resetting works"); if (ok && !fault) { struct handlebars_cache_stat st = handlebars_cache_stat(cache); CHECK(st.current_entries == 0, "a reset cache is empty"); CHECK(talloc_total_size(cache) <= blocks, "a reset cache holds no more memory than a new one"); } }
        if (op == 8) { step(symx_pick(2, "which"), symx_param("flags2", 8)); }
        if (op == 10) step(5, 0);   /* a helper collects or resets while cached templates are running */
        if (op == 9) { handlebars_cache_dtor(cache); handlebars_context_dtor(cc); cc = handlebars_context_ctor(); cache = make(cc); }
        CHECK(symx_lock_depth == 0 && symx_lock_errors == 0 && symx_mdb_txns == 0, "locks and transactions released"); symx_prot_check(); CHECK(symx_prot_errors == 0, "protected memory is not written");
    }
    if (symx_mdb_fail >= 0) symx_mdb_fail = -1; 
    if (symx_mprotect_fail >= 0) symx_mprotect_fail = -1; fault = 0;
    step(0, 0); step(1, 0); step(0, 0);
    handlebars_cache_dtor(cache); handlebars_context_dtor(cc); CHECK(symx_mmap_live == 0 && symx_mdb_envs == 0 && symx_mdb_errors == 0, "everything is given back"); CHECK(symx_prot_errors == 0, "protected memory is not written");
    symx_reach("done");
}
