/* The cache interface itself (P25) and the shared memory block (P26): any history of lookups, additions, releases,
   collections, resets and passing time, with modules held across them, failing system calls and a second process. */
#include "h.h"
#include "handlebars_cache_private.h"
#define NT 3
static char t0[] = "{{x}}f"; static const char *T[NT] = {t0, "{{x}}g", "{{#each l}}{{> p}}{{/each}}c"};
static struct { S *key; struct handlebars_module *m; char *norm; size_t n; time_t ts; } t[NT];
static unsigned be; static struct handlebars_cache *cache, *other; static C *cc, *co;
struct held { struct handlebars_module *m; int i; char *snap; size_t n; } ;
static struct held h[6]; static unsigned nh; static double max_age;
static struct handlebars_module *compile(C *c, const char *s) { S *x = handlebars_string_ctor(c, s, strlen(s)); struct handlebars_parser *p = handlebars_parser_ctor(c); struct handlebars_ast_node *a = handlebars_parse_ex(p, x, 0); struct handlebars_compiler *k = handlebars_compiler_ctor(c); return handlebars_program_serialize(c, handlebars_compiler_compile_ex(k, a)); }
static char *dup(const void *p, size_t n) { char *r = malloc(n + 1); memcpy(r, p, n); return r; }
/* bytes nobody wrote are zero from here on */
static void settle(void *p, size_t n) { volatile unsigned char *b = p; for (size_t i = 0; i < n; i++) { unsigned char x = b[i]; if (symx_is_symbolic(x)) b[i] = 0; } }
/* the content without its place, its hash and its time of use */
static char *norm(const struct handlebars_module *m) { size_t n = handlebars_module_get_size((void *) m); struct handlebars_module *c = malloc(n); memcpy(c, m, n); handlebars_module_patch_pointers(c); handlebars_module_normalize_pointers(c, NULL); time_t ts = handlebars_module_get_ts(c), z = 0; uint64_t hz = 0, hv = handlebars_module_get_hash(c); char *b = (char *) c; for (size_t i = 0; i + 8 <= HANDLEBARS_MODULE_SIZE; i += 8) { if (ts && memcmp(b + i, &ts, 8) == 0) memcpy(b + i, &z, 8); if (hv && memcmp(b + i, &hv, 8) == 0) memcpy(b + i, &hz, 8); } return b; }
static int is(const struct handlebars_module *m, int i) { if (handlebars_module_get_size((void *) m) != t[i].n) return 0; char *a = norm(m); int r = h_eqn(a, t[i].n, t[i].norm, t[i].n); free(a); return r; }
static void invariant(void) {
    CHECK(symx_lock_depth == 0 && symx_lock_errors == 0, "locks are released after every call"); CHECK(symx_mdb_txns == 0, "transactions are ended after every call");
    symx_prot_check(); CHECK(symx_prot_errors == 0, "the block is written only unprotected and inside its bounds");
    for (unsigned i = 0; i < nh; i++) CHECK(be == 0 ? is(h[i].m, h[i].i) : h_eqn((char *) h[i].m, h[i].n, h[i].snap, h[i].n), "a module in use is not overwritten");
}
static size_t hits, misses; static bool counted = true;
static long present[NT]; /* since when an entry is there (-1: is not, -2: unknown) */
/* one call in a process, reporting whether it failed */
enum { ADD, FIND, RELEASE, GC, RESET, STAT };
static struct held *got; static struct handlebars_cache_stat st;
static int call(struct handlebars_cache *k, int op, int i, struct held *out) {
    C *c = (C *) k; jmp_buf jb; volatile int ok = 1; jmp_buf *prev = c->e->jmp;
    if (handlebars_setjmp_ex(c, &jb)) { c->e->jmp = prev; return 0; }
    if (op == ADD) handlebars_cache_add(k, t[i].key, be == 0 ? out->m : t[i].m);
    if (op == FIND) { struct handlebars_module *m = handlebars_cache_find(k, t[i].key); out->m = m; out->i = i; }
    if (op == RELEASE) handlebars_cache_release(k, t[out->i].key, out->m);
    if (op == GC) { int n = handlebars_cache_gc(k); CHECK(n >= 0, "collecting reports how many"); }
    if (op == RESET) handlebars_cache_reset(k);
    if (op == STAT) st = handlebars_cache_stat(k);
    c->e->jmp = prev; return ok;
}
static void keep(struct held *x) { if (!x->m) return; x->n = handlebars_module_get_size(x->m); x->snap = dup(x->m, x->n); h[nh++] = *x; }
static struct handlebars_module *fresh(int i) { struct handlebars_module *m = talloc_size(cc, t[i].n); talloc_set_type(m, struct handlebars_module); memcpy(m, t[i].m, t[i].n); handlebars_module_patch_pointers(m); return m; }
/* --- the other process --- */
static int budget, oop, okey; static struct held oh; static bool ran, oheld;
static void second(int where) {
    if (!budget || ran) return; if (where == 5 && symx_param("nosleep", 0)) return; if (!symx_pick(2, "switch")) return; ran = true;
    if (oop == 0) { oh.m = NULL; int ok = call(other, FIND, okey, &oh); if (ok && oh.m) { CHECK(is(oh.m, okey), "the other process finds the right module"); oheld = true; oh.n = handlebars_module_get_size(oh.m); oh.snap = dup(oh.m, oh.n); } }
    if (oop == 1) call(other, ADD, okey, &oh);
    if (oop == 2) call(other, RESET, 0, NULL);
    if (oop == 3) { call(other, RESET, 0, NULL); call(other, ADD, (okey + 1) % NT, &oh); }
    if (oop == 4) { oh.m = NULL; if (call(other, FIND, okey, &oh) && oh.m) call(other, RELEASE, okey, &oh); }
}
static void otherinv(void) { if (oheld) CHECK(h_eqn((char *) oh.m, oh.n, oh.snap, oh.n), "a module the other process uses is not overwritten"); }
/* --- the operations of this process and what they may do --- */
static void op_find(int i, bool hold) {
    struct held x = {0}; size_t hb, mb; call(cache, STAT, 0, NULL); hb = st.hits; mb = st.misses;
    int ok = call(cache, FIND, i, &x); if (!ok) return;
    if (x.m) { CHECK(handlebars_module_get_size(x.m) == t[i].n && is(x.m, i), "a lookup returns the module of that very text");
        if (!budget) { CHECK(present[i] != -1, "only what was added is found"); if (max_age >= 0 && be) CHECK((double) (symx_now - handlebars_module_get_ts(x.m)) < max_age, "expired entries are not found"); } }
    else if (!budget && present[i] >= 0 && !(max_age >= 0 && (double) (symx_now - t[i].ts) >= max_age)) symx_fail("an entry that is there and not expired is found");
    if (!budget && counted) { call(cache, STAT, 0, NULL); CHECK(st.hits == hb + (x.m != NULL) && st.misses == mb + (x.m == NULL), "hits and misses are counted"); }
    if (x.m) { if (present[i] == -2) present[i] = symx_now; if (be == 0) present[i] = symx_now; if (hold && nh < 6) keep(&x); else if (budget) { keep(&x); } else call(cache, RELEASE, i, &x); }
    else if (!budget) present[i] = -1;
}
static void op_add(int i) { struct held x = {0}; if (be == 0) { if (present[i] != -1) return; x.m = fresh(i); } int ok = call(cache, ADD, i, &x);
    if (budget) return; if (be == 0) { present[i] = symx_now; if (cache->max_entries || cache->max_size) for (int j = 0; j < NT; j++) if (j != i && present[j] != -1) present[j] = -2; }
    else if (be == 1) { for (int j = 0; j < NT; j++) if (j != i && present[j] >= 0) present[j] = symx_param("fits", 0) ? present[j] : -2; if (present[i] < 0) present[i] = ok ? -2 : -2; }
    else if (ok) present[i] = symx_param("dbroom", 0) || symx_param("fault", 0) ? -2 : symx_now; else present[i] = -2; }
void harness(void) {
    be = symx_param("be", 1); symx_pagesize = symx_param("page", 64); symx_now = 1000; symx_mdb_maxkey = 15; if (symx_param("dbroom", 0)) symx_mdb_room = symx_param("dbroom", 0); cc = handlebars_context_ctor();
    C *cw = handlebars_context_ctor(); if (symx_param("sy", 0)) { unsigned char b = symx_u8("text"); symx_assume(b != 'g' && b != '{' && b != '\\' && b != 0); t0[5] = b; }
    for (int i = 0; i < NT; i++) { t[i].key = handlebars_string_ctor(cw, T[i], strlen(T[i])); handlebars_string_addref(t[i].key); struct handlebars_module *m = compile(cw, T[i]); t[i].n = handlebars_module_get_size(m); settle(m, t[i].n); t[i].m = m; t[i].ts = symx_now; t[i].norm = norm(m); present[i] = -1; }
    max_age = symx_param("age", 0) ? (double) symx_param("age", 0) - 1 : -1;
    size_t base = 0; if (symx_param("ctor", 0)) {   /* any size and any number of slots */
        size_t size, slots; unsigned w = symx_param("ctor", 0); symx_sym(&size, sizeof size, "size"); symx_sym(&slots, sizeof slots, "slots");
        if (w == 1) { symx_assume(size <= (size_t) symx_param("top", 2000)); } if (w == 2) { symx_assume(size <= 1024); symx_assume(slots > 100); } if (w == 3) { symx_assume(size > 100000); symx_mmap_max = 4096; } 
        jmp_buf jb; if (handlebars_setjmp_ex(cc, &jb)) { CHECK(handlebars_error_num(cc) == HANDLEBARS_ERROR, "a size that does not work is reported"); CHECK(symx_lock_depth == 0, "locks"); handlebars_context_dtor(cc); CHECK(symx_mmap_live == 0, "memory given back"); symx_reach("done"); return; }
        cache = handlebars_cache_mmap_ctor(cc, size, slots); cc->e->jmp = NULL; CHECK(w == 1 && slots > 0 && slots < 250, "unworkable sizes are refused");
        call(cache, STAT, 0, NULL); CHECK(st.total_size >= size && st.total_entries == slots && st.total_table_size >= 8 * slots && st.total_data_size < st.total_size, "sizes as requested"); CHECK(st.total_size >= st.total_table_size + st.total_data_size, "the parts fit in the block"); handlebars_cache_dtor(cache); CHECK(symx_mmap_live == 0, "memory given back"); symx_reach("done"); return;
    } else { jmp_buf jb; if (handlebars_setjmp_ex(cc, &jb)) { symx_fail("constructing failed"); return; }
        cache = be == 0 ? handlebars_cache_simple_ctor(cc) : be == 1 ? handlebars_cache_mmap_ctor(cc, symx_param("room", 8192) + 64 * symx_pick(symx_param("rooms", 1), "room"), symx_param("slots", 1)) : handlebars_cache_lmdb_ctor(cc, "db"); cc->e->jmp = NULL; }
    cache->max_age = max_age; cache->max_entries = symx_param("entries", 0); cache->max_size = symx_param("msize", 0);
    co = handlebars_context_ctor(); other = talloc_size(co, HANDLEBARS_CACHE_SIZE); memcpy(other, cache, HANDLEBARS_CACHE_SIZE); ((C *) other)->e = NULL; handlebars_context_bind(co, (C *) other);
    int L = symx_param("l", 3), pre = symx_param("pre", 0);
    if (pre & 1) { op_add(0); invariant(); } if (pre & 2) { op_add(1); invariant(); } if (pre & 4) { op_find(0, true); invariant(); }
    if (pre & 8) { op_find(0, false); symx_now += 5; }
    if (symx_param("two", 0)) { budget = 1; oop = symx_param("oop", 9) < 9 ? symx_param("oop", 9) : symx_pick(5, "other"); okey = symx_pick(2, "okey"); symx_hook = second; }
    if (symx_param("fault", 0)) { if (be == 1) symx_mprotect_fail = symx_pick(6, "fault"); if (be == 2) { symx_mdb_fail = symx_pick(symx_param("nf", 12), "fault"); symx_mdb_err = symx_pick(2, "err") ? 5 : -30792; } counted = false; }
    for (int s = 0; s < L; s++) {
        unsigned op = s == 0 && symx_param("o0", 99) != 99 ? symx_param("o0", 0) : symx_pick(7, "op"); int i = op < 3 ? symx_pick(symx_param("nk", NT), "key") : 0;
        if (op == 0) op_add(i);
        if (op == 1) op_find(i, false);
        if (op == 2) op_find(i, true);
        if (op == 3) { if (!nh) symx_assume(0); struct held x = h[0]; free(h[0].snap); for (unsigned q = 1; q < nh; q++) h[q - 1] = h[q]; nh--; CHECK(call(cache, RELEASE, x.i, &x), "releasing works"); }
        if (op == 4) { call(cache, GC, 0, NULL); if (be == 0 && !nh) { int old = 0; for (int q = 0; q < NT; q++) if (present[q] >= 0 && max_age >= 0 && (double) (symx_now - present[q]) >= max_age) present[q] = -1; else if (present[q] >= 0 && (cache->max_entries || cache->max_size)) old++;
              call(cache, STAT, 0, NULL); if (cache->max_entries) { CHECK(st.current_entries <= cache->max_entries, "collecting leaves at most the configured number of entries"); int in = 0; long newest = -1; for (int q = 0; q < NT; q++) if (present[q] >= 0 && present[q] > newest) newest = present[q];
                for (int q = 0; q < NT; q++) if (present[q] >= 0 && present[q] < newest) { in++; present[q] = -2; } else if (present[q] >= 0) present[q] = -2; (void) in; }
              else if (cache->max_size) { CHECK(st.current_size <= cache->max_size, "collecting leaves at most the configured size"); for (int q = 0; q < NT; q++) if (present[q] >= 0) present[q] = -2; } } 
            if (be == 2 && max_age >= 0 && counted) { call(cache, STAT, 0, NULL); size_t live = 0; bool unk = false; for (int q = 0; q < NT; q++) { if (present[q] == -2) unk = true; if (present[q] >= 0 && (double) (symx_now - t[q].ts) < max_age) live++; } if (!unk) CHECK(st.current_entries == live, "collecting drops exactly the expired entries"); } }
        if (op == 5) { int ok = call(cache, RESET, 0, NULL); if (ok && (!nh || be != 1)) for (int q = 0; q < NT; q++) present[q] = -1; if (ok && !nh && !budget) { if (call(cache, STAT, 0, NULL)) CHECK(st.current_entries == 0, "a reset cache is empty"); } if (!ok || (nh && be == 1)) for (int q = 0; q < NT; q++) if (present[q] >= 0) present[q] = -2; if (!ok) CHECK(symx_param("fault", 0), "resetting works"); }
        if (op == 6) { unsigned char d = symx_u8("tick"); symx_assume(d <= 12); symx_now += d; }
        invariant(); otherinv();
    }
    budget = 0; symx_hook = NULL; symx_mprotect_fail = -1; symx_mdb_fail = -1; invariant();
    if (oheld) { call(other, RELEASE, oh.i, &oh); oheld = false; }
    while (nh) { nh--; struct held x = h[nh]; free(x.snap); CHECK(call(cache, RELEASE, x.i, &x), "releasing works"); }
    if (be == 1 || be == 0) { CHECK(call(cache, STAT, 0, NULL), "statistics"); CHECK(st.refcount == 0, "the number of modules in use is counted"); }
    /* the number of entries is the number of texts that can be found */
    cache->max_age = -1; call(cache, STAT, 0, NULL); size_t cur = st.current_entries, n = 0; for (int i = 0; i < NT; i++) { struct held x = {0}; CHECK(call(cache, FIND, i, &x), "a later lookup works"); if (x.m) { CHECK(is(x.m, i), "a lookup returns the module of that very text"); n++; call(cache, RELEASE, i, &x); } }
    CHECK(n == cur, "the entries are counted");
    CHECK(call(cache, RESET, 0, NULL), "a later reset works"); call(cache, STAT, 0, NULL); CHECK(st.current_entries == 0, "a reset cache is empty");
    struct held x = {0}; if (be == 0) x.m = fresh(0); CHECK(call(cache, ADD, 0, &x), "a later addition works"); x.m = NULL; CHECK(call(cache, FIND, 0, &x), "a later lookup works"); if (x.m) { CHECK(is(x.m, 0), "right module"); call(cache, RELEASE, 0, &x); } else CHECK(symx_param("tight", 0) || symx_param("ctor", 0), "what fits is kept");
    invariant(); (void) base; handlebars_cache_dtor(cache); handlebars_context_dtor(cc); CHECK(symx_mmap_live == 0 && symx_mdb_envs == 0 && symx_mdb_errors == 0 && symx_prot_errors == 0, "everything is given back");
    symx_reach("done");
}
