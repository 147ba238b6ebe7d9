/* Map histories against an ordered association list. Keys have distinct contents and arbitrary (symbolic) hash values.
   params: cap (initial capacity), n (keys added first), nk (keys in play), l (free operations), own (holders), share (a second holder appears before the free operations), sort (sorting among the operations), what (0 dictionary, 1 order) */
#include "h.h"
#define MK 24
static C *ctx; static unsigned nk; static unsigned char hv[MK];
static S *key(unsigned k) { char b[3] = { 'k', (char) ('a' + k), 0 }; return handlebars_string_ctor_ex(ctx, b, 2, hv[k]); }
static long fresh(void) { long v; symx_sym(&v, sizeof v, "val"); return v; } /* stored integers are arbitrary */
struct ref { unsigned n; unsigned k[MK]; long v[MK]; };
static int rfind(struct ref *r, unsigned k) { for (unsigned i = 0; i < r->n; i++) if (r->k[i] == k) return (int) i; return -1; }
static void rput(struct ref *r, unsigned k, long v) { int i = rfind(r, k); if (i >= 0) { r->v[i] = v; return; } r->k[r->n] = k; r->v[r->n++] = v; }
static void rdel(struct ref *r, unsigned k) { int i = rfind(r, k); if (i < 0) return; for (unsigned j = (unsigned) i; j + 1 < r->n; j++) { r->k[j] = r->k[j + 1]; r->v[j] = r->v[j + 1]; } r->n--; }
static void check_dict(M *m, struct ref *r) {
    CHECK(handlebars_map_count(m) == r->n, "count is the number of present keys");
    for (unsigned k = 0; k < nk; k++) { V *v = handlebars_map_find(m, key(k)); int i = rfind(r, k); if (i < 0) CHECK(v == NULL, "absent key is not found"); else { CHECK(v != NULL, "present key is found"); CHECK(handlebars_value_get_type(v) == HANDLEBARS_VALUE_TYPE_INTEGER && handlebars_value_get_intval(v) == r->v[i], "found value is the last one stored"); } }
}
static void check_order(M *m, struct ref *r) {
    unsigned p = 0; unsigned extra = 0, bad = 0;
    handlebars_map_foreach(m, ix, kk, vv) { if (p >= r->n) extra++; else { if (hbs_str_len(kk) != 2 || hbs_str_val(kk)[1] != (char) ('a' + r->k[p]) || handlebars_value_get_intval(vv) != r->v[p]) bad++; } p++; } handlebars_map_foreach_end(m);
    CHECK(!extra && p == r->n, "iteration visits each key once"); CHECK(!bad, "iteration is in order of insertion with the stored values");
}
static int cmp_desc(const struct handlebars_map_kv_pair *a, const struct handlebars_map_kv_pair *b) { return (int) hbs_str_val(b->key)[1] - (int) hbs_str_val(a->key)[1]; }
static int cmp_r(const struct handlebars_map_kv_pair *a, const struct handlebars_map_kv_pair *b, const void *arg) { int m = *(const int *) arg; return ((int) (hbs_str_val(a->key)[1] - 'a') ^ m) - ((int) (hbs_str_val(b->key)[1] - 'a') ^ m); }
static void rsort(struct ref *r, unsigned mask) { for (unsigned i = 0; i < r->n; i++) for (unsigned j = i + 1; j < r->n; j++) if ((r->k[j] ^ mask) < (r->k[i] ^ mask)) { unsigned k = r->k[i]; long v = r->v[i]; r->k[i] = r->k[j]; r->v[i] = r->v[j]; r->k[j] = k; r->v[j] = v; } }

void harness(void) {
    unsigned n = symx_param("n", 2), l = symx_param("l", 2), own = symx_param("own", 1), share = symx_param("share", 0), sort = symx_param("sort", 0), what = symx_param("what", 0), strapi = symx_param("str", 0), comp = symx_param("comp", 1); nk = symx_param("nk", 3);
    ctx = handlebars_context_ctor(); jmp_buf jb; if (handlebars_setjmp_ex(ctx, &jb)) { symx_fail("a map operation reported an error"); return; }
    static struct ref r, snap; static V *val; val = h_val(ctx); M *other = NULL;
    unsigned sh = symx_param("nh", 4); /* keys below sh have symbolic hashes */
    if (!strapi) for (unsigned k = 0; k < nk; k++) { hv[k] = 1; if (k < sh) { symx_sym(&hv[k], 1, "hash"); symx_assume(hv[k] >= 1); } else hv[k] = (unsigned char) (1 + k * 7); }
    M *m = handlebars_map_ctor(ctx, symx_param("cap", 3)); for (unsigned i = 0; i < own; i++) handlebars_map_addref(m);
    long seq;
    for (unsigned i = 0; i < n; i++) { seq = fresh(); handlebars_value_integer(val, seq); m = (i & 1) ? handlebars_map_add(m, key(i), val) : handlebars_map_update(m, key(i), val); rput(&r, i, seq); }
    if (share) { other = m; handlebars_map_addref(m); snap = r; }
    for (unsigned i = 0; i < l; i++) {
        unsigned c = symx_pick(2 * nk + comp * 2 + (sort ? 2 : 0), "op");
        if (c < nk) { seq = fresh(); handlebars_value_integer(val, seq); if (strapi) { char b[3] = { 'k', (char) ('a' + c), 0 }; m = handlebars_map_str_update(m, b, 2, val); } else if (rfind(&r, c) < 0 && (i & 1)) m = handlebars_map_add(m, key(c), val); else m = handlebars_map_update(m, key(c), val); rput(&r, c, seq); }
        else if (c < 2 * nk) { c -= nk; if (strapi) { char b[3] = { 'k', (char) ('a' + c), 0 }; m = handlebars_map_str_remove(m, b, 2); } else m = handlebars_map_remove(m, key(c)); rdel(&r, c); }
        else if ((c -= 2 * nk) < comp * 2) { if (c == 0) m = handlebars_map_rehash(m, true); else { if (other && handlebars_map_count(m) == snap.n) continue; handlebars_map_sparse_array_compact(m); } }
        else if (c - comp * 2 == 0) { m = handlebars_map_sort(m, cmp_desc); rsort(&r, 31); }
        else { static int mask = 1; m = handlebars_map_sort_r(m, cmp_r, &mask); rsort(&r, 1); }
        if (what == 0) CHECK(handlebars_map_count(m) == r.n, "count follows each operation");
    }
    if (what == 0 || sort) check_dict(m, &r);
    if (what == 1) { check_order(m, &r); CHECK(handlebars_map_sparse_array_count(m) >= r.n, "slots cover the entries"); CHECK(handlebars_map_is_sparse(m) == (handlebars_map_sparse_array_count(m) != handlebars_map_count(m)), "sparse means removed slots"); check_order(m, &r); }
    if (other) { check_dict(other, &snap); check_order(other, &snap); }
    if (strapi && r.n) { char b[3] = { 'k', (char) ('a' + r.k[0]), 0 }; V *v = handlebars_map_str_find(m, b, 2); CHECK(v && handlebars_value_get_intval(v) == r.v[0], "found by plain text key"); CHECK(handlebars_map_str_find(m, "zz", 2) == NULL, "absent plain text key"); }
    if (what == 1) { M *cp = handlebars_map_copy_ctor(m, 0); check_order(cp, &r); if (symx_param("chkcp", 1)) { handlebars_value_integer(val, 7); cp = handlebars_map_update(cp, key(0), val); check_order(m, &r); } }
    size_t cnt = handlebars_map_count(m); symx_observe("count", &cnt, sizeof cnt); for (unsigned i = 0; i < r.n; i++) symx_observe("v", &r.v[i], sizeof(long));
    symx_reach("done");
}
