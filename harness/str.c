/* String operations against byte-level references. params: op, n, m, k, rc (references held on the operand), hs (hash precomputed) */
#include "h.h"
#define MX 64
static char A[MX], B[MX], D[MX], X[256]; static size_t xn;
static void put(const char *p, size_t n) { for (size_t i = 0; i < n; i++) X[xn++] = p[i]; }
static int in_set(char c, const char *s, size_t n) { for (size_t i = 0; i < n; i++) if (s[i] == c) return 1; return 0; }
static int oct(char c) { return c >= '0' && c <= '7'; }
static int hexv(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
static const char *esc(char c) { switch (c) { case '&': return "&amp;"; case '<': return "&lt;"; case '>': return "&gt;"; case '"': return "&quot;"; case '\'': return "&#x27;"; case '`': return "&#x60;"; } return 0; }
static void ref_esc(const char *p, size_t n) { for (size_t i = 0; i < n; i++) { const char *e = esc(p[i]); if (e) put(e, strlen(e)); else put(p + i, 1); } }
static size_t ref_find(const char *h, size_t hn, const char *d, size_t dn, size_t from) { if (!dn) return (size_t) -1; for (size_t i = from; i + dn <= hn; i++) { size_t j = 0; while (j < dn && h[i + j] == d[j]) j++; if (j == dn) return i; } return (size_t) -1; }
static void ref_replace(const char *h, size_t hn, const char *d, size_t dn, const char *r, size_t rn) { size_t i = 0; while (i < hn) { size_t q = ref_find(h, hn, d, dn, i); if (q == (size_t) -1) { put(h + i, hn - i); return; } put(h + i, q - i); put(r, rn); i = q + dn; } }
static void ref_addc(const char *p, size_t n, const char *w, size_t wn) {
    for (size_t i = 0; i < n; i++) { unsigned char c = p[i]; if (!in_set(p[i], w, wn)) { put(p + i, 1); continue; } put("\\", 1); if (c >= 32 && c <= 126) { put(p + i, 1); continue; }
        switch (c) { case '\n': put("n", 1); break; case '\t': put("t", 1); break; case '\r': put("r", 1); break; case '\a': put("a", 1); break; case '\v': put("v", 1); break; case '\b': put("b", 1); break; case '\f': put("f", 1); break;
        default: { char o[3] = { '0' + (c >> 6), '0' + ((c >> 3) & 7), '0' + (c & 7) }; put(o, 3); } } } }
static void ref_strip(const char *p, size_t n) {
    for (size_t i = 0; i < n;) { if (p[i] != '\\' || i + 1 >= n) { put(p + i, 1); i++; continue; } i++; char c;
        switch (p[i]) { case 'n': c = '\n'; i++; break; case 'r': c = '\r'; i++; break; case 'a': c = '\a'; i++; break; case 't': c = '\t'; i++; break; case 'v': c = '\v'; i++; break; case 'b': c = '\b'; i++; break; case 'f': c = '\f'; i++; break; case '\\': c = '\\'; i++; break;
        case 'x': if (i + 1 < n && hexv(p[i + 1]) >= 0) { int v = hexv(p[i + 1]); i += 2; if (i < n && hexv(p[i]) >= 0) { v = v * 16 + hexv(p[i]); i++; } c = (char) v; break; } c = 'x'; i++; break;
        default: if (oct(p[i])) { int v = 0, k = 0; while (i < n && k < 3 && oct(p[i])) { v = v * 8 + (p[i] - '0'); i++; k++; } c = (char) v; } else { c = p[i]; i++; } }
        put(&c, 1); } }
static void ref_indent(const char *p, size_t n, const char *d, size_t dn) { size_t e = n; if (!n) return; int nl = n && p[n - 1] == '\n'; if (nl) e--; put(d, dn); for (size_t i = 0; i < e; i++) { put(p + i, 1); if (p[i] == '\n') put(d, dn); } if (nl) put("\n", 1); }

void harness(void) {
    unsigned op = symx_param("op", 0), n = symx_param("n", 2), m = symx_param("m", 1), k = symx_param("k", 1), rc = symx_param("rc", 0);
    C *ctx = handlebars_context_ctor(); jmp_buf jb; if (handlebars_setjmp_ex(ctx, &jb)) { symx_fail("a string operation reported an error"); return; }
    if (n) symx_sym(A, n, "a"); if (m) symx_sym(B, m, "b"); if (k) symx_sym(D, k, "d");
    S *s = handlebars_string_ctor(ctx, A, n); for (unsigned i = 0; i < rc; i++) handlebars_string_addref(s);
    S *o = handlebars_string_ctor(ctx, B, m); S *keep = s; S *t = s; int inplace = 1;
    if (symx_param("hs", 1)) { (void) hbs_str_hash(s); (void) hbs_str_hash(o); }
    switch (op) {
    case 0: t = handlebars_string_append(ctx, s, B, m); put(A, n); put(B, m); break;
    case 1: t = handlebars_string_append_str(ctx, s, o); put(A, n); put(B, m); break;
    case 2: t = handlebars_string_htmlspecialchars(ctx, A, n); ref_esc(A, n); inplace = 0; break;
    case 3: t = handlebars_string_htmlspecialchars_append(ctx, s, B, m); put(A, n); ref_esc(B, m); break;
    case 4: { for (unsigned i = 0; i < n; i++) symx_assume(A[i] != 0); for (unsigned i = 0; i < m; i++) symx_assume(B[i] != 0); t = handlebars_str_replace(ctx, s, B, m, D, k); if (m == 0) put(A, n); else ref_replace(A, n, B, m, D, k); inplace = 0; break; }
    case 5: { for (unsigned i = 0; i < n; i++) symx_assume(A[i] != 0); for (unsigned i = 0; i < m; i++) symx_assume(B[i] != 0); t = handlebars_str_reduce(s, B, m, D, k); if (m == 0 || k > m) put(A, n); else ref_replace(A, n, B, m, D, k); break; }
    case 6: t = handlebars_string_addcslashes(ctx, s, B, m); ref_addc(A, n, B, m); inplace = 0; break;
    case 7: t = handlebars_string_stripcslashes(s); ref_strip(A, n); break;
    case 8: { for (unsigned i = 0; i < n; i++) symx_assume(A[i] != 0); size_t i = 0; while (i < n && in_set(A[i], B, m)) i++; t = handlebars_string_ltrim(s, B, m); put(A + i, n - i); break; }
    case 9: { size_t e = n; while (e > 0 && in_set(A[e - 1], B, m)) e--; t = handlebars_string_rtrim(s, B, m); put(A, e); break; }
    case 10: { unsigned st = symx_pick(n + 3, "start"), en = symx_pick(n + 3, "end"); size_t e = en < n ? en : n, b = st < e ? st : e; t = handlebars_string_truncate(s, st, en); put(A + b, e - b); break; }
    case 11: { S *in = handlebars_string_ctor(ctx, B, m); handlebars_string_addref(in); handlebars_string_addref(in); t = handlebars_string_indent(ctx, in, s); ref_indent(B, m, A, n); inplace = 0; CHECK(h_eqn(hbs_str_val(in), hbs_str_len(in), B, m), "indent leaves its input alone"); break; }
    case 12: { S *in = handlebars_string_ctor(ctx, B, m); S *ind = handlebars_string_ctor(ctx, D, k); handlebars_string_addref(in); handlebars_string_addref(in); t = handlebars_string_indent_append(ctx, s, in, ind); put(A, n); ref_indent(B, m, D, k); break; }
    case 13: { S *parts[4] = { s, o, handlebars_string_ctor(ctx, D, k), NULL }; unsigned c = symx_pick(4, "count"); parts[c] = NULL; t = handlebars_string_implode(ctx, "::", symx_pick(3, "sep"), parts); size_t sl = 0; { /* separator length as chosen */ } (void) sl;
        size_t tot = 0; for (unsigned i = 0; i < c; i++) tot += hbs_str_len(parts[i]); size_t sp = c > 1 ? (hbs_str_len(t) - tot) / (c - 1) : 0; CHECK(sp <= 2, "separator used between parts"); for (unsigned i = 0; i < c; i++) { if (i) put("::", sp); put(hbs_str_val(parts[i]), hbs_str_len(parts[i])); } inplace = 0; break; }
    case 14: t = handlebars_string_copy_ctor(ctx, s); put(A, n); inplace = 0; break;
    case 15: t = handlebars_string_extend(ctx, s, n + symx_pick(40, "extra")); put(A, n); CHECK(hbs_str_len(t) == n, "extend keeps the length"); break;
    case 16: t = handlebars_string_extend(ctx, s, 60); t = handlebars_string_compact(t); put(A, n); break;
    case 17: { for (unsigned i = 0; i < m; i++) symx_assume(B[i] != 0); B[m] = 0; t = handlebars_string_asprintf_append(ctx, s, "<%s|%d>", B, 42); put(A, n); put("<", 1); put(B, m); put("|42>", 4); break; }
    case 18: { for (unsigned i = 0; i < m; i++) symx_assume(B[i] != 0); B[m] = 0; t = handlebars_string_asprintf(ctx, "%.*s-%zu", (int) m, B, (size_t) 7); put(B, m); put("-7", 2); inplace = 0; break; }
    case 19: t = handlebars_string_ctor_ex(ctx, A, n, handlebars_string_hash(A, n)); put(A, n); inplace = 0; break;
    case 20: { /* search */ for (unsigned i = 0; i < n; i++) symx_assume(A[i] != 0); for (unsigned i = 0; i < m; i++) symx_assume(B[i] != 0); const char *p = handlebars_strnstr(A, n, B, m); size_t q = ref_find(A, n, B, m, 0); CHECK(q == (size_t) -1 ? p == NULL : p == A + q, "search finds the first occurrence"); put(A, n); break; }
    case 21: { /* equality is equality of bytes */ bool same = h_eqn(A, n, B, m); CHECK(handlebars_string_eq(s, o) == same, "string equality is equality of contents"); put(A, n); break; }
    case 22: { bool same = h_eqn(A, n, B, m); CHECK(hbs_str_eq_strl(s, B, m) == same, "string equality against a buffer is equality of contents"); put(A, n); break; }
    case 23: { /* decode(encode(x)) == x */ S *e = handlebars_string_addcslashes(ctx, s, B, m); if (!in_set('\\', B, m)) { for (unsigned i = 0; i < n; i++) symx_assume(A[i] != '\\'); } for (unsigned i = 0; i < m; i++) symx_assume(!in_set(B[i], "nrtavbfx01234567", 16)); t = handlebars_string_stripcslashes(e); put(A, n); inplace = 0; break; }
    case 24: { /* several edits in a row */ t = s; for (unsigned i = 0; i < k; i++) { unsigned w = symx_pick(4, "edit"); (void) hbs_str_hash(t);
            if (w == 0) { t = handlebars_string_append(ctx, t, B, m); if (!i) put(A, n); put(B, m); } else if (w == 1) { if (!i) put(A, n); t = handlebars_string_truncate(t, 0, 1); if (xn > 1) xn = 1; } else if (w == 2) { if (!i) put(A, n); ref_esc(B, m); t = handlebars_string_htmlspecialchars_append(ctx, t, B, m); } else { if (!i) put(A, n); t = handlebars_string_truncate(t, 1, (size_t) -1); if (xn) { memmove(X, X + 1, xn - 1); xn--; } } }
        break; }
    }
    size_t tl = hbs_str_len(t); char *tv = hbs_str_val(t); CHECK(tl == xn, "result length");
    symx_observe("len", &tl, 1); if (tl == xn) { symx_observe("res", tv, tl); CHECK(h_eqn(tv, tl, X, xn), "result bytes"); }
    CHECK(tv[tl] == 0, "result is terminated"); CHECK(talloc_get_size(t) >= (size_t) (tv - (char *) t) + tl + 1, "result has room for its contents");
    CHECK(hbs_str_hash(t) == handlebars_string_hash(tv, tl), "hash matches contents");
    if (rc >= 2 || !inplace) { CHECK(hbs_str_len(keep) == n && h_eqn(hbs_str_val(keep), n, A, n), "other holders of the string see it unchanged"); CHECK(hbs_str_hash(keep) == handlebars_string_hash(A, n), "other holders see the right hash"); }
    CHECK(h_eqn(hbs_str_val(o), hbs_str_len(o), B, m), "arguments are unchanged");
    symx_reach("done");
}
