/* P28: YAML data. w=0: one scalar of any style and bytes; w=1: documents built node by node; w=2: the same documents as flow style text; w=3: malformed texts,
   aliases, keys that are no scalars. */
#include "mv.h"
#include "handlebars_yaml.h"
#include <yaml.h>
static C *c; static mv kids[40]; static unsigned nkid, nb; static int sty[40];
static char fb[40][40];
static int dig(char x) { return x >= '0' && x <= '9'; }
/* what a plain scalar of these bytes means */
static void plain(mv *m, const char *s, size_t n) {
    m->big = NULL; size_t i = 0; if (n == 0 || (n == 1 && s[0] == '~') || (n == 4 && h_eqn(s, n, "null", 4))) { m->t = MV_NULL; return; } if (n == 4 && h_eqn(s, n, "true", 4)) { m->t = MV_TRUE; return; } if (n == 5 && h_eqn(s, n, "false", 5)) { m->t = MV_FALSE; return; }
    bool neg = s[0] == '-'; if (neg || s[0] == '+') i++; size_t b = i; unsigned long v = 0; bool of = false; while (i < n && dig(s[i])) { unsigned d = (unsigned) (s[i] - '0'); if (v > (9223372036854775807UL + neg - d) / 10) of = true; v = v * 10 + d; i++; }
    if (i == n && i > b && !of) { m->t = MV_INT; m->i = neg ? (long) (0 - v) : (long) v; return; }
    bool any = i > b; if (i < n && s[i] == '.') { i++; while (i < n && dig(s[i])) { any = true; i++; } } if (any && i < n && (s[i] == 'e' || s[i] == 'E')) { size_t j = i + 1; if (j < n && (s[j] == '-' || s[j] == '+')) j++; if (j < n && dig(s[j])) { while (j < n && dig(s[j])) j++; i = j; } }
    if (any && i == n) { m->t = MV_FLT; char t[40]; memcpy(t, s, n); t[n] = 0; m->d = strtod(t, NULL); return; }
    m->t = MV_STR; m->n = n; m->big = s; }
static const char *W[] = { "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999", "1e5", "0x1F", "infinity", "nan", "INF", "NaN", "1_000", ".inf", "-.5", "1.", "+1", "0o17", "007", "1e", "1.2.3", "--1", "1-1", "e5", "TRUE", "true", "false", "null", "~", "nullx", "truefalse", "0x", "1e400x", "-0", "1.5e-3", "+.5E2", "0x1p3", "12ab", "2001-01-01", "a-b", "tru", "nul", "0.0" };
#define NW 42
static char raw[40][40]; static size_t rawn[40];
static int add(yaml_document_t *d, const mv *m, unsigned i) { (void) m; return yaml_document_add_scalar(d, NULL, (yaml_char_t *) raw[i], (int) rawn[i], (yaml_scalar_style_t) sty[i]); }
/* a scalar: style 0 plain word, 1 plain bytes, 2 single, 3 double quoted */
static unsigned scal(mv *m, unsigned how, bool text) {
    unsigned i = nkid++; unsigned k = how < 4 ? how : symx_pick(4, "style"); size_t n;
    if (k == 0) { unsigned w = symx_pick(NW, "word"); n = strlen(W[w]); memcpy(raw[i], W[w], n); } else { n = symx_pick(nb + 1, "len"); if (text && k == 1 && !n) n = 1; symx_sym(raw[i], n, "bytes"); }
    rawn[i] = n; raw[i][n] = 0;
    for (size_t j = 0; j < n && k == 1; j++) { unsigned char b = (unsigned char) raw[i][j]; symx_assume(b != 0 && !(b == ' ' || (b >= 9 && b <= 13))); if (text) symx_assume((b >= '0' && b <= '9') || (b >= 'a' && b <= 'z') || (b >= 'A' && b <= 'Z') || b == '.' || b == '+' || b == '_' || b == '/' || (b == '~' && 1) || (b == '-' && j)); }
    for (size_t j = 0; j < n && text && k == 2; j++) { unsigned char b = (unsigned char) raw[i][j]; symx_assume(b > ' ' && b < 127); }
    sty[i] = k <= 1 ? (int) (text ? YAML_PLAIN_SCALAR_STYLE : symx_param("any", 0) ? YAML_ANY_SCALAR_STYLE : YAML_PLAIN_SCALAR_STYLE) : k == 2 ? YAML_SINGLE_QUOTED_SCALAR_STYLE : symx_param("lit", 0) == 1 ? YAML_LITERAL_SCALAR_STYLE : symx_param("lit", 0) == 2 ? YAML_FOLDED_SCALAR_STYLE : YAML_DOUBLE_QUOTED_SCALAR_STYLE;
    if (k <= 1) plain(m, raw[i], n); else { m->t = MV_STR; m->n = n; m->big = raw[i]; if (text && k == 3) { size_t q = 0; for (size_t j = 0; j < n; j++) { unsigned char b = (unsigned char) raw[i][j]; if (b < 0x80) fb[i][q++] = (char) b; else { fb[i][q++] = (char) (0xc0 | b >> 6); fb[i][q++] = (char) (0x80 | (b & 63)); } } m->big = fb[i]; m->n = q; } }
    return i; }
static char txt[2000]; static size_t tn; static unsigned wsp;
static void pc(char x) { txt[tn++] = x; } static void ps(const char *s) { while (*s) pc(*s++); } static void sp(void) { static const char *S4[] = { "", " ", "\n   ", "  " }; ps(S4[wsp & 3]); }
static char hx(unsigned v) { return (char) (v < 10 ? '0' + v : 'a' + v - 10); }
static void pscal(unsigned i) { if (sty[i] == YAML_PLAIN_SCALAR_STYLE) { for (size_t j = 0; j < rawn[i]; j++) pc(raw[i][j]); pc(' '); } else if (sty[i] == YAML_SINGLE_QUOTED_SCALAR_STYLE) { pc('\''); for (size_t j = 0; j < rawn[i]; j++) { if (raw[i][j] == '\'') pc('\''); pc(raw[i][j]); } pc('\''); } else { pc('"'); for (size_t j = 0; j < rawn[i]; j++) { unsigned char b = (unsigned char) raw[i][j]; ps("\\x"); pc(hx(b >> 4)); pc(hx(b & 15)); } pc('"'); } }
static void same(V *v, const mv *m) {
    static const int ty[] = { HANDLEBARS_VALUE_TYPE_NULL, HANDLEBARS_VALUE_TYPE_TRUE, HANDLEBARS_VALUE_TYPE_FALSE, HANDLEBARS_VALUE_TYPE_INTEGER, HANDLEBARS_VALUE_TYPE_FLOAT, HANDLEBARS_VALUE_TYPE_STRING, HANDLEBARS_VALUE_TYPE_ARRAY, HANDLEBARS_VALUE_TYPE_MAP };
    CHECK((int) handlebars_value_get_type(v) == ty[m->t], "type by the spelling"); if ((int) handlebars_value_get_type(v) != ty[m->t]) return;
    if (m->t == MV_INT) CHECK(handlebars_value_get_intval(v) == m->i, "integer"); if (m->t == MV_FLT) CHECK(handlebars_value_get_floatval(v) == m->d, "float"); if (m->t == MV_STR) CHECK(h_eqn(handlebars_value_get_strval(v), handlebars_value_get_strlen(v), MVS(m), m->n), "text, byte for byte");
    CHECK(handlebars_value_count(v) == (m->t < MV_ARR ? -1 : (long) m->kn), "count"); unsigned p = 0;
    if (m->t >= MV_ARR) { HANDLEBARS_VALUE_FOREACH_IDX_KV(v, ix, k, ch) { CHECK(p < m->kn, "iteration ends"); if (p >= m->kn) break; same(ch, m->k[p]); if (m->t == MV_MAP) CHECK(k && h_eqn(hbs_str_val(k), hbs_str_len(k), m->key[p], strlen(m->key[p])), "key"); else CHECK(ix == p, "index"); p++; } HANDLEBARS_VALUE_FOREACH_END(); CHECK(p == m->kn, "every entry, in order"); } }
static int load(V *v) { jmp_buf jb; volatile int ok = 0; txt[tn] = 0; if (handlebars_setjmp_ex(c, &jb) == 0) { handlebars_value_init_yaml_string(c, v, txt); ok = 1; } c->e->jmp = NULL; return ok; }
static int loadd(V *v, yaml_document_t *d) { jmp_buf jb; volatile int ok = 0; if (handlebars_setjmp_ex(c, &jb) == 0) { handlebars_value_init_yaml_node(c, v, d, yaml_document_get_root_node(d)); ok = 1; } c->e->jmp = NULL; return ok; }
/* documents: 0 [s, s], 1 {k: s, j: s}, 2 [[s], {k: s}], 3 {k: {j: [s, s]}, j: s}, 4 [s, &a s, [*a, s]], 5 [], 6 {k: []} */
static mv nod[12]; static unsigned nn; static mv *cont(int t) { mv *m = &nod[nn++]; m->t = t; m->kn = 0; return m; } static void put(mv *p, const char *k, mv *q) { p->key[p->kn] = k; p->k[p->kn++] = q; }
static mv *sc(unsigned how, bool text) { unsigned i = nkid; mv *m = &kids[i]; scal(m, how, text); return m; }
static bool istext; static yaml_document_t D;
static int emit(mv *m) { /* writes the text and builds the nodes */
    if (m->t == MV_ARR) { int q = istext ? 0 : yaml_document_add_sequence(&D, NULL, YAML_FLOW_SEQUENCE_STYLE); if (istext) pc('['); for (unsigned i = 0; i < m->kn; i++) { if (istext && i) pc(','); if (istext) sp(); int r = emit(m->k[i]); if (!istext) yaml_document_append_sequence_item(&D, q, r); else sp(); } if (istext) pc(']'); return q; }
    if (m->t == MV_MAP) { int q = istext ? 0 : yaml_document_add_mapping(&D, NULL, YAML_FLOW_MAPPING_STYLE); if (istext) pc('{'); for (unsigned i = 0; i < m->kn; i++) { if (istext && i) pc(','); if (istext) { sp(); ps(m->key[i]); ps(": "); sp(); } int k = istext ? 0 : yaml_document_add_scalar(&D, NULL, (yaml_char_t *) m->key[i], (int) strlen(m->key[i]), YAML_PLAIN_SCALAR_STYLE); int r = emit(m->k[i]); if (!istext) yaml_document_append_mapping_pair(&D, q, k, r); else sp(); } if (istext) pc('}'); return q; }
    unsigned i = (unsigned) (m - kids); if (istext) { pscal(i); return 0; } return add(&D, m, i); }
static mv *doc(unsigned shape, bool text) {
    istext = text; mv *r, *x, *y; unsigned a = (unsigned) symx_param("a", 9), b = (unsigned) symx_param("b", 2); static char kb[4] = "k"; if (symx_param("sk", 0)) { unsigned char z = symx_u8("key"); symx_assume(z >= 'a' && z <= 'z' && z != 'j'); kb[0] = (char) z; } const char *K1 = symx_param("num", 0) ? "12" : kb, *J = "j";
    switch (shape) {
        case 0: r = cont(MV_ARR); put(r, 0, sc(a, text)); put(r, 0, sc(b, text)); put(r, 0, sc(0, text)); break;
        case 1: r = cont(MV_MAP); put(r, K1, sc(a, text)); put(r, J, sc(b, text)); break;
        case 2: r = cont(MV_ARR); x = cont(MV_ARR); put(x, 0, sc(a, text)); put(r, 0, x); y = cont(MV_MAP); put(y, K1, sc(b, text)); put(r, 0, y); break;
        case 3: r = cont(MV_MAP); x = cont(MV_MAP); y = cont(MV_ARR); put(y, 0, sc(a, text)); put(y, 0, sc(b, text)); put(x, J, y); put(r, K1, x); put(r, J, sc(2, text)); break;
        case 5: r = cont(MV_ARR); break; case 6: r = cont(MV_MAP); put(r, K1, cont(MV_ARR)); put(r, J, cont(MV_MAP)); break;
        default: r = sc(a, text); break; }
    return r; }

void harness(void) {
    c = handlebars_context_ctor(); nb = (unsigned) symx_param("n", 2); wsp = (unsigned) symx_param("ws", 0); unsigned w = symx_param("w", 0); V *v = h_val(c);
    if (w == 0) { static mv m; unsigned i = scal(&m, (unsigned) symx_param("style", 9), false); yaml_document_initialize(&D, NULL, NULL, NULL, 1, 1); add(&D, &m, i); handlebars_value_boolean(v, true); CHECK(loadd(v, &D), "read"); yaml_document_delete(&D); same(v, &m); }
    if (w == 1) { mv *m = doc((unsigned) symx_param("shape", 0), false); yaml_document_initialize(&D, NULL, NULL, NULL, 1, 1); emit(m); CHECK(loadd(v, &D), "read"); yaml_document_delete(&D); same(v, m); V *x = h_val(c); handlebars_value_value(x, v); handlebars_value_dtor(v); same(x, m); }
    if (w == 2) { mv *m = doc((unsigned) symx_param("shape", 0), true); if (wsp & 4) ps("---\n"); emit(m); if (wsp & 8) ps("\n---\n[1]\n"); else if (wsp & 4) pc('\n'); symx_observe("text", txt, tn); CHECK(load(v), "read"); same(v, m); }
    if (w == 3) { unsigned k = (unsigned) symx_param("bad", 0); static const char *B[] = { "[1, [2, 'x'], {a: \"b\"}]", "&a [1, *a]", "{k: &a {x: *a}}", "{[1]: 2}", "[{a: 1}, {{b: 1}: 2}]", "[&a [1], *b]", "[1] x", "{a: 1} ]", "'a' b", "[1]\n---\n[2", "", "[1, 2]]" };
        ps(B[k]); if (k == 0) tn = 1 + symx_pick((unsigned) tn - 1, "cut"); symx_observe("text", txt, tn); CHECK(!load(v), "a text that cannot be read is an error"); CHECK(strncmp(handlebars_error_msg(c), "YAML", 4) == 0, "with a message"); tn = 0; ps("[1,'x']"); V *y = h_val(c); CHECK(load(y) && handlebars_value_count(y) == 2, "the next document is read"); }
    handlebars_context_dtor(c); symx_reach("done");
}
