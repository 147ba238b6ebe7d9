/* P27: JSON data. A document is described by a model tree, written as JSON text, read by the library, and every accessor must give the model's contents,
   read lazily and after conversion; rendering it gives what rendering the same tree built natively gives and leaves it as it was.
   params: w 0 reading, 1 rendering, 2 malformed texts; t root type; nest, kids; how the document is handed in */
#include "mv.h"
#include "handlebars_json.h"
#include <json.h>
static C *c; static mv kids[40]; static unsigned nkid, nb; static char keyb[40][4];
static const struct { double d; const char *t; } FL[] = { {0.0, "0.0"}, {1.5, "1.5"}, {-2.25, "-2.25"}, {1e100, "1e100"}, {100, "1E+2"}, {0.015625, "15625e-6"} };
static const struct { long i; const char *t; } IL[] = { {0, "0"}, {-1, "-1"}, {2147483648L, "2147483648"}, {9223372036854775807L, "9223372036854775807"}, {-9223372036854775807L - 1, "-9223372036854775808"}, {4294967296L, "4294967296"}, {-2147483649L, "-2147483649"} };
static char txt[2000]; static size_t tn; static unsigned wsp;
static void pc(char x) { txt[tn++] = x; } static void ps(const char *s) { while (*s) pc(*s++); }
static void sp(void) { static const char *W[] = { "", " ", "\n\t ", "\r\n" }; ps(W[wsp & 3]); }
static char hx(unsigned v) { return (char) (v < 10 ? '0' + v : 'a' + v - 10); }
static void pstr(const char *s, size_t n) { pc('"'); for (size_t i = 0; i < n; i++) { unsigned char b = (unsigned char) s[i]; if (b < 0x20) { ps("\\u00"); pc(hx(b >> 4)); pc(hx(b & 15)); } else if (b == '"' || b == '\\') { pc('\\'); pc((char) b); } else if (b == '/' && (wsp & 4)) { ps("\\/"); } else pc((char) b); } pc('"'); }
static void gen(mv *m, unsigned t, unsigned depth) {
    if (t == 99) t = symx_pick(depth ? 8 : 6, "type"); m->t = (int) t;
    if (t == MV_INT) { unsigned k = symx_pick(9, "int"); if (k < 7) { m->i = IL[k].i; m->dt = IL[k].t; } else { unsigned nd = k == 7 ? 1 : 3; char *b = keyb[nkid + 20 < 40 ? nkid + 20 : 39]; long v = 0; for (unsigned i = 0; i < nd; i++) { unsigned char x = symx_u8("digit"); symx_assume(x >= '0' && x <= '9' && (i || x != '0')); b[i] = (char) x; v = v * 10 + (x - '0'); } b[nd] = 0; m->i = v; m->dt = b; } }
    if (t == MV_FLT) { unsigned k = symx_pick(6, "flt"); m->d = FL[k].d; m->dt = FL[k].t; }
    if (t == MV_STR) { m->n = symx_pick(nb + 1, "len"); symx_sym(m->s, m->n, "text"); }
    if (t == MV_ARR || t == MV_MAP) { m->kn = symx_pick((unsigned) symx_param("kids", 2) + 1, "count"); for (unsigned i = 0; i < m->kn; i++) { char *k = keyb[nkid]; static const char *KS[] = { "a", "", "b" }; if (i == 2) { unsigned char x = symx_u8("key"); symx_assume(x != 0 && x != 'a'); k[0] = (char) x; k[1] = 0; } else strcpy(k, KS[i]); m->key[i] = k; m->k[i] = &kids[nkid++]; gen(m->k[i], depth > 1 ? 99 : symx_pick(6, "type"), depth - 1); } }
}
static void emit(const mv *m) {
    switch (m->t) { case MV_NULL: ps("null"); break; case MV_TRUE: ps("true"); break; case MV_FALSE: ps("false"); break; case MV_INT: case MV_FLT: ps(m->dt); break; case MV_STR: pstr(m->s, m->n); break;
        case MV_ARR: pc('['); for (unsigned i = 0; i < m->kn; i++) { if (i) pc(','); sp(); emit(m->k[i]); sp(); } pc(']'); break;
        case MV_MAP: pc('{'); for (unsigned i = 0; i < m->kn; i++) { if (i) pc(','); sp(); pstr(m->key[i], strlen(m->key[i])); sp(); pc(':'); sp(); emit(m->k[i]); } sp(); pc('}'); break; } }
static void same(V *v, const mv *m, bool conv) {
    static const int ty[] = { HANDLEBARS_VALUE_TYPE_NULL, HANDLEBARS_VALUE_TYPE_TRUE, HANDLEBARS_VALUE_TYPE_FALSE, HANDLEBARS_VALUE_TYPE_INTEGER, HANDLEBARS_VALUE_TYPE_FLOAT, HANDLEBARS_VALUE_TYPE_STRING, HANDLEBARS_VALUE_TYPE_ARRAY, HANDLEBARS_VALUE_TYPE_MAP };
    CHECK((int) handlebars_value_get_type(v) == ty[m->t], "type"); if ((int) handlebars_value_get_type(v) != ty[m->t]) return;
    if (conv || m->t < MV_ARR) CHECK((int) handlebars_value_get_real_type(v) == ty[m->t], "a native value");
    CHECK(handlebars_value_is_empty(v) == mv_empty(m), "emptiness"); CHECK(handlebars_value_count(v) == (m->t < MV_ARR ? -1 : (long) m->kn), "count");
    if (m->t == MV_INT) CHECK(handlebars_value_get_intval(v) == m->i, "integer"); if (m->t == MV_FLT) CHECK(handlebars_value_get_floatval(v) == m->d, "float"); if (m->t == MV_STR) CHECK(h_eqn(handlebars_value_get_strval(v), handlebars_value_get_strlen(v), m->s, m->n), "text");
    V *rv = h_val(c);
    for (unsigned i = 0; i < m->kn; i++) { V *e = m->t == MV_ARR ? handlebars_value_array_find(v, i, rv) : handlebars_value_map_str_find(v, m->key[i], strlen(m->key[i]), rv); CHECK(e != NULL, "found"); if (e) same(e, m->k[i], conv); handlebars_value_null(rv); }
    if (m->t == MV_ARR) { CHECK(!handlebars_value_array_find(v, m->kn, rv) && !handlebars_value_array_find(v, 4294967296UL, rv) && !handlebars_value_array_find(v, (size_t) -1, rv), "nothing past the end"); }
    if (m->t == MV_MAP) { CHECK(!handlebars_value_map_str_find(v, "zz", 2, rv), "no such key"); if (m->kn) CHECK(!handlebars_value_map_str_find(v, "a\0b", 3, rv), "no such key either"); }
    unsigned p = 0; HANDLEBARS_VALUE_FOREACH_IDX_KV(v, ix, k, ch) { CHECK(p < m->kn, "iteration ends"); if (p >= m->kn) break; same(ch, m->k[p], conv); if (m->t == MV_MAP) CHECK(k && h_eqn(hbs_str_val(k), hbs_str_len(k), m->key[p], strlen(m->key[p])), "key"); else CHECK(ix == p, "index"); p++; } HANDLEBARS_VALUE_FOREACH_END();
    CHECK(p == m->kn, "iteration visits every entry");
}
static struct json_object *jo;
static int load(V *v, unsigned how) { jmp_buf jb; volatile int ok = 0; if (handlebars_setjmp_ex(c, &jb) == 0) { if (how == 0) { txt[tn] = 0; handlebars_value_init_json_string(c, v, txt); } else if (how == 1) { char *x = talloc_size(c, tn + 1); memcpy(x, txt, tn); x = talloc_realloc_size(c, x, tn ? tn : 1); handlebars_value_init_json_stringl(c, v, x, tn); talloc_free(x); } else if (how == 2) { txt[tn] = 0; enum json_tokener_error er; jo = json_tokener_parse_verbose(txt, &er); handlebars_value_init_json_object(c, v, jo); } else { txt[tn] = 0; handlebars_value_init_json_stringl(c, v, txt, tn + 1); } ok = 1; } c->e->jmp = NULL; return ok; }
static int ren(const char *t, V *d, unsigned long fl, S **r) { struct h_opts o; memset(&o, 0, sizeof o); o.flags = fl; jmp_buf jb; volatile int ok = 0; if (handlebars_setjmp_ex(c, &jb) == 0) { *r = h_render_str(c, h_str(c, t), d, &o); ok = 1; symx_observe("out", hbs_str_val(*r), hbs_str_len(*r)); } c->e->jmp = NULL; return ok; }
static const char *T[] = { "{{x}}|{{{x}}}", "{{#each x}}[{{@key}}:{{@index}}:{{this}}{{@first}}{{@last}}]{{else}}E{{/each}}", "{{#x}}<{{.}}>{{a}}{{/x}}{{^x}}N{{/x}}", "{{#with x}}{{a}}|{{b}}|{{../y}}{{else}}E{{/with}}", "{{lookup x 0}}|{{lookup x \"a\"}}|{{x.length}}|{{x.[1]}}|{{x.a.b}}|{{x.[4294967296]}}|{{x.[-1]}}", "{{#if x}}T{{else}}F{{/if}}{{#unless x.a}}U{{/unless}}", "{{#x}}{{#a}}{{y}}{{a}}{{/a}}{{a}}{{/x}}", "{{#each x}}{{#each this}}{{@../key}}{{@key}}{{.}}{{../../y}}{{/each}}{{/each}}", "{{#with x}}{{#with this}}{{../y}}|{{../a}}{{/with}}{{/with}}", "{{#each this as |v k|}}{{k}}={{v}};{{/each}}", "{{#x}}{{#a}}{{#y}}{{z}}{{/y}}{{/a}}{{/x}}{{x.[]}}{{x.a.a}}" };
void harness(void) {
    c = handlebars_context_ctor(); nb = (unsigned) symx_param("n", 2); unsigned w = symx_param("w", 0), how = symx_param("how", 0); wsp = symx_param("ws", 0); static mv doc; gen(&doc, symx_param("type", 99), (unsigned) symx_param("nest", 1));
    if (w == 0) { if (wsp & 8) ps(" \n"); emit(&doc); if (wsp & 8) ps("\n "); V *v = h_val(c), *k = h_val(c); symx_observe("text", txt, tn); CHECK(load(v, how), "read"); same(v, &doc, false); handlebars_value_value(k, v); handlebars_value_convert(v); same(v, &doc, true); same(k, &doc, false); if (how == 2) { handlebars_value_dtor(v); handlebars_value_dtor(k); handlebars_value_init_json_object(c, k, jo); same(k, &doc, false); handlebars_value_dtor(k); if (jo) CHECK(json_object_put(jo) == 1, "no reference is left"); } else { handlebars_value_null(v); same(k, &doc, false); handlebars_value_dtor(k); } }
    if (w == 1) { ps("{\"y\":\"Y\",\"x\":"); emit(&doc); pc('}'); symx_observe("text", txt, tn); static mv top, y; y.t = MV_STR; y.s[0] = 'Y'; y.n = 1; top.t = MV_MAP; top.kn = 2; top.key[0] = "y"; top.k[0] = &y; top.key[1] = "x"; top.k[1] = &doc;
        V *v = h_val(c), *k = h_val(c), *n = mv_val(c, &top); CHECK(load(v, how), "read"); handlebars_value_value(k, v); handlebars_value_convert(k); unsigned ti = (unsigned) symx_param("tm", 0); unsigned long fl = symx_param("compat", 0);
        S *a = NULL, *b = NULL, *d = NULL; int ra = ren(T[ti], n, fl, &a), rb = ren(T[ti], v, fl, &b), rd = ren(T[ti], k, fl, &d); CHECK(ra == rb && ra == rd, "works or fails like native data"); if (ra && rb) CHECK(h_eqn(hbs_str_val(a), hbs_str_len(a), hbs_str_val(b), hbs_str_len(b)), "renders like native data"); if (ra && rd) CHECK(h_eqn(hbs_str_val(a), hbs_str_len(a), hbs_str_val(d), hbs_str_len(d)), "converted, renders like native data");
        same(v, &top, false); if (how == 2) { V *q = h_val(c); handlebars_value_init_json_object(c, q, jo); same(q, &top, false); } }
    if (w == 2) { emit(&doc); unsigned kind = symx_pick(2, "kind"); if (kind == 0) { symx_assume(doc.t != MV_INT && doc.t != MV_FLT); tn = symx_pick((unsigned) tn, "cut"); } else { unsigned s = symx_pick(2, "space"); if (s) pc('\n'); unsigned char x = symx_u8("junk"); symx_assume(x != 0 && x != ' ' && x != '\n' && x != '\t' && x != '\r' && x != '\v' && x != '\f' && x != '/'); if ((doc.t == MV_INT || doc.t == MV_FLT) && !s) symx_assume(x == '[' || x == ',' || x == '"' || x == '{'); pc((char) x); }
        symx_observe("text", txt, tn); V *v = h_val(c); CHECK(!load(v, how), "a malformed text is an error"); CHECK((int) handlebars_value_get_type(v) == HANDLEBARS_VALUE_TYPE_NULL, "no value"); CHECK(strlen(handlebars_error_msg(c)) > 0, "with a message"); tn = 0; ps("[1,\"x\"]"); CHECK(load(v, 0) && handlebars_value_count(v) == 2, "the next document is read"); }
    handlebars_context_dtor(c); symx_reach("done");
}
