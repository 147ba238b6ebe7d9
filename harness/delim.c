/* P09: compatibility mode. w=0: a template written with changing delimiters renders like the same template written with {{ }}, a comment standing
   where each change stands. w=1: names are found in the nearest enclosing context that has them. */
#include "h.h"
static C *c; static unsigned char by; static V *d, *pv;
#define PUT(m, k, v) m = handlebars_map_str_update(m, k, sizeof k - 1, v)
static V *mk(M *m) { V *v = h_val(c); handlebars_value_map(v, m); return v; }
static int render(unsigned long flags, S *t, S **r) { struct h_opts o; memset(&o, 0, sizeof o); o.partials = pv; o.flags = flags; jmp_buf jb; volatile int ok = 0; if (handlebars_setjmp_ex(c, &jb) == 0) { *r = h_render_str(c, t, d, &o); ok = 1; symx_observe("out", hbs_str_val(*r), hbs_str_len(*r)); } else symx_observe("msg", handlebars_error_msg(c), strlen(handlebars_error_msg(c))); c->e->jmp = NULL; return ok; }
typedef struct { char b[700]; size_t n; } tb;
static void an(tb *t, const char *s, size_t n) { memcpy(t->b + t->n, s, n); t->n += n; }
static void as(tb *t, const char *s) { an(t, s, strlen(s)); }
/* pieces: '<' opens a tag, '>' closes it, '(' and ')' the same for a triple mustache, '#' is the arbitrary byte, '?' literal old delimiters around a name, '!' a delimiter change on the spot, everything else itself */
static const char *P[] = { "x<a>y", "<^e>\n#<b>\n</e>\n", "  <!c>\n<&b>", "((b))", "(#)", "<=k>", "<^l>.#<>", " <*l>\n<a>\n </l>\n", "?a? #", "<*m><a><b></m>", "<+ p>\n  <+ p>\n", "#", "<*if a>y<else>n</if>", "<a>}} #", "<~a~> #", "! #\n", "x! y", " !\n", "<*b>\n!\n<a></b>", "<a><b><!#><a>", "?#?x", "{# <a>", "<lookup m \"a\">", "<*each l><@index>#</each>" };
#define NP 24
static char opn[2][8], cls[2][8]; static size_t ol[2], cl[2]; static unsigned cur, chg;
static bool custom(void) { return cur > 0; }
static void piece(tb *t, tb *u, const char *p) {
    char last = 0;
    for (; *p; last = *p++) switch (*p) {
        case '<': if (custom()) an(t, opn[cur - 1], ol[cur - 1]); else as(t, "{{"); as(u, "{{"); if (p[1] == '>') { as(t, "^"); as(u, "^"); } break;
        case '>': if (custom()) an(t, cls[cur - 1], cl[cur - 1]); else as(t, "}}"); as(u, "}}"); break;
        case '*': as(t, "#"); as(u, "#"); break; case '+': as(t, ">"); as(u, ">"); break;
        case '=': break;
        case '(': if (p[1] == '(') { p++; if (custom()) { an(t, opn[cur - 1], ol[cur - 1]); as(t, "{"); } else as(t, "{{{"); as(u, "{{{"); } else { as(t, "("); as(u, "("); } break;
        case ')': if (p[1] == ')') { p++; if (custom()) { as(t, "}"); an(t, cls[cur - 1], cl[cur - 1]); } else as(t, "}}}"); as(u, "}}}"); } else { as(t, ")"); as(u, ")"); } break;
        case '#': an(t, (char *) &by, 1); an(u, (char *) &by, 1); break;
        case '?': { bool op = strchr(p + 1, '?') != NULL; as(t, op ? (custom() ? "{{" : "\\{{") : "}}"); as(u, op ? "\\{{" : "}}"); break; }
        case '!': if (last == '<') { as(t, "!"); as(u, "!"); break; } else { unsigned nx = chg++ ? 0 : 2; if (custom()) an(t, opn[cur - 1], ol[cur - 1]); else as(t, "{{"); as(t, "="); if (nx) { an(t, opn[1], ol[1]); as(t, " "); an(t, cls[1], cl[1]); } else as(t, "{{ }}"); as(t, "="); if (custom()) an(t, cls[cur - 1], cl[cur - 1]); else as(t, "}}"); as(u, "{{!}}"); cur = nx; } break;
        default: an(t, p, 1); an(u, p, 1);
    } }
static void pair(unsigned i, unsigned k) {
    static const char *O[] = { "<%", "[[", "<<<", "${", "|", "{%", "{", "{{{", "((", "{{", "@@", "<a", "\"", "/*", "..", "'", "ERB[" }, *Z[] = { "%>", "]]", ">>>", "$", "|", "%}", "}", "}}}", "))", "}", "@", "b>", "'", "*/", "..", "\"", "]BRE" };
    if (k < 17) { strcpy(opn[i], O[k]); strcpy(cls[i], Z[k]); ol[i] = strlen(O[k]); cl[i] = strlen(Z[k]); return; }
    unsigned w = k - 17; char o = (char) symx_u8("open"), z = (char) symx_u8("close"); /* arbitrary bytes that occur nowhere in the pieces */
    const char *no = "abceiflmkpnuxyhdorst .<>^&!#*?{}()~=\\+/\n\r\t@\"%|0123456789,-_"; for (const char *q = no; *q; q++) symx_assume(o != *q && z != *q); symx_assume(o != 0 && z != 0 && (signed char) o > 0 && (signed char) z > 0);
    ol[i] = cl[i] = 1 + w % 2; opn[i][0] = o; cls[i][0] = z; if (w % 2) { opn[i][1] = '$'; cls[i][1] = '$'; } }
static void delims(void) {
    unsigned k = symx_param("pair", 0); pair(0, k); pair(1, symx_param("pair2", 1)); tb t, u; t.n = u.n = 0; cur = 0; chg = 0;
    by = symx_u8("byte"); unsigned a = symx_param("p0", 99) < NP ? (unsigned) symx_param("p0", 99) : symx_pick(NP, "before"), b = symx_pick(NP, "after"), e = symx_param("third", 0) ? symx_pick(NP, "third") : 11;
    symx_assume(by != '\\' && by != 0 && by != '{' && by != '}'); for (unsigned i = 0; i < 2; i++) { for (size_t j = 0; j < ol[i]; j++) symx_assume(by != (unsigned char) opn[i][j]); for (size_t j = 0; j < cl[i]; j++) symx_assume(by != (unsigned char) cls[i][j]); }
    { unsigned q[3] = { a, b, e }; for (unsigned i = 0; i < 3; i++) for (unsigned j = 0; j < 2; j++) { unsigned kk = j ? symx_param("pair2", 1) : k; const char *n = kk == 6 ? "?{" : kk == 9 ? "?" : kk == 10 ? "@" : kk == 15 ? "\"" : ""; if (strpbrk(P[q[i]], n)) return; } } /* pieces in which such a tag would itself appear */
    unsigned bare = symx_param("spaces", 0);
    piece(&t, &u, P[a]); if (cur == 0 && !chg) { as(&t, "{{="); if (bare) as(&t, "  "); an(&t, opn[0], ol[0]); as(&t, bare ? "   " : " "); an(&t, cls[0], cl[0]); if (bare) as(&t, " "); as(&t, "=}}"); as(&u, "{{!}}"); cur = 1; } if (symx_param("nl", 0)) { as(&t, "\n"); as(&u, "\n"); } piece(&t, &u, P[b]); piece(&t, &u, P[e]);
    S *x = NULL, *y = NULL; int p = render(1, handlebars_string_ctor(c, t.b, t.n), &x), q = render(1, handlebars_string_ctor(c, u.b, u.n), &y); CHECK(p == q, "works like the template with the default tags"); if (p && q) { CHECK(h_eqn(hbs_str_val(x), hbs_str_len(x), hbs_str_val(y), hbs_str_len(y)), "renders like the template with the default tags"); symx_reach("same"); }
}
/* compatibility mode without delimiter changes is the identity on the tags */
static void plain(void) {
    cur = 0; chg = 9; tb t, u; t.n = u.n = 0; by = symx_u8("byte"); symx_assume(by != '\\' && by != '{'); unsigned a = symx_pick(NP, "first"), b = symx_pick(NP, "second"); if (a == 15 || a == 16 || a == 17 || a == 18 || b == 15 || b == 16 || b == 17 || b == 18) return; piece(&t, &u, P[a]); piece(&t, &u, P[b]); static const char *TAIL[] = { "", "\\", "\\\\", "{{a}}", "\\{{a}}", "{{{b}}}", "{{", "{{a", "{{}}", "{{{{raw}}}}{{b}}{{{{/raw}}}}", "\\\\{{b}}\\", "{" }; as(&t, TAIL[symx_param("tail", 0)]); as(&u, TAIL[symx_param("tail", 0)]);
    S *x = NULL, *y = NULL; int p = render(1, handlebars_string_ctor(c, t.b, t.n), &x), q;
    { struct h_opts o; memset(&o, 0, sizeof o); jmp_buf jb; volatile int ok = 0; if (handlebars_setjmp_ex(c, &jb) == 0) { struct handlebars_parser *ps = handlebars_parser_ctor(c); struct handlebars_ast_node *ast = handlebars_parse_ex(ps, handlebars_string_ctor(c, u.b, u.n), 1); struct handlebars_compiler *k = handlebars_compiler_ctor(c); handlebars_compiler_set_flags(k, 1); struct handlebars_module *m = handlebars_program_serialize(c, handlebars_compiler_compile_ex(k, ast)); struct handlebars_vm *vm = handlebars_vm_ctor(c); handlebars_vm_set_flags(vm, 1); handlebars_vm_set_partials(vm, pv); y = handlebars_vm_execute(vm, m, d); ok = 1; } c->e->jmp = NULL; q = ok; }
    CHECK(p == q, "accepted as without the delimiter pass"); if (p && q) CHECK(h_eqn(hbs_str_val(x), hbs_str_len(x), hbs_str_val(y), hbs_str_len(y)), "rendered as without the delimiter pass");
}
/* outer lookup: contexts 0 (outermost) to n; which of them have the name */
static void outer(void) {
    by = symx_u8("byte"); symx_assume(by > ' ' && by != '0' && by != '&' && by != '<' && by != '>' && by != '"' && by != '\'' && by != '`' && by != '='); unsigned n = symx_param("depth", 3), has = symx_pick(1u << (n + 1), "has"), form = symx_param("form", 0); char nm[2] = { (char) by, 0 };
    V *in = NULL; for (unsigned i = n + 1; i-- > 0;) { M *m = handlebars_map_ctor(c, 4); if (has & (1u << i)) { char v[3] = { (char) ('0' + i), (char) by, 0 }; if (form == 6) { M *q = handlebars_map_ctor(c, 1); if (i != 1) PUT(q, "y", h_str(c, v) ? h_vstr(c, v, 2) : NULL); V *w = mk(q); PUT(m, "x", w); } else PUT(m, "x", h_vstr(c, v, 2)); } PUT(m, "z", h_vstr(c, nm, 1)); if (in) { if (form == 1) { V *l = h_val(c); handlebars_value_array(l, handlebars_stack_ctor(c, 1)); handlebars_value_array_push(l, in); PUT(m, "s", l); } else PUT(m, "s", in); } in = mk(m); } d = in;
    static const char *O[] = { "{{#s}}", "{{#s}}", "{{#with s}}", "{{#if z}}{{#s}}", "{{#s}}{{#z}}", "{{#with s}}", "{{#s}}", "{{#s}}{{#x}}{{/x}}", "{{#s}}" }, *Z[] = { "{{/s}}", "{{/s}}", "{{/with}}", "{{/s}}{{/if}}", "{{/z}}{{/s}}", "{{/with}}", "{{/s}}", "{{/s}}", "{{/s}}" };
    tb t; t.n = 0; const char *use = form == 5 ? "{{#if x}}{{x}}{{/if}}" : form == 6 ? "{{x.y}}" : "{{x}}"; if (form == 8) { M *m = handlebars_map_ctor(c, 1); PUT(m, "w", h_vstr(c, "{{x}}", 5)); pv = mk(m); use = "{{> w}}"; } { for (unsigned i = 0; i < n; i++) as(&t, O[form]); as(&t, use); for (unsigned i = 0; i < n; i++) as(&t, Z[form]); }
    S *r = NULL; int ok = render(1, handlebars_string_ctor(c, t.b, t.n), &r); CHECK(ok, "renders"); if (!ok) return; int k = -1; for (unsigned i = 0; i <= n; i++) if (has & (1u << i)) k = (int) i; 
    char w[3] = { 0, 0, 0 }; if (k >= 0 && !(form == 6 && k == 1)) { w[0] = (char) ('0' + k); w[1] = (char) by; } CHECK(h_eqn(hbs_str_val(r), hbs_str_len(r), w, strlen(w)), "the nearest enclosing context that has the name");
    int q = render(0, handlebars_string_ctor(c, t.b, t.n), &r); CHECK(q, "renders"); if (form != 6 && form != 4) { bool here = has >> n & 1; if (here) { w[0] = (char) ('0' + n); w[1] = (char) by; } else w[0] = 0; CHECK(h_eqn(hbs_str_val(r), hbs_str_len(r), w, strlen(w)), "without the mode only the current context is asked"); }
}
void harness(void) {
    c = handlebars_context_ctor(); M *p = handlebars_map_ctor(c, 2); PUT(p, "p", h_vstr(c, "P{{a}}<%a%>\n", 12)); pv = mk(p); V *l = h_val(c); handlebars_value_array(l, handlebars_stack_ctor(c, 2)); handlebars_value_array_push(l, h_vint(c, 1)); handlebars_value_array_push(l, h_vint(c, 2)); M *k = handlebars_map_ctor(c, 2); PUT(k, "a", h_vstr(c, "MA", 2));
    M *m = handlebars_map_ctor(c, 8); PUT(m, "a", h_vstr(c, "<A>", 3)); PUT(m, "b", h_vstr(c, "B&", 2)); PUT(m, "l", l); PUT(m, "m", mk(k)); d = mk(m);
    switch (symx_param("w", 0)) { case 0: delims(); break; case 1: outer(); break; default: plain(); } handlebars_context_dtor(c); symx_reach("done"); }
