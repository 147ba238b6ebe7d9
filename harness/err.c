/* P14: what an error reports, where, and that everything works again afterwards. */
#include "h.h"
#include "handlebars_ast_printer.h"
#include "handlebars_token.h"
static C *c;
static char *B; static size_t bn; static size_t mark[2];
static void ap(const char *s) { for (; *s; s++) { if (*s == 1) mark[0] = bn; else if (*s == 2) mark[1] = bn; else B[bn++] = *s; } }
static void sym(unsigned n, const char *nm) { for (unsigned i = 0; i < n; i++) { char t[8]; snprintf(t, sizeof t, "%s%u", nm, i); char b = (char) symx_u8(t); symx_assume(b != '{' && b != '\\' && b != 0 && !(*nm == 'b' && b == '}')); B[bn++] = b; } }
/* \1 and \2 enclose the token at fault */
static const char *BAD[] = { "{{a b=\1}}\2", "{{>\1}}\2", "\1{{/\2x}}", "\1{{else}}\2", "{{{a\1}}\2", "{{a\1}}}\2", "{{a \1\"\2b}}", "{{\1a\2", "{{a \1%\2}}", "{{#if a}}x{{/\1%\2}}", "{{a \1%\2\n}}", "{{a\n b\nc=\n \1}}\2 x", "{{#each a as }}\1\2", "{{#if a\n}}y{{b \n\n (\1}}\2{{/if}}",
  "{{{{a}}}}\nx\1\2", "{{#if a}}x\1\2", "{{a \1\2", "{{a\n b\n\1\2", "{{#if a}}\n\n\1\2", "\1{{#if a\n}}x\n{{/unless}}\2", "{{a b \1a/../b\2\n}}", "\1{{{{a}}}}b\n{{{{/c}}}}\2" };
static const char *PRE[] = { "", "{{a\n  b}}", "{{! x\ny }}", "{{!-- l\n\nm --}}", "\\{{e}}\nf", "\\\\{{a}}", "{{{{a}}}}b\n{{c}}{{{{/a}}}}", "{{#if a}}\n b{{else}}c\n{{/if}}", "{{{a}}}\n{{&b}}", "{{~a~}}\n", "{{> a\nb=1}}\r\n", "\\\\\\{{a}}", "{{#> a}}\n{{/a}}", "{{a [b\nc] \"d\ne\"}}", "\\{{e}}\\\\{{a}}", "\\{{e}}\\{{e\n}}{{b}}", "x\\\ny", "{{^a}}\n{{/a}}{", "}}\n}", "{{a.b/c}}\n\n\n" };
static void at(size_t p, int *l, int *col) { *l = 1; *col = 0; for (size_t i = 0; i < p; i++) { if (B[i] == '\n') { ++*l; *col = 0; } else ++*col; } }
static void positions(void) {
    unsigned bad = symx_param("bad", 0), pre = symx_param("pre", 0), n = symx_param("n", 2); B = malloc(400); bn = 0; sym(n, "a"); ap(PRE[pre]); sym(symx_param("m", 1), "b"); ap(BAD[bad]);
    struct handlebars_parser *p = handlebars_parser_ctor(c); jmp_buf jb; struct handlebars_ast_node *a = NULL;
    if (handlebars_setjmp_ex(c, &jb) == 0) { S *t = handlebars_string_ctor(c, B, bn); a = handlebars_parse_ex(p, t, 0); }
    CHECK(c->e->jmp == &jb, "the error handler is mine"); c->e->jmp = NULL; CHECK(!a, "an invalid template is refused"); CHECK(handlebars_error_num(c) == (bad == 19 || bad == 20 || bad == 21 ? handlebars_error_num(c) : HANDLEBARS_PARSEERR), "a parse error"); CHECK(handlebars_error_num(c) != HANDLEBARS_SUCCESS, "an error"); CHECK(handlebars_error_msg(c) && handlebars_error_msg(c)[0], "a message");
    struct handlebars_locinfo l = handlebars_error_loc(c); int fl, fc, ll, lc; at(mark[0], &fl, &fc); at(mark[1] > mark[0] ? mark[1] - 1 : mark[1], &ll, &lc); symx_observe("loc", &l, sizeof l);
    if (bad == 19 || bad == 21) { CHECK((l.first_line > fl || (l.first_line == fl && l.first_column >= fc)) && (l.last_line < ll || (l.last_line == ll && l.last_column <= lc)) && l.first_line <= l.last_line, "the error lies in the block"); }
    else { CHECK(l.first_line == fl, "the first line"); CHECK(l.first_column == fc, "the first column"); CHECK(l.last_line == ll, "the last line"); CHECK(l.last_column == lc, "the last column"); }
    const char *m = handlebars_error_message(c), *j = handlebars_error_message_js(c); char w[600]; snprintf(w, sizeof w, "%s on line %d, column %d", handlebars_error_msg(c), l.last_line, l.last_column); CHECK(strcmp(m, w) == 0, "the message"); snprintf(w, sizeof w, "Parse error on line %d, column %d : %s", l.first_line, l.first_column, handlebars_error_msg(c)); CHECK(strcmp(j, w) == 0, "the other message");
}
/* histories: parse, scan or render; each item gives what it gives in a context of its own */
static unsigned char by;
static const char *T[] = { "x#{{a}}\n {{#if a}}\n y{{/if}}\n", "x\n#{{#if a", "x{{{{a}}}}#", "{{! #\nx", "\\{{#}} {{b}}", "{{#if a}}\n  {{> p }}\n{{/if}} {{a/../b}}", "{{nope 1 \"#\"}}", "{{#each a}}{{nope 1}}{{/each}}", "{{#a}}#{{else}}{{> q}}{{/a}}", "{{> bad}}", "  \n{{#a}}\n#{{/a}}\n", "{{a", "{{\"#", "" };
#define NT 14
typedef struct { char *p; size_t n; int num; struct handlebars_locinfo loc; } res;
static res keep(const char *p, size_t n, int num) { res r; memset(&r, 0, sizeof r); r.p = malloc(n + 1); memcpy(r.p, p, n); r.p[n] = 0; r.n = n; r.num = num; return r; }
static S *text(C *x, unsigned t) { size_t n = strlen(T[t]); char s[80]; for (size_t i = 0; i <= n; i++) s[i] = T[t][i] == '#' && !(i >= 2 && s[i - 1] == '{') ? (char) by : T[t][i]; return handlebars_string_ctor(x, s, n); }
static res one(C *x, unsigned t, unsigned how, struct handlebars_parser *p) {
    jmp_buf jb; if (handlebars_setjmp_ex(x, &jb)) { CHECK(x->e->jmp == &jb, "the handler stays"); x->e->jmp = NULL; const char *m = handlebars_error_msg(x); res r = keep(m ? m : "", m ? strlen(m) : 0, handlebars_error_num(x)); r.loc = handlebars_error_loc(x); return r; }
    if (!p) p = handlebars_parser_ctor(x); res r;
    if (how == 1) { struct handlebars_token **k = handlebars_lex_ex(p, text(x, t)); S *o = h_str(x, ""); for (; *k; k++) { o = handlebars_string_append_str(x, o, handlebars_token_print(x, *k, 0)); } r = keep(hbs_str_val(o), hbs_str_len(o), 0); }
    else { struct handlebars_ast_node *a = handlebars_parse_ex(p, text(x, t), 0); CHECK(a != NULL, "a parsed template");
        if (how == 0) { S *o = handlebars_ast_print(x, a); r = keep(hbs_str_val(o), hbs_str_len(o), 0); }
        else { struct handlebars_compiler *cc = handlebars_compiler_ctor(x); struct handlebars_module *m = handlebars_program_serialize(x, handlebars_compiler_compile_ex(cc, a)); struct handlebars_vm *vm = handlebars_vm_ctor(x); M *pm = handlebars_map_ctor(x, 1); handlebars_map_addref(pm); pm = handlebars_map_str_add(pm, "bad", 3, h_vstr(x, "{{#if", 5)); V *pv = h_val(x); handlebars_value_map(pv, pm); handlebars_vm_set_partials(vm, pv);
            M *d = handlebars_map_ctor(x, 1); handlebars_map_addref(d); d = handlebars_map_str_add(d, "a", 1, h_vstr(x, "v", 1)); V *dv = h_val(x); handlebars_value_map(dv, d); S *o = handlebars_vm_execute(vm, m, dv); r = keep(hbs_str_val(o), hbs_str_len(o), 0); } }
    CHECK(x->e->jmp == &jb, "the handler is the caller's again"); x->e->jmp = NULL; return r; }
static res alone[3][NT]; static bool have[3][NT];
static void histories(void) {
    by = symx_u8("byte"); symx_assume(by != 0); unsigned L = symx_param("l", 2); struct handlebars_parser *p = handlebars_parser_ctor(c);
    for (unsigned s = 0; s < L; s++) {
        unsigned t = s == 0 && symx_param("tm", 99) < NT ? (unsigned) symx_param("tm", 99) : symx_pick(NT, "template"), how = symx_pick(3, "how"); bool same = symx_pick(2, "same");
        if (!have[how][t]) { C *x = handlebars_context_ctor(); alone[how][t] = one(x, t, how, NULL); have[how][t] = true; symx_observe("alone", alone[how][t].p, alone[how][t].n); handlebars_context_dtor(x); }
        res r = one(c, t, how, same ? p : NULL), *a = &alone[how][t]; symx_observe("here", r.p, r.n);
        CHECK(r.num == a->num, "the same outcome as alone"); CHECK(h_eqn(r.p, r.n, a->p, a->n), "the same text or message as alone"); CHECK(r.loc.first_line == a->loc.first_line && r.loc.first_column == a->loc.first_column && r.loc.last_line == a->loc.last_line && r.loc.last_column == a->loc.last_column, "the same place as alone");
    }
}
/* messages carry the names they are about, of any length */
static void messages(void) {
    unsigned n = symx_param("n", 3), w = symx_param("k", 0); B = malloc(2 * n + 64); bn = 0; size_t s0, s1; by = symx_u8("byte"); symx_assume((by >= 'a' && by <= 'z') || by >= 0x80 || by == '_');
    const char *a[] = { "{{", "{{#", "{{> ", "{{x (", "{{#if a}}{{/" }, *b[] = { " 1}}", " 1 2}}{{/", "}}", " 1)}}", "}}" }; ap(a[w]); s0 = bn; for (unsigned i = 0; i < n; i++) B[bn++] = i == 0 ? 'n' : (char) by; s1 = bn; ap(b[w]); if (w == 1) { for (size_t i = s0; i < s1; i++) B[bn++] = B[i]; ap("}}"); }
    jmp_buf jb; bool ok = false; if (handlebars_setjmp_ex(c, &jb) == 0) { struct h_opts o; memset(&o, 0, sizeof o); h_render_str(c, handlebars_string_ctor(c, B, bn), h_val(c), &o); ok = true; } c->e->jmp = NULL; CHECK(!ok, "an error"); CHECK(handlebars_error_num(c) == HANDLEBARS_ERROR || w == 4, "an ordinary error");
    const char *m = handlebars_error_msg(c); bool found = false; size_t ml = strlen(m); for (size_t i = 0; i + n <= ml && !found; i++) found = m[i] == 'n' && h_eqn(m + i, n, B + s0, n); CHECK(found, "the message tells the name"); const char *x = handlebars_error_message(c); CHECK(strncmp(x, m, ml) == 0 && strncmp(x + ml, " on line ", 9) == 0, "the whole message"); x = handlebars_error_message_js(c); size_t xl = strlen(x); CHECK(xl > ml && strcmp(x + xl - ml, m) == 0, "the whole message, second form"); symx_observe("msg", m, ml);
}
void harness(void) { c = handlebars_context_ctor(); switch (symx_param("w", 0)) { case 0: positions(); break; case 1: histories(); break; default: messages(); } handlebars_context_dtor(c); symx_reach("done"); }
