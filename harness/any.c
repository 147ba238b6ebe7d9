/* P11: any bytes as a template: parsing, compiling and rendering end with text or a reported error and touch only live memory. */
#include "h.h"
static C *c; static V *d, *pv, *hv; static char *B; static size_t n;
static V *hlp(HANDLEBARS_HELPER_ARGS) { (void) vm; (void) options; if (argc > 0) handlebars_value_value(rv, HANDLEBARS_ARG_AT(0)); return rv; }
#define PUT(m, k, v) m = handlebars_map_str_update(m, k, sizeof k - 1, v)
static V *mk(M *m) { V *v = h_val(c); handlebars_value_map(v, m); return v; }
static void data(void) {
    V *l = h_val(c); handlebars_value_array(l, handlebars_stack_ctor(c, 2)); handlebars_value_array_push(l, h_vint(c, 1)); handlebars_value_array_push(l, h_vstr(c, "x", 1)); M *k = handlebars_map_ctor(c, 2); PUT(k, "b", h_vstr(c, "B", 1));
    M *m = handlebars_map_ctor(c, 8); PUT(m, "a", h_vstr(c, "A", 1)); PUT(m, "b", h_vbool(c, true)); PUT(m, "l", l); PUT(m, "m", mk(k)); d = mk(m); M *p = handlebars_map_ctor(c, 2); PUT(p, "p", h_vstr(c, "P{{a}}\n", 7)); pv = mk(p); M *h = handlebars_map_ctor(c, 2); V *f = h_val(c); handlebars_value_helper(f, hlp); PUT(h, "h", f); hv = mk(h); }
/* templates whose every byte is replaced, doubled by an arbitrary one, dropped, or the last */
static const char *T[] = { "a{{b}}c", "{{{a}}}{{&a}}", "{{#if a}}x{{else}}y{{/if}}", "{{#each l as |v i|}}{{v}}{{/each}}", "{{! c }}{{!-- d --}}", "{{> p}} {{> p x=1}}", "{{#> p}}q{{/p}}", "{{{{a}}}}{{b}}{{{{/a}}}}", "\\{{a}}\\\\{{b}}", "{{~a~}} \n {{~#b~}} {{~/b~}}", "{{h \"s\\\"\" 't' 1 -2.5}}", "{{h (h a) k=true j=null}}", "{{../a.b/[c d]}}{{@root.a}}", "{{^a}}n{{/a}}{{#l}}.{{^}}{{/l}}", "{{#if z}}{{else if a}}{{/if}}", "{{* d}}{{#*inline \"i\"}}{{/inline}}", "{{=<% %>=}}<%a%><%={{ }}=%>{{b}}", "{{a.[0]}}{{this}}{{.}}{{..}}", "  {{> p}}\r\n\t{{#a}}\n{{/a}}\n", "{{&a}}{{#m}}{{b}}{{../a}}{{/m}}", "{{lookup m \"b\"}}{{undefined}}", "}}{{{ a }}}{{{{{{" };
#define NT 22
static void run(unsigned long flags, S *t) {
    struct h_opts o; memset(&o, 0, sizeof o); o.partials = pv; o.helpers = hv; o.flags = flags; jmp_buf jb; volatile int ok = 0; S *r = NULL;
    if (handlebars_setjmp_ex(c, &jb) == 0) { r = h_render_str(c, t, d, &o); ok = 1; }
    CHECK(c->e->jmp == &jb, "the handler is the caller's"); c->e->jmp = NULL;
    if (ok) { size_t l = hbs_str_len(r); CHECK(r != NULL && hbs_str_val(r)[l] == 0, "a terminated text"); symx_observe("out", hbs_str_val(r), l); symx_reach("text"); }
    else { CHECK(handlebars_error_num(c) != HANDLEBARS_SUCCESS, "an error number"); CHECK(handlebars_error_num(c) != HANDLEBARS_NOMEM, "memory was not exhausted"); const char *m = handlebars_error_msg(c); CHECK(m && m[0], "a message"); symx_observe("msg", m, strlen(m)); symx_reach("error"); } }
void harness(void) {
    c = handlebars_context_ctor(); data(); unsigned w = symx_param("w", 0); unsigned long flags = symx_param("fl", 0); unsigned k = symx_param("n", 2);
    if (w == 0) { static const char *PRE[] = { "", "{{", "{{#a}}", "\\", "{{h \"", "{{{", "{{{{", "{{!", "{{=", "{{a", "{{#if", "{{a.", "{{h k=", "{{[", "{{@", "{{> ", "{{h (", "{{=<", "{{h 1", "{{#a as |" }, *POST[] = { "", "}}", "}}}}", "{{a}}", "}}{{/a}}", "--}}", "=}}", " %>=}}", "\"}}", ")}}", "]}}" };
        const char *a = PRE[symx_param("pre", 0)], *z = POST[symx_param("post", 0)]; size_t al = strlen(a), zl = strlen(z); n = al + k + zl; B = malloc(n); memcpy(B, a, al); for (unsigned i = 0; i < k; i++) { char s[8]; snprintf(s, sizeof s, "b%u", i); static const unsigned char RP[] = { '{', '}', '/', '#', '^', '&', '!', '>', '~', '@', '=', '.', '"', '\'', '(', ')', '[', ']', '|', '\\', '-', '0', ' ', '\n', 'a', 'e', 0, 0x80, 0xff, '*', '%', '<' }; B[al + i] = symx_param("mix", 0) && i != symx_param("at", 0) ? (char) RP[symx_pick(32, s)] : (char) symx_u8(s); } memcpy(B + al + k, z, zl); }
    else { const char *t = T[symx_param("tm", 0)]; size_t tl = strlen(t); char b = (char) symx_u8("byte"); unsigned p = symx_pick(tl + 1, "place"); B = malloc(tl + 2);
        switch (w) {
        case 1: if (p == tl) return; memcpy(B, t, tl); B[p] = b; n = tl; break;
        case 2: memcpy(B, t, p); B[p] = b; memcpy(B + p + 1, t + p, tl - p); n = tl + 1; break;
        case 3: memcpy(B, t, p); B[p] = b; n = p + 1; break;
        case 4: { unsigned q = symx_pick(tl + 1, "to"); if (q <= p) return; memcpy(B, t, p); memcpy(B + p, t + q, tl - q); n = tl - (q - p); symx_assume(b == 'a'); break; }
        default: { unsigned q = symx_param("t2", 0); const char *u = T[q]; size_t ul = strlen(u); unsigned r = symx_pick(ul + 1, "from"); B = malloc(tl + ul + 1); memcpy(B, t, p); memcpy(B + p, u + r, ul - r); n = p + ul - r; symx_assume(b == 'a'); break; }
        } }
    S *t = handlebars_string_ctor(c, B, n); run(flags, t);
    if (symx_param("again", 1)) { S *u = h_str(c, "{{a}}"); struct h_opts o; memset(&o, 0, sizeof o); jmp_buf jb; if (handlebars_setjmp_ex(c, &jb)) { CHECK(0, "the context works afterwards"); return; } S *r = h_render_str(c, u, d, &o); CHECK(h_eqn(hbs_str_val(r), hbs_str_len(r), "A", 1), "renders rightly afterwards"); c->e->jmp = NULL; }
    handlebars_context_dtor(c); symx_reach("done");
}
