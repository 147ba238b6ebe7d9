/* P12: every nesting construct, at every depth in a range, renders exactly or stops with a reported error; no depth fails below one that works. */
#include "h.h"
static C *c; static S *t, *w; static unsigned char by;
static void a(const char *s) { t = handlebars_string_append(c, t, s, strlen(s)); }
static void rep(const char *s, unsigned n) { for (unsigned i = 0; i < n; i++) a(s); }
static void e(const char *s) { w = handlebars_string_append(c, w, s, strlen(s)); }
static void erep(const char *s, unsigned n) { for (unsigned i = 0; i < n; i++) e(s); }
static void num(S **o, unsigned i) { char b[16]; snprintf(b, sizeof b, "%u", i); *o = handlebars_string_append(c, *o, b, strlen(b)); }
static V *map1(const char *k, V *v) { M *m = handlebars_map_ctor(c, 2); m = handlebars_map_str_update(m, k, strlen(k), v); V *r = h_val(c); handlebars_value_map(r, m); return r; }
static V *map2(const char *k, V *v, const char *k2, V *v2) { M *m = handlebars_map_ctor(c, 2); m = handlebars_map_str_update(m, k, strlen(k), v); m = handlebars_map_str_update(m, k2, strlen(k2), v2); V *r = h_val(c); handlebars_value_map(r, m); return r; }
static V *arr1(V *v) { V *r = h_val(c); handlebars_value_array(r, handlebars_stack_ctor(c, 1)); handlebars_value_array_push(r, v); return r; }
static V *leaf(void) { char x = (char) by; return h_vstr(c, &x, 1); }
static V *nest(V *v, const char *k, unsigned n) { for (unsigned i = 0; i < n; i++) v = map1(k, v); return v; }
static V *nesta(V *v, unsigned n) { for (unsigned i = 0; i < n; i++) v = arr1(v); return v; }
static V *ident(HANDLEBARS_HELPER_ARGS) { (void) vm; V *h = NULL; if (argc == 0) { V *k = handlebars_value_map_str_find(options->hash, "x", 1, rv); if (!k) handlebars_value_null(rv); return rv; } (void) h; handlebars_value_value(rv, HANDLEBARS_ARG_AT(argc - 1)); return rv; }
static V *blockh(HANDLEBARS_HELPER_ARGS) { (void) argc; (void) argv; S *s = handlebars_vm_execute_program(vm, options->program, options->scope); S *o = handlebars_string_ctor(c, "<", 1); o = handlebars_string_append_str(c, o, s); o = handlebars_string_append(c, o, ">", 1); handlebars_value_str(rv, o); return rv; }
static V *count(HANDLEBARS_HELPER_ARGS) { (void) vm; (void) argv; long n = argc; if (argc == 0 && options->hash && handlebars_value_get_type(options->hash) == HANDLEBARS_VALUE_TYPE_MAP && handlebars_value_count(options->hash) > 0 && handlebars_value_get_type(options->hash) == HANDLEBARS_VALUE_TYPE_MAP) n = 1000 + handlebars_value_count(options->hash); handlebars_value_integer(rv, n); return rv; }
static unsigned left, pat[3];
static V *more(HANDLEBARS_HELPER_ARGS) { (void) vm; (void) argc; (void) argv; (void) options; handlebars_value_boolean(rv, left > 0); if (left) left--; return rv; }
static V *pick(HANDLEBARS_HELPER_ARGS) { (void) vm; (void) argc; (void) argv; (void) options; handlebars_value_str(rv, h_str(c, left ? "p" : "q")); if (left) left--; return rv; }
static V *helper(handlebars_helper_func f) { V *v = h_val(c); handlebars_value_helper(v, f); return v; }
/* one rendering: 1 = as expected, 0 = a reported error */
static int one(unsigned k, unsigned n, unsigned long flags, bool must_end) {
    t = handlebars_string_ctor(c, "", 0); w = handlebars_string_ctor(c, "", 0); V *d; M *pm = handlebars_map_ctor(c, 4); bool never = false; char x[2] = { (char) by, 0 };
#define PART(nm, s) pm = handlebars_map_str_update(pm, nm, strlen(nm), h_vstr(c, s, strlen(s)))
    switch (k) {
    case 0: rep("{{#if b}}<", n); a("{{b}}"); rep(">{{/if}}", n); erep("<", n); e(x); erep(">", n); d = map1("b", leaf()); break;
    case 1: rep("{{#with a}}<", n); a("{{b}}"); rep(">{{/with}}", n); erep("<", n); e(x); erep(">", n); d = nest(map1("b", leaf()), "a", n); break;
    case 2: rep("{{#each this}}<", n); a("{{.}}"); rep(">{{/each}}", n); erep("<", n); e(x); erep(">", n); d = nesta(leaf(), n); break;
    case 3: a("{{#if f}}x"); rep("{{else if f}}y", n); a("{{else}}{{b}}{{/if}}"); e(x); d = map1("b", leaf()); break;
    case 4: rep("{{^f}}<", n); a("{{b}}"); rep(">{{/f}}", n); erep("<", n); e(x); erep(">", n); d = map1("b", leaf()); break;
    case 5: a("{{b"); rep(".b", n); a("}}"); e(x); d = nest(leaf(), "b", n + 1); break;
    case 6: a("{{#with a}}{{#with a}}{{#if true}}{{"); rep("../", n); a("b}}{{/if}}{{/with}}{{/with}}|{{b}}"); d = map2("a", map2("a", map1("b", h_vstr(c, "2", 1)), "b", h_vstr(c, "1", 1)), "b", leaf()); if (n == 0) e("2"); else if (n == 1) e("1"); else if (n == 2) e(x); e("|"); e(x); break;
    case 7: a("{{id "); rep("(id ", n); a("b"); rep(")", n); a("}}"); e(x); d = map1("b", leaf()); break;
    case 8: a("{{id x="); rep("(id x=", n); a("b"); rep(")", n); a("}}"); e(x); d = map1("b", leaf()); break;
    case 9: a("{{id"); rep(" 1", n); a(" b}}{{n"); rep(" b", n); a("}}"); e(x); num(&w, n); d = map1("b", leaf()); break;
    case 10: a("{{id"); for (unsigned i = 0; i < n; i++) { a(" k"); num(&t, i); a("=1"); } a(" x=b}}{{n"); for (unsigned i = 0; i < n; i++) { a(" k"); num(&t, i); a("=b"); } a(" z=1}}"); e(x); num(&w, 1001 + n); d = map1("b", leaf()); break;
    case 11: rep("{{#each this as |v i|}}", n); a("{{#each this as |w|}}{{w}}{{i}}{{/each}}"); rep("{{/each}}", n); if (n) { e(x); e("0"); } else e(x); d = nesta(leaf(), n + 1); break;
    case 12: a("{{> p}}"); PART("p", "<{{b}}{{#if a}}{{> p a}}{{/if}}>"); erep("<", n + 1); e(x); erep(">", n + 1); d = nest(map1("b", leaf()), "a", n); break;
    case 13: a("{{b}}"); rep("{{> p}}", n); PART("p", "{{b}}{{> p}}"); e(x); d = map1("b", leaf()); never = n > 0; break;
    case 14: rep("{{#> q}}", n); a("{{b}}"); rep("{{/q}}", n); PART("q", "<{{> @partial-block}}>"); erep("<", n); e(x); erep(">", n); d = map1("b", leaf()); break;
    case 15: a("{{b}}"); rep("{{#> p}}x{{/p}}", n); PART("p", "{{#> p}}{{> @partial-block}}{{/p}}"); e(x); d = map1("b", leaf()); never = n > 0; break;
    case 16: rep("{{#h}}", n); a("{{b}}"); rep("{{/h}}", n); erep("<", n); e(x); erep(">", n); d = map1("b", leaf()); break;
    case 17: rep("{{#a}}<", n); a("{{b}}"); rep(">{{/a}}", n); erep("<", n); e(x); erep(">", n); d = nest(map1("b", leaf()), "a", n); break;
    case 18: rep("{{b}},{{#if b}}.{{/if}}{{! c }}{{id b}}", n); for (unsigned i = 0; i < n; i++) { e(x); e(",."); e(x); } d = map1("b", leaf()); break;
    case 19: a("{{> p}}"); PART("p", "<{{b}}{{#each c}}{{> p}}{{/each}}>"); erep("<", n + 1); e(x); erep(">", n + 1); d = map1("b", leaf()); for (unsigned i = 0; i < n; i++) d = map1("c", arr1(d)); break;
    case 20: rep("{{#each this}}", n); a("{{@index}}{{@"); rep("../", n); a("i}}{{.}}"); rep("{{/each}}", n); if (n) e("0"); e(x); d = nesta(leaf(), n); break;
    case 21: rep("{{#unless f}}<{{else}}?", n); rep("{{/unless}}>", n); erep("<", n ? 1 : 0); erep(">", n ? 1 : 0); e(""); d = map1("b", leaf()); if (n > 0) { t = handlebars_string_ctor(c, "", 0); rep("{{#unless b}}?{{else}}<", n); a("{{b}}"); rep(">{{/unless}}", n); w = handlebars_string_ctor(c, "", 0); erep("<", n); e(x); erep(">", n); } break;
    case 22: for (unsigned i = 0; i < n; i++) { a("{{#> q}}"); a("<"); } a("{{b}}"); for (unsigned i = 0; i < n; i++) a(">{{/q}}"); PART("q", "{{#if b}}{{> @partial-block}}{{/if}}"); erep("<", n); e(x); erep(">", n); d = map1("b", leaf()); break;
    case 23: a("{{> p}}"); PART("p", "{{#if a}}\n {{> p a}}\n{{/if}}{{b}}\n"); for (unsigned i = n + 1; i-- > 0;) { erep(" ", i); if (i == n) e(x); e("\n"); } d = nest(map1("b", leaf()), "a", n); break;
    case 24: rep("{{#> nope}}<", n); a("{{b}}"); rep(">{{/nope}}", n); erep("<", n); e(x); erep(">", n); d = map1("b", leaf()); break;
    case 25: rep("(", n); a("{{b}}{{"); rep("(", n); a("b"); rep(")", n); a("}}"); d = map1("b", leaf()); never = n > 0; erep("(", n); e(x); e(x); break;
    case 27: a("{{> p}}"); PART("p", "<{{#if (more)}}{{> p}}{{else}}{{b}}{{/if}}>"); left = n; erep("<", n + 1); e(x); erep(">", n + 1); d = map1("b", leaf()); break;
    case 28: a("{{> p}}"); PART("p", "<{{> (pick)}}>"); PART("q", "{{b}}"); left = n; erep("<", n + 1); e(x); erep(">", n + 1); d = map1("b", leaf()); break;
    case 29: a("{{#> p}}{{b}}{{/p}}"); PART("p", "<{{#> (pick)}}{{> @partial-block}}{{/undefined}}>"); PART("q", "{{b}}"); left = n; never = true; d = map1("b", leaf()); break;
    case 30: { static const char *O[] = { "{{#if b}}<", "{{#unless f}}<", "{{^f}}<", "{{#h}}", "{{#> q}}", "{{#with this}}<", "{{#> nope}}<", "{{#if f}}{{else}}<", "{{#b}}{{#with ../this}}<" }, *Z[] = { ">{{/if}}", ">{{/unless}}", ">{{/f}}", "{{/h}}", "{{/q}}", ">{{/with}}", ">{{/nope}}", ">{{/if}}", ">{{/with}}{{/b}}" };
        for (unsigned i = 0; i < n; i++) a(O[pat[i % 3]]); a("{{b}}"); for (unsigned i = n; i-- > 0;) a(Z[pat[i % 3]]); PART("q", "<{{> @partial-block}}>"); erep("<", n); e(x); erep(">", n); d = map1("b", leaf()); break; }
    default: a("{{lookup "); rep("(lookup ", n); a("this"); rep(" 'a')", n); a(" 'b'}}"); e(x); d = nest(map1("b", leaf()), "a", n); break;
    }
    V *pv = h_val(c); handlebars_value_map(pv, pm); M *hm = handlebars_map_ctor(c, 8); hm = handlebars_map_str_update(hm, "id", 2, helper(ident)); hm = handlebars_map_str_update(hm, "h", 1, helper(blockh)); hm = handlebars_map_str_update(hm, "more", 4, helper(more)); hm = handlebars_map_str_update(hm, "pick", 4, helper(pick)); hm = handlebars_map_str_update(hm, "n", 1, helper(count)); V *hv = h_val(c); handlebars_value_map(hv, hm);
    struct h_opts o; memset(&o, 0, sizeof o); o.partials = pv; o.helpers = hv; o.flags = flags;
    jmp_buf jb; volatile int ok = 0; S *r = NULL; int prev = handlebars_error_num(c); (void) prev;
    if (handlebars_setjmp_ex(c, &jb) == 0) { r = h_render_str(c, t, d, &o); ok = 1; }
    c->e->jmp = NULL;
    if (ok) { symx_observe("out", hbs_str_val(r), hbs_str_len(r)); CHECK(!never, "endless recursion does not end"); CHECK(h_eqn(hbs_str_val(r), hbs_str_len(r), hbs_str_val(w), hbs_str_len(w)), "the text"); }
    else { CHECK(handlebars_error_num(c) != HANDLEBARS_SUCCESS, "an error number"); CHECK(handlebars_error_msg(c) && handlebars_error_msg(c)[0], "a message"); symx_observe("msg", handlebars_error_msg(c), strlen(handlebars_error_msg(c))); CHECK(handlebars_error_num(c) != HANDLEBARS_NOMEM, "a limit is not exhausted memory"); if (!never) CHECK(n > must_end, "shallow nesting works"); }
    return ok;
}
void harness(void) {
    unsigned k = symx_param("k", 0), lo = symx_param("lo", 0), cnt = symx_param("cnt", 4), fl = symx_param("floor", 30), step = symx_param("step", 1);
    by = symx_u8("byte"); symx_assume(by != '&' && by != '<' && by != '>' && by != '"' && by != '\'' && by != '`' && by != '=' && by != 0 && by != '0' && by != '\n');
    unsigned n = lo + step * symx_pick(cnt, "depth"); unsigned long flags = symx_param("fl", 0);
    if (k == 30) for (unsigned i = 0; i < 3; i++) pat[i] = i < symx_param("fix", 0) ? (unsigned) symx_param(i ? "p1" : "p0", 0) : symx_pick(8, "construct");
    int r; c = handlebars_context_ctor(); r = one(k, n, flags, fl); symx_observe("worked", &r, sizeof r);
    if (!r && n > fl && (k != 13 && k != 15 && k != 25)) symx_reach("limit"); if (r) symx_reach("works");
    if (symx_param("mono", 0) && n > 0) { C *c1 = c; c = handlebars_context_ctor(); int q = one(k, n - 1, flags, fl); CHECK(q >= r, "what works at a depth works one below"); handlebars_context_dtor(c); c = c1; }
    { int q = one(0, 2, 0, fl); CHECK(q == 1, "the context works afterwards"); }
    handlebars_context_dtor(c); symx_reach("done");
}
