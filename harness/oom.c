/* P13: whichever allocation fails (counted over every allocation the library makes through its allocation hooks), the call reports it or still gives
   the right answer, nothing invalid is touched, and the same work succeeds afterwards. */
#include "h.h"
#include "handlebars_ast_printer.h"
#include "handlebars_token.h"
#include "handlebars_partial_loader.h"
#include "handlebars_opcode_printer.h"
extern handlebars_talloc_named_const_func _handlebars_yy_alloc; extern handlebars_talloc_realloc_array_func _handlebars_yy_realloc;
static unsigned calls, fail_at; static bool rest_fail;
static bool f(void) { calls++; return fail_at && (calls == fail_at || (rest_fail && calls > fail_at)); }
static void *x_array(const void *c, size_t e, unsigned n, const char *nm) { return f() ? NULL : _talloc_array(c, e, n, nm); }
static char *x_asprintf(const void *t, const char *fmt, ...) { if (f()) return NULL; va_list ap; va_start(ap, fmt); char *r = talloc_vasprintf(t, fmt, ap); va_end(ap); return r; }
static char *x_asprintf_append(char *t, const char *fmt, ...) { if (f()) return NULL; va_list ap; va_start(ap, fmt); char *r = talloc_vasprintf_append(t, fmt, ap); va_end(ap); return r; }
static char *x_asprintf_append_buffer(char *t, const char *fmt, ...) { if (f()) return NULL; va_list ap; va_start(ap, fmt); char *r = talloc_vasprintf_append_buffer(t, fmt, ap); va_end(ap); return r; }
static void *x_named(const void *c, size_t s, const char *n) { return f() ? NULL : talloc_named_const(c, s, n); }
static void *x_realloc(const void *c, void *p, size_t e, unsigned n, const char *nm) { return f() ? NULL : _talloc_realloc_array(c, p, e, n, nm); }
static char *x_strdup(const void *t, const char *p) { return f() ? NULL : talloc_strdup(t, p); }
static char *x_strdup_append(char *s, const char *a) { return f() ? NULL : talloc_strdup_append(s, a); }
static char *x_strdup_append_buffer(char *s, const char *a) { return f() ? NULL : talloc_strdup_append_buffer(s, a); }
static char *x_strndup(const void *t, const char *p, size_t n) { return f() ? NULL : talloc_strndup(t, p, n); }
static char *x_strndup_append_buffer(char *s, const char *a, size_t n) { return f() ? NULL : talloc_strndup_append_buffer(s, a, n); }
static void *x_zero(const void *c, size_t s, const char *n) { return f() ? NULL : _talloc_zero(c, s, n); }
static void hooks(void) {
    _handlebars_talloc_array = x_array; _handlebars_talloc_asprintf = x_asprintf; _handlebars_talloc_asprintf_append = x_asprintf_append; _handlebars_talloc_asprintf_append_buffer = x_asprintf_append_buffer; _handlebars_talloc_named_const = x_named; _handlebars_talloc_realloc_array = x_realloc; _handlebars_talloc_strdup = x_strdup;
    _handlebars_talloc_strdup_append = x_strdup_append; _handlebars_talloc_strdup_append_buffer = x_strdup_append_buffer; _handlebars_talloc_strndup = x_strndup; _handlebars_talloc_strndup_append_buffer = x_strndup_append_buffer; _handlebars_talloc_zero = x_zero; _handlebars_yy_alloc = x_named; _handlebars_yy_realloc = x_realloc; }
static unsigned op, tm; static unsigned char by;
static const char *T[] = {
    "x {{a}} {{{b}}} {{&a}} {{! c }}#",
    "{{#if a}} {{a}} {{else}} n {{/if}}{{#unless z}}#{{/unless}}",
    "{{#each l as |v i|}}{{v}}{{i}}{{@index}}{{@last}},{{else}}e{{/each}}",
    "{{#with m}}{{k}}{{../a}}{{@root.a}}{{#if k}}{{../../a}}{{/if}}{{/with}}",
    "{{lookup m \"k\"}}{{lookup l 1}}{{h 1 2.5 \"q#\" x=1 y=(h b z=true) w=null}}",
    "  {{> p a=1}}\n {{> p m}}\n{{> (h \"p\")}}",
    "{{#> p}}body#{{/p}}{{#> nope}}dflt{{a}}{{/nope}}{{#> q}}<{{a}}>{{/q}}",
    "{{#a}}{{.}}{{/a}}{{^a}}n{{/a}}{{#l}}{{this}}{{/l}}{{#m}}{{k}}{{/m}}{{^z}}#{{/z}}",
    "{{{{raw}}}} {{x}} # {{{{/raw}}}}{{~a~}} \\{{b}} \\\\{{a}}",
    "{{m.k}}{{m/k}}{{this.a}}{{./a}}{{l.[0]}}{{[m].[k]}}{{@root/a}}",
    "{{#if z}}1{{else if a}}2#{{else}}3{{/if}}{{#each m}}{{@key}}={{.}};{{/each}}",
    "{{log a}}{{#bh a}}{{.}}#{{else}}i{{/bh}}{{nofn}}",
    "{{a \"", "{{#if a}}x{{/unless}}", "{{> missing}}", "{{#each l}}{{nofn 1}}{{/each}}",
    "{{=<% %>=}}<% a %> # <%={{ }}=%>{{a}}{{nest}}" };
static S *text(C *x, unsigned t) { size_t n = strlen(T[t]); char s[160]; for (size_t i = 0; i <= n; i++) s[i] = T[t][i] == '#' && !(i >= 2 && s[i - 1] == '{' ) && !(i && T[t][i - 1] == '{') ? (char) by : T[t][i]; return handlebars_string_ctor(x, s, n); }
static V *hlp(HANDLEBARS_HELPER_ARGS) { (void) vm; (void) options; if (argc > 0) handlebars_value_value(rv, HANDLEBARS_ARG_AT(0)); return rv; }
static V *blk(HANDLEBARS_HELPER_ARGS) { S *s = argc > 0 ? handlebars_vm_execute_program(vm, options->program, HANDLEBARS_ARG_AT(0)) : NULL; if (s) handlebars_value_str(rv, s); return rv; }
static V *fn(C *x, handlebars_helper_func g) { V *v = h_val(x); handlebars_value_helper(v, g); return v; }
#define PUT(m, k, v) m = handlebars_map_str_update(m, k, sizeof k - 1, v)
static V *mk(C *x, M *m) { V *v = h_val(x); handlebars_value_map(v, m); return v; }
/* values held by the caller are freed with the context; h_val must not be given a failed allocation */
static V *data(C *x) { V *l = h_val(x); handlebars_value_array(l, handlebars_stack_ctor(x, 1)); handlebars_value_array_push(l, h_vint(x, 1)); handlebars_value_array_push(l, h_vstr(x, "two", 3)); handlebars_value_array_push(l, h_vbool(x, true)); M *k = handlebars_map_ctor(x, 1); PUT(k, "k", h_vstr(x, "K&", 2)); PUT(k, "j", h_vint(x, 7)); M *m = handlebars_map_ctor(x, 2); PUT(m, "a", h_vstr(x, "<A>", 3)); PUT(m, "b", h_vint(x, 42)); PUT(m, "l", l); PUT(m, "m", mk(x, k)); return mk(x, m); }
static V *clo(int lc, V *lv, HANDLEBARS_HELPER_ARGS) { (void) argc; (void) argv; (void) options; (void) vm; handlebars_value_value(rv, lc > 0 ? lv : rv); return rv; }
typedef struct { char *p; size_t n; } res;
static res keep(const char *p, size_t n) { res r; r.p = malloc(n + 1); memcpy(r.p, p, n); r.p[n] = 0; r.n = n; return r; }
static res render(C *x, V *d) {
    struct h_opts o; memset(&o, 0, sizeof o); M *pm = handlebars_map_ctor(x, 2); PUT(pm, "p", h_vstr(x, "[{{a}}{{k}}\n]\n", 14)); PUT(pm, "q", h_vstr(x, "({{> @partial-block}})", 22)); o.partials = mk(x, pm); M *hm = handlebars_map_ctor(x, 2); PUT(hm, "h", fn(x, hlp)); PUT(hm, "bh", fn(x, blk)); o.helpers = mk(x, hm);
    if (tm == 16) o.flags = handlebars_compiler_flag_compat; S *s = h_render_str(x, text(x, tm), d, &o); return keep(hbs_str_val(s), hbs_str_len(s)); }
static res work(C *x) {
    S *o;
    switch (op) {
    case 0: return render(x, data(x));
    case 1: { struct handlebars_ast_node *a = handlebars_parse_ex(handlebars_parser_ctor(x), text(x, tm), 0); o = handlebars_ast_print(x, a); o = handlebars_string_append_str(x, o, handlebars_ast_to_string(x, a)); break; }
    case 2: { struct handlebars_token **k = handlebars_lex_ex(handlebars_parser_ctor(x), text(x, tm)); o = h_str(x, ""); for (; *k; k++) o = handlebars_string_append_str(x, o, handlebars_token_print(x, *k, 0)); break; }
    case 3: { struct handlebars_ast_node *a = handlebars_parse_ex(handlebars_parser_ctor(x), text(x, tm), 0); struct handlebars_program *p = handlebars_compiler_compile_ex(handlebars_compiler_ctor(x), a); o = handlebars_program_print(x, p, 0); struct handlebars_module *m = handlebars_program_serialize(x, p); handlebars_module_normalize_pointers(m, (void *) 1); size_t n = handlebars_module_get_size(m); char b[8]; memset(b, 0, sizeof b); for (unsigned i = 0; i < 8; i++) b[i] = (char) ('a' + ((n >> (4 * i)) & 15)); o = handlebars_string_append(x, o, b, 8); break; }
    case 4: { V *d = data(x); char *du = handlebars_value_dump(d, x, 0); o = h_str(x, du); o = handlebars_string_append_str(x, o, handlebars_value_expression(x, d, true)); o = handlebars_value_expression_append(x, d, o, false); break; }
    case 5: { S *s = text(x, tm); o = handlebars_string_htmlspecialchars(x, HBS_STR_STRL(s)); o = handlebars_string_htmlspecialchars_append(x, o, "<&>", 3); o = handlebars_str_reduce(o, "&amp;", 5, "&", 1); S *q = handlebars_string_addcslashes(x, s, "a{\n", 3); q = handlebars_string_stripcslashes(q); o = handlebars_string_append_str(x, o, q); o = handlebars_string_asprintf_append(x, o, "%d-%s", 12, "z"); o = handlebars_string_indent(x, o, h_str(x, " ")); o = handlebars_string_append(x, o, "x\n ", 3); o = handlebars_string_rtrim(o, "\n ", 2); o = handlebars_string_ltrim(o, " ", 1); o = handlebars_string_compact(o); break; }
    case 6: { M *m = handlebars_map_ctor(x, 0); handlebars_map_addref(m); char kb[3] = "k0"; for (unsigned i = 0; i < 9; i++) { kb[1] = (char) ('0' + i); m = handlebars_map_str_update(m, kb, 2, h_vint(x, i)); } m = handlebars_map_str_remove(m, "k3", 2); m = handlebars_map_rehash(m, true); M *cp = handlebars_map_copy_ctor(m, 20); o = h_str(x, ""); for (unsigned i = 0; i < 9; i++) { kb[1] = (char) ('0' + i); V *v = handlebars_map_str_find(cp, kb, 2); o = handlebars_string_append(x, o, v ? "y" : "n", 1); } V *mv = mk(x, cp); o = handlebars_value_expression_append(x, mv, o, true); break; }
    case 7: { K *k = handlebars_stack_ctor(x, 1); handlebars_stack_addref(k); for (unsigned i = 0; i < 6; i++) k = handlebars_stack_push(k, h_vint(x, i)); V *v = h_val(x); handlebars_value_array(v, handlebars_stack_copy_ctor(k, 2)); handlebars_value_array_push(v, h_vstr(x, (char *) &by, 1)); o = handlebars_value_expression(x, v, false); handlebars_stack_delref(k); break; }
    case 8: { unsigned be = symx_param("be", 0); struct handlebars_cache *ca = be == 0 ? handlebars_cache_simple_ctor(x) : be == 1 ? handlebars_cache_mmap_ctor(x, 65536, 4) : handlebars_cache_lmdb_ctor(x, "db"); S *tp = text(x, tm); handlebars_string_addref(tp); struct handlebars_ast_node *a = handlebars_parse_ex(handlebars_parser_ctor(x), handlebars_string_copy_ctor(x, tp), 0); struct handlebars_module *m = handlebars_program_serialize(x, handlebars_compiler_compile_ex(handlebars_compiler_ctor(x), a)); handlebars_cache_add(ca, tp, m); m = handlebars_cache_find(ca, tp); V *d = data(x); o = h_str(x, "-"); if (m) { o = handlebars_vm_execute(handlebars_vm_ctor(x), m, d); handlebars_cache_release(ca, tp, m); } handlebars_cache_gc(ca); struct handlebars_cache_stat st = handlebars_cache_stat(ca); o = handlebars_string_asprintf_append(x, o, "%d", (int) st.current_entries); handlebars_cache_reset(ca); handlebars_cache_dtor(ca); break; }
    case 10: { struct h_opts ho; memset(&ho, 0, sizeof ho); ho.partials = h_val(x); handlebars_value_partial_loader_init(x, h_str(x, "d"), h_str(x, ".hbs"), ho.partials); char t[] = "{{> p}}-{{> q}}{{> p}}?"; t[22] = (char) by; o = h_render(x, t, sizeof t - 1, data(x), &ho); HANDLEBARS_VALUE_FOREACH_KV(ho.partials, key, child) { o = handlebars_string_append_str(x, o, key); o = handlebars_value_expression_append(x, child, o, false); } HANDLEBARS_VALUE_FOREACH_END(); break; }
    case 11: { V *lv[1]; (void) lv; char n[2] = { (char) by, 0 }; V *v = h_val(x); V *args = talloc_zero_size(x, 2 * HANDLEBARS_VALUE_SIZE); handlebars_value_init(args); handlebars_value_str(args, h_str(x, n)); handlebars_value_closure(v, handlebars_closure_ctor(handlebars_vm_ctor(x), clo, 1, args)); M *m = handlebars_map_ctor(x, 1); PUT(m, "f", v); PUT(m, "l", data(x)); struct h_opts ho; memset(&ho, 0, sizeof ho); o = h_render(x, "{{f}}{{#f}}a{{/f}}{{f 1}}", 24, mk(x, m), &ho); break; }
    default: { C *y = handlebars_context_ctor_ex(x); if (!y) return keep("NULL", 4); o = h_str(x, "ctx"); break; }
    }
    return keep(hbs_str_val(o), hbs_str_len(o)); }
static int run(C *x, res *r) { jmp_buf jb; volatile int ok = 0; if (handlebars_setjmp_ex(x, &jb) == 0) { *r = work(x); ok = 1; } CHECK(x->e->jmp == &jb, "the handler is the caller's"); x->e->jmp = NULL; CHECK(symx_open_files == 0, "no file stays open"); CHECK(symx_lock_depth == 0, "no lock stays held"); return ok; }
void harness(void) {
    op = symx_param("op", 0); tm = symx_param("tm", 0); by = symx_u8("byte"); symx_assume(by >= 'a' && by <= 'z' && (op != 8 || by == 'q')); hooks(); symx_fs_add("d/p.hbs", "[{{a}}]", 7); symx_fs_add("d/q.hbs", "Q{{#if a}}!{{/if}}", 18);
    C *c = handlebars_context_ctor(); res a; memset(&a, 0, sizeof a); calls = 0; fail_at = 0; int ok = run(c, &a), num = handlebars_error_num(c); unsigned total = calls; symx_observe("base", a.p, a.n); symx_observe("total", &total, sizeof total); S *msg = NULL; char *m0 = ok ? NULL : strdup(handlebars_error_msg(c)); (void) msg; handlebars_context_dtor(c);
    unsigned n = 1 + 200 * symx_pick(total / 200 + 1, "failh"); n += symx_pick(n + 199 > total ? total - n + 1 : 200, "fail"); rest_fail = symx_param("rest", 0);
    c = handlebars_context_ctor(); res b; memset(&b, 0, sizeof b); calls = 0; fail_at = n; int k = run(c, &b); fail_at = 0; CHECK(calls >= n, "the allocation was reached"); symx_observe("worked", &k, sizeof k);
    if (k) { CHECK(ok, "no result where there was an error"); CHECK(op == 9 || h_eqn(b.p, b.n, a.p, a.n), "a result is the right one"); symx_reach("absorbed"); }
    else { int e = handlebars_error_num(c); const char *m = handlebars_error_msg(c); CHECK(m && m[0], "a message"); symx_observe("msg", m, strlen(m)); if (e != HANDLEBARS_NOMEM) { CHECK(!ok && e == num && strcmp(m, m0) == 0, "out of memory is reported"); symx_reach("absorbed"); } else symx_reach("reported"); }
    if (symx_param("same", 0)) { memset(&b, 0, sizeof b); k = run(c, &b); CHECK(k == ok, "works again in the context"); if (k) CHECK(h_eqn(b.p, b.n, a.p, a.n), "the same result in the context"); }
    handlebars_context_dtor(c);
    c = handlebars_context_ctor(); memset(&b, 0, sizeof b); k = run(c, &b); CHECK(k == ok, "works again"); if (k) CHECK(h_eqn(b.p, b.n, a.p, a.n), "the same result"); else CHECK(handlebars_error_num(c) == num && strcmp(handlebars_error_msg(c), m0) == 0, "the same error"); handlebars_context_dtor(c); CHECK(symx_mmap_live == 0 && symx_mdb_envs == 0 && symx_mdb_errors == 0 && symx_mdb_txns == 0, "everything is given back");
    symx_reach("done");
}
