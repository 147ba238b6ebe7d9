/* P10: histories of renders on fresh and reused interpreters and contexts, some of them failing; every render gives what the first one in a
   process of its own gave, and everything handed in stays as it was. */
#include "h.h"
#include "mv.h"
static const char *T[] = {
 /* 0 */ "{{a}}|{{#each b}}{{@key}}={{{this}}};{{/each}}|{{z}}|{{#b}}{{k1}}{{@root.z}}{{/b}}",
 /* 1 */ "{{#each l}}{{@index}}{{#with ../b}}{{#each this}}{{@key}}{{@index}}{{@last}}{{/each}}{{/with}}{{.}},{{/each}}",
 /* 2 */ "{{> p b x=a}}{{#> p l}}blk{{a}}{{#> p b}}in{{x}}{{/p}}{{/p}}",
 /* 3 fails */ "s{{#each b}}{{#each ../l}}{{boom 1}}{{/each}}{{/each}}",
 /* 4 fails */ "s{{#each l}}{{> bad}}{{/each}}",
 /* 5 */ "{{lookup b a}}{{#if z}}n{{else}}y{{/if}}{{#unless f}}u{{/unless}}{{#l}}{{.}}{{/l}}{{^z}}i{{/z}}{{#each b as |v k|}}{{#each ../l as |w i|}}{{k}}{{i}}{{/each}}{{/each}}",
 /* 6 fails */ "s{{#> p b}}{{#each this}}{{> nosuch}}{{/each}}{{/p}}",
 /* 7 compat */ "{{=<% %>=}}<%a%>{{a}}<%#b%><%z%><%k1%><%/b%>",
 /* 8 compat fails */ "{{=<% %>=}}<%#b%><%boom 1%><%/b%>",
 /* 9 */ "{{blk a h=b}}{{#blk l}}{{../a}}{{else}}e{{/blk}}{{#blk f x=1}}B{{else}}E{{a}}{{/blk}}",
 /* 10 fails in a helper called from a block run by a helper */ "{{#blk l}}{{#blk b}}{{throw a}}{{/blk}}{{/blk}}",
 /* 11 */ "{{#each (lookup this 'b')}}{{this}}{{#each @root.b}}{{@key}}{{@../key}}{{/each}}{{/each}}{{{cat a (cat \"x\" a)}}}",
 /* 12 fails by going too deep */ "{{#each b}}{{> rec}}{{/each}}",
 /* 13 the lambda */ "{{#lam}}t{{a}}{{/lam}}{{lam}}",
 /* 14 fails */ "{{#if}}{{/if}}",
 /* 15 fails */ "{{#with b}}{{#each ../l}}{{#unless 1 2}}{{/unless}}{{/each}}{{/with}}",
};
#define NT 16
static const char *PN[] = { "p", "bad", "rec", "q" };
static const char *PT[] = { "[{{k1}}{{x}}{{#each this}}{{.}}{{/each}}{{> @partial-block}}]", "{{#if", "r{{> rec}}", "q" };
static unsigned char by;
typedef struct { C *c; V *data, *helpers, *partials, *root; struct handlebars_vm *vm; struct handlebars_module *mod[2][NT]; } world;
static V *blk(int argc, V *argv, struct handlebars_options *o, struct handlebars_vm *vm, V *rv) {
    S *s; if (argc > 0 && !handlebars_value_is_empty(argv)) { s = o->program >= 0 ? handlebars_vm_execute_program(vm, o->program, argv) : h_str((C *) vm, "noprog"); } else s = o->inverse >= 0 ? handlebars_vm_execute_program(vm, o->inverse, o->scope) : h_str((C *) vm, "noinv");
    handlebars_value_str(rv, s); handlebars_value_set_flag(rv, HANDLEBARS_VALUE_FLAG_SAFE_STRING); return rv; }
static V *throwing(int argc, V *argv, struct handlebars_options *o, struct handlebars_vm *vm, V *rv) { (void) argc; (void) argv; (void) o; handlebars_throw((C *) vm, HANDLEBARS_ERROR, "thrown"); return rv; }
static V *cat(int argc, V *argv, struct handlebars_options *o, struct handlebars_vm *vm, V *rv) { (void) argc; (void) o; S *s = handlebars_value_to_string(HANDLEBARS_ARG_AT(0), (C *) vm); s = handlebars_string_append_str((C *) vm, handlebars_string_copy_ctor((C *) vm, s), handlebars_value_to_string(HANDLEBARS_ARG_AT(1), (C *) vm)); handlebars_value_str(rv, s); return rv; }
static V *lam(int argc, V *argv, struct handlebars_options *o, struct handlebars_vm *vm, V *rv) { (void) argc; (void) argv; (void) o; handlebars_value_str(rv, h_str((C *) vm, "L{{a}}{{#each b}}{{@key}}{{/each}}")); return rv; }
static V *fn(C *c, handlebars_helper_func f) { V *v = h_val(c); handlebars_value_helper(v, f); return v; }
static V *clo(C *c, struct handlebars_closure *k) { V *v = h_val(c); handlebars_value_closure(v, k); return v; }
static V *mapv(C *c, unsigned n, const char **k, V **v) { M *m = handlebars_map_ctor(c, n); handlebars_map_addref(m); for (unsigned i = 0; i < n; i++) m = handlebars_map_add(m, h_str(c, k[i]), v[i]); V *r = h_val(c); handlebars_value_map(r, m); return r; }
static V *lamclo(int localc, V *localv, int argc, V *argv, struct handlebars_options *o, struct handlebars_vm *vm, V *rv) { (void) localc; (void) localv; return lam(argc, argv, o, vm, rv); }
static void build(world *w, bool mods) {
    C *c = w->c = handlebars_context_ctor(); char s[4] = { 'k', '1', (char) by, 0 };
    V *l; { K *st = handlebars_stack_ctor(c, 2); handlebars_stack_addref(st); V *m = mapv(c, 1, (const char *[]) { "n" }, (V *[]) { h_vint(c, 3) }); st = handlebars_stack_push(st, h_vint(c, 7)); st = handlebars_stack_push(st, h_vstr(c, s + 2, 1)); st = handlebars_stack_push(st, m); l = h_val(c); handlebars_value_array(l, st); handlebars_stack_delref(st); }
    V *b = mapv(c, 3, (const char *[]) { "k1", "<k>", "zz" }, (V *[]) { h_vstr(c, s, 3), h_vint(c, 5), h_vbool(c, true) });
    if (symx_param("hole", 0)) { M *m = handlebars_value_get_map(b); handlebars_map_addref(m); m = handlebars_map_str_remove(m, "k1", 2); m = handlebars_map_str_add(m, "k1", 2, h_vstr(c, s, 3)); handlebars_value_map(b, m); }
    w->data = w->root = mapv(c, 6, (const char *[]) { "a", "b", "l", "z", "f", "lam" }, (V *[]) { h_vstr(c, s, symx_param("key", 0) ? 2 : 3), b, l, h_vint(c, 0), h_vbool(c, false), clo(c, handlebars_closure_ctor(c, lamclo, 0, NULL)) });
    w->helpers = mapv(c, 3, (const char *[]) { "blk", "throw", "cat" }, (V *[]) { fn(c, blk), fn(c, throwing), fn(c, cat) });
    V *ps[4]; for (int i = 0; i < 4; i++) ps[i] = h_vstr(c, PT[i], strlen(PT[i])); w->partials = mapv(c, 4, PN, ps);
    (void) mods; w->vm = NULL; }
static struct handlebars_module *mod(world *w, unsigned t, bool compat) {
    if (!w->mod[compat][t]) { C *c = w->c; unsigned long fl = compat ? handlebars_compiler_flag_compat | handlebars_compiler_flag_mustache_style_lambdas : 0; S *s = h_str(c, T[t]); if (compat) s = handlebars_preprocess_delimiters(c, s, NULL, NULL); struct handlebars_ast_node *a = handlebars_parse_ex(handlebars_parser_ctor(c), s, fl); struct handlebars_compiler *cc = handlebars_compiler_ctor(c); handlebars_compiler_set_flags(cc, fl); w->mod[compat][t] = handlebars_program_serialize(c, handlebars_compiler_compile_ex(cc, a)); }
    return w->mod[compat][t]; }
static struct handlebars_vm *newvm(world *w) { struct handlebars_vm *vm = handlebars_vm_ctor(w->c); handlebars_vm_set_helpers(vm, w->helpers); handlebars_vm_set_partials(vm, w->partials); return vm; }
typedef struct { char *p; size_t n; bool err; } txt;
static txt keep(const char *p, size_t n, bool err) { txt t; t.p = malloc(n + 1); memcpy(t.p, p, n); t.p[n] = 0; t.n = n; t.err = err; return t; }
static txt render(world *w, unsigned t, bool compat, struct handlebars_vm *vm) {
    C *c = w->c; jmp_buf jb; jmp_buf *prev = c->e->jmp; struct handlebars_module *m = NULL;
    if (handlebars_setjmp_ex(c, &jb)) { const char *e = handlebars_error_msg(c); txt r = keep(e ? e : "", e ? strlen(e) : 0, true); c->e->jmp = prev; return r; }
    m = mod(w, t, compat); if (!vm) vm = newvm(w);
    handlebars_vm_set_flags(vm, compat ? handlebars_compiler_flag_compat | handlebars_compiler_flag_mustache_style_lambdas : 0);
    S *s = handlebars_vm_execute(vm, m, w->data); txt r = keep(hbs_str_val(s), hbs_str_len(s), false); c->e->jmp = prev; return r; }
/* everything handed in, written out */
typedef struct { char b[2048]; size_t n; } dump;
static void d_n(dump *d, const char *s, size_t n) { CHECK(d->n + n < sizeof d->b, "(dump buffer)"); for (size_t i = 0; i < n; i++) d->b[d->n++] = s[i]; }
static void d_v(C *c, dump *d, V *v) {
    char t[8]; t[0] = '<'; t[1] = (char) ('A' + handlebars_value_get_type(v)); t[2] = (char) ('0' + (handlebars_value_is_empty(v) ? 1 : 0)); d_n(d, t, 3);
    switch (handlebars_value_get_type(v)) {
    case HANDLEBARS_VALUE_TYPE_STRING: d_n(d, handlebars_value_get_strval(v), handlebars_value_get_strlen(v)); break;
    case HANDLEBARS_VALUE_TYPE_INTEGER: { char x = (char) ('a' + handlebars_value_get_intval(v)); d_n(d, &x, 1); break; }
    case HANDLEBARS_VALUE_TYPE_MAP: { M *m = handlebars_value_get_map(v); CHECK(handlebars_map_count(m) == (size_t) handlebars_value_count(v), "counts"); for (size_t i = 0; i < handlebars_map_sparse_array_count(m); i++) { S *k = handlebars_map_get_key_at_index(m, i); if (!k) continue; d_n(d, hbs_str_val(k), hbs_str_len(k)); d_n(d, "=", 1); V *e = handlebars_map_find(m, k); CHECK(e != NULL, "every key is found"); d_v(c, d, e); } break; }
    case HANDLEBARS_VALUE_TYPE_ARRAY: { K *s = handlebars_value_get_stack(v); for (size_t i = 0; i < handlebars_stack_count(s); i++) d_v(c, d, handlebars_stack_get(s, i)); break; }
    default: break; }
    d_n(d, ">", 1); }
static dump all(world *w) { dump d; d.n = 0; d_v(w->c, &d, w->data); d_v(w->c, &d, w->helpers); d_v(w->c, &d, w->partials); return d; }
static txt alone[2][NT]; static bool have[2][NT];
static void grow(world *w, unsigned n) { M *m = handlebars_value_get_map(w->data); handlebars_map_addref(m); for (unsigned i = 0; i < n; i++) { char k[3] = { 'g', (char) ('a' + i), 0 }; m = handlebars_map_str_update(m, k, 2, h_vint(w->c, 1)); } handlebars_value_map(w->data, m);
    V *b = handlebars_map_str_find(m, "b", 1); M *bm = handlebars_value_get_map(b); handlebars_map_addref(bm); for (unsigned i = 0; i < n; i++) { char k[3] = { 'h', (char) ('a' + i), 0 }; bm = handlebars_map_str_add(bm, k, 2, h_vint(w->c, 1)); } for (unsigned i = 0; i < n; i++) { char k[3] = { 'h', (char) ('a' + i), 0 }; bm = handlebars_map_str_remove(bm, k, 2); } handlebars_value_map(b, bm); }
void harness(void) {
    by = symx_u8("byte"); symx_assume(by != 0); static world W[2]; unsigned L = symx_param("l", 2), only = symx_param("tm", 99); bool two = symx_param("two", 0); unsigned mask = symx_param("mask", 0xffff);
    build(&W[0], true); if (two) build(&W[1], true); dump d0[2]; for (int i = 0; i <= two; i++) { d0[i] = all(&W[i]); W[i].vm = newvm(&W[i]); }
    for (unsigned s = 0; s < L; s++) {
        unsigned t = s == 0 && only < NT ? only : symx_pick(NT, "template"); if (!((mask >> t) & 1) && !(s == 0 && only < NT)) symx_assume(0); bool compat = t == 7 || t == 8 || t == 13 ? true : s + 1 == L && t != 12 && symx_param("cm", 0) ? symx_pick(2, "compat") : false; unsigned wi = two ? symx_pick(2, "context") : 0; bool fresh = symx_pick(2, "fresh");
        if (!have[compat][t]) { static world R; memset(&R, 0, sizeof R); build(&R, false); alone[compat][t] = render(&R, t, compat, NULL); have[compat][t] = true; symx_observe("alone", alone[compat][t].p, alone[compat][t].n); handlebars_context_dtor(R.c); }
        txt r = render(&W[wi], t, compat, fresh ? NULL : W[wi].vm); symx_observe("render", r.p, r.n);
        CHECK(r.err == alone[compat][t].err, r.err ? "a render that works alone fails here" : "a render that fails alone works here"); CHECK(h_eqn(r.p, r.n, alone[compat][t].p, alone[compat][t].n), "a render gives another text than alone");
        for (int i = 0; i <= two; i++) { dump d = all(&W[i]); CHECK(h_eqn(d.b, d.n, d0[i].b, d0[i].n), "what was handed in is as before"); }
        if (s == 0 && symx_param("grow", 0)) { grow(&W[wi], 12); d0[wi] = all(&W[wi]); }
    }
    for (int i = 0; i <= two; i++) handlebars_context_dtor(W[i].c); symx_reach("done");
}
