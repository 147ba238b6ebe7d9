/* Modules: P23 (w=0..) a relocated module renders the same; P24 (ver=1) damage is rejected. */
#include "h.h"
#include "handlebars_module_printer.h"
static const char *T[] = {
 "a\1b{{x}}{{{x}}}{{&y}}{{l.[1]}}{{m.k}}",
 "{{#each l}}\1{{this}}{{@index}}{{#if x}}X{{else}}Y{{../x}}{{/if}}{{else}}E{{/each}}{{#m}}{{k}}{{/m}}{{^no}}N{{x}}{{/no}}",
 "{{#with m}}{{#each ../l as |v i|}}{{#if v}}{{i}}:{{v}}{{../k}}\1{{/if}}{{/each}}{{/with}}{{#if no}}a{{else if x}}b{{#unless no}}u{{/unless}}{{else}}c{{/if}}",
 "{{hl \"s\1t\" 12 true null undefined m.k l=x m=(hl \"in\" 3 q=(lookup m \"k\"))}}{{#hl x a=1}}B{{x}}{{else}}I\1{{/hl}}",
 "{{> p}}{{> p m z=\"\1q\"}}{{#> p}}blk{{x}}{{/p}}{{#> nope}}\1{{x}}{{/nope}}{{> (lookup . \"pn\") l}}",
 "{{{{raw}}}} {{x}}\1 {{{{/raw}}}}{{! c }}\n {{#if x}}\n {{~x~}} \n{{/if}}\n\\{{x}}{{@root.x}}{{@index}}{{[x]}}{{\"x\"}}{{12}}{{true}}",
 "\1", "", "{{#if x}}{{#if x}}{{#if x}}{{#if x}}d{{x}}\1{{/if}}{{/if}}c{{/if}}{{#if x}}b\1{{/if}}{{/if}}{{#each l}}{{#each ../l}}{{@../index}}{{.}}{{/each}}{{/each}}{{#each l}}{{.}}{{/each}}",
 "{{#hl}}{{#hl}}1{{else}}2{{/hl}}{{else}}{{#hl}}3\1{{else}}4{{x}}{{/hl}}{{/hl}}", "{{#hl}}\1{{^}}{{#if x}}5{{/if}}{{/hl}}{{#l}}{{^no}}{{.}}{{/no}}{{/l}}",
 /* names and texts of every length modulo the alignment */
 "{{a}}{{m.ab}}{{abc}}{{m.abcd}}{{abcde}}{{m.abcdef}}{{abcdefg}}{{m.abcdefgh}}\1{{abcdefghi}}",
 "a{{x}}ab{{x}}abc{{x}}abcd{{x}}abcde{{x}}abcdef{{x}}abcdefg{{x}}abcdefgh\1",
 "{{hl \"a\" ab=\"abc\" abcd=\"abcde\" abcdef=\"abcdefg\" abcdefgh=\"\1\"}}{{#each l as |abc abcd|}}{{abc}}{{/each}}{{#each l as |abcde abcdef|}}{{abcdef}}{{/each}}{{#each l as |abcdefg abcdefgh|}}{{abcdefgh}}{{/each}}{{#each l as |a ab|}}{{a}}{{/each}}" };
#define NT (sizeof T / sizeof *T)
static V *hl(int argc, V *argv, struct handlebars_options *o, struct handlebars_vm *vm, V *rv) {
    C *c = (C *) vm; S *b = handlebars_string_ctor(c, "<", 1);
    for (int i = 0; i < argc; i++) b = handlebars_string_append_str(c, handlebars_string_append(c, b, ",", 1), handlebars_value_expression(c, HANDLEBARS_ARG_AT(i), false));
    if (o->hash && handlebars_value_get_type(o->hash) == HANDLEBARS_VALUE_TYPE_MAP) { HANDLEBARS_VALUE_FOREACH_KV(o->hash, k, v) { b = handlebars_string_append_str(c, b, k); b = handlebars_string_append(c, b, "=", 1); b = handlebars_string_append_str(c, b, handlebars_value_expression(c, v, false)); } HANDLEBARS_VALUE_FOREACH_END(); }
    if (o->program >= 0) b = handlebars_string_append_str(c, b, handlebars_vm_execute_program(vm, o->program, o->scope));
    if (o->inverse >= 0) b = handlebars_string_append_str(c, b, handlebars_vm_execute_program(vm, o->inverse, o->scope));
    b = handlebars_string_append(c, b, ">", 1); handlebars_value_str(rv, b); handlebars_value_set_flag(rv, HANDLEBARS_VALUE_FLAG_SAFE_STRING); return rv; }
static V *raw(int argc, V *argv, struct handlebars_options *o, struct handlebars_vm *vm, V *rv) { (void) argc; (void) argv; handlebars_value_str(rv, handlebars_vm_execute_program(vm, o->program, o->scope)); return rv; }
static void put(C *c, V *m, const char *k, V *v) { handlebars_value_map_update(m, h_str(c, k), v); }
static void world(C *c, V **data, V **helpers, V **partials) {
    V *d = h_val(c), *m = h_val(c), *l = h_val(c), *h = h_val(c), *p = h_val(c), *f;
    handlebars_value_map(m, handlebars_map_ctor(c, 2)); put(c, m, "k", h_vstr(c, "v&", 2));
    handlebars_value_array(l, handlebars_stack_ctor(c, 2)); handlebars_value_array_push(l, h_vstr(c, "e0", 2)); handlebars_value_array_push(l, h_vint(c, 7));
    handlebars_value_map(d, handlebars_map_ctor(c, 8)); put(c, d, "x", h_vstr(c, "<X>", 3)); put(c, d, "y", h_vint(c, -5)); put(c, d, "m", m); put(c, d, "l", l); put(c, d, "pn", h_vstr(c, "p", 1));
    handlebars_value_map(h, handlebars_map_ctor(c, 2)); f = h_val(c); handlebars_value_helper(f, hl); put(c, h, "hl", f); f = h_val(c); handlebars_value_helper(f, raw); put(c, h, "raw", f);
    handlebars_value_map(p, handlebars_map_ctor(c, 2)); put(c, p, "p", h_vstr(c, "[{{x}}{{z}}{{k}}{{> @partial-block}}{{.}}]", 40)); 
    *data = d; *helpers = h; *partials = p;
}
static unsigned long flags;
static struct handlebars_module *compile(C *c, const char *t, size_t n) {
    struct handlebars_parser *parser = handlebars_parser_ctor(c); S *s = handlebars_string_ctor(c, t, n);
    struct handlebars_ast_node *ast = handlebars_parse_ex(parser, s, flags); struct handlebars_compiler *cc = handlebars_compiler_ctor(c); handlebars_compiler_set_flags(cc, flags);
    struct handlebars_program *p = handlebars_compiler_compile_ex(cc, ast); struct handlebars_module *m = handlebars_program_serialize(c, p);
    if (symx_param("twice", 0)) m = handlebars_program_serialize(c, p);
    return m;
}
static V *gd, *gh, *gp;
static char *dup(const void *p, size_t n) { char *r = malloc(n + 1); memcpy(r, p, n); r[n] = 0; return r; }
struct txt { char *p; size_t n; long err; };
static struct txt keep(S *s) { struct txt t; t.n = hbs_str_len(s); t.p = dup(hbs_str_val(s), t.n); t.err = 0; return t; }
static struct txt run(struct handlebars_module *m) {   /* a fresh context and interpreter */
    C *c = handlebars_context_ctor(); struct txt t; jmp_buf jb;
    if (handlebars_setjmp_ex(c, &jb)) { const char *e = handlebars_error_msg(c); t.n = e ? strlen(e) : 0; t.p = dup(e, t.n); t.err = 1; handlebars_context_dtor(c); return t; }
    struct handlebars_vm *vm = handlebars_vm_ctor(c); handlebars_vm_set_flags(vm, flags); handlebars_vm_set_partials(vm, gp); handlebars_vm_set_helpers(vm, gh);
    S *o = handlebars_vm_execute(vm, m, gd); t = keep(o); handlebars_context_dtor(c); return t;
}
static struct txt list(struct handlebars_module *m) { C *c = handlebars_context_ctor(); struct txt t = keep(handlebars_module_print(c, m)); handlebars_context_dtor(c);
    char *a = strstr(t.p, "ADDR: "); if (a) { char *e = a; while (*e && *e != '\n') e++; memmove(a, e, strlen(e)); t.n -= (size_t) (e - a); } return t; }   /* the address differs, naturally */
static int same(struct txt a, struct txt b) { return a.err == b.err && h_eqn(a.p, a.n, b.p, b.n); }
/* bytes nobody wrote (padding): one arbitrary value each from here on (P23), or zero (P24) */
static void settle(void *p, size_t n, int zero) { volatile unsigned char *b = p; for (size_t i = 0; i < n; i++) { unsigned char x = b[i]; if (zero && symx_is_symbolic(x)) b[i] = 0; } }
static void *sizedbuf(size_t n) { return malloc(n); }
static void move(struct handlebars_module *m0, struct txt want, struct txt listing) {
    /* m0 is an image that lies in a block of exactly its own size; nothing else of the original exists any more */
    size_t n = handlebars_module_get_size(m0); struct handlebars_module *m = m0; bool patched = true; unsigned k = symx_param("k", 1);
    for (unsigned i = 0; i < k; i++) {
        unsigned nz = patched ? symx_pick(symx_param("nz", 4), "normalize") : 0; char *snap = dup(m, n);
        if (nz == 1) handlebars_module_normalize_pointers(m, NULL);
        if (nz == 2) handlebars_module_normalize_pointers(m, m);
        if (nz == 3) { unsigned long base; symx_sym(&base, sizeof base, "base"); handlebars_module_normalize_pointers(m, (void *) base); }
        if (nz) { unsigned how = symx_pick(3, "how"); if (how == 0) { handlebars_module_patch_pointers(m); CHECK(h_eqn((char *) m, n, snap, n), "normalizing and then patching in place restores the module"); } patched = how == 0 || nz == 2; if (how == 1) { memmove(snap, m, n); } }
        free(snap);
        struct handlebars_module *to = sizedbuf(n); memcpy(to, m, n); memset(m, 0x5a, n); free(m); m = to; patched = false;
        if (symx_pick(2, "patch") || i + 1 == k) { handlebars_module_patch_pointers(m); patched = true; }
    }
    CHECK(handlebars_module_get_size(m) == n, "size travels with the module");
    char *snap = dup(m, n);
    struct txt got = run(m); symx_observe("moved", got.p, got.n); CHECK(same(got, want), "a moved module renders as the original");
    CHECK(h_eqn((char *) m, n, snap, n), "rendering leaves the module bytes alone");
    struct txt l2 = list(m); CHECK(same(l2, listing), "a moved module lists the same opcodes");
    got = run(m); CHECK(same(got, want), "a moved module renders as the original again");
    handlebars_module_patch_pointers(m); CHECK(h_eqn((char *) m, n, snap, n), "patching a module at its own place changes nothing");
}
static size_t find(const void *p, const void *v, size_t n) { for (size_t i = 0; i + n <= HANDLEBARS_MODULE_SIZE; i += n) if (memcmp((const char *) p + i, v, n) == 0) return i; symx_reach("done"); symx_assume(0); return 0; }
static void damage(struct handlebars_module *m0) {
    size_t n = handlebars_module_get_size(m0); unsigned w = symx_param("w", 0);
    if (symx_param("norm", 0)) handlebars_module_normalize_pointers(m0, NULL);
    uint64_t h = handlebars_module_generate_hash(m0); CHECK(h == handlebars_module_get_hash(m0), "the hash is stored");
    CHECK(handlebars_module_verify(m0, NULL), "an intact module verifies");
    C *c = handlebars_context_ctor(); jmp_buf jb; 
    if (handlebars_setjmp_ex(c, &jb)) { symx_fail("an intact module is reported as damaged"); return; }
    CHECK(handlebars_module_verify(m0, c), "an intact module verifies"); c->e->jmp = NULL;
    size_t room = n + (w == 1 ? 70000 : 0); unsigned char *b = malloc(room); memset(b, 0, room); memcpy(b, m0, n); struct handlebars_module *m = (void *) b;
    CHECK(handlebars_module_verify(m, NULL), "a copied module verifies");
    if (w == 0) { size_t i = symx_param("from", 0) + symx_pick(symx_param("np", 200), "at"); if (i >= n) { symx_reach("done"); symx_assume(0); } size_t so = find(b, &n, 8); if (i >= so && i < so + 8) symx_assume(0); unsigned char d = symx_u8("byte"); symx_assume(d != b[i]); b[i] = d; }
    if (w == 1) { size_t so = find(b, &n, 8); unsigned i = symx_pick(2, "at"); unsigned char d = symx_u8("byte"); symx_assume(d != b[so + i]); b[so + i] = d; }
    if (w == 2) { int v = handlebars_version(); CHECK(v == handlebars_module_get_version(m), "the version is this library's"); int *ver = (int *) (b + find(b, &v, sizeof v)); symx_sym(&v, sizeof v, "version"); symx_assume(v != handlebars_version()); *ver = v; handlebars_module_generate_hash(m); }
    if (w == 3) { size_t i = symx_param("from", 16) + symx_pick(60, "at"), j = i + 1 + symx_pick(40, "gap"); if (j >= n) symx_assume(0); size_t so = find(b, &n, 8); if ((i >= so && i < so + 8) || (j >= so && j < so + 8)) symx_assume(0); unsigned char d, e; d = symx_u8("byte"); e = symx_u8("byte2"); symx_assume(d != b[i] || e != b[j]); b[i] = d; b[j] = e; }
    if (w == 4) { size_t nn; symx_sym(&nn, sizeof nn, "size"); symx_assume(nn < n); memcpy(b + find(b, &n, 8), &nn, 8); size_t lim = symx_param("lim", 150); nn = symx_concretize(nn < lim ? nn : lim); if (nn >= lim) symx_assume(0); }
    CHECK(!handlebars_module_verify(m, NULL), "a changed module does not verify");
    if (w == 3 || symx_param("quiet", 0)) return;   /* the message prints the hash: too many forms */
    bool thrown = false; if (handlebars_setjmp_ex(c, &jb)) { thrown = true; CHECK(handlebars_error_num(c) == HANDLEBARS_ERROR, "a changed module is reported"); CHECK(handlebars_error_msg(c) && strlen(handlebars_error_msg(c)) > 10, "the report has a message"); }
    else { (void) handlebars_module_verify(m, c); }
    CHECK(thrown, "verifying a changed module reports an error");
}
void harness(void) {
    C *cw = handlebars_context_ctor(); world(cw, &gd, &gh, &gp); if (symx_param("nop", 0)) gp = NULL;
    flags = symx_param("flags", 0); unsigned t = symx_param("tm", 99); if (t == 99) t = symx_pick(NT, "template");
    char b[400]; size_t n = strlen(T[t]); memcpy(b, T[t], n + 1); unsigned char s = 'z'; if (symx_param("sym", 1)) { s = symx_u8("text"); symx_assume(s >= 'f'); symx_assume(s <= 'm'); } for (size_t i = 0; i < n; i++) if (b[i] == 1) b[i] = (char) s;
    if (!gp) for (size_t i = 0; i < n; i++) if (b[i] == '>') b[i] = '!';
    C *c = handlebars_context_ctor(); jmp_buf jb; if (handlebars_setjmp_ex(c, &jb)) { symx_fail("compiling failed"); return; }
    struct handlebars_module *m = compile(c, b, n);
    if (symx_param("ver", 0)) { struct handlebars_module *k = malloc(handlebars_module_get_size(m)); memcpy(k, m, handlebars_module_get_size(m)); settle(k, handlebars_module_get_size(m), 1); handlebars_module_patch_pointers(k); damage(k); symx_reach("done"); return; }
    struct txt want = run(m), listing = list(m); symx_observe("text", want.p, want.n); CHECK(!want.err || t == 4, "the original renders");
    struct handlebars_module *k = sizedbuf(handlebars_module_get_size(m)); memcpy(k, m, handlebars_module_get_size(m)); settle(k, handlebars_module_get_size(m), 0); memset(m, 0x5a, handlebars_module_get_size(m)); handlebars_context_dtor(c);
    handlebars_module_patch_pointers(k); move(k, want, listing);
    symx_reach("done");
}
