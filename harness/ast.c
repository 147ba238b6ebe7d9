/* P31: lists of syntax-tree nodes, and printed trees. */
#define HANDLEBARS_AST_LIST_PRIVATE
#define HANDLEBARS_OPCODES_PRIVATE
#define HANDLEBARS_COMPILER_PRIVATE
#include "h.h"
#include "handlebars_ast.h"
#include "handlebars_ast_list.h"
#include "handlebars_ast_printer.h"
#include "handlebars_compiler.h"
#include "handlebars_opcodes.h"
#include "handlebars_opcode_printer.h"
static C *c;
/* --- lists --- */
#define MX 12
static struct handlebars_ast_node *nd[3]; static int ref[MX]; static unsigned rn; static struct handlebars_ast_list *l;
static int idx(struct handlebars_ast_node *n) { for (int i = 0; i < 3; i++) if (nd[i] == n) return i; return -1; }
static void same(void) {
    CHECK(handlebars_ast_list_count(l) == rn, "the count"); unsigned i = 0; struct handlebars_ast_list_item *it, *tmp, *prev = NULL;
    handlebars_ast_list_foreach(l, it, tmp) { CHECK(i < rn && idx(it->data) == ref[i], "order, forwards"); CHECK(it->prev == prev, "back link"); prev = it; i++; if (i > rn) break; }
    CHECK(i == rn, "all, forwards"); CHECK(l->last == prev, "the last one"); CHECK(rn == 0 ? (!l->first && !l->last) : 1, "an empty list has no ends");
    for (it = l->last; it; it = it->prev) { CHECK(i > 0 && idx(it->data) == ref[i - 1], "order, backwards"); i--; } CHECK(i == 0, "all, backwards");
    for (int k = 0; k < 3; k++) { unsigned p = rn; for (unsigned q = 0; q < rn; q++) if (ref[q] == k) { p = q; break; } it = handlebars_ast_list_find(l, nd[k]); CHECK((it != NULL) == (p < rn), "found when present"); if (it) { struct handlebars_ast_list_item *w = l->first; while (p--) w = w->next; CHECK(w == it, "the first of them"); } }
}
static void at(unsigned p, int v) { for (unsigned i = rn; i > p; i--) ref[i] = ref[i - 1]; ref[p] = v; rn++; }
static void lists(void) {
    for (int i = 0; i < 3; i++) nd[i] = handlebars_ast_node_ctor(c, HANDLEBARS_AST_NODE_CONTENT);
    l = handlebars_ast_list_ctor(c); same(); unsigned L = symx_param("l", 4);
    for (unsigned s = 0; s < L; s++) {
        unsigned op = symx_pick(5, "op"); int k = (int) symx_pick(s == 0 && op != 2 ? 1 : 3, "node");
        if (op == 0) { handlebars_ast_list_append(l, nd[k]); at(rn, k); }
        if (op == 1) { handlebars_ast_list_prepend(l, nd[k]); at(0, k); }
        if (op == 2) { unsigned p = rn; for (unsigned q = 0; q < rn; q++) if (ref[q] == k) { p = q; break; } bool r = handlebars_ast_list_remove(l, nd[k]); CHECK(r == (p < rn), "removing tells whether it was there"); if (p < rn) { for (unsigned q = p; q + 1 < rn; q++) ref[q] = ref[q + 1]; rn--; } }
        if (op > 2) { if (!rn) symx_assume(0); unsigned p = symx_pick(rn, "where"); struct handlebars_ast_list_item *w = l->first; for (unsigned q = 0; q < p; q++) w = w->next; struct handlebars_ast_list_item *n = talloc_zero(l, struct handlebars_ast_list_item); n->data = nd[k];
            if (op == 3) { handlebars_ast_list_insert_after(l, w, n); at(p + 1, k); } else { handlebars_ast_list_insert_before(l, w, n); at(p, k); } }
        same();
    }
    handlebars_ast_list_dtor(l);
}
/* --- printing. # in a template is the arbitrary byte; the pieces are what must be shown, in order --- */
struct tmpl { const char *t; const char *p[14]; };
static const struct tmpl TM[] = {
 {"k1#k2{{k3}}k4", {"k1#k2", "k3", "k4"}},
 {"k1{{k3 k4 \"k5#k6\" k7=k8 k9='ka'}}kb", {"k1", "k3", "k4", "k5#k6", "k7", "k8", "k9", "ka", "kb"}},
 {"k1{{!k2#k3}}k4{{!--k5#k6--}}k7", {"k1", "k2#k3", "k4", "k5#k6", "k7"}},
 {"{{#k1 k2 as |k3 k4|}}k5#{{k6}}{{^}}k7{{/k1}}k8", {"k1", "k2", "k3", "k4", "k5#", "k6", "k7", "k8"}},
 {"{{#if k1}}k2{{else if k3}}k4#k5{{else}}k6{{/if}}k7", {"k1", "k2", "k3", "k4#k5", "k6", "k7"}},
 {"{{^k1}}k2#k3{{/k1}}k4", {"k1", "k2#k3", "k4"}},
 {"k0{{> k1 k2 k3=\"k4#k5\"}}k6", {"k0", "k1", "k2", "k3", "k4#k5", "k6"}},
 {"k0{{#> k1 k2 k3=\"k4#k5\"}}k6{{/k1}}k7", {"k0", "k1", "k2", "k3", "k4#k5", "k6", "k7"}},
 {"k0{{#> k1}}k2#k3{{> @partial-block}}{{/k1}}k7", {"k0", "k1", "k2#k3", "k7"}},
 {"{{{{k1 k2}}}}k3#{{k4}}k5{{{{/k1}}}}k6", {"k1", "k2", "k3#{{k4}}k5", "k6"}},
 {"k0{{{k1 (k2 k3 (k4 'k5#k6') k7=(k8))}}}k9{{&ka}}kb", {"k0", "k1", "k2", "k3", "k4", "k5#k6", "k7", "k8", "k9", "ka", "kb"}},
 {"k0 {{~k1~}} k2 {{~#k3~}} k4# {{~^~}} k5 {{~/k3~}} k6 {{~{k7}~}} {{~! k8~}} k9 {{~> ka ~}} kb", {"k0", "k1", "k2", "k3", "k4#", "k5", "k6", "k7", "k8", "k9", "ka", "kb"}},
 {"k0{{k1.k2/[k3#].k4}}{{../k5}}{{@k6}}{{this.k7}}k8", {"k0", "k1", "k2", "k3#", "k4", "k5", "k6", "k7", "k8"}},
 {"k0{{k1 true false null undefined 12 -3 k2=1 k3=true}}k4", {"k0", "k1", "true", "false", "12", "-3", "k2", "k3", "k4"}},
 {"k0{{> (k1 'k2#k3') k4}}k5{{> k6 k7=(k8 k9)}}ka", {"k0", "k1", "k2#k3", "k4", "k5", "k6", "k7", "k8", "k9", "ka"}},
 {"k0{{#k1}}k2{{#k3}}k4#{{/k3}}k5{{#k6}}k7{{/k6}}{{/k1}}k8", {"k0", "k1", "k2", "k3", "k4#", "k5", "k6", "k7", "k8"}},
 {"k0\\\\{{k1}}k2\\{{k3}}k4#", {"k0\\", "k1", "k2{{k3}}k4#"}},
 {"k0 {{~#> k1 ~}} k2# {{~/k1~}} k3\n {{#> k4}}\n k5\n {{/k4}}\nk6", {"k0", "k1", "k2#", "k3", "k4", "k5", "k6"}},
 {"{{#each k1 k2='k3#k4' as |k5|}}k6{{else}}k7{{/each}}{{#> k8 k9 ka=1}}kb{{{{kc}}}}kd{{{{/kc}}}}ke{{/k8}}kf", {"k1", "k2", "k3#k4", "k5", "k6", "k7", "k8", "k9", "ka", "kb", "kc", "kd", "ke", "kf"}},
 {"k0{{*k1 k2}}{{#*k3 k4}}k5#{{/k3}}k6", {"k0", "k1", "k2", "k3", "k4", "k5#", "k6"}},
};
static unsigned char by;
static unsigned char by2; static unsigned reps = 1;
static char *inst(const char *t, size_t *n) { char *s = malloc(strlen(t) * (reps + 1) + 3); size_t o = 0; for (size_t i = 0; t[i]; i++) { if (t[i] == '#' && i && t[i - 1] >= '0' && t[i - 1] <= '9') { for (unsigned r = 0; r < reps; r++) s[o++] = (char) by; if (symx_param("two", 0)) s[o++] = (char) by2; } else s[o++] = t[i]; } s[o] = 0; *n = o; return s; }
static struct handlebars_ast_node *parse(const char *s, size_t n) { struct handlebars_parser *p = handlebars_parser_ctor(c); jmp_buf jb; if (handlebars_setjmp_ex(c, &jb)) { c->e->jmp = NULL; return NULL; } struct handlebars_ast_node *a = handlebars_parse_ex(p, handlebars_string_ctor(c, s, n), symx_param("flags", 0)); c->e->jmp = NULL; return a; }
/* every piece appears, in order, and no other occurrence of its mark */
static void pieces(const struct tmpl *t, S *out, bool closers, const char *why) {
    const char *o = hbs_str_val(out); size_t n = hbs_str_len(out), at = 0; CHECK(o[n] == 0, "ended");
    for (int i = 0; i < 14 && t->p[i]; i++) { size_t pn; char *p = inst(t->p[i], &pn); bool found = false; if (p[0] == 'k' && !closers) { unsigned cnt = 0; for (size_t q = 0; q + 1 < n; q++) if (o[q] == 'k' && o[q + 1] == p[1]) cnt++; CHECK(cnt == 1, "every part is shown once"); }
        for (; at + pn <= n; at++) if (o[at] == p[0] && o[at + 1] == p[1]) { found = h_eqn(o + at, pn, p, pn); if (found) at += pn; break; } CHECK(found, why); free(p); }
}
static void printing(void) {
    const struct tmpl *t = &TM[symx_param("tm", 0)]; by = symx_u8("byte"); reps = symx_param("reps", 1); if (symx_param("two", 0)) by2 = symx_u8("byte2"); symx_assume(by != 'k'); bool any = symx_param("any", 0); if (!any) symx_assume(by != 0); if (!any) symx_assume(by != '\\' && by != '{' && by != '}' && by != '~' && by != '"' && by != '\'');
    if (symx_param("nows", 0)) symx_assume(by != ' ' && by != '\n' && by != '\t' && by != '\r' && by != '\v' && by != '\f');
    size_t n; char *s = inst(t->t, &n); struct handlebars_ast_node *a = parse(s, n); if (!a) { symx_assume(0); return; }
    S *pr = handlebars_ast_print(c, a); symx_observe("print", hbs_str_val(pr), hbs_str_len(pr)); if (!any) pieces(t, pr, false, "the printed tree shows the text");
    S *src = handlebars_ast_to_string(c, a); symx_observe("source", hbs_str_val(src), hbs_str_len(src)); if (!any && !symx_param("quoted", 0)) pieces(t, src, true, "the written template contains the text");
    struct handlebars_ast_node *b = parse(hbs_str_val(src), hbs_str_len(src)); CHECK(b != NULL, "the written template is one"); S *pb = handlebars_ast_print(c, b); symx_observe("reprint", hbs_str_val(pb), hbs_str_len(pb));
    CHECK(h_eqn(hbs_str_val(pb), hbs_str_len(pb), hbs_str_val(pr), hbs_str_len(pr)), "the written template is the same tree");
    S *s2 = handlebars_ast_to_string(c, b); CHECK(h_eqn(hbs_str_val(s2), hbs_str_len(s2), hbs_str_val(src), hbs_str_len(src)), "writing it again gives the same text");
}
/* --- the listing of a program --- */
static char *L; static size_t ln, lcap;
static void put(const char *s, size_t n) { CHECK(ln + n < lcap, "(reference buffer)"); for (size_t i = 0; i < n; i++) L[ln++] = s[i]; }
static void puts0(const char *s) { put(s, strlen(s)); }
static void num(long v) { char b[24]; int i = 24; bool neg = v < 0; unsigned long u = neg ? -(unsigned long) v : (unsigned long) v; do b[--i] = (char) ('0' + u % 10); while (u /= 10); if (neg) b[--i] = '-'; put(b + i, (size_t) (24 - i)); }
static void oper(struct handlebars_operand *o) {
    switch (o->type) {
    case handlebars_operand_type_null: puts0("[NULL]"); break;
    case handlebars_operand_type_boolean: puts0("[BOOLEAN:"); puts0(o->data.boolval ? "1]" : "0]"); break;
    case handlebars_operand_type_long: puts0("[LONG:"); num(o->data.longval); puts0("]"); break;
    case handlebars_operand_type_string: { puts0("[STRING:"); const char *s = hbs_str_val(o->data.string.string); for (size_t i = 0, n = hbs_str_len(o->data.string.string); i < n; i++) { if (s[i] == '\n') puts0("\\n"); else if (s[i] == '\r') puts0("\\r"); else if (s[i] == '\t') puts0("\\t"); else put(s + i, 1); } puts0("]"); break; }
    case handlebars_operand_type_array: puts0("[ARRAY:"); for (size_t i = 0; i < o->data.array.count; i++) { if (i) puts0(","); put(hbs_str_val(o->data.array.array[i].string), hbs_str_len(o->data.array.array[i].string)); } puts0("]"); break;
    default: CHECK(0, "a known kind of operand"); } }
static void listing(struct handlebars_program *p, unsigned depth, bool loc) {
    for (size_t i = 0; i < p->opcodes_length; i++) { struct handlebars_opcode *o = p->opcodes[i]; for (unsigned d = 0; d < depth; d++) puts0("  "); puts0(handlebars_opcode_readable_type(o->type)); int k = handlebars_opcode_num_operands(o->type); if (k >= 1) oper(&o->op1); if (k >= 2) oper(&o->op2); if (k >= 3 && !(o->type == handlebars_opcode_type_invoke_ambiguous && o->op3.type == handlebars_operand_type_null)) oper(&o->op3); if (k >= 4) oper(&o->op4);
        if (loc) { puts0(" ["); num(o->loc.first_line); puts0(":"); num(o->loc.first_column); puts0("-"); num(o->loc.last_line); puts0(":"); num(o->loc.last_column); puts0("]"); } puts0("\n"); }
    for (unsigned d = 0; d < depth; d++) puts0("  "); puts0("-----\n");
    for (size_t i = 0; i < p->decorators_length; i++) { for (unsigned d = 0; d <= depth; d++) puts0("  "); puts0("DECORATOR\n"); listing(p->decorators[i], depth + 1, loc); }
    for (size_t i = 0; i < p->children_length; i++) listing(p->children[i], depth + 1, loc); }
static void opcodes(void) {
    unsigned tm = symx_param("tm", 0), nest = symx_param("nest", 0); by = symx_u8("byte"); size_t n; char *s;
    if (nest) { s = malloc(nest * 16 + 8); n = 0; for (unsigned i = 0; i < nest; i++) for (const char *q = "{{#a}}"; *q; q++) s[n++] = *q; s[n++] = 'x'; for (unsigned i = 0; i < nest; i++) for (const char *q = "{{/a}}"; *q; q++) s[n++] = *q; } else s = inst(TM[tm].t, &n);
    struct handlebars_ast_node *a = parse(s, n); if (!a) { symx_assume(0); return; }
    struct handlebars_compiler *cc = handlebars_compiler_ctor(c); handlebars_compiler_set_flags(cc, symx_param("flags", 0)); struct handlebars_program *p = handlebars_compiler_compile_ex(cc, a);
    lcap = 4096 + nest * nest * 16 + nest * 200; L = malloc(lcap); bool loc = symx_param("loc", 0); listing(p, 0, loc); S *out = handlebars_program_print(c, p, loc ? handlebars_opcode_printer_flag_locations : 0);
    symx_observe("listing", hbs_str_val(out), hbs_str_len(out) < 400 ? hbs_str_len(out) : 400); CHECK(h_eqn(hbs_str_val(out), hbs_str_len(out), L, ln), "the listing shows every opcode of every program");
}
void harness(void) { c = handlebars_context_ctor(); if (symx_param("w", 0) == 0) lists(); else if (symx_param("w", 0) == 2) opcodes(); else printing(); handlebars_context_dtor(c); symx_reach("done"); }
