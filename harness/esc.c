/* P01: a printed value is escaped once where {{ }} asks for it and nowhere else. */
#include "tpl.h"
#define AT(a, i) ((V *) ((char *) (a) + (size_t) (i) * HANDLEBARS_VALUE_SIZE))
static V *h_id(HANDLEBARS_HELPER_ARGS) { (void) vm; (void) options; if (argc) handlebars_value_value(rv, AT(argv, 0)); return rv; }
static V *h_safe(HANDLEBARS_HELPER_ARGS) { (void) vm; (void) options; (void) argc; S *s = handlebars_value_to_string(AT(argv, 0), tctx); handlebars_value_str(rv, handlebars_string_ctor(tctx, hbs_str_val(s), hbs_str_len(s))); handlebars_value_set_flag(rv, HANDLEBARS_VALUE_FLAG_SAFE_STRING); return rv; }
static V *h_blk(HANDLEBARS_HELPER_ARGS) { (void) argc; (void) argv; handlebars_value_str(rv, handlebars_vm_execute_program(vm, options->program, options->scope)); return rv; }
static V *h_cat(HANDLEBARS_HELPER_ARGS) { (void) argc; (void) vm; (void) options; S *s = handlebars_string_ctor(tctx, "<", 1), *t = handlebars_value_to_string(AT(argv, 0), tctx); s = handlebars_string_append(tctx, s, hbs_str_val(t), hbs_str_len(t)); handlebars_value_str(rv, s); return rv; }
static const mv *ref_call(const ex *e, env *n, const nd *blk, out *o) {
    const mv *a = e->na ? ev(e->arg[0], n) : &MNULL;
    if (!strcmp(e->fn, "id")) return a;
    if (!strcmp(e->fn, "blk")) { rf_prog(blk, false, *n, NULL, NULL, NULL, NULL, o); return &MNULL; }
    out *t = malloc(sizeof *t); t->n = 0; if (!strcmp(e->fn, "cat")) o_c(t, '<'); if (a->t != MV_ARR) mv_print(a, false, t); mv *m = mk_mv(MV_STR); m->big = t->b; m->n = t->n; m->safe = !strcmp(e->fn, "safe"); return m;
}
static nd *fm(nd *n, int f) { n->form = f; return n; }
static const char *TXT = "|";
static char txt[4] = "|";
static void forms(nd *host, ex *(*mk)(void)) { for (int f = 0; f < 3; f++) { n_body(host, fm(n_mus(mk()), f)); n_body(host, n_text(TXT)); } }
static ex *e_v(void) { return x_id("v"); } static ex *e_this(void) { return x_this(); } static ex *e_lv(void) { ex *e = x_path(0, 2, "l", "0", 0); e->br = true; return e; } static ex *e_data(void) { return x_data(0, "dv"); } static ex *e_rootv(void) { ex *e = x_data(0, "root"); e->ns = 2; e->seg[1] = "v"; return e; } static ex *e_bp(void) { return x_id("bp"); }
static ex *e_id(void) { return x_arg(x_call("id"), x_id("v")); } static ex *e_safe(void) { return x_arg(x_call("safe"), x_id("v")); } static ex *e_cat(void) { return x_arg(x_call("cat"), x_id("v")); } static ex *e_sub(void) { return x_arg(x_call("cat"), x_arg(x_call("id"), x_id("v"))); } static ex *e_up(void) { return x_path(1, 1, "v", 0, 0); }
static ex *e_safesub(void) { return x_arg(x_call("id"), x_arg(x_call("safe"), x_id("v"))); } static ex *e_look(void) { return x_arg(x_arg(x_call("lookup"), x_this()), x_str("v", 1)); } static ex *e_list(void) { return x_id("l"); } static ex *e_lit(void) { return x_arg(x_call("id"), x_str("<b>&", 4)); }
static V *helpers_val(C *c) { static const struct { const char *n; handlebars_helper_func f; } R[] = { { "id", h_id }, { "safe", h_safe }, { "blk", h_blk }, { "cat", h_cat } }; M *m = handlebars_map_ctor(c, 8); handlebars_map_addref(m); for (int i = 0; i < 4; i++) { V *v = h_val(c); handlebars_value_helper(v, R[i].f); m = handlebars_map_update(m, h_str(c, R[i].n), v); } V *v = h_val(c); handlebars_value_map(v, m); return v; }
void harness(void) {
    unsigned w = (unsigned) symx_param("w", 0); nd top; memset(&top, 0, sizeof top); nparts = 0;
    tpl_flags = (symx_param("noesc", 0) ? handlebars_compiler_flag_no_escape : 0) | (symx_param("compat", 0) ? handlebars_compiler_flag_compat : 0);
    mv *v = mk_mv(MV_STR), *root = mk_mv(MV_MAP), *l = mk_mv(MV_ARR), *o = mk_mv(MV_MAP), *data = mk_mv(MV_MAP);
    if (w == 0 || w == 2) { v->n = (unsigned) symx_param("n", 1); symx_sym(v->s, v->n, "bytes"); v->safe = symx_param("safe", 0); }
    else if (w == 1) { static const size_t L[] = { 0, 2, 9, 31, 100, 170 }; size_t n = L[symx_pick(6, "len")]; char *b = malloc(n + 1), c; symx_sym(&c, 1, "byte"); for (size_t i = 0; i < n; i++) b[i] = i % 3 == 1 ? 'x' : c; v->big = b; v->n = n; }
    else { unsigned k = symx_pick(6, "kind"); if (k == 0) v->t = MV_TRUE; else if (k == 1) v->t = MV_FALSE; else if (k == 2) v->t = MV_NULL; else if (k == 3) { v->t = MV_INT; v->i = -42; } else if (k == 4) { v->t = MV_FLT; v->d = 1.5; v->dt = "1.5"; } else { v->t = MV_ARR; v->k[v->kn++] = m_str("<"); mv *s = m_str("&"); s->safe = true; v->k[v->kn++] = s; mv *in = mk_mv(MV_ARR); in->k[in->kn++] = m_str("'\""); in->k[in->kn++] = m_int(3); v->k[v->kn++] = in; } }
    l->k[l->kn++] = v; m_add(o, "v", v); m_add(m_add(m_add(root, "v", v), "l", l), "o", o); m_add(data, "dv", v);
    if (w == 2) { symx_sym(txt, 1, "text"); symx_assume(txt[0] != '{' && txt[0] != '\\' && txt[0] != '}' && txt[0] != ' ' && (txt[0] < 9 || txt[0] > 13)); TXT = txt; }
    for (int f = 0; f < 3; f++) { parts[0].name = "p"; parts[0].n[f] = fm(n_mus(x_id("v")), f); } parts[0].n[3] = n_text("<&>"); parts[0].nn = 4; nparts = 1;
    if (w == 2) { n_body(&top, n_text(TXT)); n_body(&top, n_mus(x_id("v"))); n_body(&top, n_text(TXT)); nd *b = n_blk(x_arg(x_call("if"), mk_ex(E_TRUE))); n_body(b, n_text(TXT)); n_body(b, fm(n_mus(x_id("v")), F_RAW)); n_body(b, n_text(TXT)); n_body(&top, b); b = n_blk(x_call("blk")); n_body(b, n_text(TXT)); n_body(&top, b); n_body(&top, n_text("<&\"'>` ")); }
    else {
        static ex *(*const E[])(void) = { e_v, e_lv, e_data, e_rootv, e_id, e_safe, e_cat, e_sub, e_safesub, e_look, e_list, e_lit };
        unsigned g = symx_pick(3, "group"); if (g == 2 && v->n > 40) symx_assume(0);
        if (g == 0) for (unsigned i = 0; i < 6; i++) forms(&top, E[i]);
        else if (g == 1) for (unsigned i = 6; i < 12; i++) forms(&top, E[i]);
        else {
            nd *b = n_blk(x_arg(x_call("each"), x_id("l"))); n_bp(b, "bp", NULL); forms(b, e_this); forms(b, e_up); forms(b, e_bp); n_body(&top, b);
            b = n_blk(x_arg(x_call("with"), x_id("o"))); forms(b, e_v); nd *p = mk_nd(N_PART); p->e = x_call("p"); n_body(b, p); n_body(&top, b);
            b = n_blk(x_call("blk")); forms(b, e_v); nd *in = n_blk(x_call("blk")); n_body(in, n_mus(x_id("v"))); n_body(b, in); n_body(&top, b);
            p = mk_nd(N_PART); p->e = x_arg(x_call("p"), x_id("o")); n_body(&top, p); p = mk_nd(N_PART); p->e = x_hash(x_call("p"), "v", e_cat()); n_body(&top, p);
            p = mk_nd(N_PBLK); p->e = x_call("missing"); forms(p, e_v); n_body(&top, p);
            b = n_blk(x_id("v")); forms(b, e_this); n_else(b, fm(n_mus(x_id("v")), F_ESC)); if (v->t != MV_ARR) n_body(&top, b);
            b = n_blk(x_arg(x_call("if"), x_id("v"))); forms(b, e_v); n_else(b, n_mus(x_id("v"))); n_body(&top, b); } }
    tctx = handlebars_context_ctor(); tpl_helpers = helpers_val(tctx);
    tpl_check(top.body, top.nb, root, data);
}
