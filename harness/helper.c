/* P08: which function a call reaches, and what it is given. Registered helpers write what they see to a log, the reference writes what they should see. */
#include "tpl.h"
static out llog, rlog;
#define AT(a, i) ((V *) ((char *) (a) + (size_t) (i) * HANDLEBARS_VALUE_SIZE))
/* ---- what the library hands over ---- */
static void desc(out *o, V *v, int d) {
    switch (handlebars_value_get_real_type(v)) {
    case HANDLEBARS_VALUE_TYPE_NULL: o_c(o, 'N'); break; case HANDLEBARS_VALUE_TYPE_TRUE: o_c(o, 'T'); break; case HANDLEBARS_VALUE_TYPE_FALSE: o_c(o, 'F'); break;
    case HANDLEBARS_VALUE_TYPE_INTEGER: o_c(o, 'I'); o_int(o, handlebars_value_get_intval(v)); break;
    case HANDLEBARS_VALUE_TYPE_FLOAT: { C *c = handlebars_context_ctor(); S *s = handlebars_value_to_string(v, c); o_c(o, 'D'); o_n(o, hbs_str_val(s), hbs_str_len(s)); handlebars_context_dtor(c); break; }
    case HANDLEBARS_VALUE_TYPE_STRING: o_c(o, '\''); o_n(o, handlebars_value_get_strval(v), handlebars_value_get_strlen(v)); o_c(o, '\''); break;
    case HANDLEBARS_VALUE_TYPE_ARRAY: o_c(o, 'A'); o_int(o, handlebars_value_count(v)); break;
    case HANDLEBARS_VALUE_TYPE_MAP: { o_c(o, '{'); M *m = handlebars_value_get_map(v); size_t n = handlebars_map_count(m); if (d) for (size_t i = 0; i < n; i++) { S *k; V *x; handlebars_map_get_kv_at_index(m, i, &k, &x); o_n(o, hbs_str_val(k), hbs_str_len(k)); o_c(o, '='); desc(o, x, 0); o_c(o, ';'); } o_c(o, '}'); break; }
    case HANDLEBARS_VALUE_TYPE_HELPER: o_c(o, 'H'); break; default: o_c(o, '?'); break; }
}
static void note(char what, int argc, V *argv, struct handlebars_options *op) {
    out *o = &llog; o_c(o, what); if (op->name) o_n(o, hbs_str_val(op->name), hbs_str_len(op->name)); o_c(o, '(');
    for (int i = 0; i < argc; i++) { desc(o, AT(argv, i), 1); o_c(o, ' '); }
    o_c(o, ')'); static const char *K[] = { "k", "j", "q" }; o_int(o, op->hash ? handlebars_value_count(op->hash) : -1);
    for (int i = 0; i < 3; i++) { V *rv = h_val(tctx), *x = op->hash ? handlebars_value_map_str_find(op->hash, K[i], 1, rv) : NULL; if (x) { o_s(o, K[i]); o_c(o, '='); desc(o, x, 1); } }
    o_c(o, '@'); desc(o, op->scope, 1); o_c(o, '\n');
}
static V *h_show(HANDLEBARS_HELPER_ARGS) { note('S', argc, argv, options); (void) vm; handlebars_value_str(rv, h_str(tctx, "ok")); return rv; }
static V *h_fn(HANDLEBARS_HELPER_ARGS) { note('C', argc, argv, options); (void) vm; handlebars_value_str(rv, h_str(tctx, "fn")); return rv; }
static V *h_id(HANDLEBARS_HELPER_ARGS) { (void) vm; (void) options; if (argc) handlebars_value_value(rv, AT(argv, 0)); return rv; }
static V *h_sum(HANDLEBARS_HELPER_ARGS) { (void) vm; (void) options; long s = 0; for (int i = 0; i < argc; i++) s = s * 10 + handlebars_value_get_intval(AT(argv, i)); handlebars_value_integer(rv, s); return rv; }
static V *h_blk(HANDLEBARS_HELPER_ARGS) {
    note('B', argc, argv, options); V *ctx = argc ? AT(argv, 0) : options->scope, *bp = h_val(tctx); S *r = handlebars_string_init(tctx, 64);
    K *st = handlebars_stack_ctor(tctx, 2); st = handlebars_stack_push(st, ctx); st = handlebars_stack_push(st, h_vint(tctx, 7)); handlebars_value_array(bp, st);
    r = handlebars_string_append(tctx, r, "[", 1); S *a = handlebars_vm_execute_program_ex(vm, options->program, ctx, NULL, bp); r = handlebars_string_append_str(tctx, r, a);
    r = handlebars_string_append(tctx, r, "|", 1); a = handlebars_vm_execute_program(vm, options->inverse, options->scope); r = handlebars_string_append_str(tctx, r, a);
    r = handlebars_string_append(tctx, r, "]", 1); handlebars_value_str(rv, r); handlebars_value_set_flag(rv, HANDLEBARS_VALUE_FLAG_SAFE_STRING); return rv;
}
/* ---- what it should hand over ---- */
static struct { const char *n; int k; handlebars_helper_func f; } regs[16]; static int nregs;
static void rg(const char *n, int k) { static const handlebars_helper_func F[] = { h_show, h_id, h_sum, h_blk }; regs[nregs].n = n; regs[nregs].k = k; regs[nregs++].f = F[k]; }
static void mdesc(out *o, const mv *m, int d) {
    switch (m->t) { case MV_NULL: o_c(o, 'N'); break; case MV_TRUE: o_c(o, 'T'); break; case MV_FALSE: o_c(o, 'F'); break; case MV_INT: o_c(o, 'I'); o_int(o, m->i); break; case MV_FLT: o_c(o, 'D'); o_s(o, m->dt); break;
    case MV_STR: o_c(o, '\''); o_n(o, m->s, m->n); o_c(o, '\''); break; case MV_ARR: o_c(o, 'A'); o_int(o, m->kn); break;
    case MV_MAP: o_c(o, '{'); if (d) for (unsigned i = 0; i < m->kn; i++) { o_s(o, m->key[i]); o_c(o, '='); mdesc(o, m->k[i], 0); o_c(o, ';'); } o_c(o, '}'); break; case MV_HLP: o_c(o, 'H'); break; default: o_c(o, '?'); }
}
static const mv *A[6];
static void margs(const ex *e, env *n, char what, const char *name, const mv **hv) {
    out *o = &rlog; static const char *K[] = { "k", "j", "q" }; o_c(o, what); o_s(o, name); o_c(o, '('); for (int i = 0; i < e->na; i++) { mdesc(o, A[i], 1); o_c(o, ' '); } o_c(o, ')'); o_int(o, e->nh);
    for (int i = 0; i < 3; i++) for (int j = 0; j < e->nh; j++) if (!strcmp(e->hk[j], K[i])) { o_s(o, K[i]); o_c(o, '='); mdesc(o, hv[j], 1); }
    o_c(o, '@'); mdesc(o, n->c->v, 1); o_c(o, '\n');
}
static const mv *field(const char *nm, env *n) { char *d = strchr(nm, '.'); if (!d) return ev(x_id(nm), n); char *b = malloc(16); memcpy(b, nm, (size_t) (d - nm)); b[d - nm] = 0; return ev(x_path(0, 2, b, d + 1, 0), n); }
static const mv *ref_call(const ex *e, env *n, const nd *blk, out *o) {
    int r = -1; const mv *hv[3], *av[6]; char full[16]; const char *fn = e->fn; bool bp = false, miss = false;
    for (bpf *b = n->b; b; b = b->up) for (int j = 0; j < 2; j++) if (b->n[j] && !strcmp(b->n[j], fn)) bp = true;
    if (!(bp && !e->na && !e->nh)) for (int i = 0; i < nregs; i++) if (!strcmp(regs[i].n, fn)) r = i;
    for (int i = 0; i < e->na; i++) { av[i] = ev(e->arg[i], n); if (ref_error) return &MNULL; } for (int i = 0; i < e->nh; i++) { hv[i] = ev(e->hv[i], n); if (ref_error) return &MNULL; }
    for (int i = 0; i < e->na; i++) A[i] = av[i];
    const mv *res = &MNULL; (void) full;
    if (r < 0) {
        const mv *v = field(fn, n);
        if (v->t == MV_HLP) { margs(e, n, 'C', fn, hv); res = m_str("fn"); if (blk) { if (e->na || e->nh) o_s(o, "fn"); else rf_section(blk, res, n, o); } return res; }   /* with arguments the result is the output, else it is a section's value */
        for (int i = 0; i < nregs; i++) if (!strcmp(regs[i].n, "helperMissing") && (e->na || (v->t == MV_NULL && !strchr(fn, '.')))) { r = i; miss = true; }
        if (r < 0) {
            if (e->na) { ref_error = true; ref_msg = fn; return &MNULL; }
            if (blk) rf_section(blk, v, n, o);
            return v; } }
    switch (regs[r].k) {
    case 0: margs(e, n, 'S', fn, hv); res = m_str("ok"); if (blk) { if (miss && !e->na) rf_section(blk, res, n, o); else o_s(o, "ok"); } break;
    case 1: res = e->na ? A[0] : &MNULL; break;
    case 2: { long s = 0; for (int i = 0; i < e->na; i++) s = s * 10 + (A[i]->t == MV_INT ? A[i]->i : 0); res = m_int(s); break; }
    case 3: { margs(e, n, 'B', fn, hv); const mv *c = e->na ? A[0] : n->c->v; nd t = *blk; const nd *b = blk; if (blk->k == N_INV) { memcpy(t.body, blk->inv, sizeof blk->inv); t.nb = blk->has_inv ? blk->ni : 0; memcpy(t.inv, blk->body, sizeof t.inv); t.ni = blk->nb; t.has_inv = true; b = &t; } o_c(o, '['); rf_prog(b, false, *n, c, NULL, c, m_int(7), o); o_c(o, '|'); rf_prog(b, true, *n, NULL, NULL, NULL, NULL, o); o_c(o, ']'); break; }
    }
    return res;
}
/* ---- generators ---- */
static mv *leaf(const char *id) { mv *m = m_str(id); symx_sym(m->s + m->n, 1, "leaf"); m->n++; return m; }
static char litb[4] = "a?b"; static bool litq;
#define NA 20
static ex *argk(unsigned k) {
    switch (k) {
    case 0: return x_id("a"); case 1: return x_id("none"); case 2: return x_id("l"); case 3: return x_id("o"); case 4: return x_int(0); case 5: return x_int(-12); case 6: return x_int(2147483648L); case 7: { ex *e = x_str(litb, 3); e->i = litq; return e; }
    case 8: return x_str("", 0); case 9: return mk_ex(E_TRUE); case 10: return mk_ex(E_FALSE); case 11: return mk_ex(E_NULL); case 12: return mk_ex(E_UNDEF); case 13: return x_flt(1.5, "1.5"); case 14: return x_this(); case 15: return x_data(0, "root"); case 16: return x_path(0, 2, "o", "x", 0); case 17: return x_path(1, 1, "a", 0, 0);
    case 18: return x_arg(x_call("id"), x_id("a")); default: return x_arg(x_arg(x_call("sum"), x_int(3)), x_arg(x_arg(x_call("sum"), x_int(4)), x_id("i"))); }
}
static nd *raw(ex *e) { nd *m = n_mus(e); m->form = F_RAW; return m; }
static V *helpers_val(C *c) { M *m = handlebars_map_ctor(c, 8); handlebars_map_addref(m); for (int i = 0; i < nregs; i++) { V *v = h_val(c); handlebars_value_helper(v, regs[i].f); m = handlebars_map_update(m, h_str(c, regs[i].n), v); } V *v = h_val(c); handlebars_value_map(v, m); return v; }
static void check(nd *top, const mv *root) {
    tctx = handlebars_context_ctor(); tpl.n = 0; t_nodes(&tpl, top->body, top->nb); tpl.b[tpl.n] = 0; symx_observe("template", tpl.b, tpl.n);
    V *rv = mv_val(tctx, root); tpl_helpers = helpers_val(tctx); llog.n = rlog.n = 0; mv_hlp = h_fn;
    ref_run(top->body, top->nb, root, NULL); S *r = tpl_render(tctx, &tpl, rv);
    if (r) symx_observe("output", hbs_str_val(r), hbs_str_len(r)); symx_observe("log", llog.b, llog.n); symx_observe("expected-log", rlog.b, rlog.n);
    CHECK(h_eqn(llog.b, llog.n, rlog.b, rlog.n), "what the helpers were given");
    if (ref_error) { CHECK(r == NULL, "an error is reported"); const char *m = handlebars_error_msg(tctx); symx_observe("message", m, strlen(m)); CHECK(strstr(m, ref_msg) != NULL, "the message names the missing helper"); symx_reach("error"); symx_reach("done"); return; }
    CHECK(r != NULL, "rendering succeeds"); symx_observe("expected", ref_out.b, ref_out.n); CHECK(out_is(&ref_out, r), "rendered text"); symx_reach("done");
}
static nd *body(nd *b, const char *t) { n_body(b, n_text(t)); n_body(b, raw(x_this())); n_body(b, raw(x_id("x"))); n_body(b, raw(x_path(1, 1, "a", 0, 0))); return b; }
static nd *inv(nd *b, const char *t) { n_else(b, n_text(t)); n_else(b, raw(x_id("a"))); n_else(b, raw(x_path(1, 1, "a", 0, 0))); return b; }
void harness(void) {
    unsigned w = (unsigned) symx_param("w", 0); nd top; memset(&top, 0, sizeof top); nregs = 0; tpl_flags = 0;
    mv *root = mk_mv(MV_MAP), *o = mk_mv(MV_MAP), *l = mk_mv(MV_ARR); l->k[l->kn++] = leaf("p"); l->k[l->kn++] = m_int(5);
    m_add(m_add(m_add(m_add(root, "a", leaf("r")), "l", l), "o", o), "i", m_int(6)); m_add(o, "x", leaf("x"));
    unsigned lit = (unsigned) symx_param("lit", 0); if (lit) symx_sym(litb + 1, 1, "lit"); litq = lit == 2; ref_nobuiltin = w == 4 || w == 6;
    if (w < 5) { rg("show", 0); rg("id", 1); rg("sum", 2); rg("blk", 3); }
    nd *host = &top; if (symx_param("host", 0)) { host = n_blk(x_arg(x_call("with"), x_id("o"))); n_body(&top, host); }
    if (w == 0) { /* positional arguments of every kind, in order */
        unsigned k = lit ? 7 : symx_pick(NA, "a1"); n_body(host, raw(x_arg(x_call("show"), argk(k))));
        for (unsigned j = 0; j < NA; j++) { n_body(host, raw(x_arg(x_arg(x_call("show"), argk(k)), argk(j)))); n_body(host, raw(x_arg(x_arg(x_arg(x_call("show"), argk(j)), argk(k)), argk((j + 7) % NA)))); }
    } else if (w == 1) { /* hash arguments of every kind, by name */
        unsigned k = lit ? 7 : symx_pick(NA, "h1"); n_body(host, raw(x_hash(x_call("show"), "k", argk(k))));
        for (unsigned j = 0; j < NA; j++) { n_body(host, raw(x_hash(x_hash(x_call("show"), "k", argk(k)), "j", argk(j)))); n_body(host, raw(x_hash(x_hash(x_hash(x_arg(x_call("show"), argk(j)), "q", argk(4)), "j", argk(k)), "k", argk(j)))); }
    } else if (w == 2) { /* nested calls: inner results arrive as typed values, inner hashes stay inside */
        unsigned k = lit ? 7 : symx_pick(NA, "in"), f = symx_pick(3, "shape");
        for (unsigned j = 0; j < NA; j++) { ex *in = x_arg(x_call("id"), argk(k)); if (f == 1) x_hash(in, "k", argk(j)); if (f == 2) in = x_arg(x_call("id"), x_arg(x_hash(x_call("id"), "q", x_int(9)), in)); ex *c = x_arg(x_arg(x_call("show"), argk(j)), in); x_hash(c, "j", x_hash(x_arg(x_call("id"), argk(k)), "k", x_int(1))); n_body(host, raw(c)); ex *d = x_arg(x_arg(x_call("show"), x_arg(x_call("show"), argk(j))), argk(k)); n_body(host, raw(d)); }
    } else if (w == 3) { /* blocks: main and inverse bodies, contexts, block parameters */
        unsigned k = lit ? 7 : symx_pick(NA + 1, "ctx"), f = symx_pick(4, "form"), h = symx_pick(3, "hash"); ex *c = x_call("blk"); if (k < NA) x_arg(c, argk(k)); if (h) x_hash(c, "k", argk(h == 1 ? 0 : 9)); if (h == 2) x_arg(c, x_int(8));
        nd *b = body(n_blk(c), "M"); if (f == 1 || f == 3) inv(b, "I"); if (f >= 2) b->k = N_INV; else if (symx_pick(2, "bp")) { n_bp(b, "p", "n"); n_body(b, raw(x_id("p"))); n_body(b, raw(x_id("n"))); n_body(b, raw(x_path(0, 2, "p", "x", 0))); n_body(b, raw(x_arg(x_call("show"), x_id("p")))); }
        nd *in = n_blk(x_arg(x_call("blk"), x_id("x"))); body(in, "m"); inv(in, "i"); if (f < 2) n_body(b, in); n_body(host, b); n_body(host, raw(x_call("show"))); n_body(host, raw(x_id("a")));
    } else if (w == 4) { /* precedence among helper, field, callable field, nothing */
        static const char *N[] = { "h", "f", "hf", "n", "fn", "hfn", "o.fn", "o.h", "o.hf", "o.n" }; mv *hl = mk_mv(MV_HLP);
        rg("h", 0); rg("hf", 0); rg("hfn", 0); if (symx_pick(2, "hm")) rg("helperMissing", 0);
        m_add(root, "f", leaf("f")); root->kn = root->kn; m_add(root, "fn", hl); o->kn = 0; m_add(m_add(m_add(m_add(o, "hf", leaf("y")), "fn", hl), "h", leaf("z")), "f", leaf("v"));
        mv *r2 = mk_mv(MV_MAP); m_add(m_add(m_add(m_add(m_add(m_add(r2, "f", root->k[4]), "fn", hl), "hf", leaf("w")), "hfn", hl), "o", o), "a", root->k[0]); root = r2;
        const char *nm = N[symx_pick(10, "name")]; bool dot = strchr(nm, '.') != NULL; unsigned f = symx_pick(9, "form"); ex *c = x_call(nm); nd *b = NULL;
        if (f == 1) x_arg(c, x_id("a")); if (f == 2) x_hash(c, "k", x_id("a")); if (f == 8) x_hash(x_arg(c, x_int(1)), "j", x_int(2));
        if (f == 3 || f == 4) { b = n_blk(c); if (f == 4) x_arg(c, x_id("a")); n_body(b, n_text("M")); n_body(b, raw(x_this())); n_else(b, n_text("I")); }
        if (f == 5) c = x_arg(x_call("show"), x_arg(x_call(nm), x_id("a")));
        if (f == 6) { c = x_path(0, 1, nm, 0, 0); c->scope = symx_pick(2, "sc") ? SC_DOT : SC_THIS; if (dot || !strcmp(nm, "fn") || !strcmp(nm, "hfn")) symx_assume(0); }
        if (f == 7) { if (dot) symx_assume(0); c = x_arg(x_call("show"), x_id(nm)); }   /* a plain argument is never a call */
        if (f == 2 && strcmp(nm, "h") && strcmp(nm, "hf") && strcmp(nm, "n") && strcmp(nm, "fn") && strcmp(nm, "hfn")) symx_assume(0);
        if (dot && strcmp(nm, "o.fn") && (f == 0 || f == 3)) { if (f == 3) symx_assume(0); }
        if (!strcmp(nm, "o.fn") && (f == 0 || f == 3)) symx_assume(0);
        n_body(host, b ? b : raw(c)); n_body(host, n_text("!"));
    }
    else if (w == 5) { /* only the exact names of built-ins are built in; anything else with arguments is an error naming it */
        static const char *B[] = { "if", "unless", "each", "with", "log", "lookup", "helperMissing", "blockHelperMissing", "hbsc_set_delimiters", "n" }; static char nm[24]; const char *b = B[symx_param("base", 0)]; size_t n = strlen(b); memset(nm, 0, sizeof nm); memcpy(nm, b, n);
        size_t p = symx_pick((unsigned) n + 3, "pos"); if (p == n + 1) { nm[--n] = 0; } else if (p == n + 2) { memmove(nm, nm + 1, n--); } else { symx_sym(nm + p, 1, "byte"); unsigned char c = (unsigned char) nm[p]; symx_assume(c > 32 && c < 127 && !(c >= '!' && c <= '#') && !(c >= '%' && c <= ',') && c != '.' && c != '/' && !(c >= ';' && c <= '>') && c != '@' && !(c >= '[' && c <= '^') && c != '`' && c < '{'); if (p < n) symx_assume(c != (unsigned char) b[p]); else n++; }
        if (!n) symx_assume(0); unsigned f = symx_pick(3, "form"); ex *c = x_arg(x_call(nm), x_id("a")); if (f == 0) n_body(host, raw(c)); else if (f == 1) { nd *bl = n_blk(c); n_body(bl, n_text("M")); n_else(bl, n_text("I")); n_body(host, bl); } else { n_body(host, raw(x_arg(x_call("show"), c))); rg("show", 0); }
    } else if (w == 7) { /* integer and float literals */
        static const long I[] = { 1, 9, 10, 99, 100, 2147483647L, -2147483648L, 4294967296L, 1000000007L, 9223372036854775807L, -9223372036854775807L, -1 }; static const struct { double d; const char *s; } D[] = { { 0.5, "0.5" }, { -2.25, "-2.25" }, { 100.125, "100.125" }, { 1234567.5, "1234567.5" } }; rg("show", 0);
        for (unsigned i = 0; i < 12; i++) { n_body(host, raw(x_hash(x_arg(x_call("show"), x_int(I[i])), "k", x_int(I[11 - i])))); n_body(host, raw(x_arg(x_arg(x_call("show"), x_flt(D[i & 3].d, D[i & 3].s)), x_int(I[i])))); }
    } else if (w == 6) { /* registered helpers under the names of built-ins */
        static const char *B[] = { "if", "unless", "each", "with", "log", "lookup", "hbsc_set_delimiters" }; unsigned i = symx_pick(7, "name"), f = symx_pick(5, "form"); rg(B[i], symx_pick(2, "blk") ? 3 : 0); rg("show", 0);
        ex *c = x_call(B[i]); if (f != 3) x_arg(c, x_id("l")); if (f == 1) x_hash(c, "k", x_id("a")); if (f == 2) x_arg(x_arg(c, x_int(1)), x_str("s", 1));
        if (f == 4) { if (regs[0].k == 3) symx_assume(0); n_body(host, raw(x_arg(x_call("show"), c))); } else if (regs[0].k == 3 || symx_pick(2, "block")) { nd *b = inv(body(n_blk(c), "M"), "I"); n_body(host, b); } else n_body(host, raw(c));
        n_body(host, n_text("!"));
    }
    check(&top, root);
}
