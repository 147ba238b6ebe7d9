/* P06: loops visit every element once, in order, with their own loop variables; with. */
#include "tpl.h"
static const mv *ref_call(const ex *e, env *n, const nd *blk, out *o) { (void) e; (void) n; (void) blk; (void) o; return &MNULL; }
static mv *leaf(const char *id) { mv *m = m_str(id); symx_sym(m->s + m->n, 1, "leaf"); m->n++; return m; }
static char kb[2];
static mv *coll(unsigned k, unsigned n, int depth) {
    static const char *KN[] = { "b", "a", "10", "2", "d" }; mv *m = mk_mv(k ? MV_MAP : MV_ARR);
    for (unsigned i = 0; i < n; i++) { mv *v; if (depth && (i & 1) == 0) { v = coll(i == 0 ? 0 : 1, depth > 1 ? 2 : i == 0 ? 2 : 1, depth - 1); } else v = i == 3 ? mk_mv(MV_NULL) : i == 4 ? m_bool(true) : leaf(i == 0 ? "p" : i == 1 ? "q" : "r"); if (k) m_add(m, i == 1 ? kb : KN[i], v); else m->k[m->kn++] = v; }
    return m;
}
static void vars(nd *b, const char *t, const char *p0, const char *p1) {
    static const char *DN[] = { "index", "key", "first", "last" };
    n_body(b, n_text(t));
    for (int i = 0; i < 4; i++) { nd *m = n_mus(x_data(0, DN[i])); m->form = F_RAW; n_body(n_body(b, m), n_text(" ")); }
    nd *m = n_mus(x_this()); m->form = F_RAW; n_body(b, m); n_body(b, n_text(" "));
    m = n_mus(x_path(1, 1, "z", 0, 0)); m->form = F_RAW; n_body(b, m);
    if (p0) { m = n_mus(x_id(p0)); m->form = F_RAW; n_body(n_body(b, n_text(",")), m); }
    if (p1) { m = n_mus(x_id(p1)); m->form = F_RAW; n_body(n_body(b, n_text(",")), m); }
    n_body(b, n_text(";"));
}
static nd *loop(unsigned f, ex *a, const char *p0, const char *p1) { nd *b = f == 1 ? n_blk(a) : n_blk(x_arg(x_call(f == 2 ? "with" : "each"), a)); if (f != 1 && p0) n_bp(b, p0, f == 2 ? NULL : p1); return b; }
void harness(void) {
    unsigned w = (unsigned) symx_param("w", 0), max = (unsigned) symx_param("max", 4), d = (unsigned) symx_param("d", 0);
    kb[0] = 'c'; if (symx_param("ks", 0)) { kb[0] = (char) symx_u8("key"); symx_assume(kb[0] != 'a'); symx_assume(kb[0] != 'b'); symx_assume(kb[0] != 'd'); symx_assume(kb[0] != '2'); }
    mv *root = mk_mv(MV_MAP); nd top; memset(&top, 0, sizeof top);
    mv *v = NULL; unsigned dk = symx_param("dk", 9) < 9 ? (unsigned) symx_param("dk", 9) : symx_pick(8, "data");
    if (dk < 2) { v = coll(dk, symx_param("min", 0) + symx_pick(max + 1 - symx_param("min", 0), "n"), (int) d); if (dk == 1 && v->kn && w != 1 && symx_pick(2, "hole")) v->hole = 1 + (int) symx_pick(v->kn, "at"); }
    else if (dk == 2) v = mk_mv(MV_NULL); else if (dk == 3) { v = mk_mv(MV_STR); v->n = 2; symx_sym(v->s, 2, "str"); } else if (dk == 4) v = m_int(3); else if (dk == 5) v = m_bool(true); else if (dk == 6) v = m_bool(false);
    if (v) m_add(root, "l", v);
    m_add(root, "m", coll(1, 2, 0)); m_add(root, "z", m_str("zz")); 
    static const char *BP[2] = { "x", "y" }; unsigned f = symx_param("f", 9) < 9 ? (unsigned) symx_param("f", 9) : symx_pick(3, "form"), nbp = f == 1 ? 0 : symx_pick(f == 2 ? 2 : 3, "nbp");
    nd *o = loop(f, x_id("l"), nbp ? BP[0] : NULL, nbp > 1 ? BP[1] : NULL);
    vars(o, "<", nbp ? "x" : NULL, nbp > 1 ? "y" : NULL);
    if (w == 1) { /* inner loop */
        unsigned g = symx_param("g", 9) < 9 ? (unsigned) symx_param("g", 9) : symx_pick(3, "inner"), s = symx_pick(symx_param("srcs", 6), "src"), ibp = g == 1 ? 0 : symx_pick(3, "ibp");
        static const char *IB[3][2] = { { 0, 0 }, { "x", 0 }, { "u", "x" } };
        ex *src = s == 0 ? x_this() : s == 1 ? x_path(1, 1, "m", 0, 0) : s == 2 ? x_id("a") : s == 3 ? x_path(1, 1, "l", 0, 0) : s == 4 ? x_id(nbp ? "x" : "b") : x_data(0, "root"); if (s == 5) { src->ns = 2; src->seg[1] = "m"; }
        nd *in = loop(g, src, IB[ibp][0], g == 2 ? NULL : IB[ibp][1]); vars(in, "(", "x", nbp > 1 ? "y" : NULL); 
        for (int u = 1; u < 4; u++) { nd *m = n_mus(x_data(u, u == 2 ? "key" : "index")); m->form = F_RAW; n_body(in, m); n_body(in, n_text(".")); }
        if (symx_pick(2, "ielse")) n_else(in, n_text("e")), n_else(in, n_mus(x_data(0, "index")));
        n_body(o, in); vars(o, ">", nbp ? "x" : NULL, nbp > 1 ? "y" : NULL); }
    if (w == 2) { nd *in = n_blk(x_arg(x_call("if"), x_data(0, symx_pick(2, "fl") ? "first" : "last"))); n_body(in, n_text("F")); n_body(in, n_mus(x_data(0, "index"))); n_else(in, n_text("N")); n_else(in, n_mus(x_data(0, "key"))); n_body(o, in); vars(o, ">", nbp ? "x" : NULL, NULL); }
    if (w == 1 || symx_pick(2, "else")) { n_else(o, n_text("E")); n_else(o, n_mus(x_id("z"))); }
    n_body(&top, o); vars(&top, "!", NULL, NULL);
    tpl_check(top.body, top.nb, root, NULL);
}
