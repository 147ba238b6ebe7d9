/* P04: every path form at every nesting resolves to the addressed part of the data. */
#include "tpl.h"
static const mv *ref_call(const ex *e, env *n, const nd *blk, out *o) { (void) e; (void) n; (void) blk; (void) o; return &MNULL; }
static char kb[2], sb[2];
static mv *leaf(const char *id) { mv *m = m_str(id); symx_sym(m->s + m->n, 1, "leaf"); m->n++; return m; }
static mv *mp(void) { return mk_mv(MV_MAP); }
static mv *ar(void) { return mk_mv(MV_ARR); }
static mv *ap(mv *a, mv *v) { a->k[a->kn++] = v; return a; }
static nd *sep(void) { return n_text("|"); }
static void probe(nd *b, ex *e) { nd *m = n_mus(e); m->form = F_RAW; n_body(n_body(b, m), sep()); }
static const char *SEG[] = { "a", "b", "c", "d", "0", "1", "x", "01", "length" };
static ex *cpy(int up, int scope, int sepc, int ns, const char *a, const char *b, const char *c, bool br) { ex *e = x_path(up, ns, a, b, c); e->scope = scope; e->sep = sepc; e->br = br; return e; }
static const char *lit(const char *s) { return s; }
static void probes(nd *b, int nest, int nb, const char *const *bp) {
    int w = (int) symx_param("w", 0), deep = nest + 2; unsigned s1 = w == 1 || w == 2 ? symx_pick(4, "s1") : 0, s2 = w == 2 ? symx_pick(9, "s2") : 0;
    for (int up = 0; up < deep; up++) for (int sc = 0; sc < (up ? 1 : 3); sc++) {
        if (w == 0) { 
            ex *e = cpy(up, sc, '.', 0, 0, 0, 0, false); probe(b, e);
            for (int i = 0; i < 4; i++) probe(b, cpy(up, sc, '.', 1, SEG[i], 0, 0, false));
            probe(b, cpy(up, sc, '.', 1, "x", 0, 0, false)); probe(b, cpy(up, sc, '.', 1, "0", 0, 0, true)); probe(b, cpy(up, sc, '/', 1, "1", 0, 0, true));
        } else if (w == 1) { unsigned i = s1; for (int j = 0; j < 9; j++) probe(b, cpy(up, sc, j & 1 ? '/' : '.', 2, SEG[i], SEG[j], 0, j >= 4)); }
        else if (w == 2) { unsigned i = s1, j = s2; for (int k = 0; k < 9; k += 1) probe(b, cpy(up, sc, '.', 3, SEG[i], SEG[j], SEG[k], true)); }
        else if (w == 3) { if (up || sc) continue; if (symx_param("v", 0)) probe(b, cpy(up, sc, '/', 2, "a", sb, 0, true)); else probe(b, cpy(up, sc, '.', 1, sb, 0, 0, true)); }
    }
    if (w == 4) for (int i = 0; i < nb; i++) { probe(b, x_id(bp[i])); for (int j = 0; j < 8; j++) probe(b, cpy(0, 0, '.', 2, bp[i], SEG[j], 0, j >= 4)); probe(b, cpy(0, SC_THIS, '.', 1, bp[i], 0, 0, false)); probe(b, cpy(1, 0, '.', 1, bp[i], 0, 0, false)); probe(b, cpy(0, 0, '/', 3, bp[i], SEG[i], SEG[i + 1], true)); }
    if (w == 5) { static const char *DN[] = { "root", "index", "key", "first", "last", "u", "x" };
        for (int up = 0; up < deep; up++) for (int i = up ? 1 : 0; i < 7; i++) probe(b, x_data(up, DN[i]));
        for (int j = 0; j < 7; j++) { ex *e = x_data(0, "root"); e->ns = 2; e->seg[1] = SEG[j]; e->br = j >= 4; probe(b, e); e = x_data(0, "u"); e->ns = 2; e->seg[1] = SEG[j]; e->br = j >= 4; probe(b, e); e = x_data(0, "root"); e->ns = 3; e->seg[1] = "a"; e->seg[2] = SEG[j]; e->br = j >= 4; probe(b, e); } }
}
void harness(void) {
    int nest = (int) symx_param("nest", 1), compat = (int) symx_param("compat", 0);
    tpl_flags = compat ? handlebars_compiler_flag_compat : 0;
    int w = (int) symx_param("w", 0);
    if (w == 3) { if (symx_param("ks", 0)) { kb[0] = (char) symx_u8("key"); sb[0] = 'x'; } else { kb[0] = 'x'; sb[0] = (char) symx_u8("seg"); } symx_assume(kb[0] != 0); symx_assume(sb[0] != 0); symx_assume(sb[0] != ']'); symx_assume(sb[0] != '\\'); symx_assume(kb[0] != 'a'); symx_assume(kb[0] != 'b');symx_assume(kb[0] != 'c'); symx_assume(kb[0] != 'd'); } else kb[0] = 'x', sb[0] = 'x';
    mv *root = mp(), *a = mp(), *ab = mp(), *b = ar(), *d = mp();
    m_add(m_add(ab, "a", leaf("A")), "b", leaf("B"));
    m_add(m_add(m_add(m_add(a, "a", leaf("C")), "b", ab), "c", ap(ap(ar(), leaf("D")), m_add(mp(), "a", leaf("E")))), "d", mk_mv(MV_NULL));
    if (w == 3 && symx_param("v", 0)) m_add(a, kb, leaf("K"));
    ap(ap(b, m_add(m_add(mp(), "a", leaf("F")), "b", ap(ap(ar(), leaf("G")), leaf("H")))), m_add(m_add(mp(), "c", leaf("I")), "a", mk_mv(MV_FALSE)));
    m_add(m_add(d, "a", m_add(mp(), "a", leaf("J"))), "c", leaf("M"));
    m_add(m_add(m_add(m_add(root, "a", a), "b", b), "c", leaf("L")), "d", d);
    if (w == 3 && !symx_param("v", 0)) m_add(root, kb, leaf("N"));
    mv *data = w == 5 ? m_add(mp(), "u", m_add(m_add(mp(), "a", leaf("P")), "c", leaf("Q"))) : NULL;
    static const char *BN[] = { "p", "c", "q", "a", "r", "b" }; const char *bps[6]; int nb = 0;
    nd top; memset(&top, 0, sizeof top); nd *cur = &top;
    for (int i = 0; i < nest; i++) {
        static const char *P[7] = { "a", "b", "d", "c", "x", NULL, NULL };
        unsigned k0 = (unsigned) symx_param("k0", 9), k = !i && k0 < 9 ? k0 : w == 4 ? symx_pick(3, "kind") : symx_pick(4, "kind"), p = symx_pick(symx_param("paths", 7), "path");
        ex *pe = p == 5 ? x_path(0, 2, "a", "b", 0) : p == 6 ? (i ? x_path(1, 1, "d", 0, 0) : x_this()) : x_id(P[p]);
        ex *be = pe; if (k != 3) be = x_arg(x_call(k == 0 ? "with" : k == 1 ? "each" : "if"), pe);
        nd *blk = n_blk(be); n_else(blk, n_text("-"));
        if (w == 4 && k != 2 && symx_pick(2, "bp")) { n_bp(blk, BN[2 * i], k == 1 ? BN[2 * i + 1] : NULL); bps[nb++] = BN[2 * i]; if (k == 1) bps[nb++] = BN[2 * i + 1]; }
        n_body(cur, blk); n_body(cur, n_text("/")); cur = blk;
    }
    if (w == 4) { bps[nb++] = "c"; }
    probes(cur, nest, nb, bps);
    if (w == 0 && nest) probes(&top, 0, 0, NULL);
    (void) lit;
    tpl_check(top.body, top.nb, root, data);
}
