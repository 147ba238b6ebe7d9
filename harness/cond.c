/* P05: conditionals and sections choose exactly one branch for every value. */
#include "tpl.h"
static const mv *ref_call(const ex *e, env *n, const nd *blk, out *o) { (void) e; (void) n; (void) blk; (void) o; return &MNULL; }
static mv *sstr(unsigned n, bool safe) { mv *m = mk_mv(MV_STR); m->n = n; if (n) symx_sym(m->s, n, "str"); m->safe = safe; return m; }
static int sym_ints;
static mv *sint(void) { static const long IV[] = { 0, 1, -1, 10, 256, 65536, 1L << 32, (long) (1UL << 63), 0x7fffffffffffffffL }; mv *m = mk_mv(MV_INT); if (sym_ints) symx_sym(&m->i, sizeof m->i, "int"); else m->i = IV[symx_pick(9, "int")]; return m; }
#define NV 13
static mv *val(unsigned k) {
    mv *m;
    switch (k) {
    case 0: return NULL; case 1: return mk_mv(MV_NULL); case 2: return m_bool(true); case 3: return m_bool(false); case 4: return sint();
    case 5: m = mk_mv(MV_FLT); m->d = 1.5; m->dt = "1.5"; return m;
    case 6: return sstr(0, false); case 7: return sstr(1, false); case 8: return sstr(2, false);
    case 9: return mk_mv(MV_ARR); case 10: m = mk_mv(MV_ARR); m->k[m->kn++] = sstr(1, false); m->k[m->kn++] = m_bool(false); return m;
    case 11: return mk_mv(MV_MAP); default: return m_add(mk_mv(MV_MAP), "z", m_str("in"));
    }
}
static const char *VN[4] = { "v", "w", "x", "y" };
static nd *inside(nd *b, const char *tag) { n_body(b, n_text(tag)); nd *m = n_mus(x_id("z")); m->form = F_RAW; n_body(b, m); m = n_mus(x_this()); m->form = F_RAW; return n_body(b, m); }
static nd *els(nd *b, const char *tag) { n_else(b, n_text(tag)); nd *m = n_mus(x_id("z")); m->form = F_RAW; return n_else(b, m); }
static ex *arg(unsigned i) { return x_id(VN[i]); }
static nd *cnd(const char *fn, ex *a) { return n_blk(x_arg(x_call(fn), a)); }
void harness(void) {
    unsigned w = (unsigned) symx_param("w", 0), nv = (unsigned) symx_param("nv", 1);
    mv *root = mk_mv(MV_MAP); nd top; memset(&top, 0, sizeof top); mv *vals[4]; sym_ints = w == 1;
    for (unsigned i = 0; i < nv; i++) { unsigned k0 = (unsigned) symx_param("v0", 99); mv *v = val(i == 0 && k0 < 99 ? k0 : symx_pick(NV, "kind")); vals[i] = v; if (v) m_add(root, VN[i], v); }
    m_add(root, "z", m_str("zz"));
    if (w == 0) { /* every form over one value */
        for (int f = 0; f < 2; f++) { const char *fn = f ? "unless" : "if";
            n_body(&top, els(inside(cnd(fn, arg(0)), "A"), "B")); n_body(&top, n_text("\n")); n_body(&top, inside(cnd(fn, arg(0)), "C")); n_body(&top, n_text("\n"));
            nd *b = inside(cnd(fn, arg(0)), "D"); n_else(b, NULL); b->form = 1; n_body(&top, b); n_body(&top, n_text("\n"));
            b = cnd(fn, arg(0)); els(b, "E"); n_body(&top, b); n_body(&top, n_text("\n")); }
        for (int f = 0; f < 2; f++) { nd *b = n_blk(arg(0)); b->k = f ? N_INV : N_BLK; n_body(&top, els(inside(b, "F"), "G")); n_body(&top, n_text("\n")); b = n_blk(arg(0)); b->k = f ? N_INV : N_BLK; n_body(&top, inside(b, "H")); n_body(&top, n_text("\n")); }
        n_body(&top, els(inside(cnd("with", arg(0)), "I"), "J")); n_body(&top, els(inside(cnd("each", arg(0)), "K"), "L"));
    } else if (w == 1) { /* includeZero */
        static const int ZV[] = { E_TRUE, E_FALSE, E_NULL }; bool b = symx_pick(2, "iz"); m_add(root, "iz", m_bool(b));
        for (int f = 0; f < 2; f++) for (int i = 0; i < 5; i++) { ex *c = x_arg(x_call(f ? "unless" : "if"), arg(0)); x_hash(c, i == 4 ? "includezero" : "includeZero", i < 3 ? mk_ex(ZV[i]) : i == 3 ? x_id("iz") : mk_ex(E_TRUE)); n_body(&top, els(inside(n_blk(c), "A"), "B")); n_body(&top, n_text("\n")); }
        if (vals[0] && vals[0]->t == MV_FLT) symx_assume(0);
    } else if (w == 2) { /* else chains over several values */
        static const char *F[] = { "if", "unless", "each", "with" }; nd *first = NULL, *last = NULL;
        for (unsigned i = 0; i < nv; i++) { unsigned k = symx_pick(symx_param("fns", 2), "fn"); nd *b = inside(cnd(F[k], arg(i)), i == 0 ? "A" : i == 1 ? "B" : "C"); if (last) { last->chain = true; last->has_inv = true; last->inv[0] = b; last->ni = 1; } else first = b; last = b; }
        if (symx_pick(2, "els")) els(last, "Z");
        n_body(&top, first); n_body(&top, n_text("!")); nd *m = n_mus(x_id("z")); n_body(&top, m);
    } else if (w == 3) { /* nested conditionals: each decides on its own value, contexts restored */
        nd *in = els(inside(cnd(symx_pick(2, "f2") ? "unless" : "if", arg(1)), "P"), "Q"); unsigned f = symx_pick(4, "f1"); nd *o = f < 2 ? cnd(f ? "unless" : "if", arg(0)) : n_blk(arg(0)); if (f == 3) o->k = N_INV;
        inside(o, "R"); n_body(o, in); els(o, "S"); n_else(o, els(inside(cnd("if", arg(1)), "T"), "U")); n_body(&top, o); n_body(&top, n_text("!")); n_body(&top, n_mus(x_id("z")));
    } else { /* literal arguments */
        ex *L[10]; int n = 0; L[n++] = mk_ex(E_TRUE); L[n++] = mk_ex(E_FALSE); L[n++] = mk_ex(E_NULL); L[n++] = mk_ex(E_UNDEF); L[n++] = x_int(0); L[n++] = x_int(5); L[n++] = x_str("", 0); L[n++] = x_str("q", 1); L[n++] = x_this(); L[n++] = x_data(0, "root");
        for (int i = 0; i < n; i++) for (int f = 0; f < 2; f++) { n_body(&top, els(inside(cnd(f ? "unless" : "if", L[i]), "A"), "B")); n_body(&top, n_text("\n")); }
    }
    tpl_check(top.body, top.nb, root, NULL);
}
