/* P07: partials render the named template in the right context. */
#include "tpl.h"
static const mv *ref_call(const ex *e, env *n, const nd *blk, out *o) { (void) e; (void) n; (void) blk; (void) o; return &MNULL; }
static mv *leaf(const char *id) { mv *m = m_str(id); symx_sym(m->s + m->n, 1, "leaf"); m->n++; return m; }
static nd *raw(ex *e) { nd *m = n_mus(e); m->form = F_RAW; return m; }
static nd *part(const char *nm) { nd *n = mk_nd(N_PART); n->e = x_call(nm); return n; }
static nd *pblk(const char *nm) { nd *n = mk_nd(N_PBLK); n->e = x_call(nm); return n; }
static void reg(const char *nm) { parts[nparts].name = nm; parts[nparts].nn = 0; nparts++; }
static void add(nd *n) { parts[nparts - 1].n[parts[nparts - 1].nn++] = n; }
static nd *probe_blk(const char *t) { nd *b = n_blk(x_arg(x_call("if"), mk_ex(E_TRUE))); n_body(b, n_text(t)); n_body(b, raw(x_id("a"))); n_body(b, n_text(",")); n_body(b, raw(x_id("h"))); n_body(b, n_text(",")); n_body(b, raw(x_path(1, 1, "a", 0, 0))); n_body(b, n_text(",")); n_body(b, raw(x_data(0, "index"))); n_body(b, n_text(",")); n_body(b, raw(x_path(0, 2, "h", "a", 0))); n_body(b, n_text(",")); n_body(b, raw(x_data(0, "root"))); n_body(b, n_text(",")); n_body(b, raw(x_this())); n_body(b, n_text("]")); return b; }
static ex *ctxarg(unsigned k) { return k == 0 ? NULL : k == 1 ? x_id("o") : k == 2 ? x_this() : k == 3 ? x_id("s") : k == 4 ? x_id("x") : k == 5 ? x_path(1, 1, "o", 0, 0) : k == 6 ? x_id("e") : x_id("l"); }
static ex *hashval(unsigned k) { return k == 0 ? x_str("lit", 3) : k == 1 ? x_id("a") : k == 2 ? x_id("o") : k == 3 ? x_int(42) : k == 4 ? mk_ex(E_TRUE) : x_id("x"); }
static void args(ex *e, unsigned c, unsigned h) { ex *a = ctxarg(c); if (a) x_arg(e, a); if (h) x_hash(e, h & 1 ? "h" : "a", hashval(symx_pick(6, "hv"))); if (h > 2) x_hash(e, h & 1 ? "a" : "k", x_str("two", 3)); }
void harness(void) {
    unsigned w = (unsigned) symx_param("w", 0); nd top; memset(&top, 0, sizeof top); nparts = 0;
    tpl_flags = symx_param("compat", 0) ? handlebars_compiler_flag_compat : 0;
    mv *root = mk_mv(MV_MAP), *o = mk_mv(MV_MAP), *l = mk_mv(MV_ARR);
    m_add(m_add(o, "a", leaf("o")), "h", leaf("H")); l->k[l->kn++] = m_add(mk_mv(MV_MAP), "a", leaf("p")); l->k[l->kn++] = leaf("q");
    m_add(m_add(m_add(m_add(m_add(root, "a", leaf("r")), "o", o), "l", l), "s", leaf("s")), "e", mk_mv(MV_MAP));
    nd *host = &top; 
    if (w == 0 || w == 1 || w == 3) { unsigned k = symx_param("host", 9) < 9 ? (unsigned) symx_param("host", 9) : symx_pick(4, "host"); if (k) { host = k == 1 ? n_blk(x_arg(x_call("each"), x_id("l"))) : k == 2 ? n_blk(x_arg(x_call("with"), x_id("o"))) : n_bp(n_blk(x_arg(x_call("each"), x_id("l"))), "h", "x"); n_body(&top, host); } }
    if (w == 0) { /* call forms */
        reg("p"); add(n_text("[")); add(probe_blk("")); 
        nd *p = symx_pick(2, "blk") ? pblk("p") : part("p"); args(p->e, symx_pick(8, "ctx"), symx_pick(5, "hash")); if (p->k == N_PBLK) n_body(p, n_text("unused"));
        n_body(host, n_text("<")); n_body(host, p); n_body(host, n_text(">")); n_body(host, raw(x_id("h"))); n_body(host, raw(x_id("a")));
    } else if (w == 1) { /* names: existing, missing, by subexpression; fallback and error */
        static mv names; names.t = MV_STR; names.n = 1; names.kn = 0; symx_sym(names.s, 1, "name"); symx_assume(names.s[0] != 0); m_add(root, "n", &names);
        reg("p"); add(n_text("P(")); add(raw(x_id("a"))); add(n_text(")")); reg("q"); add(n_text("Q"));
        unsigned k = symx_pick(5, "nm"); nd *p = symx_pick(2, "blk") ? pblk(k == 0 ? "p" : k == 1 ? "q" : k == 2 ? "z" : "p/q") : part(k == 0 ? "p" : k == 1 ? "q" : k == 2 ? "z" : "p/q");
        if (k == 4) { if (p->k == N_PBLK) symx_assume(0); p->form = 1; x_arg(p->e, x_arg(x_arg(x_call("lookup"), x_data(0, "root")), x_str("n", 1))); if (symx_pick(2, "dc")) x_arg(p->e, x_data(0, "root")); }
        if (p->k == N_PBLK) { n_body(p, n_text("F(")); n_body(p, raw(x_id("a"))); n_body(p, n_text(")")); }
        n_body(host, n_text("<")); n_body(host, p); n_body(host, n_text(">"));
    } else if (w == 2) { /* indentation */
        static const char *IND[] = { " ", "  ", "\\t" }; static char t1[4], t2[4]; symx_sym(t1, 2, "t1"); symx_sym(t2, 1, "t2"); for (int i = 0; i < 3; i++) { char c = i < 2 ? t1[i] : t2[0]; symx_assume(c != 0); symx_assume(c != '{'); symx_assume(c != '\\'); symx_assume(c != ' '); symx_assume(c != '\t'); symx_assume(c != '\r'); symx_assume(c != '}'); }
        reg("p"); if (tpl_flags) { symx_assume(t1[1] != '\n'); } add(n_text(t1)); add(raw(x_id(symx_pick(2, "var") ? "m" : "a"))); add(n_text(t2)); mv *mm = mk_mv(MV_STR); mm->n = 2; mm->s[0] = 'u'; symx_sym(mm->s + 1, 1, "val"); m_add(root, "m", mm);
        reg("q"); add(n_text("1\n")); nd *pp = part("p"); pp->indent = " "; add(pp); add(n_text("2")); reg("e");
        nd *p = part("p"); unsigned k = symx_pick(3, "which2"); p->e->fn = k == 0 ? "p" : k == 1 ? "q" : "e"; p->indent = symx_pick(2, "i") ? IND[1] : "\t"; (void) IND;
        n_body(&top, n_text("x\n")); n_body(&top, p); n_body(&top, n_text("y"));
    } else if (w == 3) { /* @partial-block, nested and repeated; block parameters stay those of the block's own place */
        reg("p"); unsigned v = symx_param("vb", 9) < 9 ? (unsigned) symx_param("vb", 9) : symx_pick(4, "body"); nd *pb = part("@partial-block");
        if (v == 1) args(pb->e, symx_pick(4, "pbctx"), 0); if (v == 2) x_hash(pb->e, "h", x_str("ph", 2));
        nd *wrap = symx_pick(2, "wrap") ? n_bp(n_blk(x_arg(x_call("each"), x_data(0, "root"))), "b", NULL) : NULL; if (wrap) { wrap->e->arg[0]->ns = 2; wrap->e->arg[0]->seg[1] = "l"; }
        add(n_text("(")); if (wrap) { n_body(wrap, pb); n_body(wrap, raw(x_id("b"))); add(wrap); } else add(pb); if (v == 3) { nd *p2 = part("@partial-block"); add(n_text("+")); add(p2); } add(n_text(")"));
        reg("o"); nd *q = pblk("p"); n_body(q, n_text("{o")); n_body(q, part("@partial-block")); n_body(q, n_text("o}")); add(n_text("o")); add(q);
        nd *p = pblk(symx_pick(2, "outer") ? "o" : "p"); unsigned c = symx_pick(symx_param("nc", 4), "ctx"); args(p->e, c, symx_pick(2, "hash"));
        n_body(p, n_text("B:")); n_body(p, raw(x_id("a"))); n_body(p, n_text(",")); n_body(p, raw(x_id("h"))); n_body(p, n_text(",")); n_body(p, raw(x_id("b"))); n_body(p, n_text(",")); n_body(p, raw(x_data(0, "index")));
        if (symx_pick(2, "inner")) { nd *in = pblk("p"); n_body(in, n_text("I:")); n_body(in, raw(x_id("a"))); n_body(in, raw(x_id("h"))); n_body(p, in); }
        n_body(host, n_text("<")); n_body(host, p); n_body(host, n_text(">"));
    } else { /* recursion over the data, partials calling partials */
        reg("p"); add(n_text("(")); add(raw(x_id("a"))); nd *e = n_blk(x_arg(x_call("each"), x_id("c"))); nd *r = part("p"); unsigned c = symx_pick(3, "how"); if (c == 1) x_arg(r->e, x_this()); if (c == 2) x_hash(r->e, "h", x_id("a")); n_body(e, r); n_body(e, raw(x_data(0, "index"))); add(e); add(raw(x_id("h"))); add(n_text(")"));
        mv *t = root; for (int i = 0; i < 3; i++) { mv *cs = mk_mv(MV_ARR); unsigned n = 1 + symx_pick(2, "n"); mv *nx = NULL; for (unsigned j = 0; j < n; j++) { mv *ch = m_add(mk_mv(MV_MAP), "a", leaf("c")); cs->k[cs->kn++] = ch; nx = ch; } m_add(t, "c", cs); t = nx; }
        n_body(&top, part("p"));
    }
    tpl_check(top.body, top.nb, root, NULL);
}
