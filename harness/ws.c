/* P03: whitespace control and standalone tags, decided tag by tag on the flat token list. */
#include "h.h"
#include "mv.h"
enum { E, C_, P_, O, L, X, I, LC, RO, RX, BO, BX, EE };   /* expression, comment, partial, open, else, close, inverse open, else-if, raw block, partial block, {{{ }}} */
typedef struct { int k; bool l, r; } tk;
static tk G[8]; static int ng; static char T[9][8]; static size_t tn[9];
static char tpl[512]; static size_t tl; static void t_n(const char *s, size_t n) { memcpy(tpl + tl, s, n); tl += n; } static void t_s(const char *s) { t_n(s, strlen(s)); }
static int lc_var, else_var, com_var;
static void put(const tk *g) {
    static const char *const B[] = { "x", "! c ", "> p", "#if a", "else", "/if", "^if a", "else if b", 0, 0, "#> q", "/q", "{x}" };
    if (g->k == RO) { t_s("{{{{h}}}}"); return; } if (g->k == RX) { t_s("{{{{/h}}}}"); return; }
    t_s("{{"); if (g->l) t_s("~"); t_s(g->k == C_ && com_var ? "!-- c --" : g->k == L && else_var ? "^" : g->k == E && com_var ? "&x" : B[g->k]); if (g->r) t_s("~"); t_s("}}");
}
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static bool nl_end(int i) { size_t k = tn[i]; while (k && ws(T[i][k - 1])) if (T[i][--k] == '\n') return true; return false; }
static bool nl_beg(int i) { for (size_t k = 0; k < tn[i] && ws(T[i][k]); k++) if (T[i][k] == '\n') return true; return false; }
static bool blank(int i) { for (size_t k = 0; k < tn[i]; k++) if (!ws(T[i][k])) return false; return true; }
static bool lone[8]; static char ind[8][8]; static char R[9][8]; static size_t rn[9];
static void run(bool on) {
    int chain_l = -1, has_lc = 0, cl = -1;   /* for a chained else, the closing tag looks at the text before the else that follows the chain */
    for (int i = 0; i < ng; i++) { if (G[i].k == LC) has_lc = 1; if (G[i].k == L && has_lc) chain_l = i; if (G[i].k == X) cl = i; }
    for (int i = 0; i < ng; i++) {
        int bt = i == cl && chain_l >= 0 ? chain_l : i; bool b = nl_end(bt) || (bt == 0 && blank(0)), a = nl_beg(i + 1) || (i + 1 == ng && blank(ng));
        lone[i] = on && G[i].k != E && G[i].k != EE && a && b;
    }
    for (int i = 0; i <= ng; i++) {
        size_t s = 0, e = tn[i], s0;
        if (i && lone[i - 1]) { while (s < e && (T[i][s] == ' ' || T[i][s] == '\t')) s++; if (s < e && T[i][s] == '\r') s++; if (s < e && T[i][s] == '\n') s++; }
        s0 = s; if (i && G[i - 1].r) { while (s0 < e && ws(T[i][s0])) s0++; s = s0; }
        if (i < ng) { ind[i][0] = 0; if (G[i].l) while (e > s && ws(T[i][e - 1])) e--;
          else if (lone[i] && !(has_lc && G[i].k == X)) { size_t e0 = e, lo = i && (G[i - 1].k == O || G[i - 1].k == L || G[i - 1].k == I || G[i - 1].k == LC || G[i - 1].k == BO) ? 0 : s; /* a block's tag strips its body after the body's own tags have */ while (e > lo && (T[i][e - 1] == ' ' || T[i][e - 1] == '\t')) e--; if (e < e0) { size_t q = tn[i]; while (q && (T[i][q - 1] == ' ' || T[i][q - 1] == '\t')) q--; memcpy(ind[i], T[i] + q, tn[i] - q); ind[i][tn[i] - q] = 0; } } }
        rn[i] = e > s ? e - s : 0; memcpy(R[i], T[i] + s, rn[i]);
    }
}
static C *c;
static V *h_raw(HANDLEBARS_HELPER_ARGS) { (void) argc; (void) argv; handlebars_value_str(rv, handlebars_vm_execute_program(vm, options->program, options->scope)); handlebars_value_set_flag(rv, HANDLEBARS_VALUE_FLAG_SAFE_STRING); return rv; }
static const int SH[][8] = { { E, -1 }, { C_, -1 }, { P_, -1 }, { O, X, -1 }, { O, L, X, -1 }, { O, LC, X, -1 }, { O, LC, L, X, -1 }, { O, C_, X, -1 }, { C_, P_, -1 }, { O, O, X, X, -1 }, { I, X, -1 }, { RO, RX, -1 }, { BO, BX, -1 }, { E, C_, EE, -1 }, { BO, O, X, BX, -1 }, { O, P_, L, P_, X, -1 }, { I, C_, X, -1 }, { O, E, X, E, -1 }, { O, X, O, X, -1 }, { P_, C_, E, -1 } };
void harness(void) {
    unsigned sh = (unsigned) symx_param("sh", 0), pos = (unsigned) symx_param("pos", 0), w = (unsigned) symx_param("w", 2), n = (unsigned) symx_param("n", 2); bool on = !symx_param("off", 0);
    unsigned til = (unsigned) symx_param("til", 0); unsigned long flags = (on ? 0 : handlebars_compiler_flag_ignore_standalone) | (symx_param("compat", 0) ? handlebars_compiler_flag_compat : 0);
    while (SH[sh][ng] >= 0) { G[ng].k = SH[sh][ng]; ng++; }
    unsigned fill = symx_pick(3, "fill"); static const char *const FILL[] = { "\n", "", "y" };
    for (int i = 0; i <= ng; i++) { tn[i] = strlen(FILL[fill]); memcpy(T[i], FILL[fill], tn[i]); }
    for (unsigned i = pos; i < pos + w && (int) i <= ng; i++) { tn[i] = n; symx_sym(T[i], n, "text"); for (unsigned k = 0; k < n; k++) symx_assume(ws(T[i][k]) || T[i][k] == 'y'); }
    if (til) for (unsigned i = pos ? pos - 1 : 0; i < pos + w && (int) i < ng; i++) if (G[i].k != RO && G[i].k != RX) { unsigned f = symx_pick(4, "tilde"); G[i].l = f & 1; G[i].r = f & 2; }
    unsigned av = symx_pick(2, "a"), bv = G[1].k == LC ? symx_pick(2, "b") : 0; com_var = sh == 1 || sh == 0 ? (int) symx_pick(2, "variant") : 0; else_var = sh == 4 ? (int) symx_pick(2, "else") : 0;
    run(on); static out want; unsigned vis = 1, st[8], sp = 0; bool taken[8];   /* which texts are shown */
    t_n(T[0], tn[0]); o_n(&want, R[0], rn[0]);
    for (int i = 0; i < ng; i++) {
        put(&G[i]); t_n(T[i + 1], tn[i + 1]);
        switch (G[i].k) {
        case E: case EE: if (vis) o_s(&want, "v"); break; case P_: if (vis) { o_s(&want, ind[i]); o_s(&want, "q"); } break;
        case O: case I: st[sp] = vis; taken[sp] = (G[i].k == O) == (av == 1); vis = vis && taken[sp]; sp++; break;
        case LC: { bool t = !taken[sp - 1] && bv; vis = st[sp - 1] && t; taken[sp - 1] = taken[sp - 1] || t; break; } case L: vis = st[sp - 1] && !taken[sp - 1]; taken[sp - 1] = true; break;
        case RO: case BO: st[sp] = vis; taken[sp++] = true; break; case X: case RX: case BX: vis = st[--sp]; break; default: break; }
        if (vis) o_n(&want, R[i + 1], rn[i + 1]);
    }
    c = handlebars_context_ctor();
    M *m = handlebars_map_ctor(c, 4); handlebars_map_addref(m); m = handlebars_map_update(m, h_str(c, "x"), h_vstr(c, "v", 1)); m = handlebars_map_update(m, h_str(c, "a"), h_vbool(c, av)); m = handlebars_map_update(m, h_str(c, "b"), h_vbool(c, bv)); V *root = h_val(c); handlebars_value_map(root, m);
    M *hm = handlebars_map_ctor(c, 2); handlebars_map_addref(hm); V *hv = h_val(c); handlebars_value_helper(hv, h_raw); hm = handlebars_map_update(hm, h_str(c, "h"), hv); V *hs = h_val(c); handlebars_value_map(hs, hm);
    M *pm = handlebars_map_ctor(c, 1); handlebars_map_addref(pm); pm = handlebars_map_update(pm, h_str(c, "p"), h_vstr(c, "q", 1)); V *ps = h_val(c); handlebars_value_map(ps, pm);
    struct h_opts o = { flags, ps, hs, NULL, NULL }; symx_observe("template", tpl, tl); symx_observe("expected", want.b, want.n);
    jmp_buf jb; if (handlebars_setjmp_ex(c, &jb)) { HBSCTX(c)->e->jmp = NULL; symx_observe("error", handlebars_error_message(c), strlen(handlebars_error_message(c))); CHECK(false, "the template renders"); return; }
    S *r = h_render(c, tpl, tl, root, &o); symx_observe("output", hbs_str_val(r), hbs_str_len(r)); CHECK(out_is(&want, r), "whitespace"); symx_reach("done");
}
