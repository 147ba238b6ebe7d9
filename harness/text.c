/* P02: text outside tags is copied byte for byte; comments vanish, escapes are literal, raw blocks hand their body through. */
#define OUTMAX 20480
#include "h.h"
#include "mv.h"
static char T[OUTMAX]; static size_t tn; static out want;
static void t_n(const char *s, size_t n) { memcpy(T + tn, s, n); tn += n; }
static void t_s(const char *s) { t_n(s, strlen(s)); }
static void lit(const char *s) { t_s(s); o_s(&want, s); }
static bool has(const char *s, size_t n, const char *w) { size_t l = strlen(w); for (size_t i = 0; i + l <= n; i++) if (memcmp(s + i, w, l) == 0) return true; return false; }
static int esc_pending;   /* the text just written ends in one backslash: the next tag is literal */
/* a text that is followed by a tag (tag=1) or by the end of the template */
static void text(const char *s, size_t n, bool tag) {
    symx_assume(!has(s, n, "{{")); if (tag && n) symx_assume(s[n - 1] != '{');
    t_n(s, n); size_t k = 0; while (k < n && s[n - 1 - k] == '\\') k++;
    if (!tag) k = 0;
    o_n(&want, s, k ? n - 1 : n); esc_pending = k == 1;
}
static void tag(const char *t, const char *val) { t_s(t); o_s(&want, esc_pending ? t : val); esc_pending = 0; }
static C *c;
static V *h_raw(HANDLEBARS_HELPER_ARGS) { (void) argc; (void) argv; S *b = handlebars_vm_execute_program(vm, options->program, options->scope), *s = handlebars_string_ctor(c, "<", 1); s = handlebars_string_append(c, s, hbs_str_val(b), hbs_str_len(b)); s = handlebars_string_append(c, s, ">", 1); handlebars_value_str(rv, s); handlebars_value_set_flag(rv, HANDLEBARS_VALUE_FLAG_SAFE_STRING); return rv; }
void harness(void) {
    unsigned w = (unsigned) symx_param("w", 0), n = (unsigned) symx_param("n", 2), pos = (unsigned) symx_param("pos", 0);
    unsigned long flags = (symx_param("alone", 0) ? 0 : handlebars_compiler_flag_ignore_standalone) | (symx_param("compat", 0) ? handlebars_compiler_flag_compat : 0) | (symx_param("noesc", 0) ? handlebars_compiler_flag_no_escape : 0);
    static char b[16]; symx_sym(b, n, "text"); V *part = NULL; c = handlebars_context_ctor();
    if (w == 0) {   /* around expressions; a literal tag must not be followed by another brace, nor a closed one */
        static const char *const TG[] = { "{{x}}", "{{{x}}}", "{{&x}}", "{{x y=1}}" }; unsigned f = symx_pick(3, "form");
        if (pos == 0) { text(b, n, true); tag(TG[f], "V"); text("u", 1, true); tag("{{x}}", "V"); }
        else if (pos == 1) { lit("a"); tag(TG[f], "V"); if (n) symx_assume(b[0] != '}'); text(b, n, true); tag("{{x}}", "V"); lit("z"); }
        else if (pos == 2) { tag("{{x}}", "V"); if (n) symx_assume(b[0] != '}'); text(b, n, false); }
        else if (pos == 3) { text("\\", 1, true); tag(TG[f], "V"); if (n) symx_assume(b[0] != '{'); text(b, n, true); tag("{{x}}", "V"); }   /* behind a literal tag */
        else { text("\\\\", 2, true); tag(TG[f], "V"); if (n) symx_assume(b[0] != '}'); text(b, n, true); tag("{{{x}}}", "V"); lit("\\"); }
    } else if (w == 1) {   /* comments; ends at the first }} */
        unsigned f = symx_pick(2, "tilde"); bool brk = false; char q[20]; memcpy(q, b, n); memcpy(q + n, "}}", 2); for (unsigned i = 0; i < n; i++) brk = brk || (q[i] == '}' && q[i + 1] == '}');
        symx_assume(!brk); if (n >= 2) symx_assume(!(b[0] == '-' && b[1] == '-')); if (n >= 3) symx_assume(!(b[0] == '~' && b[1] == '-' && b[2] == '-')); if (n) symx_assume(b[n - 1] != '~' || f);
        lit("a"); t_s(f ? "{{~!" : "{{!"); t_n(b, n); t_s(f ? "~}}" : "}}"); if (f && n) symx_assume(b[n - 1] != '}'); lit("b"); tag("{{x}}", "V"); lit("c");
    } else if (w == 2) {   /* {{!-- --}} ends at the first --}} or --~}} */
        unsigned f = symx_pick(2, "tilde"); char q[24] = "{{!--"; size_t l = 5; memcpy(q + l, b, n); l += n; memcpy(q + l, f ? "--~}}" : "--}}", f ? 5 : 4); l += f ? 5 : 4; size_t at = l;
        for (size_t i = 3; i + 3 < l && at == l; i++) if (q[i] == '-' && q[i + 1] == '-') { if (q[i + 2] == '}' && q[i + 3] == '}') at = i + 4; else if (i + 4 < l && q[i + 2] == '~' && q[i + 3] == '}' && q[i + 4] == '}') at = i + 5; }
        if (n) symx_assume(b[n - 1] != '~'); if (at < l && q[at - 3] == '~') symx_assume(q[at] != ' ' && (q[at] < 9 || q[at] > 13)); lit("a"); t_n(q, l); symx_assume(!has(q + at, l - at, "{{")); o_n(&want, q + at, l - at); lit("b"); tag("{{x}}", "V"); lit("c");
    } else if (w == 3) {   /* raw block */
        symx_assume(!has(b, n, "{{{{")); if (n) symx_assume(b[n - 1] != '{'); static const char *const O[] = { "{{{{h}}}}", "{{{{h x}}}}" }, *const PRE[] = { "", "{{x}}", "{{{{y}}}}{{{{/y}}}}", "\\{{x", "{{#if}}{{!--" }; unsigned f = symx_pick(2, "open"), p = symx_pick(5, "pre");
        lit("a"); t_s(O[f]); o_s(&want, "<"); lit(PRE[p]); lit(" "); if (n) symx_assume(b[n - 1] != '{'); t_n(b, n); o_n(&want, b, n); t_s("{{{{/h}}}}"); o_s(&want, ">"); lit("b"); tag("{{x}}", "V");
    } else if (w == 4) {   /* inside block bodies */
        unsigned t = symx_pick(2, "cond"); t_s(t ? "{{#if x}}" : "{{#if no}}"); if (n) symx_assume(b[0] != '}'); size_t keep = want.n;
        if (pos == 0) { text(b, n, true); if (esc_pending) symx_assume(0); t_s("{{else}}"); if (!t) want.n = keep; keep = want.n; lit("E"); if (t) want.n = keep; t_s("{{/if}}"); }
        else { text("m", 1, true); t_s("{{else}}"); if (!t) want.n = keep; keep = want.n; text(b, n, true); if (esc_pending) symx_assume(0); if (t) want.n = keep; t_s("{{/if}}"); }
        lit("b"); tag("{{x}}", "V");
    } else if (w == 5) {   /* text of a partial */
        text(b, n, true); tag("{{x}}", "V"); lit("p"); static char q[64]; size_t ql = tn; memcpy(q, T, tn); part = h_vstr(c, q, ql); static out r; r = want; tn = 0; want.n = 0;
        lit("a"); t_s("{{> p}}"); o_n(&want, r.b, r.n); lit("b"); t_s("{{#> none}}"); t_n(q, ql); o_n(&want, r.b, r.n); t_s("{{/none}}"); lit("c"); if (n) symx_assume(b[0] != '}');
    } else if (w == 6) {   /* long texts, around the sizes of the scanner's buffer */
        static const unsigned L[] = { 1000, 4095, 8190, 8191, 8192, 16380, 16383, 16384, 16385, 17000 }; unsigned l = L[pos]; char *q = malloc(l + n); memset(q, 'q', l); for (unsigned i = 63; i < l; i += 64) q[i] = '\n'; memcpy(q + l, b, n); text(q, l + n, true); tag("{{x}}", "V"); lit("tail"); tag("{{{x}}}", "V");
    }
    M *m = handlebars_map_ctor(c, 2); handlebars_map_addref(m); m = handlebars_map_update(m, h_str(c, "x"), h_vstr(c, "V", 1)); V *root = h_val(c); handlebars_value_map(root, m);
    M *hm = handlebars_map_ctor(c, 2); handlebars_map_addref(hm); V *hv = h_val(c); handlebars_value_helper(hv, h_raw); hm = handlebars_map_update(hm, h_str(c, "h"), hv); V *hs = h_val(c); handlebars_value_map(hs, hm);
    V *ps = NULL; if (part) { M *pm = handlebars_map_ctor(c, 1); handlebars_map_addref(pm); pm = handlebars_map_update(pm, h_str(c, "p"), part); ps = h_val(c); handlebars_value_map(ps, pm); }
    struct h_opts o = { flags, ps, hs, NULL, NULL };
    symx_observe("template", T, tn); symx_observe("expected", want.b, want.n);
    S *volatile r = NULL; jmp_buf jb; if (handlebars_setjmp_ex(c, &jb)) { HBSCTX(c)->e->jmp = NULL; symx_observe("error", handlebars_error_message(c), strlen(handlebars_error_message(c))); CHECK(false, "the template renders"); return; }
    r = h_render(c, T, tn, root, &o);
    symx_observe("output", hbs_str_val(r), hbs_str_len(r)); CHECK(out_is(&want, r), "text is copied"); symx_reach("done");
}
