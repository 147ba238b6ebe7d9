/* P29: the partial loader over an in-memory file system with arbitrary contents, names and failing file operations. */
#include "h.h"
#include "handlebars_partial_loader.h"
static C *c; static V *pl; static const char *base, *ext;
static char path[64]; static size_t pn;
static char *mkpath(const char *name, size_t n) { size_t bl = strlen(base), el = strlen(ext); memcpy(path, base, bl); path[bl] = '/'; memcpy(path + bl + 1, name, n); memcpy(path + bl + 1 + n, ext, el + 1); pn = bl + 1 + n + el; return path; }
static void addfile(const char *p, const char *d, size_t n) { char *q = malloc(n + 1); memcpy(q, d, n); symx_fs_add(strdup(p), q, (long) n); }
static void addpath(const char *name, size_t n, const char *d, size_t dn) { mkpath(name, n); addfile(path, d, dn); }
/* look a name up: 1 = found, 0 = error */
static int look(const char *name, size_t n, V *rv) {
    jmp_buf jb; volatile int ok = 0; V *r = NULL; if (handlebars_setjmp_ex(c, &jb) == 0) { r = handlebars_value_map_find(pl, handlebars_string_ctor(c, name, n), rv); ok = 1; } c->e->jmp = NULL;
    CHECK(symx_open_files == 0, "no file stays open");
    if (!ok) { CHECK(handlebars_error_num(c) != HANDLEBARS_SUCCESS && handlebars_error_msg(c) && handlebars_error_msg(c)[0], "a reported error"); symx_observe("msg", handlebars_error_msg(c), strlen(handlebars_error_msg(c))); return 0; }
    CHECK(r != NULL, "a value"); if (r != rv) handlebars_value_value(rv, r); return 1; }
static bool holds(V *v, const char *d, size_t n) { if (handlebars_value_get_type(v) != HANDLEBARS_VALUE_TYPE_STRING) return false; return h_eqn(handlebars_value_get_strval(v), handlebars_value_get_strlen(v), d, n); }
static void init(void) { static const char *B[] = { "d", "/a/b", "", "d/" }, *E[] = { ".hbs", "", ".x" }; base = B[symx_param("base", 0)]; ext = E[symx_param("ext", 0)]; pl = h_val(c); handlebars_value_partial_loader_init(c, h_str(c, base), h_str(c, ext), pl); }
/* any name, any content */
static void names(void) {
    unsigned n = symx_param("n", 1), m = symx_param("len", 2); char nm[8], d[400]; for (unsigned i = 0; i < n; i++) { char t[8]; snprintf(t, sizeof t, "name%u", i); nm[i] = i ? ("/.x\xff\0"[symx_pick(5, "second")]) : (char) symx_u8(t); } if (n > 1 && symx_pick(2, "swap")) { char t = nm[0]; nm[0] = nm[1]; nm[1] = t; } unsigned fix = symx_param("fix", 0); for (unsigned i = 0; i < m; i++) { char t[8]; snprintf(t, sizeof t, "c%u", i); d[i] = i < fix ? 'f' : (char) symx_u8(t); } nm[n] = 0;
    bool nul = false; for (unsigned i = 0; i < n; i++) nul |= nm[i] == 0; V *rv = h_val(c);
    if (nul) { mkpath(nm, n); addfile(path, "WRONG", 5); int o = symx_fs_opens; CHECK(!look(nm, n, rv), "no file has a NUL byte in its name"); CHECK(symx_fs_opens == o, "no other file is opened"); symx_reach("nul"); return; }
    unsigned present = symx_pick(2, "present"); if (present) addpath(nm, n, d, m);
    addfile("p", "WRONG", 5); addfile("p.hbs", "WRONG", 5); addfile("d", "WRONG", 5); addfile("d/", "WRONG", 5); addfile("/a/b/", "WRONG", 5); addfile(".hbs", "WRONG", 5);
    int o = symx_fs_opens; mkpath(nm, n); bool decoy = !present && (strcmp(path, "d/") == 0 || strcmp(path, "/a/b/") == 0 || strcmp(path, ".hbs") == 0 || strcmp(path, "p") == 0 || strcmp(path, "p.hbs") == 0 || strcmp(path, "d") == 0); if (decoy) return;
    int ok = look(nm, n, rv); CHECK(symx_fs_opens == o + 1, "one file is opened"); mkpath(nm, n); CHECK(h_eqn(symx_last_open, strlen(symx_last_open), path, pn), "the file the name denotes");
    CHECK(ok == (present && m > 0), "found if there is such a file with something in it"); if (ok) { CHECK(holds(rv, d, m), "the file's bytes"); symx_reach("found"); } else symx_reach("missing");
    V *r2 = h_val(c); int k = look(nm, n, r2); CHECK(k == ok, "the same again"); if (ok) { CHECK(holds(r2, d, m), "the same bytes again"); CHECK(symx_fs_opens == o + 1, "not read twice"); CHECK(handlebars_value_count(pl) == 1, "one partial"); } else CHECK(handlebars_value_count(pl) == 0, "nothing remembered");
}
/* histories of lookups, with failing operations */
static void histories(void) {
    static const char *N[] = { "p", "q", "r", "no", "sub/p", "" }; unsigned char by = symx_u8("byte"); char D[6][4]; unsigned kinds = symx_param("kinds", 5), L = symx_param("l", 3); bool have[6] = { 0 }; unsigned cnt = 0;
    for (unsigned i = 0; i < 6; i++) { D[i][0] = (char) by; D[i][1] = (char) ('0' + i); D[i][2] = (char) by; if (i != 3) addpath(N[i], strlen(N[i]), D[i], 3); }
    V *kept[6] = { 0 }; unsigned fail = symx_param("fails", 0) ? symx_pick(4 * symx_param("l", 3) + 1, "failing") : 0; symx_fs_fail = fail;
    for (unsigned s = 0; s < L; s++) {
        unsigned k = symx_pick(kinds, "name"); V *rv = h_val(c); long f0 = symx_fs_fail; int o = symx_fs_opens; int ok = look(N[k], strlen(N[k]), rv); bool failed = f0 > 0 && symx_fs_fail == 0;
        if (have[k]) { CHECK(ok, "a loaded partial stays"); CHECK(symx_fs_opens == o, "not read again"); } else if (k == 3) CHECK(!ok, "no such file"); else if (!failed) CHECK(ok, "loads"); else symx_reach("failed");
        if (ok) { CHECK(holds(rv, D[k], 3), "its bytes"); if (!have[k]) { have[k] = true; cnt++; kept[k] = rv; } }
        for (unsigned j = 0; j < 6; j++) if (kept[j]) CHECK(holds(kept[j], D[j], 3), "values given out stay");
        CHECK(handlebars_value_count(pl) == (long) cnt, "the count of the loaded partials");
    }
    unsigned seen = 0; HANDLEBARS_VALUE_FOREACH_KV(pl, key, child) { unsigned j = 0; while (j < 6 && !(have[j] && h_eqn(hbs_str_val(key), hbs_str_len(key), N[j], strlen(N[j])))) j++; CHECK(j < 6, "a loaded name"); CHECK(!(seen & (1u << j)), "once"); seen |= 1u << j; CHECK(holds(child, D[j], 3), "with its bytes"); } HANDLEBARS_VALUE_FOREACH_END(); unsigned all = 0; for (unsigned j = 0; j < 6; j++) if (have[j]) all |= 1u << j; CHECK(seen == all, "every loaded partial is listed");
}
/* many names: growth of the table of loaded partials */
static void many(void) { unsigned n = symx_param("n", 80); unsigned char by = symx_u8("byte"); char nm[4], d[2] = { (char) by, 'x' }; nm[2] = 0; V *first = h_val(c);
    for (unsigned i = 0; i < n; i++) { nm[0] = (char) ('a' + i / 10); nm[1] = (char) ('0' + i % 10); mkpath(nm, 2); static char keep[100][32]; memcpy(keep[i % 100], path, pn + 1); d[1] = (char) ('A' + i % 20); char *q = malloc(2); memcpy(q, d, 2); if (i < 14) symx_fs_add(keep[i], q, 2); V *rv = i ? h_val(c) : first; int ok = look(nm, 2, rv); CHECK(ok == (i < 14), "loads what is there"); if (ok) CHECK(holds(rv, d, 2), "its bytes"); }
    d[1] = 'A'; CHECK(holds(first, d, 2), "the first stays"); }
/* the loader as the partials of a template renders like a map of the same partials */
static void renders(void) {
    static const char *T[] = { "{{> p}}", "{{> p}}{{> q}}{{> p}}", "{{> sub/p}}|{{> \"q\"}}", "{{> (lookup this \"n\")}}", "{{#> p}}x{{/p}}{{#> nope}}dflt{{/nope}}", "{{#each l}}{{> p}}{{/each}}", " {{> r}}\n{{> r}}\n", "{{> no}}", "{{#if a}}{{> rec}}{{/if}}" };
    unsigned char by = symx_u8("byte"); symx_assume(by != 0 && by != '{' && by != '\\' && by != '\r' && by != '\n' && by != ' ' && by != '\t'); unsigned t = symx_param("t0", 0); char P[2][32]; snprintf(P[0], 32, "?<{{a}}>"); P[0][0] = (char) by; snprintf(P[1], 32, "?{{#if a}}\n{{> q}}\n{{/if}}"); P[1][0] = (char) by; const char *F[][2] = { { "p", P[0] }, { "q", "Q{{b}}" }, { "sub/p", "S" }, { "r", P[1] }, { "rec", "{{> rec}}" } }; V *pv = h_val(c); M *m = handlebars_map_ctor(c, 8);
    for (unsigned i = 0; i < 5; i++) { addpath(F[i][0], strlen(F[i][0]), F[i][1], strlen(F[i][1])); m = handlebars_map_str_update(m, F[i][0], strlen(F[i][0]), h_vstr(c, F[i][1], strlen(F[i][1]))); } handlebars_value_map(pv, m);
    M *dm = handlebars_map_ctor(c, 4); dm = handlebars_map_str_update(dm, "a", 1, h_vstr(c, "A", 1)); dm = handlebars_map_str_update(dm, "n", 1, h_vstr(c, "q", 1)); V *l = h_val(c); handlebars_value_array(l, handlebars_stack_ctor(c, 2)); handlebars_value_array_push(l, h_vint(c, 1)); handlebars_value_array_push(l, h_vint(c, 2)); dm = handlebars_map_str_update(dm, "l", 1, l); V *d = h_val(c); handlebars_value_map(d, dm);
    S *r[4]; int ok[4]; for (unsigned i = 0; i < 3; i++) { struct h_opts o; memset(&o, 0, sizeof o); o.partials = i ? pl : pv; jmp_buf jb; ok[i] = 0; r[i] = NULL; if (handlebars_setjmp_ex(c, &jb) == 0) { r[i] = h_render_str(c, h_str(c, T[t]), d, &o); ok[i] = 1; symx_observe("out", hbs_str_val(r[i]), hbs_str_len(r[i])); } else symx_observe("msg", handlebars_error_msg(c), strlen(handlebars_error_msg(c))); c->e->jmp = NULL; }
    for (unsigned i = 1; i < 3; i++) { if (t == 4) continue; CHECK(ok[i] == ok[0], "loads or fails alike"); if (ok[0]) CHECK(h_eqn(hbs_str_val(r[i]), hbs_str_len(r[i]), hbs_str_val(r[0]), hbs_str_len(r[0])), "the same text"); }
}
void harness(void) { c = handlebars_context_ctor(); init(); switch (symx_param("w", 0)) { case 0: names(); break; case 1: histories(); break; case 2: many(); break; default: renders(); } CHECK(symx_open_files == 0, "no open file"); handlebars_value_dtor(pl); handlebars_context_dtor(c); symx_reach("done"); }
