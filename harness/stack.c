/* List histories against an array. params: cap, fixed (no growth), n (pushed first), l (free operations), own, share (a second holder appears before the free operations), strs (elements are strings) */
#include "h.h"
#define MX 48
static C *ctx; static jmp_buf jb; static V *val; static bool strs; static long seq, vals[64]; /* stored integers are arbitrary */
static void put(long q) { long v = vals[q % 64]; if (!strs) symx_sym(&vals[q % 64], sizeof(long), "val"); v = strs ? q : vals[q % 64]; if (strs) { char b[32]; int n = 0; while (n < 20) b[n++] = (char) ('a' + v % 26); b[n++] = (char) ('0' + v % 10); handlebars_value_str(val, handlebars_string_ctor(ctx, b, (size_t) n)); } else handlebars_value_integer(val, v); }
static bool same(V *v, long q) { long x = strs ? q : vals[q % 64]; if (!v) return false; if (!strs) return handlebars_value_get_type(v) == HANDLEBARS_VALUE_TYPE_INTEGER && handlebars_value_get_intval(v) == x; const char *s = handlebars_value_get_strval(v); return s && handlebars_value_get_strlen(v) == 21 && s[0] == 'a' + x % 26 && s[20] == '0' + x % 10; }
static void check(K *s, const long *r, size_t n) {
    CHECK(handlebars_stack_count(s) == n, "count"); unsigned bad = 0; for (size_t i = 0; i < n; i++) if (!same(handlebars_stack_get(s, i), r[i])) bad++;
    CHECK(!bad, "elements"); CHECK(handlebars_stack_get(s, n) == NULL && handlebars_stack_get(s, n + 7) == NULL && handlebars_stack_get(s, (size_t) -1) == NULL, "nothing past the end");
    if (n) CHECK(same(handlebars_stack_top(s), r[n - 1]), "top"); else CHECK(handlebars_stack_top(s) == NULL, "no top");
}
static K *st, *other; static long r[MX], snap[MX]; static size_t cnt, snapn, prot, cap; static unsigned fixed, shared, own;
static struct handlebars_stack_save_buf sv[4]; static size_t svp[4], svc[4]; static unsigned nsv; static volatile bool threw;
static bool grow(void) { if (fixed && (cnt >= cap || shared)) return false; return true; }
static void op(unsigned c) {
    size_t i; threw = false; bool refuse = false; jmp_buf *old = &jb; (void) old;
    switch (c) {
    case 0: case 1: if (cnt >= MX - 1) return; put(seq); refuse = !grow(); if (handlebars_setjmp_ex(ctx, &jb)) { threw = true; break; } st = handlebars_stack_push(st, val); r[cnt++] = seq++; break;
    case 2: if (!cnt || cnt >= MX - 1) return; i = symx_pick((unsigned) cnt, "from"); refuse = !grow(); { long x = r[i]; if (handlebars_setjmp_ex(ctx, &jb)) { threw = true; break; } st = handlebars_stack_push(st, handlebars_stack_get(st, i)); r[cnt++] = x; } break;
    case 3: if (shared) return; refuse = cnt && cnt <= prot; if (handlebars_setjmp_ex(ctx, &jb)) { threw = true; break; } { handlebars_value_integer(val, -1); V *x = handlebars_stack_pop(st, val); if (!cnt) CHECK(x == NULL, "popping an empty list gives nothing"); else { CHECK(x && same(x, r[cnt - 1]), "popped value is the last pushed"); cnt--; } } break;
    case 4: i = symx_pick((unsigned) cnt + 3, "at"); put(seq); refuse = i == cnt ? !grow() : (shared && fixed) || i > cnt || i < prot; if (i == cnt && cnt >= MX - 1) return; if (handlebars_setjmp_ex(ctx, &jb)) { threw = true; break; } st = handlebars_stack_set(st, i, val); if (i == cnt) cnt++; if (i < MX) r[i] = seq++; break;
    case 5: if (shared || nsv >= 3) return; svp[nsv] = prot; svc[nsv] = cnt; sv[nsv++] = handlebars_stack_save(st); prot = cnt; break;
    case 6: if (shared || !nsv) return; nsv--; if (handlebars_setjmp_ex(ctx, &jb)) { threw = true; break; } handlebars_stack_restore(st, sv[nsv]); prot = svp[nsv]; if (cnt > svc[nsv]) cnt = svc[nsv]; break;
    case 7: if (shared) return; i = symx_pick((unsigned) cnt + 1, "to"); refuse = i < prot && cnt > i; if (refuse) return; if (handlebars_setjmp_ex(ctx, &jb)) { threw = true; break; } handlebars_stack_truncate(st, i); cnt = i; break;
    case 8: { K *cp = handlebars_stack_copy_ctor(st, symx_pick(2, "ccap") ? cap + 3 : 0); check(cp, r, cnt); handlebars_stack_dtor(cp); break; }
    default: if (shared || fixed || !own) return; handlebars_stack_addref(st); other = st; shared = 1; snapn = cnt; memcpy(snap, r, sizeof r); break;
    }
    CHECK(threw == refuse, "an operation is refused exactly when it must be");
    if (shared && other != st) shared = 0;
}
void harness(void) {
    unsigned n = symx_param("n", 2), l = symx_param("l", 2), share = symx_param("share", 0); cap = symx_param("cap", 3); own = symx_param("own", 1); fixed = symx_param("fixed", 0); strs = symx_param("strs", 0);
    ctx = handlebars_context_ctor(); val = h_val(ctx);
    st = fixed ? handlebars_stack_init(ctx, talloc_zero_size(ctx, handlebars_stack_size(cap)), cap) : handlebars_stack_ctor(ctx, cap); for (unsigned i = 0; i < own; i++) handlebars_stack_addref(st);
    for (unsigned i = 0; i < n; i++) op(0);
    if (share) { handlebars_stack_addref(st); other = st; shared = 1; snapn = cnt; memcpy(snap, r, sizeof r); }
    for (unsigned i = 0; i < l; i++) { op(1 + symx_pick(share ? 8 : 9, "op")); check(st, r, cnt); }
    if (other) check(other, snap, other == st ? cnt : snapn);
    /* the same list as a value */
    V *a = h_val(ctx); if (!fixed && !nsv && own) { handlebars_value_array(a, st); CHECK(handlebars_value_count(a) == (long) cnt, "count of a list value"); V *rv = h_val(ctx); unsigned bad = 0; for (size_t i = 0; i < cnt; i++) { V *x = handlebars_value_array_find(a, i, rv); if (!same(x, r[i])) bad++; } CHECK(!bad, "list value elements"); CHECK(handlebars_value_array_find(a, cnt, rv) == NULL, "list value out of range");
        size_t p = 0; HANDLEBARS_VALUE_FOREACH_IDX(a, ix, ch) { if (ix != p || p >= cnt || !same(ch, r[p])) bad++; p++; } HANDLEBARS_VALUE_FOREACH_END(); CHECK(!bad && p == cnt, "iteration visits every element in order");
        put(seq); handlebars_value_array_push(a, val); CHECK(handlebars_value_count(a) == (long) cnt + 1 && same(handlebars_value_array_find(a, cnt, rv), seq), "push on a list value"); check(st, r, cnt); }
    symx_observe("r", r, cnt * sizeof(long)); symx_reach("done");
}
