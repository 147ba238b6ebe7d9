/* P30: names of opcodes, tokens, node types, value types and built-in helpers. */
#include "h.h"
#include "handlebars_ast.h"
#include "handlebars_token.h"
#include "handlebars.tab.h"
struct item { int v; const char *n; };
#define I(x) { x, NULL },
static const struct item OP[] = { {0, NULL}, I(handlebars_opcode_type_ambiguous_block_value) I(handlebars_opcode_type_append) I(handlebars_opcode_type_append_escaped) I(handlebars_opcode_type_empty_hash) I(handlebars_opcode_type_pop_hash) I(handlebars_opcode_type_push_context) I(handlebars_opcode_type_push_hash) I(handlebars_opcode_type_resolve_possible_lambda)
 I(handlebars_opcode_type_get_context) I(handlebars_opcode_type_push_program) I(handlebars_opcode_type_append_content) I(handlebars_opcode_type_assign_to_hash) I(handlebars_opcode_type_block_value) I(handlebars_opcode_type_push) I(handlebars_opcode_type_push_literal) I(handlebars_opcode_type_push_string) I(handlebars_opcode_type_invoke_partial) I(handlebars_opcode_type_push_id)
 I(handlebars_opcode_type_push_string_param) I(handlebars_opcode_type_invoke_ambiguous) I(handlebars_opcode_type_invoke_known_helper) I(handlebars_opcode_type_invoke_helper) I(handlebars_opcode_type_lookup_on_context) I(handlebars_opcode_type_lookup_data) I(handlebars_opcode_type_lookup_block_param) I(handlebars_opcode_type_register_decorator) I(handlebars_opcode_type_return) I(handlebars_opcode_type_invalid) };
#define T(x) { x, #x },
static const struct item TK[] = { T(END) T(BOOLEAN) T(CLOSE) T(CLOSE_RAW_BLOCK) T(CLOSE_SEXPR) T(CLOSE_UNESCAPED) T(COMMENT) T(CONTENT) T(DATA) T(END_RAW_BLOCK) T(EQUALS) T(ID) T(INVALID) T(INVERSE) T(NUMBER) T(OPEN) T(OPEN_BLOCK) T(OPEN_ENDBLOCK) T(OPEN_INVERSE) T(OPEN_PARTIAL) T(OPEN_RAW_BLOCK) T(OPEN_SEXPR) T(OPEN_UNESCAPED) T(SEP) T(STRING) T(CLOSE_BLOCK_PARAMS)
 { NUL, "NULL" }, T(OPEN_BLOCK_PARAMS) T(OPEN_INVERSE_CHAIN) T(UNDEFINED) T(OPEN_PARTIAL_BLOCK) };
static const int NODES[] = { HANDLEBARS_AST_NODE_NIL, HANDLEBARS_AST_NODE_BLOCK, HANDLEBARS_AST_NODE_BOOLEAN, HANDLEBARS_AST_NODE_COMMENT, HANDLEBARS_AST_NODE_CONTENT, HANDLEBARS_AST_NODE_HASH, HANDLEBARS_AST_NODE_HASH_PAIR, HANDLEBARS_AST_NODE_INTERMEDIATE, HANDLEBARS_AST_NODE_INVERSE, HANDLEBARS_AST_NODE_MUSTACHE, HANDLEBARS_AST_NODE_NUL, HANDLEBARS_AST_NODE_NUMBER, HANDLEBARS_AST_NODE_PARTIAL,
 HANDLEBARS_AST_NODE_PARTIAL_BLOCK, HANDLEBARS_AST_NODE_PATH, HANDLEBARS_AST_NODE_PATH_SEGMENT, HANDLEBARS_AST_NODE_PROGRAM, HANDLEBARS_AST_NODE_RAW_BLOCK, HANDLEBARS_AST_NODE_SEXPR, HANDLEBARS_AST_NODE_STRING, HANDLEBARS_AST_NODE_UNDEFINED };
static const struct item VT[] = { {HANDLEBARS_VALUE_TYPE_NULL, "null"}, {HANDLEBARS_VALUE_TYPE_TRUE, "true"}, {HANDLEBARS_VALUE_TYPE_FALSE, "false"}, {HANDLEBARS_VALUE_TYPE_INTEGER, "integer"}, {HANDLEBARS_VALUE_TYPE_FLOAT, "float"}, {HANDLEBARS_VALUE_TYPE_STRING, "string"}, {HANDLEBARS_VALUE_TYPE_ARRAY, "array"}, {HANDLEBARS_VALUE_TYPE_MAP, "map"}, {HANDLEBARS_VALUE_TYPE_USER, "user"}, {HANDLEBARS_VALUE_TYPE_PTR, "ptr"}, {HANDLEBARS_VALUE_TYPE_HELPER, "helper"}, {HANDLEBARS_VALUE_TYPE_CLOSURE, "closure"} };
#define N(a) (sizeof(a) / sizeof(*a))
static struct { const char *n; handlebars_helper_func f; } BI[] = { {"blockHelperMissing", handlebars_builtin_block_helper_missing}, {"helperMissing", handlebars_builtin_helper_missing}, {"each", handlebars_builtin_each}, {"if", handlebars_builtin_if}, {"unless", handlebars_builtin_unless}, {"with", handlebars_builtin_with}, {"log", handlebars_builtin_log}, {"lookup", handlebars_builtin_lookup}, {"hbsc_set_delimiters", handlebars_builtin_hbsc_set_delimiters} };
static const char *name(unsigned w, int v) { const char *n = w == 0 ? handlebars_opcode_readable_type((enum handlebars_opcode_type) v) : w == 1 ? handlebars_token_readable_type(v) : w == 2 ? handlebars_ast_node_readable_type(v) : handlebars_value_type_readable((enum handlebars_value_type) v); CHECK(n != NULL && n[0] != 0, "there is a name"); return n; }
static int rev(unsigned w, const char *s) { return w == 0 ? (int) handlebars_opcode_reverse_readable_type(s) : handlebars_token_reverse_readable_type(s); }
static const char *NONE[] = {"invalid", "UNKNOWN", "UNKNOWN", "unknown"};
void harness(void) {
    unsigned w = symx_param("w", 0), k = symx_param("k", 0), n = symx_param("n", 4);
    if (k == 0) {   /* any number of the enumeration has its own name, which leads back to it; any other number has none */
        int v; symx_sym(&v, sizeof v, "number"); const char *nm = name(w, v); size_t cnt = w == 0 ? N(OP) - 1 : w == 1 ? N(TK) : w == 2 ? N(NODES) : N(VT); bool known = false;
        for (size_t i = 0; i < cnt; i++) { int u = w == 0 ? OP[i].v : w == 1 ? TK[i].v : w == 2 ? NODES[i] : VT[i].v; if (u == v) { known = true; if (w == 1 && TK[i].n) CHECK(strcmp(nm, TK[i].n) == 0, "the name of the token"); if (w == 3) CHECK(strcmp(nm, VT[i].n) == 0, "the name of the type"); } else CHECK(strcmp(name(w, u), nm) != 0 || strcmp(nm, NONE[w]) == 0 || (w == 1 && (v == LONG_COMMENT || v == SINGLE_STRING)), "no two have the same name"); }
        CHECK(known || strcmp(nm, NONE[w]) == 0 || (w == 1 && (v == LONG_COMMENT || v == SINGLE_STRING)), "other numbers have no name"); CHECK(!known || strcmp(nm, NONE[w]) != 0, "every item has a name of its own");
        if (w < 2 && known) CHECK(rev(w, nm) == v, "the name leads back to the item");
        if (w == 1 && (v == LONG_COMMENT || v == SINGLE_STRING)) CHECK(rev(w, nm) == (v == LONG_COMMENT ? COMMENT : STRING), "variants are named like their kind");
    } else if (k == 1) {   /* any text is a name or is rejected */
        char *s = malloc(n + 1); for (unsigned i = 0; i < n; i++) { s[i] = (char) symx_u8("c"); symx_assume(s[i] != 0); } s[n] = 0;
        int v = rev(w, s); symx_observe("v", &v, sizeof v);
        if (v != -1) { CHECK(strcmp(name(w, v), s) == 0 || (w == 1 && ((v == COMMENT && strcmp(s, "LONG_COMMENT") == 0) || (v == STRING && strcmp(s, "SINGLE_STRING") == 0))), "only names are accepted"); }
        else { size_t cnt = w == 0 ? N(OP) - 1 : N(TK); for (size_t i = 0; i < cnt; i++) CHECK(strcmp(name(w, w == 0 ? OP[i].v : TK[i].v), s) != 0, "names are not rejected"); }
        const char *other = w == 0 ? "push" : "OPEN"; int e = rev(w, other); memcpy(s, other, n < 4 ? n : 4); if (n == 4) CHECK(rev(w, s) == e, "the answer follows the text"); free(s);
    } else {   /* built-in helpers */
        char *s = malloc(n ? n : 1); for (unsigned i = 0; i < n; i++) s[i] = (char) symx_u8("c"); handlebars_helper_func f = handlebars_builtins_find(s, n), want = NULL;
        for (size_t i = 0; i < N(BI); i++) if (h_eqn(s, n, BI[i].n, strlen(BI[i].n))) want = BI[i].f;
        CHECK(f == want, "a text names the helper of that name or none");
        const char **names = handlebars_builtins_names(); handlebars_helper_func *fs = handlebars_builtins(); size_t i = 0; for (; names[i]; i++) CHECK(fs[i] && handlebars_builtins_find(names[i], (unsigned) strlen(names[i])) == fs[i], "the lists agree"); CHECK(!fs[i] && i == N(BI), "the lists are complete"); free(s);
    }
    symx_reach("done");
}
