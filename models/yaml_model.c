/* Model of the libyaml calls the library and the harnesses use: documents, and a loader for streams of flow style documents (plain, single and double quoted
   scalars, sequences, mappings, anchors and aliases, "---" between documents). */
#include <yaml.h>
#include <stdlib.h>
#include <string.h>
#include "symx.h"
int yaml_document_initialize(yaml_document_t *d, yaml_version_directive_t *v, yaml_tag_directive_t *a, yaml_tag_directive_t *b, int s, int e) { memset(d, 0, sizeof *d); return 1; }
void yaml_document_delete(yaml_document_t *d) { for (yaml_node_t *n = d->nodes.start; n < d->nodes.top; n++) { if (n->type == YAML_SCALAR_NODE) free(n->data.scalar.value); if (n->type == YAML_SEQUENCE_NODE) free(n->data.sequence.items.start); if (n->type == YAML_MAPPING_NODE) free(n->data.mapping.pairs.start); } free(d->nodes.start); memset(d, 0, sizeof *d); }
static int node(yaml_document_t *d, yaml_node_type_t t) { size_t n = (size_t) (d->nodes.top - d->nodes.start), cap = (size_t) (d->nodes.end - d->nodes.start); if (n == cap) { cap = cap * 2 + 16; d->nodes.start = realloc(d->nodes.start, cap * sizeof(yaml_node_t)); d->nodes.top = d->nodes.start + n; d->nodes.end = d->nodes.start + cap; } memset(d->nodes.top, 0, sizeof(yaml_node_t)); d->nodes.top++->type = t; return (int) n + 1; }
int yaml_document_add_scalar(yaml_document_t *d, const yaml_char_t *tag, const yaml_char_t *v, int len, yaml_scalar_style_t st) { if (len < 0) len = (int) strlen((const char *) v); int k = node(d, YAML_SCALAR_NODE); yaml_node_t *n = &d->nodes.start[k - 1]; n->data.scalar.value = malloc((size_t) len + 1); memcpy(n->data.scalar.value, v, (size_t) len); n->data.scalar.value[len] = 0; n->data.scalar.length = (size_t) len; n->data.scalar.style = st; return k; }
int yaml_document_add_sequence(yaml_document_t *d, const yaml_char_t *tag, yaml_sequence_style_t st) { int k = node(d, YAML_SEQUENCE_NODE); yaml_node_t *n = &d->nodes.start[k - 1]; n->data.sequence.items.start = n->data.sequence.items.top = malloc(32 * sizeof(yaml_node_item_t)); n->data.sequence.items.end = n->data.sequence.items.start + 32; return k; }
int yaml_document_add_mapping(yaml_document_t *d, const yaml_char_t *tag, yaml_mapping_style_t st) { int k = node(d, YAML_MAPPING_NODE); yaml_node_t *n = &d->nodes.start[k - 1]; n->data.mapping.pairs.start = n->data.mapping.pairs.top = malloc(32 * sizeof(yaml_node_pair_t)); n->data.mapping.pairs.end = n->data.mapping.pairs.start + 32; return k; }
int yaml_document_append_sequence_item(yaml_document_t *d, int s, int i) { yaml_node_t *n = &d->nodes.start[s - 1]; if (n->data.sequence.items.top == n->data.sequence.items.end) symx_fail("model: sequence too long"); *n->data.sequence.items.top++ = i; return 1; }
int yaml_document_append_mapping_pair(yaml_document_t *d, int m, int k, int v) { yaml_node_t *n = &d->nodes.start[m - 1]; if (n->data.mapping.pairs.top == n->data.mapping.pairs.end) symx_fail("model: mapping too long"); n->data.mapping.pairs.top->key = k; n->data.mapping.pairs.top++->value = v; return 1; }
yaml_node_t *yaml_document_get_node(yaml_document_t *d, int i) { return i > 0 && d->nodes.start + i <= d->nodes.top ? d->nodes.start + i - 1 : NULL; }
yaml_node_t *yaml_document_get_root_node(yaml_document_t *d) { return d->nodes.top != d->nodes.start ? d->nodes.start : NULL; }
int yaml_parser_initialize(yaml_parser_t *p) { memset(p, 0, sizeof *p); return 1; }
void yaml_parser_delete(yaml_parser_t *p) { memset(p, 0, sizeof *p); }
void yaml_parser_set_input_string(yaml_parser_t *p, const unsigned char *s, size_t n) { p->input.string.start = p->input.string.current = s; p->input.string.end = s + n; }
static const unsigned char *s, *e; static yaml_document_t *doc; static struct { char n[8]; int k; } anc[4]; static unsigned nanc;
static int blank(int c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t'; }
static void ws(void) { while (s < e && blank(*s)) s++; }
static int name(char *b) { unsigned n = 0; while (s < e && n < 7 && (*s >= 'a' && *s <= 'z' || *s >= '0' && *s <= '9')) b[n++] = (char) *s++; b[n] = 0; return n > 0; }
static int val(int flow) {
    ws(); if (s >= e) return 0; char an[8] = ""; int k;
    if (*s == '*') { s++; if (!name(an)) return 0; for (unsigned i = 0; i < nanc; i++) if (!strcmp(anc[i].n, an)) return anc[i].k; return 0; }
    if (*s == '&') { s++; if (!name(an) || nanc == 4) return 0; ws(); if (s >= e) return 0; }
#define REG() do { if (an[0]) { strcpy(anc[nanc].n, an); anc[nanc++].k = k; } } while (0)
    if (*s == '[') { s++; k = yaml_document_add_sequence(doc, NULL, YAML_FLOW_SEQUENCE_STYLE); REG(); for (;;) { ws(); if (s >= e) return 0; if (*s == ']') { s++; return k; } int v = val(1); if (!v) return 0; yaml_document_append_sequence_item(doc, k, v); ws(); if (s >= e) return 0; if (*s == ',') s++; else if (*s != ']') return 0; } }
    if (*s == '{') { s++; k = yaml_document_add_mapping(doc, NULL, YAML_FLOW_MAPPING_STYLE); REG(); for (;;) { ws(); if (s >= e) return 0; if (*s == '}') { s++; return k; } int a = val(1); if (!a) return 0; ws(); if (s >= e || *s != ':') return 0; s++; ws(); int v; if (s < e && (*s == ',' || *s == '}')) v = yaml_document_add_scalar(doc, NULL, (const yaml_char_t *) "", 0, YAML_PLAIN_SCALAR_STYLE); else v = val(1); if (!v) return 0; yaml_document_append_mapping_pair(doc, k, a, v); ws(); if (s >= e) return 0; if (*s == ',') s++; else if (*s != '}') return 0; } }
    unsigned char *b = malloc((size_t) (e - s) * 2 + 2); size_t n = 0; yaml_scalar_style_t st = YAML_PLAIN_SCALAR_STYLE;
    if (*s == '\'') { st = YAML_SINGLE_QUOTED_SCALAR_STYLE; s++; for (;;) { if (s >= e) { free(b); return 0; } if (*s == '\'') { s++; if (s < e && *s == '\'') { b[n++] = '\''; s++; continue; } break; } b[n++] = *s++; } }
    else if (*s == '"') { st = YAML_DOUBLE_QUOTED_SCALAR_STYLE; s++; for (;;) { if (s >= e) { free(b); return 0; } if (*s == '"') { s++; break; } if (*s != '\\') { b[n++] = *s++; continue; } s++; if (s >= e) { free(b); return 0; }
        if (*s == 'x') { s++; unsigned u = 0; for (int i = 0; i < 2; i++) { if (s >= e) { free(b); return 0; } int c = *s++; if (c >= '0' && c <= '9') c -= '0'; else if (c >= 'a' && c <= 'f') c -= 'a' - 10; else { free(b); return 0; } u = u * 16 + (unsigned) c; } if (u < 0x80) b[n++] = (unsigned char) u; else { b[n++] = (unsigned char) (0xc0 | u >> 6); b[n++] = (unsigned char) (0x80 | (u & 63)); } } else if (*s == 'n') { b[n++] = '\n'; s++; } else { b[n++] = *s++; } } }
    else { while (s < e && *s != ',' && *s != ']' && *s != '}' && *s != '[' && *s != '{' && !blank(*s) && !(*s == ':' && (s + 1 >= e || blank(s[1]) || s[1] == ',' || s[1] == '}'))) b[n++] = *s++; if (!n) { free(b); return 0; } }
    k = yaml_document_add_scalar(doc, NULL, b, (int) n, st); free(b); REG(); return k; }
int yaml_parser_load(yaml_parser_t *p, yaml_document_t *d) {
    memset(d, 0, sizeof *d); if (p->error) return 0; doc = d; nanc = 0; s = p->input.string.current; e = p->input.string.end; ws(); int any = s != p->input.string.start; if (e - s >= 3 && s[0] == '-' && s[1] == '-' && s[2] == '-') s += 3; else if (s < e && p->stream_start_produced) goto bad;
    ws(); if (s < e && !val(0)) goto bad; p->stream_start_produced = 1; p->input.string.current = s; return 1;
bad: p->error = YAML_PARSER_ERROR; p->problem = "malformed"; yaml_document_delete(d); return 0; }
