/* Shared harness helpers: every library call below goes through the public headers. */
#ifndef H_H
#define H_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <setjmp.h>
#include <talloc.h>
#include <alloca.h>
#include "handlebars.h"
#include "handlebars_memory.h"
#include "handlebars_types.h"
#include "handlebars_string.h"
#include "handlebars_value.h"
#include "handlebars_map.h"
#include "handlebars_stack.h"
#include "handlebars_parser.h"
#include "handlebars_compiler.h"
#include "handlebars_opcodes.h"
#include "handlebars_opcode_serializer.h"
#include "handlebars_vm.h"
#include "handlebars_helpers.h"
#include "handlebars_delimiters.h"
#include "handlebars_cache.h"
#include "handlebars_closure.h"
#include "symx.h"
#include "env.h"

typedef struct handlebars_context C;
typedef struct handlebars_string S;
typedef struct handlebars_value V;
typedef struct handlebars_map M;
typedef struct handlebars_stack K;

static inline int h_eqn(const char *a, size_t al, const char *b, size_t bl) { if (al != bl) return 0; unsigned d = 0; for (size_t i = 0; i < al; i++) d |= (unsigned char) (a[i] ^ b[i]); return d == 0; }
static inline S *h_str(C *c, const char *s) { return handlebars_string_ctor(c, s, strlen(s)); }
static inline V *h_val(C *c) { V *v = talloc_zero_size(c, HANDLEBARS_VALUE_SIZE); handlebars_value_init(v); return v; }
static inline V *h_vstr(C *c, const char *s, size_t n) { V *v = h_val(c); handlebars_value_str(v, handlebars_string_ctor(c, s, n)); return v; }
static inline V *h_vint(C *c, long n) { V *v = h_val(c); handlebars_value_integer(v, n); return v; }
static inline V *h_vbool(C *c, bool n) { V *v = h_val(c); handlebars_value_boolean(v, n); return v; }

struct h_opts { unsigned long flags; V *partials; V *helpers; V *data; struct handlebars_cache *cache; };

/* The pipeline the command line tool runs. */
static inline S *h_render_str(C *ctx, S *tmpl, V *context, const struct h_opts *o) {
    struct handlebars_parser *parser = handlebars_parser_ctor(ctx);
    if (o->flags & handlebars_compiler_flag_compat) tmpl = handlebars_preprocess_delimiters(ctx, tmpl, NULL, NULL);
    struct handlebars_ast_node *ast = handlebars_parse_ex(parser, tmpl, o->flags);
    struct handlebars_compiler *compiler = handlebars_compiler_ctor(ctx);
    handlebars_compiler_set_flags(compiler, o->flags);
    struct handlebars_program *program = handlebars_compiler_compile_ex(compiler, ast);
    struct handlebars_module *module = handlebars_program_serialize(ctx, program);
    struct handlebars_vm *vm = handlebars_vm_ctor(ctx);
    handlebars_vm_set_flags(vm, o->flags);
    if (o->partials) handlebars_vm_set_partials(vm, o->partials);
    if (o->helpers) handlebars_vm_set_helpers(vm, o->helpers);
    if (o->data) handlebars_vm_set_data(vm, o->data);
    if (o->cache) handlebars_vm_set_cache(vm, o->cache);
    return handlebars_vm_execute(vm, module, context);
}
static inline S *h_render(C *ctx, const char *t, size_t n, V *context, const struct h_opts *o) { return h_render_str(ctx, handlebars_string_ctor(ctx, t, n), context, o); }

#define H_TRY(ctx) jmp_buf h_jb; if (handlebars_setjmp_ex(ctx, &h_jb) == 0)
#endif
