// Type harness: analyses how declaration specifiers, declarators and compound types become types.
#include SRC_MAIN
#include "sa.h"

static void h_type(struct ast_type *t, int kind, int size, int alignment){ t->kind = kind; t->size = size; t->alignment = alignment; }
static void h_init_types(void){
    h_type(&globals.typedef_void, AST_void_type, 0, 1);
    h_type(&globals.typedef_Bool, AST_integer_type, 1, 1);
    h_type(&globals.typedef_s8,  AST_integer_type, 1, 1); h_type(&globals.typedef_u8,  AST_integer_type, 1, 1);
    h_type(&globals.typedef_s16, AST_integer_type, 2, 2); h_type(&globals.typedef_u16, AST_integer_type, 2, 2);
    h_type(&globals.typedef_s32, AST_integer_type, 4, 4); h_type(&globals.typedef_u32, AST_integer_type, 4, 4);
    h_type(&globals.typedef_s64, AST_integer_type, 8, 8); h_type(&globals.typedef_u64, AST_integer_type, 8, 8);
    h_type(&globals.typedef_f32, AST_float_type, 4, 4); h_type(&globals.typedef_f64, AST_float_type, 8, 8);
    struct ast_type *a = &globals.typedef_atomic_bool;
    static int sizes[] = {1,1,1,2,2,4,4,8,8};
    for(int i = 0; i < 9; i++){ h_type(&a[i], AST_atomic_integer_type, sizes[i], sizes[i]); a[i].flags |= TYPE_FLAG_is_atomic; }
    struct ast_pointer_type *p = &globals.typedef_void_pointer;
    for(int i = 0; i < 12; i++){ h_type(&p[i].base, AST_pointer_type, 8, 8); p[i].pointer_to = &globals.typedef_void + i; }
}
static void h_arena(struct memory_arena *arena, int size){
    u8 *base = __sa_alloc(size);
    memset(base, 0, size);
    arena->base = arena->current = base;
    arena->end_of_committed_memory = base + size;
    arena->reserved = size;
#if defined(_Debug)
    arena->committed_size = size;
#endif
}
static struct context *h_context(void){
    struct context *context = __sa_alloc(sizeof(struct context));
    memset(context, 0, sizeof(*context));
    static struct memory_arena permanent;
    h_arena(&permanent, 0x10000);
    context->arena = &permanent;
    h_arena(&context->scratch, 0x10000);
    h_arena(&context->ir_arena, 0x10000);
    static struct ast_function function; static struct ast_scope scope; static struct compilation_unit unit;
    context->current_function = &function;
    context->current_scope = &scope;
    context->current_compilation_unit = &unit;
    return context;
}

static struct token h_tokens[160];
static int h_in[160];             // type | aux << 16; aux: the name of an identifier or the index of a literal
static long long h_lo[32], h_hi[32];
static u8 h_names[256];
static struct token h_invalid_identifier;

static struct atom h_atom(int i){
    struct atom atom = zero_struct;
    h_names[i] = i;
    atom.string_hash = i + 1; atom.data = &h_names[i]; atom.size = 1;
    return atom;
}
static struct ast_declaration h_typedefs[16];
struct ast_declaration *__sa_stub__typedef(struct context *context, struct compilation_unit *unit, struct token *name, int silent){
    int i = name->atom.string_hash - 1;
    if(i >= 'T' && i < 'T' + 4) return &h_typedefs[i - 'T'];
    return null;
}
static int h_literals;
struct expr __sa_stub__constant(struct context *context, int skip_comma, char *message){
    static char *names[] = {"n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "n10", "n11", "n12", "n13", "n14", "n15"};
    struct expr expr = zero_struct;
    struct token *token = next_token(context);
    int i = token->line;
    struct ir_integer_literal *lit = __sa_alloc(sizeof(struct ir_integer_literal));
    memset(lit, 0, sizeof(*lit));
    lit->base.kind = IR_integer_literal;
    lit->type = &globals.typedef_s64;
    lit->_u64 = (h_lo[i] == h_hi[i]) ? h_lo[i] : __sa_range(names[i], 64, h_lo[i], h_hi[i]);
    expr.ir = &lit->base; expr.token = token; expr.resolved_type = &globals.typedef_s64;
    h_literals++;
    return expr;
}
b32 __sa_stub__no_exhaustion(struct context *context, char *error){ return false; }
struct ast_declaration *__sa_stub__register(struct context *context, struct ast_declaration *decl){
    struct ir_integer_literal *lit = (struct ir_integer_literal *)decl->assign_expr;
    __sa_obs("enumerator", decl->identifier->atom.string_hash - 1, lit ? lit->_s32 : 0, lit && lit->type == &globals.typedef_s32);
    return decl;
}

static int h_depth;
static void h_report_type(struct ast_type *type){
    if(++h_depth > 40){ __sa_obs("type", -1, 0, 0); h_depth--; return; }
    if(!type){ __sa_obs("type", -2, 0, 0); h_depth--; return; }
    for(int i = 0; i < 25; i++) if(type == &globals.typedef_void + i){ __sa_obs("type", 0, i, type->size, type->alignment); h_depth--; return; }
    switch(type->kind){
        case AST_pointer_type:{
            __sa_obs("type", 1, type->size, type->alignment, (type->flags & TYPE_FLAG_is_atomic) != 0);
            h_report_type(((struct ast_pointer_type *)type)->pointer_to);
        }break;
        case AST_array_type:{
            struct ast_array_type *array = (struct ast_array_type *)type;
            __sa_obs("type", 2, type->size, type->alignment, array->amount_of_elements, array->is_of_unknown_size);
            h_report_type(array->element_type);
        }break;
        case AST_function_type:{
            struct ast_function_type *function = (struct ast_function_type *)type;
            __sa_obs("type", 3, function->argument_list.count, (function->flags & FUNCTION_TYPE_FLAGS_is_varargs) != 0);
            h_report_type(function->return_type);
            for(struct ast_list_node *node = function->argument_list.first; node; node = node->next) h_report_type(((struct ast_declaration *)node->value)->type);
        }break;
        case AST_struct: case AST_union:{
            struct ast_compound_type *compound = (struct ast_compound_type *)type;
            __sa_obs("type", (type->kind == AST_struct) ? 4 : 5, type->size, type->alignment, compound->amount_of_members);
            for(int i = 0; i < compound->amount_of_members; i++){
                struct compound_member *member = &compound->members[i];
                __sa_obs("member", (member->name == &h_invalid_identifier) ? 0 : member->name->atom.string_hash - 1, member->offset_in_type, member->next_member_increment);
                h_report_type(member->type);
            }
        }break;
        case AST_bitfield_type:{
            struct ast_bitfield_type *bitfield = (struct ast_bitfield_type *)type;
            __sa_obs("type", 6, bitfield->bit_index, bitfield->width, type->size);
            h_report_type(bitfield->base_type);
        }break;
        default: __sa_obs("type", -3, type->kind, 0); break;
    }
    h_depth--;
}

// mode: 0 specifiers only, 1 a declarator with a name, 2 a type name, 3 either
void h_declare(int mode, int n, int pack){
    h_init_types();
    struct context *context = h_context();
    context->pragma_alignment = pack;
    globals.invalid_identifier_token = &h_invalid_identifier;
    globals.keyword_align  = h_atom(200);
    globals.keyword_packed = h_atom(201);
    struct ast_array_type *array = __sa_alloc(sizeof(*array)); memset(array, 0, sizeof(*array));
    h_typedefs[0].type = &globals.typedef_u16;
    h_typedefs[1].type = &((&globals.typedef_void_pointer) + 6)->base;
    h_typedefs[2].type = &array->base; h_type(&array->base, AST_array_type, 12, 2); array->element_type = &globals.typedef_s16; array->amount_of_elements = 6;
    h_typedefs[3].type = &globals.typedef_void;
    for(int i = 0; i < n; i++){
        h_tokens[i].type = h_in[i] & 0xffff;
        h_tokens[i].line = h_in[i] >> 16;
        if(h_in[i] >> 16) h_tokens[i].atom = h_atom((h_in[i] >> 16) & 255);
    }
    context->tokens.data = h_tokens;
    context->tokens.amount = n;
    struct declaration_specifiers specifiers = parse_declaration_specifiers(context, null, null);
    if(context->should_sleep) __sa_end("sleep");
    struct ast_type *type = specifiers.type_specifier;
    __sa_obs("specifiers", specifiers.specifier_flags, specifiers.alignment);
    if(mode){
        struct declarator_return declarator = parse_declarator(context, type, specifiers.defined_type_specifier, (enum declarator_kind_flags)(mode == 1 ? DECLARATOR_identifier : mode == 2 ? DECLARATOR_type_name : (DECLARATOR_identifier | DECLARATOR_type_name)));
        type = declarator.type;
        __sa_obs("name", (declarator.ident == &h_invalid_identifier) ? 0 : declarator.ident->atom.string_hash - 1);
    }
    if(context->should_exit_statement) __sa_end("error");
    __sa_obs("read", context->token_at);
    h_report_type(type);
    __sa_facts("facts");
}

//---------------------------------------------------------------- initializers
static u8 h_text[512];
struct expr __sa_stub__expression(struct context *context, int skip_comma){
    static char *names[] = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10", "v11", "v12", "v13", "v14", "v15", "v16", "v17", "v18", "v19", "v20", "v21", "v22", "v23"};
    struct expr expr = zero_struct;
    struct token *token = next_token(context);
    int aux = token->line;
    expr.token = token;
    switch(token->type){
        case TOKEN_character_literal:{ // a value
            struct ir_integer_literal *lit = push_uninitialized_struct(&context->ir_arena, struct ir_integer_literal);
            lit->base.kind = IR_integer_literal;
            lit->type = &globals.typedef_s32;
            lit->_s32 = __sa_range(names[aux], 32, 1, 100);
            expr.ir = &lit->base; expr.resolved_type = &globals.typedef_s32;
        }break;
        case TOKEN_string_literal:{ // aux: length | element size << 8
            struct ir_string_literal *lit = push_uninitialized_struct(&context->ir_arena, struct ir_string_literal);
            lit->base.kind = IR_string_literal;
            int count = aux & 255, size = aux >> 8;
            struct ast_type *element = size == 1 ? &globals.typedef_s8 : size == 2 ? &globals.typedef_u16 : &globals.typedef_u32;
            struct ast_array_type *type = parser_type_push(context, array_type);
            type->amount_of_elements = count + 1; type->element_type = element;
            type->base.size = (count + 1) * size; type->base.alignment = element->alignment;
            lit->value.data = h_text; lit->value.size = count * size;
            lit->string_kind = size == 1 ? STRING_KIND_utf8 : size == 2 ? STRING_KIND_utf16 : STRING_KIND_utf32;
            lit->type = &type->base;
            expr.ir = &lit->base; expr.resolved_type = &type->base;
        }break;
        case TOKEN_identifier:{ // an object of the given typedef
            static struct ast_declaration objects[4];
            struct ast_declaration *decl = &objects[aux - 'T'];
            decl->kind = IR_declaration; decl->identifier = token; decl->type = h_typedefs[aux - 'T'].type; decl->flags = DECLARATION_FLAGS_is_global;
            struct ir_identifier *identifier = push_uninitialized_struct(&context->ir_arena, struct ir_identifier);
            identifier->base.kind = IR_identifier; identifier->decl = decl;
            expr.ir = &identifier->base; expr.resolved_type = decl->type;
        }break;
        default: report_error(context, token, "no expression"); break;
    }
    return expr;
}
void __sa_stub__patch(struct context *context, enum patch_kind kind, struct ir *source, smm source_offset, struct ast_declaration *dest, smm dest_offset, smm rip_at){
    __sa_obs("address", dest_offset, kind == PATCH_absolute, source->kind == IR_string_literal ? (long long)((struct ir_string_literal *)source)->value.size : -1, source_offset);
}
static void h_walk(struct ir *at){
    struct ir *value = null;
    while(at->kind != IR_pop_expression){
        switch(at->kind){
            case IR_integer_literal: value = at; at = (struct ir *)((struct ir_integer_literal *)at + 1); break;
            case IR_float_literal:   value = at; at = (struct ir *)((struct ir_float_literal *)at + 1); break;
            case IR_pointer_literal: value = at; at = (struct ir *)((struct ir_pointer_literal *)at + 1); break;
            case IR_string_literal:  value = at; at = (struct ir *)((struct ir_string_literal *)at + 1); break;
            case IR_identifier:      value = at; at = (struct ir *)((struct ir_identifier *)at + 1); break;
            case IR_skip:            at = (struct ir *)((u8 *)at + ((struct ir_skip *)at)->size_to_skip); break;
            case IR_compound_literal: at = (struct ir *)((struct ir_compound_literal *)at + 1); break;
            case IR_load_address:    at = at + 1; break;
            case IR_initializer:{
                struct ir_initializer *init = (struct ir_initializer *)at;
                struct ast_type *type = init->lhs_type;
                int bit = 0, width = type->size * 8;
                if(type->kind == AST_bitfield_type){ bit = ((struct ast_bitfield_type *)type)->bit_index; width = ((struct ast_bitfield_type *)type)->width; }
                long long v = -1;
                int kind = value ? value->kind == IR_integer_literal ? 1 : value->kind == IR_float_literal ? 2 : value->kind == IR_string_literal ? 3 : value->kind == IR_identifier ? 4 : 5 : 0;
                if(kind == 1) v = ((struct ir_integer_literal *)value)->_u8;
                if(kind == 2) v = (((struct ir_float_literal *)value)->type == &globals.typedef_f32) ? (int)((struct ir_float_literal *)value)->_f32 : (int)((struct ir_float_literal *)value)->_f64;
                if(kind == 3) v = ((struct ir_string_literal *)value)->value.size;
                if(kind == 4) v = ((struct ir_identifier *)value)->decl->identifier->line;
                if(kind == 5 && value->kind == IR_pointer_literal){ kind = 1; v = (u8)(u64)((struct ir_pointer_literal *)value)->pointer; }
                if(kind == 3 && type->kind != AST_array_type) kind = 5;
                if(kind == 3) width = 0;
                __sa_obs("init", init->offset * 8 + bit, width, kind, v);
                value = null;
                at = (struct ir *)(init + 1);
            }break;
            default: __sa_obs("node", at->kind); at = (struct ir *)(at + 1); break;
        }
    }
}
// 'prefix' tokens define typedef T; mode 0: the list of assignments, 1: the bytes of a static object
void h_initialize(int mode, int prefix, int n, int pack){
    h_init_types();
    struct context *context = h_context();
    context->pragma_alignment = pack;
    globals.invalid_identifier_token = &h_invalid_identifier;
    globals.keyword_align  = h_atom(200);
    globals.keyword_packed = h_atom(201);
    for(int i = 0; i < 64; i++) h_text[i] = 'A' + i;
    for(int i = 0; i < n; i++){
        h_tokens[i].type = h_in[i] & 0xffff;
        h_tokens[i].line = h_in[i] >> 16;
        if(h_in[i] >> 16) h_tokens[i].atom = h_atom((h_in[i] >> 16) & 255);
    }
    context->tokens.data = h_tokens;
    context->tokens.amount = n;
    if(prefix){ h_typedefs[0].type = parse_declaration_specifiers(context, null, null).type_specifier; next_token(context); }
    struct declaration_specifiers specifiers = parse_declaration_specifiers(context, null, null);
    struct declarator_return declarator = parse_declarator(context, specifiers.type_specifier, specifiers.defined_type_specifier, DECLARATOR_identifier);
    static struct ast_declaration decl;
    decl.kind = IR_declaration; decl.identifier = declarator.ident; decl.type = declarator.type; decl.compilation_unit = context->current_compilation_unit;
    decl.flags = mode ? DECLARATION_FLAGS_is_local_persist : 0;
    struct token *equals = next_token(context);
    if(equals->type != TOKEN_equals) __sa_end("no =");
    parse_initializer(context, &decl, equals);
    if(context->should_exit_statement || context->should_sleep) __sa_end("error");
    __sa_obs("read", context->token_at);
    __sa_obs("size", get_declaration_size(&decl), decl.type->kind == AST_array_type ? ((struct ast_array_type *)decl.type)->amount_of_elements : 0);
    if(mode == 0) h_walk(decl.assign_expr);
    else{
        u8 *data = evaluate_static_initializer(context, &decl);
        smm size = get_declaration_size(&decl);
        if(size > 512) __sa_end("too big");
        for(smm i = 0; i < size; i++) __sa_obs("byte", i, data[i]);
    }
    __sa_facts("facts");
}
