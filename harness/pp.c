// Preprocessor harness: analyses the evaluation of #if expressions and the interpretation of literals.
#include SRC_MAIN
#include "sa.h"

static void h_arena(struct memory_arena *arena, int size){
    u8 *base = __sa_alloc(size);
    memset(base, 0, size);
    arena->base = arena->current = base;
    arena->end_of_committed_memory = base + size;
    arena->reserved = size;
#if defined(_Debug)
    arena->committed_size = size;
#endif
}
static struct context *h_context(void){
    struct context *context = __sa_alloc(sizeof(struct context));
    memset(context, 0, sizeof(*context));
    static struct memory_arena permanent;
    h_arena(&permanent, 0x10000);
    context->arena = &permanent;
    h_arena(&context->scratch, 0x10000);
    h_arena(&context->ir_arena, 0x10000);
    static struct ast_function function; static struct ast_scope scope;
    context->current_function = &function;
    context->current_scope = &scope;
    return context;
}

static struct token h_tokens[64];
static int h_token_at, h_token_count;
static struct { int kind, range; long long lo; } h_literals[16];
static int h_literal_at;
static u64 h_values[16];

struct token *__sa_stub__next(struct context *context){
    if(h_token_at < h_token_count) return &h_tokens[h_token_at++];
    return &globals.invalid_token;
}
struct token *__sa_stub__current(struct context *context){ return &h_tokens[h_token_at]; }

struct parsed_integer __sa_stub__literal(struct context *context, struct token *token){
    struct parsed_integer ret = zero_struct;
    ret.value = h_values[token->column];
    ret.number_kind = (enum number_kind)token->line;
    return ret;
}

// n tokens; each is  type | number_kind << 16 | class << 32,  class: 0 below 2^63, 1 at least 2^63, 2 any, 3 a byte, 4 16 bits, 5 32 bits
void h_static_if(int n, long long a, long long b, long long c, long long d, long long e, long long f, long long g, long long h, long long i, long long j, long long k, long long l, long long m, long long o, long long p){
    long long in[] = {a, b, c, d, e, f, g, h, i, j, k, l, m, o, p};
    struct context *context = h_context();
    static char *names[] = {"a", "b", "c", "d", "e", "f", "g", "h"};
    int values = 0;
    for(int x = 0; x < n; x++){
        struct token *token = &h_tokens[h_token_count++];
        token->type = in[x] & 0xffff;
        token->line = (in[x] >> 16) & 0xffff;
        int class = (int)(in[x] >> 32);
        if(class == 0) continue;
        token->column = values;
        u64 value = 0;
        if(class == 1) value = __sa_range(names[values], 64, 0, 0x7fffffffffffffff);
        if(class == 2) value = __sa_range(names[values], 64, 0x8000000000000000, 0xffffffffffffffff);
        if(class == 3) value = __sa_sym(names[values], 64);
        if(class == 4) value = __sa_range(names[values], 64, 0, 0xff);
        if(class == 5) value = __sa_range(names[values], 64, 0, 0xffff);
        if(class == 6) value = __sa_range(names[values], 64, 0, 0xffffffff);
        h_values[values++] = value;
    }
    u64 value = static_if_evaluate(context);
    __sa_obs("value", value);
    __sa_obs("read", h_token_at, context->static_if_stack_at);
    __sa_facts("facts");
}

// ------------------------------------------------------------------------------------------------ literals
// The characters of a token: a byte, or  lo | hi << 8 | 1 << 16  for an arbitrary byte within [lo, hi].
static int h_chars[96];
static u8 h_text[96];
static void h_fill(int size){
    static char *names[] = {
        "c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c21", "c22", "c23", "c24", "c25", "c26", "c27", "c28", "c29", "c30", "c31",
        "c32", "c33", "c34", "c35", "c36", "c37", "c38", "c39", "c40", "c41", "c42", "c43", "c44", "c45", "c46", "c47", "c48", "c49", "c50", "c51", "c52", "c53", "c54", "c55", "c56", "c57", "c58", "c59", "c60", "c61", "c62", "c63",
        "c64", "c65", "c66", "c67", "c68", "c69", "c70", "c71", "c72", "c73", "c74", "c75", "c76", "c77", "c78", "c79", "c80", "c81", "c82", "c83", "c84", "c85", "c86", "c87", "c88", "c89", "c90", "c91", "c92", "c93", "c94", "c95",
    };
    for(int i = 0; i < size; i++){
        int c = h_chars[i];
        h_text[i] = (c >> 16) ? (u8)__sa_range(names[i], 8, c & 0xff, (c >> 8) & 0xff) : (u8)c;
    }
}
static void h_token(struct token *token, int type, int from, int size){
    token->type = type;
    token->data = h_text + from;
    token->size = size;
}

// The spelling of one number.
void h_number(int type, int size){
    struct context *context = h_context();
    h_fill(size);
    struct token *token = &h_tokens[0];
    h_token(token, type, 0, size);
    struct parsed_integer parsed = zero_struct;
    switch(type){
        case TOKEN_base10_literal: parsed = parse_base10_literal(context, token); break;
        case TOKEN_hex_literal:    parsed = parse_hex_literal(context, token); break;
        case TOKEN_octal_literal:  parsed = parse_octal_literal(context, token); break;
        case TOKEN_binary_literal: parsed = parse_binary_literal(context, token); break;
    }
    __sa_obs("value", parsed.value, parsed.number_kind);
    __sa_facts("facts");
}

static int h_type_index(struct ast_type *type){
    if(!type) return -1;
    for(int i = 0; i < 25; i++) if(type == &globals.typedef_void + i) return i;
    return -2;
}
static void h_type(struct ast_type *t, int kind, int size, int alignment){ t->kind = kind; t->size = size; t->alignment = alignment; }
static void h_init_types(void){
    h_type(&globals.typedef_void, AST_void_type, 0, 1);
    h_type(&globals.typedef_Bool, AST_integer_type, 1, 1);
    h_type(&globals.typedef_s8,  AST_integer_type, 1, 1); h_type(&globals.typedef_u8,  AST_integer_type, 1, 1);
    h_type(&globals.typedef_s16, AST_integer_type, 2, 2); h_type(&globals.typedef_u16, AST_integer_type, 2, 2);
    h_type(&globals.typedef_s32, AST_integer_type, 4, 4); h_type(&globals.typedef_u32, AST_integer_type, 4, 4);
    h_type(&globals.typedef_s64, AST_integer_type, 8, 8); h_type(&globals.typedef_u64, AST_integer_type, 8, 8);
    h_type(&globals.typedef_f32, AST_float_type, 4, 4); h_type(&globals.typedef_f64, AST_float_type, 8, 8);
}
b32 __sa_stub__no_exhaustion(struct context *context, char *error){ return false; }

static void h_parse(struct context *context, int n){
    h_tokens[n].type = TOKEN_semicolon;
    context->tokens.data = h_tokens;
    context->tokens.amount = n + 1;
    struct expr result = parse_expression(context, false);
    if(context->should_exit_statement) __sa_end("error");
    __sa_obs("read", context->token_at);
    struct ir *ir = result.ir;
    if(ir->kind == IR_integer_literal){
        struct ir_integer_literal *lit = (struct ir_integer_literal *)ir;
        __sa_obs("integer", h_type_index(result.resolved_type), h_type_index(lit->type), lit->_u64);
    }else if(ir->kind == IR_float_literal){
        struct ir_float_literal *lit = (struct ir_float_literal *)ir;
        __sa_obs("float", h_type_index(result.resolved_type), h_type_index(lit->type), *(u64 *)&lit->_f64);
    }else if(ir->kind == IR_string_literal){
        struct ir_string_literal *lit = (struct ir_string_literal *)ir;
        struct ast_type *type = result.resolved_type;
        struct ast_array_type *array = (struct ast_array_type *)type;
        __sa_obs("string", type->kind == AST_array_type, h_type_index(array->element_type), array->amount_of_elements, type->size, type->alignment, lit->value.size);
        for(smm i = 0; i < lit->value.size; i++) __sa_obs("byte", i, (u8)lit->value.data[i]);
    }else{
        __sa_obs("other", ir->kind);
    }
    __sa_facts("facts");
}

// An integer constant whose value and suffix are given: its type.
void h_constant(int type, int kind, u64 lo, u64 hi){
    h_init_types();
    struct context *context = h_context();
    h_token(&h_tokens[0], type, 0, 3);
    h_text[0] = '1'; h_text[1] = '2'; h_text[2] = '3';
    h_tokens[0].line = kind;
    h_tokens[0].column = 0;
    h_values[0] = __sa_range("a", 64, lo, hi);
    h_parse(context, 1);
}

// Spelled tokens: n triples of token type and size.
void h_spelled(int n, int t0, int s0, int t1, int s1, int t2, int s2){
    h_init_types();
    struct context *context = h_context();
    int t[] = {t0, t1, t2}, s[] = {s0, s1, s2};
    h_fill(s0 + s1 + s2);
    int at = 0;
    for(int i = 0; i < n; i++){ h_token(&h_tokens[i], t[i], at, s[i]); at += s[i]; }
    h_parse(context, n);
}

// The value of a character constant in a #if.
void h_if_character(int size){
    struct context *context = h_context();
    h_fill(size);
    h_token(&h_tokens[0], TOKEN_character_literal, 0, size);
    h_token_count = 1;
    u64 value = static_if_evaluate(context);
    __sa_obs("value", value);
    __sa_facts("facts");
}
