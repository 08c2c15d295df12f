// Front-end harness: analyses the repository's expression parser on operator/operand templates.
#include SRC_MAIN
#include "sa.h"

static void h_type(struct ast_type *t, int kind, int size, int alignment){ t->kind = kind; t->size = size; t->alignment = alignment; }
static void h_init_types(void){
    h_type(&globals.typedef_void, AST_void_type, 0, 1);
    h_type(&globals.typedef_Bool, AST_integer_type, 1, 1);
    h_type(&globals.typedef_s8,  AST_integer_type, 1, 1); h_type(&globals.typedef_u8,  AST_integer_type, 1, 1);
    h_type(&globals.typedef_s16, AST_integer_type, 2, 2); h_type(&globals.typedef_u16, AST_integer_type, 2, 2);
    h_type(&globals.typedef_s32, AST_integer_type, 4, 4); h_type(&globals.typedef_u32, AST_integer_type, 4, 4);
    h_type(&globals.typedef_s64, AST_integer_type, 8, 8); h_type(&globals.typedef_u64, AST_integer_type, 8, 8);
    h_type(&globals.typedef_f32, AST_float_type, 4, 4); h_type(&globals.typedef_f64, AST_float_type, 8, 8);
    struct ast_type *a = &globals.typedef_atomic_bool;
    static int sizes[] = {1,1,1,2,2,4,4,8,8};
    for(int i = 0; i < 9; i++){ h_type(&a[i], AST_atomic_integer_type, sizes[i], sizes[i]); a[i].flags |= TYPE_FLAG_is_atomic; }
    struct ast_pointer_type *p = &globals.typedef_void_pointer;
    for(int i = 0; i < 12; i++){ h_type(&p[i].base, AST_pointer_type, 8, 8); p[i].pointer_to = &globals.typedef_void + i; }
}

static void h_arena(struct memory_arena *arena, int size){
    u8 *base = __sa_alloc(size);
    memset(base, 0, size);
    arena->base = arena->current = base;
    arena->end_of_committed_memory = base + size;
    arena->reserved = size;
#if defined(_Debug)
    arena->committed_size = size;
#endif
}

static struct context *h_context(void){
    struct context *context = __sa_alloc(sizeof(struct context));
    memset(context, 0, sizeof(*context));
    static struct memory_arena permanent;
    h_arena(&permanent, 0x10000);
    context->arena = &permanent;
    h_arena(&context->scratch, 0x10000);
    h_arena(&context->ir_arena, 0x10000);
    context->jump_label_index = 1;
    static struct ast_function function; static struct ast_scope scope;
    context->current_function = &function;
    context->current_scope = &scope;
    return context;
}

// An operand of the expression that is analysed.
//    kind: 0 integer literal, 1 float literal, 2 variable, 3 pointer literal, 4 bitfield variable,
//          5 integer literal of a known value (value), 6 parameter-like variable holding a pointer to 'type'
static struct h_operand{ int kind, type; long long value; } h_operands[8];
static int h_operand_at;
static struct ast_declaration h_declarations[8];
static struct ast_bitfield_type h_bitfields[8];
static struct ast_pointer_type h_pointers[8];
static struct ast_array_type h_arrays[8];
static struct token h_tokens[64];

static struct ast_type *h_type_at(int index){ return &globals.typedef_void + index; }

static struct ast_type *h_operand_type(int i){
    struct h_operand *op = &h_operands[i];
    if(op->kind == 4){
        struct ast_bitfield_type *bf = &h_bitfields[i];
        bf->base = *h_type_at(op->type);
        bf->base.kind = AST_bitfield_type;
        bf->base_type = h_type_at(op->type);
        bf->bit_index = op->value >> 8;
        bf->width = op->value & 0xff;
        return &bf->base;
    }
    if(op->kind == 6 || op->kind == 3){
        return &((&globals.typedef_void_pointer) + op->type)->base;
    }
    if(op->kind == 8){ // pointer to an object of 'value' bytes
        struct ast_pointer_type *p = (&globals.typedef_void_pointer) + 11;
        static struct ast_array_type pointee;
        h_type(&pointee.base, AST_array_type, op->value, 1);
        pointee.element_type = &globals.typedef_u8; pointee.amount_of_elements = op->value;
        h_type(&p->base, AST_pointer_type, 8, 8);
        p->pointer_to = &pointee.base;
        return &p->base;
    }
    return h_type_at(op->type);
}

struct expr __sa_stub__operand(struct context *context, b32 should_skip_comma_expression){
    static char *names[] = {"a", "b", "c", "d", "e", "f", "g", "h"};
    int i = h_operand_at++;
    struct h_operand *op = &h_operands[i];
    struct expr expr = zero_struct;
    struct ast_type *type = h_operand_type(i);
    expr.token = &h_tokens[0];
    expr.resolved_type = type;
    context->in_lhs_expression = false;
    if(op->kind == 0 || op->kind == 5 || op->kind == 3){
        struct ir_integer_literal *lit = push_uninitialized_struct(&context->ir_arena, struct ir_integer_literal);
        lit->base.kind = (op->kind == 3) ? IR_pointer_literal : IR_integer_literal;
        lit->type = type;
        lit->_u64 = (op->kind == 5) ? op->value : __sa_sym(names[i], 64);
        expr.ir = &lit->base;
    }else if(op->kind == 1){
        struct ir_float_literal *lit = push_uninitialized_struct(&context->ir_arena, struct ir_float_literal);
        lit->base.kind = IR_float_literal;
        lit->type = type;
        *(u64 *)&lit->_f64 = __sa_sym(names[i], 64);
        expr.ir = &lit->base;
    }else{
        h_declarations[i].kind = IR_declaration;
        h_declarations[i].type = type;
        h_declarations[i].identifier = &h_tokens[0];
        struct ir_identifier *ident = push_uninitialized_struct(&context->ir_arena, struct ir_identifier);
        ident->base.kind = IR_identifier;
        ident->decl = &h_declarations[i];
        expr.ir = &ident->base;
        context->in_lhs_expression = true;
        if(op->kind == 7) context->in_lhs_expression = false;
    }
    __sa_obs("operand", i);
    return expr;
}

static struct ast_type *h_cast_type; static int h_cast_pending;
struct type_info_return __sa_stub__cast_type(struct context *context){
    struct type_info_return ret = zero_struct;
    if(h_cast_pending){ h_cast_pending = 0; ret.type = h_cast_type; }
    return ret;
}
b32 __sa_stub__no_exhaustion(struct context *context, char *error){ return false; }
static struct ast_declaration h_temps[4]; static int h_temp_at;
struct ast_declaration *__sa_stub__temporary(struct context *context, struct ast_type *type, enum ast_kind *defined_type, struct token *token){
    struct ast_declaration *decl = &h_temps[h_temp_at++];
    decl->kind = IR_declaration; decl->type = type;
    return decl;
}

static int h_type_index(struct ast_type *type){
    if(!type) return -1;
    for(int i = 0; i < 25; i++) if(type == &globals.typedef_void + i) return i;
    for(int i = 0; i < 12; i++) if(type == &((&globals.typedef_void_pointer) + i)->base) return 100 + i;
    for(int i = 0; i < 8; i++) if(type == &h_bitfields[i].base) return 200 + i;
    for(int i = 0; i < 8; i++) if(type == &h_pointers[i].base) return 300 + i;
    if(type->kind == AST_pointer_type) return 400 + h_type_index(((struct ast_pointer_type *)type)->pointer_to);
    return -2;
}
static int h_decl_index(struct ast_declaration *decl){
    for(int i = 0; i < 8; i++) if(decl == &h_declarations[i]) return i;
    for(int i = 0; i < 4; i++) if(decl == &h_temps[i]) return 100 + i;
    return -1;
}

// Reports the intermediate representation in the arena: (index, kind, operands...).
static void h_report_ir(struct context *context, struct expr *result){
    u8 *at = context->ir_arena.base; int index = 0;
    while(at != context->ir_arena.current){
        struct ir *ir = (struct ir *)at;
        smm offset = at - context->ir_arena.base;
        switch(ir->kind){
            case IR_identifier:{
                struct ir_identifier *ident = (struct ir_identifier *)ir;
                __sa_obs("ir", offset, ir->kind, h_decl_index(ident->decl));
                at += sizeof(*ident);
            }break;
            case IR_integer_literal: case IR_pointer_literal: case IR_float_literal: case IR_pointer_literal_deref:{
                struct ir_integer_literal *lit = (struct ir_integer_literal *)ir;
                __sa_obs("ir", offset, ir->kind, h_type_index(lit->type), lit->_u64);
                at += sizeof(*lit);
            }break;
            case IR_load_bitfield: case IR_load_bitfield_lhs: case IR_store_bitfield:
            case IR_postinc_bitfield: case IR_postdec_bitfield: case IR_preinc_bitfield: case IR_predec_bitfield:
            case IR_postinc_pointer: case IR_postdec_pointer: case IR_preinc_pointer: case IR_predec_pointer:
            case IR_deref: case IR_pointer_subscript: case IR_array_subscript:{
                struct ir_deref *node = (struct ir_deref *)ir;
                __sa_obs("ir", offset, ir->kind, h_type_index(node->type));
                at += sizeof(*node);
            }break;
            case IR_jump: case IR_jump_label: case IR_jump_if_true: case IR_jump_if_false:{
                struct ir_jump_node *jump = (struct ir_jump_node *)ir;
                __sa_obs("ir", offset, ir->kind, jump->label_number);
                at += sizeof(*jump);
            }break;
            default:{
                __sa_obs("ir", offset, ir->kind);
                at += sizeof(*ir);
            }break;
        }
        if(++index > 64) break;
    }
    __sa_obs("result", (u8 *)result->ir - context->ir_arena.base, h_type_index(result->resolved_type), context->ir_arena.current - context->ir_arena.base, context->in_lhs_expression);
    for(int i = 0; i < h_temp_at; i++) __sa_obs("temporary", i, h_type_index(h_temps[i].type));
    __sa_facts("facts");
}

// form: 0 'op x', 1 'x op y', 2 'x op', 3 'x ? y : z', 4 '(type)x', 5 'x op y op2 z', 6 'op x op2 y' 7 'x op op2 y' (op2 prefix)
void h_expression(int form, int op, int op2, int k0, int t0, long long v0, int k1, int t1, long long v1, int k2, int t2, long long v2, int k3, int t3, long long v3){
    h_init_types();
    h_operands[0].kind = k0; h_operands[0].type = t0; h_operands[0].value = v0;
    h_operands[1].kind = k1; h_operands[1].type = t1; h_operands[1].value = v1;
    h_operands[2].kind = k2; h_operands[2].type = t2; h_operands[2].value = v2;
    h_operands[3].kind = k3; h_operands[3].type = t3; h_operands[3].value = v3;
    struct context *context = h_context();
    int n = 1;
#define T(x) h_tokens[n++].type = (x)
#define OPERAND T(TOKEN_open_paren); T(TOKEN_closed_paren)
    switch(form){
        case 0: T(op); OPERAND; break;
        case 1: OPERAND; T(op); OPERAND; break;
        case 2: OPERAND; T(op); break;
        case 3: OPERAND; T(TOKEN_question_mark); T(TOKEN_colon); OPERAND; break;
        case 4: T(TOKEN_open_paren); T(TOKEN_closed_paren); OPERAND; h_cast_pending = 1; h_cast_type = (op >= 100) ? &((&globals.typedef_void_pointer) + (op - 100))->base : h_type_at(op); break;
        case 5: OPERAND; T(op); OPERAND; T(op2); OPERAND; break;
        case 6: T(op); OPERAND; T(op2); OPERAND; break;
        case 7: OPERAND; T(op); T(op2); OPERAND; break;
        case 8: OPERAND; T(op); OPERAND; T(TOKEN_question_mark); T(TOKEN_colon); OPERAND; break; // x op y ? . : z
    }
    T(TOKEN_semicolon);
    context->tokens.data = h_tokens + 1;
    context->tokens.amount = n - 1;
    struct expr result = parse_expression(context, false);
    if(context->should_exit_statement) __sa_end("error");
    __sa_obs("tokens_left", n - 1 - context->token_at);
    h_report_ir(context, &result);
}
