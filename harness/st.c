// Statement harness: analyses how function bodies become jumps, labels and references to declarations.
#include "ty.c"

static int h_hash = 255;
static struct atom h_name(int i){
    struct atom atom = zero_struct;
    h_names[i] = i;
    atom.string_hash = 1 + (i & h_hash); atom.data = &h_names[i]; atom.size = 1;
    return atom;
}
static struct ast_declaration h_globals[8];      // 'a' to 'h' are global objects of type int
static struct token h_global_tokens[8];
u64 *__sa_stub__table_get(struct ast_table *table, struct atom ident){
    if(table == &globals.global_declarations){
        int i = ident.data[0] - 'a';
        if(i >= 0 && i < 8) return (u64 *)&h_globals[i];
    }
    return null;
}
enum identifier_is_static_result __sa_stub__not_static(struct compilation_unit *unit, struct atom atom){ return IDENTIFIER_is_not_defined_locally; }
b32 __sa_stub__quiet(struct context *context, struct token *token){ return false; }
void __sa_stub__line(struct context *context, struct token *token){}
void __sa_stub__asm(struct context *context, struct ir_asm_block *block){ __sa_end("asm"); }

static struct ast_type *h_operand_types[] = {&globals.typedef_s8, &globals.typedef_u8, &globals.typedef_s16, &globals.typedef_u16, &globals.typedef_s32, &globals.typedef_u32, &globals.typedef_s64, &globals.typedef_u64, &globals.typedef_f64};
static struct ast_declaration h_operands[9];
// an expression is one name, one literal (base10, the value), one operand of a given type (character literal), or names joined by commas
struct expr __sa_stub__operand(struct context *context, int skip_comma){
    struct expr expr = zero_struct;
    struct token *token = next_token(context);
    expr.token = token; expr.resolved_type = &globals.typedef_s32;
    switch(token->type){
        case TOKEN_base10_literal:{
            struct ir_integer_literal *lit = push_uninitialized_struct(&context->ir_arena, struct ir_integer_literal);
            lit->base.kind = IR_integer_literal; lit->type = &globals.typedef_s32; lit->_s64 = h_lo[token->line];
            expr.ir = &lit->base;
        }break;
        case TOKEN_character_literal: case TOKEN_identifier:{
            struct ast_declaration *decl;
            if(token->type == TOKEN_identifier){
                decl = lookup_declaration(context->current_scope, context->current_compilation_unit, token->atom);
                if(!decl) report_error(context, token, "undeclared");
            }else{
                decl = &h_operands[token->line];
                decl->kind = IR_declaration; decl->identifier = token; decl->type = expr.resolved_type = h_operand_types[token->line]; decl->flags = DECLARATION_FLAGS_is_global;
            }
            struct ir_identifier *identifier = push_uninitialized_struct(&context->ir_arena, struct ir_identifier);
            identifier->base.kind = IR_identifier; identifier->decl = decl;
            expr.ir = &identifier->base;
        }break;
        case TOKEN_string_literal:{
            struct ir_string_literal *lit = push_uninitialized_struct(&context->ir_arena, struct ir_string_literal);
            lit->base.kind = IR_string_literal; lit->value.data = h_text; lit->value.size = 1;
            expr.ir = &lit->base;
        }break;
        default: report_error(context, token, "no expression"); break;
    }
    if(!skip_comma && peek_token_eat(context, TOKEN_comma)) return __sa_stub__operand(context, skip_comma);
    return expr;
}
struct expr __sa_stub__literal(struct context *context, int skip_comma, char *message){
    if(!peek_token(context, TOKEN_base10_literal)) report_error(context, get_current_token(context), "no constant");
    return __sa_stub__constant(context, skip_comma, message);
}
static smm h_where(struct ast_declaration *decl){
    struct token *token = decl->identifier;
    for(int i = 0; i < 8; i++) if(decl == &h_globals[i]) return 1000 + i;
    for(int i = 0; i < 9; i++) if(decl == &h_operands[i]) return 2000 + i;
    return token - h_tokens;
}
// at: where in the code the observation is; the reader of the observations follows the jumps
static void h_code(u8 *begin, u8 *end){
    for(u8 *p = begin; p < end;){
        struct ir *at = (struct ir *)p;
        int o = (int)(p - begin);
        switch(at->kind){
            case IR_integer_literal:{ struct ir_integer_literal *lit = (struct ir_integer_literal *)at; __sa_obs("literal", o, lit->_s64); p += sizeof(*lit); }break;
            case IR_float_literal: __sa_obs("float", o); p += sizeof(struct ir_float_literal); break;
            case IR_pointer_literal: p += sizeof(struct ir_pointer_literal); break;
            case IR_string_literal: p += sizeof(struct ir_string_literal); break;
            case IR_identifier:{
                struct ast_declaration *decl = ((struct ir_identifier *)at)->decl;
                int automatic = decl->kind == IR_declaration && !(decl->flags & (DECLARATION_FLAGS_is_global | DECLARATION_FLAGS_is_local_persist | DECLARATION_FLAGS_is_enum_member));
                __sa_obs("name", o, h_where(decl), decl->type->size, decl->type->alignment, automatic ? decl->offset_on_stack : 0);
                p += sizeof(struct ir_identifier);
            }break;
            case IR_initializer: __sa_obs("init", o); p += sizeof(struct ir_initializer); break;
            case IR_skip: __sa_obs("skip", o); p += ((struct ir_skip *)at)->size_to_skip; break;
            case IR_pop_expression: __sa_obs("pop", o); p += sizeof(struct ir); break;
            case IR_return: __sa_obs("return", o); p += sizeof(struct ir); break;
            case IR_jump:          __sa_obs("jump", o, ((struct ir_jump_node *)at)->label_number); p += sizeof(struct ir_jump_node); break;
            case IR_jump_label:    __sa_obs("label", o, ((struct ir_jump_node *)at)->label_number); p += sizeof(struct ir_jump_node); break;
            case IR_jump_if_true:  __sa_obs("true", o, ((struct ir_jump_node *)at)->label_number); p += sizeof(struct ir_jump_node); break;
            case IR_jump_if_false: __sa_obs("false", o, ((struct ir_jump_node *)at)->label_number); p += sizeof(struct ir_jump_node); break;
            case IR_switch:{
                struct ir_switch *s = (struct ir_switch *)at;
                __sa_obs("switch", o, s->default_jump_label->label_number);
                for(struct ir_case *c = s->case_list.first; c; c = c->next) __sa_obs("arm", o, (u8 *)c - begin, c->value);
                p += sizeof(*s);
            }break;
            case IR_case: __sa_obs("case", o); p += sizeof(struct ir_case); break;
            case IR_start_exception_block: __sa_obs("try", o); p += sizeof(struct ir_exception_marker); break;
            case IR_end_exception_block: __sa_obs("end try", o); p += sizeof(struct ir_exception_marker); break;
            default: __sa_obs("other", o, at->kind); p += sizeof(struct ir); break;   // casts
        }
    }
    __sa_obs("end", end - begin);
}
// tokens: p q { body }; kind: the function returns int (0), is main (1), returns void (2)
void h_function(int n, int kind, int hash){
    h_init_types();
    struct context *context = h_context();
    h_hash = hash;
    globals.invalid_identifier_token = &h_invalid_identifier;
    globals.keyword_main = h_name(250);
    globals.compile_stage = COMPILE_STAGE_parse_function;
    memset(warning_enabled, 0, sizeof(warning_enabled));
    context->pragma_alignment = 16;
    context->current_break_label = context->current_continue_label = -1;
    for(int i = 0; i < 8; i++){
        h_global_tokens[i].atom = h_name('a' + i);
        h_globals[i].kind = IR_declaration; h_globals[i].identifier = &h_global_tokens[i]; h_globals[i].type = &globals.typedef_s32; h_globals[i].flags = DECLARATION_FLAGS_is_global;
    }
    for(int i = 0; i < n; i++){
        h_tokens[i].type = h_in[i] & 0xffff;
        h_tokens[i].line = h_in[i] >> 16;
        if(h_in[i] >> 16) h_tokens[i].atom = h_name((h_in[i] >> 16) & 255);
    }
    h_tokens[3].file_index = 1;      // the lines of the tokens are not lines here
    // int function(int p, int q)
    static struct ast_function_type type; static struct ast_declaration p, q; static struct token names[3]; static struct ast_list_node nodes[2];
    struct ast_function *function = __sa_alloc(sizeof(*function)); memset(function, 0, sizeof(*function));
    struct ast_scope *scope = __sa_alloc(sizeof(*scope)); memset(scope, 0, sizeof(*scope));
    type.base.kind = AST_function_type; type.return_type = (kind == 2) ? &globals.typedef_void : &globals.typedef_s32;
    names[0].atom = h_name('p'); names[1].atom = h_name('q'); names[2].atom = h_name(kind == 1 ? 250 : 251);
    p.kind = q.kind = IR_declaration; p.type = q.type = &globals.typedef_s32; p.identifier = &h_tokens[0]; q.identifier = &h_tokens[1];
    nodes[0].value = &p.kind; nodes[0].next = &nodes[1]; nodes[1].value = &q.kind;
    type.argument_list.first = &nodes[0]; type.argument_list.last = &nodes[1]; type.argument_list.count = 2;
    function->kind = IR_function; function->type = &type; function->identifier = &names[2]; function->scope = scope; function->compilation_unit = context->current_compilation_unit;
    scope->flags = SCOPE_FLAG_is_function_scope; scope->token = &h_tokens[2];
    context->current_scope = null;
    struct parse_work *parse_work = __sa_alloc(sizeof(*parse_work)); memset(parse_work, 0, sizeof(*parse_work));
    parse_work->tokens.data = h_tokens + 3; parse_work->tokens.amount = n - 3; parse_work->compilation_unit = context->current_compilation_unit; parse_work->function = function;
    struct work_queue_entry *work = __sa_alloc(sizeof(*work)); memset(work, 0, sizeof(*work));
    work->data = parse_work;
    worker_parse_function(context, work);
    if(context->should_exit_statement || context->should_sleep || context->error) __sa_end("error");
    __sa_obs("read", context->token_at);
    __sa_obs("stack", function->stack_space_needed);
    h_code(function->start_in_ir_arena, function->end_in_ir_arena);
    __sa_facts("facts");
}
