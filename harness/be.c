// Back-end harness: analyses the repository's code generator on sequences of intermediate operations.
#include SRC_MAIN
#include "sa.h"
typedef long long h_int;

// The template, filled in by the analysis ("init").
h_int h_seq[4 * 256];       // {ir kind, a, b, c} ... kind 0 ends the sequence
h_int h_decls[4 * 16];      // {storage, type, offset on stack, extra}   storage: 0 local, 1 parameter, 2 global, 3 dllimport, 4 thread local, 5 function, 6 dllimport function
h_int h_bfs[4 * 8];         // {type, bit, width, 0}
h_int h_structs[4 * 8];     // {size, alignment, kind: 0 struct 1 array, element size}
h_int h_fns[16 * 8];        // {return type, amount of arguments, flags, argument types...}; 0 is the function that is compiled
h_int h_members[4 * 8];     // {type, offset, 0, 0}
h_int h_config[8];          // {stack space of the locals, amount of labels}
h_int h_cases[4 * 16];      // {value, 0, 0, 0}: the case labels of the switch

static void h_type(struct ast_type *t, int kind, int size, int alignment){ t->kind = kind; t->size = size; t->alignment = alignment; }
static void h_init_types(void){
    h_type(&globals.typedef_void, AST_void_type, 0, 1);
    h_type(&globals.typedef_Bool, AST_integer_type, 1, 1);
    h_type(&globals.typedef_s8,  AST_integer_type, 1, 1); h_type(&globals.typedef_u8,  AST_integer_type, 1, 1);
    h_type(&globals.typedef_s16, AST_integer_type, 2, 2); h_type(&globals.typedef_u16, AST_integer_type, 2, 2);
    h_type(&globals.typedef_s32, AST_integer_type, 4, 4); h_type(&globals.typedef_u32, AST_integer_type, 4, 4);
    h_type(&globals.typedef_s64, AST_integer_type, 8, 8); h_type(&globals.typedef_u64, AST_integer_type, 8, 8);
    h_type(&globals.typedef_f32, AST_float_type, 4, 4); h_type(&globals.typedef_f64, AST_float_type, 8, 8);
    struct ast_type *a = &globals.typedef_atomic_bool;
    static int sizes[] = {1,1,1,2,2,4,4,8,8};
    for(int i = 0; i < 9; i++){ h_type(&a[i], AST_atomic_integer_type, sizes[i], sizes[i]); a[i].flags |= TYPE_FLAG_is_atomic; }
    struct ast_pointer_type *p = &globals.typedef_void_pointer;
    for(int i = 0; i < 12; i++){ h_type(&p[i].base, AST_pointer_type, 8, 8); p[i].pointer_to = &globals.typedef_void + i; }
}
static void h_arena(struct memory_arena *arena, int size){
    u8 *base = __sa_alloc(size);
    memset(base, 0, size);
    arena->base = arena->current = base;
    arena->end_of_committed_memory = base + size;
    arena->reserved = size;
#if defined(_Debug)
    arena->committed_size = size;
#endif
}
static struct ast_bitfield_type h_bitfields[8];
static struct ast_array_type h_struct_types[8];
static struct ast_pointer_type h_struct_pointers[8];
static struct ast_type *h_type_at(h_int index){
    if(index < 100) return &globals.typedef_void + index;
    if(index < 112) return &((&globals.typedef_void_pointer) + (index - 100))->base;
    if(index < 300) return &h_bitfields[index - 200].base;
    if(index < 400) return &h_struct_types[index - 300].base;
    return &h_struct_pointers[index - 400].base;
}

static struct ast_declaration h_declarations[16];
static struct ast_function h_functions[16];
static struct ast_function_type h_function_types[8];
static struct ast_declaration h_arguments[8][12];
static struct ast_list_node h_nodes[8][12];
static struct compound_member h_compound_members[8];
static struct ast_declaration h_tls_index;
static struct ast_scope h_scope;

static struct h_patch{ int kind; struct ir *source; smm source_offset, dest_offset, rip_at; struct ast_declaration *dest; } h_patches[64];
static int h_amount_of_patches;
static struct ir_switch *h_switch;
void __sa_stub__patch(struct context *context, enum patch_kind kind, struct ir *source, smm source_offset, struct ast_declaration *dest, smm dest_offset, smm rip_at){
    struct h_patch *p = &h_patches[h_amount_of_patches++];
    p->kind = kind; p->source = source; p->source_offset = source_offset; p->dest = dest; p->dest_offset = dest_offset; p->rip_at = rip_at;
}

void h_emit(void){
    h_init_types();
    for(int i = 0; i < 8; i++){
        if(h_bfs[4*i]){
            struct ast_bitfield_type *bf = &h_bitfields[i];
            bf->base = *h_type_at(h_bfs[4*i]); bf->base.kind = AST_bitfield_type;
            bf->base_type = h_type_at(h_bfs[4*i]); bf->bit_index = h_bfs[4*i+1]; bf->width = h_bfs[4*i+2];
        }
        if(h_structs[4*i]){
            struct ast_array_type *t = &h_struct_types[i];
            h_type(&t->base, h_structs[4*i+2] ? AST_array_type : AST_struct, h_structs[4*i], h_structs[4*i+1]);
            h_type(&h_struct_pointers[i].base, AST_pointer_type, 8, 8); h_struct_pointers[i].pointer_to = &t->base;
        }
        if(h_members[4*i]){ h_compound_members[i].type = h_type_at(h_members[4*i]); h_compound_members[i].offset_in_type = h_members[4*i+1]; }
    }
    for(int i = 0; i < 8; i++){
        h_int *f = &h_fns[16*i];
        struct ast_function_type *type = &h_function_types[i];
        type->base.kind = AST_function_type; type->base.size = 0; type->base.alignment = 1;
        type->return_type = h_type_at(f[0]); type->flags = f[2];
        type->argument_list.count = f[1];
        for(int j = 0; j < f[1]; j++){
            struct ast_declaration *decl = &h_arguments[i][j];
            if(i == 0) decl = &h_declarations[j]; // the parameters of the function come first
            decl->kind = IR_declaration; decl->type = h_type_at(f[3+j]);
            h_nodes[i][j].value = (enum ast_kind *)decl;
            if(j) h_nodes[i][j-1].next = &h_nodes[i][j]; else type->argument_list.first = &h_nodes[i][j];
            type->argument_list.last = &h_nodes[i][j];
        }
    }
    for(int i = 0; i < 16; i++){
        h_int *d = &h_decls[4*i];
        struct ast_declaration *decl = &h_declarations[i];
        if(d[0] < 0) break;
        if(d[0] >= 5){
            struct ast_function *function = &h_functions[i];
            function->kind = IR_function; function->type = &h_function_types[d[1]];
            function->as_decl.flags |= (d[0] == 6) ? DECLARATION_FLAGS_is_dllimport : DECLARATION_FLAGS_is_global;
            continue;
        }
        decl->kind = IR_declaration; decl->type = h_type_at(d[1]);
        if(d[0] != 1) decl->offset_on_stack = d[2];
        if(d[0] == 2) decl->flags |= DECLARATION_FLAGS_is_global;
        if(d[0] == 3) decl->flags |= DECLARATION_FLAGS_is_global | DECLARATION_FLAGS_is_dllimport;
        if(d[0] == 4) decl->flags |= DECLARATION_FLAGS_is_global | DECLARATION_FLAGS_is_thread_local;
    }
    struct context *context = __sa_alloc(sizeof(struct context));
    memset(context, 0, sizeof(*context));
    static struct memory_arena permanent;
    h_arena(&permanent, 0x10000); context->arena = &permanent;
    h_arena(&context->scratch, 0x10000); h_arena(&context->ir_arena, 0x10000); h_arena(&context->emit_arena, 0x10000);
    h_tls_index.kind = IR_declaration; h_tls_index.type = &globals.typedef_u32; h_tls_index.flags = DECLARATION_FLAGS_is_global;
    globals.tls_index_declaration = &h_tls_index;
    struct ast_function *function = &h_functions[15];
    function->kind = IR_function; function->type = &h_function_types[0]; function->scope = &h_scope;
    h_scope.flags |= SCOPE_FLAG_is_function_scope;
    function->stack_space_needed = h_config[0]; function->amount_of_jump_labels = h_config[1];
    function->start_in_ir_arena = context->ir_arena.current;
    for(int i = 0; h_seq[4*i]; i++){
        h_int *s = &h_seq[4*i];
        struct ir *ir = (struct ir *)context->ir_arena.current;
        smm size = sizeof(struct ir);
        switch(s[0]){
            case IR_identifier:{
                struct ir_identifier *ident = (struct ir_identifier *)ir; size = sizeof(*ident);
                ident->decl = (h_decls[4*s[1]] >= 5) ? &h_functions[s[1]].as_decl : &h_declarations[s[1]];
            }break;
            case IR_compound_literal:{
                struct ir_compound_literal *lit = (struct ir_compound_literal *)ir; size = sizeof(*lit);
                lit->decl = &h_declarations[s[1]];
            }break;
            case IR_integer_literal: case IR_pointer_literal: case IR_float_literal: case IR_pointer_literal_deref:{
                struct ir_integer_literal *lit = (struct ir_integer_literal *)ir; size = sizeof(*lit);
                lit->type = h_type_at(s[1]);
                static char *names[] = {"l0","l1","l2","l3","l4","l5","l6","l7","l8","l9","l10","l11","l12","l13","l14","l15","l16","l17","l18","l19","l20","l21","l22","l23","l24","l25","l26","l27","l28","l29","l30","l31","l32","l33","l34","l35","l36","l37","l38","l39","l40","l41","l42","l43","l44","l45","l46","l47","l48","l49","l50","l51","l52","l53","l54","l55","l56","l57","l58","l59","l60","l61","l62","l63","l64","l65","l66","l67","l68","l69","l70","l71","l72","l73","l74","l75","l76","l77","l78","l79","l80","l81","l82","l83","l84","l85","l86","l87","l88","l89","l90","l91","l92","l93","l94","l95","l96","l97","l98","l99","l100","l101","l102","l103","l104","l105","l106","l107","l108","l109","l110","l111","l112","l113","l114","l115","l116","l117","l118","l119","l120","l121","l122","l123","l124","l125","l126","l127"};
                if(s[2] == s[3]) lit->_u64 = s[2]; else lit->_u64 = __sa_range(names[i & 127], 64, s[2], s[3]);
            }break;
            case IR_load_bitfield: case IR_load_bitfield_lhs: case IR_store_bitfield:
            case IR_postinc_bitfield: case IR_postdec_bitfield: case IR_preinc_bitfield: case IR_predec_bitfield:
            case IR_postinc_pointer: case IR_postdec_pointer: case IR_preinc_pointer: case IR_predec_pointer:
            case IR_deref: case IR_pointer_subscript: case IR_array_subscript:{
                struct ir_deref *node = (struct ir_deref *)ir; size = sizeof(*node);
                node->type = h_type_at(s[1]);
            }break;
            case IR_member: case IR_member_deref:{
                struct ir_dot_or_arrow *node = (struct ir_dot_or_arrow *)ir; size = sizeof(*node);
                node->member = &h_compound_members[s[1]];
            }break;
            case IR_initializer:{
                struct ir_initializer *node = (struct ir_initializer *)ir; size = sizeof(*node);
                node->offset = s[2]; node->lhs_type = h_type_at(s[1]);
            }break;
            case IR_function_call:{
                struct ir_function_call *call = (struct ir_function_call *)ir; size = sizeof(*call);
                call->function_type = &h_function_types[s[1]]; call->call_arguments_count = s[2];
            }break;
            case IR_skip:{
                struct ir_skip *skip = (struct ir_skip *)ir; size = sizeof(*skip);
                skip->size_to_skip = s[1]; 
            }break;
            case IR_jump: case IR_jump_label: case IR_jump_if_true: case IR_jump_if_false:{
                struct ir_jump_node *jump = (struct ir_jump_node *)ir; size = sizeof(*jump);
                jump->label_number = s[1];
            }break;
            case IR_switch:{
                struct ir_switch *node = (struct ir_switch *)ir; size = sizeof(*node);
                // a: default label, b: first case, c: amount of cases. The cases follow in the code (IR_case, index).
                static struct ir_jump_node jump; jump.base.kind = IR_jump; jump.label_number = s[1];
                node->default_jump_label = &jump;
                h_switch = node;
            }break;
            case IR_case:{
                struct ir_case *node = (struct ir_case *)ir; size = sizeof(*node);
                static char *names[] = {"k0","k1","k2","k3","k4","k5","k6","k7","k8","k9","k10","k11","k12","k13","k14","k15"};
                if(s[2] == s[3]) node->value = s[2]; else node->value = __sa_range(names[s[1]], 64, s[2], s[3]);
                sll_push_back(h_switch->case_list, node);
            }break;
        }
        ir->kind = s[0];
        context->ir_arena.current += size;
    }
    function->end_in_ir_arena = context->ir_arena.current;
    emit_code_for_function(context, function);
    
    u8 *code = function->memory_location; smm size = function->byte_size;
    __sa_obs("code", size, function->stack_space_needed, function->pushed_register_mask, function->rsp_subtract_offset, context->emit_arena.current - context->emit_arena.base, code - context->emit_arena.base);
    for(smm i = 0; i < size; i += 8) __sa_obs("bytes", i, code[i], code[i+1], code[i+2], code[i+3], code[i+4], code[i+5], code[i+6], code[i+7]);
    for(int i = 0; i < h_amount_of_patches; i++){
        struct h_patch *p = &h_patches[i];
        int what = -1; h_int value = 0, size = 0;
        for(int j = 0; j < 16; j++){
            if(p->source == &h_declarations[j].base) what = j;
            if(p->source == &h_functions[j].base) what = j;
        }
        if(p->source == &h_tls_index.base) what = 100;
        if(what == -1 && p->source->kind == IR_emitted_float_literal){
            struct ir_emitted_float_literal *lit = (struct ir_emitted_float_literal *)p->source;
            what = 200; value = lit->literal.type->size == 4 ? *(u32 *)&lit->literal._f32 : *(u64 *)&lit->literal._f64; size = lit->literal.type->size;
            int found = 0;
            for(struct ir_emitted_float_literal *at = context->emitted_float_literals.first; at; at = at->next) if(at == lit) found += 1;
            if(found != 1) what = 201;
        }
        __sa_obs("patch", p->kind, what, p->source_offset, p->dest_offset, p->rip_at, p->dest == &function->as_decl, value, size);
    }
    for(int i = 0; i < h_fns[1]; i++) __sa_obs("parameter", i, h_declarations[i].offset_on_stack, h_declarations[i].flags);
    __sa_obs("scope", h_scope.start_offset, h_scope.end_offset);
}
