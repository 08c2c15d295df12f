// Output harness: analyses the writing of executables and objects for programs that are given as tables.
#include SRC_MAIN
#include "sa.h"
typedef long long h_int;
// objects: {kind, size, alignment, flags, text at, text size, extra, seed, pushed registers, stack space, prolog, thread}
//   kind: 1 function, 2 data, 3 zero data, 4 thread local, 5 string, 6 float, 7 double, 8 imported function (extra: 1 + ordinal; seed: dll), 9 dll, 10 thread local of zeros
//   flags: 1 exported, 2 needs a stub, 4 belongs to the function before, 8 not reachable, 16 static, 32 entry point, 64 the tls index, 128 only declared, 256 selectany, 512 declared in a function, 1024 compound literal
h_int h_objects[12 * 64];
h_int h_references[8 * 64];  // {kind, source, dest, offset in dest, lowest and highest offset in source, bytes of the instruction behind the cell}
h_int h_setup[16];           // {symbolic image base, fixed base, file type, threads, , }
char h_text[4096];

static struct memory_arena h_arenas[2];
static void h_arena(struct memory_arena *arena, int size){
    u8 *base = __sa_alloc(size);
    memset(base, 0, size);
    arena->base = arena->current = base;
    arena->end_of_committed_memory = base + size;
    arena->reserved = size;
#if defined(_Debug)
    arena->committed_size = size;
#endif
}
struct string __sa_stub__format(struct memory_arena *arena, char *format, struct string s){
    u8 *data = __sa_alloc(8);
    data[0] = 'o'; data[1] = 'u'; data[2] = 't'; data[3] = 0;
    return (struct string){.data = data, .size = 3};
}
// formatted names: "%.*s" takes a name, "%x" a number
struct string __sa_stub__name(struct memory_arena *arena, char *format, u64 a, u8 *b){
    u8 *data = __sa_alloc(64); smm size = 0;
    static char digit[] = "0123456789abcdef";
    for(int i = 0; format[i]; i++){
        if(format[i] != '%'){ data[size++] = (u8)format[i]; continue; }
        i++;
        if(format[i] == '.' && format[i + 1] == '*'){ for(u32 k = 0; k < (u32)a; k++) data[size++] = b[k]; i += 2; continue; }
        int width = 0;
        if(format[i] == '.'){ for(i++; format[i] >= '0' && format[i] <= '9'; i++) width = 10 * width + format[i] - '0'; }
        int wide = 0;
        while(format[i] == 'l'){ wide = 1; i++; }
        if(!wide) a = (u32)a;
        int digits = 1;
        while(digits < 16 && a >> (4 * digits)) digits++;
        if(digits < width) digits = width;
        for(int k = digits; k--;) data[size++] = (u8)digit[(a >> (4 * k)) & 15];
    }
    data[size] = 0;
    return (struct string){.data = data, .size = size};
}
static struct ast_scope h_scope;
static struct ast_array_type h_string_types[64];
static struct ast_type h_char_types[5];
static struct ast_function h_functions[64];
static struct ast_declaration h_declarations[64];
static struct ir_string_literal h_strings[64];
static struct ir_emitted_float_literal h_floats[64];
static struct dll_import_node h_imports[64];
static struct dll_node h_dlls[8];
static struct token h_names[64];
static struct ast_type h_types[64];
static struct ast_function_type h_function_type;
static struct ast_node h_nodes[64];
static struct ast_list_node h_list[64];
static struct thread_info h_infos[4];
static struct context *h_contexts[4];
static struct ir *h_ir[64];
static struct patch_node h_patches[64];
static u8 *h_image; static smm h_image_size;

int __sa_stub__write(void *file, const void *data, unsigned int size, unsigned int *written, void *o){
    h_image = (u8 *)data; h_image_size = size; if(written) *written = size;
    return 1;
}
b32 __sa_stub__write_file(char *name, void *data, smm size){ h_image = data; h_image_size = size; return 1; }
struct memory_arena __sa_stub__arena(smm size, f32 factor, u32 grow){
    struct memory_arena arena = zero_struct;
    h_arena(&arena, 0x10000);
    return arena;
}
struct string __sa_stub__root(struct string s){ return s; }
u32 __sa_stub__time(void){ return 0; }

static void h_build(void){
    int nodes = 0, list = 0;
    smm threads = h_setup[3];
    globals.thread_count = threads; globals.thread_infos = h_infos;
    for(int i = 0; i < threads; i++){
        h_contexts[i] = __sa_alloc(sizeof(struct context));
        memset(h_contexts[i], 0, sizeof(struct context));
        h_infos[i].context = h_contexts[i]; h_infos[i].thread_index = i;
    }
    h_arena(&h_arenas[0], 0x20000); h_arena(&h_arenas[1], 0x20000);
    globals.output_file_type = (enum output_file_type)h_setup[2];
    globals.cli_options.no_debug = 1; globals.subsystem = (int)h_setup[4];
    globals.cli_options.no_dynamic_base = (int)h_setup[1];
    if(h_setup[0]){ globals.cli_options.image_base_specified = 1; globals.cli_options.image_base = __sa_range("base", 64, 0x10000, 0x7fff00000000ull); }
    globals.typedef_f32.kind = AST_float_type; globals.typedef_f64.kind = AST_float_type;
    h_function_type.base.pdb_type_index = 0x1000;
    struct ast_function *last = 0;
    for(int i = 0; i < 64; i++){
        h_int *o = &h_objects[12 * i];
        if(!o[0]) continue;
        struct string text = {.data = (u8 *)&h_text[o[4]], .size = o[5]};
        struct context *context = h_contexts[o[11]];
        h_names[i].type = TOKEN_identifier; h_names[i].data = text.data; h_names[i].size = (u32)o[5];
        h_names[i].atom.string = text;
        h_types[i].kind = AST_integer_type; h_types[i].size = o[1]; h_types[i].alignment = o[2]; h_types[i].pdb_type_index = 0x74;
        if(o[0] == 1 || o[0] == 8){
            struct ast_function *f = &h_functions[i];
            f->kind = IR_function; f->type = &h_function_type; f->identifier = &h_names[i]; h_ir[i] = &f->base;
            if(!(o[3] & 8)) f->as_decl.flags |= DECLARATION_FLAGS_is_reachable_from_entry;
            if(o[3] & 16) f->as_decl.flags |= DECLARATION_FLAGS_is_static;
            f->as_decl.compilation_unit = &globals.hacky_global_compilation_unit;
            if(o[0] == 1){
                last = f;
                f->byte_size = o[1]; f->memory_location = __sa_alloc(o[1]);
                for(int k = 0; k < o[1]; k++) f->memory_location[k] = (u8)(o[7] + k * 7);
                f->pushed_register_mask = (u32)o[8]; f->stack_space_needed = o[9]; f->rsp_subtract_offset = o[10];
                if(o[3] & 1) f->as_decl.flags |= DECLARATION_FLAGS_is_dllexport;
                if(o[3] & 32) globals.entry_point = f;
                f->scope = &h_scope;
            }else{
                struct dll_import_node *n = &h_imports[i]; struct dll_node *d = &h_dlls[o[7]];
                f->as_decl.flags |= DECLARATION_FLAGS_is_dllimport;
                if(o[3] & 2) f->as_decl.flags |= DECLARATION_FLAGS_need_dllimport_stub_function;
                f->dll_import_node = n; n->import_name = text;
                if(o[6]){ n->import_by_ordinal = 1; n->ordinal_hint = (u16)(o[6] - 1); }
                sll_push_back(d->import_list, n); d->import_list.count++;
            }
            if(o[3] & 512){
                h_list[list].value = &f->kind;
                sll_push_back(context->local_dllimports, &h_list[list]); context->local_dllimports.count++; list++;
                continue;
            }
            h_nodes[nodes].token = &h_names[i]; h_nodes[nodes++].ast = &f->kind;
        }else if(o[0] <= 4 || o[0] == 10){
            struct ast_declaration *d = &h_declarations[i];
            d->kind = IR_declaration; d->type = &h_types[i]; d->identifier = &h_names[i]; h_ir[i] = &d->base;
            d->compilation_unit = &globals.hacky_global_compilation_unit;
            if(!(o[3] & 8)) d->flags |= DECLARATION_FLAGS_is_reachable_from_entry;
            if(o[3] & 16) d->flags |= DECLARATION_FLAGS_is_static;
            if(o[0] == 4 || o[0] == 10) d->flags |= DECLARATION_FLAGS_is_thread_local;
            if(o[0] == 2 || o[0] == 4){
                d->assign_expr = &d->base; d->memory_location = __sa_alloc(o[1]);
                for(int k = 0; k < o[1]; k++) d->memory_location[k] = (u8)(o[7] + k * 7);
            }
            if(o[3] & 4) d->flags |= DECLARATION_FLAGS_is_local_persist;
            if(o[3] & 1) d->flags |= DECLARATION_FLAGS_is_dllexport;
            if(o[3] & 128) d->flags |= DECLARATION_FLAGS_is_extern;
            if(o[3] & 256) d->flags |= DECLARATION_FLAGS_is_selectany;
            if(o[3] & 64){ globals.tls_index_declaration = d; continue; }
            if(o[3] & 1024){
                d->flags &= ~DECLARATION_FLAGS_is_reachable_from_entry;
                h_list[list].value = &d->kind;
                sll_push_back(context->global_struct_and_array_literals, &h_list[list]); context->global_struct_and_array_literals.count++; list++;
                continue;
            }
            if(o[3] & 4){
                h_list[list].value = &d->kind;
                sll_push_back(last->static_variables, &h_list[list]); last->static_variables.count++; list++;
            }else{ h_nodes[nodes].token = &h_names[i]; h_nodes[nodes++].ast = &d->kind; }
        }else if(o[0] == 5){
            struct ir_string_literal *l = &h_strings[i];
            l->base.kind = IR_string_literal; l->value = text; l->string_kind = (enum string_kind)o[2];
            h_char_types[o[2]].size = o[2]; h_string_types[i].base.kind = AST_array_type; h_string_types[i].element_type = &h_char_types[o[2]]; l->type = &h_string_types[i].base; h_ir[i] = &l->base;
            sll_push_back(context->string_literals, l); context->string_literals.amount_of_strings++;
        }else if(o[0] <= 7){
            struct ir_emitted_float_literal *l = &h_floats[i];
            l->base.kind = IR_emitted_float_literal; h_ir[i] = &l->base;
            if(o[0] == 6){ l->literal.type = &globals.typedef_f32; l->literal._f32 = (f32)(o[7] + 0.5); }
            else { l->literal.type = &globals.typedef_f64; l->literal._f64 = (f64)(o[7] + 0.25); }
            sll_push_back(context->emitted_float_literals, l);
        }else if(o[0] == 9){
            struct dll_node *d = &h_dlls[o[7]]; d->name = text;
            sll_push_back(globals.dlls, d); globals.dlls.amount++;
        }
    }
    globals.global_declarations.nodes = h_nodes; globals.global_declarations.capacity = 64; globals.global_declarations.mask = 63;
    globals.global_declarations.amount_of_nodes = nodes;
    globals.hacky_global_compilation_unit.static_declaration_table = globals.global_declarations;
    static char *offsets[] = {"o0","o1","o2","o3","o4","o5","o6","o7","o8","o9","o10","o11","o12","o13","o14","o15","o16","o17","o18","o19","o20","o21","o22","o23","o24","o25","o26","o27","o28","o29","o30","o31"};
    for(int i = 0; i < 32; i++){
        h_int *r = &h_references[8 * i];
        if(!r[0]) continue;
        struct patch_node *p = &h_patches[i];
        p->kind = (enum patch_kind)r[0]; p->source = h_ir[r[1]]; p->dest_declaration = (struct ast_declaration *)h_ir[r[2]];
        p->location_offset_in_dest_declaration = r[3];
        p->location_offset_in_source_declaration = (r[4] == r[5]) ? r[4] : (smm)__sa_range(offsets[i], 64, r[4], r[5]);
        p->rip_at = (r[0] == PATCH_absolute) ? 0 : r[3] + 4 + r[6];
        struct context *context = h_contexts[r[7]];
        sll_push_back(context->local_patch_list, p);
        int size = (r[0] == PATCH_absolute) ? 8 : 4;
        memset(p->dest_declaration->memory_location + r[3], 0, size);
    }
}
static void h_dump(void){
    for(int i = 0; i < 64; i++){
        h_int *o = &h_objects[12 * i];
        if(!o[0]) continue;
        smm rva = (o[0] == 5) ? h_strings[i].relative_virtual_address : (o[0] == 6 || o[0] == 7) ? h_floats[i].relative_virtual_address : (o[0] == 9) ? 0 : ((struct ast_declaration *)h_ir[i])->relative_virtual_address;
        if(o[3] & 64) rva = globals.tls_index_declaration->relative_virtual_address;
        __sa_obs("object", i, rva, (o[0] == 8) ? h_imports[i].stub_relative_virtual_address : 0);
    }
    for(int i = 0; i < 32; i++){
        h_int *r = &h_references[8 * i];
        if(!r[0]) continue;
        u8 *at = h_patches[i].dest_declaration->memory_location + r[3];
        if(r[0] == PATCH_absolute) __sa_obs("cell", i, at - h_image, *(u64 *)at);
        else __sa_obs("cell", i, at - h_image, *(u32 *)at);
    }
    __sa_obs("size", h_image_size);
    for(smm i = 0; i < h_image_size; i += 4){ u8 *b = h_image + i; __sa_obs("w", i, *(u32 *)b, b[0], b[1], b[2], b[3]); }
    __sa_facts("facts");
}
void h_exe(void){
    h_build();
    print_coff((struct string){.data = (u8 *)"out.exe", .size = 7}, &h_arenas[0], &h_arenas[1]);
    h_dump();
}
void h_obj(void){
    h_build();
    globals.cli_options.no_debug = 0;
    print_obj((struct string){.data = (u8 *)"out.obj", .size = 7}, &h_arenas[0], &h_arenas[1]);
    h_dump();
}
