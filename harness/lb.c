// Library harness: analyses the reading of archives and the lookup of declarations in them.
#include SRC_MAIN
#include "sa.h"
typedef long long h_int;
h_int h_files[2 * 4];        // {at, size} of each library
h_int h_queries[3 * 48];     // {at, size, declared dllimport} of each name, in the order of the lookups
h_int h_alternates[4 * 4];   // {at, size, at, size}
h_int h_symbolic[2 * 32];    // {library, offset} of arbitrary 16 bit values
char h_text[8192];
static struct memory_arena h_arena_of_file;
static struct context *h_context;
static u8 *h_data[4];
static struct token h_names[48];
static struct ast_function h_functions[48];
static struct alternate_name h_alternate[4];
static struct file h_file;
static int h_errors;

struct os_file __sa_stub__load(char *name, struct memory_arena *arena){
    int i = name[0] - '0';
    u8 *data = __sa_alloc(h_files[2 * i + 1] + 1); // terminated as load_file_into_arena does it
    memcpy(data, h_text + h_files[2 * i], h_files[2 * i + 1]); data[h_files[2 * i + 1]] = 0;
    static char *names[] = {"ord0", "ord1", "ord2", "ord3", "ord4", "ord5", "ord6", "ord7", "ord8", "ord9", "ord10", "ord11", "ord12", "ord13", "ord14", "ord15", "ord16", "ord17", "ord18", "ord19", "ord20", "ord21", "ord22", "ord23", "ord24", "ord25", "ord26", "ord27", "ord28", "ord29", "ord30", "ord31"};
    for(int k = 0; k < 32; k++) if(h_symbolic[2 * k + 1] && h_symbolic[2 * k] == i) *(u16 *)(data + h_symbolic[2 * k + 1]) = (u16)__sa_sym(names[k], 16);
    h_data[i] = data;
    return (struct os_file){.data = data, .size = h_files[2 * i + 1]};
}
void __sa_stub__error(struct context *context, struct token *token, char *format){ h_errors++; }
static int h_object_library; static h_int h_object_at, h_object_size;
int __sa_stub__extract(struct coff_file_header *header, u64 size, struct ast_declaration *declaration){
    for(int i = 0; i < 4; i++) for(h_int k = 0; h_data[i] && k < h_files[2 * i + 1]; k++) if((u8 *)header == h_data[i] + k){ h_object_library = i; h_object_at = k; }
    h_object_size = (h_int)size;
    return 1;
}
static void h_name(struct token *token, h_int *q){
    token->type = TOKEN_identifier; token->data = (u8 *)h_text + q[0]; token->size = (u32)q[1];
    token->atom = (struct atom){.string_hash = q[1], .string = {.data = (u8 *)h_text + q[0], .size = q[1]}};
    for(int i = 0; i < q[1]; i++) token->atom.string_hash = token->atom.string_hash * 31 + (u8)h_text[q[0] + i];
}
static void h_bytes(char *tag, int i, u8 *data, smm size){
    for(smm k = 0; k <= size; k++) __sa_obs(tag, i, k, k < size ? data[k] : 256);
}
void h_library(void){
    h_context = __sa_alloc(sizeof(struct context)); memset(h_context, 0, sizeof(struct context));
    u8 *base = __sa_alloc(0x8000); memset(base, 0, 0x8000);
    h_context->arena = &h_arena_of_file;
    h_arena_of_file.base = h_arena_of_file.current = base; h_arena_of_file.end_of_committed_memory = base + 0x8000; h_arena_of_file.reserved = 0x8000;
#if defined(_Debug)
    h_arena_of_file.committed_size = 0x8000;
#endif
    globals.file_table.data[0] = &h_file;
    for(int i = 0; i < 4; i++){
        h_int *a = &h_alternates[4 * i];
        if(!a[1]) continue;
        struct token t; h_name(&t, a); h_alternate[i].source = t.atom; h_name(&t, a + 2); h_alternate[i].destination = t.atom;
        sll_push_back(globals.alternate_names, &h_alternate[i]);
    }
    static char *paths[] = {"0", "1", "2", "3"};
    for(int i = 0; i < 4; i++) if(h_files[2 * i + 1]) __sa_obs("file", i, ar_parse_file((struct string){.data = (u8 *)paths[i], .size = 1}, &h_arena_of_file));
    for(int i = 0; i < 48; i++){
        h_int *q = &h_queries[3 * i];
        if(!q[1]) continue;
        h_name(&h_names[i], q);
        struct ast_function *f = &h_functions[i];
        f->kind = IR_function; f->identifier = &h_names[i];
        if(q[2]) f->as_decl.flags |= DECLARATION_FLAGS_is_dllimport;
        h_errors = 0; h_object_at = 0; h_object_size = 0; h_object_library = -1;
        lookup_declaration_in_libraries(h_context, &f->as_decl, &h_names[i]);
        __sa_obs("query", i, h_errors, (f->as_decl.flags & DECLARATION_FLAGS_is_dllimport) != 0, h_object_library, h_object_at, h_object_size, f->dll_import_node != 0);
    }
    int dlls = 0;
    for(struct dll_node *dll = globals.dlls.first; dll; dll = dll->next){
        h_bytes("dll", dlls, dll->name.data, dll->name.size);
        int imports = 0;
        for(struct dll_import_node *node = dll->import_list.first; node; node = node->next){
            int of = -1;
            for(int i = 0; i < 48; i++) if(h_functions[i].dll_import_node == node) of = i;
            __sa_obs("import", dlls, of, node->import_by_ordinal, node->ordinal_hint);
            if(of >= 0) h_bytes("name", of, node->import_name.data, node->import_name.size);
            imports++;
        }
        __sa_obs("imports", dlls, imports, dll->import_list.count);
        dlls++;
    }
    __sa_obs("dlls", dlls, globals.dlls.amount);
}
