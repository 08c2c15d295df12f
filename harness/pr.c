// Preprocessor harness: analyses the splitting of source text into tokens, the directives and the expansion of macros.
#include "pp.c"

// The characters of the files, one after the other: a byte, or  lo | hi << 8 | 1 << 16  for an arbitrary byte within [lo, hi].
static int h_source[16384];
static int h_size[8];          // the size of each file; the last is 0
static u8 h_buffer[8][16640];
static struct file h_files[8];
static char h_paths[8][8] = {"a", "b", "c", "d", "e", "f", "g", "h"};
static int h_file_count;

static struct os_virtual_buffer h_virtual(void *base, smm size){
    struct os_virtual_buffer ret = zero_struct;
    ret.memory = base; ret.committed = ret.reserved = size;
    return ret;
}
struct os_virtual_buffer __sa_stub__reserve(void *base, smm size){
    if(size > 0x80000) size = 0x80000;
    u8 *memory = __sa_alloc(size);
    memset(memory, 0, size);
    return h_virtual(memory, size);
}
struct os_virtual_buffer __sa_stub__commit(void *base, smm size){ return h_virtual(base, size); }

// __LINE__ and __FILE__ are the only ones who format.
struct string __sa_stub__format(struct memory_arena *arena, char *format, u32 value){
    u8 *text = __sa_alloc(16);
    if(format[0] != '%') return (struct string){.data = (u8 *)"\"?\"", .size = 3};
    int size = 1;
    for(u32 v = value; v >= 10; v /= 10) size++;
    for(int i = size - 1; i >= 0; i--){ text[i] = '0' + value % 10; value /= 10; }
    return (struct string){.data = text, .size = size};
}

static int h_load(int at, u8 *to, int size){
    for(int i = 0; i < size; i++){
        int c = h_source[at + i];
        static char *names[] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19"};
        to[i] = (c >> 16) ? (u8)__sa_range(names[i % 20], 8, c & 0xff, (c >> 8) & 0xff) : (u8)c;
    }
    to[size] = to[size + 1] = '\n';
    return at + size;
}

// The raw tokens of one text.
void h_raw(int size, int pad){
    struct context *context = h_context();
    h_load(0, h_buffer[0], size);
    struct string text = {.data = h_buffer[0], .size = size + pad};
    smm lines = 0;
    struct token_array tokens = tokenize_raw(context, text, 1, 0, &lines);
    for(smm i = 0; i < tokens.size; i++){
        struct token *t = &tokens.data[i];
        __sa_obs("raw", t->type, t->data - h_buffer[0], t->size, t->line, t->column, t->type == TOKEN_identifier ? t->string_hash == string_djb2_hash(token_get_string(t)) : 1);
    }
    __sa_obs("lines", lines);
    __sa_facts("facts");
}

struct file *__sa_stub__main_file(struct context *context, char *path, smm size, int is_system){ return &h_files[path[0] - 'a']; }
struct file *__sa_stub__include(struct context *context, struct token *directive, struct string name, int is_system){
    __sa_obs("include", name.size, name.data[0], is_system);
    if(name.size < 1 || name.data[0] < 'a' || name.data[0] >= 'a' + h_file_count) return null;
    return &h_files[name.data[0] - 'a'];
}

static void h_tables(void){
    globals.keyword_table_size = 0x400;
    while(1){
        struct keyword_table_entry *table = __sa_alloc(sizeof(struct keyword_table_entry) * globals.keyword_table_size);
        memset(table, 0, sizeof(struct keyword_table_entry) * globals.keyword_table_size);
        globals.keyword_table = table;
        int collision = 0;
        for(int i = 0; i < array_count(keyword_table_entries); i++){
            u64 hash = string_djb2_hash(keyword_table_entries[i].keyword);
            struct keyword_table_entry *entry = &table[hash & (globals.keyword_table_size - 1)];
            if(entry->keyword.data) collision = 1;
            entry->keyword = (struct atom){.string = keyword_table_entries[i].keyword, .string_hash = hash};
            entry->type = keyword_table_entries[i].token_kind;
        }
        if(!collision) break;
        globals.keyword_table_size <<= 1;
    }
    globals.directive_table_size = 0x40;
    while(1){
        struct directive_table_entry *table = __sa_alloc(sizeof(struct directive_table_entry) * globals.directive_table_size);
        memset(table, 0, sizeof(struct directive_table_entry) * globals.directive_table_size);
        globals.directive_table = table;
        int collision = 0;
        for(int i = 0; i < array_count(directive_table_entries); i++){
            u64 hash = string_djb2_hash(directive_table_entries[i].directive);
            struct directive_table_entry *entry = &table[hash & (globals.directive_table_size - 1)];
            if(entry->directive.data) collision = 1;
            entry->directive = (struct atom){.string = directive_table_entries[i].directive, .string_hash = hash};
            entry->type = directive_table_entries[i].kind;
        }
        if(!collision) break;
        globals.directive_table_size <<= 1;
    }
    globals.pragma_once = atom_for_string(string("once"));
    globals.pragma_pack = atom_for_string(string("pack"));
    globals.pragma_comment = atom_for_string(string("comment"));
    globals.pragma_compilation_unit = atom_for_string(string("compilation_unit"));
    globals.keyword__VA_ARGS__ = atom_for_string(string("__VA_ARGS__"));
}

// The tokens of one translation unit.
void h_unit(int pack){
    struct context *context = h_context();
    h_arena(&context->scratch, 0x100000);
    h_arena(context->arena, 0x40000);
    context->pragma_alignment = 16;
    h_tables();
    static struct compilation_unit unit;
    context->current_compilation_unit = &unit;
    globals.cli_options.quiet = 1;
    int at = 0;
    for(h_file_count = 0; h_file_count < 7; h_file_count++){
        int i = h_file_count, size = h_size[i];
        if(!size) break;
        struct file *file = &h_files[i];
        file->absolute_file_path = h_paths[i];
        file->file_index = i + 1;
        globals.file_table.data[i + 1] = file;
        at = h_load(at, h_buffer[i], size);
        file->tokens = tokenize_raw(context, (struct string){.data = h_buffer[i], .size = size + 2}, i + 1, 0, &file->lines);
    }
    h_files[7].absolute_file_path = h_paths[7];
    h_buffer[7][0] = '\n';
    globals.predefined_tokens = tokenize_raw(context, (struct string){.data = h_buffer[7], .size = 1}, 0, 0, 0);
    
    // An empty unit first: it defines what is there from the beginning.
    struct work_tokenize_file *file = __sa_alloc(sizeof(*file));
    memset(file, 0, sizeof(*file));
    file->compilation_unit = &unit;
    file->absolute_file_path = (struct string){.data = (u8 *)h_paths[7], .size = 1};
    struct work_queue_entry *work = __sa_alloc(sizeof(*work));
    memset(work, 0, sizeof(*work));
    work->data = file;
    worker_preprocess_file(context, work);
    
    struct token_array tokens = file_tokenize_and_preprocess(context, (struct string){.data = (u8 *)h_paths[0], .size = 1}, h_size[0]);
    if(context->error || context->should_exit_statement) __sa_end("error");
    for(smm i = 0; i < tokens.size; i++){
        struct token *t = &tokens.data[i];
        u64 w[16] = {0};
        for(smm b = 0; b < t->size && b < 128; b++) w[b / 8] |= (u64)t->data[b] << (8 * (b & 7));
        __sa_obs("token", t->type, t->size, t->file_index, t->line, w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8], w[9], w[10], w[11], w[12], w[13], w[14], w[15]);
    }
    __sa_facts("facts");
}
