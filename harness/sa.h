// Primitives of the abstract interpreter (declared, never defined). They have no effect on the program
// that is analysed; they introduce abstract inputs and mark the abstract values that are read out.
typedef unsigned long long h_u64; typedef long long h_s64;
h_u64 __sa_sym(const char *name, h_u64 width);                            // an arbitrary value of 'width' bits
h_u64 __sa_range(const char *name, h_u64 width, h_u64 lo, h_u64 hi);      // an arbitrary value within [lo, hi]
h_u64 __sa_top(void);
void  __sa_obs(const char *tag, ...);
void  __sa_str(const char *tag, const char *string);
void  __sa_facts(const char *tag);
void  __sa_end(const char *tag, ...);
void *__sa_alloc(h_u64 size);
void  __sa_code(void *base);
void  __sa_havoc(void *base, h_u64 size);
