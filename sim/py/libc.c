/* malloc and free as the Python bindings load them. */
#include <stddef.h>
extern void* pb_malloc(size_t);
extern void pb_free(void*);
extern void* sim_calloc(size_t, size_t);
extern void* sim_realloc(void*, size_t);
void* malloc(size_t n) { return pb_malloc(n); }
void free(void* p) { pb_free(p); }
void* calloc(size_t a, size_t b) { return sim_calloc(a, b); }
void* realloc(void* p, size_t n) { return sim_realloc(p, n); }
