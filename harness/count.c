/* Counts the live allocations of the library that it is linked into (with -Wl,--wrap). */
#include <stdlib.h>
#include <string.h>
static long n;
long vh_live(void) { return __atomic_load_n(&n, __ATOMIC_SEQ_CST); }
static void* plus(void* p) { if (p) __atomic_add_fetch(&n, 1, __ATOMIC_SEQ_CST); return p; }
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
void* __wrap_malloc(size_t s) { return plus(__real_malloc(s)); }
void* __wrap_calloc(size_t a, size_t b) { return plus(__real_calloc(a, b)); }
void* __wrap_realloc(void* p, size_t s) { void* q = __real_realloc(p, s); if (p && !s && !q) __atomic_sub_fetch(&n, 1, __ATOMIC_SEQ_CST); return p ? q : plus(q); }
void __wrap_free(void* p) { if (p) __atomic_sub_fetch(&n, 1, __ATOMIC_SEQ_CST); __real_free(p); }
char* __wrap_strdup(const char* s) { size_t l = strlen(s) + 1; char* r = __wrap_malloc(l); if (r) memcpy(r, s, l); return r; }
char* __wrap_strndup(const char* s, size_t m) { size_t l = strnlen(s, m); char* r = __wrap_malloc(l + 1); if (r) { memcpy(r, s, l); r[l] = 0; } return r; }
