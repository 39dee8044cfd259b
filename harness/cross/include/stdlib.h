#ifndef VX_STDLIB
#define VX_STDLIB
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void* malloc(size_t); void* calloc(size_t, size_t); void free(void*); void* aligned_alloc(size_t, size_t); int posix_memalign(void**, size_t, size_t); void abort(void); void* realloc(void*, size_t);
static inline int abs(int n) { return n < 0 ? -n : n; }
static inline long labs(long n) { return n < 0 ? -n : n; }
static inline long long llabs(long long n) { return n < 0 ? -n : n; }
#ifdef __cplusplus
}
#endif
#endif
