#ifndef VX_STRING
#define VX_STRING
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void* memcpy(void*, const void*, size_t); void* memmove(void*, const void*, size_t); void* memset(void*, int, size_t); int memcmp(const void*, const void*, size_t);
size_t strlen(const char*); void* memchr(const void*, int, size_t); int strcmp(const char*, const char*); int strncmp(const char*, const char*, size_t);
#ifdef __cplusplus
}
#endif
#endif
