#ifndef VX_STDIO
#define VX_STDIO
#include <stddef.h>
#ifdef __cplusplus
extern "C"
#endif
int printf(const char*, ...);
#endif
