#ifdef __cplusplus
extern "C"
#endif
long syscall(long, ...);
