#define AT_HWCAP 16
#define AT_HWCAP2 26
#ifdef __cplusplus
extern "C"
#endif
unsigned long getauxval(unsigned long);
