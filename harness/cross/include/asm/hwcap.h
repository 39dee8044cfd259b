/* the values of Linux */
#if defined(__aarch64__)
#define HWCAP_ASIMD (1 << 1)
#define HWCAP_AES (1 << 3)
#define HWCAP_PMULL (1 << 4)
#define HWCAP_CRC32 (1 << 7)
#elif defined(__arm__)
#define HWCAP_NEON (1 << 12)
#define HWCAP2_AES (1 << 0)
#define HWCAP2_PMULL (1 << 1)
#define HWCAP2_CRC32 (1 << 4)
#endif
