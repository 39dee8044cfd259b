#include <stdint.h>
struct riscv_hwprobe { int64_t key; uint64_t value; };
#define RISCV_HWPROBE_KEY_IMA_EXT_0 4
