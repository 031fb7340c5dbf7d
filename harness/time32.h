/* selects the variant of times for platforms with 32-bit pointers */
#define _GNU_SOURCE
#include <stdint.h>
#undef INTPTR_MAX
#define INTPTR_MAX INT32_MAX
