#include <stddef.h>
#undef offsetof
#define offsetof(type, member) ((size_t)&((type *)0)->member)
