// WASI: arc4random
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#undef __linux__
#undef __unix__
#undef __GNU__
#undef BSD
#define __wasi__ 1
