// Windows
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#undef __linux__
#undef __unix__
#undef __GLIBC__
#undef __GNU__
#define _WIN32 1
#define __declspec(x)
