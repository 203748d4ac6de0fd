// BSD: arc4random
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <sys/param.h>
#undef __linux__
#undef __GNU__
#undef BSD
#define BSD 199306
