// Linux without the getrandom system call
#define getrandom glibc_getrandom_decl
#include "pre.h"
#undef getrandom
#undef _GNU_SOURCE
#undef __GLIBC_MINOR__
#define __GLIBC_MINOR__ 20
#undef SYS_getrandom
#undef __NR_getrandom
