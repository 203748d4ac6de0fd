// Linux with the getrandom system call but a C library without the wrapper
#define getrandom glibc_getrandom_decl
#include "pre.h"
#undef getrandom
#undef _GNU_SOURCE
#undef __GLIBC_MINOR__
#define __GLIBC_MINOR__ 20
