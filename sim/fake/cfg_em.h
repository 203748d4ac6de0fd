// Emscripten: the JavaScript fragment is handed to the simulated JavaScript host as text
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#undef __linux__
#undef __unix__
#undef __GNU__
#define __EMSCRIPTEN__ 1
#define SIM_EM_SOURCE 1
