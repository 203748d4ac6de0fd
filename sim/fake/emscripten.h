#pragma once
#define EMSCRIPTEN_KEEPALIVE __attribute__((visibility("default")))
#ifdef SIM_EM_SOURCE
int sim_em_asm(const char*code,...);
#define EM_ASM_INT(code, ...) sim_em_asm(#code, ##__VA_ARGS__)
#define EM_ASM(code, ...) ((void)sim_em_asm(#code, ##__VA_ARGS__))
#endif
