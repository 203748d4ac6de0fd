#pragma once
#include "sim.h"
enum { A_SHAKE128I, A_SHAKE256I, A_SHA3_256I, A_SHA3_384I, A_SHA3_512I, A_SHAKE128B, A_SHAKE256B, A_EXPANDER, A_N };
extern "C" { size_t ha_ctxsize(void); void ha_init(int,void*); void ha_absorb(int,void*,const u8*,size_t); void ha_final(int,void*,u8*); void ha_squeeze(int,void*,u8*,size_t); void ha_clone(int,void*,const void*); void ha_release(int,void*); void ha_oneshot(int,u8*,size_t,const u8*,size_t); }
static inline unsigned ha_rate(int a){ static const unsigned r[]={168,136,136,104,72,168,136,136}; return r[a]; }
static inline u8 ha_pad(int a){ return a>=A_SHA3_256I&&a<=A_SHA3_512I?6:0x1f; }
static inline size_t ha_dlen(int a){ return a==A_SHA3_256I?32:a==A_SHA3_384I?48:a==A_SHA3_512I?64:0; }
// the whole life of one context as a single call: fragments and pieces drawn from aux
void ha_whole(int alg,u8*out,size_t ol,const u8*in,size_t il,u64 aux);
