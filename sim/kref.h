#pragma once
#include "sim.h"
// Independent Keccak sponge (reference model): rate r bytes, domain byte p.
void kref(u8*out,size_t outlen,const u8*in,size_t inlen,unsigned r,u8 p);
static inline void kref_sha3_512(u8*o,const u8*i,size_t n){ kref(o,64,i,n,72,6); }
