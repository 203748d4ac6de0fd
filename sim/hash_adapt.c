/* Uniform access to the library's hash contexts; compiled against /repo's own headers on every build. */
#include <string.h>
#include "fips202.h"
#include "shake_prng.h"
enum { A_SHAKE128I, A_SHAKE256I, A_SHA3_256I, A_SHA3_384I, A_SHA3_512I, A_SHAKE128B, A_SHAKE256B, A_EXPANDER };
#define ALL6(OP) switch(a){ case A_SHAKE128I: OP(shake128_inc,shake128incctx) break; case A_SHAKE256I: OP(shake256_inc,shake256incctx) break; case A_SHA3_256I: OP(sha3_256_inc,sha3_256incctx) break; case A_SHA3_384I: OP(sha3_384_inc,sha3_384incctx) break; case A_SHA3_512I: OP(sha3_512_inc,sha3_512incctx) break; }
size_t ha_ctxsize(void){ size_t m=0; if(sizeof(shake128incctx)>m)m=sizeof(shake128incctx); if(sizeof(shake256incctx)>m)m=sizeof(shake256incctx); if(sizeof(sha3_256incctx)>m)m=sizeof(sha3_256incctx); if(sizeof(sha3_384incctx)>m)m=sizeof(sha3_384incctx); if(sizeof(sha3_512incctx)>m)m=sizeof(sha3_512incctx); if(sizeof(shake128ctx)>m)m=sizeof(shake128ctx); if(sizeof(shake256ctx)>m)m=sizeof(shake256ctx); if(sizeof(seedexpander_state)>m)m=sizeof(seedexpander_state); return m; }
void ha_init(int a,void*c){
#define O(p,t) p##_init((t*)c);
ALL6(O)
#undef O
}
void ha_absorb(int a,void*c,const uint8_t*in,size_t n){
#define O(p,t) p##_absorb((t*)c,in,n);
ALL6(O)
#undef O
 if(a==A_SHAKE128B) shake128_absorb((shake128ctx*)c,in,n); if(a==A_SHAKE256B) shake256_absorb((shake256ctx*)c,in,n); if(a==A_EXPANDER) seedexpander_init((seedexpander_state*)c,in,n); }
void ha_final(int a,void*c,uint8_t*out){ switch(a){ case A_SHAKE128I: shake128_inc_finalize((shake128incctx*)c); break; case A_SHAKE256I: shake256_inc_finalize((shake256incctx*)c); break; case A_SHA3_256I: sha3_256_inc_finalize(out,(sha3_256incctx*)c); break; case A_SHA3_384I: sha3_384_inc_finalize(out,(sha3_384incctx*)c); break; case A_SHA3_512I: sha3_512_inc_finalize(out,(sha3_512incctx*)c); break; } }
void ha_squeeze(int a,void*c,uint8_t*out,size_t n){ switch(a){ case A_SHAKE128I: shake128_inc_squeeze(out,n,(shake128incctx*)c); break; case A_SHAKE256I: shake256_inc_squeeze(out,n,(shake256incctx*)c); break; case A_SHAKE128B: shake128_squeezeblocks(out,n,(shake128ctx*)c); break; case A_SHAKE256B: shake256_squeezeblocks(out,n,(shake256ctx*)c); break; case A_EXPANDER: seedexpander((seedexpander_state*)c,out,n); break; } }
void ha_clone(int a,void*d,const void*s){
#define O(p,t) p##_ctx_clone((t*)d,(const t*)s);
ALL6(O)
#undef O
 if(a==A_SHAKE128B) shake128_ctx_clone((shake128ctx*)d,(const shake128ctx*)s); if(a==A_SHAKE256B) shake256_ctx_clone((shake256ctx*)d,(const shake256ctx*)s); if(a==A_EXPANDER) shake256_inc_ctx_clone((shake256incctx*)d,(const shake256incctx*)s); }
void ha_release(int a,void*c){
#define O(p,t) p##_ctx_release((t*)c);
ALL6(O)
#undef O
 if(a==A_SHAKE128B) shake128_ctx_release((shake128ctx*)c); if(a==A_SHAKE256B) shake256_ctx_release((shake256ctx*)c); if(a==A_EXPANDER) seedexpander_release((seedexpander_state*)c); }
void ha_oneshot(int a,uint8_t*out,size_t ol,const uint8_t*in,size_t il){ switch(a){ case A_SHAKE128I: case A_SHAKE128B: shake128(out,ol,in,il); break; case A_SHAKE256I: case A_SHAKE256B: shake256(out,ol,in,il); break; case A_SHA3_256I: sha3_256(out,in,il); break; case A_SHA3_384I: sha3_384(out,in,il); break; case A_SHA3_512I: sha3_512(out,in,il); break; } }
