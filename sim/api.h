// The library's entry points: A.lib = code under test (weak: absent ones are skipped), A.ref = frozen reference release.
#pragma once
#include "os.h"
typedef unsigned long long ull;
#define API_LIST(X) \
 X(int,crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander,(const u8*,u8*)) \
 X(int,crypto_sign_dilithium_ed25519_sphincs_keypair_seed,(u8*,u8*,u8*)) \
 X(int,crypto_sign_dilithium_ed25519_sphincs_keypair,(u8*,u8*)) \
 X(int,crypto_sign_dilithium_ed25519_sphincs,(u8*,ull*,const u8*,ull,const u8*)) \
 X(int,crypto_sign_dilithium_ed25519_sphincs_open,(u8*,ull*,const u8*,ull,const u8*)) \
 X(int,crypto_verify_dilithium_ed25519_sphincs,(const u8*,ull,const u8*,ull,const u8*)) \
 X(int,crypto_sign_compact_dilithium_ed25519_sphincs,(u8*,ull*,const u8*,ull,const u8*)) \
 X(int,crypto_sign_compact_dilithium_ed25519_sphincs_open,(u8*,ull*,const u8*,ull,const u8*)) \
 X(int,crypto_verify_compact_dilithium_ed25519_sphincs,(const u8*,ull,const u8*,ull,const u8*)) \
 X(int,crypto_verify_dilithium,(const u8*,ull,const u8*,ull,const u8*)) \
 X(int,PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_seed,(u8*,u8*,const u8*)) \
 X(int,PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair,(u8*,u8*)) \
 X(int,PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature,(u8*,size_t*,const u8*,size_t,const u8*)) \
 X(int,PQCLEAN_DILITHIUM2_CLEAN_crypto_sign,(u8*,size_t*,const u8*,size_t,const u8*)) \
 X(int,PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify,(const u8*,size_t,const u8*,size_t,const u8*)) \
 X(int,PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_open,(u8*,size_t*,const u8*,size_t,const u8*)) \
 X(int,PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_seed_keypair,(u8*,u8*,const u8*)) \
 X(int,PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_keypair,(u8*,u8*)) \
 X(int,PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_signature,(u8*,size_t*,const u8*,size_t,const u8*)) \
 X(int,PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign,(u8*,size_t*,const u8*,size_t,const u8*)) \
 X(int,PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_verify,(const u8*,size_t,const u8*,size_t,const u8*)) \
 X(int,PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_open,(u8*,size_t*,const u8*,size_t,const u8*)) \
 X(int,crypto_sign_ed25519_keypair_seed,(u8*,u8*,u8*)) \
 X(int,crypto_sign_ed25519_tweet,(u8*,ull*,const u8*,ull,const u8*)) \
 X(int,crypto_sign_ed25519_tweet_open,(u8*,ull*,const u8*,ull,const u8*)) \
 X(int,crypto_sign_ed25519_tweet_keypair,(u8*,u8*)) \
 X(int,crypto_box_curve25519xsalsa20poly1305_tweet_keypair,(u8*,u8*)) \
 X(int,randombytes,(void*,size_t)) \
 X(int,seedexpander_wrapper,(const u8*,size_t,u8*,size_t)) \
 X(int,dp_sign_keypair_seed,(u8*,u8*,u8*)) \
 X(int,dp_sign_keypair,(u8*,u8*)) \
 X(int,dp_sign,(u8*,size_t*,const u8*,size_t,const u8*)) \
 X(int,dp_sign_verify,(u8*,size_t,const u8*,size_t,const u8*)) \
 X(int,dp_sign_seedexpander,(const u8*,u8*)) \
 X(int,dp_randombytes,(void*,size_t)) \
 X(int,dp_seedexpander_wrapper,(const u8*,size_t,u8*,size_t)) \
 X(u8*,mem_alloc,(size_t)) \
 X(u64*,mem_alloc_long_long,(size_t)) \
 X(void,mem_free,(void*,size_t))
extern "C" {
#define D(r,n,a) r n a __attribute__((weak)); r ref_##n a __attribute__((weak)); r alt_##n a __attribute__((weak));
API_LIST(D)
#undef D
int rbsys_randombytes(void*,size_t) __attribute__((weak)); int rbold_randombytes(void*,size_t) __attribute__((weak)); int rbwin_randombytes(void*,size_t) __attribute__((weak)); int rbbsd_randombytes(void*,size_t) __attribute__((weak)); int rbem_randombytes(void*,size_t) __attribute__((weak)); int rbwasi_randombytes(void*,size_t) __attribute__((weak));
}
struct Api {
#define D(r,n,a) r (*n) a;
API_LIST(D)
#undef D
};
extern const Api LIB, REF, ALT;   // ALT: the code under test, built another way (fast variant only)

enum { PKB=1408, SKB=4064, SEEDB=160, RSEEDB=96, CSIG0=2+64+2420+40, FSIG0=2+64+2420+49856, DPK=1312,DSK=2560,DSIG=2420,SPK=64,SSK=128,SSIG=49856,EPK=32,ESK=64,ESIG=64 };
enum { PK_E=0,PK_D=32,PK_S=32+1312, SK_E=0,SK_D=64,SK_DP=64+2560,SK_S=64+2560+1312 };
enum Kind { K_NONE, K_KEYGEN, K_KEYSEED, K_EXPAND, K_SIGNC, K_OPENC, K_VERC, K_SIGNF, K_OPENF, K_VERF, K_VERD, K_DKEY, K_DKEYSEED, K_DSIG, K_DSIGN, K_DVER, K_DOPEN, K_SKEY, K_SKEYSEED, K_SSIG, K_SSIGN, K_SVER, K_SOPEN, K_EKEY, K_EKEYSEED, K_ESIGN, K_EOPEN, K_BOXKEY, K_RAND, K_SEEDEXP, K_WKEYSEED, K_WKEY, K_WSIGN, K_WVER, K_WEXPAND, K_WRAND, K_WSEEDEXP, K_HASH, K_COUNT };
struct Buf { u8* p; size_t n; u8* base; };          // n usable bytes with guard zones (non-ASan) or exact heap block (ASan)
Buf newbuf(size_t n, u64 garbage);                  // output buffer, guarded, filled with seeded garbage
Buf inbuf(const void* d, size_t n);                 // input buffer holding exactly d
void guards_ok(const Buf& b, const char* what);     // violation if a byte outside was written
// One library call.
struct Op {
  int kind; int ret; Ent ent;
  const u8 *in1,*in2,*in3; u64 l1,l2,l3;             // inputs (meaning depends on kind)
  Buf o1,o2; ull outlen; ull outlen0;               // outputs
  u64 id; u64 aux; bool nulllen;                     // K_HASH: l2 algorithm, l3 output length, aux fragmentation
};
void op_init(Op& o,int kind);                        // fresh entropy stream, no buffers
void op_outputs(Op& o,u64 garbage);                  // allocates the output buffers for the kind
bool op_exists(const Api&,int kind);
int  op_exec(const Api&, Op& o);                     // performs the call; ret in o.ret
size_t op_out1(const Op&); size_t op_out2(const Op&);// sizes of output buffers
bool op_needs_entropy(int kind); bool op_len_out(int kind); bool op_hybrid(int kind); bool op_pure(int kind);
void op_copy_outputs_fresh(Op& dst,const Op& src,u64 garbage);
bool op_same_result(const Op&a,const Op&b,std::string*why);
const char* op_name(int kind);
// workload generator
struct Key { u8 seed[SEEDB]; u8 pk[PKB]; u8 sk[SKB]; };
struct Gen { // small pools of components so that related keys and repeated messages occur
  u64 s; u8 e[3][32], d[3][32], sp[3][96]; u8 msg[6][64]; u32 mlen[6];
  explicit Gen(u64 seed);
  void seed160(u8* out,int e,int d,int s); 
};
void key_from(const Api&,Key&k,const u8*seed);       // seeded derivation outside any fault plan
extern std::vector<u64> g_dict; void dictfill(u8*p,size_t n); void shape(u8*p,size_t n,const char*label); u64 dictlen(u64 l,u64 lo,u64 hi);
void drawmsg(u8* m,u64* len,const Gen&g,const char*label);
Key* refkey(const Gen&g,int e,int d,int s);          // cached reference-derived key (arena)
extern u8 g_stackgarb;

// ---- pool of genuine artefacts made by the reference node; a pure function of the seed and the index, cached across runs
enum { NPKEY=54, NPFULL=96 };
const Key* pool_key(int i);
struct Packet { int mode; u8* p; u64 n; u8* m; u64 ml; const Key* k; };   // mode 1 compact, 2 full, 3 lattice signature, 4 hash-based signature, 5 classical signed message, 6 lattice signed message, 7 hash-based signed message
Packet pool_full(int i);                             // packet i is for key i%9
Packet mk_compact(const Api& A,const Key*k,const u8*m,u64 ml,u64 stream,int ekind=0);
Packet mk_part(int mode,const Packet& from);         // component signature cut out of / made like a packet
struct Mut { u8* p; u64 n; char desc[160]; int kind; };
// adversarial / faulty channel: others = packets of the same mode the adversary also saw
Mut mutate(const Packet& a,const std::vector<Packet>& others,u64 k,u64 K);
extern "C" int ref_lax_dilithium_signature(int mode,u8*sig,size_t*siglen,const u8*m,size_t mlen,const u8*sk);
void world_init();                                   // clears all fault plans
int map_ref(int k);
void set_paint(u64); void swarm_noise();
