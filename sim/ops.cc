#include "api.h"
#include "hash_adapt.h"
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#define D(r,n,a) n,
const Api LIB={ API_LIST(D) };
#undef D
#define D(r,n,a) alt_##n,
const Api ALT={ API_LIST(D) };
#undef D
#define D(r,n,a) ref_##n,
const Api REF={ API_LIST(D) };
#undef D
static const char* NAMES[]={"none","hybrid keypair","hybrid keypair from seed","seed expander","compact sign","compact open","compact verify","full sign","full open","full verify","verify lattice","dilithium keypair","dilithium keypair from seed","dilithium signature","dilithium sign","dilithium verify","dilithium open","sphincs keypair","sphincs keypair from seed","sphincs signature","sphincs sign","sphincs verify","sphincs open","ed25519 keypair","ed25519 keypair from seed","ed25519 sign","ed25519 open","box keypair","randombytes","seedexpander wrapper","wasm keypair from seed","wasm keypair","wasm sign","wasm verify","wasm seed expander","wasm randombytes","wasm seedexpander","hash"};
const char* op_name(int k){ return k>=0&&k<K_COUNT?NAMES[k]:"?"; }
enum { GUARD=64 };
#ifdef SIM_ASAN_BUILD
Buf newbuf(size_t n,u64 g){ Buf b; b.base=(u8*)malloc(n?n:1); b.p=b.base; b.n=n; Rng r(g); r.fill(b.p,n); return b; }
void guards_ok(const Buf&,const char*){}
#else
Buf newbuf(size_t n,u64 g){ Buf b; b.base=(u8*)arena(n+2*GUARD); b.p=b.base+GUARD; b.n=n; memset(b.base,0xC3,GUARD); Rng r(g); r.fill(b.p,n); memset(b.p+n,0x3C,GUARD); return b; }
void guards_ok(const Buf&b,const char*w){ if(!b.p) return; for(int i=0;i<GUARD;i++) if(b.base[i]!=0xC3||b.p[b.n+i]!=0x3C) violate("out-of-bounds-write","%s wrote outside its %zu byte buffer",w,b.n); }
#endif
Buf inbuf(const void*d,size_t n){ Buf b=newbuf(n,1); if(n) memcpy(b.p,d,n); return b; }
void op_init(Op&o,int kind){ memset(&o,0,sizeof o); o.kind=kind; o.id=R->ops*7919+R->ntape; o.ent.fail_from=-1; o.ent.stream=mix64(R->seed*31+R->idx)^mix64(o.id+1000003*(R->ntape+1)+R->arena_used); }
bool op_needs_entropy(int k){ switch(k){case K_KEYGEN:case K_SIGNC:case K_SIGNF:case K_DKEY:case K_SKEY:case K_SSIG:case K_SSIGN:case K_EKEY:case K_BOXKEY:case K_RAND:case K_WKEY:case K_WSIGN:case K_WRAND:return true;} return false; }
bool op_len_out(int k){ switch(k){case K_SIGNC:case K_SIGNF:case K_OPENC:case K_OPENF:case K_DSIG:case K_DSIGN:case K_DOPEN:case K_SSIG:case K_SSIGN:case K_SOPEN:case K_ESIGN:case K_EOPEN:case K_WSIGN:return true;} return false; }
bool op_hybrid(int k){ switch(k){case K_KEYGEN:case K_KEYSEED:case K_SIGNC:case K_OPENC:case K_VERC:case K_SIGNF:case K_OPENF:case K_VERF:case K_VERD:case K_WKEY:case K_WKEYSEED:case K_WSIGN:case K_WVER:return true;} return false; }
size_t op_out1(const Op&o){ switch(o.kind){case K_KEYGEN:case K_KEYSEED:case K_WKEY:case K_WKEYSEED:return PKB;case K_EXPAND:case K_WEXPAND:return SEEDB;case K_SIGNC:case K_WSIGN:return CSIG0+(o.l1<=64?o.l1:64);case K_SIGNF:return FSIG0+(o.l1<=64?o.l1:64);case K_OPENC:case K_OPENF:return 64;case K_DKEY:case K_DKEYSEED:return DPK;case K_DSIG:return DSIG;case K_DSIGN:return DSIG+o.l1;case K_DOPEN:return o.l1;case K_SKEY:case K_SKEYSEED:return SPK;case K_SSIG:return SSIG;case K_SSIGN:return SSIG+o.l1;case K_SOPEN:return o.l1;case K_EKEY:case K_EKEYSEED:return EPK;case K_ESIGN:return ESIG+o.l1;case K_EOPEN:return o.l1;case K_BOXKEY:return 32;case K_RAND:case K_WRAND:return o.l1;case K_SEEDEXP:case K_WSEEDEXP:return o.l2;case K_HASH:return o.l3;} return 0; }
size_t op_out2(const Op&o){ switch(o.kind){case K_KEYGEN:case K_KEYSEED:case K_WKEY:case K_WKEYSEED:return SKB;case K_DKEY:case K_DKEYSEED:return DSK;case K_SKEY:case K_SKEYSEED:return SSK;case K_EKEY:case K_EKEYSEED:return ESK;case K_BOXKEY:return 32;} return 0; }
void op_outputs(Op&o,u64 g){ size_t a=op_out1(o),b=op_out2(o); if(a||o.kind==K_RAND) o.o1=newbuf(a,g+1); if(b) o.o2=newbuf(b,g+2); o.outlen=o.outlen0=0xABCD000000000000ull^g; }
bool op_exists(const Api&A,int k){ switch(k){
#define E(k,f) case k: return A.f!=nullptr;
E(K_KEYGEN,crypto_sign_dilithium_ed25519_sphincs_keypair) E(K_KEYSEED,crypto_sign_dilithium_ed25519_sphincs_keypair_seed) E(K_EXPAND,crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander) E(K_SIGNC,crypto_sign_compact_dilithium_ed25519_sphincs) E(K_OPENC,crypto_sign_compact_dilithium_ed25519_sphincs_open) E(K_VERC,crypto_verify_compact_dilithium_ed25519_sphincs) E(K_SIGNF,crypto_sign_dilithium_ed25519_sphincs) E(K_OPENF,crypto_sign_dilithium_ed25519_sphincs_open) E(K_VERF,crypto_verify_dilithium_ed25519_sphincs) E(K_VERD,crypto_verify_dilithium)
E(K_DKEY,PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair) E(K_DKEYSEED,PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_seed) E(K_DSIG,PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature) E(K_DSIGN,PQCLEAN_DILITHIUM2_CLEAN_crypto_sign) E(K_DVER,PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify) E(K_DOPEN,PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_open)
E(K_SKEY,PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_keypair) E(K_SKEYSEED,PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_seed_keypair) E(K_SSIG,PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_signature) E(K_SSIGN,PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign) E(K_SVER,PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_verify) E(K_SOPEN,PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_open)
E(K_EKEY,crypto_sign_ed25519_tweet_keypair) E(K_EKEYSEED,crypto_sign_ed25519_keypair_seed) E(K_ESIGN,crypto_sign_ed25519_tweet) E(K_EOPEN,crypto_sign_ed25519_tweet_open) E(K_BOXKEY,crypto_box_curve25519xsalsa20poly1305_tweet_keypair) E(K_RAND,randombytes) E(K_SEEDEXP,seedexpander_wrapper)
E(K_WKEYSEED,dp_sign_keypair_seed) E(K_WKEY,dp_sign_keypair) E(K_WSIGN,dp_sign) E(K_WVER,dp_sign_verify) E(K_WEXPAND,dp_sign_seedexpander) E(K_WRAND,dp_randombytes) E(K_WSEEDEXP,dp_seedexpander_wrapper)
case K_HASH: return &A==&LIB;
#undef E
} return false; }
static u64 g_paint_seed=0; void set_paint(u64 s){ g_paint_seed=s; }
static int call(const Api&A,Op&o){ size_t sl=(size_t)o.outlen; int r; u8*a=o.o1.p,*b=o.o2.p; bool sz=false;
  switch(o.kind){
  case K_KEYGEN: return A.crypto_sign_dilithium_ed25519_sphincs_keypair(a,b);
  case K_KEYSEED: return A.crypto_sign_dilithium_ed25519_sphincs_keypair_seed(a,b,(u8*)o.in1);
  case K_EXPAND: return A.crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(o.in1,a);
  case K_SIGNC: return A.crypto_sign_compact_dilithium_ed25519_sphincs(a,o.nulllen?nullptr:&o.outlen,o.in1,o.l1,o.in2);
  case K_OPENC: return A.crypto_sign_compact_dilithium_ed25519_sphincs_open(a,o.nulllen?nullptr:&o.outlen,o.in1,o.l1,o.in2);
  case K_VERC: return A.crypto_verify_compact_dilithium_ed25519_sphincs(o.in3,o.l3,o.in1,o.l1,o.in2);
  case K_SIGNF: return A.crypto_sign_dilithium_ed25519_sphincs(a,o.nulllen?nullptr:&o.outlen,o.in1,o.l1,o.in2);
  case K_OPENF: return A.crypto_sign_dilithium_ed25519_sphincs_open(a,o.nulllen?nullptr:&o.outlen,o.in1,o.l1,o.in2);
  case K_VERF: return A.crypto_verify_dilithium_ed25519_sphincs(o.in3,o.l3,o.in1,o.l1,o.in2);
  case K_VERD: return A.crypto_verify_dilithium(o.in3,o.l3,o.in1,o.l1,o.in2);
  case K_DKEY: return A.PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair(a,b);
  case K_DKEYSEED: return A.PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_seed(a,b,o.in1);
  case K_DSIG: sz=true; r=A.PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature(a,&sl,o.in1,o.l1,o.in2); break;
  case K_DSIGN: sz=true; r=A.PQCLEAN_DILITHIUM2_CLEAN_crypto_sign(a,&sl,o.in1,o.l1,o.in2); break;
  case K_DVER: return A.PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(o.in1,o.l1,o.in3,o.l3,o.in2);
  case K_DOPEN: sz=true; r=A.PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_open(a,&sl,o.in1,o.l1,o.in2); break;
  case K_SKEY: return A.PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_keypair(a,b);
  case K_SKEYSEED: return A.PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_seed_keypair(a,b,o.in1);
  case K_SSIG: sz=true; r=A.PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_signature(a,&sl,o.in1,o.l1,o.in2); break;
  case K_SSIGN: sz=true; r=A.PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign(a,&sl,o.in1,o.l1,o.in2); break;
  case K_SVER: return A.PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_verify(o.in1,o.l1,o.in3,o.l3,o.in2);
  case K_SOPEN: sz=true; r=A.PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_open(a,&sl,o.in1,o.l1,o.in2); break;
  case K_EKEY: return A.crypto_sign_ed25519_tweet_keypair(a,b);
  case K_EKEYSEED: return A.crypto_sign_ed25519_keypair_seed(a,b,(u8*)o.in1);
  case K_ESIGN: return A.crypto_sign_ed25519_tweet(a,&o.outlen,o.in1,o.l1,o.in2);
  case K_EOPEN: return A.crypto_sign_ed25519_tweet_open(a,&o.outlen,o.in1,o.l1,o.in2);
  case K_BOXKEY: return A.crypto_box_curve25519xsalsa20poly1305_tweet_keypair(a,b);
  case K_RAND: return A.randombytes(a,o.l1);
  case K_SEEDEXP: return A.seedexpander_wrapper(o.in1,o.l1,a,o.l2);
  case K_WKEYSEED: return A.dp_sign_keypair_seed(a,b,(u8*)o.in1);
  case K_WKEY: return A.dp_sign_keypair(a,b);
  case K_WSIGN: sz=true; r=A.dp_sign(a,&sl,o.in1,o.l1,o.in2); break;
  case K_WVER: return A.dp_sign_verify((u8*)o.in3,o.l3,o.in1,o.l1,o.in2);
  case K_WEXPAND: return A.dp_sign_seedexpander(o.in1,a);
  case K_WRAND: return A.dp_randombytes(a,o.l1);
  case K_WSEEDEXP: return A.dp_seedexpander_wrapper(o.in1,o.l1,a,o.l2);
  case K_HASH: ha_whole((int)o.l2,a,o.l3,o.in1,o.l1,o.aux); return 0;
  default: simerror("bad op kind %d",o.kind); }
  if(sz) o.outlen=(ull)sl; return r; }
int op_exec(const Api&A,Op&o){
  bool lib=&A!=&REF; Ent*save=ent_cur(); ent_set(&o.ent);
  if(lib){ if(!sched_active()) paint_stack(g_paint_seed?g_paint_seed+o.id:0); char nm[48]; snprintf(nm,sizeof nm,"op.%s",op_name(o.kind)); count(nm); errno=(int)(o.id%3==0?EINTR:o.id%3==1?0:EAGAIN); op_enter(o.kind); o.ret=call(A,o); op_leave(); evh(o.kind*1000003u+(u32)o.ret,o.o1.p&&o.kind!=K_RAND?hashbytes(o.o1.p,o.o1.n):0); guards_ok(o.o1,op_name(o.kind)); guards_ok(o.o2,op_name(o.kind)); }
  else o.ret=call(A,o);
  ent_set(save); return o.ret; }
void op_copy_outputs_fresh(Op&d,const Op&s,u64 g){ d=s; memset(&d.o1,0,sizeof d.o1); memset(&d.o2,0,sizeof d.o2); op_outputs(d,g); d.ent.delivered=0; d.ent.calls=d.ent.ncalls_total=0; d.ent.refpos=0; d.ent.eintr_left=0; d.ent.failing=false; d.ent.fail_from=-1; }
// compares results of the same call made twice (outputs beyond the returned length are not compared)
bool op_same_result(const Op&a,const Op&b,std::string*why){ auto f=[&](const char*w){ if(why)*why=w; return false; };
  if((a.ret==0)!=(b.ret==0)||a.ret!=b.ret) return f("return code"); if(a.ret!=0) return true;
  if(op_len_out(a.kind)){ if(a.outlen!=b.outlen) return f("returned length"); size_t n=(size_t)a.outlen; if(n>a.o1.n) return f("returned length exceeds buffer"); if(memcmp(a.o1.p,b.o1.p,n)) return f("output bytes"); }
  else { if(a.o1.n&&memcmp(a.o1.p,b.o1.p,a.o1.n)) return f("output bytes"); if(a.o2.n&&memcmp(a.o2.p,b.o2.p,a.o2.n)) return f("second output"); }
  return true; }
Gen::Gen(u64 seed):s(seed){ Rng r(seed); for(int i=0;i<3;i++){ r.fill(e[i],32); r.fill(d[i],32); r.fill(sp[i],96); }
  // related values: same prefixes, single-bit differences, extreme bytes
  int m=(int)r.below(6); if(m==1){ memcpy(e[1],e[0],31); memcpy(d[1],d[0],31); memcpy(sp[1],sp[0],95); } if(m==2){ memcpy(e[1],e[0],32); e[1][0]^=1; memcpy(d[1],d[0],32); d[1][31]^=0x80; memcpy(sp[1],sp[0],96); sp[1][64]^=1; } if(m==3){ memset(e[2],0,32); memset(d[2],0,32); memset(sp[2],0,96);} if(m==4){ memset(e[2],0xff,32); memset(d[2],0xff,32); memset(sp[2],0xff,96);} if(m==5){ memcpy(sp[1],sp[0],64); memcpy(e[1]+16,e[0]+16,16); memcpy(d[1],e[0],32); }
  for(int i=0;i<6;i++){ r.fill(msg[i],64); static const u32 L[]={1,32,64,2,63,20,31,33,8,16}; mlen[i]= r.below(3)?1+(u32)r.below(64):L[r.below(10)]; int k=(int)r.below(8); if(k==1) memset(msg[i],0,64); if(k==2) memset(msg[i],0xff,64); if(k==3&&i){ memcpy(msg[i],msg[i-1],63); mlen[i]=mlen[i-1]; if(mlen[i]) msg[i][mlen[i]-1]^=1; } if(k==4&&i){ memcpy(msg[i],msg[i-1],64); mlen[i]=1+mlen[i-1]%64; } if(k==5) memset(msg[i],0,1+r.below(63)); } }
void Gen::seed160(u8*o,int a,int b,int c){ memcpy(o,e[a],32); memcpy(o+32,d[b],32); memcpy(o+64,sp[c],96); }
void key_from(const Api&A,Key&k,const u8*seed){ memcpy(k.seed,seed,SEEDB); Ent*s=ent_cur(); u8 t[SEEDB]; memcpy(t,seed,SEEDB); if(A.crypto_sign_dilithium_ed25519_sphincs_keypair_seed(k.pk,k.sk,t)) violate("derive-failed","seeded key derivation failed"); ent_set(s); }
// unusual contents: drawn structure imposed on a buffer that is otherwise random. 0 leaves it alone.
std::vector<u64> g_dict;
void dictfill(u8*p,size_t n);
void shape(u8*p,size_t n,const char*lb){ if(!n) return; if(!g_dict.empty()&&draw(3,"dict")==2){ dictfill(p,n); return; } u64 c=draw(24,lb); if(c<12) return; count("probe.shaped_inputs"); u64 k=1+draw(n<8?n:8,"sk");
  switch(c){ case 12: memset(p,0,k); break; case 13: memset(p+n-k,0,k); break; case 14: memset(p,0xff,k); break; case 15: memset(p+n-k,0xff,k); break; case 16: memset(p,(int)draw(256,"sb"),n); break; case 17: for(size_t i=0;i<n;i++) p[i]&=0x0f; break;
    case 18: { size_t a=draw(n,"so"); for(size_t i=a;i<n&&i<a+k;i++) p[i]=0; break; } case 19: { u8 b=(u8)draw(256,"sb"); for(size_t i=0;i<n;i++) p[i]=(u8)(b+i); break; } case 20: { size_t a=n/2; memcpy(p+a,p,n-a<a?n-a:a); break; } case 21: for(size_t i=0;i<n;i+=32){ p[i]=0; if(draw(2,"s2")&&i+1<n) p[i+1]=(u8)draw(16,"sb"); } break;
    default: p[draw(n,"so")]=(u8)draw(256,"sb"); } }
void dictfill(u8*p,size_t n){ if(g_dict.empty()||!n) return; size_t D=g_dict.size(); u64 how=draw(5,"dhow"); count("probe.dictionary_inputs"); auto put=[&](size_t a,u64 v)->size_t{ size_t w= v>0xffffffffull?8:v>0xffff?4:v>0xff?2:1; bool be=w>1&&draw(2,"be"); for(size_t i=0;i<w&&a+i<n;i++) p[a+i]=(u8)(v>>(8*(be?w-1-i:i))); return w; };
  if(how==4){ u64 k=1+draw(3,"dk"); for(u64 j=0;j<k;j++){ u64 a=g_dict[draw(D,"da")]; if(a>=n) a=draw(n,"so"); u64 w=draw(4,"dw"); p[a]=w==0?0:w==1?0xff:w==2?(u8)g_dict[draw(D,"dv")]:(u8)draw(256,"sb"); } return; } // a constant as position
  if(how==0){ for(size_t i=0;i<n;i++) p[i]=(u8)g_dict[draw(D,"dv")]; } else if(how==3){ u64 k=1+draw(4,"dk"); for(u64 j=0;j<k;j++) put(draw(n,"so"),g_dict[draw(D,"dv")]); }
  else { size_t a=draw(2,"d0")?0:draw(2,"dend")?n-1-draw(n<4?n:4,"de"):draw(n,"so"); size_t s=draw(D,"ds"),k=1+draw(6,"dk"); for(size_t j=0;j<k&&s+j<D&&a<n;j++) a+=put(a,g_dict[s+j]); } }
u64 dictlen(u64 l,u64 lo,u64 hi){ if(g_dict.empty()||draw(4,"dl")!=3) return l; u64 v=g_dict[draw(g_dict.size(),"dlv")]+draw(3,"d1")-1; return v>=lo&&v<=hi?v:l; }
void drawmsg(u8*m,u64*len,const Gen&g,const char*label){ u64 c=draw(9,label); if(c<6){ memcpy(m,g.msg[c],64); *len=g.mlen[c]; } else { Rng r(drawseed("msg")+77); r.fill(m,64); *len=1+sdraw(64,"mlen"); shape(m,*len,"shape"); } if(!g_dict.empty()){ *len=dictlen(*len,1,64); if(draw(3,"dict")==2) dictfill(m,*len); } }
Key* refkey(const Gen&g,int e,int d,int s){ Key*k=(Key*)arena(sizeof(Key)); u8 sd[SEEDB]; Gen&gg=(Gen&)g; gg.seed160(sd,e,d,s); key_from(REF,*k,sd); return k; }

// whole life of one context; aux draws the fragmentation and, for one in two, a clone that takes over while the original is released
void ha_whole(int alg,u8*out,size_t ol,const u8*in,size_t il,u64 aux){ u8 ca[256],cb[256]; u8*c=ca,*d=cb; memset(ca,0xCC,sizeof ca); memset(cb,0x33,sizeof cb); Rng r(aux); bool inc=alg<A_SHAKE128B; bool cl=aux&1; 
  auto swap=[&]{ if(cl&&r.below(2)==0){ ha_clone(alg,d,c); ha_release(alg,c); memset(c,0xCC,256); u8*t=c; c=d; d=t; } };
  if(inc){ ha_init(alg,c); size_t p=0; while(p<il){ size_t n=aux?1+r.below(il-p):il-p; ha_absorb(alg,c,in+p,n); p+=n; swap(); } ha_final(alg,c,out); if(ha_dlen(alg)) return; swap(); } else { ha_absorb(alg,c,in,il); swap(); }
  if(alg==A_SHAKE128B||alg==A_SHAKE256B){ u8 t[200]; size_t p=0; unsigned rt=ha_rate(alg); while(p<ol){ ha_squeeze(alg,c,t,1); size_t n=ol-p<rt?ol-p:rt; memcpy(out+p,t,n); p+=n; swap(); } } else if(alg==A_EXPANDER) ha_squeeze(alg,c,out,ol); else { size_t p=0; while(p<ol){ size_t n=aux?1+r.below(ol-p):ol-p; ha_squeeze(alg,c,out+p,n); p+=n; swap(); } }
  ha_release(alg,c); }
