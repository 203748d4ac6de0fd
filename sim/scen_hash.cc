// Scenarios: C13 incremental hashing, C14 seed sensitivity, C16 wiping.
#include "api.h"
#include "hash_adapt.h"
#include "kref.h"
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/mman.h>
#include "vast.h"
struct HC { int alg; u8*c; std::vector<u8> in; u64 out; bool fin; u8 cloned; };
static const char*AN[]={"SHAKE128","SHAKE256","SHA3-256","SHA3-384","SHA3-512","SHAKE128 blocks","SHAKE256 blocks","seed expander"};
#define HOP(x) do{ op_enter(K_HASH); x; op_leave(); }while(0)
static u64 hlen(int alg,const char*lb){ unsigned r=ha_rate(alg); if(!g_dict.empty()&&draw(4,"hd")==3) return dictlen(draw(40,"l"),0,3000); switch(draw(7,lb)){ case 0: return draw(9,"l"); case 1: return r-3+draw(7,"l"); case 2: return 2*r-2+draw(5,"l"); case 3: return logdraw(2000,"l"); case 4: return draw(r+1,"l"); case 5: return r; default: return draw(40,"l"); } }
static u64 hbig(const char*lb){ static const u64 B[]={65535,65536,65537,70000,131071,131072,131073,32767,32768,65536+136,65536+168,65536*2+72,262144+5}; count("probe.large_sizes"); return draw(3,lb)==2?logdraw(300000,"bl"):B[draw(13,"bl")]; }
static void expect(const HC&h,u64 from,const u8*got,u64 n,const char*what){ std::vector<u8> e(from+n+1); std::vector<u8> in=h.in; if(h.alg==A_EXPANDER) return; kref(e.data(),from+n,in.data(),in.size(),ha_rate(h.alg),ha_pad(h.alg)); if(memcmp(e.data()+from,got,n)) violate("wrong-digest","%s: %s of %zu input bytes differs from the standard function (output bytes %lu to %lu)",AN[h.alg],what,in.size(),(unsigned long)from,(unsigned long)(from+n)); count("probe.outputs_checked"); }
static void hash_session(int ncontext,int nsteps,bool threads_safe){ (void)threads_safe;
  std::vector<HC> H; for(int i=0;i<ncontext;i++){ HC h; h.alg=(int)draw(A_EXPANDER,"alg"); h.c=(u8*)malloc(256); memset(h.c,0xA7,256); h.out=0; h.fin=false; h.cloned=0; if(h.alg<A_SHAKE128B) HOP(ha_init(h.alg,h.c)); else { u64 n=hlen(h.alg,"len0"); u8*b=agarb(n+1,drawseed("d")); HOP(ha_absorb(h.alg,h.c,b,n)); h.in.assign(b,b+n); h.fin=true; } H.push_back(h); }
  for(int s=0;s<nsteps&&!H.empty();s++){ size_t i=draw(H.size(),"ctx"); HC&h=H[i]; int act=(int)draw(8,"act"); bool fixed=ha_dlen(h.alg)!=0;
    if(act==0&&H.size()<8){ HC c; c.alg=h.alg; c.c=(u8*)malloc(256); memset(c.c,0x5B,256); HOP(ha_clone(h.alg,c.c,h.c)); c.in=h.in; c.out=h.out; c.fin=h.fin; c.cloned=1; evh(s,h.alg); H.push_back(c); count("probe.clones"); R->nontrivial=1; continue; }
    if(!h.fin&&act<6){ u64 n=hlen(h.alg,"frag"); if(h.in.size()+n>6000) n=1; if(h.in.size()<8000&&draw(60,"bigfrag")==59) n=hbig("bf"); u8*b=agarb(n+1,drawseed("d")); u64 hb=hashbytes(b,n); HOP(ha_absorb(h.alg,h.c,b,n)); if(hashbytes(b,n)!=hb) violate("input-modified","%s modified its input",AN[h.alg]); h.in.insert(h.in.end(),b,b+n); evh(n,h.alg); R->nontrivial=1; continue; }
    if(!h.fin){ if(fixed){ Buf o=newbuf(ha_dlen(h.alg),s); HOP(ha_final(h.alg,h.c,o.p)); guards_ok(o,"digest"); expect(h,0,o.p,o.n,"incremental digest"); free(h.c); H.erase(H.begin()+i); ev("digest ok"); } else { HOP(ha_final(h.alg,h.c,nullptr)); h.fin=true; } continue; }
    if(h.alg==A_SHAKE128B||h.alg==A_SHAKE256B){ u64 nb=1+draw(4,"blocks"); if(h.out<8000&&draw(40,"manyblocks")==39) nb=(u64[]){255,256,257,300,512,700}[draw(6,"nb")]; Buf o=newbuf(nb*ha_rate(h.alg),s); HOP(ha_squeeze(h.alg,h.c,o.p,nb)); guards_ok(o,"blocks"); expect(h,h.out,o.p,o.n,"block output"); h.out+=o.n; R->nontrivial=1; continue; }
    u64 n=hlen(h.alg,"piece"); if(h.out>5000) n=n%9; if(h.out<8000&&draw(60,"bigpiece")==59) n=hbig("bp"); Buf o=newbuf(n,s); HOP(ha_squeeze(h.alg,h.c,o.p,n)); guards_ok(o,"piece"); if(n) expect(h,h.out,o.p,n,h.cloned?"output of a clone":"piecewise output"); h.out+=n; evh(n,1); R->nontrivial=1; }
  // drain every remaining context
  for(auto&h:H){ if(!h.fin){ if(ha_dlen(h.alg)){ Buf o=newbuf(ha_dlen(h.alg),1); HOP(ha_final(h.alg,h.c,o.p)); guards_ok(o,"digest"); expect(h,0,o.p,o.n,"incremental digest"); free(h.c); continue; } HOP(ha_final(h.alg,h.c,nullptr)); h.fin=true; } if(h.alg<A_SHAKE128B){ Buf o=newbuf(50,1); HOP(ha_squeeze(h.alg,h.c,o.p,50)); expect(h,h.out,o.p,50,"output"); } HOP(ha_release(h.alg,h.c)); free(h.c); } }
static void expander_session(){
  u64 l=32+draw(100,"sl"); if(draw(12,"longseed")==11) l=draw(2,"ls")?250+draw(14,"ls"):32+hbig("ls"); u8*s=agarb(l,drawseed("sd")+1); int z=(int)draw(5,"z"); if(z==1) memset(s,0,l); if(z==2) memset(s,0xff,l); u64 big=l+1+hlen(A_EXPANDER,"ol"); if(draw(16,"bigout")==15) big=l+1+hbig("bo"); bool wasm=draw(4,"w")==3&&op_exists(LIB,K_WSEEDEXP); Op w; op_init(w,wasm?K_WSEEDEXP:K_SEEDEXP); w.in1=inbuf(s,l).p; w.l1=l; w.l2=big; op_outputs(w,1); op_exec(LIB,w); if(w.ret) violate("expander-failed","the seed expander refused a %lu byte seed for %lu bytes",(unsigned long)l,(unsigned long)big);
  int n=1+(int)draw(4,"n"); for(int i=0;i<n;i++){ u64 o2=l+1+logdraw(900,"ol2"); Op x; op_init(x,K_SEEDEXP); x.in1=inbuf(s,l).p; x.l1=l; x.l2=o2; op_outputs(x,i+2); op_exec(LIB,x); if(x.ret) violate("expander-failed","seed expander failed"); u64 c=o2<big?o2:big; if(memcmp(x.o1.p,w.o1.p,c)) violate("different-stream","the seed expander gives another stream for the same seed (%lu and %lu bytes)",(unsigned long)big,(unsigned long)o2); }
  // piecewise, in whole words
  u8 c[256]; memset(c,0x99,sizeof c); HOP(ha_absorb(A_EXPANDER,c,s,l)); u64 p=0; while(p<big){ u64 k=8*(1+draw(20,"k")); if(big>20000&&draw(3,"kb")) k=8*(1+logdraw(big/8,"kk")); bool last=k>=big-p; if(last) k=big-p; Buf o=newbuf(k,p+1); HOP(ha_squeeze(A_EXPANDER,c,o.p,k)); guards_ok(o,"expander"); if(memcmp(o.p,w.o1.p+p,k)) violate("different-stream","the seed expander read in pieces gives another stream (bytes %lu to %lu)",(unsigned long)p,(unsigned long)(p+k)); p+=k; } HOP(ha_release(A_EXPANDER,c));
  // refusals
  for(int i=0;i<4;i++){ Op b; op_init(b,draw(4,"bw")==3&&op_exists(LIB,K_WSEEDEXP)?K_WSEEDEXP:K_SEEDEXP); b.in1=inbuf(s,l).p; b.l1=l; b.l2=l+1+draw(100,"o"); int r=(int)draw(4,"bad"); u64 real=b.l2; if(r==2){ b.l1=draw(32,"short"); b.l2=b.l1+1+draw(300,"o3"); } if(r==3) b.l2=draw(l+1,"small"); op_outputs(b,i); if(!b.o1.p) b.o1=newbuf(1,1); if(r==0) b.in1=nullptr; Buf keep=b.o1; if(r==1){ b.o1.p=nullptr; b.o1.n=0; } (void)real; op_exec(LIB,b); (void)keep; if(b.ret==0) violate("not-refused","the seed expander accepted %s",r==0?"a missing seed":r==1?"a missing output":r==2?"a seed shorter than 32 bytes":"an output not longer than the seed"); count("probe.refusals"); } R->nontrivial=1; ev("expander: %lu byte seed, %lu bytes",(unsigned long)l,(unsigned long)big); }
// Requests of more than 4 GiB: the process is ended after a bounded number of steps, as a crash would. A call that does return must have done all of it.
static void vast_session(){
  static const int D[]={0,1,8,137,300}; int d=D[draw(5,"d")], alg=(int)draw(5,"alg"), f=(int)draw(5,"form"); if(f>=2&&f<4) alg&=1; u64 n=(1ull<<32)+(u64)d; unsigned r=ha_rate(alg); int p=f>=2?0:ha_pad(alg); const VastRow*row=nullptr; for(auto&v:VAST) if(v.r==r&&v.p==p&&v.d==d) row=&v; if(!row&&f!=4) simerror("no table entry");
  int rc=incarnate([&]{ u8*big=(u8*)mmap(0,n+8192,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(big==MAP_FAILED) _exit(EX_OK); u8 o[64]={0},one=0; u8 c[256]; memset(c,0x99,sizeof c); set_crash_at(1500000+draw(1500000,"crash")); const u8*t=o; int ret=0;
    if(f==0){ HOP(ha_init(alg,c)); HOP(ha_absorb(alg,c,big,n)); HOP(ha_final(alg,c,o)); if(!ha_dlen(alg)) HOP(ha_squeeze(alg,c,o,16)); }
    else if(f==1){ HOP(ha_oneshot(alg,o,ha_dlen(alg)?ha_dlen(alg):16,big,n)); }
    else if(f==2){ HOP(ha_oneshot(alg,big,n,&one,0)); t=big+n-16; }
    else if(f==3){ HOP(ha_init(alg,c)); HOP(ha_absorb(alg,c,&one,0)); HOP(ha_final(alg,c,nullptr)); HOP(ha_squeeze(alg,c,big,n)); t=big+n-16; }
    else { u8*s=agarb(64,5); op_enter(K_SEEDEXP); ret=LIB.seedexpander_wrapper(s,64,big,n); op_leave(); if(ret) violate("expander-failed","the seed expander refused a request for %lu bytes",(unsigned long)n); bool z=true; for(int i=1;i<=16;i++) if(big[n-i]) z=false; if(z) violate("wrong-digest","the seed expander reported success for %lu bytes but did not write the end of them",(unsigned long)n); return; }
    if(memcmp(t,&row->a,8)||memcmp(t+8,&row->b,8)) violate("wrong-digest","%s: %s of %lu bytes differs from the standard function",AN[alg],f==0?"incremental input":f==1?"one-shot input":f==2?"one-shot output":"incremental output",(unsigned long)n); });
  if(rc!=EX_OK&&rc!=EX_CRASHED) _exit(rc); count("probe.over_4GiB"); R->nontrivial=1; ev("%s form %d over 4 GiB: %s",AN[alg],f,rc==EX_CRASHED?"ended while in progress":"complete"); }
void scen_C13(){
  if(R->idx%331==330||R->idx==90){ world_init(); R->scenario=5; vast_session(); return; }
  world_init(); g_mem.garbage=1+drawseed("heap"); set_paint(drawseed("paint")); int fam=(int)(R->idx%5); R->scenario=fam;
  if(fam==3){ expander_session(); return; }
  if(fam==4){ // contexts in several threads
    int nt=2+(int)draw(3,"threads"); std::vector<std::vector<Op*>> ops(nt); std::vector<std::function<void()>> fs; for(int t=0;t<nt;t++) for(int i=0;i<1+(int)draw(4,"n");i++){ Op*o=(Op*)arena(sizeof(Op)); op_init(*o,K_HASH); o->l2=draw(A_EXPANDER,"alg"); o->l1=hlen((int)o->l2,"len"); o->in1=agarb(o->l1+1,drawseed("d")); o->l3=ha_dlen((int)o->l2); if(!o->l3) o->l3=1+hlen((int)o->l2,"ol"); o->aux=drawseed("frag"); op_outputs(*o,i); ops[t].push_back(o); }
    for(int t=0;t<nt;t++) fs.push_back([&ops,t]{ for(auto*o:ops[t]) op_exec(LIB,*o); }); SchedCfg cfg={(int)draw(2,"policy"),(u64)1<<(4+draw(14,"span"))}; sched_run(fs,cfg); for(auto&v:ops) for(auto*o:v){ std::vector<u8> e(o->l3); kref(e.data(),o->l3,o->in1,o->l1,ha_rate((int)o->l2),ha_pad((int)o->l2)); if(memcmp(e.data(),o->o1.p,o->l3)) violate("wrong-digest","%s of %lu bytes computed while other threads hash differs from the standard function",AN[o->l2],(unsigned long)o->l1); count("probe.outputs_checked"); } ev("%d threads, %lu switches",nt,(unsigned long)R->switches); return; }
  if(fam==2){ int n=2+(int)draw(6,"n"); for(int i=0;i<n;i++){ int alg=(int)draw(5,"alg"); u64 l=hlen(alg,"len"); if(draw(3,"strat")) l=sdrawk(400,"sl",i,8); u64 ol=ha_dlen(alg)?ha_dlen(alg):hlen(alg,"ol"); if(draw(24,"biglen")==23){ if(ha_dlen(alg)||draw(2,"which")) l=hbig("bi"); else ol=hbig("bo"); } u8*b=agarb(l+1,drawseed("d")); Buf o=newbuf(ol,i); HOP(ha_oneshot(alg,o.p,ol,b,l)); guards_ok(o,"one-shot"); HC h; h.alg=alg; h.in.assign(b,b+l); expect(h,0,o.p,ol,"one-shot output"); } R->nontrivial=1; }
  hash_session(fam==0?1:2+(int)draw(5,"ncontext"),4+(int)draw(30,"steps"),true); ev("session done"); }

// ---------------------------------------------------------------- C14
void scen_C14(){
  world_init(); g_mem.garbage=1+drawseed("heap"); set_paint(0); int fam=(int)(R->idx%4); R->scenario=fam; Gen g(mix64(drawseed("gen"))); const int K=10; int n=4+(int)draw(K-3,"n");
  auto derive=[&](int kind,const u8*seed,size_t sl)->Op{ Op o; op_init(o,kind); o.in1=inbuf(seed,sl).p; op_outputs(o,3); op_exec(LIB,o); if(o.ret) violate("derive-failed","%s failed",op_name(kind)); return o; };
  auto damage=[&](u8*s,size_t n,int i,std::vector<int>&ch,char*d){ int w=(int)draw(8,"damage"); u64 p=sdrawk(n,"pos",i,K); if(w<=3){ s[p]^=(u8)(1<<draw(8,"bit")); sprintf(d,"bit of byte %lu",(unsigned long)p); } else if(w==4){ s[p]^=(u8)(1+draw(255,"x")); sprintf(d,"byte %lu",(unsigned long)p); } else if(w==5){ u64 q=draw(n,"pos2"); u8 x=(u8)(1+draw(255,"x")); s[p]^=x; s[q]^=x; sprintf(d,"same change in bytes %lu and %lu",(unsigned long)p,(unsigned long)q); } else if(w==6){ u64 q=draw(n,"pos2"); u8 t=s[p]; s[p]=s[q]; s[q]=t; sprintf(d,"bytes %lu and %lu exchanged",(unsigned long)p,(unsigned long)q); } else { u64 q=draw(n,"pos2"); u8 x=(u8)(1+draw(255,"x")); s[p]+=x; s[q]-=x; sprintf(d,"bytes %lu and %lu changed in opposite directions",(unsigned long)p,(unsigned long)q); } fault("seed_damage"); };
  // where this build departs from the reference release, look closely: does another seed lead to the same key?
  auto hunt=[&](int kind,const u8*s,const Op&o){ static u8 rp[PKB],rs[SKB]; Op r; op_init(r,K_KEYSEED); u8 sc[SEEDB]; memcpy(sc,s,SEEDB); r.in1=sc; r.o1.p=rp; r.o1.n=PKB; r.o2.p=rs; r.o2.n=SKB; op_exec(REF,r); if(r.ret) return; static const struct { int a,n,so,sn; const char*nm; } RG[]={{0,32,SK_E,64,"classical"},{32,32,SK_D,DSK,"lattice"},{64,96,SK_S,SSK,"hash-based"}};
    for(auto&g:RG) if(memcmp(o.o2.p+g.so,rs+g.so,g.sn)){ count("probe.departures_searched"); auto tryseed=[&](const u8*t,const char*d,int x){ if(!memcmp(t+g.a,s+g.a,g.n)) return; Op q=derive(kind,t,SEEDB); if(!memcmp(q.o2.p+g.so,o.o2.p+g.so,g.sn)) violate("seed-byte-ignored","another key seed (%s %d) gives the same %s secret key",d,x,g.nm); };
      u8 t[SEEDB]; memcpy(t,s,SEEDB); if(g.so!=SK_D){ memcpy(t+g.a,o.o2.p+g.so,g.n); tryseed(t,"the one stored in the secret key",0); }
      for(int i=0;i<g.n;i++){ memcpy(t,s,SEEDB); t[g.a+i]^=1; tryseed(t,"changed in byte",g.a+i); memcpy(t,s,SEEDB); t[g.a+i]^=0x80; tryseed(t,"changed in byte",g.a+i); } return; } };
  if(fam==0||fam==2){ u8 seed[SEEDB]; if(draw(2,"rnd")) Rng(drawseed("sd")+1).fill(seed,SEEDB); else g.seed160(seed,(int)draw(3,"e"),(int)draw(3,"d"),(int)draw(3,"s")); shape(seed,32,"shape"); shape(seed+32,32,"shape"); shape(seed+64,96,"shape"); int kind=draw(5,"w")==4&&op_exists(LIB,K_WKEYSEED)?K_WKEYSEED:K_KEYSEED; Op b=derive(kind,seed,SEEDB); hunt(kind,seed,b); for(int i=0;i<3;i++){ u8 t[SEEDB]; Rng(drawseed("xs")+1).fill(t,SEEDB); for(int z=0;z<2;z++){ shape(t,32,"shape"); shape(t+32,32,"shape"); shape(t+64,96,"shape"); } Op q=derive(kind,t,SEEDB); hunt(kind,t,q); } for(int i=0;i<n;i++){ u8 s[SEEDB]; memcpy(s,seed,SEEDB); char d[96]; std::vector<int> ch; damage(s,SEEDB,i,ch,d); if(!memcmp(s,seed,SEEDB)) continue; Op o=derive(kind,s,SEEDB); if(i%3==0) hunt(kind,s,o); ev("%s -> secret key %s",d,memcmp(o.o2.p,b.o2.p,SKB)?"differs":"same"); if(!memcmp(o.o2.p,b.o2.p,SKB)) violate("seed-byte-ignored","damage to the key seed (%s) goes unnoticed: same secret key",d);
      // every byte matters to the component it belongs to: the damaged region's secret key must change
      auto reg=[&](int a,int z,int so,int sn,const char*nm){ if(memcmp(s+a,seed+a,z-a)&&!memcmp(o.o2.p+so,b.o2.p+so,sn)) violate("seed-byte-ignored","damage to the key seed (%s) leaves the %s secret key unchanged",d,nm); }; reg(0,32,SK_E,64,"classical"); reg(32,64,SK_D,DSK,"lattice"); reg(64,160,SK_S,SSK,"hash-based"); } }
  else if(fam==1){ u8 rs[RSEEDB]; if(draw(2,"rnd")) Rng(drawseed("sd")+1).fill(rs,RSEEDB); else memcpy(rs,g.sp[draw(3,"s")],RSEEDB); shape(rs,RSEEDB,"shape"); int kind=draw(5,"w")==4&&op_exists(LIB,K_WEXPAND)?K_WEXPAND:K_EXPAND; Op b=derive(kind,rs,RSEEDB);
    auto xhunt=[&](const u8*s,const Op&o){ static u8 x[SEEDB]; Op r; op_init(r,K_EXPAND); u8 sc[RSEEDB]; memcpy(sc,s,RSEEDB); r.in1=sc; r.o1.p=x; r.o1.n=SEEDB; op_exec(REF,r); if(r.ret||!memcmp(x,o.o1.p,SEEDB)) return; count("probe.departures_searched"); for(int i=0;i<RSEEDB;i++) for(int h=0;h<3;h++){ if(i<64&&(i&1)) continue; u8 t[RSEEDB]; memcpy(t,s,RSEEDB); t[i]^=h==0?1:h==1?0x80:0xff; Op q=derive(kind,t,RSEEDB); if(!memcmp(q.o1.p,o.o1.p,SEEDB)) violate("seed-byte-ignored","another recovery seed (changed in byte %d) gives the same expanded seed",i); } };
    xhunt(rs,b); for(int i=0;i<12;i++){ u8 t[RSEEDB]; Rng(drawseed("xs")+1).fill(t,RSEEDB); shape(t,RSEEDB,"shape"); if(draw(2,"twice")) shape(t,RSEEDB,"shape"); Op q=derive(kind,t,RSEEDB); xhunt(t,q); } for(int i=0;i<n*6;i++){ u8 s[RSEEDB]; memcpy(s,rs,RSEEDB); char d[96]; std::vector<int> ch; damage(s,RSEEDB,i,ch,d); if(!memcmp(s,rs,RSEEDB)) continue; Op o=derive(kind,s,RSEEDB); bool same=!memcmp(o.o1.p,b.o1.p,SEEDB); evh(i,same); if(same){ bool only_odd=true; for(int x=0;x<RSEEDB;x++) if(s[x]!=rs[x]&&!(x<64&&(x&1))) only_odd=false; if(only_odd) known("recovery-seed-odd-bytes-ignored"); else violate("seed-byte-ignored","damage to the recovery seed (%s) goes unnoticed: same expanded seed",d); } else if(draw(12,"keys")==11){ Op k1=derive(K_KEYSEED,b.o1.p,SEEDB),k2=derive(K_KEYSEED,o.o1.p,SEEDB); if(!memcmp(k1.o2.p,k2.o2.p,SKB)) violate("seed-byte-ignored","damage to the recovery seed (%s) gives the same secret key",d); } } ev("recovery seed: %d damages",n*6); }
  else { static const int KS[]={K_KEYGEN,K_DKEY,K_SKEY,K_EKEY,K_BOXKEY,K_KEYGEN,K_WKEY,K_KEYGEN}; int kind=KS[draw(8,"kind")]; if(!op_exists(LIB,kind)) kind=K_KEYGEN; Op b; op_init(b,kind); if(draw(3,"ek")==2) b.ent.kind=1+(int)draw(8,"ekind"); op_outputs(b,3); u64 stream=b.ent.stream; op_exec(LIB,b); if(b.ret) violate("keygen-failed","%s failed",op_name(kind)); u64 need= kind==K_KEYGEN||kind==K_WKEY?SEEDB:kind==K_SKEY?96:32;
    { Op r; op_init(r,kind==K_WKEY?K_KEYGEN:kind); op_outputs(r,3); r.ent=b.ent; r.ent.delivered=0; Ent fe; memset(&fe,0,sizeof fe); fe.fail_from=-1; fe.stream=stream; fe.kind=b.ent.kind; r.ent=fe; op_exec(REF,r); if(r.ret==0&&memcmp(r.o2.p,b.o2.p,op_out2(b))){ count("probe.departures_searched"); for(u64 x=0;x<need;x++){ Op o; op_init(o,kind); op_outputs(o,3); o.ent=fe; o.ent.flip_pos=x; o.ent.flip_mask=1; op_exec(LIB,o); if(!o.ret&&!memcmp(o.o2.p,b.o2.p,op_out2(o))) violate("entropy-byte-ignored","%s: entropy byte %lu delivered by the system does not influence the key pair",op_name(kind),(unsigned long)x); } } }
    for(int i=0;i<n;i++){ Op o; op_init(o,kind); op_outputs(o,3); o.ent.stream=stream; o.ent.kind=b.ent.kind; o.ent.flip_pos=sdrawk(need,"epos",i,K); o.ent.flip_mask=(u8)(1<<draw(8,"bit")); fault("entropy_bit_flip"); op_exec(LIB,o); if(o.ret) violate("keygen-failed","%s failed",op_name(kind)); bool same=!memcmp(o.o2.p,b.o2.p,op_out2(o)); ev("%s: entropy byte %lu -> secret key %s",op_name(kind),(unsigned long)o.ent.flip_pos,same?"same":"differs"); if(same) violate("entropy-byte-ignored","%s: entropy byte %lu delivered by the system does not influence the key pair",op_name(kind),(unsigned long)o.ent.flip_pos); } } }

// ---------------------------------------------------------------- C16
static std::vector<std::pair<void*,size_t>> owned; static int frees_seen;
static void wiped(void*p,size_t n){ for(auto&x:owned) if(x.first==p){ frees_seen++; for(size_t i=0;i<n;i++) if(((u8*)p)[i]) violate("not-wiped","byte %zu of a %zu byte buffer is not zero when the allocator gets it back",i,n); count("probe.wiped_buffers"); return; } }
void scen_C16(){
  world_init(); g_mem.garbage=1+drawseed("heap"); set_paint(0); R->scenario=0; if(!LIB.mem_alloc||!LIB.mem_free) return; owned.clear(); frees_seen=0; g_free_hook=wiped; struct B { u8*p; size_t n; }; std::vector<B> v; int steps=4+(int)draw(40,"steps"); const Key*k=pool_key((int)draw(NPKEY,"key"));
  auto alloc=[&](size_t n)->B{ B b; b.n=n; op_enter(K_NONE); b.p= LIB.mem_alloc_long_long&&n%8==0&&draw(4,"ll")==3?(u8*)LIB.mem_alloc_long_long(n):LIB.mem_alloc(n); op_leave(); if(!b.p) violate("alloc-failed","mem_alloc failed"); owned.push_back({b.p,n}); v.push_back(b); return b; };
  auto rel=[&](size_t i){ B b=v[i]; int before=frees_seen; op_enter(K_NONE); LIB.mem_free(b.p,b.n); op_leave(); if(frees_seen!=before+1) violate("not-released","mem_free did not give the buffer back"); for(size_t j=0;j<owned.size();j++) if(owned[j].first==b.p){ owned.erase(owned.begin()+j); break; } v.erase(v.begin()+i); evh(b.n,16); };
  for(int s=0;s<steps;s++){ int act=(int)draw(7,"act"); R->nontrivial=1;
    if(act<=2||v.empty()){ size_t n; switch(draw(7,"size")){ case 0:n=SKB;break; case 1:n=SEEDB;break; case 2:n=1+draw(100,"n");break; case 3:n=1+logdraw(draw(10,"huge")==9?5000000:70000,"n");break; case 4:n=PKB;break; case 5:n=CSIG0+64;break; default:n=8*(1+draw(16,"n")); } B b=alloc(n); Rng(drawseed("content")+1).fill(b.p,n); if(draw(3,"ff")==2) memset(b.p,0xff,n); }
    else if(act==3&&v.size()<30){ // a real key derivation or signature into bound buffers
      B seed=alloc(SEEDB),pk=alloc(PKB),sk=alloc(SKB); memcpy(seed.p,k->seed,SEEDB); Op o; memset(&o,0,sizeof o); Ent e; memset(&e,0,sizeof e); e.fail_from=-1; e.stream=R->seed+s; Ent*sv=ent_cur(); ent_set(&e); op_enter(K_WKEYSEED); if(LIB.dp_sign_keypair_seed) LIB.dp_sign_keypair_seed(pk.p,sk.p,seed.p); op_leave(); if(draw(2,"sign")&&LIB.dp_sign){ B m=alloc(32),sm=alloc(CSIG0+32),ln=alloc(8); memcpy(m.p,k->pk,32); op_enter(K_WSIGN); LIB.dp_sign(sm.p,(size_t*)ln.p,m.p,32,sk.p); op_leave(); } ent_set(sv); count("op.wasm session"); }
    else { fault("release_order"); rel(draw(v.size(),"which")); } }
  while(!v.empty()) rel(draw(v.size(),"last")); g_free_hook=nullptr; ev("%d buffers wiped and released",frees_seen); }
