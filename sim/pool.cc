// Genuine packets made by the reference node, and the faulty / hostile channel that damages them.
#include "api.h"
#include "kref.h"
#include "os.h"
#include <sys/mman.h>
#include <stdio.h>
struct PoolKey { volatile int ready; u64 seed; Key k; }; struct PoolFull { volatile int ready; u64 seed; u64 n; u64 ml; u8 m[64]; u8 p[FSIG0+64]; };
struct Pool { PoolKey k[NPKEY]; PoolFull f[NPFULL]; }; static Pool*P=nullptr;
void pool_init(){ P=(Pool*)mmap(0,sizeof(Pool),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); }
const Key* pool_key(int i){ PoolKey&e=P->k[i]; if(e.ready&&e.seed==R->seed) return &e.k; Gen g(mix64(R->seed*1000+7+i/27)); u8 s[SEEDB]; g.seed160(s,i%3,(i/3)%3,(i/9)%3); Key t; key_from(REF,t,s); e.k=t; e.seed=R->seed; __sync_synchronize(); e.ready=1; return &e.k; }
const Key* rare_key(int n){ static Key k[2]; static bool have[2]={false,false}; if(!have[n]){ u8 s[SEEDB]; for(int i=0;i<SEEDB;i++) s[i]=(u8)(i*7+3); if(n){ memset(s+32,0x3c,32); u64 x=2680050; memcpy(s+32,&x,8); } key_from(REF,k[n],s); have[n]=true; } return &k[n]; }
// varies the first 8 bytes of the message until the digest that hash-based signing derives from it (for the delivered randomness) is extreme in a drawn respect
void rare_sphincs(u8*m,u64 l,const Key*k,const Ent&e){ if(l<8||l>600) return; u8 a[700],b[720],d[49]; memcpy(a,k->sk+SK_S+32,32); ent_fill(e,0,a+32,32); memcpy(b+32,k->pk+PK_S,64); u64 stat=draw(12,"rstat"),at=draw(40,"rat"),base=drawseed("rbase"),best=0,bx=base; auto idx=[&](int t){ u64 v=0; for(int j=0;j<9;j++){ int o=t*9+j; v=v<<1|((d[o>>3]>>(~o&7))&1); } return v; };
  for(u64 x=0;x<6000;x++){ u64 c=mix64(base+x); memcpy(a+64,m,l); memcpy(a+64,&c,8); memcpy(b+96,a+64,l); kref(b,32,a,64+l,136,0x1f); kref(d,49,b,96+l,136,0x1f); u64 tree=0; for(int i=0;i<8;i++) tree=tree<<8|d[40+i]; u64 by=0; for(int i=0;i<8;i++) by=by<<8|d[(at+i)%49]; u64 s=0; int t=(int)(at%35);
    switch(stat){ case 0: s=~by; break; case 1: s=by; break; case 2: s=~tree; break; case 3: s=tree; break; case 4: s=((d[48]&15)==0?1ull<<62:0)|(~tree>>4&0xffffff); break; case 5: s=((d[48]&15)==15?1ull<<62:0)|(tree&0xffffff); break; case 6: s=((511-idx(t))<<9)|(511-idx((t+1)%35)); break; case 7: s=(idx(t)<<9)|idx((t+1)%35); break; case 8: s=tree?__builtin_ctzll(tree):64; break; case 9: s=~tree?__builtin_ctzll(~tree):64; break; case 10: { int n=0; for(int i=0;i<35;i++) for(int j=0;j<i;j++) n+=idx(i)==idx(j); s=n; break; } default: { int n=0; for(int i=0;i<35;i++) n+=idx(i)<24||idx(i)>487; s=n; } }
    s=s>1?s:1; if(s>best){ best=s; bx=c; } }
  memcpy(m,&bx,8); count("probe.rare_digests"); }
Packet pool_full(int i){ PoolFull&e=P->f[i]; const Key*k=pool_key(i%9); if(!(e.ready&&e.seed==R->seed)){ Gen g(mix64(R->seed*1000+7)); Rng r(R->seed*77+i); u8 m[64]; u64 ml; if(r.below(3)==0){ int c=(int)r.below(6); memcpy(m,g.msg[c],64); ml=g.mlen[c]; } else { r.fill(m,64); ml=1+(i*37ull+R->seed)%64; if(r.below(5)==0) memset(m,0,64); }
    Op o; memset(&o,0,sizeof o); o.kind=K_SIGNF; o.ent.fail_from=-1; o.ent.stream=mix64(R->seed*13+i); o.in1=m;o.l1=ml;o.in2=k->sk; static u8 buf[FSIG0+64]; o.o1.p=buf; o.o1.n=sizeof buf; op_exec(REF,o); if(o.ret) simerror("reference full signing failed"); e.n=o.outlen; e.ml=ml; memcpy(e.m,m,64); memcpy(e.p,buf,o.outlen); e.seed=R->seed; __sync_synchronize(); e.ready=1; }
  Packet q={2,e.p,e.n,e.m,e.ml,k}; return q; }
Packet mk_compact(const Api&A,const Key*k,const u8*m,u64 ml,u64 stream,int ekind){ Op o; op_init(o,K_SIGNC); o.ent.stream=mix64(stream); o.ent.kind=ekind; u8*mm=(u8*)arena(64); memcpy(mm,m,ml); o.in1=mm;o.l1=ml;o.in2=k->sk; op_outputs(o,stream+3); op_exec(A,o); if(o.ret){ if(&A==&LIB) violate("sign-failed","compact signing failed with code %d",o.ret); simerror("reference compact signing failed"); } Packet q={1,o.o1.p,o.outlen,mm,ml,k}; if(q.n!=CSIG0+ml) violate("packet-length","compact packet for a %lu byte message has length %lu",(unsigned long)ml,(unsigned long)q.n); return q; }
Packet mk_part(int mode,const Packet&a){ Packet q=a; q.mode=mode; if(mode==3){ q.p=a.p+2+64+a.ml; q.n=DSIG; } if(mode==4){ q.p=a.p+2+64+a.ml+DSIG; q.n=SSIG; } if(mode==5){ q.p=a.p+2; q.n=64+a.ml; } if(mode==6){ q.n=DSIG+a.ml; q.p=(u8*)arena(q.n); memcpy(q.p,a.p+2+64+a.ml,DSIG); memcpy(q.p+DSIG,a.m,a.ml); } if(mode==7){ q.n=SSIG+a.ml; q.p=(u8*)arena(q.n); memcpy(q.p,a.p+2+64+a.ml+DSIG,SSIG); memcpy(q.p+SSIG,a.m,a.ml);} return q; }
struct Reg { u64 o,n; const char*name; };
static std::vector<Reg> regions(const Packet&a){ std::vector<Reg> v; auto dil=[&](u64 o){ v.push_back({o,32,"lattice challenge"}); v.push_back({o+32,2304,"lattice response"}); v.push_back({o+2336,80,"lattice hints"}); v.push_back({o+2416,4,"lattice hint counts"}); }; auto ed=[&](u64 o){ v.push_back({o,32,"classical R"}); v.push_back({o+32,32,"classical S"}); }; auto spx=[&](u64 o){ v.push_back({o,32,"hash-based R"}); v.push_back({o+32,11200,"hash-based FORS"}); for(int l=0;l<17;l++){ u64 b=o+32+11200+2272ull*l; v.push_back({b,2144,"hash-based chains"}); v.push_back({b+2144,128,"hash-based path"}); } };
  switch(a.mode){ case 1: v.push_back({0,1,"id"}); v.push_back({1,1,"length byte"}); ed(2); dil(66); v.push_back({66+2420,40,"nonce"}); v.push_back({66+2420+40,a.ml,"message"}); break; case 2: v.push_back({0,1,"id"}); v.push_back({1,1,"length byte"}); ed(2); v.push_back({66,a.ml,"message"}); dil(66+a.ml); spx(66+a.ml+2420); break; case 3: dil(0); break; case 4: spx(0); break; case 5: ed(0); if(a.ml) v.push_back({64,a.ml,"message"}); break; case 6: dil(0); if(a.ml) v.push_back({2420,a.ml,"message"}); break; case 7: spx(0); if(a.ml) v.push_back({49856,a.ml,"message"}); break; } return v; }
static void addL(u8*s,int k){ static const u8 L[32]={0xed,0xd3,0xf5,0x5c,0x1a,0x63,0x12,0x58,0xd6,0x9c,0xf7,0xa2,0xde,0xf9,0xde,0x14,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0x10}; while(k--){ unsigned c=0; for(int i=0;i<32;i++){ c+=s[i]+L[i]; s[i]=(u8)c; c>>=8; } } }
Mut mutate(const Packet&a,const std::vector<Packet>&others,u64 k,u64 K){
  Mut r; r.p=(u8*)arena(a.n+4096); memcpy(r.p,a.p,a.n); r.n=a.n; r.desc[0]=0; auto regs=regions(a); bool full=a.mode==2||a.mode==4||a.mode==7;
  static const int W[]={0,1,1,1,1,1,2,2,3,4,5,6,7,8,9,10,11,12,13,14,15,1,1,16}; int t=W[draw(24,"mutation")]; r.kind=t; auto D=[&](const char*f,auto... x){ snprintf(r.desc,sizeof r.desc,f,x...); };
  auto pos=[&](const char**nm)->u64{ if(draw(2,"poskind")==0){ const Reg&g=regs[draw(regs.size(),"region")]; *nm=g.name; return g.o+(g.n>1?draw(g.n,"offset"):0); } u64 p=sdrawk(a.n,"pos",k,K); *nm="?"; for(auto&g:regs) if(p>=g.o&&p<g.o+g.n) *nm=g.name; return p; };
  const char*nm="";
  if(!g_dict.empty()&&draw(3,"dictmut")==2){ const Reg&g=regs[draw(regs.size(),"region")]; dictfill(r.p+g.o,g.n); r.kind=2; D("values placed in %s",g.name); fault("byte_set"); return r; }
  if((t==5||t==6||t==7||t==8)&&others.empty()) t=1;
  switch(t){
  case 0: D("undamaged"); break;
  case 1: { u64 p=pos(&nm); int b=(int)draw(8,"bit"); r.p[p]^=(u8)(1<<b); D("bit %d of byte %lu flipped (%s)",b,(unsigned long)p,nm); fault("bit_flip"); break; }
  case 2: { u64 p=pos(&nm); u8 v=(u8[]){0,0xff,0x80,1,0x7f}[draw(5,"val")]; if(draw(3,"rnd")==2) v=(u8)draw(256,"byte"); if(!g_dict.empty()&&draw(2,"dict")) v=(u8)g_dict[draw(g_dict.size(),"dv")]; r.p[p]=v; D("byte %lu set to %02x (%s)",(unsigned long)p,v,nm); fault("byte_set"); break; }
  case 3: { u64 p=pos(&nm); u64 n=1+logdraw(600,"burst"); Rng g(drawseed("noise")+1); for(u64 i=p;i<p+n&&i<a.n;i++) r.p[i]=(u8)g.next(); D("burst of %lu bytes at %lu (%s)",(unsigned long)n,(unsigned long)p,nm); fault("burst"); break; }
  case 4: { u64 s=(u64[]){512,4096,64,32,2420}[draw(5,"sector")]; u64 nb=a.n/s+1; u64 b=draw(nb,"sectorno")*s; int fill=(int)draw(2,"fill")?0xff:0; for(u64 i=b;i<b+s&&i<a.n;i++) r.p[i]=(u8)fill; D("sector of %lu at %lu lost",(unsigned long)s,(unsigned long)b); fault("lost_sector"); break; }
  case 5: { const Packet&o=others[draw(others.size(),"other")]; const char*q; u64 p=pos(&q); for(u64 i=p;i<a.n&&i<o.n;i++) r.p[i]=o.p[i]; if(o.n!=a.n&&draw(2,"keeplen")){ r.n=o.n; if(o.n>a.n) memcpy(r.p+a.n,o.p+a.n,o.n-a.n); } D("torn: other packet from byte %lu (%s)",(unsigned long)p,q); fault("torn_packet"); break; }
  case 6: { const Packet&o=others[draw(others.size(),"other")]; auto ro=regions(o); u64 i=draw(regs.size(),"region"); if(i<ro.size()){ u64 n=regs[i].n<ro[i].n?regs[i].n:ro[i].n; memcpy(r.p+regs[i].o,o.p+ro[i].o,n); D("%s taken from another packet",regs[i].name); } fault("splice"); break; }
  case 7: { // whole components from another packet
    const Packet&o=others[draw(others.size(),"other")]; int c=(int)draw(5,"component"); u64 md=a.mode==1?66:66+a.ml, mo=o.mode==1?66:66+o.ml; if(a.mode>2) { memcpy(r.p,o.p,a.n<o.n?a.n:o.n); D("another packet"); break; } switch(c){ case 0: memcpy(r.p+2,o.p+2,64); D("classical signature from another packet"); break; case 1: memcpy(r.p+md,o.p+mo,2420); D("lattice signature from another packet"); break; case 2: if(a.mode==1){ memcpy(r.p+66+2420,o.p+66+2420,40); D("nonce from another packet"); } else { memcpy(r.p+md+2420,o.p+mo+2420,SSIG); D("hash-based signature from another packet"); } break; case 3: { u64 n=a.ml<o.ml?a.ml:o.ml; memcpy(r.p+(a.mode==1?66+2460:66),o.m,n); D("message from another packet"); break; } case 4: memcpy(r.p+2,o.p+2,64); memcpy(r.p+md,o.p+mo,2420); if(a.mode==1) memcpy(r.p+66+2420,o.p+66+2420,40); D("all signatures but not the message from another packet"); break; } fault("component_splice"); break; }
  case 8: { const Packet&o=others[draw(others.size(),"other")]; r.n=o.n; r.p=(u8*)arena(o.n+64); memcpy(r.p,o.p,o.n); D("substituted by another packet"); fault("substitution"); break; }
  case 9: { u64 c=1+logdraw(a.n-1,"cut"); r.n=a.n-c; if(draw(3,"fixlen")==2&&a.mode<=2&&c<a.ml) r.p[1]=(u8)(a.ml-c); D("truncated by %lu",(unsigned long)c); fault("truncation"); break; }
  case 10: { u64 c=1+logdraw(draw(3,"far")==2?4000:64,"ext"); Rng g(drawseed("noise")+1); for(u64 i=0;i<c;i++) r.p[a.n+i]=draw(2,"z")?0:(u8)g.next(); r.n=a.n+c; if(draw(3,"fixlen")==2&&a.mode<=2&&a.ml+c<=64) r.p[1]=(u8)(a.ml+c); D("extended by %lu",(unsigned long)c); fault("extension"); break; }
  case 11: { if(a.mode<=2){ int w=(int)draw(3,"hdr"); if(w==0) r.p[0]=(u8)draw(256,"id"); else if(w==1) r.p[1]=(u8)draw(256,"lenbyte"); else { r.p[0]=(u8)(a.mode==1?2:1); } D("header %02x %02x",r.p[0],r.p[1]); fault("header_lie"); } else { r.n=draw(a.n,"anylen"); D("cut to %lu",(unsigned long)r.n); fault("truncation"); } break; }
  case 12: { // re-encoding of the classical scalar
    u64 o=a.mode==5?0:2; if(a.mode==3||a.mode==4||a.mode==6||a.mode==7){ r.p[draw(a.n,"p")]^=0x80; D("high bit"); break; } int w=(int)draw(5,"scal"); if(w<3){ addL(r.p+o+32,w+1); D("group order added %d times to S",w+1); } else if(w==3){ r.p[o+63]|=(u8)(1<<(5+draw(3,"hb"))); D("high bits of S set"); } else { r.p[o+31]^=0x80; D("sign bit of R flipped"); } fault("scalar_reencoding"); break; }
  case 13: { // re-encoding of the lattice hints
    i64 o=a.mode==1?66:a.mode==2?(i64)(66+a.ml):(a.mode==3||a.mode==6)?0:-1; if(o<0){ r.p[draw(a.n,"p")]^=1; D("low bit"); break; } u8*h=r.p+o+2336; u8*cn=h+80; int w=(int)draw(6,"hint"); fault("hint_reencoding"); if(w==0){ int i=(int)draw(4,"poly"); int b=i?cn[i-1]:0,e=cn[i]; if(e-b>=2){ int x=b+(int)draw(e-b-1,"hx"); u8 t=h[x]; h[x]=h[x+1]; h[x+1]=t; } D("two hint positions swapped"); } else if(w==1){ int e=cn[3]; if(e<80){ h[e+draw(80-e,"pad")]=1+(u8)draw(255,"pv"); } D("hint padding not zero"); } else if(w==2){ int i=(int)draw(4,"poly"); int b=i?cn[i-1]:0,e=cn[i]; if(e>b&&cn[3]<80){ int x=b+(int)draw(e-b,"hx"); memmove(h+x+1,h+x,79-x); for(int j=i;j<4;j++) cn[j]++; } D("hint position repeated"); } else if(w==3){ int i=(int)draw(4,"poly"); cn[i]=(u8)draw(256,"cnt"); D("hint count %d set to %d",i,cn[i]); } else if(w==4){ int i=(int)draw(3,"poly"); u8 t=cn[i]; cn[i]=cn[i+1]; cn[i+1]=t; D("hint counts %d swapped",i); } else { memset(h,0,84); D("hints removed"); } break; }
  case 14: { int n=2+(int)draw(12,"nflips"); for(int i=0;i<n;i++){ u64 p=draw(a.n,"p"); r.p[p]^=(u8)(1+draw(255,"x")); } D("%d bytes damaged",n); fault("scattered_damage"); break; }
  case 15: { u64 s=(u64)1<<draw(full?15:11,"blk"); if(s>a.n/2) s=a.n/2; u64 x=draw(a.n-s,"from"),y=draw(a.n-s,"to"); memmove(r.p+y,a.p+x,s); D("block of %lu moved from %lu to %lu",(unsigned long)s,(unsigned long)x,(unsigned long)y); fault("misplaced_write"); break; }
  case 16: { u64 s=a.mode<=2?2:0; u64 i=s+draw(a.n-s,"i"), j=s+draw(a.n-s,"j"); u8 x=(u8)(1+draw(255,"x")); r.p[i]^=x; r.p[j]^=x; if(i==j) r.p[i]^=x; D("same damage to bytes %lu and %lu",(unsigned long)i,(unsigned long)j); fault("compensating_damage"); break; }
  }
  return r; }
