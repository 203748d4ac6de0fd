// Scenarios over the channel: C07, C10, C11, C12, C15.
#include "case.h"
#include "rare.h"
#include "kref.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/mman.h>
static Gen* G7=nullptr;
static bool is_open(int k){ return k==K_OPENC||k==K_OPENF||k==K_DOPEN||k==K_SOPEN||k==K_EOPEN; }
int pick_mode(){ static const int M[]={1,2,1,3,1,2,1,5,1,2,6,1,4,1,2,3}; return M[R->idx%16]; }
void world_packets(World&w,int mode,bool lib){
  w.mode=mode; w.seen.clear(); int ki; static Gen*g=nullptr; g=new Gen(mix64(R->seed*1000+7)); G7=g;
  if(mode==1){ ki=(int)draw(NPKEY,"key"); w.k=pool_key(ki); u8 m[64]; u64 l; drawmsg(m,&l,*g,"msg"); int ek=draw(8,"ek")==7?1+(int)draw(8,"ekind"):0; const Api&A=lib&&draw(2,"signer")?LIB:REF; w.a=mk_compact(A,w.k,m,l,drawseed("s")+1,ek); w.seen.push_back(w.a);
    if(draw(2,"more")){ w.seen.push_back(mk_compact(REF,w.k,m,l,drawseed("s")+2)); u8 m2[64]; u64 l2; drawmsg(m2,&l2,*g,"msg2"); if(draw(2,"samelen")) l2=l; w.seen.push_back(mk_compact(REF,w.k,m2,l2,drawseed("s")+3)); if(draw(3,"otherkey")==2) w.seen.push_back(mk_compact(REF,pool_key((int)draw(NPKEY,"key2")),m,l,drawseed("s")+4)); } }
  else { int i=(int)sdraw(NPFULL,"full"); Packet f=pool_full(i); w.k=f.k; w.seen.push_back(f); for(int j=0;j<2;j++){ int o=(int)draw(NPFULL,"full2"); if(o!=i&&draw(3,"use")) w.seen.push_back(pool_full(o)); } if(mode>2) for(auto&p:w.seen) p=mk_part(mode,p); w.a=w.seen[0]; } }
static const char* MN[]={"?","compact packet","full packet","lattice signature","hash-based signature","classical signed message","lattice signed message","hash-based signed message"};
Case gen_case(World&w,u64 i,u64 K){
  Case c; memset(&c,0,sizeof c); const Packet&a=w.a; std::vector<Packet> oth(w.seen.begin()+1,w.seen.end()); 
  int what=(int)(u8[]){0,0,0,0,0,0,1,1,2,2,3,4}[draw(12,"target")]; 
  u64 pko=0,pkn=PKB; switch(a.mode){case 3:case 6:pko=PK_D;pkn=DPK;break;case 4:case 7:pko=PK_S;pkn=SPK;break;case 5:pko=PK_E;pkn=EPK;break;}
  u8*pk=(u8*)arena(pkn); memcpy(pk,a.k->pk+pko,pkn); const u8*claim=a.m; u64 cl=a.ml; c.sm=a.p; c.n=a.n;
  if(what==0){ Mut m=mutate(a,oth,i,K); c.sm=m.p; c.n=m.n; snprintf(c.desc,sizeof c.desc,"%s %s",MN[a.mode],m.desc); if(m.kind==5||m.kind==6||m.kind==7||m.kind==8){ if(!oth.empty()&&draw(2,"claimother")){ const Packet&o=oth[draw(oth.size(),"o")]; claim=o.m; cl=o.ml; } } }
  else if(what==1){ int t=(int)draw(6,"pkmut"); if(t<=2){ u64 p=sdrawk(pkn,"pkpos",i,K); pk[p]^=(u8)(1<<draw(8,"bit")); snprintf(c.desc,sizeof c.desc,"public key byte %lu damaged",(unsigned long)p); fault("key_bit_flip"); } else if(t==3){ const Key*o=pool_key((int)draw(NPKEY,"otherkey")); memcpy(pk,o->pk+pko,pkn); snprintf(c.desc,sizeof c.desc,"another node's public key"); fault("wrong_key"); } else if(t==4&&pkn==PKB){ const Key*o=pool_key((int)draw(NPKEY,"otherkey")); int s=(int)draw(3,"comp"); if(s==0) memcpy(pk,o->pk,32); if(s==1) memcpy(pk+PK_D,o->pk+PK_D,DPK); if(s==2) memcpy(pk+PK_S,o->pk+PK_S,SPK); snprintf(c.desc,sizeof c.desc,"component %d of the public key replaced",s); fault("key_splice"); } else { u64 s=(u64[]){32,64,512,1024}[draw(4,"ks")]; u64 o=draw(pkn,"ko"); for(u64 x=o;x<o+s&&x<pkn;x++) pk[x]=0; snprintf(c.desc,sizeof c.desc,"%lu bytes of the public key at %lu lost",(unsigned long)s,(unsigned long)o); fault("key_torn"); } }
  else if(what==2){ u8*m=(u8*)arena(128); memcpy(m,a.m,a.ml); claim=m; switch(draw(6,"claim")){ case 0: case 1: { u64 p=sdrawk(a.ml,"mpos",i,K); m[p]^=(u8)(1<<draw(8,"bit")); snprintf(c.desc,sizeof c.desc,"claimed message differs in byte %lu",(unsigned long)p); break; } case 2: cl=1+draw(a.ml,"cl"); snprintf(c.desc,sizeof c.desc,"claimed message is a prefix of %lu of %lu bytes",(unsigned long)cl,(unsigned long)a.ml); break; case 3: { cl=a.ml+1+draw(a.mode>2?40:64-(a.ml<63?a.ml:63),"ext"); if(cl>104) cl=104; Rng r(drawseed("x")+1); for(u64 x=a.ml;x<cl;x++) m[x]=draw(2,"zz")?0:(u8)r.next(); snprintf(c.desc,sizeof c.desc,"claimed message extended to %lu bytes",(unsigned long)cl); break; } case 4: if(a.ml>1){ m[a.ml-1]=0; } else m[0]^=1; snprintf(c.desc,sizeof c.desc,"last byte of the claimed message zeroed"); break; case 5: { const u8*o=G7->msg[draw(6,"om")]; memcpy(m,o,64); cl=a.ml; snprintf(c.desc,sizeof c.desc,"another message claimed"); break; } } fault("wrong_claim"); }
  else if(what==3){ snprintf(c.desc,sizeof c.desc,"undamaged delivery"); }
  else { // signature made by a signer that ignores the rejection rules of the lattice scheme
    if(a.mode==1||a.mode==3||a.mode==6){ u8*p=(u8*)arena(a.n); memcpy(p,a.p,a.n); u8 h[64]; const u8*msg=a.m; u64 ml=a.ml; if(a.mode==1){ u8 t[40+64+64]; memcpy(t,a.p+66+2420,40); memcpy(t+40,a.m,a.ml); memcpy(t+40+a.ml,a.k->pk+PK_S,64); kref_sha3_512(h,t,104+a.ml); msg=h; ml=64; } size_t sl=0; static u8 sg[DSIG]; if(ref_lax_dilithium_signature(1,sg,&sl,msg,ml,a.k->sk+SK_D)==0){ memcpy(p+(a.mode==1?66:0),sg,DSIG); c.sm=p; snprintf(c.desc,sizeof c.desc,"lattice response outside the permitted range"); c.lax=true; fault("lax_signer"); } else snprintf(c.desc,sizeof c.desc,"undamaged delivery"); } else snprintf(c.desc,sizeof c.desc,"undamaged delivery"); }
  c.pk=pk; c.m=claim; c.ml=cl;
  int v=(int)draw(5,"how"); if(what==2) v=1+v%2;
  switch(a.mode){ case 1: c.kind= v==0?K_OPENC:v==1?K_VERC:v==2&&op_exists(LIB,K_WVER)?K_WVER:v==3?K_OPENC:K_VERC; break; case 2: c.kind= v%2?K_VERF:K_OPENF; break; case 3: c.kind= v%2?K_VERD:K_DVER; break; case 4: c.kind=K_SVER; break; case 5: c.kind=K_EOPEN; break; case 6: c.kind=K_DOPEN; break; case 7: c.kind=K_SOPEN; break; }
  // what may be accepted
  const Packet*hit=nullptr; for(auto&g:w.seen) if(g.n==c.n&&!memcmp(g.p,c.sm,c.n)&&!memcmp(pk,g.k->pk+pko,pkn)){ hit=&g; if(a.mode==3||a.mode==4){ if(g.ml!=c.ml||memcmp(g.m,c.m,c.ml)) { hit=nullptr; continue; } } break; }
  // nodes may share component keys: a full packet whose three signatures were each made for this message by the key's component is genuine
  static Packet mix; if(!hit&&a.mode==2&&c.n>FSIG0&&c.n<=FSIG0+64&&c.sm[0]==2&&c.sm[1]==(u8)(c.n-FSIG0)){ u64 l=c.n-FSIG0; int have=0; for(auto&g:w.seen) if(g.n==c.n&&!memcmp(g.p+66,c.sm+66,l)){ if(!memcmp(g.p+2,c.sm+2,64)&&!memcmp(pk+PK_E,g.k->pk+PK_E,EPK)) have|=1; if(!memcmp(g.p+66+l,c.sm+66+l,DSIG)&&!memcmp(pk+PK_D,g.k->pk+PK_D,DPK)) have|=2; if(!memcmp(g.p+66+l+DSIG,c.sm+66+l+DSIG,SSIG)&&!memcmp(pk+PK_S,g.k->pk+PK_S,SPK)) have|=4; if(have==7){ mix=g; hit=&mix; count("probe.mixed_genuine"); break; } } }
  c.expect=hit!=nullptr; if(hit){ c.em=hit->m; c.eml=hit->ml; if((c.kind==K_VERC||c.kind==K_VERF||c.kind==K_WVER)&&(c.ml!=hit->ml||memcmp(c.m,hit->m,c.ml))) c.expect=false; if(c.kind==K_VERD&&(c.ml<1||c.ml>64)) c.expect=false; }
  return c; }
void case_op(Op&o,const Case&c,u64 g){ op_init(o,c.kind); o.in1=inbuf(c.sm,c.n).p; o.l1=c.n; size_t pkn= c.kind==K_VERD||c.kind==K_DVER||c.kind==K_DOPEN?DPK:c.kind==K_SVER||c.kind==K_SOPEN?SPK:c.kind==K_EOPEN?EPK:PKB; o.in2=inbuf(c.pk,pkn).p; if(!is_open(c.kind)){ o.in3=inbuf(c.m,c.ml).p; o.l3=c.ml; } op_outputs(o,g); }
static bool accepted(const Op&o){ return o.ret==0; }

// a packet or claimed message followed by so many bytes that its length wraps in a narrower type: backed by memory, never genuine
static void vast_case(World&w,Case&c,Op&o){ static const u64 X[]={256,65536,131072,1ull<<24,1ull<<31,1ull<<32,(1ull<<32)+65536,2ull<<32}; u64 x=X[draw(8,"by")]; bool msg=draw(3,"which")==2; int k=c.kind; if(k!=K_OPENC&&k!=K_VERC&&k!=K_WVER&&k!=K_OPENF&&k!=K_VERF&&k!=K_VERD&&k!=K_DVER&&k!=K_SVER) return; if(msg&&(k==K_OPENC||k==K_OPENF||k==K_DVER||k==K_SVER)) msg=false;
  const Packet&a=w.a; static u8*big=nullptr; const u64 cap=(2ull<<32)+(1u<<20); if(!big){ big=(u8*)mmap(0,cap,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(big==MAP_FAILED){ big=nullptr; return; } }
  u64 pko= k==K_VERD||k==K_DVER?PK_D:k==K_SVER?PK_S:0, pkn= k==K_VERD||k==K_DVER?DPK:k==K_SVER?SPK:PKB; o.in2=inbuf(a.k->pk+pko,pkn).p; o.in3=inbuf(a.m,a.ml).p; o.l3=a.ml; o.in1=inbuf(a.p,a.n).p; o.l1=a.n; if(k==K_OPENC||k==K_OPENF){ o.in3=nullptr; o.l3=0; }
  if(msg){ memcpy(big,a.m,a.ml); o.in3=big; o.l3=a.ml+x; } else { memcpy(big,a.p,a.n); o.in1=big; o.l1=a.n+x; } c.expect=false; c.lax=false; fault("length_wraps"); snprintf(c.desc,sizeof c.desc,"%s followed by %lu more bytes",msg?"claimed message":"packet",(unsigned long)x); }
void scen_C07(){
  world_init(); g_mem.garbage=drawseed("heap"); set_paint(drawseed("paint")); World w; world_packets(w,pick_mode(),true); R->scenario=w.mode; u64 K=w.mode==2||w.mode==4?10:14; u64 n=2+draw(K-1,"ndeliveries");
  for(u64 i=0;i<n;i++){ Case c=gen_case(w,i,K); Op o; case_op(o,c,i*3+1); if(draw(9,"vast")==8) vast_case(w,c,o); op_exec(LIB,o); bool acc=accepted(o); ev("%s: %s -> %s",op_name(c.kind),c.desc,acc?"accepted":"rejected");
    if(acc&&!c.expect) violate(c.lax?"accepted-out-of-range":"accepted-forgery","%s accepted what was never signed: %s",op_name(c.kind),c.desc);
    if(!acc&&c.expect) violate("rejected-genuine","%s rejected a genuine packet (%s), code %d",op_name(c.kind),c.desc,o.ret);
    if(acc&&is_open(c.kind)){ if(o.outlen!=c.eml||memcmp(o.o1.p,c.em,c.eml)) violate("wrong-message","%s returned a message other than the signed one (%s)",op_name(c.kind),c.desc); count("probe.accepted_open"); }
    count(acc?"probe.accepted":"probe.rejected"); } }

u64 op_inhash(const Op&); Op* draw_op(u64 gseed,u64 k);
void scen_C10(){
  world_init(); g_mem.garbage=drawseed("heap"); World w; int mode=(int[]){1,2,1,1,2,1,1,2}[R->idx%8]; world_packets(w,mode,true); R->scenario=mode; u64 K=12,n=2+draw(K-1,"n");
  for(u64 i=0;i<n;i++){
    if(draw(5,"wellformed")==4){ // a proper call, also during an outage: its inputs stay as they were
      u64 ds=draw(8,"heavy")==7&&R->idx%16==5; Op*q=draw_op(mix64(R->seed*1000+7),sdrawk(26,"wk",i,K)); if(ds){ q->kind=K_SIGNF; u8*mm=agarb(64,drawseed("m")+1); q->in1=mm; q->l1=1+draw(64,"l"); q->in2=w.k->sk; q->in3=nullptr; q->l3=0; op_outputs(*q,7); } if(op_needs_entropy(q->kind)){ swarm_noise(); if(draw(3,"out")==2){ q->ent.fail_from=(i64)draw(2,"fc"); q->ent.fail_after_bytes=draw(2,"fz")?logdraw(160,"fab"):0; q->ent.fail_err=5; } } u64 a=op_inhash(*q); op_exec(LIB,*q); ev("%s -> %d",op_name(q->kind),q->ret?1:0); if(op_inhash(*q)!=a) violate("input-modified","%s modified one of its inputs",op_name(q->kind)); count("probe.wellformed"); R->nontrivial=1; world_init(); continue; }
    Op o; bool mal=draw(3,"malformed")==2; char d[200]; bool must_fail=false;
    if(!mal){ Case c=gen_case(w,i,K); if(!is_open(c.kind)&&draw(2,"preferopen")) c.kind=w.mode==1?K_OPENC:K_OPENF; case_op(o,c,i*7+drawseed("fill")); snprintf(d,sizeof d,"%s",c.desc); }
    else { static const int KS[]={K_SIGNC,K_OPENC,K_VERC,K_SIGNF,K_OPENF,K_VERF,K_VERD,K_KEYSEED,K_KEYGEN,K_WSIGN,K_WVER,K_WKEYSEED,K_WKEY}; int kind=KS[draw(13,"kind")]; if(!op_exists(LIB,kind)) kind=K_SIGNC; op_init(o,kind); must_fail=true; bool sign=kind==K_SIGNC||kind==K_SIGNF||kind==K_WSIGN, ver=kind==K_VERC||kind==K_VERF||kind==K_WVER||kind==K_VERD, open=kind==K_OPENC||kind==K_OPENF;
      u8 m[200]; Rng r(drawseed("m")+1); r.fill(m,200); bool full=kind==K_SIGNF||kind==K_OPENF||kind==K_VERF; Packet pk_=w.a; if(full!=(w.mode==2)) pk_= full?pool_full((int)draw(4,"pf")):mk_compact(REF,w.k,m,1+draw(64,"l"),5); 
      if(sign){ o.in1=inbuf(m,64).p; o.l1=1+draw(64,"ml"); o.in2=inbuf(pk_.k->sk,SKB).p; } else if(open||ver){ if(kind==K_VERD){ Packet f=pool_full(0); o.in1=inbuf(f.p+66+f.ml,DSIG).p; o.l1=DSIG; o.in2=inbuf(f.k->pk+PK_D,DPK).p; o.in3=inbuf(f.m,64).p; o.l3=f.ml; } else { o.in1=inbuf(pk_.p,pk_.n).p; o.l1=pk_.n; o.in2=inbuf(pk_.k->pk,PKB).p; o.in3=inbuf(pk_.m,64).p; o.l3=pk_.ml; } } else if(kind==K_KEYSEED||kind==K_WKEYSEED) o.in1=inbuf(w.k->seed,SEEDB).p;
      op_outputs(o,drawseed("fill")); if(sign) o.o1=newbuf(FSIG0+64,drawseed("fill")+1);
      if(kind==K_KEYSEED||kind==K_WKEYSEED||kind==K_KEYGEN||kind==K_WKEY){ int which=(int)draw(kind==K_KEYSEED||kind==K_WKEYSEED?3:2,"null"); if(which==0) o.o1.p=nullptr; if(which==1) o.o2.p=nullptr; if(which==2) o.in1=nullptr; snprintf(d,sizeof d,"%s with null argument %d",op_name(kind),which); }
      else { int which=(int)draw(9,"bad"); static const u64 BL[]={0,65,66,128,255,256,257,65536,0x100000001ull,0x100000040ull,~0ull,~0ull-10,1ull<<63,0x80000001ull,0xffffffffull}; 
        if(which==0) o.in2=nullptr; else if(which==1){ if(ver) o.in3=nullptr; else if(draw(2,"nl")&&op_len_out(kind)&&kind!=K_WSIGN) o.nulllen=true; else o.o1.p=nullptr; } else if(which==2) o.in1=nullptr; 
        else if(sign) o.l1=BL[draw(15,"len")]; else if(ver&&which<6) { o.l3=BL[draw(15,"len")]; } else { u64 base=o.l1; u64 c=draw(8,"slen"); o.l1= c==0?0:c==1?draw(base,"short"):c==2?base+(1ull<<32):c==3?~0ull:c==4?base+1+draw(200,"longer"):c==5?1:c==6?base+(1ull<<63):2; if(c==4){ Buf b=newbuf(o.l1,3); memcpy(b.p,pk_.p,base<pk_.n?base:pk_.n); o.in1=b.p; } }
        snprintf(d,sizeof d,"%s malformed (%d): lengths %llu %llu",op_name(kind),which,(ull)o.l1,(ull)o.l3); }
      fault("malformed_request"); }
    u64 h1=o.o1.p?hashbytes(o.o1.p,o.o1.n):0,h2=o.o2.p?hashbytes(o.o2.p,o.o2.n):0; size_t n1=0,n2=0,n3=0; if(!mal){ n1=o.l1; n2=o.kind==K_VERD?DPK:PKB; n3=o.l3; } else { n1=o.kind==K_KEYSEED||o.kind==K_WKEYSEED?SEEDB:0; n2=0; n3=0; } 
    u64 a1=o.in1?hashbytes(o.in1,n1):0,a2=o.in2&&n2?hashbytes(o.in2,n2):0,a3=o.in3&&n3?hashbytes(o.in3,n3):0;
    Buf b1=o.o1,b2=o.o2; if(mal){ swarm_noise(); }
    op_exec(LIB,o); ev("%s -> %s",d,o.ret?"refused":"accepted");
    if(must_fail&&o.ret==0) violate("malformed-accepted","%s was not refused",d);
    if(o.ret!=0){ if(b1.p&&hashbytes(b1.p,b1.n)!=h1) violate("output-released","%s was refused but changed the output buffer",d); if(b2.p&&hashbytes(b2.p,b2.n)!=h2) violate("output-released","%s was refused but changed the second output buffer",d); if(op_len_out(o.kind)&&o.outlen!=o.outlen0) violate("output-released","%s was refused but changed the length to %llu",d,(ull)o.outlen); count("probe.refused"); }
    else { // nothing beyond the message may be written
      if(is_open(o.kind)&&o.outlen<o.o1.n){ Rng r(0); (void)r; } count("probe.accepted"); }
    if((o.in1&&n1&&hashbytes(o.in1,n1)!=a1)||(o.in2&&n2&&hashbytes(o.in2,n2)!=a2)||(o.in3&&n3&&hashbytes(o.in3,n3)!=a3)) violate("input-modified","%s modified one of its inputs",d);
  } }

// ---------------------------------------------------------------- C11
static void comp_hash(u8*h,const u8*nonce,const u8*m,u64 ml,const u8*spk){ u8 t[40+64+64]; memcpy(t,nonce,40); memcpy(t+40,m,ml); memcpy(t+40+ml,spk,64); kref_sha3_512(h,t,104+ml); }
static void ed_sign(u8*sig,const u8*m,u64 l,const u8*sk){ static u8 t[64+256]; ull n; REF.crypto_sign_ed25519_tweet(t,&n,m,l,sk); memcpy(sig,t,64); }
static void dil_sign(u8*sig,const u8*m,u64 l,const u8*sk){ size_t n; REF.PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature(sig,&n,m,l,sk); }
static void spx_sign(u8*sig,const u8*m,u64 l,const u8*sk,u64 s){ Ent e; memset(&e,0,sizeof e); e.fail_from=-1; e.stream=mix64(s); Ent*o=ent_cur(); ent_set(&e); size_t n; REF.PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_signature(sig,&n,m,l,sk); ent_set(o); }
// forged component of n bytes without its key
static void forge(u8*out,u64 n,int comp,const u8*genuine_other,const u8*by_other_key,char*d){ static const char*CN[]={"classical","lattice","hash-based"}; int w=(int)draw(8,"forge"); const char*how="";
  switch(w){ case 0: memset(out,0,n); how="zeros"; break; case 1: { Rng r(drawseed("f")+1); r.fill(out,n); how="random"; break; } case 2: memcpy(out,genuine_other,n); how="victim's signature on another message"; break; case 3: memcpy(out,by_other_key,n); how="made with the adversary's key"; break;
    case 4: memset(out,0xff,n); how="ones"; break; case 5: memset(out,0,n); if(comp==0){ out[0]=1; how="neutral element"; } else how="zeros"; break; case 6: { memset(out,0,n); if(comp==0){ memcpy(out,genuine_other,32); } else if(comp==1){ memcpy(out,genuine_other,32); } else memcpy(out,genuine_other,n/2); how="part of the victim's signature on another message"; break; } case 7: { memcpy(out,by_other_key,n); memcpy(out,genuine_other,n/2); how="mixture"; break; } }
  sprintf(d+strlen(d)," %s: %s;",CN[comp],how); }
void scen_C11(){
  world_init(); g_mem.garbage=drawseed("heap"); set_paint(drawseed("paint")); bool full=R->idx%3==2; R->scenario=full?1:0; Gen g(mix64(R->seed*1000+7)); int n=full?2+(int)draw(3,"n"):3+(int)draw(6,"n");
  for(int it=0;it<n;it++){
    char d[256]=""; u64 ml=1+sdrawk(64,"ml",it,8); u8 m[64]; Rng r(drawseed("m")+1); r.fill(m,64); int pat=(int)draw(6,"mpat"); if(pat==1) memset(m,0,64); if(pat==2) memset(m,0xff,64);
    int what=(int)draw(full?4:5,"what");
    if(!full){
      const Key*v=pool_key((int)draw(NPKEY,"victim")),*adv=pool_key((int)draw(NPKEY,"adv")); u8*p=(u8*)arena(CSIG0+64); u8 nonce[40]; Rng q(drawseed("nonce")+1); q.fill(nonce,40); if(draw(4,"n0")==3) memset(nonce,0,40); u8 h[64]; comp_hash(h,nonce,m,ml,v->pk+PK_S); p[0]=1; p[1]=(u8)ml; memcpy(p+66+2420,nonce,40); memcpy(p+66+2460,m,ml); u64 pn=CSIG0+ml; const u8*pk=v->pk; u8 pkb[PKB]; bool expect=false; const char*cls="component-bypass";
      Packet other=mk_compact(REF,v,g.msg[1],g.mlen[1],drawseed("o")+9);
      if(what==0){ ed_sign(p+2,h,64,v->sk); dil_sign(p+66,h,64,v->sk+SK_D); expect=true; strcpy(d,"all keys"); }
      else if(what==1||what==2){ int miss=what-1; u8 os[DSIG]; if(miss==0){ dil_sign(p+66,h,64,v->sk+SK_D); ed_sign(os,h,64,adv->sk); if(!memcmp(adv->sk,v->sk,64)) continue; forge(p+2,64,0,other.p+2,os,d); } else { ed_sign(p+2,h,64,v->sk); dil_sign(os,h,64,adv->sk+SK_D); if(!memcmp(adv->sk+SK_D,v->sk+SK_D,DSK)) continue; forge(p+66,DSIG,1,other.p+66,os,d); } fault("component_key_compromise"); }
      else if(what==3){ // bound to the hash-based public key
        const Key*o=pool_key((int)draw(NPKEY,"o2")); memcpy(pkb,v->pk,PKB); int w=(int)draw(3,"bind"); if(w==0) memcpy(pkb+PK_S,o->pk+PK_S,SPK); else if(w==1) pkb[PK_S+sdrawk(64,"bpos",it,8)]^=(u8)(1<<draw(8,"bit")); else { memset(pkb+PK_S,0,64); } if(!memcmp(pkb,v->pk,PKB)) continue; ed_sign(p+2,h,64,v->sk); dil_sign(p+66,h,64,v->sk+SK_D); pk=pkb; strcpy(d,"hash-based public key replaced"); cls="not-bound-to-hash-key"; fault("key_splice"); }
      else { // signatures over the bare message, i.e. a full-mode signature relabelled
        cls="mode-confusion"; int w=(int)draw(5,"mix"); fault("mode_relabel"); if(w==0){ ed_sign(p+2,m,ml,v->sk); dil_sign(p+66,m,ml,v->sk+SK_D); strcpy(d,"full-mode component signatures in a compact packet"); } else if(w==1){ ed_sign(p+2,h,64,v->sk); dil_sign(p+66,m,ml,v->sk+SK_D); strcpy(d,"full-mode lattice signature in a compact packet"); } else if(w==2){ ed_sign(p+2,m,ml,v->sk); dil_sign(p+66,h,64,v->sk+SK_D); strcpy(d,"full-mode classical signature in a compact packet"); } else if(w==3){ Packet f=pool_full((int)draw(NPFULL,"f")); pk=f.k->pk; memcpy(p,f.p,pn); p[0]=(u8)(1+draw(2,"id")); p[1]=(u8)ml; strcpy(d,"prefix of a full packet"); }
        else { // known: a full-mode signature over a 64 byte message chosen as the compact hash
          ed_sign(p+2,h,64,v->sk); dil_sign(p+66,h,64,v->sk+SK_D); Op o; op_init(o,K_OPENC); o.in1=p;o.l1=pn;o.in2=v->pk; op_outputs(o,3); op_exec(LIB,o); ev("compact packet assembled from full-mode signatures over the compact hash -> %s",o.ret?"rejected":"accepted"); if(o.ret==0) known("full-signed-hash-becomes-compact"); continue; } }
      Op o; int k=(int)draw(2,"how"); op_init(o,k?K_VERC:K_OPENC); o.in1=p;o.l1=pn;o.in2=pk;o.in3=m;o.l3=ml; op_outputs(o,it+3); op_exec(LIB,o); ev("compact: %s -> %s",d,o.ret?"rejected":"accepted"); if(o.ret==0&&!expect) violate(cls,"compact packet accepted:%s",d); if(o.ret!=0&&expect) violate("rejected-genuine","compact packet made with all required keys rejected");
      if(what==4||draw(4,"asfull")==3){ Op x; op_init(x,K_OPENF); x.in1=other.p; x.l1=other.n; x.in2=v->pk; op_outputs(x,it+4); op_exec(LIB,x); if(x.ret==0) violate("mode-confusion","compact packet opened as a full packet"); } }
    else {
      Packet f=pool_full((int)sdrawk(NPFULL,"f",it,4)), f2=pool_full((int)draw(NPFULL,"f2")); const Key*v=f.k; const Key*adv=pool_key((int)draw(NPKEY,"adv")); u8*p=(u8*)arena(FSIG0+64); memcpy(p,f.p,f.n); u64 fl=f.ml; u8*e=p+2,*dd=p+66+fl,*s=p+66+fl+2420; int miss=(int)draw(3,"miss"); const char*cls="component-bypass";
      if(what==0){ // missing component forged, the others genuine
        static u8 os[SSIG]; if(f2.k!=v||f2.ml==f.ml&&!memcmp(f.m,f2.m,f.ml)){ int i0=0; while(pool_key(i0)!=v) i0++; for(int i=i0;i<NPFULL;i+=9){ f2=pool_full(i); if(!(f2.ml==f.ml&&!memcmp(f.m,f2.m,f.ml))) break; } } const u8*oe=f2.p+2,*od=f2.p+66+f2.ml,*osx=f2.p+66+f2.ml+2420;
        if(miss==0){ if(!memcmp(adv->sk,v->sk,64)) continue; ed_sign(os,f.m,fl,adv->sk); forge(e,64,0,oe,os,d); } else if(miss==1){ if(!memcmp(adv->sk+SK_D,v->sk+SK_D,DSK)) continue; dil_sign(os,f.m,fl,adv->sk+SK_D); forge(dd,DSIG,1,od,os,d); } else { Packet of=pool_full((int)draw(NPFULL,"of")); if(!memcmp(of.k->sk+SK_S,v->sk+SK_S,SSK)) memset(os,1,SSIG); else memcpy(os,of.p+66+of.ml+2420,SSIG); forge(s,SSIG,2,osx,os,d); }
        if(!memcmp(p,f.p,f.n)) continue; fault("component_key_compromise"); }
      else if(what==1){ // adversary's own message: all components but one freshly made, the missing one taken from the victim's packet
        u8*q=(u8*)arena(FSIG0+64); q[0]=2; q[1]=(u8)fl; u8 nm[64]; memcpy(nm,f.m,64); u64 pos=draw(fl,"mp"); nm[pos]^=(u8)(1+draw(255,"mx")); memcpy(q+66,nm,fl); if(miss==2||draw(3,"cheap")){ miss=2; ed_sign(q+2,nm,fl,v->sk); dil_sign(q+66+fl,nm,fl,v->sk+SK_D); memcpy(q+66+fl+2420,s,SSIG); } else { spx_sign(q+66+fl+2420,nm,fl,v->sk+SK_S,drawseed("sx")+1); if(miss==0){ memcpy(q+2,e,64); dil_sign(q+66+fl,nm,fl,v->sk+SK_D); } else { ed_sign(q+2,nm,fl,v->sk); memcpy(q+66+fl,dd,DSIG); } } p=q; sprintf(d," message changed in byte %lu, component %d kept from the victim's packet",(unsigned long)pos,miss); fault("component_key_compromise"); }
      else if(what==2){ // compact material in a full packet
        cls="mode-confusion"; Packet c=mk_compact(REF,v,f.m,fl,drawseed("c")+1); int w=(int)draw(5,"mix"); fault("mode_relabel"); if(w==0){ memcpy(e,c.p+2,64); strcpy(d," compact classical signature in a full packet"); } else if(w==1){ memcpy(dd,c.p+66,DSIG); strcpy(d," compact lattice signature in a full packet"); } else if(w==2){ memcpy(e,c.p+2,64); memcpy(dd,c.p+66,DSIG); strcpy(d," compact signatures in a full packet"); } else if(w==3){ p[0]=1; strcpy(d," full packet relabelled compact"); Op x; op_init(x,K_OPENC); x.in1=p; x.l1=f.n; x.in2=v->pk; op_outputs(x,it+9); op_exec(LIB,x); if(x.ret==0) violate(cls,"full packet relabelled compact opened as compact"); }
        else { // known: compact signatures over the hash plus a hash-based signature over that hash
          u8 h[64]; comp_hash(h,c.p+66+2420,c.m,c.ml,v->pk+PK_S); u8*q=(u8*)arena(FSIG0+64); q[0]=2;q[1]=64; memcpy(q+2,c.p+2,64); memcpy(q+66,h,64); memcpy(q+130,c.p+66,DSIG); if(R->idx%9!=2){ memcpy(q+130+2420,s,SSIG); p=q; fl=64; strcpy(d," compact packet with a foreign hash-based signature"); Op o; op_init(o,K_OPENF); o.in1=q;o.l1=FSIG0+64;o.in2=v->pk; op_outputs(o,it+5); op_exec(LIB,o); ev("full:%s -> %s",d,o.ret?"rejected":"accepted"); if(o.ret==0) violate(cls,"full packet accepted:%s",d); continue; }
          spx_sign(q+130+2420,h,64,v->sk+SK_S,drawseed("sx")+1); Op o; op_init(o,K_OPENF); o.in1=q;o.l1=FSIG0+64;o.in2=v->pk; op_outputs(o,it+5); op_exec(LIB,o); ev("full packet assembled from compact signatures -> %s",o.ret?"rejected":"accepted"); if(o.ret==0) known("compact-signed-hash-becomes-full-with-hash-key"); continue; } }
      else strcpy(d," genuine");
      bool expect=!memcmp(p,f.p,f.n); Op o; op_init(o,draw(2,"how")?K_VERF:K_OPENF); o.in1=p;o.l1=FSIG0+fl;o.in2=v->pk; u8*cm=(u8*)arena(64); memcpy(cm,p+66,fl); o.in3=cm; o.l3=fl; op_outputs(o,it+5); op_exec(LIB,o); ev("full:%s -> %s",d,o.ret?"rejected":"accepted"); if(o.ret==0&&!expect) violate(cls,"full packet accepted:%s",d); if(o.ret&&expect) violate("rejected-genuine","genuine full packet rejected"); }
  } }

// ---------------------------------------------------------------- C12
// hint section of a lattice signature whose positions and counts increase as the format wants, with counts beyond what the section holds
static void wild_hints(u8*sg){ u8*h=sg+2336; u8 x=(u8)draw(40,"h0"); int step=1+(int)draw(2,"hs"); for(int i=0;i<80;i++){ h[i]=x; if(draw(12,"gap")&&x<250) x=(u8)(x+step); else if(x<255) x++; } u64 c=draw(2,"cb")?(u64)h[79]+1:81; c+=draw(256-c>60?60:256-c,"c0"); for(int i=0;i<4;i++){ if(draw(3,"early")==0&&i<3){ h[80+i]=(u8)draw(81,"cs"); if(i&&h[80+i]<h[79+i]) h[80+i]=h[79+i]; } else { h[80+i]=(u8)c; if(c<255) c+=1+draw(255-c,"cn"); } } fault("wild_hints"); }
// callers give the message buffer of an opening the size of the message (tests/test_hybrid.c), not of the packet
static void tight(Op&o,u64 g){ if((o.kind==K_OPENC||o.kind==K_OPENF)&&o.l1>=2&&o.in1&&o.in1[1]<=64) o.o1=newbuf(o.in1[1],g+1); }
void scen_C12(){
  world_init(); g_mem.garbage=drawseed("heap"); set_paint(drawseed("paint")); int w=(int)(R->idx%6); R->scenario=w;
  if(w<=3){ static const int M[]={1,2,3,6,5,4,7,1,2,6}; World wd; world_packets(wd,M[(R->idx/6)%10],false); u64 K=6,n=1+draw(K,"n"); for(u64 i=0;i<n;i++){ Case c=gen_case(wd,i,K); // any length is legal here
      { const Packet&g=wd.a; u64 lo= g.mode==1?66:g.mode==2?66+g.ml:0; if((g.mode==1||g.mode==2||g.mode==3||g.mode==6)&&draw(4,"wild")==3){ u8*p=(u8*)arena(g.n); memcpy(p,g.p,g.n); wild_hints(p+lo); c.sm=p; c.n=g.n; c.pk=g.k->pk+(g.mode==3||g.mode==6?PK_D:0); c.m=g.m; c.ml=g.ml; snprintf(c.desc,sizeof c.desc,"lattice hints out of bounds in a genuine packet"); Op o; case_op(o,c,i+1); tight(o,i+1); op_exec(LIB,o); ev("%s of %lu bytes: %s -> %d",op_name(c.kind),(unsigned long)c.n,c.desc,o.ret); continue; } }
      if(draw(3,"anylen")==2){ u64 l= draw(2,"lk")?draw(c.n+1,"l"):logdraw(c.n,"ll"); u8*p=(u8*)arena(l+1); memcpy(p,c.sm,l<c.n?l:c.n); c.sm=p; c.n=l; fault("any_length"); }
      if(draw(4,"anymsg")==3){ u64 l=logdraw(9000,"ml"); u8*p=agarb(l+1,drawseed("mm")+1); c.m=p; c.ml=l; }
      if(draw(4,"anykey")==3){ size_t pkn=PKB; u8*p=agarb(pkn,drawseed("pk")+1); int z=(int)draw(4,"kz"); if(z==1) memset(p,0,pkn); if(z==2) memset(p,0xff,pkn); c.pk=p; fault("arbitrary_key"); }
      if(c.kind==K_DVER||c.kind==K_VERD||c.kind==K_SVER||c.kind==K_DOPEN||c.kind==K_SOPEN||c.kind==K_EOPEN||true){ Op o; case_op(o,c,i+1); tight(o,i+1); op_exec(LIB,o); ev("%s of %lu bytes: %s -> %d",op_name(c.kind),(unsigned long)c.n,c.desc,o.ret); } } }
  else if(w==4){ // arbitrary bytes as packets with plausible headers
    int n=1+(int)draw(6,"n"); for(int i=0;i<n;i++){ static const int KS[]={K_OPENC,K_VERC,K_OPENF,K_VERF,K_VERD,K_DVER,K_DOPEN,K_SVER,K_SOPEN,K_EOPEN,K_WVER}; Case c; memset(&c,0,sizeof c); c.kind=KS[draw(11,"k")]; if(!op_exists(LIB,c.kind)) c.kind=K_OPENC; bool full=c.kind==K_OPENF||c.kind==K_VERF; u64 base= c.kind==K_OPENC||c.kind==K_VERC||c.kind==K_WVER?CSIG0:full?FSIG0:c.kind==K_EOPEN?64:c.kind==K_SVER||c.kind==K_SOPEN?SSIG:DSIG; switch(draw(8,"l")){ case 0: case 1: c.n=base+draw(66,"ext"); break; case 6: case 7: c.n=base; break; case 2: c.n=base+draw(260,"ext2"); break; case 3: c.n=base-draw(base<130?base:130,"below"); break; case 4: c.n=base-draw(base<7?base:7,"just"); break; default: c.n=logdraw(base+70,"anyl"); } u8*p=agarb(c.n+2,drawseed("p")+1); int fill=(int)draw(4,"fill"); if(fill==1) memset(p,0,c.n); if(fill==2) memset(p,0xff,c.n); if(base==DSIG&&c.n>=DSIG&&draw(2,"hints")) wild_hints(p); if(base==CSIG0&&c.n>=66+DSIG&&draw(3,"hints")==2) wild_hints(p+66); if(base==FSIG0&&c.n>=66+DSIG+64&&draw(3,"hints")==2) wild_hints(p+66+(c.n-base)%256%65); if(c.n>1&&draw(3,"hdr")&&base!=64&&(full||base==CSIG0)){ p[0]=full?2:1; p[1]=(u8)(draw(4,"lie")?c.n-base:draw(256,"lb")); } c.sm=p; c.pk=agarb(PKB,drawseed("pk")+1); if(draw(3,"goodkey")) c.pk=pool_key((int)draw(NPKEY,"k"))->pk+(base==DSIG?PK_D:base==SSIG?PK_S:0); c.ml=draw(2,"mlk")?1+draw(64,"ml"):logdraw(3000,"mll"); c.m=agarb(c.ml+1,drawseed("m")+1); Op o; case_op(o,c,i+1); tight(o,i+1); op_exec(LIB,o); ev("%s of %lu arbitrary bytes -> %d",op_name(c.kind),(unsigned long)c.n,o.ret); R->nontrivial=1; } }
  else { // stored keys and seeds that are arbitrary bytes
    int n=1+(int)draw(3,"n"); for(int i=0;i<n;i++){ static const int KS[]={K_SIGNC,K_KEYSEED,K_DSIG,K_DSIGN,K_ESIGN,K_DKEYSEED,K_EKEYSEED,K_SKEYSEED,K_EXPAND,K_SEEDEXP,K_WSIGN,K_SIGNC}; int k=KS[draw(12,"k")]; if(R->idx%60==5) k=draw(2,"heavy")?K_SSIGN:K_SIGNF; if(!op_exists(LIB,k)) k=K_SIGNC; Op o; op_init(o,k); size_t l1=0,l2=0; switch(k){ case K_SIGNC:case K_WSIGN:case K_SIGNF: l1=1+draw(64,"l"); l2=SKB; break; case K_DSIG:case K_DSIGN: l1=logdraw(5000,"l"); l2=DSK; break; case K_SSIGN: l1=logdraw(300,"l"); l2=SSK; break; case K_ESIGN: l1=logdraw(300,"l"); l2=ESK; break; case K_KEYSEED: l1=SEEDB; break; case K_DKEYSEED:case K_EKEYSEED: l1=32; break; case K_SKEYSEED: l1=96; break; case K_EXPAND: l1=RSEEDB; break; case K_SEEDEXP: l1=32+draw(100,"l"); break; }
      u8*a=agarb(l1+1,drawseed("a")+1),*b=agarb(l2+1,drawseed("b")+1); int z=(int)draw(6,"z"); if(z==1){ memset(a,0,l1); memset(b,0,l2); } if(z==2){ memset(a,0xff,l1); memset(b,0xff,l2); } if(z>3) shape(a,l1,"shape"); if(z==3&&l2){ const Key*kk=pool_key((int)draw(NPKEY,"k")); memcpy(b,l2==SKB?kk->sk:l2==DSK?kk->sk+SK_D:l2==SSK?kk->sk+SK_S:kk->sk,l2); u64 p=draw(l2,"p"); for(u64 x=p;x<l2&&x<p+1+draw(600,"bl");x++) b[x]=(u8)draw(2,"bit")?0:0xff; } 
      o.in1=inbuf(a,l1).p; o.l1=l1; if(l2) o.in2=inbuf(b,l2).p; if(k==K_SEEDEXP) o.l2=draw(500,"ol"); op_outputs(o,i+1); op_exec(LIB,o); ev("%s with arbitrary stored bytes -> %d",op_name(k),o.ret); fault("corrupt_stored_key"); } } }

// ---------------------------------------------------------------- C15
static void diff(Op&o,const char*d){ const Api&L= draw(4,"build")==3&&op_exists(ALT,o.kind)?ALT:LIB; if(&L==&ALT) count("probe.second_build"); Op x; op_copy_outputs_fresh(x,o,o.id*5+9); x.kind=map_ref(o.kind); op_exec(L,o); op_exec(REF,x); int k=o.kind; o.kind=x.kind; std::string why; bool ok=true; if((o.ret==0)!=(x.ret==0)){ ok=false; why="verdict"; } else if(o.ret==0){ x.ret=o.ret; ok=op_same_result(o,x,&why); } ev("%s (%s) -> %d",op_name(k),d,o.ret==0?0:1); if(!ok) violate("builds-disagree","%s: this build and the reference release disagree on the %s (%s); this build %s, reference %s",op_name(k),why.c_str(),d,o.ret==0?"succeeds":"fails",x.ret==0?"succeeds":"fails"); }
void scen_C15(){
  world_init(); g_mem.garbage=drawseed("heap"); set_paint(drawseed("paint")); Gen g(mix64(drawseed("gen"))); int w=(int)(R->idx%8); R->scenario=w;
  if(w==0||w==4){ // derivation and signing by mixed builds
    u8 sd[SEEDB]; g.seed160(sd,(int)draw(3,"e"),(int)draw(3,"d"),(int)draw(3,"s")); if(draw(3,"rnd")) { Rng r(drawseed("sd")+1); r.fill(sd,SEEDB); } shape(sd,32,"shape"); shape(sd+32,32,"shape"); shape(sd+64,96,"shape"); 
    Op o; op_init(o,draw(3,"wasm")==2&&op_exists(LIB,K_WKEYSEED)?K_WKEYSEED:K_KEYSEED); o.in1=inbuf(sd,SEEDB).p; op_outputs(o,1); diff(o,"seeded derivation"); const u8*sk=o.o2.p,*pk=o.o1.p; int n=2+(int)draw(6,"n"); for(int i=0;i<n;i++){ u8 m[64]; u64 l; drawmsg(m,&l,g,"msg"); Op s; op_init(s,draw(4,"wasm")==3&&op_exists(LIB,K_WSIGN)?K_WSIGN:K_SIGNC); if(draw(5,"ek")==4) s.ent.kind=1+(int)draw(8,"ekind"); s.in1=inbuf(m,l).p; s.l1=l; s.in2=sk; op_outputs(s,i+1); swarm_noise(); diff(s,"compact signing"); Op v; op_init(v,draw(2,"ov")?K_OPENC:K_VERC); v.in1=s.o1.p; v.l1=s.outlen; v.in2=pk; v.in3=s.in1; v.l3=l; op_outputs(v,i+2); diff(v,"relayed packet"); if(v.ret) violate("rejected-genuine","packet signed by this build rejected by both builds"); } R->nontrivial=1; }
  else if(w==1&&R->idx%64==9){ // inputs that drive lattice signing through its rare paths
    int rk=draw(4,"rkey")==3; const Key*k=rare_key(rk); int n=3+(int)draw(8,"n"); for(int i=0;i<n;i++){ int md=(int[]){1,3,1,3,6,8}[draw(6,"rmode")]; u8*m=(u8*)arena(64); u64 x=rare_pick(md,rk); rare_message(m,md,x); Op s; op_init(s,md==1?K_SIGNC:md==8&&op_exists(LIB,K_WSIGN)?K_WSIGN:md==8?K_SIGNC:md==3?K_DSIG:K_DSIGN); s.ent.kind=9; s.ent.stream=x; s.in1=inbuf(m,32).p; s.l1=32; s.in2=k->sk+(md==3||md==6?SK_D:0); op_outputs(s,i+1); diff(s,"signing with many attempts"); count("probe.rare_signing_path"); } R->nontrivial=1; }
  else if(w==1){ // lattice scheme, many signatures
    int n=6+(int)draw(20,"n"); Op k; op_init(k,K_DKEYSEED); u8 sd[32]; Rng r(drawseed("sd")+1); r.fill(sd,32); shape(sd,32,"shape"); if(draw(4,"pool")==3) memcpy(sd,g.d[draw(3,"d")],32); k.in1=inbuf(sd,32).p; op_outputs(k,1); diff(k,"lattice derivation"); for(int i=0;i<n;i++){ u64 l=draw(3,"lk")?1+draw(64,"l"):logdraw(700,"ll"); Op s; op_init(s,draw(3,"t")?K_DSIG:K_DSIGN); s.in1=inbuf(agarb(l+1,drawseed("m")+1),l).p; s.l1=l; s.in2=k.o2.p; op_outputs(s,i+1); diff(s,"lattice signing"); Op v; op_init(v,s.kind==K_DSIG?K_DVER:K_DOPEN); v.in1=s.o1.p; v.l1=s.outlen; v.in2=k.o1.p; v.in3=s.in1; v.l3=l; op_outputs(v,i+2); diff(v,"lattice verification"); if(v.ret) violate("rejected-genuine","lattice signature rejected by both builds"); } R->nontrivial=1; }
  else if(w==2||w==5||w==6){ World wd; world_packets(wd,w==2?1:pick_mode(),true); u64 K=8,n=2+draw(K-1,"n"); for(u64 i=0;i<n;i++){ Case c=gen_case(wd,i,K); Op o; case_op(o,c,i*3+1); diff(o,c.desc); } }
  else if(w==3){ // randomised and seeded component operations
    int n=2+(int)draw(4,"n"); static const int KS[]={K_KEYGEN,K_DKEY,K_SKEY,K_EKEY,K_BOXKEY,K_EXPAND,K_SEEDEXP,K_SKEYSEED,K_EKEYSEED,K_ESIGN,K_WKEY,K_WEXPAND,K_WSEEDEXP,K_ESIGN}; for(int i=0;i<n;i++){ int k=KS[draw(14,"k")]; if(!op_exists(LIB,k)) continue; Op o; op_init(o,k); swarm_noise(); if(draw(5,"ek")==4) o.ent.kind=1+(int)draw(8,"ekind"); u64 l=0; switch(k){ case K_EXPAND:case K_WEXPAND: l=RSEEDB; break; case K_SEEDEXP:case K_WSEEDEXP: l=draw(200,"sl"); o.l2=logdraw(3000,"ol"); if(draw(3,"v")){ l=32+draw(100,"sl2"); o.l2=l+1+logdraw(2000,"ol2"); } break; case K_SKEYSEED: l=96; break; case K_EKEYSEED: l=32; break; case K_ESIGN: l=logdraw(400,"ml"); o.in2=pool_key((int)draw(NPKEY,"k"))->sk; break; } u8*b=agarb(l+1,drawseed("in")+1); int z=(int)draw(6,"z"); if(z==1) memset(b,0,l); if(z==2) memset(b,0xff,l); shape(b,l,"shape"); o.in1=inbuf(b,l).p; o.l1=l; op_outputs(o,i+1); diff(o,"component operation"); } R->nontrivial=1; }
  else { // hash-based and full signing (expensive); lax lattice signers
    if(R->idx%16==7){ int k=(int[]){K_SIGNF,K_SSIG,K_SSIGN}[draw(3,"k")]; const Key*key=pool_key((int)draw(NPKEY,"k")); Op o; op_init(o,k); u64 l=k==K_SIGNF?1+sdraw(64,"l"):logdraw(300,"l"); if(l<8&&draw(3,"raredigest")) l=8+draw(40,"l8"); u8*m=agarb(l+1,drawseed("m")+1); if(draw(4,"ek")==3) o.ent.kind=1+(int)draw(8,"ekind"); if(l>=8) rare_sphincs(m,l,key,o.ent); o.in1=inbuf(m,l).p; o.l1=l; o.in2=k==K_SIGNF?key->sk:key->sk+SK_S; op_outputs(o,1); diff(o,"hash-based signing"); Op v; op_init(v,k==K_SIGNF?(draw(2,"ov")?K_OPENF:K_VERF):k==K_SSIG?K_SVER:K_SOPEN); v.in1=o.o1.p; v.l1=o.outlen; v.in2=k==K_SIGNF?key->pk:key->pk+PK_S; v.in3=o.in1; v.l3=l; op_outputs(v,2); diff(v,"hash-based verification"); if(v.ret) violate("rejected-genuine","hash-based signature rejected by both builds"); R->nontrivial=1; }
    else { const Key*key=pool_key((int)draw(NPKEY,"k")); int n=2+(int)draw(6,"n"); for(int i=0;i<n;i++){ u64 l=1+draw(64,"l"); u8*m=agarb(64,drawseed("m")+1); u8*sg=(u8*)arena(DSIG); size_t sl; int md=1+(int)draw(2,"laxmode"); if(ref_lax_dilithium_signature(md,sg,&sl,m,l,key->sk+SK_D)) continue; fault("lax_signer"); Op v; op_init(v,draw(2,"t")?K_DVER:K_VERD); v.in1=inbuf(sg,DSIG).p; v.l1=DSIG; v.in2=inbuf(key->pk+PK_D,DPK).p; v.in3=inbuf(m,l).p; v.l3=l; op_outputs(v,i); diff(v,md==1?"response out of range":"low bits out of range"); } } } }
