// Scenarios over the OS entropy seam: C01, C02, C03, C17.
#include "api.h"
#include "js.h"
#include <errno.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/mman.h>
static const int ERRS[]={ENOSYS,EIO,EFAULT,EINVAL,EPERM,EAGAIN,ENOMEM,ENODEV};
void set_paint(u64); void op_allow(u64);
static void plan_clear(){ js_reset(); memset(&g_plan,0,sizeof g_plan); memset(&g_win,0,sizeof g_win); g_win.bcrypt_fail_after=-1; g_win.gen_fail_after=-1; old_reset(); }
void world_init(){ plan_clear(); g_mem.fail_index=g_mem.fail_site=g_mem.fail_occ=-1; g_mem.burst=0; }
void swarm_noise(){ // interruptions and short reads only: must never be visible to the caller
  g_plan.p_eintr=(u32)(draw(4,"p_eintr")*150); g_plan.p_short=(u32)(draw(4,"p_short")*200); g_plan.burst_max=(u32)(draw(5,"burstclass")==4?4000:draw(40,"burst")); if(!g_dict.empty()&&draw(3,"db")==2){ u64 v=g_dict[draw(g_dict.size(),"dbv")]; if(v&&v<60000){ g_plan.burst_max=(u32)(v+v/4+2); if(g_plan.p_eintr<150) g_plan.p_eintr=150; } } g_plan.noise=draw(2,"noise"); g_plan.p_open=(u32)(draw(3,"p_open")*200); g_plan.p_poll=(u32)(draw(3,"p_poll")*250); g_plan.p_close=(u32)(draw(3,"p_close")*300); g_plan.kernel_max=0; switch(draw(4,"kmax")){case 1:g_plan.kernel_max=256;break;case 2:g_plan.kernel_max=33554431;break;case 3:g_plan.kernel_max=1+draw(64,"kmaxv");break;} }
typedef int (*rb_t)(void*,size_t); static const char*CFGN[]={"glibc getrandom","getrandom system call","legacy devices","windows","JavaScript","BSD arc4random","WASI arc4random","WebAssembly binding"};
static rb_t CF(int c){ return c==0?LIB.randombytes:c==1?rbsys_randombytes:c==2?rbold_randombytes:c==3?rbwin_randombytes:c==4?(js_available()?rbem_randombytes:nullptr):c==5?rbbsd_randombytes:c==6?rbwasi_randombytes:(rb_t)LIB.dp_randombytes; }
static int rb_call(int cfg,Ent&e,void*p,size_t n){ Ent*s=ent_cur(); ent_set(&e); errno=(int[]){0,EINTR,EAGAIN}[e.stream%3]; op_enter(K_RAND); op_allow(64*(u64)n); count("op.randombytes"); int r=CF(cfg)(p,n); op_leave(); ent_set(s); evh(r,e.delivered); return r; }
static bool stream_eq(const Ent&e,u64 pos,const u8*p,size_t n){ static u8 t[1<<16]; while(n){ size_t k=n<sizeof t?n:sizeof t; ent_fill(e,pos,t,k); if(memcmp(t,p,k)) return false; p+=k; pos+=k; n-=k; } return true; }
// did the buffer receive exactly delivered bytes, in order, each used once?
static bool complete(const Ent&e,const u8*p,size_t n){ if(e.delivered<n) return false; if(stream_eq(e,0,p,n)) return true; if(e.delivered==n) return false; if(stream_eq(e,e.delivered-n,p,n)) return true; if(e.delivered>1<<20) return false; std::vector<u8> d(e.delivered); ent_fill(e,0,d.data(),d.size()); size_t i=0; for(size_t j=0;j<d.size()&&i<n;j++) if(d[j]==p[i]) i++; return i==n; }
static void one_rb(int cfg,size_t n,Ent&e,bool hard_possible){
  const size_t G=4096; size_t tot=(n+2*G+4095)/4096*4096; u8*m=(u8*)mmap(0,tot,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(m==MAP_FAILED) simerror("mmap %zu",tot); u8*p=m+(draw(2,"align")?G-1-draw(15,"al"):G); memset(m,0xC3,p-m); size_t pre=n<65536?n:65536; Rng g(e.stream^55); g.fill(p,pre); if(n>65536) g.fill(p+n-65536,65536); memset(p+n,0x3C,m+tot-(p+n)<8192?m+tot-(p+n):8192);
  if(cfg==4){ g_js.mem=m; g_js.memlen=tot; } int r=rb_call(cfg,e,p,n); ev("%s: %zu bytes, %u calls -> %d (delivered %lu)",CFGN[cfg],n,e.ncalls_total,r?1:0,(unsigned long)e.delivered);
  for(u8*q=m;q<p;q++) if(*q!=0xC3) violate("outside-buffer","%s: byte before the buffer changed",CFGN[cfg]); size_t post=m+tot-(p+n)<8192?m+tot-(p+n):8192; for(size_t i=0;i<post;i++) if(p[n+i]!=0x3C) violate("outside-buffer","%s: byte %zu past the buffer changed",CFGN[cfg],i);
  if(r==0){ if(!complete(e,p,n)) violate("incomplete-success","%s: %zu bytes requested, success reported, but the buffer is not what the system delivered (%lu bytes)",CFGN[cfg],n,(unsigned long)e.delivered); count("probe.success"); }
  else { if(!hard_possible) violate("spurious-failure","%s: %zu bytes requested, only interruptions and short reads occurred, yet the request failed (%d)",CFGN[cfg],n,r); count("probe.error_reported"); }
  munmap(m,tot); }
static void ent_init(Ent&e,u64 salt){ memset(&e,0,sizeof e); e.fail_from=-1; e.stream=mix64(R->seed*977+R->idx)^mix64(salt+R->ntape*131ull); }
void scen_C01(){
  plan_clear(); static const int W[]={0,2,1,0,3,2,1,7, 0,2,1,4,3,2,1,0, 0,2,4,7,3,2,1,5, 0,2,1,0,3,4,1,6}; int cfg=W[R->idx%32]; if(!CF(cfg)) { cfg=0; }
  R->scenario=cfg; bool huge=R->idx==3, big=R->idx%61==5||R->idx==6||R->idx==7;
  if(R->idx==4||R->idx==3||R->idx==12) { huge=true; cfg=R->idx==3?0:CF(3)?3:0; R->scenario=cfg; }
  int ncalls=1+(int)draw(4,"ncalls"); if(cfg>=4&&cfg!=7) big=huge=false; if(huge||big) ncalls=1;
  for(int c=0;c<ncalls;c++){
    plan_clear(); swarm_noise(); if(cfg==2) { old_reset(); g_old.ioctl_mode=(int)draw(3,"ioctl"); g_old.level0=(int)(draw(2,"lvl")?draw(200,"level0"):300); g_old.ngrow=2; g_old.grow_at[0]=draw(5000,"t1"); g_old.grow_to[0]=(int)draw(200,"l1"); g_old.grow_at[1]=5000+draw(100000,"t2"); g_old.grow_to[1]=128+(int)draw(300,"l2"); g_old.wake=(int)(draw(2,"wake")?64:128); }
    Ent e; ent_init(e,c+1); size_t n; 
    if(huge){ n=(1ull<<32)+(draw(2,"over")?1+draw(5000,"hn"):0)+33554431ull%7; g_plan.kernel_max=33554431; g_plan.p_eintr/=4; g_plan.p_short/=20; g_plan.burst_max=3; }
    else if(big){ static const size_t B[]={33554430,33554431,33554432,33554433,2*33554431ull,2*33554431ull+1,2*33554431ull-1,50000000,3*33554431ull+17}; n=B[draw(9,"bign")]; if(g_plan.kernel_max&&g_plan.kernel_max<1000000) g_plan.kernel_max=1000003; g_plan.p_short/=8; g_plan.burst_max=20; }
    else switch(draw(8,"nclass")){ case 0:{static const size_t S[]={32,40,96,160,1,64}; n=S[draw(6,"n")];break;} case 1:n=draw(5,"n");break; case 2:n=draw(64,"n");break; case 3:n=250+draw(14,"n");break; case 4:n=logdraw(70000,"n");break; case 5:n=draw(1000,"n");break; case 6:n=160+draw(3,"n");break; default:n=4090+draw(12,"n");break; }
    if(!huge&&!big) n=dictlen(n,0,200000); if(cfg>=4&&draw(5,"nbig")==4){ static const size_t B[]={65535,65536,65537,131072,131073,100000,200001}; n=B[draw(7,"nb")]; } if(cfg==4) g_js.env=(int)draw(3,"jsenv");
    bool hard=false;
    if(draw(3,"hard")==2&&!huge){ hard=true; 
      if(cfg<=1||cfg==7){ e.fail_from=(i64)draw(4,"failcall"); e.fail_after_bytes=draw(2,"fab")?logdraw(n,"failbytes"):0; e.fail_err=ERRS[draw(8,"failerr")]; if(draw(3,"tr")==2){ e.fail_from=-1; g_plan.p_transient=150; } }
      else if(cfg==2){ switch(draw(9,"oldfault")){ case 0: g_old.read_mode=1; g_old.read_fail_after=draw(2,"z")?(i64)logdraw(n,"rfa"):0; break; case 1: g_old.read_mode=2; g_old.read_fail_after=draw(2,"z")?(i64)logdraw(n,"rfa"):0; break; case 2: g_old.urandom_open_err=(int[]){ENOENT,EMFILE,EACCES,ENFILE}[draw(4,"oe")]; break; case 3: g_old.random_open_err=(int[]){ENOENT,EMFILE,EACCES,ENFILE}[draw(4,"oe")]; g_old.level0=10; break; case 4: g_old.ioctl_mode=3; break; case 5: g_old.ioctl_mode=1; g_old.proc_mode=1+(int)draw(4,"pm"); break; case 6: g_old.poll_mode=1+(int)draw(2,"pmode"); g_old.level0=10; break; case 7: g_old.ioctl_fail_after=1+(int)draw(3,"ifa"); g_old.level0=70; break; case 8: e.fail_from=(i64)draw(3,"failcall"); e.fail_err=EIO; break; } }
      else if(cfg==4){ int w=(int)draw(4,"jsfault"); if(w<2){ g_js.throw_at=(i64)draw(n>65536?4:2,"throwat"); g_js.throw_kind=(int)draw(3,"tk"); g_js.order=(int)draw(2,"persist"); } else { g_js.env=3+(int)draw(4,"jsenv2"); if(g_js.env==4||g_js.env==5) hard=false; fault("js_no_crypto"); } }
      else if(cfg>4) hard=false;
      else { switch(draw(5,"winfault")){ case 0: g_win.bcrypt_fail=1; hard=false; break; case 1: g_win.bcrypt_fail=1; g_win.acquire_fail=1; break; case 2: g_win.bcrypt_fail=1; g_win.gen_fail_after=(i64)draw(3,"gfa"); break; case 3: g_win.bcrypt_fail=1; g_win.release_fail=1; break; case 4: g_win.bcrypt_fail_after=(int)draw(2,"bfa"); hard=false; break; } } }
    if(huge&&cfg==3) g_win.bcrypt_fail=(int)rawdraw(2,R->idx==4,"hb");
    one_rb(cfg,n,e,hard||g_plan.p_transient);
    if(hard&&draw(2,"heal")){ u32 a=g_plan.p_eintr,b=g_plan.p_short; plan_clear(); g_plan.p_eintr=a; g_plan.p_short=b; g_plan.burst_max=5; Ent f; ent_init(f,c+100); one_rb(cfg,1+draw(200,"n2"),f,false); count("probe.recovered_after_error"); }
  } }

// ---- op preparation shared by C02/C03
static Gen* G=nullptr;
int map_ref(int k){ switch(k){case K_WKEY:return K_KEYGEN;case K_WSIGN:return K_SIGNC;case K_WKEYSEED:return K_KEYSEED;case K_WVER:return K_VERC;case K_WEXPAND:return K_EXPAND;case K_WRAND:return K_RAND;case K_WSEEDEXP:return K_SEEDEXP;} return k; }
void prep_entropy_op(Op&o,int kind,Key*k){ op_init(o,kind); u8*m=(u8*)arena(64); u64 l; switch(kind){ case K_SIGNC:case K_SIGNF:case K_WSIGN: drawmsg(m,&l,*G,"msg"); o.in1=m;o.l1=l;o.in2=k->sk; break; case K_SSIG:case K_SSIGN: drawmsg(m,&l,*G,"msg"); o.in1=m;o.l1=l;o.in2=k->sk+SK_S; break; case K_RAND:case K_WRAND: o.l1=1+draw(200,"rn"); break; } op_outputs(o,o.id*3+1); if(draw(6,"kind")==5) o.ent.kind=1+(int)draw(8,"ekind"); }
// expected result: the reference release fed with exactly the bytes delivered to this call
static void check_against_delivered(Op&o,const char*ctx){ Op x; op_copy_outputs_fresh(x,o,o.id*5+9); x.kind=map_ref(o.kind); if(x.kind==K_RAND){ u8*t=(u8*)malloc(o.l1); ent_fill(o.ent,0,t,o.l1); if(memcmp(t,o.o1.p,o.l1)) violate("not-delivered-bytes","%s: %s returned bytes the system did not deliver in this call",ctx,op_name(o.kind)); free(t); return; }
  op_exec(REF,x); std::string why; o.kind=map_ref(o.kind); bool same=op_same_result(o,x,&why); if(o.ent.delivered<x.ent.refpos) violate("too-little-entropy","%s: %s succeeded with %lu fresh bytes where %lu are needed",ctx,op_name(o.kind),(unsigned long)o.ent.delivered,(unsigned long)x.ent.refpos);
  if(!same) violate("wrong-randomness","%s: result of %s is not the one determined by the bytes delivered during the call (%s)",ctx,op_name(o.kind),why.c_str()); }
static const int CHEAP[]={K_KEYGEN,K_SIGNC,K_DKEY,K_EKEY,K_BOXKEY,K_SKEY,K_WKEY,K_WSIGN,K_RAND,K_WRAND,K_SIGNC,K_KEYGEN};
static const int COSTLY[]={K_SIGNF,K_SSIG,K_SSIGN};
static int pick_kind(bool costly,u64 i){ int k= costly?COSTLY[i%3]:CHEAP[i%12]; if(!op_exists(LIB,k)) k=K_SIGNC; return k; }

void scen_C02(){
  plan_clear(); Gen g(drawseed("gen")+1); G=&g; set_paint(drawseed("paint")); g_mem.garbage=drawseed("heap");
  Key*key=refkey(g,(int)draw(3,"e"),(int)draw(3,"d"),(int)draw(3,"s")); int n=1+(int)draw(4,"nops"); R->scenario=0;
  for(int i=0;i<n;i++){
    swarm_noise(); bool costly=(R->idx+i)%4==1; int kind=pick_kind(costly,sdraw(12,"kind")+i); Op o; prep_entropy_op(o,kind,key);
    bool outage=draw(4,"outage")!=1||costly; int mode=0; if(outage){ mode=(int)draw(4,"omode"); if(mode==3){ g_plan.p_transient=400; } else { o.ent.fail_from=0; o.ent.fail_after_bytes= mode==0?0:logdraw(160,"fab"); if(mode==0) o.ent.fail_from=(i64)draw(2,"fc"); o.ent.fail_err=ERRS[draw(8,"errno")]; if(mode==2){ g_plan.p_short=600; } } }
    u64 h1=o.o1.n?hashbytes(o.o1.p,o.o1.n):0,h2=o.o2.n?hashbytes(o.o2.p,o.o2.n):0; u64 hs=hashbytes(key->sk,SKB);
    if(costly&&!(o.ent.fail_from==0&&o.ent.fail_after_bytes==0)&&R->idx%16!=1){ o.ent.fail_from=0; o.ent.fail_after_bytes=0; if(!o.ent.fail_err) o.ent.fail_err=EIO; g_plan.p_transient=0; }
    op_exec(LIB,o); bool failed=o.ent.failing; ev("%s under %s -> %d (delivered %lu)",op_name(kind),failed?"outage":outage?"near-miss outage":"healthy source",o.ret,(unsigned long)o.ent.delivered);
    if(o.ret==0){ if(failed) { // the source was failing when it was last asked: can only be right if the call got all its bytes afterwards, which a persistent outage excludes
        violate("success-during-outage","%s reported success although the entropy source failed during the call (%lu bytes delivered)",op_name(kind),(unsigned long)o.ent.delivered); }
      check_against_delivered(o,"after faults"); count("probe.success"); }
    else { if(!failed&&!g_plan.p_transient) violate("spurious-failure","%s failed although the entropy source only interrupted or shortened reads",op_name(kind)); count("probe.outage_reported");
      if(op_hybrid(kind)){ if((o.o1.n&&hashbytes(o.o1.p,o.o1.n)!=h1)||(o.o2.n&&hashbytes(o.o2.p,o.o2.n)!=h2)) violate("output-written","%s failed for lack of entropy but changed the caller's output buffer",op_name(kind)); if(op_len_out(kind)&&o.outlen!=o.outlen0) violate("output-written","%s failed for lack of entropy but changed the caller's length",op_name(kind)); } }
    if(hashbytes(key->sk,SKB)!=hs) violate("input-modified","%s modified the secret key",op_name(kind));
    bool heavy=kind==K_SIGNF||kind==K_SSIG||kind==K_SSIGN;
    if(o.ret!=0&&failed&&mode!=3&&draw(4,"long")==3){ u64 rep=dictlen(1+logdraw(heavy?6:60,"rep"),1,400); fault("long_outage"); for(u64 r=0;r<rep;r++){ Op q=o; q.ent.failing=false; q.ent.fail_from=0; q.ent.fail_after_bytes=0; q.ent.delivered=0; q.ent.eintr_left=0; q.ent.calls=q.ent.ncalls_total=0; q.ent.refpos=0; q.outlen=q.outlen0; op_exec(LIB,q); if(q.ret==0) violate("success-during-outage","%s reported success in the %luth call of an outage",op_name(kind),(unsigned long)r+2);
        if(op_hybrid(kind)&&((o.o1.n&&hashbytes(o.o1.p,o.o1.n)!=h1)||(o.o2.n&&hashbytes(o.o2.p,o.o2.n)!=h2)||(op_len_out(kind)&&q.outlen!=q.outlen0))) violate("output-written","%s failed for lack of entropy but changed the caller's output",op_name(kind)); } }
    if(o.ret!=0&&(!heavy||R->idx%16==1)){ g_plan.p_transient=0; Op q=o; q.ent.fail_from=-1; q.ent.failing=false; q.ent.delivered=0; q.ent.eintr_left=0; q.ent.calls=q.ent.ncalls_total=0; q.ent.refpos=0; q.ent.stream^=mix64(i+5); q.outlen=q.outlen0; op_exec(LIB,q); if(q.ret!=0) violate("no-recovery","%s still fails after the entropy source recovered",op_name(kind)); check_against_delivered(q,"after recovery"); count("probe.recovered"); }
  } }

extern void scen_threads_fresh();
void scen_C03(){
  plan_clear(); Gen g(drawseed("gen")+1); G=&g; g_mem.garbage=drawseed("heap"); set_paint(drawseed("paint")); int mode=(int)(R->idx%5); R->scenario=mode; Key*key=refkey(g,(int)draw(3,"e"),(int)draw(3,"d"),(int)draw(3,"s")); Key*key2=refkey(g,(int)draw(3,"e"),(int)draw(3,"d"),(int)draw(3,"s"));
  swarm_noise();
  auto one=[&](const char*ctx,u64 i){ Op o; prep_entropy_op(o,pick_kind(false,sdraw(12,"kind")+i*5),draw(2,"key")?key2:key); op_exec(LIB,o); if(o.ret!=0) violate("spurious-failure","%s: %s failed with a working entropy source",ctx,op_name(o.kind)); ev("%s: %s ok",ctx,op_name(o.kind)); check_against_delivered(o,ctx); };
  if(mode==0||mode==4&&R->idx%30!=4){ int n=2+(int)draw(5,"nops"); if(draw(3,"same")==2){ int k=pick_kind(false,draw(12,"k")); const u8*sm=nullptr; u64 sl=0; bool again=draw(2,"samemsg")==1; for(int i=0;i<n;i++){ Op o; prep_entropy_op(o,k,key); if(again&&i&&o.in1){ o.in1=sm; o.l1=sl; op_outputs(o,i+3); } sm=o.in1; sl=o.l1; op_exec(LIB,o); if(o.ret) violate("spurious-failure","repeated %s failed",op_name(k)); check_against_delivered(o,"repeated"); } } else for(int i=0;i<n;i++) one("sequence",i); R->nontrivial=1; }
  else if(mode==4){ int n=1+(int)draw(2,"again"); const u8*sm=nullptr; u64 sl=0; bool same=draw(3,"samemsg")!=0; for(int i=0;i<n;i++){ Op o; prep_entropy_op(o,COSTLY[draw(3,"ck")],key); if(i&&same&&o.in1){ o.in1=sm; o.l1=sl; op_outputs(o,i+3); count("probe.same_message_again"); } sm=o.in1; sl=o.l1; op_exec(LIB,o); if(o.ret) violate("spurious-failure","%s failed",op_name(o.kind)); check_against_delivered(o,"randomised signature"); } R->nontrivial=1; }
  else if(mode==1){ // fork / snapshot: the same process image is continued several times
    int rc=incarnate([&]{ int pre=(int)draw(4,"pre"); for(int i=0;i<pre;i++) one("before snapshot",i); int clones=2+(int)draw(2,"clones"); for(int c=0;c<clones;c++){ fault("snapshot_resume"); int rc=incarnate([&]{ int n=1+(int)draw(2,"post"); for(int i=0;i<n;i++) one("resumed snapshot",i+c); }); if(rc!=EX_OK) _exit(rc); } one("original after snapshot",9); }); if(rc!=EX_OK) _exit(rc); }
  else if(mode==2){ // crash in the middle of an operation, restart, continue
    for(int life=0;life<2+(int)draw(2,"lives");life++){ u64 at=draw(3,"crash")?1+logdraw(3000000,"crashstep"):0; int rc=incarnate([&]{ set_crash_at(at); int n=1+(int)draw(3,"n"); for(int i=0;i<n;i++) one("after restart",i+life); }); if(rc!=EX_OK&&rc!=EX_CRASHED) _exit(rc); ev("life %d %s",life,rc==EX_CRASHED?"crashed":"ended"); } }
  else { // concurrent callers
    int nt=2+(int)draw(3,"threads"); std::vector<std::vector<Op>> ops(nt); std::vector<std::function<void()>> fs; for(int t=0;t<nt;t++){ int n=1+(int)draw(3,"nops"); ops[t].resize(n); int fixed=(int)draw(3,"fixed"); for(int i=0;i<n;i++) prep_entropy_op(ops[t][i],fixed?K_SIGNC:pick_kind(false,draw(12,"kind")),draw(2,"key")?key2:key); }
    for(int t=0;t<nt;t++) fs.push_back([&ops,t]{ for(auto&o:ops[t]) op_exec(LIB,o); }); SchedCfg cfg={ (int)draw(5,"policy"), 2000000 }; sched_run(fs,cfg); for(auto&v:ops) for(auto&o:v){ if(o.ret) violate("spurious-failure","concurrent %s failed",op_name(o.kind)); check_against_delivered(o,"concurrent"); } ev("%d threads, %lu switches",nt,(unsigned long)R->switches); } }

void scen_C17(){
  plan_clear(); R->scenario=0; int n=1+(int)draw(3,"n"); 
  for(int c=0;c<n;c++){ old_reset(); swarm_noise(); g_plan.p_transient=0; g_old.ioctl_mode=(int)draw(3,"ioctl"); g_old.wake=(int[]){64,128,1,100}[draw(4,"wake")]; g_old.level0=(int[]){0,127,128,63,129,200,12,4096}[draw(8,"l0")]; g_old.ngrow=1+(int)draw(7,"ngrow"); u64 t=0; for(int i=0;i<g_old.ngrow;i++){ t+=1+logdraw(3000000,"dt"); g_old.grow_at[i]=t; g_old.grow_to[i]=(int[]){0,64,100,127,126,5,90}[draw(7,"lv")]; } g_old.grow_at[g_old.ngrow-1]=t+1; g_old.grow_to[g_old.ngrow-1]=128+(int)draw(2000,"final"); bool hard=false;
    if(draw(3,"hard")==2){ switch(draw(8,"what")){ case 0: g_old.ioctl_mode=3; hard=true; break; case 1: g_old.ioctl_mode=1+(int)draw(2,"e"); g_old.proc_mode=1+(int)draw(4,"pm"); hard=true; break; case 2: g_old.random_open_err=(int[]){ENOENT,EMFILE,EACCES,ENODEV}[draw(4,"oe")]; hard=true; break; case 3: g_old.poll_mode=1+(int)draw(2,"pm"); g_old.poll_fail_after=(int)draw(3,"pfa"); hard=true; break; case 4: g_old.ioctl_mode=0; g_old.ioctl_fail_after=(int)draw(4,"ifa"); hard=true; break; case 5: g_old.urandom_open_err=ENOENT; hard=true; break; case 6: g_old.read_mode=1+(int)draw(2,"rm"); g_old.read_fail_after=(i64)draw(40,"rfa"); hard=true; break; case 7: g_old.ioctl_mode=2; g_old.proc_mode=2+(int)draw(2,"pm"); g_plan.p_poll=500; hard=true; break; } }
    Ent e; ent_init(e,c+7); size_t len=1+draw(160,"len"); u8*b=agarb(len+16,e.stream); int r=rb_call(2,e,b,len); ev("legacy: level %d.. ioctl mode %d proc mode %d -> %d, reported max %d, trace %s",g_old.level0,g_old.ioctl_mode,g_old.proc_mode,r?1:0,g_old.reported_max,g_old.trace); R->nontrivial=1;
    if(r==0){ if(e.before_gate||!e.gate) violate("ungated-entropy","success with %lu bytes read before the kernel reported 128 bits (maximum reported %d)",(unsigned long)e.before_gate,g_old.reported_max); if(!complete(e,b,len)) violate("incomplete-success","legacy source: buffer is not what the device delivered"); count("probe.gate_passed"); if(g_old.reports>1) count("probe.waited_for_pool"); }
    else { if(!hard) violate("spurious-failure","request failed although the pool became ready and only interruptions occurred"); count("probe.error_reported"); } } }
int rb_call_cfg(int cfg,Ent&e,void*p,size_t n){ return rb_call(cfg,e,p,n); } void ent_init_pub(Ent&e,u64 salt){ ent_init(e,salt); } bool rb_exists(int cfg){ return CF(cfg)!=nullptr; }
