// Scenarios over process life: C04 threads, C05 memory exhaustion, C06 resource release, C08 delivery, C09 recovery.
#include "case.h"
#include "rare.h"
#include "hash_adapt.h"
#include <stdio.h>
#include <algorithm>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
static bool is_open(int k){ return k==K_OPENC||k==K_OPENF||k==K_DOPEN||k==K_SOPEN||k==K_EOPEN; }
// ---------------------------------------------------------------- any operation
struct Any { Gen g; World w; bool have; int wmode; Any(u64 s):g(s),have(false),wmode(0){} };
static const int CHEAPK[]={K_SIGNC,K_KEYSEED,K_HASH,K_KEYGEN,K_DSIG,K_EXPAND,K_DKEYSEED,K_DSIGN,K_ESIGN,K_EKEYSEED,K_WSIGN,K_SEEDEXP,K_SKEYSEED,K_DKEY,K_EKEY,K_BOXKEY,K_RAND,K_WKEYSEED,K_WKEY,K_WEXPAND,K_WRAND,K_WSEEDEXP,K_SKEY,K_HASH,K_SIGNC,K_SIGNC};
enum { NCHEAP=sizeof CHEAPK/sizeof*CHEAPK };
static size_t in1len(const Op&o){ switch(o.kind){ case K_KEYSEED:case K_WKEYSEED:return SEEDB; case K_EXPAND:case K_WEXPAND:return RSEEDB; case K_DKEYSEED:case K_EKEYSEED:return 32; case K_SKEYSEED:return 96; case K_KEYGEN:case K_WKEY:case K_DKEY:case K_SKEY:case K_EKEY:case K_BOXKEY:case K_RAND:case K_WRAND:return 0; } return o.in1?o.l1:0; }
static size_t in2len(const Op&o){ switch(o.kind){ case K_SIGNC:case K_SIGNF:case K_WSIGN:return SKB; case K_DSIG:case K_DSIGN:return DSK; case K_SSIG:case K_SSIGN:return SSK; case K_ESIGN:return ESK; case K_OPENC:case K_OPENF:case K_VERC:case K_VERF:case K_WVER:return PKB; case K_VERD:case K_DVER:case K_DOPEN:return DPK; case K_SVER:case K_SOPEN:return SPK; case K_EOPEN:return EPK; } return 0; }
u64 op_inhash(const Op&o); static u64 inhash(const Op&o){ u64 h=1; if(o.in1) h=mix64(h^hashbytes(o.in1,in1len(o))); if(o.in2) h=mix64(h^hashbytes(o.in2,in2len(o))); if(o.in3) h=mix64(h^hashbytes(o.in3,o.l3)); return h; }
u64 op_inhash(const Op&o){ return inhash(o); }
static const Key* anykey(){ return pool_key((int)draw(NPKEY,"key")); }
// kind<0: a verification in the world's mode
static Op* any_op(Any&a,int kind,u64 i,u64 K){
  Op*o=(Op*)arena(sizeof(Op)); u64 g=drawseed("garb");
  if(kind<0){ Case c=gen_case(a.w,i,K); op_init(*o,c.kind); o->in1=c.sm; o->l1=c.n; o->in2=c.pk; if(!is_open(c.kind)){ o->in3=c.m; o->l3=c.ml; } op_outputs(*o,g); return o; }
  if(!op_exists(LIB,kind)) kind=K_SIGNC;
  op_init(*o,kind); const Key*k=anykey(); u8*m=(u8*)arena(512); u64 l=0;
  switch(kind){
    case K_SIGNC:case K_WSIGN:case K_SIGNF: drawmsg(m,&l,a.g,"msg"); o->in1=m;o->l1=l;o->in2=k->sk; break;
    case K_DSIG:case K_DSIGN: l=logdraw(500,"ml"); Rng(drawseed("m")+1).fill(m,l); o->in1=m;o->l1=l;o->in2=k->sk+SK_D; break;
    case K_SSIG:case K_SSIGN: l=logdraw(500,"ml"); Rng(drawseed("m")+1).fill(m,l); o->in1=m;o->l1=l;o->in2=k->sk+SK_S; break;
    case K_ESIGN: l=logdraw(300,"ml"); Rng(drawseed("m")+1).fill(m,l); o->in1=m;o->l1=l;o->in2=k->sk; break;
    case K_KEYSEED:case K_WKEYSEED: { u8*s=(u8*)arena(SEEDB); a.g.seed160(s,(int)draw(3,"e"),(int)draw(3,"d"),(int)draw(3,"s")); o->in1=s; break; }
    case K_EXPAND:case K_WEXPAND: { u8*s=(u8*)arena(SEEDB); a.g.seed160(s,(int)draw(3,"e"),(int)draw(3,"d"),(int)draw(3,"s")); o->in1=s; break; }
    case K_DKEYSEED: o->in1=a.g.d[draw(3,"d")]; { u8*s=(u8*)arena(32); memcpy(s,o->in1,32); o->in1=s; } break;
    case K_EKEYSEED: { u8*s=(u8*)arena(32); memcpy(s,a.g.e[draw(3,"e")],32); o->in1=s; break; }
    case K_SKEYSEED: { u8*s=(u8*)arena(96); memcpy(s,a.g.sp[draw(3,"s")],96); o->in1=s; break; }
    case K_SEEDEXP:case K_WSEEDEXP: { l=32+draw(100,"sl"); u8*s=agarb(l+1,drawseed("sd")+1); o->in1=s; o->l1=l; o->l2=l+1+logdraw(600,"ol"); break; }
    case K_RAND:case K_WRAND: o->l1=1+draw(200,"rn"); break;
    case K_HASH: { l=logdraw(1200,"hl"); o->in1=agarb(l+1,drawseed("hm")+1); o->l1=l; o->l2=draw(A_N,"alg"); if(o->l2==A_EXPANDER) o->l1=l=32+l%64; o->l3=ha_dlen((int)o->l2); if(!o->l3) o->l3=1+logdraw(700,"hol"); o->aux=drawseed("frag"); break; } }
  if(op_needs_entropy(kind)&&draw(6,"ek")==5) o->ent.kind=1+(int)draw(8,"ekind");
  op_outputs(*o,g); return o; }
Op* draw_op(u64 gseed,u64 k){ Any*a=new Any(gseed); return any_op(*a,CHEAPK[k%NCHEAP],0,1); }
static Op* clone_op(const Op*s,u64 g){ Op*d=(Op*)arena(sizeof(Op)); op_copy_outputs_fresh(*d,*s,g); return d; }

// ---------------------------------------------------------------- C04
// shared inputs live in pages the library cannot write: a store to an input is a fault, even one that is undone later
#include <sys/mman.h>
struct RoPool { u8*base; size_t used,cap; std::vector<std::pair<std::pair<const u8*,size_t>,u8*>> m; RoPool():used(0),cap(4<<20){ base=(u8*)mmap(0,cap,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(base==MAP_FAILED) simerror("mmap"); }
  const u8* put(const u8*p,size_t n){ if(!p) return p; for(auto&x:m) if(x.first.first==p&&x.first.second>=n) return x.second; used=(used+15)/16*16+(used/16)%13; if(used+n>cap) return p; u8*d=base+used; memcpy(d,p,n); used+=n; m.push_back({{p,n},d}); return d; }
  void seal(){ mprotect(base,cap,PROT_READ); } ~RoPool(){ munmap(base,cap); } };
static void ro_inputs(RoPool&r,Op&o){ o.in1=r.put(o.in1,in1len(o)); o.in2=r.put(o.in2,in2len(o)); if(o.in3) o.in3=r.put(o.in3,o.l3); }
void scen_C04(){
  world_init(); g_mem.garbage=0; set_paint(0); Any a(mix64(R->seed*1000+7)); int fam=(int)(R->idx%8); R->scenario=fam;
  static const int WM[]={1,1,1,3,5,2,1,6}; world_packets(a.w,WM[fam],false); int nt=2+(int)draw(3,"threads"); std::vector<std::vector<Op*>> ops(nt),exp(nt);
  int focus=(int)draw(4,"focus"); int fk=CHEAPK[sdraw(NCHEAP,"fk")]; if(draw(3,"fver")==2) fk=-1;
  bool heavy=R->idx%24==11; if(heavy){ nt=2; ops.resize(2); exp.resize(2); } static const int HK[]={K_SSIG,K_SSIGN,K_SIGNF,K_SSIG}; int hk=HK[(R->idx/24)%4];
  for(int t=0;t<nt;t++){ if(heavy){ ops[t].push_back(any_op(a,t&&draw(2,"other")?HK[draw(4,"hk")]:hk,t,16)); exp[t].push_back(nullptr); continue; } int n=1+(int)draw(fam==5?1:2,"nops"); for(int i=0;i<n;i++){ int k= focus>=2?fk:draw(3,"ver")==2||fam==5?-1:CHEAPK[draw(NCHEAP,"kind")]; ops[t].push_back(any_op(a,k,t*4+i,16)); exp[t].push_back(nullptr); } }
  // the same call alone, in a process of its own
  u64*stores=(u64*)arena(8); auto solo=[&](int t,size_t i)->bool{ Op*e=exp[t][i]=clone_op(ops[t][i],drawseed("garb2")); *stores=0; int rc=incarnate([&]{ g_static_stores=0; op_exec(LIB,*e); *stores=g_static_stores; }); if(rc!=EX_OK) ev("call alone ended abnormally (%d)",rc); return rc==EX_OK; };
  int skind=0; bool sver=false; for(int t=0;t<nt;t++) for(size_t i=0;i<ops[t].size();i++){ if(!solo(t,i)) return; if(*stores&&!skind){ skind=ops[t][i]->kind; sver=is_open(skind)||skind==K_VERC||skind==K_VERF||skind==K_WVER||skind==K_VERD||skind==K_DVER||skind==K_SVER; } }
  // a call that writes static memory alone is the one to run against itself
  if(skind&&draw(4,"adapt")){ count("probe.static_writers"); for(int t=0;t<nt;t++){ Op*o=nullptr; for(int tr=0;tr<6;tr++){ o=any_op(a,sver?-1:skind,t*4+tr,16); if(o->kind==skind) break; } ops[t].assign(1,o); exp[t].assign(1,nullptr); if(!solo(t,0)) return; } }
  std::vector<u64> ih; for(auto&v:ops) for(auto*o:v) ih.push_back(inhash(*o));
  RoPool ro; for(auto&v:ops) for(auto*o:v) ro_inputs(ro,*o); ro.seal();
  std::vector<std::function<void()>> fs; for(int t=0;t<nt;t++) fs.push_back([&ops,t]{ for(auto*o:ops[t]) op_exec(LIB,*o); }); u64 est=0; (void)est; SchedCfg cfg={skind?(int)(u8[]){3,2,2,3,0,2,2,1}[draw(8,"policy")]:(int)(u8[]){0,0,1,1,0,0,4,1}[draw(8,"policy")],(u64)1<<(8+draw(16,"span"))}; sched_run(fs,cfg);
  size_t x=0; for(int t=0;t<nt;t++) for(size_t i=0;i<ops[t].size();i++){ Op*o=ops[t][i],*e=exp[t][i]; std::string why; if(!op_same_result(*o,*e,&why)) violate("interference","%s in thread %d gives another result than alone: %s (code %d, alone %d)",op_name(o->kind),t,why.c_str(),o->ret,e->ret); if(inhash(*o)!=ih[x]) violate("input-modified","%s in thread %d modified its input",op_name(o->kind),t); x++; }
  std::string l; for(int t=0;t<nt;t++){ l+="["; for(auto*o:ops[t]){ l+=op_name(o->kind); l+=";"; } l+="]"; } ev("%d threads %s, %lu switches",nt,l.c_str(),(unsigned long)R->switches); }

// ---------------------------------------------------------------- C05
void scen_C05(){
  world_init(); g_mem.garbage=1+drawseed("heap"); set_paint(0); Any a(mix64(R->seed*1000+7)); static const int WM[]={1,2,1,3,6,5,1,4}; int fam=(int)(R->idx%8); R->scenario=fam; bool ver=R->idx%3==1; int kind=-1; bool heavy=false;
  world_packets(a.w,WM[fam],false); if(!ver){ kind=CHEAPK[(R->idx/3)%NCHEAP]; if(R->idx%6==2) kind=K_HASH; if(R->idx%24==5){ kind=(int[]){K_SIGNF,K_SSIG,K_SSIGN,K_SIGNF}[sdraw(4,"heavy")]; heavy=true; } }
  Op*o=any_op(a,kind,R->idx%8,8); Op*clean=clone_op(o,11); u64*info=(u64*)arena(8*200); // allocation counts, then sites
  
  int rc=incarnate([&]{ mem_reset(); op_exec(LIB,*clean); info[0]=g_ms.allocs; info[1]=g_ms.nsites; for(u32 i=0;i<g_ms.nsites;i++) { info[2+i]=g_ms.site_n[i]; info[100+i]=g_ms.site[i]; } }); if(rc!=EX_OK){ ev("clean call ended abnormally (%d)",rc); return; }
  ev("%s: clean result %d, %lu allocations at %lu sites",op_name(o->kind),clean->ret,(unsigned long)info[0],(unsigned long)info[1]); if(info[0]==0) return; count("probe.sites",info[1]);
  int n=heavy?(int)(info[1]<12?info[1]:12)+1:6+(int)draw(10,"nfail"); u64 base=drawseed("b"); std::vector<int> rar; for(u64 i=0;i<info[1];i++) rar.push_back((int)i); std::stable_sort(rar.begin(),rar.end(),[&](int x,int y){ return info[2+x]<info[2+y]; }); // rarest places first
  if(R->idx%5==4&&!heavy){ // memory runs out while several calls are in progress
    u64 pv=draw(4,"pairver"); Op*o2=any_op(a,pv==3?-1:pv==2?CHEAPK[draw(NCHEAP,"pk")]:kind,R->idx%8,8); Op*clean2=clone_op(o2,12); rc=incarnate([&]{ op_exec(LIB,*clean2); }); if(rc!=EX_OK) return;
    for(int f=0;f<3;f++){ Op*t[2]={clone_op(o,base+f),clone_op(o2,base+f+9)}; MemPlan p={-1,-1,-1,0,g_mem.garbage,0}; if(draw(2,"where")){ p.fail_addr=info[100+draw(info[1],"site")]; } else { p.fail_index=(i64)draw(info[0],"index"); p.burst=(i64)logdraw(1000000,"burst"); } u64 pol=(u64[]){4,4,0,1}[draw(4,"policy")],span=1ull<<(8+draw(16,"span")); R->lib_exit_called=0; R->sig=0;
      rc=incarnate([&]{ mem_reset(); g_mem=p; std::vector<std::function<void()>> fs; for(int i=0;i<2;i++){ Op*x=t[i]; fs.push_back([x]{ op_exec(LIB,*x); }); } SchedCfg cfg={(int)pol,span}; sched_run(fs,cfg); }); R->in_op=0;
      ev("two calls, allocations %ld to %ld fail -> %s",(long)p.fail_index,(long)(p.fail_index+p.burst),rc==EX_LIBEXIT?"process ended":rc==EX_OK?"returned":"died"); if(rc==EX_LIBEXIT){ if(R->lib_exit_code==0) violate("exit-zero","process ended with status 0 when memory ran out"); count("probe.orderly_exit"); continue; } if(rc==EX_SIG) violate("memory-fault","signal %d after a failed allocation with two calls in progress (%s, %s)",R->sig,op_name(o->kind),op_name(o2->kind)); if(rc!=EX_OK) violate("memory-fault","abnormal end (%d) after a failed allocation",rc);
      for(int i=0;i<2;i++){ Op*c=i?clean2:clean; if(t[i]->ret!=0) continue; if(c->ret!=0) violate("accepted-out-of-memory","%s accepted, because memory ran out, what it otherwise rejects",op_name(c->kind)); std::string why; if(!op_same_result(*t[i],*c,&why)) violate("wrong-result-out-of-memory","%s reported success with a wrong result when memory ran out while another call was in progress: %s",op_name(c->kind),why.c_str()); count("probe.completed"); } } }
  for(int f=0;f<n;f++){
    Op*t=clone_op(o,base+f); MemPlan p={-1,-1,-1,0,g_mem.garbage,0}; u64 how=draw(4,"how"); if(heavy&&f+1<n){ p.fail_site=rar[f]; p.fail_occ=0; } else if(how<2){ p.fail_site=(i64)((f+base)%info[1]); rawdraw(64,(u64)p.fail_site,"site"); p.fail_site=(i64)(R->tape[R->ntape-1]%info[1]); u64 occs=info[2+p.fail_site]; p.fail_occ=(i64)(draw(3,"first")==0?0:draw(occs,"occ")); } else { p.fail_index=(i64)draw(info[0],"index"); } if(draw(3,"burst")==2) p.burst=(i64)logdraw(1000000,"burst");
    R->lib_exit_called=0; R->sig=0; rc=incarnate([&]{ mem_reset(); g_mem=p; op_exec(LIB,*t); });
    R->in_op=0;
    if(rc==EX_LIBEXIT){ ev("allocation failure (site %ld occurrence %ld index %ld burst %ld) -> process ended with status %d",(long)p.fail_site,(long)p.fail_occ,(long)p.fail_index,(long)p.burst,R->lib_exit_code); if(R->lib_exit_code==0) violate("exit-zero","%s ended the process with status 0 when memory ran out",op_name(o->kind)); count("probe.orderly_exit"); continue; }
    if(rc==EX_SIG) violate("memory-fault","%s: signal %d after a failed allocation (site %ld occurrence %ld index %ld)",op_name(o->kind),R->sig,(long)p.fail_site,(long)p.fail_occ,(long)p.fail_index);
    if(rc!=EX_OK) violate("memory-fault","%s ended abnormally (%d) after a failed allocation",op_name(o->kind),rc);
    ev("allocation failure (site %ld occurrence %ld index %ld burst %ld) -> %d",(long)p.fail_site,(long)p.fail_occ,(long)p.fail_index,(long)p.burst,t->ret);
    if(t->ret==0){ if(clean->ret!=0) violate("accepted-out-of-memory","%s accepted, because memory ran out, what it otherwise rejects",op_name(o->kind)); std::string why; if(!op_same_result(*t,*clean,&why)) violate("wrong-result-out-of-memory","%s reported success with a wrong result when memory ran out: %s",op_name(o->kind),why.c_str()); count("probe.completed"); } else count("probe.reported"); } }

// ---------------------------------------------------------------- C06
int rb_call_cfg(int cfg,Ent&e,void*p,size_t n); void ent_init_pub(Ent&e,u64 salt); bool rb_exists(int cfg);
static const int ERRS6[]={ENOSYS,EIO,EFAULT,EINVAL,EPERM,EAGAIN};
void scen_C06(){
  world_init(); g_mem.garbage=1+drawseed("heap"); set_paint(drawseed("paint")); int fam=(int)(R->idx%8); R->scenario=fam;
  auto bal=[&](u64 live,const char*d){ if(g_ms.live!=live) violate("memory-not-released","%s left %ld block(s) of memory allocated",d,(long)(g_ms.live-live)); };
  if(fam==1||fam==4||fam==6){ // entropy sources of other platforms
    int cfg=fam==4?3:2; if(!rb_exists(cfg)) return; int n=1+(int)draw(4,"n"); for(int i=0;i<n;i++){ world_init(); swarm_noise(); Ent e; ent_init_pub(e,i+3); size_t len=1+draw(300,"len"); u8*b=agarb(len+16,3); mem_reset(); u64 live=g_ms.live; char d[120];
      if(cfg==2){ g_old.ioctl_mode=(int)draw(3,"ioctl"); g_old.level0=(int)(draw(2,"lvl")?draw(200,"l0"):300); g_old.ngrow=1; g_old.grow_at[0]=1+logdraw(100000,"t"); g_old.grow_to[0]=128+(int)draw(200,"l1"); g_old.wake=(int)(draw(2,"w")?64:128);
        switch(draw(10,"fault")){ case 1: g_old.read_mode=1; g_old.read_fail_after=(i64)draw(40,"rfa"); break; case 2: g_old.read_mode=2; g_old.read_fail_after=(i64)draw(40,"rfa"); break; case 3: g_old.urandom_open_err=ENOENT; break; case 4: g_old.random_open_err=EMFILE; g_old.level0=10; break; case 5: g_old.ioctl_mode=3; break; case 6: g_old.ioctl_mode=1; g_old.proc_mode=1+(int)draw(4,"pm"); break; case 7: g_old.poll_mode=1+(int)draw(2,"pm"); g_old.level0=10; break; case 8: g_old.ioctl_fail_after=1+(int)draw(3,"ifa"); g_old.level0=70; break; case 9: e.fail_from=(i64)draw(3,"fc"); e.fail_err=EIO; break; } }
      else switch(draw(6,"winfault")){ case 1: g_win.bcrypt_fail=1; break; case 2: g_win.bcrypt_fail=1; g_win.acquire_fail=1; break; case 3: g_win.bcrypt_fail=1; g_win.gen_fail_after=(i64)draw(3,"gfa"); break; case 4: g_win.bcrypt_fail=1; g_win.release_fail=1; break; case 5: g_win.bcrypt_fail_after=(int)draw(2,"bfa"); break; }
      int r=rb_call_cfg(cfg,e,b,len); snprintf(d,sizeof d,"random bytes (%s) with result %d, calls %.60s",cfg==2?"devices":"windows",r?1:0,cfg==2?g_old.trace:""); ev("%s",d); R->nontrivial=1; bal(live,d);
      if(cfg==2){ if(g_old.open_fds) violate("descriptor-not-released","%s: %d file descriptor(s) left open",d,g_old.open_fds); if(g_old.open_files) violate("stream-not-released","%s: %d stream(s) left open",d,g_old.open_files); if(g_old.bad_close) violate("closed-twice","%s: %d close(s) of a descriptor that is not its own",d,g_old.bad_close); }
      else { if(g_win.handles) violate("handle-not-released","%s: %d provider handle(s) left open",d,g_win.handles); if(g_win.bad_release) violate("released-twice","%s: use or release of a provider handle it does not hold",d); } count(r?"probe.failed_request":"probe.successful_request"); } return; }
  Any a(mix64(R->seed*1000+7)); static const int WM[]={1,1,2,3,1,5,1,6}; world_packets(a.w,WM[fam],false); int n=3+(int)draw(6,"nops"); 
  for(int i=0;i<n;i++){ world_init(); int kind= draw(2,"ver")?-1:CHEAPK[sdrawk(NCHEAP,"kind",i,9)]; if(R->idx%64==10&&i==0) kind=(int[]){K_SIGNF,K_SSIG,K_SSIGN,K_SIGNF}[draw(4,"heavy")]; Op*o=any_op(a,kind,i,9); char extra[64]="";
    if(o->kind==K_SEEDEXP&&draw(3,"badexp")==2){ o->l2=draw(2,"short")?o->l1:o->l2; if(draw(2,"ss")) o->l1=draw(32,"sl"); }
    if(op_needs_entropy(o->kind)){ swarm_noise(); if(draw(2,"outage")){ o->ent.fail_from=(i64)draw(3,"fc"); o->ent.fail_after_bytes=draw(2,"z")?logdraw(160,"fab"):0; o->ent.fail_err=ERRS6[draw(6,"errno")]; strcpy(extra," with entropy outage"); } }
    if(op_hybrid(o->kind)&&draw(6,"malformed")==5){ int w=(int)draw(4,"mf"); if(w==0) o->in2=nullptr; else if(w==1&&o->kind!=K_KEYGEN) o->in1=nullptr; else if(w==2&&is_open(o->kind)) o->l1=draw(o->l1+1,"cut"); else if((o->kind==K_SIGNC||o->kind==K_SIGNF||o->kind==K_WSIGN)&&w==3) o->l1=draw(2,"zl")?0:65; if((o->kind==K_KEYGEN||o->kind==K_KEYSEED||o->kind==K_WKEY||o->kind==K_WKEYSEED)&&w==0){ o->o1.p=nullptr; o->o1.n=0; } strcpy(extra," malformed"); }
    mem_reset(); u64 live=g_ms.live; Buf sv=o->o1; if(!o->o1.p) o->o1.n=0; op_exec(LIB,*o); (void)sv; char d[120]; snprintf(d,sizeof d,"%s%s with result %d",op_name(o->kind),extra,o->ret?1:0); ev("%s",d); R->nontrivial=1; bal(live,d); if(g_old.open_fds||g_old.open_files) violate("descriptor-not-released","%s left a file open",d); count(o->ret?"probe.failed_call":"probe.successful_call"); } }

// ---------------------------------------------------------------- C08
struct Parcel { int mode; u8*p; u64 n; u8*m; u64 ml; const u8*pk; int delivered; };
static void make_parcel(Parcel&q,int mode,const u8*pk,const u8*sk,const Gen&g,u64 i,i64 rare=-1){ q.mode=mode; q.delivered=0; q.pk=pk; q.m=(u8*)arena(1024); u64 l;
  if(mode==1||mode==2||mode==8){ drawmsg(q.m,&l,g,"msg"); u64 st=draw(3,"strat"); if(st==1) l=1+sdrawk(64,"ml",i,8); else if(st==2) l=(u64[]){64,1,63,2,32,33,31,16,62,48}[sdrawk(10,"mlb",i,8)]; q.ml=l; } else { l=draw(2,"hm")?1+draw(64,"ml"):logdraw(900,"mll"); Rng(drawseed("m")+1).fill(q.m,l); shape(q.m,l,"shape"); q.ml=l; }
  if(rare>=0){ rare_message(q.m,mode,(u64)rare); q.ml=32; }
  int kind= mode==1?K_SIGNC:mode==2?K_SIGNF:mode==8?K_WSIGN:mode==3?K_DSIG:mode==4?K_SSIG:mode==5?K_ESIGN:mode==6?K_DSIGN:K_SSIGN; if(mode==8&&!op_exists(LIB,kind)){ kind=K_SIGNC; q.mode=1; }
  Op o; op_init(o,kind); if(rare>=0){ o.ent.kind=9; o.ent.stream=(u64)rare; } else if(draw(6,"ek")==5) o.ent.kind=1+(int)draw(8,"ekind"); if(mode==2||mode==4||mode==7){ Key*tk=(Key*)arena(sizeof(Key)); memcpy(tk->pk,pk,PKB); memcpy(tk->sk,sk,SKB); rare_sphincs(q.m,q.ml,tk,o.ent); } o.in1=q.m; o.l1=q.ml; o.in2=sk+(mode==3||mode==6?SK_D:mode==4||mode==7?SK_S:0); op_outputs(o,drawseed("garb")); u64 hm=hashbytes(q.m,q.ml);
  if(mode==6&&draw(3,"alias")==2){ memcpy(o.o1.p,q.m,q.ml); o.in1=o.o1.p; count("probe.in_place_signing"); }
  op_exec(LIB,o); if(o.ret) violate("sign-failed","%s of a %lu byte message failed with code %d",op_name(kind),(unsigned long)q.ml,o.ret); if(hashbytes(q.m,q.ml)!=hm) violate("input-modified","%s changed the message",op_name(kind));
  u64 want= mode==1||mode==8?CSIG0+q.ml:mode==2?FSIG0+q.ml:mode==3?DSIG:mode==4?SSIG:mode==5?ESIG+q.ml:mode==6?DSIG+q.ml:SSIG+q.ml; if(o.outlen!=want) violate("packet-length","%s of a %lu byte message gives %llu bytes, documented are %lu",op_name(kind),(unsigned long)q.ml,o.outlen,(unsigned long)want);
  if(mode==1||mode==8||mode==2){ if(o.o1.p[0]!=(mode==2?2:1)||o.o1.p[1]!=q.ml) violate("packet-layout","packet header %02x %02x for a %lu byte message",o.o1.p[0],o.o1.p[1],(unsigned long)q.ml); }
  q.p=o.o1.p; q.n=o.outlen; ev("%s: %lu byte message -> %lu bytes",op_name(kind),(unsigned long)q.ml,(unsigned long)q.n); }
static void deliver_parcel(const Parcel&q,u64 v,const char*ctx){ int kind=0; switch(q.mode){ case 1:case 8: kind=v%3==0?K_OPENC:v%3==1?K_VERC:K_WVER; break; case 2: kind=v%2?K_VERF:K_OPENF; break; case 3: kind=v%2&&q.ml>=1&&q.ml<=64?K_VERD:K_DVER; break; case 4: kind=K_SVER; break; case 5: kind=K_EOPEN; break; case 6: kind=K_DOPEN; break; case 7: kind=K_SOPEN; break; } if(!op_exists(LIB,kind)) kind=K_OPENC;
  size_t po=q.mode==3||q.mode==6?PK_D:q.mode==4||q.mode==7?PK_S:0; Op o; op_init(o,kind); o.in1=inbuf(q.p,q.n).p; o.l1=q.n; o.in2=q.pk+po; o.in3=q.m; o.l3=q.ml; op_outputs(o,q.n+v); if(kind==K_OPENC||kind==K_OPENF) o.o1=newbuf(q.ml,q.n+v+1); if(q.mode==6&&v%4==3){ memcpy(o.o1.p,q.p,q.n); o.in1=o.o1.p; count("probe.in_place_opening"); } op_exec(LIB,o);
  if(o.ret) violate("rejected-genuine","%s: %s rejected an undamaged packet for a %lu byte message, code %d",ctx,op_name(kind),(unsigned long)q.ml,o.ret);
  if(is_open(kind)){ if(o.outlen!=q.ml) violate("wrong-message","%s: %s returned length %llu instead of %lu",ctx,op_name(kind),o.outlen,(unsigned long)q.ml); if(memcmp(o.o1.p,q.m,q.ml)) violate("wrong-message","%s: %s returned another message",ctx,op_name(kind)); } count("probe.delivered"); }
// a damaged copy of the parcel, or the parcel to the wrong address: the verdict is not C08's business, what follows is
static void deliver_damaged(const Parcel&q,u64 v){ Parcel t=q; u64 how=draw(6,"dmg"); Rng r(mix64(drawseed("dmgat")+v)); int kind=0; switch(q.mode){ case 1:case 8: kind=v%3==0?K_OPENC:v%3==1?K_VERC:K_WVER; break; case 2: kind=v%2?K_VERF:K_OPENF; break; case 3: kind=v%2&&q.ml>=1&&q.ml<=64?K_VERD:K_DVER; break; case 4: kind=K_SVER; break; case 5: kind=K_EOPEN; break; case 6: kind=K_DOPEN; break; case 7: kind=K_SOPEN; break; } if(!op_exists(LIB,kind)) kind=K_OPENC;
  u8*b=(u8*)arena(q.n); memcpy(b,q.p,q.n); u8*m=(u8*)arena(1024); memcpy(m,q.m,1024); u8*pk=(u8*)arena(PKB); memcpy(pk,q.pk,PKB); u64 n=q.n; size_t po=q.mode==3||q.mode==6?PK_D:q.mode==4||q.mode==7?PK_S:0, pn=q.mode==3||q.mode==6?DPK:q.mode==4||q.mode==7?SPK:q.mode==5?EPK:PKB;
  switch(how){ case 0: b[r.below(n)]^=(u8)(1<<r.below(8)); break; case 1: b[n-1-r.below(n<200?n:200)]^=(u8)(1<<r.below(8)); break; case 2: if(q.mode==1||q.mode==8||q.mode==2){ u64 a=2+64+(q.mode==2?q.ml:0); b[a+32+r.below(DSIG-32)]^=(u8)(1<<r.below(8)); } else b[r.below(n)]^=(u8)(1<<r.below(8)); break;
    case 3: pk[po+r.below(pn)]^=(u8)(1<<r.below(8)); break; case 4: m[r.below(q.ml?q.ml:1)]^=(u8)(1<<r.below(8)); break; case 5: if(q.mode==1||q.mode==2||q.mode==8) n-=1+r.below(40); else b[r.below(n)]^=(u8)(1<<r.below(8)); break; }
  Op o; op_init(o,kind); o.in1=inbuf(b,n).p; o.l1=n; o.in2=pk+po; o.in3=m; o.l3=q.ml; op_outputs(o,n+v); op_exec(LIB,o); fault("damaged_delivery"); ev("damaged copy (%lu): code %d",(unsigned long)how,o.ret); }
void scen_C08(){
  world_init(); swarm_noise(); g_mem.garbage=1+drawseed("heap"); set_paint(drawseed("paint")); static const int MD[]={1,1,3,1,8,1,5,1,2,1,3,1,6,1,1,1}; int mode=MD[R->idx%16]; if(R->idx%64==9) mode=(int[]){4,7,2,7}[draw(4,"hb")]; R->scenario=mode; Gen g(mix64(R->seed*77+drawseed("gen")));
  u8*pk=(u8*)arena(PKB),*sk=(u8*)arena(SKB); u64 ks=draw(4,"keysource"); 
  if(ks==0){ const Key*k=anykey(); memcpy(pk,k->pk,PKB); memcpy(sk,k->sk,SKB); }
  else { Op o; op_init(o,ks==1?K_KEYGEN:K_KEYSEED); u8*s=(u8*)arena(SEEDB); if(ks==2) Rng(drawseed("sd")+1).fill(s,SEEDB); else g.seed160(s,(int)draw(3,"e"),(int)draw(3,"d"),(int)draw(3,"s")); if(ks>1){ shape(s,32,"shape"); shape(s+32,32,"shape"); shape(s+64,96,"shape"); } o.in1=s; if(ks==1&&draw(3,"ek")==2) o.ent.kind=1+(int)draw(8,"ekind"); op_outputs(o,5); op_exec(LIB,o); if(o.ret) violate("keygen-failed","%s failed with code %d",op_name(o.kind),o.ret); memcpy(pk,o.o1.p,PKB); memcpy(sk,o.o2.p,SKB); }
  bool deep=R->idx%16==15; int rk=0; if(deep){ rk=draw(4,"rkey")==3; mode=(int[]){1,3,1,6,8,1,3,2}[draw(8,"rmode")]; const Key*k=rare_key(rk); memcpy(pk,k->pk,PKB); memcpy(sk,k->sk,SKB); R->scenario=9; count("probe.rare_signing_path"); }
  bool heavy=mode==2||mode==4||mode==7; int n=heavy?1:2+(int)draw(6,"nmsg"); Parcel*q=(Parcel*)arena(sizeof(Parcel)*8); for(int i=0;i<n;i++) make_parcel(q[i],mode,pk,sk,g,i,deep?(i64)rare_pick(mode,rk):-1);
  // channel: duplication, reordering, crashes of the receiver; then every packet once more on a healthy receiver
  std::vector<int> line; for(int i=0;i<n;i++){ int c=1+(int)draw(3,"copies"); if(c>1) fault("duplicate_delivery"); for(int j=0;j<c;j++) line.push_back(i); int dm=(int)draw(3,"damaged"); for(int j=0;j<dm;j++) line.push_back(i+64); } for(size_t i=line.size();i>1;i--){ size_t j=draw(i,"reorder"); if(j!=i-1){ std::swap(line[i-1],line[j]); } } fault("reorder");
  size_t pos=0; int lives=1+(int)draw(3,"lives"); for(int lf=0;lf<lives&&pos<line.size();lf++){ u64*done=(u64*)arena(8); *done=pos; u64 at=draw(2,"crash")?1+logdraw(heavy?2000000:600000,"at"):0; u64 ga=drawseed("heap2"),pa=drawseed("paint2"); int rc=incarnate([&]{ set_crash_at(at); g_mem.garbage=1+ga; set_paint(pa); for(size_t i=pos;i<line.size();i++){ if(line[i]>=64) deliver_damaged(q[line[i]-64],i+lf); else deliver_parcel(q[line[i]],i+lf,"receiver"); *done=i+1; } }); if(rc!=EX_OK&&rc!=EX_CRASHED) _exit(rc); ev("receiver life %d: %s after %lu deliveries",lf,rc==EX_CRASHED?"crashed":"done",(unsigned long)(*done-pos)); pos=*done; R->in_op=0; if(rc==EX_OK) break; }
  for(int i=0;i<n;i++){ if(draw(3,"dmgfirst")==2) deliver_damaged(q[i],draw(6,"v")); deliver_parcel(q[i],draw(3,"v"),"after all faults"); } }

// ---------------------------------------------------------------- C09
// a seed that has most bytes in common with s: one bit, one field, a prefix or a suffix differs
static void relate(u8*d,const u8*s,size_t n){ memcpy(d,s,n); Rng r(drawseed("rel")+5); static const int F[][2]={{0,32},{32,32},{64,32},{96,32},{128,32},{64,64},{96,64},{64,96},{0,64},{0,96}}; u64 w=draw(5,"relhow"); u64 f=draw(10,"relf"); size_t a=F[f][0],l=F[f][1]; if(a>=n){ a=0; } if(a+l>n) l=n-a;
  switch(w){ case 0: r.fill(d+a,l); break; case 1: d[a+draw(l,"relb")]^=(u8)(1<<draw(8,"relbit")); break; case 2: { u8 t[SEEDB]; r.fill(t,n); memcpy(t+a,s+a,l); memcpy(d,t,n); break; } case 3: { size_t k=draw(n,"relk"); r.fill(d+k,n-k); break; } case 4: { size_t k=1+draw(n-1,"relk"); r.fill(d,k); break; } } count("probe.related_seeds"); }
void scen_C09(){
  world_init(); set_paint(0); g_mem.garbage=0; int fam=(int)(R->idx%6); R->scenario=fam; Any a(mix64(R->seed*1000+7)); world_packets(a.w,1,false); Gen g(mix64(drawseed("gen"))); 
  u8*seed=(u8*)arena(SEEDB),*rs=(u8*)arena(RSEEDB); if(draw(3,"rnd")) Rng(drawseed("sd")+1).fill(seed,SEEDB); else g.seed160(seed,(int)draw(3,"e"),(int)draw(3,"d"),(int)draw(3,"s")); shape(seed,SEEDB,"shape"); shape(seed+32,32,"shape"); shape(seed+64,96,"shape"); Rng(drawseed("rs")+1).fill(rs,RSEEDB); shape(rs,RSEEDB,"shape"); int pat=(int)draw(6,"pat"); if(pat==4) memset(rs,0,RSEEDB); if(pat==5) memset(rs,0xff,RSEEDB); bool rec=draw(3,"recovery")==2;
  // what the first node derived, on a pristine machine
  struct Base { u8 exp[SEEDB],pk[PKB],sk[SKB]; int cr[3]; u8 cpk[3][DPK],csk[3][DSK]; }*b=(Base*)arena(sizeof(Base)); 
  auto derive=[&](u8*exp,u8*pk,u8*sk,int way,u64 garb,const char*ctx,bool base){ bool wasm=way==2; const Api&L= way==1&&op_exists(ALT,K_KEYSEED)?ALT:LIB; if(&L==&ALT) count("probe.second_build"); u8*s=(u8*)arena(SEEDB); if(rec){ Op e; op_init(e,wasm&&op_exists(LIB,K_WEXPAND)?K_WEXPAND:K_EXPAND); e.in1=inbuf(rs,RSEEDB).p; op_outputs(e,garb); op_exec(L,e); if(e.ret) violate("derive-failed","%s: expanding the recovery seed failed",ctx); if(hashbytes(e.in1,RSEEDB)!=hashbytes(rs,RSEEDB)) violate("input-modified","recovery seed modified"); memcpy(s,e.o1.p,SEEDB); if(!base&&memcmp(s,b->exp,SEEDB)) violate("different-seed","%s: the recovery seed expands to another seed",ctx); memcpy(exp,s,SEEDB); } else memcpy(s,seed,SEEDB);
    Op o; op_init(o,wasm&&op_exists(LIB,K_WKEYSEED)?K_WKEYSEED:K_KEYSEED); o.in1=inbuf(s,SEEDB).p; op_outputs(o,garb+1); op_exec(L,o); if(o.ret) violate("derive-failed","%s: seeded derivation failed with code %d",ctx,o.ret); if(memcmp(o.in1,s,SEEDB)) violate("input-modified","%s: derivation modified the seed",ctx); memcpy(pk,o.o1.p,PKB); memcpy(sk,o.o2.p,SKB); if(!base){ if(memcmp(pk,b->pk,PKB)) violate("different-key","%s: another public key from the same seed",ctx); if(memcmp(sk,b->sk,SKB)) violate("different-key","%s: another secret key from the same seed",ctx); } };
  // the component schemes' own seeded derivations
  auto comp=[&](const Api&L,int c,const u8*s,u8*pk,u8*sk,u64 garb)->int{ static const int KS[]={K_EKEYSEED,K_DKEYSEED,K_SKEYSEED}; static const int OF[]={0,32,64},LN[]={32,32,96}; if(!op_exists(L,KS[c])) return -99; Op o; op_init(o,KS[c]); o.in1=inbuf(s+OF[c],LN[c]).p; op_outputs(o,garb); op_exec(L,o); if(memcmp(o.in1,s+OF[c],LN[c])) violate("input-modified","%s modified the seed",op_name(KS[c])); memcpy(pk,o.o1.p,o.o1.n); memcpy(sk,o.o2.p,o.o2.n); return o.ret; };
  int rc=incarnate([&]{ derive(b->exp,b->pk,b->sk,0,3,"first node",true); const u8*s=rec?b->exp:seed; for(int c=0;c<3;c++) b->cr[c]=comp(LIB,c,s,b->cpk[c],b->csk[c],3); }); if(rc!=EX_OK) _exit(rc);
  auto sign_check=[&](const u8*sk,const char*ctx){ u8*m=(u8*)arena(64); u64 l; drawmsg(m,&l,g,"msg"); Op o; op_init(o,K_SIGNC); o.in1=m;o.l1=l;o.in2=sk; op_outputs(o,7); op_exec(LIB,o); if(o.ret) violate("sign-failed","%s: restarted signer cannot sign",ctx); Op v; op_init(v,draw(2,"ov")?K_OPENC:K_VERC); v.in1=o.o1.p;v.l1=o.outlen;v.in2=b->pk;v.in3=m;v.l3=l; op_outputs(v,9); op_exec(LIB,v); if(v.ret) violate("rejected-after-restart","%s: packet of the restarted signer is not accepted under the earlier public key",ctx); count("probe.signed_after_restart"); };
  int lives=1+(int)draw(3,"lives");
  for(int lf=0;lf<lives;lf++){
    u64 ga=1+drawseed("heap"),pa=draw(3,"np")?1+drawseed("paint"):0; bool crash=draw(3,"crash")==2; u64 at=crash?1+logdraw(4000000,"at"):0; int hist=(int)draw(4,"hist"); int way=(int)draw(3,"way");
    rc=incarnate([&]{ g_mem.garbage=ga; set_paint(pa); u8*e=(u8*)arena(SEEDB),*pk=(u8*)arena(PKB),*sk=(u8*)arena(SKB);
      if(crash&&draw(2,"early")==0) set_crash_at(at); 
      if(fam==3&&!crash){ // derivation concurrent with other calls
        std::vector<Op*> oth; for(int i=0;i<1+(int)draw(3,"others");i++) oth.push_back(any_op(a,draw(3,"ver")==2?-1:CHEAPK[draw(NCHEAP,"kind")],i,4)); Op*o=(Op*)arena(sizeof(Op)); op_init(*o,K_KEYSEED); u8*s=(u8*)arena(SEEDB); memcpy(s,rec?b->exp:seed,SEEDB); o->in1=s; op_outputs(*o,5); std::vector<std::function<void()>> fs; fs.push_back([o]{ op_exec(LIB,*o); }); for(auto*x:oth) fs.push_back([x]{ op_exec(LIB,*x); }); SchedCfg cfg={(int)draw(2,"policy"),2000000}; sched_run(fs,cfg); if(o->ret||memcmp(o->o1.p,b->pk,PKB)||memcmp(o->o2.p,b->sk,SKB)) violate("different-key","another key pair from the same seed when derived while other calls are in progress"); }
      for(int i=0;i<hist;i++){ if(draw(3,"related")){ const u8*cs=rec?b->exp:seed; u64 rk=draw(rec?5:4,"rk"); int kd= rk==4?K_EXPAND:rk==3?(int[]){K_EKEYSEED,K_DKEYSEED,K_SKEYSEED}[draw(3,"rc")]:rk==2?K_WKEYSEED:K_KEYSEED; if(!op_exists(LIB,kd)) kd=K_KEYSEED; Op q; op_init(q,kd); u8*s=(u8*)arena(SEEDB); if(kd==K_EXPAND) relate(s,rs,RSEEDB); else { relate(s,cs,SEEDB); s+= kd==K_DKEYSEED?32:kd==K_SKEYSEED?64:0; } q.in1=s; op_outputs(q,i+3); op_exec(LIB,q); if(draw(3,"relsign")==2&&kd!=K_EXPAND&&kd!=K_EKEYSEED&&kd!=K_DKEYSEED&&kd!=K_SKEYSEED&&q.ret==0){ u8*mm=(u8*)arena(64); u64 ml; drawmsg(mm,&ml,g,"msg"); Op x; op_init(x,K_SIGNC); x.in1=mm;x.l1=ml;x.in2=q.o2.p; op_outputs(x,3); op_exec(LIB,x); } continue; } Op*o=any_op(a,draw(3,"ver")==2?-1:CHEAPK[draw(NCHEAP,"kind")],i,4); if(op_needs_entropy(o->kind)&&draw(2,"outage")){ o->ent.fail_from=0; o->ent.fail_after_bytes=draw(40,"fab"); o->ent.fail_err=EIO; } op_exec(LIB,*o); }
      if(crash) set_crash_at(at);
      derive(e,pk,sk,way,ga&0xff,"after restart",false); count("probe.rederived");
      if(draw(2,"comp")){ int c=(int)draw(3,"c"); u8*cp=(u8*)arena(DPK),*cs=(u8*)arena(DSK); const Api&L=way==1&&op_exists(ALT,K_DKEYSEED)?ALT:LIB; int r=comp(L,c,rec?b->exp:seed,cp,cs,ga&0x7f); static const size_t PN[]={EPK,DPK,SPK},SN[]={ESK,DSK,SSK}; if(r!=b->cr[c]||r==0&&(memcmp(cp,b->cpk[c],PN[c])||memcmp(cs,b->csk[c],SN[c]))) violate("different-key","component %d: another key pair from the same seed after a restart",c); count("probe.component_rederived"); } if(draw(2,"again")) derive(e,pk,sk,0,9,"second time",false); set_crash_at(0);
      if(fam!=5||lf==0) sign_check(draw(2,"fromstored")?b->sk:sk,"after restart"); });
    R->in_op=0; if(rc!=EX_OK&&rc!=EX_CRASHED) _exit(rc); ev("life %d: %d earlier calls, %s",lf,hist,rc==EX_CRASHED?"crashed":"recovered the key"); R->nontrivial=1; }
  // after all crashes: one healthy node must succeed
  u64 ga=1+drawseed("heap"); rc=incarnate([&]{ g_mem.garbage=ga; set_paint(ga); u8*e=(u8*)arena(SEEDB),*pk=(u8*)arena(PKB),*sk=(u8*)arena(SKB); derive(e,pk,sk,(int)draw(2,"lastway"),4,"after the last crash",false); sign_check(sk,"after the last crash"); }); if(rc!=EX_OK) _exit(rc); }
