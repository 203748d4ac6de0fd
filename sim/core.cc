// Core of the simulator: choice tape, event log, simulated processes, search driver, minimiser, replay, evidence.
#include "sim.h"
extern std::vector<u64> g_dict; void js_start();
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <pthread.h>
#include <time.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <algorithm>
#include <map>
#include <set>
Run* R=nullptr;
static double now_s(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

// ---------------------------------------------------------------- tape
u64 rawdraw(u64 n,u64 v,const char*label){
  if(n==0) n=1;
  u64 out;
  if(R->replaying){ out = R->ntape<R->tape_in_n ? R->tape_in[R->ntape]%n : 0; }
  else out = v%n;
  if(R->ntape>=TAPE_MAX) simerror("choice tape exhausted");
  R->tape[R->ntape++]=out;
  R->hash=mix64(R->hash^out)+n;
  if(R->verbose>1) fprintf(stderr,"  draw %s %lu/%lu\n",label,(unsigned long)out,(unsigned long)n);
  return out;
}
static u64 prng(){ R->rng+=0x9E3779B97F4A7C15ull; return mix64(R->rng); }
u64 draw(u64 n,const char*label){ return rawdraw(n,prng(),label); }
u64 sdraw(u64 n,const char*label){ // stratified: golden-ratio walk over run numbers, decorrelated per label
  u64 h=hashbytes(label,strlen(label))^mix64(R->seed);
  unsigned __int128 x=(unsigned __int128)(h + R->idx*0x9E3779B97F4A7C15ull)*n;
  (void)prng(); return rawdraw(n,(u64)(x>>64),label); }
u64 sdrawk(u64 n,const char*label,u64 k,u64 K){ u64 h=hashbytes(label,strlen(label))^mix64(R->seed); unsigned __int128 x=(unsigned __int128)(h+(R->idx*K+k)*0x9E3779B97F4A7C15ull)*n; (void)prng(); return rawdraw(n,(u64)(x>>64),label); }
bool chance(u32 num,u32 den,const char*label){ u64 p=prng(); u64 v = (p%den)<num ? 1+((p>>32)%1) : 0; return rawdraw(2,v,label)!=0; }
u64 logdraw(u64 maxv,const char*label){ if(maxv==0) return 0; u64 p=prng(); int bits=64-__builtin_clzll(maxv); int b=(int)(p%(bits+1)); u64 v = b==0?0:((1ull<<(b-1)) | (mix64(p) & ((1ull<<(b-1))-1))); if(v>maxv) v=maxv; return rawdraw(maxv==~0ull?~0ull:maxv+1,v,label); }
u64 drawseed(const char*label){ return rawdraw(1ull<<32,prng(),label); }

u64 hashbytes(const void*p,size_t n){ const u8*b=(const u8*)p; u64 h=0xcbf29ce484222325ull^n; while(n>=8){u64 v;memcpy(&v,b,8);h=(h^v)*0x9E3779B97F4A7C15ull;h^=h>>29;b+=8;n-=8;} while(n--){h=(h^*b++)*0x100000001b3ull;} return mix64(h); }
std::string hex(const void*p,size_t n,size_t max){ std::string s; const u8*b=(const u8*)p; char t[4]; for(size_t i=0;i<n&&i<max;i++){snprintf(t,4,"%02x",b[i]);s+=t;} if(n>max)s+=".."; return s; }

// ---------------------------------------------------------------- events
void evh(u64 a,u64 b){ R->hash=mix64(R->hash^a*0x2545F4914F6CDD1Dull)^mix64(b); }
void ev(const char*fmt,...){ char buf[512]; va_list ap; va_start(ap,fmt); int n=vsnprintf(buf,sizeof buf,fmt,ap); va_end(ap); if(n>(int)sizeof buf-1)n=sizeof buf-1;
  R->hash=mix64(R->hash^hashbytes(buf,n));
  if(R->evn+n+2<EVBUF_MAX){ memcpy(R->evbuf+R->evn,buf,n); R->evn+=n; R->evbuf[R->evn++]='\n'; R->evbuf[R->evn]=0; }
  if(R->verbose) fprintf(stderr,"  %s\n",buf); }
void violate(const char*cls,const char*fmt,...){ va_list ap; va_start(ap,fmt); if(R->status<2){ vsnprintf(R->vmsg,sizeof R->vmsg,fmt,ap); snprintf(R->vclass,sizeof R->vclass,"%s",cls); R->status=2; ev("VIOLATION %s",cls);} va_end(ap); _exit(EX_VIOL); }
void simerror(const char*fmt,...){ va_list ap; va_start(ap,fmt); if(R->status<2){ vsnprintf(R->vmsg,sizeof R->vmsg,fmt,ap); R->status=3; } va_end(ap); _exit(EX_ERR); }
void count(const char*name,u64 d){ for(u32 i=0;i<R->ncounters;i++) if(!strcmp(R->counters[i].name,name)){R->counters[i].v+=d;return;} if(R->ncounters<NCOUNTERS){ Counter&c=R->counters[R->ncounters++]; snprintf(c.name,sizeof c.name,"%s",name); c.v=d; } }
void fault(const char*name){ char b[64]; snprintf(b,sizeof b,"fault.%s",name); count(b); R->faults++; evh(hashbytes(name,strlen(name)),77); }
void* arena(size_t n,size_t al){ u64 o=(R->arena_used+al-1)/al*al; if(o+n>ARENA_SZ) simerror("arena exhausted"); R->arena_used=o+n; memset(R->arena+o,0,n); return R->arena+o; }
u8* agarb(size_t n,u64 seed){ u8*p=(u8*)arena(n); Rng r(seed); r.fill(p,n); return p; }

static std::vector<std::pair<std::string,std::string>> g_known; // key, text
void known(const char*cls){ for(auto&k:g_known) if(k.first==cls){ for(int i=0;i<R->nfinding;i++) if(!strcmp(R->finding[i],cls)) return; if(R->nfinding<8) snprintf(R->finding[R->nfinding++],96,"%s",cls); return; } violate(cls,"finding not listed as known: %s",cls); }

// ---------------------------------------------------------------- simulated processes
static void on_signal(int s){ if(R&&R->in_op){ R->sig=s; _exit(EX_SIG);} char b[64]; int n=snprintf(b,sizeof b,"harness: signal %d outside a library call\n",s); (void)!write(2,b,n); _exit(EX_ERR); }
static void install_handlers(){ static u8* alt=nullptr; if(!alt) alt=(u8*)mmap(0,1<<16,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=alt; ss.ss_size=1<<16; sigaltstack(&ss,0);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=on_signal; sa.sa_flags=SA_ONSTACK; int sg[]={SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGTRAP}; for(int s:sg) sigaction(s,&sa,0); }
int g_wall_limit=240;
int incarnate(const std::function<void()>&fn){
  fflush(0); pid_t p=fork(); if(p<0) simerror("fork: %d",errno);
  if(p==0){ alarm(g_wall_limit); fn(); _exit(EX_OK); }
  int st; while(waitpid(p,&st,0)<0) if(errno!=EINTR) simerror("waitpid");
  if(R->status>=2) _exit(R->status==2?EX_VIOL:EX_ERR);
  if(WIFSIGNALED(st)){ if(WTERMSIG(st)==SIGALRM) simerror("wall clock limit in a simulated process"); R->sig=WTERMSIG(st); return EX_SIG; }
  return WEXITSTATUS(st);
}
extern "C" void __sim_reset_process(); // os.cc: per-process shim state

struct Outcome { int status; std::string vclass,vmsg; u64 hash; };
static void reset_run(const char*prop,u64 idx,u64 seed,const std::vector<u64>*tape,int verbose,int thorough){
  u64 used=R->arena_used; (void)used;
  snprintf(R->prop,sizeof R->prop,"%s",prop); R->idx=idx; R->seed=seed; R->verbose=verbose; R->thorough=thorough;
  R->ntape=0; R->rng=mix64(mix64(seed)^mix64(idx*2+1)^hashbytes(prop,strlen(prop)));
  R->replaying=tape!=nullptr; R->tape_in_n=0; if(tape){ R->tape_in_n=(u32)std::min<size_t>(tape->size(),TAPE_MAX); memcpy(R->tape_in,tape->data(),8ull*R->tape_in_n);} 
  R->status=0; R->vclass[0]=R->vmsg[0]=0; R->nfinding=0; R->hash=mix64(hashbytes(prop,strlen(prop))); R->sched_hash=0; R->nontrivial=0;
  R->steps=R->simtime_us=R->ops=R->switches=R->faults=0; R->scenario=0; R->in_op=0; R->op_kind=0; R->lib_exit_called=0; R->lib_exit_code=0; R->sig=0; R->crash_step=0; R->asan[0]=0;
  R->ncounters=0; R->evn=0; R->evbuf[0]=0; R->arena_used=0;
}
static const PropDef* find_prop(const char*id){ for(int i=0;i<NPROPS;i++) if(!strcmp(PROPS[i].id,id)) return &PROPS[i]; return nullptr; }
const char* op_name(int kind);
static void run_one(const char*prop,u64 idx,u64 seed,const std::vector<u64>*tape,int verbose=0,int thorough=0){
  reset_run(prop,idx,seed,tape,verbose,thorough); fflush(0);
  pid_t p=fork(); if(p<0){R->status=3;snprintf(R->vmsg,sizeof R->vmsg,"fork");return;}
  if(p==0){ alarm(g_wall_limit); // the run has a stack of its own at a fixed address: what uninitialised variables hold then does not depend on how the simulator was started
    pthread_attr_t at; pthread_attr_init(&at); void*sk=mmap((void*)0x7e0000000000ull,64<<20,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); pthread_attr_setstack(&at,sk,64<<20); static const char*pr; pr=prop; pthread_t th;
    if(sk==MAP_FAILED||pthread_create(&th,&at,[](void*)->void*{ install_handlers(); find_prop(pr)->scenario(); R->status=R->status?R->status:1; _exit(EX_OK); },nullptr)) simerror("cannot start the run"); pthread_join(th,0); _exit(EX_ERR); }
  int st; while(waitpid(p,&st,0)<0&&errno==EINTR); 
  if(R->status==0){ // died without verdict
    auto vio=[&](const char*c,const char*m){ R->status=2; snprintf(R->vclass,sizeof R->vclass,"%s",c); snprintf(R->vmsg,sizeof R->vmsg,"%s in %s (signal %d, exit code %d) %s",m,op_name(R->op_kind),R->sig,R->lib_exit_code,R->asan); };
    if(WIFEXITED(st)&&WEXITSTATUS(st)==EX_LIBEXIT) vio("unexpected-exit","library ended the process");
    else if(WIFEXITED(st)&&WEXITSTATUS(st)==EX_SIG) vio("memory-fault","fatal signal");
    else if(WIFEXITED(st)&&WEXITSTATUS(st)==EX_ASAN) vio("memory-error","memory error");
    else if(WIFSIGNALED(st)&&R->in_op&&WTERMSIG(st)!=SIGALRM&&WTERMSIG(st)!=SIGKILL){ R->sig=WTERMSIG(st); vio("memory-fault","fatal signal"); }
    else { R->status=3; snprintf(R->vmsg,sizeof R->vmsg,"run process ended unexpectedly (wait status %x, op %s)",st,op_name(R->op_kind)); }
  }
}
// ---------------------------------------------------------------- replay files
static std::string self_path(){ char b[4096]; ssize_t n=readlink("/proc/self/exe",b,sizeof b-1); if(n<0)return""; b[n]=0; return b; }
static void write_replay(const char*path,const char*prop,u64 idx,u64 seed,int thorough,const std::vector<u64>&tape,const char*cls,const char*msg,u64 hash,const char*evlog){
  FILE*f=fopen(path,"w"); if(!f){perror(path);exit(2);} fprintf(f,"hybridsim-replay 1\nproperty %s\nvariant %s\nidx %lu\nseed %lu\nthorough %d\nclass %s\nhash %016lx\nmessage %s\nntape %zu\n",prop,find_prop(prop)->variant,(unsigned long)idx,(unsigned long)seed,thorough,cls,(unsigned long)hash,msg,tape.size());
  for(size_t i=0;i<tape.size();i++) fprintf(f,"%lu%c",(unsigned long)tape[i],(i%24==23)?'\n':' '); fprintf(f,"\nend\n# trace of the minimised run\n"); 
  for(const char*s=evlog;*s;){ const char*e=strchr(s,'\n'); int n=e?(int)(e-s):(int)strlen(s); fprintf(f,"# %.*s\n",n,s); s+=n+(e?1:0);} fclose(f); }
static bool read_replay(const char*path,std::string&prop,u64&idx,u64&seed,int&thorough,std::vector<u64>&tape,std::string&cls,u64&hash){
  FILE*f=fopen(path,"r"); if(!f) return false; char line[2048]; size_t nt=0; bool ok=false;
  while(fgets(line,sizeof line,f)){ char v[1200]; unsigned long x;
    if(sscanf(line,"property %1199s",v)==1) prop=v; else if(sscanf(line,"idx %lu",&x)==1) idx=x; else if(sscanf(line,"seed %lu",&x)==1) seed=x; else if(sscanf(line,"thorough %lu",&x)==1) thorough=(int)x; else if(sscanf(line,"class %1199s",v)==1) cls=v; else if(sscanf(line,"hash %lx",&x)==1) hash=x; else if(sscanf(line,"ntape %lu",&x)==1){ nt=x; for(size_t i=0;i<nt;i++){ unsigned long t; if(fscanf(f,"%lu",&t)!=1){fclose(f);return false;} tape.push_back(t);} ok=true; break; } }
  fclose(f); return ok; }

// ---------------------------------------------------------------- search
struct Worker { volatile u64 runs, steps, ops, switches, faults, simtime, nontrivial; volatile int done; volatile int err; char errmsg[1024]; volatile u64 viol_idx; volatile int viol; u32 nc; Counter c[NCOUNTERS]; volatile u64 nh; int nfind; char find[16][96]; u32 nsample; char sample[4][3000]; u64 scen[64]; u64 hashes[]; };
static const u64 MAXH=1u<<21;
static Run* alloc_run(){ void*p=mmap(0,sizeof(Run),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED){perror("mmap");exit(2);} return (Run*)p; }
static std::string jesc(const std::string&s){ std::string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n') o+="\\n"; else if(c<32||c>126){char b[8];snprintf(b,8,"\\u%04x",c);o+=b;} else o+=c; } return o; }

static void worker_loop(Worker*W,int w,int jobs,const PropDef*P,u64 seed,u64 nruns,double deadline,volatile int*stop,int thorough){
  R=alloc_run(); if(!strcmp(P->id,"C01")) js_start();
  for(u64 idx=w; idx<nruns; idx+=jobs){
    if(*stop||now_s()>deadline) break;
    run_one(P->id,idx,seed,nullptr,0,thorough);
    W->runs++; W->steps+=R->steps; W->ops+=R->ops; W->switches+=R->switches; W->faults+=R->faults; W->simtime+=R->simtime_us; if(R->scenario>=0&&R->scenario<64) W->scen[R->scenario]++;
    for(u32 i=0;i<R->ncounters;i++){ u32 j; for(j=0;j<W->nc;j++) if(!strcmp(W->c[j].name,R->counters[i].name)) break; if(j==W->nc&&W->nc<NCOUNTERS){ W->c[W->nc]=R->counters[i]; W->c[W->nc++].v=0; } if(j<W->nc) W->c[j].v+=R->counters[i].v; }
    for(int i=0;i<R->nfinding;i++){ int j; for(j=0;j<W->nfind;j++) if(!strcmp(W->find[j],R->finding[i])) break; if(j==W->nfind&&W->nfind<16) snprintf(W->find[W->nfind++],96,"%s",R->finding[i]); }
    if(R->status==1){ bool nt=R->faults>0||R->switches>0||R->nontrivial; if(nt){ W->nontrivial++; if(W->nh<MAXH) { u64 n=W->nh; W->hashes[n]=R->sched_hash?R->sched_hash^R->hash:R->hash; W->nh=n+1; } if(W->nsample<2){ snprintf(W->sample[W->nsample++],3000,"run %lu (seed %lu): %s",(unsigned long)idx,(unsigned long)seed,R->evbuf); } } }
    else if(R->status==2){ W->viol_idx=idx; W->viol=1; *stop=1; break; }
    else { snprintf(W->errmsg,sizeof W->errmsg,"run %lu: %s",(unsigned long)idx,R->vmsg); W->err=1; *stop=1; break; }
  }
  W->done=1; _exit(0);
}
static bool same_viol(const std::string&cls){ return R->status==2 && cls==R->vclass; }
static std::vector<u64> cur_tape(){ std::vector<u64> t(R->tape,R->tape+R->ntape); while(!t.empty()&&t.back()==0) t.pop_back(); return t; }
static std::vector<u64> minimise(const char*prop,u64 idx,u64 seed,int thorough,std::vector<u64> t,const std::string&cls,double budget,int&evals){
  double end=now_s()+budget; evals=0; auto ok=[&](const std::vector<u64>&c){ if(now_s()>end) return false; evals++; run_one(prop,idx,seed,&c,0,thorough); return same_viol(cls); };
  // truncate
  size_t lo=0,hi=t.size(); while(lo<hi&&now_s()<end){ size_t mid=(lo+hi)/2; std::vector<u64> c(t.begin(),t.begin()+mid); if(ok(c)) hi=mid; else lo=mid+1; }
  if(hi<t.size()){ std::vector<u64> c(t.begin(),t.begin()+hi); if(ok(c)) t=c; }
  // zero chunks
  for(size_t chunk=std::max<size_t>(1,t.size()/2); chunk>=1&&now_s()<end; chunk/=2){ for(size_t i=0;i<t.size()&&now_s()<end;i+=chunk){ bool nz=false; std::vector<u64> c=t; for(size_t k=i;k<i+chunk&&k<t.size();k++) if(c[k]){c[k]=0;nz=true;} if(nz&&ok(c)) t=c; } if(chunk==1)break; }
  // shrink values
  for(size_t i=0;i<t.size()&&now_s()<end&&i<200;i++){ for(int s=0;s<20&&t[i]>1;s++){ std::vector<u64> c=t; c[i]= s==0?1:t[i]/2; if(c[i]==t[i])break; if(ok(c)) t=c; else if(s>0) break; } }
  while(!t.empty()&&t.back()==0) t.pop_back();
  return t; }

static void load_known(const char*file,const char*prop){ FILE*f=fopen(file,"r"); if(!f) return; char line[2048]; while(fgets(line,sizeof line,f)){ char pr[16],key[128]; int off=0; if(sscanf(line,"finding: property=%15s key=%127s %n",pr,key,&off)>=2&&!strcmp(pr,prop)){ std::string txt=line+off; while(!txt.empty()&&(txt.back()=='\n'||txt.back()==' ')) txt.pop_back(); g_known.push_back({key,txt}); } } fclose(f); }

void pool_init();
extern const char* REAL_COMPONENTS; extern const char* STUB_COMPONENTS;
int main(int argc,char**argv){
  // no address-space randomisation where the sandbox lets us: uninitialised data then cannot vary between processes
  if(!getenv("SIM_NOASLR")){ setenv("SIM_NOASLR","1",1); int cur=personality(0xffffffff); if(cur!=-1&&!(cur&ADDR_NO_RANDOMIZE)&&personality(cur|ADDR_NO_RANDOMIZE)!=-1){ execv("/proc/self/exe",argv); } }
  setvbuf(stdout,0,_IOLBF,0);
  { char ex[4096]; ssize_t n=readlink("/proc/self/exe",ex,sizeof ex-16); if(n>0){ ex[n]=0; char*sl=strrchr(ex,'/'); if(sl){ strcpy(sl,"/dict.txt"); if(FILE*f=fopen(ex,"r")){ char l[64]; while(fgets(l,sizeof l,f)&&g_dict.size()<64){ l[strcspn(l,"\n")]=0; if(!strncmp(l,"chr ",4)){ if(l[4]) g_dict.push_back((u8)l[4]); } else if(l[0]=='"'){ u64 v=0; for(int i=1;l[i]&&l[i]!='"'&&i<9;i++) v|=(u64)(u8)l[i]<<(8*(i-1)); if(v) g_dict.push_back(v); } else if(l[0]) g_dict.push_back(strtoull(l,nullptr,0)); } fclose(f); } } } }
  std::map<std::string,std::string> o; std::string mode=argc>1?argv[1]:""; std::string pos;
  for(int i=2;i<argc;i++){ if(!strncmp(argv[i],"--",2)){ std::string k=argv[i]+2; if(i+1<argc&&strncmp(argv[i+1],"--",2)) o[k]=argv[++i]; else o[k]="1"; } else pos=argv[i]; }
  auto num=[&](const char*k,u64 d){ return o.count(k)?strtoull(o[k].c_str(),0,10):d; };
  pool_init();
  struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
  if(mode=="replay"){
    std::string prop,cls; u64 idx=0,seed=0,hash=0; int th=0; std::vector<u64> t; if(!read_replay(pos.c_str(),prop,idx,seed,th,t,cls,hash)||!find_prop(prop.c_str())){ fprintf(stderr,"cannot read %s\n",pos.c_str()); return 2; }
    if(o.count("findings")) load_known(o["findings"].c_str(),prop.c_str());
    R=alloc_run(); if(prop=="C01") js_start(); run_one(prop.c_str(),idx,seed,&t,(int)num("verbose",0),th);
    printf("REPLAY property=%s status=%d class=%s hash=%016lx\n",prop.c_str(),R->status,R->vclass[0]?R->vclass:"-",(unsigned long)R->hash);
    if(R->status>=2) printf("  %s\n",R->vmsg); if(num("trace",0)) fputs(R->evbuf,stdout);
    if(R->status==2){ bool same=R->hash==hash&&cls==R->vclass; printf("%s\n",same?"reproduced exactly":cls==R->vclass?"same violation, with other data":"another violation than the recorded one"); return 1; }
    return R->status==1?0:2; }
  if(mode=="run"){
    R=alloc_run(); if(o["prop"]=="C01") js_start(); const char*prop=strdup(o["prop"].c_str()); if(!find_prop(prop)) return 2; if(o.count("findings")) load_known(o["findings"].c_str(),prop);
    u64 from=num("idx",0), n=num("n",1); double a=now_s(); int bad=0;
    for(u64 i=from;i<from+n;i++){ double b=now_s(); run_one(prop,i,num("seed",1),nullptr,(int)num("verbose",0),(int)num("thorough",0)); u64 h=R->hash; int st=R->status; double c=now_s();
      if(num("twice",0)){ run_one(prop,i,num("seed",1),nullptr,0,(int)num("thorough",0)); if(R->hash!=h||R->status!=st){ printf("NONDETERMINISTIC idx=%lu\n",(unsigned long)i); bad++; } }
      if(!num("quiet",0)||st!=1) printf("idx=%lu scen=%d status=%d hash=%016lx steps=%lu ops=%lu sw=%lu faults=%lu tape=%u %.1fms %s %s\n",(unsigned long)i,R->scenario,st,(unsigned long)h,(unsigned long)R->steps,(unsigned long)R->ops,(unsigned long)R->switches,(unsigned long)R->faults,R->ntape,(c-b)*1e3,st>=2?R->vclass:"",st>=2?R->vmsg:""); if(st!=1) bad++; }
    fprintf(stderr,"%lu runs in %.2fs, %d bad\n",(unsigned long)n,now_s()-a,bad); return bad?1:0; }
  if(mode!="check"){ fprintf(stderr,"usage: sim check|replay|run ...\n"); return 2; }

  const PropDef*P=find_prop(o["prop"].c_str()); if(!P){ fprintf(stderr,"unknown property\n"); return 2; }
  if(o.count("findings")) load_known(o["findings"].c_str(),P->id);
  int thorough=o["tier"]=="thorough"; u64 seed=num("seed",1); int jobs=(int)num("jobs",8); if(jobs<1)jobs=1; if(jobs>64)jobs=64; u64 nruns=num("runs",thorough?P->thorough_runs:P->quick_runs); double secs=num("secs",thorough?900:P->quick_s);
  std::string out=o.count("out")?o["out"]:"."; double t0=now_s(); double deadline=t0+secs;
  printf("simulating %s tier=%s VERIF_SEED=%lu runs<=%lu secs<=%.0f jobs=%d variant=%s\n",P->id,thorough?"thorough":"quick",(unsigned long)seed,(unsigned long)nruns,secs,jobs,P->variant);
  size_t wsz=sizeof(Worker)+MAXH*8; std::vector<Worker*> W(jobs); volatile int*stop=(volatile int*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  std::vector<pid_t> pids; for(int w=0;w<jobs;w++){ W[w]=(Worker*)mmap(0,wsz,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); fflush(0); pid_t p=fork(); if(p==0){ worker_loop(W[w],w,jobs,P,seed,nruns,deadline,stop,thorough); } pids.push_back(p); }
  for(pid_t p:pids){ int st; while(waitpid(p,&st,0)<0&&errno==EINTR); }
  double t1=now_s(); u64 runs=0,steps=0,ops=0,sw=0,fl=0,st_us=0,nt=0; std::map<std::string,u64> C; std::set<std::string> finds; std::vector<u64> hs; u64 scen[64]={0}; std::string err; i64 viol=-1; std::vector<std::string> samples; int dead=0;
  for(int w=0;w<jobs;w++){ Worker*x=W[w]; runs+=x->runs; steps+=x->steps; ops+=x->ops; sw+=x->switches; fl+=x->faults; st_us+=x->simtime; nt+=x->nontrivial; for(u32 i=0;i<x->nc;i++) C[x->c[i].name]+=x->c[i].v; for(int i=0;i<x->nfind;i++) finds.insert(x->find[i]); for(u64 i=0;i<x->nh;i++) hs.push_back(x->hashes[i]); for(int i=0;i<64;i++) scen[i]+=x->scen[i]; if(x->err&&err.empty()) err=x->errmsg; if(x->viol&&(viol<0||(i64)x->viol_idx<viol)) viol=(i64)x->viol_idx; for(u32 i=0;i<x->nsample&&samples.size()<3;i++) samples.push_back(x->sample[i]); if(!x->done) dead++; }
  std::sort(hs.begin(),hs.end()); hs.erase(std::unique(hs.begin(),hs.end()),hs.end());
  int rc=0; std::string vline; int evals=0; std::string replay;
  if(viol>=0){
    R=alloc_run(); if(!strcmp(P->id,"C01")) js_start(); run_one(P->id,viol,seed,nullptr,0,thorough); std::string cls=R->vclass; u64 h1=R->hash; int s1=R->status; std::vector<u64> tape=cur_tape();
    run_one(P->id,viol,seed,nullptr,0,thorough);
    bool exact=R->hash==h1; // data may differ if the code under test reads memory nobody wrote; the violation must not
    for(int t=0;t<4&&(s1!=2||R->status!=2||cls!=R->vclass);t++){ exact=false; run_one(P->id,viol,seed,nullptr,0,thorough); if(R->status==2){ s1=2; cls=R->vclass; tape=cur_tape(); } run_one(P->id,viol,seed,nullptr,0,thorough); }
    if(s1!=2||R->status!=2||cls!=R->vclass){ fprintf(stderr,"ERROR: run %ld of %s did not repeat (status %d/%d class %s/%s)\n",(long)viol,P->id,s1,R->status,cls.c_str(),R->vclass); rc=2; }
    else {
      run_one(P->id,viol,seed,&tape,0,thorough); if(!same_viol(cls)) run_one(P->id,viol,seed,&tape,0,thorough); if(!same_viol(cls)){ fprintf(stderr,"ERROR: tape replay of run %ld diverged\n",(long)viol); rc=2; }
      else {
        std::vector<u64> m=minimise(P->id,viol,seed,thorough,tape,cls,thorough?120:30,evals);
        for(int attempt=0;attempt<2;attempt++){
          const std::vector<u64>&use=attempt==0?m:tape; run_one(P->id,viol,seed,&use,0,thorough); if(!same_viol(cls)) continue;
          char path[4096]; snprintf(path,sizeof path,"%s/%s-%lu-%ld.replay",out.c_str(),P->id,(unsigned long)seed,(long)viol); write_replay(path,P->id,viol,seed,thorough,use,cls.c_str(),R->vmsg,R->hash,R->evbuf);
          std::string cmd=self_path()+" replay "+path+(o.count("findings")?" --findings "+o["findings"]:""); fflush(0); FILE*pp=popen(cmd.c_str(),"r"); char buf[4096]; std::string outp; while(pp&&fgets(buf,sizeof buf,pp)) outp+=buf; if(pp) pclose(pp);
          bool ex=outp.find("reproduced exactly")!=std::string::npos; if(!ex&&attempt==1&&outp.find("same violation, with other data")!=std::string::npos){ replay=path; printf("violation class %s: %s\n  found in run %ld; fresh-process replay shows the same violation with other data (the code under test reads memory nobody wrote)\n",cls.c_str(),R->vmsg,(long)viol); break; }
          if(ex){ (void)exact; replay=path; printf("violation class %s: %s\n  found in run %ld, tape %zu -> %zu choices after %d minimisation runs; fresh-process replay reproduced it exactly\n",cls.c_str(),R->vmsg,(long)viol,tape.size(),use.size(),evals); break; }
          fprintf(stderr,"fresh-process replay gave: %s\n",outp.c_str());
        }
        if(replay.empty()){ fprintf(stderr,"ERROR: violation %s did not reproduce in a fresh process\n",cls.c_str()); rc=2; } else rc=1;
      } } }
  else if(!err.empty()||dead){ fprintf(stderr,"ERROR: %s%s\n",err.c_str(),dead?" (worker died)":""); rc=2; }
  else if(runs==0){ fprintf(stderr,"ERROR: no run completed\n"); rc=2; }
  double wall=now_s()-t0;
  if(o.count("evidence")){ FILE*f=fopen(o["evidence"].c_str(),"w"); if(!f){perror("evidence");return 2;}
    double hrs=(t1-t0)/3600; if(hrs<=0)hrs=1e-9;
    fprintf(f,"{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %lu,\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": %lu,\n  \"distinct_nontrivial\": %zu,\n  \"rule\": \"%s\",\n",P->id,thorough?"thorough":"quick",(unsigned long)seed,(unsigned long)runs,hs.size(),jesc(P->rule).c_str());
    fprintf(f,"  \"runs_per_hour\": %.0f,\n  \"seeds\": \"every run has its own sub-seed derived from VERIF_SEED and its number\",\n  \"simulated_steps\": %lu,\n  \"simulated_time_s\": %.3f,\n  \"library_calls\": %lu,\n  \"context_switches\": %lu,\n  \"faults_fired_total\": %lu,\n  \"nontrivial_runs\": %lu,\n",runs/hrs,(unsigned long)steps,st_us/1e6,(unsigned long)ops,(unsigned long)sw,(unsigned long)fl,(unsigned long)nt);
    auto dump=[&](const char*pre,const char*key){ fprintf(f,"  \"%s\": {",key); bool first=true; for(auto&k:C) if(k.first.compare(0,strlen(pre),pre)==0){ fprintf(f,"%s\"%s\": %lu",first?"":", ",jesc(k.first.substr(strlen(pre))).c_str(),(unsigned long)k.second); first=false; } fprintf(f,"},\n"); };
    dump("fault.","fault_kinds_fired"); dump("probe.","probes_hit"); dump("op.","operations");
    fprintf(f,"  \"runs_per_scenario\": {"); bool first=true; for(int i=0;i<64;i++) if(scen[i]){ fprintf(f,"%s\"%d\": %lu",first?"":", ",i,(unsigned long)scen[i]); first=false; } fprintf(f,"},\n");
    fprintf(f,"  \"components_real\": \"%s\",\n  \"components_stubbed\": \"%s\",\n",jesc(REAL_COMPONENTS).c_str(),jesc(STUB_COMPONENTS).c_str());
    fprintf(f,"  \"samples\": ["); for(size_t i=0;i<samples.size();i++) fprintf(f,"%s\"%s\"",i?", ":"",jesc(samples[i].substr(0,1800)).c_str()); fprintf(f,"]\n },\n");
    fprintf(f," \"assumptions\": [\"seeded sampling of schedules and faults, not exhaustive\", \"library compiled from /repo with clang -O2 -DNDEBUG; behaviour of other compilers is not covered\"],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n",wall,rc==1?1:0); fclose(f); }
  printf("%lu runs, %lu library calls, %lu faults, %lu switches, %zu distinct non-trivial histories, %.1fs\n",(unsigned long)runs,(unsigned long)ops,(unsigned long)fl,(unsigned long)sw,hs.size(),wall);
  if(rc!=2) for(auto&k:g_known) if(finds.count(k.first)) printf("KNOWN-FINDING: property=%s %s\n",P->id,k.second.c_str());
  if(rc==1) printf("VIOLATION property=%s replay=%s\n",P->id,replay.c_str());
  return rc;
}
