// The simulated operating system: everything the library objects' libc references are redirected to.
#include "os.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <pthread.h>
#include <semaphore.h>
#include <poll.h>
#include <sys/mman.h>
#include <time.h>
#include <sys/time.h>
#include <fcntl.h>
// ================================================================= steps, crash points, hangs
u64 g_step=0, g_trip=~0ull, g_op_start=0; static u64 g_crash=~0ull, g_quantum_end=~0ull, g_budget=~0ull; static u64 OP_BUDGET=400000000ull;
static u32 g_lastguard=0;
static void retrip(){ u64 t=g_crash; if(g_quantum_end<t)t=g_quantum_end; if(g_budget<t)t=g_budget; g_trip=t; }
void set_crash_at(u64 n){ g_crash = n? g_step+n : ~0ull; retrip(); }
static void quantum_expired();
static __attribute__((noinline)) void trip(){
  if(g_step>=g_crash){ R->steps+=g_step-g_op_start; R->crash_step=g_step; count("fault.process_crash"); R->faults++; evh(g_step,99); _exit(EX_CRASHED); }
  if(g_step>=g_budget) violate("hang","%s did not return within %lu simulated steps",R->in_op?"library call":"?",(unsigned long)OP_BUDGET);
  if(g_step>=g_quantum_end) quantum_expired();
  retrip();
}
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(u32*a,u32*b){ static u32 n=0; if(a==b||*a) return; for(;a<b;a++) *a=++n; }
void __sanitizer_cov_trace_pc_guard(u32*g){ if(__builtin_expect(++g_step>=g_trip,0)){ g_lastguard=*g; trip(); } }
extern char __start_libdata[] __attribute__((weak)); extern char __stop_libdata[] __attribute__((weak)); extern char __start_libbss[] __attribute__((weak)); extern char __stop_libbss[] __attribute__((weak));
}
static bool in_static(void*p){ char*c=(char*)p; return (c>=__start_libdata&&c<__stop_libdata)||(c>=__start_libbss&&c<__stop_libbss); }
u64 lib_static_hash(){ u64 h=1; if(__start_libdata) h^=hashbytes(__start_libdata,__stop_libdata-__start_libdata); if(__start_libbss) h=mix64(h)^hashbytes(__start_libbss,__stop_libbss-__start_libbss); return h; }
static u64 g_static_cd=~0ull; u64 g_static_stores=0; static void static_access();
#define LS(n) extern "C" void __sanitizer_cov_load##n(void*p){ if(__builtin_expect(in_static(p),0)) static_access(); } extern "C" void __sanitizer_cov_store##n(void*p){ if(__builtin_expect(in_static(p),0)){ g_static_stores++; static_access(); } }
LS(1) LS(2) LS(4) LS(8) LS(16)
// block copies the compiler turned into calls: the same preemption points around accesses to static memory
extern "C" void* sim_memcpy(void*d,const void*s,size_t n){ bool ds=n&&in_static(d); if(__builtin_expect(ds||(n&&in_static((void*)s)),0)){ if(ds) g_static_stores++; static_access(); memcpy(d,s,n/2); static_access(); memcpy((u8*)d+n/2,(const u8*)s+n/2,n-n/2); static_access(); return d; } return memcpy(d,s,n); }
extern "C" void* sim_memmove(void*d,const void*s,size_t n){ bool ds=n&&in_static(d); if(__builtin_expect(ds||(n&&in_static((void*)s)),0)){ if(ds) g_static_stores++; static_access(); } memmove(d,s,n); if(ds) static_access(); return d; }
extern "C" void* sim_memset(void*d,int c,size_t n){ if(__builtin_expect(n&&in_static(d),0)){ g_static_stores++; static_access(); } memset(d,c,n); return d; }
void op_enter(int kind){ R->in_op=1; R->op_kind=kind; R->ops++; if(!sched_active()){ g_op_start=g_step; g_budget=g_step+OP_BUDGET; retrip(); } }
void op_allow(u64 extra){ if(!sched_active()){ g_budget=g_step+OP_BUDGET+extra; retrip(); } }
void op_leave(){ R->in_op=0; if(!sched_active()){ R->steps+=g_step-g_op_start; g_op_start=g_step; g_budget=~0ull; retrip(); } }
void __attribute__((noinline)) paint_stack(u64 seed){ 
#if defined(__has_feature)
#endif
  const size_t N=700*1024; volatile u8* b=(volatile u8*)__builtin_alloca(N); u64 s=seed?mix64(seed):0; u64*w=(u64*)(((uintptr_t)b+63)&~63ull); size_t n=(N-64)/8; for(size_t i=0;i<n;i++){ ((volatile u64*)w)[i]=s; if(seed) s=s*6364136223846793005ull+1442695040888963407ull; } }

// ================================================================= threads
enum { MAXT=16 };
struct Task { pthread_t th; sem_t sem; std::function<void()>*fn; bool done; bool blocked; const std::function<bool()>*ready; Ent*ent; int kind; };
static Task T[MAXT]; static int NT=0, CUR=-1; static bool ACTIVE=false; static sem_t MAIN; static SchedCfg CFG; static u64 NSW=0; static int POINTS=0; static int MAXBITS=20; static Ent*g_main_ent=nullptr;
bool sched_active(){ return ACTIVE; } int sched_self(){ return ACTIVE?CUR:-1; }
Ent* ent_cur(){ return ACTIVE&&CUR>=0?T[CUR].ent:g_main_ent; } void ent_set(Ent*e){ if(ACTIVE&&CUR>=0) T[CUR].ent=e; else g_main_ent=e; }
static void new_quantum(){
  g_quantum_end=~0ull; g_static_cd=~0ull; u64 q=0;
  if(NSW<30000){
    int p=CFG.policy;
    if(p==0||p==3){ u64 v=draw(96,"quantum"); if(v){ int b=(int)(v%(MAXBITS+1)); q=(1ull<<b)+((v/(MAXBITS+1))*(1ull<<b))/5; } }
    if(p==1&&POINTS>0){ POINTS--; q=draw(CFG.span,"changepoint"); }
    if(q) g_quantum_end=g_step+q;
    if(p==2||p==3){ u64 v=draw(12,"staticcd"); if(v) g_static_cd=v<9?v:(v-8)*12; }
  }
  retrip(); }
static int pick_next(bool must){ // candidates: current first (0 = stay)
  int c[MAXT],n=0; if(!must&&CUR>=0&&!T[CUR].done&&!T[CUR].blocked) c[n++]=CUR; 
  for(int k=1;k<=NT;k++){ int i=(CUR+k+NT)%NT; if(i==CUR&&!must) continue; if(T[i].done) continue; if(T[i].blocked){ if((*T[i].ready)()) ; else continue; } c[n++]=i; }
  if(n==0) return -1; return c[n==1?0:draw(n,"next")]; }
static void switch_to(int n){ int me=CUR; if(n==me) return; NSW++; R->switches++; R->sched_hash=mix64(R->sched_hash^(((u64)g_lastguard<<16)|(me<<8)|n)); T[me].kind=R->op_kind; int inop=R->in_op; CUR=n; T[n].blocked=false; R->op_kind=T[n].kind; sem_post(&T[n].sem); if(!T[me].done){ while(sem_wait(&T[me].sem)!=0); R->in_op=inop; R->op_kind=T[me].kind; } }
static void quantum_expired(){ if(!ACTIVE||CUR<0){ g_quantum_end=~0ull; return; } int n=pick_next(false); new_quantum(); if(n>=0&&n!=CUR) switch_to(n); }
static void static_access(){ if(!ACTIVE||CUR<0) return; count("probe.static_access"); if(g_static_cd==~0ull) return; if(--g_static_cd==0){ int n=pick_next(false); new_quantum(); if(n>=0&&n!=CUR) switch_to(n); } }
void sched_yield_point(){ if(!ACTIVE||CUR<0) return; if(NSW>30000) return; if(CFG.policy==4?chance(1,3,"yield"):false){ int n=pick_next(true); new_quantum(); if(n>=0&&n!=CUR) switch_to(n); } }
void sched_block_until(const std::function<bool()>&ready,const char*what){ if(ready()) return; if(!ACTIVE) violate("deadlock","single thread waits forever on %s",what); while(!ready()){ T[CUR].blocked=true; T[CUR].ready=&ready; int n=pick_next(true); if(n<0) violate("deadlock","all threads blocked (%s)",what); switch_to(n); } T[CUR].blocked=false; }
static void*task_main(void*a){ int i=(int)(intptr_t)a; while(sem_wait(&T[i].sem)!=0); paint_stack(0); (*T[i].fn)(); T[i].done=true; R->in_op=0; int n=pick_next(true); if(n>=0){ new_quantum(); CUR=i; switch_to(n); } else { CUR=-1; sem_post(&MAIN);} return nullptr; }
void sched_run(std::vector<std::function<void()>>&fs,const SchedCfg&cfg){
  if(fs.size()>MAXT) simerror("too many tasks"); NT=(int)fs.size(); CFG=cfg; NSW=0; sem_init(&MAIN,0,0); POINTS=1+(int)draw(6,"npoints"); MAXBITS=3+(int)draw(20,"maxbits"); 
  for(int i=0;i<NT;i++){ sem_init(&T[i].sem,0,0); T[i].fn=&fs[i]; T[i].done=T[i].blocked=false; T[i].ent=nullptr; T[i].kind=0; }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,4<<20);
  for(int i=0;i<NT;i++) if(pthread_create(&T[i].th,&at,task_main,(void*)(intptr_t)i)) simerror("pthread_create");
  u64 s0=g_step; g_op_start=g_step; g_budget=g_step+OP_BUDGET*2; CUR=-1; ACTIVE=true; int f=pick_next(true); CUR=f; new_quantum(); sem_post(&T[f].sem); while(sem_wait(&MAIN)!=0); ACTIVE=false; g_quantum_end=~0ull; g_static_cd=~0ull; g_budget=~0ull; retrip(); R->steps+=g_step-s0; R->in_op=0;
  for(int i=0;i<NT;i++) pthread_join(T[i].th,0); }

// ================================================================= locks the library might use
struct Lk { void*p; int owner; int depth; int readers; }; static Lk L[64]; static int NL=0;
static Lk* lk(void*p){ for(int i=0;i<NL;i++) if(L[i].p==p) return &L[i]; if(NL>=64) simerror("too many locks"); L[NL]={p,-2,0,0}; return &L[NL++]; }
static int meid(){ return ACTIVE?CUR:-1; }
static void lk_lock(void*m,bool rec){ sched_yield_point(); Lk*l=lk(m); if(l->owner==meid()&&rec){l->depth++;return;} if(l->owner==meid()&&l->depth>0) { l->depth++; return; } std::function<bool()> f=[l]{return l->depth==0&&l->readers==0;}; sched_block_until(f,"mutex"); l->owner=meid(); l->depth=1; }
extern "C" {
int sim_mutex_lock(void*m){ lk_lock(m,false); return 0; } int sim_mutex_trylock(void*m){ Lk*l=lk(m); if(l->depth||l->readers) return EBUSY; l->owner=meid(); l->depth=1; return 0; }
int sim_mutex_unlock(void*m){ Lk*l=lk(m); if(l->depth>0&&--l->depth==0) l->owner=-2; sched_yield_point(); return 0; }
int sim_rdlock(void*m){ sched_yield_point(); Lk*l=lk(m); std::function<bool()> f=[l]{return l->depth==0;}; sched_block_until(f,"rwlock"); l->readers++; return 0; }
int sim_wrlock(void*m){ lk_lock(m,false); return 0; } int sim_rwunlock(void*m){ Lk*l=lk(m); if(l->readers) l->readers--; else if(l->depth>0&&--l->depth==0) l->owner=-2; return 0; }
int sim_once(void*o,void(*f)(void)){ Lk*l=lk(o); if(l->owner==-3) return 0; if(l->depth){ std::function<bool()> g=[l]{return l->owner==-3;}; sched_block_until(g,"once"); return 0; } l->depth=1; f(); l->owner=-3; return 0; }
int sim_zero(...){ return 0; }
int sim_sched_yield(void){ if(ACTIVE){ int n=pick_next(true); if(n>=0&&n!=CUR) switch_to(n);} return 0; }
}

// ================================================================= memory
MemPlan g_mem={-1,-1,-1,0,0,0}; MemStat g_ms; free_hook_t g_free_hook=nullptr; bool g_mem_dirty_reuse=false;
#ifdef SIM_ASAN_BUILD
static const bool EXACT=true;
#else
static const bool EXACT=false;
#endif
struct Blk { u64 magic; size_t n; u64 seq; Blk*next,*prev; u64 site; };
static Blk LIVE={0,0,0,&LIVE,&LIVE,0}; static const u64 MAGIC=0x5AFEB10C5AFEB10Cull, DEADM=0xDEADB10CDEADB10Cull;
void mem_reset(){ memset(&g_ms,0,sizeof g_ms); for(Blk*b=LIVE.next;b!=&LIVE;b=b->next){ g_ms.live++; g_ms.live_bytes+=b->n; } }
u64 mem_mark(){ return g_ms.live; }
static bool mem_fails(u64 site){ u64 idx=g_ms.allocs; int s=-1; for(u32 i=0;i<g_ms.nsites;i++) if(g_ms.site[i]==site){s=i;break;} if(s<0&&g_ms.nsites<64){ s=(int)g_ms.nsites++; g_ms.site[s]=site; g_ms.site_n[s]=0; } u64 occ=s>=0?g_ms.site_n[s]++:0; g_ms.allocs++;
  bool f=g_mem.fail_addr&&g_mem.fail_addr==site; if(g_mem.fail_index>=0&&(i64)idx>=g_mem.fail_index&&(i64)idx<g_mem.fail_index+1+g_mem.burst) f=true; if(g_mem.fail_site>=0&&s==g_mem.fail_site&&(i64)occ==g_mem.fail_occ) { f=true; if(g_mem.burst){ g_mem.fail_index=(i64)idx; } }
  if(f){ g_ms.failed++; fault("alloc_failure"); } return f; }
static void mem_check(Blk*b){ if(!EXACT){ const u8*t=(u8*)(b+1)+b->n; for(int i=0;i<16;i++) if(t[i]!=(u8)(0xA5^i)) violate("heap-overflow","write past the end of a %zu byte block",b->n); } }
static void* mem_new(size_t n,u64 site,bool zero){ sched_yield_point(); if(mem_fails(site)){ errno=ENOMEM; return nullptr; } 
  Blk*b; 
  if(EXACT){ // address sanitizer build: block of exactly n bytes, bookkeeping apart
    void*p=malloc(n?n:1); if(!p) simerror("out of memory"); b=(Blk*)malloc(sizeof(Blk)); b->magic=(u64)p; b->n=n; b->next=&LIVE; b->prev=LIVE.prev; LIVE.prev->next=b; LIVE.prev=b; g_ms.live++; g_ms.live_bytes+=n; if(zero) memset(p,0,n); else { Rng r(g_mem.garbage+g_ms.allocs); if(g_mem.garbage) r.fill(p,n); else memset(p,0,n);} return p; }
  b=(Blk*)malloc(sizeof(Blk)+n+16); if(!b) simerror("out of memory"); b->magic=MAGIC; b->n=n; b->seq=g_ms.allocs; b->site=site; b->next=&LIVE; b->prev=LIVE.prev; LIVE.prev->next=b; LIVE.prev=b; g_ms.live++; g_ms.live_bytes+=n;
  u8*p=(u8*)(b+1); if(zero||!g_mem.garbage) memset(p,0,n); else { Rng r(g_mem.garbage+g_ms.allocs); r.fill(p,n);} for(int i=0;i<16;i++) p[n+i]=(u8)(0xA5^i); return p; }
static void mem_del(void*p){ if(!p) return; Blk*b;
  if(EXACT){ for(b=LIVE.prev;b!=&LIVE;b=b->prev) if(b->magic==(u64)p) break; if(b==&LIVE){ violate("bad-free","release of memory the library does not own (or twice)"); } if(g_free_hook) g_free_hook(p,b->n); b->prev->next=b->next; b->next->prev=b->prev; g_ms.live--; g_ms.live_bytes-=b->n; g_ms.frees++; free(b); free(p); return; }
  for(b=LIVE.prev;b!=&LIVE;b=b->prev) if((void*)(b+1)==p) break; if(b==&LIVE) violate("bad-free","release of memory the library does not own (or twice)");
  mem_check(b); if(g_free_hook) g_free_hook(p,b->n); b->prev->next=b->next; b->next->prev=b->prev; b->magic=DEADM; g_ms.live--; g_ms.live_bytes-=b->n; g_ms.frees++; if(g_mem.garbage){ Rng r(g_mem.garbage^b->seq); r.fill(p,b->n);} free(b); sched_yield_point(); }
#define SITE ((u64)__builtin_return_address(0))
extern "C" {
void* sim_malloc(size_t n){ return mem_new(n,SITE,false); } void* sim_calloc(size_t a,size_t b){ return mem_new(a*b,SITE,true); }
void* sim_realloc(void*p,size_t n);
void* sim_reallocarray(void*p,size_t a,size_t b){ if(b&&a>(size_t)-1/b){ errno=ENOMEM; return nullptr; } return sim_realloc(p,a*b); }
char* sim_strdup(const char*s){ size_t n=strlen(s)+1; char*q=(char*)mem_new(n,SITE,false); if(q) memcpy(q,s,n); return q; }
void* sim_realloc(void*p,size_t n){ if(!p) return mem_new(n,SITE,false); size_t old=0; for(Blk*b=LIVE.prev;b!=&LIVE;b=b->prev) if((EXACT?(void*)b->magic:(void*)(b+1))==p) {old=b->n;break;} void*q=mem_new(n,SITE,false); if(!q) return nullptr; memcpy(q,p,old<n?old:n); mem_del(p); return q; }
void sim_free(void*p){ mem_del(p); } void* sim_aligned_alloc(size_t,size_t n){ return mem_new(n,SITE,false); } int sim_posix_memalign(void**o,size_t,size_t n){ void*p=mem_new(n,SITE,false); if(!p) return ENOMEM; *o=p; return 0; }
void sim_exit(int c){ R->lib_exit_called=1; R->lib_exit_code=c; evh(c,71); _exit(EX_LIBEXIT); } void sim_abort(void){ sim_exit(134); }
void __stack_chk_fail(void){ violate("stack-smash","stack buffer overflow detected by stack protector"); }
void sim_assert_fail(const char*a,const char*,unsigned,const char*){ violate("assertion","assertion failed: %s",a); }
}

// ================================================================= clocks, pids, libc randomness: simulated
static u64 clk(){ R->simtime_us+=1; return R->simtime_us; }
extern "C" {
time_t sim_time(time_t*t){ time_t v=1700000000+clk()/1000000; if(t)*t=v; return v; } clock_t sim_clock(void){ return (clock_t)clk(); }
int sim_clock_gettime(int,struct timespec*t){ u64 c=clk(); t->tv_sec=1700000000+c/1000000; t->tv_nsec=(c%1000000)*1000; return 0; } int sim_gettimeofday(struct timeval*t,void*){ u64 c=clk(); t->tv_sec=1700000000+c/1000000; t->tv_usec=c%1000000; return 0; }
static u64 lr=1; int sim_rand(void){ lr=mix64(lr); return (int)(lr&0x7fffffff); } void sim_srand(unsigned s){ lr=s; } long sim_random(void){ return sim_rand(); } int sim_getpid(void){ return 4242; } 
int sim_usleep(unsigned u){ old_sleep(u); R->simtime_us+=u; sim_sched_yield(); return 0; } unsigned sim_sleep(unsigned s){ old_sleep(1000000ull*s); R->simtime_us+=1000000ull*s; sim_sched_yield(); return 0; } int sim_nanosleep(const struct timespec*t,struct timespec*){ old_sleep(t->tv_sec*1000000ull+t->tv_nsec/1000); R->simtime_us+=t->tv_sec*1000000ull+t->tv_nsec/1000; sim_sched_yield(); return 0; }
}

// ================================================================= entropy: modern Linux
extern std::vector<u64> g_dict;
EntPlan g_plan; u64 g_os_calls=0; u64 g_call_limit=200000;
static void ent_fill0(const Ent&e,u64 pos,void*buf,size_t n){ u8*b=(u8*)buf;
  switch(e.kind){ case 1: memset(b,0,n); return; case 2: memset(b,0xff,n); return; case 3: for(size_t i=0;i<n;i++) b[i]=(u8)(pos+i+e.stream); return; case 4: memset(b,(u8)e.stream,n); return; case 5: for(size_t i=0;i<n;i++){ u64 q=pos+i; b[i]= q<32?0:(u8)(mix64(e.stream+q/8)>>(8*(q%8))); } return; case 6: for(size_t i=0;i<n;i++){ u64 q=(pos+i)%32; b[i]=(u8)(mix64(e.stream+q/8)>>(8*(q%8))); } return; case 7: for(size_t i=0;i<n;i++){ u64 q=pos+i; b[i]= (q*7+e.stream)%3==0?(u8)(mix64(e.stream+q/8)>>(8*(q%8))):0; } return;
    case 9: for(size_t i=0;i<n;i++){ u64 q=pos+i; b[i]= q<8?(u8)(e.stream>>(8*q)):0xa5; } return; // chosen nonces, see rare.h
    case 8: for(size_t i=0;i<n;i++){ u64 q=pos+i; u8 v=(u8)(mix64(e.stream+q/8)>>(8*(q%8))); if(g_dict.empty()){ if(q%32<1+e.stream%3) v=0; } else { u64 h=e.stream>>8; if(h%2==0){ if(q<8) v=(u8)g_dict[(h/2+q)%g_dict.size()]; } else if(mix64(h+q)%3) v=(u8)g_dict[mix64(h^q)%g_dict.size()]; } b[i]=v; } return; }
  while(n&&(pos&7)){ *b++=(u8)(mix64(e.stream+pos/8)>>(8*(pos%8))); pos++; n--; }
  while(n>=8){ u64 v=mix64(e.stream+pos/8); memcpy(b,&v,8); b+=8; pos+=8; n-=8; }
  if(n){ u64 v=mix64(e.stream+pos/8); memcpy(b,&v,n);} }
void ent_fill(const Ent&e,u64 pos,void*buf,size_t n){ ent_fill0(e,pos,buf,n); if(e.flip_mask&&e.flip_pos>=pos&&e.flip_pos<pos+n) ((u8*)buf)[e.flip_pos-pos]^=e.flip_mask; }
static const int HARD[]={ENOSYS,EIO,EFAULT,EINVAL,EPERM,EAGAIN,ENOMEM,ENODEV};
// common delivery logic; returns -1/errno or number of bytes put into buf
static ssize_t deliver(void*buf,size_t n,u64 kmax,bool can_short){
  Ent*e=ent_cur(); if(!e) simerror("entropy requested outside a modelled call"); sched_yield_point();
  e->ncalls_total++; g_os_calls++; R->simtime_us+=2; if(e->ncalls_total>g_call_limit+e->delivered) violate("hang","%u entropy system calls without returning",e->ncalls_total);
  if(e->eintr_left){ e->eintr_left--; fault("entropy_eintr"); if(g_plan.noise&&n) memset(buf,0xEE,n>16?16:n); errno=EINTR; return -1; }
  u32 call=e->calls++;
  if(e->failing||(e->fail_from>=0&&(i64)call>=e->fail_from&&e->delivered>=e->fail_after_bytes)){ e->failing=true; e->after_fail++; fault("entropy_error"); if(e->after_fail>20000) violate("hang","entropy source keeps failing, call never returns"); if(g_plan.noise&&n) memset(buf,0xEE,n>16?16:n); errno=e->fail_err; return -1; }
  bool quiet=e->ncalls_total>60000; // faults stop: the request must now make progress
  if(!quiet&&g_plan.p_eintr&&chance(g_plan.p_eintr,1024,"eintr")){ e->eintr_left=(u32)logdraw(g_plan.burst_max,"burst"); fault("entropy_eintr"); errno=EINTR; e->calls--; return -1; }
  if(!quiet&&g_plan.p_transient&&chance(g_plan.p_transient,1024,"transient")){ fault("entropy_transient_error"); errno=HARD[draw(8,"errno")]; return -1; }
  size_t k=n; if(k>kmax) k=kmax; if(!quiet&&can_short&&k>1&&g_plan.p_short&&chance(g_plan.p_short,1024,"short")){ u64 v=logdraw(k-1,"shortlen"); size_t s=k-(size_t)v; if(draw(3,"shortside")==2) s=(size_t)(v?v:1); if(s<k){ k=s; fault("entropy_short_read"); } }
  ent_fill(*e,e->delivered,buf,k); e->delivered+=k; evh(k,5); return (ssize_t)k; }
extern "C" {
ssize_t sim_getrandom(void*buf,size_t n,unsigned flags){ (void)flags; return deliver(buf,n,g_plan.kernel_max?g_plan.kernel_max:33554431,true); }
int sim_getentropy(void*buf,size_t n){ if(n>256){ errno=EIO; return -1;} u8*b=(u8*)buf; while(n){ ssize_t r=deliver(b,n,256,false); if(r<0){ if(errno==EINTR) continue; return -1;} b+=r; n-=r; } return 0; }
long sim_syscall(long nr,...){ va_list ap; va_start(ap,nr); void*buf=va_arg(ap,void*); size_t n=va_arg(ap,size_t); unsigned fl=va_arg(ap,unsigned); va_end(ap); if(nr!=318){ errno=ENOSYS; return -1; } return sim_getrandom(buf,n,fl); }
void sim_arc4random_buf(void*buf,size_t n){ Ent*e=ent_cur(); if(!e) simerror("arc4random outside call"); ent_fill(*e,e->delivered,buf,n); e->delivered+=n; }
u32 sim_arc4random(void){ u32 v; sim_arc4random_buf(&v,4); return v; }
}
// reference implementation's entropy: replays what this call's stream delivers
extern "C" int ref_randombytes(void*buf,size_t n){ Ent*e=ent_cur(); if(!e) simerror("reference entropy outside call"); ent_fill(*e,e->refpos,buf,n); e->refpos+=n; return 0; }

// ================================================================= entropy: legacy Linux devices
LegacyOS g_old; enum { FD0=900 }; struct Fd { int used; int what; }; static Fd fds[64]; // what 1 urandom 2 random
void old_reset(){ memset(&g_old,0,sizeof g_old); memset(fds,0,sizeof fds); g_old.ioctl_fail_after=g_old.poll_fail_after=-1; g_old.read_fail_after=-1; g_old.level0=256; g_old.wake=64; g_old.call_limit=400000; }
static void tr(char c){ size_t n=strlen(g_old.trace); if(n<sizeof g_old.trace-1){ g_old.trace[n]=c; g_old.trace[n+1]=0; } evh(c,3); }
static int level(){ int l=g_old.level0; for(int i=0;i<g_old.ngrow;i++) if(g_old.now_us>=g_old.grow_at[i]) l=g_old.grow_to[i]; return l; }
static u64 next_growth(){ u64 nx=~0ull; for(int i=0;i<g_old.ngrow;i++) if(g_old.grow_at[i]>g_old.now_us&&g_old.grow_at[i]<nx) nx=g_old.grow_at[i]; return nx; }
static void old_jump(u64 t){ if(t==~0ull||t<=g_old.now_us) return; R->simtime_us+=t-g_old.now_us; g_old.now_us=t; evh(t,4); }
static const int HARD_ERR[]={EIO,EINVAL,EPERM,EFAULT,EACCES,ENODEV,ENXIO,ENOMEM,EOPNOTSUPP}; static int harderr(u64 salt){ return HARD_ERR[mix64(R->seed*31+R->idx*7+salt)%9]; }
void old_sleep(u64 us){ g_old.now_us+=us; }
static void oldcall(){ g_old.calls++; g_old.now_us+=3; R->simtime_us+=3; if(g_old.calls%2048==0) old_jump(next_growth()); // a caller that polls without waiting: time passes
  Ent*e=ent_cur(); if(g_old.calls>g_old.call_limit+(e?2*e->delivered:0)) violate("hang","%lu system calls without returning (legacy entropy source): %.60s",(unsigned long)g_old.calls,g_old.trace); }
static u32 seen_eintr;
static void report(int v){ Ent*e=ent_cur(); g_old.reports++; if(v>g_old.reported_max) g_old.reported_max=v; if(v>=128) e->gate=true; }
static ssize_t ck_read(void*c,char*b,size_t n){ int*st=(int*)c; oldcall(); if(g_plan.p_poll&&chance(g_plan.p_poll,1024,"proceintr")){ fault("proc_read_eintr"); tr('e'); errno=EINTR; return -1; } char t[32]; int k=0;
  switch(g_old.proc_mode){ case 2: k=snprintf(t,sizeof t,"n/a\n"); break; case 3: k=0; break; case 4: fault("proc_read_error"); errno=EIO; return -1; case 5: k=snprintf(t,sizeof t,"-1\n"); break; default: k=snprintf(t,sizeof t,"%d\n",level()); }
  if(st[0]>=k){ return 0; } size_t m=(size_t)(k-st[0]); if(m>n) m=n; memcpy(b,t+st[0],m); st[0]+=(int)m; if(g_old.proc_mode==0) { tr('p'); report(level()); } return (ssize_t)m; }
static int ck_seek(void*c,off64_t*o,int w){ int*st=(int*)c; if(w==SEEK_SET) st[0]=(int)*o; *o=st[0]; return 0; }
static int ck_close(void*c){ free(c); return 0; }
static FILE*cfiles[16];
extern "C" {
static int do_open(const char*path){ oldcall(); int what=!strcmp(path,"/dev/urandom")?1:!strcmp(path,"/dev/random")?2:3; tr(what==1?'U':what==2?'R':'P'); if(what==3&&strcmp(path,"/proc/sys/kernel/random/entropy_avail")){ errno=ENOENT; return -1; }
  if(g_plan.p_open&&chance(g_plan.p_open,1024,"openeintr")){ fault("open_eintr"); errno=EINTR; return -1; }
  int er=what==1?g_old.urandom_open_err:what==2?g_old.random_open_err:(g_old.proc_mode==1?(mix64(R->idx)%3?ENOENT:EACCES):0); if(er){ fault("open_error"); errno=er; return -1; }
  for(int i=0;i<64;i++) if(!fds[i].used){ fds[i].used=1; fds[i].what=what; g_old.open_fds++; return FD0+i; } errno=EMFILE; return -1; }
int sim_open(const char*p,int,...){ return do_open(p); } int sim_openat(int,const char*p,int,...){ return do_open(p); }
int sim_close(int fd){ oldcall(); tr('c'); int i=fd-FD0; if(i<0||i>=64||!fds[i].used){ g_old.bad_close++; errno=EBADF; return -1; } fds[i].used=0; g_old.open_fds--; 
  if(g_plan.p_close&&chance(g_plan.p_close,1024,"closeeintr")){ fault("close_eintr"); errno=EINTR; return -1; } return 0; }
ssize_t sim_read(int fd,void*buf,size_t n){ oldcall(); int i=fd-FD0; if(i<0||i>=64||!fds[i].used){ errno=EBADF; return -1; } 
  if(fds[i].what==3){ static int pos=0; pos=0; int st[1]={0}; return ck_read(st,(char*)buf,n); }
  Ent*e=ent_cur(); if(!e) simerror("read outside call");
  if(g_old.read_mode&&(i64)e->delivered>=g_old.read_fail_after&&g_old.read_fail_after>=0){ e->failing=true; tr('x'); if(g_old.read_mode==2){ fault("device_eof"); return 0; } fault("device_read_error"); errno=harderr(2); return -1; }
  bool g=e->gate; if(e->ncalls_total<60000&&chance(g_plan.p_eintr/4,1024,"eagain")){ fault("device_eagain"); errno=EAGAIN; return -1; }
  size_t before=e->delivered; ssize_t r=deliver(buf,n,n<g_plan.kernel_max||!g_plan.kernel_max?n:g_plan.kernel_max,true); if(r>0&&!g) e->before_gate+=e->delivered-before; tr(r<0?'i':'r'); return r; }
int sim_ioctl(int fd,unsigned long req,...){ va_list ap; va_start(ap,req); int*out=va_arg(ap,int*); va_end(ap); oldcall(); tr('I'); int i=fd-FD0; if(i<0||i>=64||!fds[i].used){ errno=EBADF; return -1; } if((u32)req!=0x80045200u){ errno=ENOTTY; return -1; }
  if(g_old.ioctl_mode==1){ fault("ioctl_enotty"); errno=ENOTTY; return -1; } if(g_old.ioctl_mode==2){ fault("ioctl_enosys"); errno=ENOSYS; return -1; } if(g_old.ioctl_mode==3||(g_old.ioctl_fail_after>=0&&g_old.ioctl_fail_after--==0)){ g_old.ioctl_mode=3; fault("ioctl_error"); errno=harderr(1); return -1; }
  *out=level(); report(*out); return 0; }
int sim_poll(struct pollfd*p,nfds_t n,int timeout){ oldcall(); tr('w'); if(g_plan.p_poll&&chance(g_plan.p_poll,1024,"polleintr")){ fault("poll_eintr"); errno=draw(4,"pollerr")==3?EAGAIN:EINTR; return -1; }
  if(g_old.poll_mode&&(g_old.poll_fail_after<0||g_old.poll_fail_after--==0)){ if(g_old.poll_mode==1){ fault("poll_error"); errno=(int[]){ENOMEM,EINVAL,EFAULT}[mix64(R->idx+5)%3]; return -1; } if(timeout<0&&g_old.poll_zero++<3){ fault("poll_error"); return 0; } }
  for(nfds_t k=0;k<n;k++){ int i=p[k].fd-FD0; p[k].revents=0; if(i<0||i>=64||!fds[i].used){ p[k].revents=POLLNVAL; return 1; } }
  // discrete-event wait: jump to the next growth of the pool
  { u64 dl=timeout<0?~0ull:g_old.now_us+1000ull*(u64)timeout; while(level()<g_old.wake){ u64 nx=next_growth(); if(nx>dl||(nx==~0ull&&timeout>=0)){ fault("poll_timeout"); old_jump(dl); return 0; } if(nx==~0ull) violate("hang-env","pool never becomes ready (scenario error)"); old_jump(nx); } }
  // the device reports readable below 128 bits: callers spin; skip ahead in time after some spinning
  { static int last=-1; static u32 spins=0; if(level()!=last||g_old.calls<4){ last=level(); spins=0; } if(level()<128&&++spins>12){ old_jump(next_growth()); spins=0; } }
  for(nfds_t k=0;k<n;k++) p[k].revents=POLLIN; return (int)n; }
int sim_ppoll(struct pollfd*p,nfds_t n,const struct timespec*ts,const void*){ return sim_poll(p,n,ts?(int)(ts->tv_sec*1000+(ts->tv_nsec+999999)/1000000):-1); }
int sim_select(int n,fd_set*r,fd_set*w,fd_set*x,struct timeval*tv){ struct pollfd p[64]; nfds_t k=0; for(int f=0;f<n&&f<FD_SETSIZE&&k<64;f++) if(r&&FD_ISSET(f,r)){ p[k].fd=f; p[k].events=POLLIN; k++; } int rc=sim_poll(p,k,tv?(int)(tv->tv_sec*1000+(tv->tv_usec+999)/1000):-1); if(rc<0) return rc; FD_ZERO(r); if(w) FD_ZERO(w); if(x) FD_ZERO(x); int c=0; for(nfds_t i=0;i<k&&rc;i++){ if(p[i].revents&POLLNVAL){ errno=EBADF; return -1; } if(p[i].revents&POLLIN){ FD_SET(p[i].fd,r); c++; } } return c; }
ssize_t sim_pread(int fd,void*b,size_t n,off_t){ return sim_read(fd,b,n); }
FILE* sim_fopen(const char*path,const char*){ oldcall(); tr('P'); if(strcmp(path,"/proc/sys/kernel/random/entropy_avail")||g_old.proc_mode==1){ fault("open_error"); errno=mix64(R->idx)%3?ENOENT:EACCES; return nullptr; } int*st=(int*)malloc(sizeof(int)); *st=0; cookie_io_functions_t io={ck_read,nullptr,ck_seek,ck_close}; FILE*f=fopencookie(st,"r",io); for(int i=0;i<16;i++) if(!cfiles[i]){cfiles[i]=f;break;} g_old.open_files++; return f; }
int sim_fclose(FILE*f){ oldcall(); tr('C'); for(int i=0;i<16;i++) if(cfiles[i]==f){ cfiles[i]=nullptr; g_old.open_files--; fclose(f); if(g_plan.p_close&&chance(g_plan.p_close,1024,"fcloseeintr")){ fault("close_eintr"); errno=EINTR; return EOF; } return 0; } g_old.bad_close++; errno=EBADF; return EOF; }
}

// ================================================================= entropy: Windows
WinOS g_win;
extern "C" {
i64 sim_BCryptGenRandom(void*,u8*b,u32 n,u32 flags){ g_win.calls++; if(g_win.calls>g_call_limit+ent_cur()->delivered) violate("hang","provider calls without end"); if(flags!=2) return -1; if(g_win.bcrypt_fail||(g_win.bcrypt_fail_after>=0&&(i64)g_win.calls>g_win.bcrypt_fail_after)){ g_win.bcrypt_fail=1; fault("bcrypt_failure"); if(n) memset(b,0xEE,n>16?16:n); return (i64)(int)0xC0000001; } Ent*e=ent_cur(); ent_fill(*e,e->delivered,b,n); e->delivered+=n; return 0; }
int sim_CryptAcquireContext(u64*h,u32 flags){ g_win.calls++; if(g_win.acquire_fail){ fault("provider_acquire_failure"); return 0; } if(!(flags&0xF0000000u)) ; g_win.handles++; *h=0xC0FFEE; return 1; }
int sim_CryptGenRandom(u64 h,u32 n,u8*b){ g_win.calls++; if(h!=0xC0FFEE||g_win.handles<=0){ g_win.bad_release++; return 0; } if(g_win.calls>g_call_limit+ent_cur()->delivered) violate("hang","provider calls without end"); if(g_win.gen_fail_after>=0&&g_win.gen_fail_after--==0){ g_win.gen_fail_after=0; fault("provider_generate_failure"); if(n) memset(b,0xEE,n>16?16:n); return 0; } Ent*e=ent_cur(); ent_fill(*e,e->delivered,b,n); e->delivered+=n; return 1; }
int sim_CryptReleaseContext(u64 h){ g_win.calls++; if(h!=0xC0FFEE||g_win.handles<=0){ g_win.bad_release++; return 0; } g_win.handles--; if(g_win.release_fail){ fault("provider_release_failure"); return 0; } return 1; }
}
extern "C" const char* __asan_default_options(void){ return "exitcode=99:detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=4:log_path=/dev/null"; }
extern "C" const char* __asan_get_report_description(void) __attribute__((weak));
extern "C" void __asan_on_error(void){ if(!R) return; snprintf(R->asan,sizeof R->asan,"address sanitizer: %s",__asan_get_report_description?__asan_get_report_description():"?"); if(R->in_op) _exit(EX_ASAN); _exit(EX_ERR); }
