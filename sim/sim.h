// Deterministic simulator for hybrid-pqc: core interface.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string.h>
#include <string>
#include <vector>
#include <functional>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

// ---------- PRNG helpers (pure functions of their seed) ----------
static inline u64 mix64(u64 x){ x+=0x9E3779B97F4A7C15ull; x=(x^(x>>30))*0xBF58476D1CE4E5B9ull; x=(x^(x>>27))*0x94D049BB133111EBull; return x^(x>>31); }
struct Rng { u64 s; explicit Rng(u64 seed):s(mix64(seed)^0x1234567){} u64 next(){ s+=0x9E3779B97F4A7C15ull; return mix64(s);} u64 below(u64 n){return n?next()%n:0;} void fill(void*p,size_t n){u8*b=(u8*)p; while(n>=8){u64 v=next();memcpy(b,&v,8);b+=8;n-=8;} if(n){u64 v=next();memcpy(b,&v,n);} } };

// ---------- shared run state: lives in MAP_SHARED memory, survives simulated process deaths ----------
enum { TAPE_MAX=1<<20, EVBUF_MAX=1<<17, NCOUNTERS=160, ARENA_SZ=96<<20 };
struct Counter { char name[44]; u64 v; };
struct Run {
  // configuration of this run
  char prop[8]; u64 idx; u64 seed; int replaying; int verbose; int thorough;
  // choice tape
  u32 ntape, tape_in_n; u64 rng;
  u64 tape[TAPE_MAX]; u64 tape_in[TAPE_MAX];
  // outcome
  int status;            // 0 running, 1 finished, 2 violation, 3 harness error
  char vclass[96]; char vmsg[1024];
  char finding[8][96]; int nfinding;      // known-finding candidates observed in this run (class keys)
  u64 hash; u64 sched_hash; u64 nontrivial;
  u64 steps, simtime_us, ops, switches, faults;
  int scenario;
  // simulated-process communication
  int in_op; int op_kind; int lib_exit_called; int lib_exit_code; int sig; u64 crash_step;
  char asan[256];
  // counters
  u32 ncounters; Counter counters[NCOUNTERS];
  // event log (text, for humans; the hash covers everything)
  u32 evn; char evbuf[EVBUF_MAX];
  // arena for data that must survive simulated process death
  u64 arena_used; u8 arena[ARENA_SZ] __attribute__((aligned(64)));
};
extern Run* R;

// choices. 0 is always the benign / simplest choice.
u64 draw(u64 n, const char* label);                 // uniform in [0,n)
u64 sdraw(u64 n, const char* label);                // stratified over run numbers
u64 sdrawk(u64 n, const char* label, u64 k, u64 K);   // stratified over (run number, k) with k<K
u64 rawdraw(u64 n, u64 v, const char* label);       // records v (mod n), replay overrides
bool chance(u32 num, u32 den, const char* label);   // true with num/den; recorded 0 = false
u64 logdraw(u64 maxv, const char* label);           // 0..maxv, log-uniform
u64 drawseed(const char* label);                    // 32-bit seed for payload data (0 -> fixed payload)

void ev(const char* fmt, ...) __attribute__((format(printf,1,2)));      // event: hashed and logged
void evh(u64 a, u64 b=0);                                              // event: hashed only
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf,2,3)));
[[noreturn]] void simerror(const char* fmt, ...) __attribute__((format(printf,1,2)));
void known(const char* cls);                        // candidate known finding (decided against the file by the driver)
void count(const char* name, u64 d=1);
void fault(const char* name);                       // counts fault.<name>, event-hashed
void* arena(size_t n, size_t align=16);             // shared memory, valid in all simulated processes of the run
u8* agarb(size_t n, u64 seed);                      // arena block filled with seeded garbage
u64 hashbytes(const void* p, size_t n);
std::string hex(const void*p,size_t n,size_t max=24);

// ---------- simulated processes ----------
enum { EX_OK=0, EX_VIOL=42, EX_ERR=43, EX_CRASHED=70, EX_LIBEXIT=71, EX_SIG=72, EX_ASAN=99 };
// Runs fn in a fresh simulated process (forked from the pristine or the current image). Returns EX_*.
int incarnate(const std::function<void()>& fn);
void set_crash_at(u64 steps_from_now);              // current simulated process dies at that instrumented step (0 = never)

// ---------- library calls ----------
void op_enter(int kind); void op_leave();           // brackets every library call: step accounting, hang budget
void paint_stack(u64 seed);                         // seeded garbage below the current frame
extern u64 g_step, g_trip, g_op_start;
extern int g_steps_scale;

// ---------- threads ----------
struct SchedCfg { int policy; u64 span; };
void sched_run(std::vector<std::function<void()>>& tasks, const SchedCfg& cfg);
bool sched_active();
int  sched_self();
void sched_yield_point();                           // explicit preemption point in shims
void sched_block_until(const std::function<bool()>& ready, const char* what);

// ---------- scenarios ----------
struct PropDef { const char* id; void (*scenario)(); u64 quick_runs; u64 thorough_runs; const char* rule; const char* variant; int quick_s; };
extern const PropDef PROPS[]; extern const int NPROPS;
