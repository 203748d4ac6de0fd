// Simulated operating system seen by the library.
#pragma once
#include "sim.h"
// ---- entropy ----
struct Ent {           // entropy stream of one library call
  u64 stream; int kind; u64 delivered; u32 calls, ncalls_total; u64 refpos;
  u32 eintr_left; i64 fail_from; u64 fail_after_bytes; int fail_err; bool failing; u32 after_fail; bool healed;
  u64 before_gate; bool gate; u64 flip_pos; u8 flip_mask;
};
struct EntPlan { u32 p_eintr, p_short, p_transient; u32 burst_max; u64 kernel_max; bool noise; u32 p_open, p_poll, p_close, p_big; };
extern EntPlan g_plan;
void ent_fill(const Ent& e, u64 pos, void* buf, size_t n);
Ent* ent_cur(); void ent_set(Ent* e);       // per simulated thread
// ---- memory ----
struct MemPlan { i64 fail_index; i64 fail_site; i64 fail_occ; i64 burst; u64 garbage; u64 fail_addr; };
extern MemPlan g_mem;
struct MemStat { u64 allocs, frees, live, live_bytes, failed, nsites; u64 site[64]; u64 site_n[64]; };
extern MemStat g_ms;
void mem_reset();                            // forget statistics, not blocks
typedef void (*free_hook_t)(void*,size_t); extern free_hook_t g_free_hook;
extern bool g_mem_dirty_reuse;
void* mem_live_block(int i,size_t*n);
// ---- legacy Linux device model ----
struct LegacyOS {
  int ioctl_mode;        // 0 works, 1 ENOTTY, 2 ENOSYS, 3 other error
  int proc_mode;         // 0 works, 1 cannot open, 2 garbage, 3 empty, 4 read error, 5 negative
  int random_open_err, urandom_open_err; // errno or 0 (persistent)
  int read_mode;         // 0 works, 1 EIO, 2 end of file
  i64 read_fail_after;   // bytes after which read_mode applies
  int ioctl_fail_after;  // calls after which ioctl fails (-1 never)
  int poll_mode;         // 0 works, 1 error EINVAL/ENOMEM, 2 returns 0
  int poll_fail_after, poll_zero;
  u64 grow_at[8]; int grow_to[8]; int ngrow; int level0; int wake;  // trajectory of the entropy estimate
  u64 now_us; u64 calls; u64 call_limit; int reported_max; int reports;
  int open_fds; int open_files; int bad_close; u64 fd_state; int foreign_closed; char trace[512];
};
extern LegacyOS g_old; void old_reset(); void old_sleep(u64 us);
extern u64 g_os_calls;
// ---- Windows model ----
struct WinOS { int bcrypt_fail; int acquire_fail; i64 gen_fail_after; int release_fail; int handles; int bad_release; u64 calls; u64 max_req; u64 bytes; int bcrypt_fail_after; };
extern WinOS g_win;
extern u64 g_static_stores; u64 mem_mark(); u64 lib_static_hash();
