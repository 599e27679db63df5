/* vsim: a process-level deterministic simulator.
 *
 * Everything nondeterministic that the ecma-rs code reaches goes through libc
 * symbols or through an instrumented basic block, and this file owns both:
 * threads, futexes, clocks, sleeping, randomness, CPU count, files, pipes and
 * child processes are simulated; one seed gives one execution. */
#ifndef VSIM_H
#define VSIM_H
#include <stdint.h>
#include <stddef.h>

enum vsim_site {
  S_SPURIOUS = 0,   /* futex wait returns without a wake (allowed by futex(2)) */
  S_CLOCKJUMP,      /* monotonic clock leaps forward (suspend, VM pause) */
  S_FS_OPEN,        /* EIO EACCES EMFILE EINTR */
  S_FS_READ,        /* EIO EINTR short */
  S_FS_WRITE,       /* EIO EINTR short ENOSPC */
  S_FS_META,        /* stat/mkdir/readdir/realpath: EIO EACCES */
  S_FS_SYNC,
  S_PIPE_READ,      /* EINTR short */
  S_PIPE_WRITE,     /* EINTR short */
  S_SPAWN,          /* EAGAIN ENOENT */
  S_STDOUT,         /* EINTR short EPIPE EIO */
  S_STDIN,          /* EINTR short EIO */
  S_STALL,          /* a preempted thread stays off the CPU for a while */
  S_THREADS,        /* pthread_create fails with EAGAIN */
  S_FS_SLOW,        /* a file operation takes long */
  S_REALTIME,       /* wall clock steps backwards/forwards */
  S_USER0 = 16,     /* scenario-level fault points */
  S_MAX = 64
};

enum { STRAT_NONE = 0, STRAT_QUANTUM, STRAT_PCT, STRAT_RARE, STRAT_REPLAY };

typedef struct {
  uint64_t seed;
  uint32_t strategy;
  uint32_t ncpu;
  uint64_t quantum;        /* mean ticks between preemptions */
  uint32_t pct_depth;
  uint64_t pct_len;        /* estimated run length in ticks */
  uint32_t rare_max;       /* edge counts as rare for its first N hits */
  uint32_t rare_ppm;       /* chance to preempt at a rare edge */
  uint32_t ns_per_tick_x16;/* virtual ns per tick, 1/16ths */
  uint64_t tick_budget;    /* 0 = unlimited */
  uint32_t fault_ppm[S_MAX];
  uint32_t fault_max[S_MAX]; /* at most this many firings per site (0 = no limit) */
  uint32_t fault_kinds[S_MAX]; /* bit k set: kind k may fire (0 = all) */
  uint64_t stall_ns;       /* longest stall */
  uint64_t jump_ns;        /* longest clock jump */
  uint32_t pipe_cap;
  uint32_t shuffle_wake;   /* futex wake order is random */
} vsim_cfg;

#endif
