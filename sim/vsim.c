/* See vsim.h. Compiled with gcc (not instrumented), linked into the harness. */
#define _GNU_SOURCE
#define _LARGEFILE64_SOURCE
#include "vsim.h"
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dirent.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

/* ------------------------------------------------------------------ raw */
static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static long ret_errno(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
static void raw_write_all(int fd, const char *p, size_t n) {
  while (n) {
    long r = raw(SYS_write, fd, (long)p, n, 0, 0, 0);
    if (r == -EINTR) continue;
    if (r <= 0) return;
    p += r; n -= r;
  }
}
static void __attribute__((noreturn)) raw_exit(int code) {
  for (;;) raw(SYS_exit_group, code, 0, 0, 0, 0, 0);
}
static uint64_t raw_mono(void) {
  struct timespec ts;
  raw(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0);
  return (uint64_t)ts.tv_sec * 1000000000ull + ts.tv_nsec;
}

/* ------------------------------------------------------------- PRNG/hash */
static uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
typedef struct { uint64_t s; } rng_t;
static uint64_t rnd(rng_t *r) { r->s += 0x9e3779b97f4a7c15ull; return mix(r->s); }

/* ------------------------------------------------------------- allocator
 * Fixed-address arena so that addresses, and everything hashed from them, are
 * the same in every process that runs the same seed. */
#define ARENA_BASE 0x200000000000ull
#define ARENA_SIZE (256ull << 30)
#define NCLS 200
static char *ar_cur, *ar_end;
static void *ar_free[NCLS];
static volatile int ar_lock;
static uint32_t cls_of(size_t n, size_t *sz) {
  if (n < 16) n = 16;
  if (n <= 256) { size_t c = (n + 15) / 16; *sz = c * 16; return (uint32_t)c; }
  int hb = 63 - __builtin_clzll(n - 1);      /* 2^hb < n <= 2^(hb+1) */
  size_t step = (size_t)1 << (hb - 2);
  size_t k = (n - ((size_t)1 << hb) + step - 1) / step; /* 1..4 */
  *sz = ((size_t)1 << hb) + k * step;
  return 17 + (uint32_t)(hb - 8) * 4 + (uint32_t)(k - 1);
}
typedef struct { uint32_t cls; uint32_t off; uint64_t req; } hdr_t;
static void ar_acquire(void) { while (__sync_lock_test_and_set(&ar_lock, 1)) raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
static void ar_release(void) { __sync_lock_release(&ar_lock); }
static void *ar_alloc(size_t n) {
  size_t sz;
  if (n > (64ull << 30)) return NULL;
  uint32_t c = cls_of(n, &sz);
  ar_acquire();
  if (!ar_cur) {
    long r = raw(SYS_mmap, (long)ARENA_BASE, (long)ARENA_SIZE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (r != (long)ARENA_BASE) { raw_write_all(2, "vsim: arena mmap failed\n", 24); raw_exit(99); }
    ar_cur = (char *)ARENA_BASE; ar_end = ar_cur + ARENA_SIZE;
  }
  char *p;
  if (ar_free[c]) { p = ar_free[c]; ar_free[c] = *(void **)(p + 16); }
  else {
    if (ar_cur + sz + 16 > ar_end) { ar_release(); return NULL; }
    p = ar_cur; ar_cur += sz + 16;
  }
  ar_release();
  hdr_t *h = (hdr_t *)p;
  h->cls = c; h->off = 0; h->req = n;
  return p + 16;
}
static size_t cls_size(uint32_t c) {
  if (c <= 16) return (size_t)c * 16;
  uint32_t hb = (c - 17) / 4 + 8, k = (c - 17) % 4 + 1;
  return ((size_t)1 << hb) + k * ((size_t)1 << (hb - 2));
}
void *malloc(size_t n) { void *p = ar_alloc(n); if (!p) errno = ENOMEM; return p; }
void free(void *p) {
  if (!p) return;
  hdr_t *h = (hdr_t *)((char *)p - 16);
  char *base = (char *)h - h->off;
  hdr_t *b = (hdr_t *)base;
  uint32_t c = b->cls;
  ar_acquire();
  *(void **)(base + 16) = ar_free[c]; ar_free[c] = base;
  ar_release();
}
void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
  void *p = malloc(n);
  if (p) memset(p, 0, n);
  return p;
}
size_t malloc_usable_size(void *p) {
  if (!p) return 0;
  hdr_t *h = (hdr_t *)((char *)p - 16);
  hdr_t *b = (hdr_t *)((char *)h - h->off);
  return cls_size(b->cls) - h->off;
}
void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  size_t have = malloc_usable_size(p);
  if (n <= have && n * 4 >= have) return p;
  void *q = malloc(n);
  if (!q) return NULL;
  memcpy(q, p, n < have ? n : have);
  free(p);
  return q;
}
static void *amalloc(size_t al, size_t n) {
  if (al <= 16) return malloc(n);
  char *p = malloc(n + al + 16);
  if (!p) return NULL;
  char *q = (char *)(((uintptr_t)p + 16 + al - 1) & ~(uintptr_t)(al - 1));
  hdr_t *h = (hdr_t *)(q - 16);
  uint32_t off = (uint32_t)((q - 16) - (p - 16));
  h->cls = 0; h->off = off;
  return q;
}
int posix_memalign(void **out, size_t al, size_t n) { void *p = amalloc(al, n); if (!p) return ENOMEM; *out = p; return 0; }
void *aligned_alloc(size_t al, size_t n) { return amalloc(al, n); }
void *memalign(size_t al, size_t n) { return amalloc(al, n); }
void *valloc(size_t n) { return amalloc(4096, n); }
void *pvalloc(size_t n) { return amalloc(4096, (n + 4095) & ~4095ull); }

/* simulator-private memory: must not disturb the addresses the program sees */
static char *meta_cur, *meta_end;
static void *zalloc(size_t n) {
  n = (n + 63) & ~(size_t)63;
  if (!meta_cur || meta_cur + n > meta_end) {
    size_t sz = n > (16u << 20) ? n : (16u << 20);
    long r = raw(SYS_mmap, 0, (long)sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (r < 0 && r > -4096) raw_exit(94);
    meta_cur = (char *)r; meta_end = meta_cur + sz;
  }
  void *p = meta_cur; meta_cur += n; return p;
}
static char *zdup(const char *s) { size_t n = strlen(s) + 1; char *p = zalloc(n); memcpy(p, s, n); return p; }
/* every run starts on a clean stretch of the arena, so that nothing before it matters */
static void ar_reset(uint64_t skew) {
  uint64_t at = ((uint64_t)ar_cur + (1ull << 30)) & ~((1ull << 30) - 1);
  ar_cur = (char *)(at + (skew & 0xfffff0));
  memset(ar_free, 0, sizeof ar_free);
}

/* -------------------------------------------------------------- threads */
enum { T_RUN, T_BLOCKED, T_DONE, T_DEAD };
#define MAXT 4096
typedef struct rec { uint64_t key, stall; int32_t to; } rec_t;
typedef struct T {
  int id, state, proc;
  volatile int go;
  uint64_t ticks, yseq, mseq;
  void *waddr; uint32_t wmask; uint64_t deadline; int woke; uint64_t wseq;
  uint64_t stall_until;
  uint64_t prio;
  pthread_t pt; void *(*fn)(void *); void *arg; void *ret;
  uint32_t done_word;
  rec_t *rs; int nrs, irs;   /* replay: preemptions */
  rec_t *rb; int nrb, irb;   /* replay: choices at blocking points */
  rec_t *rm; int nrm, irm;   /* replay: switches at wake/I-O points */
} T;
static T *thr[MAXT];
static int nthr;
static T *cur;
static int sim_on, active /* preemption and faults enabled */;
static vsim_cfg cfg;
static rng_t sched_rng;
static int64_t fuel = INT64_MAX, planned = INT64_MAX;
static uint64_t total_ticks, extra_ns, next_preempt, nswitch, npreempt, trace_hash, wait_seq, nclock;
static int want_preempt;
static uint64_t fault_ctr[S_MAX], fault_fired[S_MAX];
static uint64_t fault_arg;
static uint64_t budget_at;
static uint32_t last_guard;
static uint64_t pct_points[64]; static int npct, ipct; static uint64_t pct_low;
static pthread_key_t exit_key;
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);

/* procs */
#define MAXP 4096
typedef struct { int pid, alive, reaped, status; int fds[3]; uint32_t done_word; } P;
static P procs[MAXP]; static int nprocs = 1;

/* coverage */
#define MAXG (8u << 20)
static uint32_t nguards;
static uint8_t *hits;      /* per run, private */
static uint8_t *ucov;      /* shared with the parent: edges reached in any run */
static uint32_t run_edges;
static uint32_t rare_max_cur;

/* decision log in shared memory, so the parent can write it after a crash */
typedef struct { uint32_t kind, a; uint64_t b; int64_t c; uint64_t d; } logent;
#define MAXLOG (2u << 20)
typedef struct { volatile uint32_t n; uint32_t overflow; uint32_t nreplayops; uint32_t pad; logent e[]; } logbuf;
static logbuf *dlog;
static void logrec(uint32_t k, uint32_t a, uint64_t b, int64_t c, uint64_t d) {
  if (!dlog) return;
  uint32_t i = dlog->n;
  if (i >= MAXLOG) { dlog->overflow = 1; return; }
  dlog->e[i] = (logent){k, a, b, c, d};
  dlog->n = i + 1;
}

extern void vsim_rust_fail(const char *kind, const char *msg); /* reports and does not return */
extern int vsim_child_main(const char *file, const char **argv, int in, int out, int err);

static uint64_t mono_base = 1000000000000ull;
static uint64_t ticks_now(void) { return total_ticks + (uint64_t)(planned - fuel); }
static uint64_t vnow(void) { return mono_base + (ticks_now() * cfg.ns_per_tick_x16) / 16 + extra_ns; }
uint64_t vsim_now_ns(void) { return sim_on ? vnow() : raw_mono(); }
uint64_t vsim_ticks(void) { return ticks_now(); }

static void vacct(void) {
  uint64_t used = (uint64_t)(planned - fuel);
  total_ticks += used;
  if (cur) cur->ticks += used;
  planned = fuel = 0;
}
static uint64_t geo(uint64_t mean) { /* roughly geometric */
  uint64_t r = rnd(&sched_rng);
  double u = (double)((r >> 11) + 1) / 9007199254740993.0;
  double v = -(double)mean * __builtin_log(u);
  if (v < 1) v = 1;
  if (v > 1e15) v = 1e15;
  return (uint64_t)v;
}
static int stopping;
static void plan(void) {
  if (stopping) { planned = fuel = INT64_MAX / 2; return; }
  uint64_t lim = 1ull << 40;
  if (active) {
    if (cfg.strategy == STRAT_REPLAY) {
      while (cur->irs < cur->nrs && cur->rs[cur->irs].key < cur->ticks) cur->irs++;
      if (cur->irs < cur->nrs) {
        uint64_t d = cur->rs[cur->irs].key - cur->ticks;
        if (d < lim) lim = d;
      }
    } else if (cfg.strategy == STRAT_QUANTUM || cfg.strategy == STRAT_RARE) {
      uint64_t d = next_preempt > total_ticks ? next_preempt - total_ticks : 1;
      if (d < lim) lim = d;
    } else if (cfg.strategy == STRAT_PCT && ipct < npct) {
      uint64_t d = pct_points[ipct] > total_ticks ? pct_points[ipct] - total_ticks : 1;
      if (d < lim) lim = d;
    }
  }
  uint64_t now = vnow();
  for (int i = 0; i < nthr; i++) {
    T *t = thr[i];
    uint64_t at = 0;
    if (t->state == T_BLOCKED && t->deadline) at = t->deadline;
    else if (t->state == T_RUN && t->stall_until > now) at = t->stall_until;
    if (!at) continue;
    uint64_t d = at <= now ? 1 : ((at - now) * 16) / cfg.ns_per_tick_x16 + 1;
    if (d < lim) lim = d;
  }
  if (budget_at) { uint64_t d = budget_at > total_ticks ? budget_at - total_ticks : 1; if (d < lim) lim = d; }
  if (lim < 1) lim = 1;
  planned = fuel = (int64_t)lim;
}
static void wait_baton(T *t) {
  while (!t->go) raw(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  t->go = 0;
}
static void hash_in(uint64_t v) { trace_hash = mix(trace_hash ^ v); }
static void switch_to(T *n) {
  T *me = cur;
  if (n == me) { plan(); return; }
  nswitch++;
  hash_in(((uint64_t)n->id << 48) ^ total_ticks);
  cur = n;
  __sync_synchronize();
  n->go = 1;
  raw(SYS_futex, (long)&n->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
  wait_baton(me);
  plan();
}
static void fire_timers(void) {
  uint64_t now = vnow();
  for (int i = 0; i < nthr; i++) {
    T *t = thr[i];
    if (t->state == T_BLOCKED && t->deadline && t->deadline <= now) { t->state = T_RUN; t->woke = 1; t->deadline = 0; }
  }
}
static void fail_c(const char *kind, const char *msg);
static int runnable(T *t, uint64_t now) { return t->state == T_RUN && t->stall_until <= now; }
static T *best_prio(uint64_t now) {
  T *b = NULL;
  for (int i = 0; i < nthr; i++) if (runnable(thr[i], now) && (!b || thr[i]->prio > b->prio)) b = thr[i];
  return b;
}
/* choose who runs when `cur` blocks or yields */
static T *pick(void) {
  cur->yseq++;
  for (;;) {
    fire_timers();
    uint64_t now = vnow();
    int n = 0;
    static T *c[MAXT];
    T *def = NULL;
    for (int k = 1; k <= nthr; k++) {
      T *t = thr[(cur->id + k) % nthr];
      if (runnable(t, now)) { if (!def) def = t; c[n++] = t; }
    }
    if (n) {
      T *r = def;
      if (active && n > 1) {
        if (cfg.strategy == STRAT_REPLAY) {
          while (cur->irb < cur->nrb && cur->rb[cur->irb].key < cur->yseq) cur->irb++;
          if (cur->irb < cur->nrb && cur->rb[cur->irb].key == cur->yseq) {
            int to = cur->rb[cur->irb].to;
            if (to >= 0 && to < nthr && runnable(thr[to], now)) r = thr[to];
          }
        } else if (cfg.strategy == STRAT_PCT) r = best_prio(now);
        else if (cfg.strategy != STRAT_NONE) r = c[rnd(&sched_rng) % n];
      }
      if (active && r != def) logrec('B', cur->id, cur->yseq, r->id, 0);
      return r;
    }
    uint64_t at = 0;
    for (int i = 0; i < nthr; i++) {
      T *t = thr[i];
      uint64_t x = 0;
      if (t->state == T_BLOCKED && t->deadline) x = t->deadline;
      else if (t->state == T_RUN) x = t->stall_until;
      if (x && (!at || x < at)) at = x;
    }
    if (!at) {
      static char buf[1024];
      int o = snprintf(buf, sizeof buf, "every thread is blocked and no timer is pending:");
      for (int i = 0; i < nthr && o < 900; i++)
        if (thr[i]->state == T_BLOCKED) o += snprintf(buf + o, sizeof buf - o, " t%d", i);
      fail_c("deadlock", buf);
    }
    if (at > now) extra_ns += at - now;
  }
}
static uint64_t fault_hash(uint32_t site, uint64_t ctr) { return mix(mix(cfg.seed ^ 0x5eedfa17ull) ^ ((uint64_t)site << 56) ^ ctr); }
/* replayed faults */
typedef struct { uint32_t site; uint64_t ctr; uint32_t kind; } frec;
static frec *frs; static int nfrs;
static uint64_t *drops; static int ndrops;
static int faults_on;
static uint32_t kind_fired[S_MAX][16];
int vsim_fault(int site, int kinds) {
  if (!sim_on || !active || !faults_on || kinds <= 0) return 0;
  uint64_t c = fault_ctr[site]++;
  uint64_t h = fault_hash(site, c);
  int kind = 0;
  fault_arg = mix(h);
  if (cfg.strategy == STRAT_REPLAY) {
    for (int i = 0; i < nfrs; i++) if (frs[i].site == (uint32_t)site && frs[i].ctr == c) kind = frs[i].kind;
  } else if (cfg.fault_ppm[site] && h % 1000000 < cfg.fault_ppm[site] &&
             (!cfg.fault_max[site] || fault_fired[site] < cfg.fault_max[site])) {
    kind = 1 + (int)((h >> 32) % (uint64_t)kinds);
    if (cfg.fault_kinds[site]) {
      int c = 0, pick[32];
      for (int k = 1; k <= kinds && k < 32; k++) if (cfg.fault_kinds[site] >> k & 1) pick[c++] = k;
      kind = c ? pick[(h >> 32) % (uint64_t)c] : 0;
    }
  }
  if (kind) {
    fault_fired[site]++; if (kind < 16) kind_fired[site][kind]++;
    logrec('F', site, c, kind, 0);
    hash_in(((uint64_t)site << 32) ^ (c << 8) ^ kind);
  }
  return kind;
}
uint64_t vsim_fault_arg(void) { return fault_arg; }
int vsim_op_enabled(uint64_t i) {
  for (int k = 0; k < ndrops; k++) if (drops[k] == i) return 0;
  if (dlog && i + 1 > dlog->nreplayops) dlog->nreplayops = (uint32_t)(i + 1);
  return 1;
}

static void preempt_now(uint64_t rec_stall, int rec_to, char kind) {
  /* cur stays runnable; somebody else may run */
  uint64_t now = vnow();
  int n = 0;
  static T *c[MAXT];
  for (int k = 1; k < nthr; k++) {
    T *t = thr[(cur->id + k) % nthr];
    if (runnable(t, now)) c[n++] = t;
  }
  if (!n) return;
  T *r = NULL;
  uint64_t stall = 0;
  if (cfg.strategy == STRAT_REPLAY) {
    if (rec_to >= 0 && rec_to < nthr && runnable(thr[rec_to], now)) r = thr[rec_to];
    else r = c[0];
    stall = rec_stall;
    if (stall) fault_fired[S_STALL]++;
  } else if (cfg.strategy == STRAT_PCT) {
    cur->prio = pct_low--;
    r = best_prio(now);
    if (r == cur) return;
  } else {
    r = c[rnd(&sched_rng) % n];
    if (cfg.fault_ppm[S_STALL] && faults_on && rnd(&sched_rng) % 1000000 < cfg.fault_ppm[S_STALL] &&
        (!cfg.fault_max[S_STALL] || fault_fired[S_STALL] < cfg.fault_max[S_STALL])) {
      stall = 1 + rnd(&sched_rng) % (cfg.stall_ns ? cfg.stall_ns : 1);
      fault_fired[S_STALL]++;
    }
  }
  if (stall) { cur->stall_until = now + stall; }
  npreempt++;
  logrec(kind, cur->id, kind == 'M' ? cur->mseq : cur->ticks, r->id, stall);
  switch_to(r);
}
static void __attribute__((noinline)) slow(void) {
  if (!sim_on || stopping) { planned = fuel = INT64_MAX / 2; return; }
  vacct();
  fire_timers();
  if (budget_at && total_ticks >= budget_at) fail_c("no-progress", "the run did not finish within its step budget");
  int pre = 0; uint64_t st = 0; int to = -1;
  if (active) {
    if (cfg.strategy == STRAT_REPLAY) {
      if (cur->irs < cur->nrs && cur->rs[cur->irs].key == cur->ticks) {
        pre = 1; st = cur->rs[cur->irs].stall; to = cur->rs[cur->irs].to; cur->irs++;
      }
    } else if (cfg.strategy == STRAT_PCT) {
      if (ipct < npct && total_ticks >= pct_points[ipct]) { ipct++; pre = 1; }
      else { T *b = best_prio(vnow()); if (b && b != cur && b->prio > cur->prio) { /* a woken thread outranks us */
          npreempt++; logrec('S', cur->id, cur->ticks, b->id, 0); switch_to(b); return; } }
    } else if (cfg.strategy == STRAT_QUANTUM || cfg.strategy == STRAT_RARE) {
      if (want_preempt) { pre = 1; }
      if (total_ticks >= next_preempt) { pre = 1; next_preempt = total_ticks + geo(cfg.quantum); }
    }
    want_preempt = 0;
  }
  if (pre) {
    T *me = cur; (void)me;
    preempt_now(st, to, 'S');
  }
  plan();
}
static void __attribute__((noinline)) rare(uint32_t i) {
  uint8_t h = hits[i];
  if (h == 0) { run_edges++; if (ucov) ucov[i] = 1; }
  hits[i] = h + 1;
  if (active && cfg.strategy == STRAT_RARE && h < cfg.rare_max && rnd(&sched_rng) % 1000000 < cfg.rare_ppm) {
    want_preempt = 1;
    if (fuel > 1) { planned -= fuel - 1; fuel = 1; }
  }
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  uint32_t i = *g;
  if (__builtin_expect(sim_on && hits[i] < 8, 0)) rare(i);
  if (__builtin_expect(--fuel <= 0, 0)) { last_guard = i; slow(); }
}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  if (a == b || *a) return;
  for (uint32_t *x = a; x < b; x++) *x = ++nguards;
}

/* scheduling points that are not ticks */
static void yield_point(void) {
  vacct();
  if (active && cfg.strategy == STRAT_PCT) cur->prio = pct_low--;
  switch_to(pick());
}
/* block cur until woken or deadline (absolute vtime, 0 = none). returns 0 woken, 1 timeout */
static int block_on(void *addr, uint32_t mask, uint64_t deadline) {
  vacct();
  T *me = cur;
  me->state = T_BLOCKED; me->waddr = addr; me->wmask = mask; me->deadline = deadline; me->woke = 0; me->wseq = ++wait_seq;
  switch_to(pick());
  me->waddr = NULL;
  return me->woke;
}
static int wake_addr(void *addr, int n, uint32_t mask) {
  int done = 0;
  while (done < n) {
    T *b = NULL; int cnt = 0;
    for (int i = 0; i < nthr; i++) {
      T *t = thr[i];
      if (t->state == T_BLOCKED && t->waddr == addr && (t->wmask & mask)) {
        cnt++;
        if (!b || t->wseq < b->wseq) b = t;
      }
    }
    if (!b) break;
    if (cnt > 1 && cfg.shuffle_wake && active) {
      uint64_t h = mix(cfg.seed ^ 0x3a4e ^ nclock ^ (wait_seq << 20)) % cnt; int k = 0;
      for (int i = 0; i < nthr; i++) {
        T *t = thr[i];
        if (t->state == T_BLOCKED && t->waddr == addr && (t->wmask & mask) && (uint64_t)k++ == h) { b = t; break; }
      }
    }
    b->state = T_RUN; b->woke = 0; b->deadline = 0;
    done++;
  }
  if (done) { vacct(); plan(); }
  return done;
}
static void maybe_switch(void) { /* wakeups and I/O are interesting places to switch */
  if (!active || stopping) return;
  vacct();
  cur->mseq++;
  if (cfg.strategy == STRAT_QUANTUM || cfg.strategy == STRAT_RARE) {
    if (rnd(&sched_rng) % 8 == 0) { preempt_now(0, -1, 'M'); }
  } else if (cfg.strategy == STRAT_REPLAY) {
    while (cur->irm < cur->nrm && cur->rm[cur->irm].key < cur->mseq) cur->irm++;
    if (cur->irm < cur->nrm && cur->rm[cur->irm].key == cur->mseq) {
      rec_t *r = &cur->rm[cur->irm++];
      preempt_now(r->stall, r->to, 'M');
    }
  } else if (cfg.strategy == STRAT_PCT) {
    T *b = best_prio(vnow());
    if (b && b != cur && b->prio > cur->prio) { npreempt++; logrec('M', cur->id, cur->mseq, b->id, 0); switch_to(b); return; }
  }
  plan();
}

/* --------------------------------------------------------------- futex */
static uint64_t ts_ns(const struct timespec *t) { return (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec; }
static uint64_t real_off = 750000000000000000ull; /* CLOCK_REALTIME = monotonic + this */
static long sim_futex(uint32_t *u, int op, uint32_t val, const struct timespec *to, uint32_t val3) {
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (__atomic_load_n(u, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    uint64_t dl = 0;
    if (to) {
      dl = ts_ns(to);
      if (cmd == FUTEX_WAIT) dl += vnow();
      else if (op & FUTEX_CLOCK_REALTIME) dl -= real_off;
      if (dl <= vnow()) { errno = ETIMEDOUT; yield_point(); errno = ETIMEDOUT; return -1; }
      if (!dl) dl = 1;
    }
    if (vsim_fault(S_SPURIOUS, 2)) { int k = (int)(fault_arg & 1); yield_point(); if (k) { errno = EINTR; return -1; } return 0; }
    if (block_on(u, cmd == FUTEX_WAIT ? 0xffffffffu : val3, dl)) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    int n = wake_addr(u, (int)val < 0 ? INT_MAX : (int)val, cmd == FUTEX_WAKE ? 0xffffffffu : val3);
    if (n) maybe_switch();
    return n;
  }
  errno = ENOSYS;
  return -1;
}
static int sim_getrandom(void *p, size_t n);
long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (sim_on) {
    if (n == SYS_futex) return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f);
    if (n == SYS_gettid) return gettid();
    if (n == SYS_getrandom) return sim_getrandom((void *)a, (size_t)b);
  }
  return ret_errno(raw(n, a, b, c, d, e, f));
}

/* ------------------------------------------------------------- threads */
#define STACK_BASE 0x300000000000ull
#define STACK_SZ (256ull << 20)
static T *new_thread(int proc) {
  if (nthr >= MAXT) fail_c("harness", "too many threads");
  T *t = zalloc(sizeof *t);
  t->id = nthr; t->state = T_RUN; t->proc = proc;
  t->prio = 1000000000ull + rnd(&sched_rng) % 1000000000ull;
  if (cfg.strategy == STRAT_REPLAY && dlog) { /* filled by replay_attach */ }
  return t;
}
static rec_t *all_rs, *all_rb, *all_rm; static int *rs_tid, *rb_tid, *rm_tid; static int n_all_rs, n_all_rb, n_all_rm;
static void replay_attach(T *t) {
  int a = 0, b = 0, c = 0;
  for (int i = 0; i < n_all_rs; i++) a += rs_tid[i] == t->id;
  for (int i = 0; i < n_all_rb; i++) b += rb_tid[i] == t->id;
  for (int i = 0; i < n_all_rm; i++) c += rm_tid[i] == t->id;
  t->rm = zalloc((c + 1) * sizeof(rec_t));
  for (int i = 0; i < n_all_rm; i++) if (rm_tid[i] == t->id) t->rm[t->nrm++] = all_rm[i];
  t->rs = zalloc((a + 1) * sizeof(rec_t)); t->rb = zalloc((b + 1) * sizeof(rec_t));
  for (int i = 0; i < n_all_rs; i++) if (rs_tid[i] == t->id) t->rs[t->nrs++] = all_rs[i];
  for (int i = 0; i < n_all_rb; i++) if (rb_tid[i] == t->id) t->rb[t->nrb++] = all_rb[i];
}
static void thread_finished(void *v) {
  T *t = v;
  vacct();
  t->state = T_DONE;
  t->done_word = 1;
  wake_addr(&t->done_word, INT_MAX, ~0u);
  vacct();
  T *n = pick();
  nswitch++;
  hash_in(((uint64_t)n->id << 48) ^ total_ticks);
  cur = n;
  __sync_synchronize();
  n->go = 1;
  raw(SYS_futex, (long)&n->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
  for (;;) wait_baton(t); /* the OS thread parks for good; its stack stays reserved */
}
static void *tramp(void *v) {
  T *t = v;
  wait_baton(t);
  plan();
  pthread_setspecific(exit_key, t);
  t->ret = t->fn(t->arg);
  return t->ret; /* TLS destructors run (still simulated), then thread_finished */
}
static int spawn_os(T *t) {
  char *st = (char *)(STACK_BASE + (uint64_t)t->id * STACK_SZ);
  long r = raw(SYS_mmap, (long)st, (long)STACK_SZ, PROT_READ | PROT_WRITE,
               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE | MAP_STACK, -1, 0);
  if (r != (long)st) { raw_write_all(2, "vsim: stack mmap failed\n", 24); raw_exit(98); }
  raw(SYS_mprotect, (long)st, 65536, PROT_NONE, 0, 0, 0);
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, st + 65536, STACK_SZ - 65536);
  int e = real_pthread_create(&t->pt, &at, tramp, t);
  pthread_attr_destroy(&at);
  return e;
}
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (!real_pthread_create) real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!sim_on) return real_pthread_create(out, attr, fn, arg);
  if (vsim_fault(S_THREADS, 1)) return EAGAIN;
  T *t = new_thread(cur->proc);
  t->fn = fn; t->arg = arg;
  if (cfg.strategy == STRAT_REPLAY) replay_attach(t);
  thr[nthr++] = t;
  int e = spawn_os(t);
  if (e) { fail_c("harness", "pthread_create failed"); }
  *out = t->pt;
  maybe_switch();
  return 0;
}
static T *by_pt(pthread_t p) { for (int i = 0; i < nthr; i++) if (thr[i]->pt == p) return thr[i]; return NULL; }
int pthread_join(pthread_t p, void **ret) {
  if (!sim_on) { static int (*rj)(pthread_t, void **); if (!rj) rj = dlsym(RTLD_NEXT, "pthread_join"); return rj(p, ret); }
  T *t = by_pt(p);
  while (t && t->state != T_DONE) { if (t->state == T_DEAD) { for (;;) block_on((void *)&t->go, 0, 0); } block_on(&t->done_word, ~0u, 0); }
  if (ret && t) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t p) {
  if (!sim_on) { static int (*rd)(pthread_t); if (!rd) rd = dlsym(RTLD_NEXT, "pthread_detach"); return rd(p); }
  return 0;
}
/* our stacks have a guard region of their own; std insists on being told about one */
int pthread_attr_getguardsize(const pthread_attr_t *a, size_t *out) {
  static int (*rg)(const pthread_attr_t *, size_t *);
  if (!rg) rg = dlsym(RTLD_NEXT, "pthread_attr_getguardsize");
  int r = rg(a, out);
  if (!r && *out == 0) *out = 4096;
  return r;
}
pid_t gettid(void) { return sim_on && cur ? 5000 + cur->id : (pid_t)raw(SYS_gettid, 0, 0, 0, 0, 0, 0); }
int sched_yield(void) { if (!sim_on) return (int)raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0); yield_point(); return 0; }

/* --------------------------------------------------------------- time */
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!sim_on) return (int)ret_errno(raw(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0));
  nclock++;
  extra_ns += 25;
  if (vsim_fault(S_CLOCKJUMP, 1)) extra_ns += fault_arg % (cfg.jump_ns ? cfg.jump_ns : 1);
  uint64_t n = vnow();
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
    n += real_off;
    if (vsim_fault(S_REALTIME, 1)) n -= fault_arg % 3600000000000ull;
  }
  ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull;
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *rq, struct timespec *rm) {
  if (!sim_on) return (int)-raw(SYS_clock_nanosleep, c, fl, (long)rq, (long)rm, 0, 0);
  uint64_t dl = ts_ns(rq);
  if (!(fl & TIMER_ABSTIME)) dl += vnow();
  if (dl <= vnow()) { yield_point(); return 0; }
  block_on((void *)&c, 0, dl);
  if (rm && !(fl & TIMER_ABSTIME)) { rm->tv_sec = 0; rm->tv_nsec = 0; }
  return 0;
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
  if (!sim_on) return (int)ret_errno(raw(SYS_nanosleep, (long)rq, (long)rm, 0, 0, 0, 0));
  return clock_nanosleep(CLOCK_MONOTONIC, 0, rq, rm);
}
void vsim_sleep_ns(uint64_t ns) { struct timespec t = {ns / 1000000000ull, ns % 1000000000ull}; nanosleep(&t, NULL); }
void vsim_advance_ns(uint64_t ns) { extra_ns += ns; vacct(); fire_timers(); plan(); }

/* ---------------------------------------------------------- randomness */
static uint64_t rand_ctr;
static int sim_getrandom(void *p, size_t n) {
  char *q = p;
  for (size_t i = 0; i < n; i += 8) {
    uint64_t v = mix(mix(cfg.seed ^ 0x4a5d) ^ rand_ctr++);
    memcpy(q + i, &v, n - i < 8 ? n - i : 8);
  }
  return (int)n;
}
ssize_t getrandom(void *p, size_t n, unsigned fl) {
  if (!sim_on) { /* even outside a run: hash seeds must not vary between processes */
    char *q = p; static uint64_t ctr;
    for (size_t i = 0; i < n; i += 8) { uint64_t v = mix(0xb007 + ctr++); memcpy(q + i, &v, n - i < 8 ? n - i : 8); }
    return n;
  }
  return sim_getrandom(p, n);
}
int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
  uint32_t n = sim_on && cfg.ncpu ? cfg.ncpu : 4;
  memset(set, 0, sz);
  for (uint32_t i = 0; i < n; i++) ((unsigned char *)set)[i / 8] |= 1u << (i % 8);
  return 0;
}
long sysconf(int name) {
  if (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) return sim_on && cfg.ncpu ? cfg.ncpu : 4;
  static long (*rs)(int);
  if (!rs) rs = dlsym(RTLD_NEXT, "sysconf");
  return rs(name);
}

/* ------------------------------------------------------------- memfs */
typedef struct node { char *path; int dir, gone; char *data; size_t len, cap; size_t synced; uint64_t ino; } node;
#define MAXN 8192
static node *nodes[MAXN]; static int nnodes;
static char *mounts[16]; static int nmounts;
static char vcwd[256] = "/vsim";
static uint64_t fs_capacity = ~0ull;
static int fs_frozen, fs_readdir_shuffle;
static uint64_t fs_crash_after; /* durable bytes-ops until the simulated power cut */
static uint64_t fs_writes;
#define FDBASE 1000
#define MAXFD 4096
enum { K_FREE, K_FILE, K_PR, K_PW, K_NULL };
typedef struct pipe_s { char *b; size_t cap, r, n; int readers, writers; uint32_t ev; } pipe_t_;
typedef struct { int kind, refs; node *nd; size_t off; int flags; pipe_t_ *p; } desc;
static desc *fdt[MAXFD];
static uint32_t io_ev;

static int norm(const char *in, char *out) {
  char tmp[PATH_MAX];
  if (in[0] == '/') snprintf(tmp, sizeof tmp, "%s", in); else snprintf(tmp, sizeof tmp, "%s/%s", vcwd, in);
  char *o = out; *o = 0;
  for (char *s = tmp; *s;) {
    while (*s == '/') s++;
    if (!*s) break;
    char *e = s; while (*e && *e != '/') e++;
    size_t n = e - s;
    if (n == 1 && s[0] == '.') {}
    else if (n == 2 && s[0] == '.' && s[1] == '.') { while (o > out && *--o != '/'); *o = 0; }
    else { *o++ = '/'; memcpy(o, s, n); o += n; *o = 0; }
    s = e;
  }
  if (o == out) { out[0] = '/'; out[1] = 0; }
  return 0;
}
static int under(const char *p, const char *m) { size_t n = strlen(m); return !strncmp(p, m, n) && (p[n] == 0 || p[n] == '/'); }
static int virt(const char *in, char *out) {
  norm(in, out);
  for (int i = 0; i < nmounts; i++) if (under(out, mounts[i])) return 1;
  return 0;
}
static node *nfind(const char *p) { for (int i = 0; i < nnodes; i++) if (!nodes[i]->gone && !strcmp(nodes[i]->path, p)) return nodes[i]; return NULL; }
static node *nmake(const char *p, int dir) {
  if (nnodes >= MAXN) { fail_c("harness", "memfs full"); }
  node *n = zalloc(sizeof *n); n->path = zdup(p); n->dir = dir; n->ino = 100 + nnodes; nodes[nnodes++] = n; return n;
}
static int parent_ok(const char *p) { /* parent directory exists */
  char b[PATH_MAX]; snprintf(b, sizeof b, "%s", p);
  char *s = strrchr(b, '/'); if (!s || s == b) return 1;
  *s = 0;
  for (int i = 0; i < nmounts; i++) if (!strcmp(b, mounts[i])) return 1;
  node *n = nfind(b); return n && n->dir;
}
void vsim_fs_mount(const char *p) { mounts[nmounts++] = zdup(p); if (!nfind(p)) nmake(p, 1); }
void vsim_fs_mkdirs(const char *p) {
  char b[PATH_MAX]; norm(p, b);
  for (char *s = b + 1; *s; s++) if (*s == '/') { *s = 0; if (!nfind(b)) { char t[PATH_MAX]; if (virt(b, t)) nmake(b, 1); } *s = '/'; }
  if (!nfind(b)) nmake(b, 1);
}
static uint64_t fs_used(void) { uint64_t u = 0; for (int i = 0; i < nnodes; i++) if (!nodes[i]->gone) u += nodes[i]->len; return u; }
static void nset(node *n, size_t len) { if (len > n->cap) { size_t nc = len * 2 + 64; char *nd = zalloc(nc); if (n->len) memcpy(nd, n->data, n->len); n->data = nd; n->cap = nc; } if (len > n->len) memset(n->data + n->len, 0, len - n->len); n->len = len; }
void vsim_fs_put(const char *p, const char *d, size_t len) {
  char b[PATH_MAX]; norm(p, b);
  char par[PATH_MAX]; snprintf(par, sizeof par, "%s", b); char *s = strrchr(par, '/'); if (s && s != par) { *s = 0; vsim_fs_mkdirs(par); }
  node *n = nfind(b); if (!n) n = nmake(b, 0);
  nset(n, len); if (len) memcpy(n->data, d, len); n->synced = len;
}
/* returns length or -1; data pointer through out */
long vsim_fs_get(const char *p, const char **out) { char b[PATH_MAX]; norm(p, b); node *n = nfind(b); if (!n || n->dir) return -1; *out = n->data; return (long)n->len; }
void vsim_fs_del(const char *p) { char b[PATH_MAX]; norm(p, b); for (int i = 0; i < nnodes; i++) if (!nodes[i]->gone && under(nodes[i]->path, b)) nodes[i]->gone = 1; }
long vsim_fs_nth(long i, const char **path) { long k = 0; for (int j = 0; j < nnodes; j++) if (!nodes[j]->gone && !nodes[j]->dir) { if (k++ == i) { *path = nodes[j]->path; return 1; } } return 0; }
void vsim_fs_capacity(uint64_t n) { fs_capacity = n == ~0ull ? n : fs_used() + n; }
void vsim_fs_freeze(int on) { fs_frozen = on; }
void vsim_fs_crash_after(uint64_t nwrites) { fs_crash_after = nwrites ? fs_writes + nwrites : 0; }
int vsim_fs_crashed(void) { return fs_frozen; }
uint64_t vsim_fs_write_count(void) { return fs_writes; }
void vsim_fs_shuffle(int on) { fs_readdir_shuffle = on; }
void vsim_set_cwd(const char *p) { snprintf(vcwd, sizeof vcwd, "%s", p); }
/* a power cut: files lose a suffix that was never synced, chosen by the seed */
void vsim_fs_powercut(void) {
  for (int i = 0; i < nnodes; i++) {
    node *n = nodes[i];
    if (n->gone || n->dir || n->len <= n->synced) continue;
    uint64_t lost = mix(cfg.seed ^ 0xc4a5 ^ n->ino) % (n->len - n->synced + 1);
    n->len -= lost; n->synced = n->len;
  }
  fs_frozen = 0; fs_crash_after = 0;
}
static int fs_slow(void) { if (vsim_fault(S_FS_SLOW, 1)) vsim_sleep_ns(1 + fault_arg % (cfg.stall_ns ? cfg.stall_ns : 1)); return 0; }

static int fd_alloc(desc *d) { for (int i = 0; i < MAXFD; i++) if (!fdt[i]) { fdt[i] = d; d->refs++; return FDBASE + i; } errno = EMFILE; return -1; }
static desc *fd_get(int fd) { if (fd < FDBASE || fd >= FDBASE + MAXFD) return NULL; return fdt[fd - FDBASE]; }
static void io_changed(pipe_t_ *p) { p->ev++; wake_addr(&p->ev, INT_MAX, ~0u); io_ev++; wake_addr(&io_ev, INT_MAX, ~0u); }
static void desc_put(desc *d) {
  if (--d->refs) return;
  if (d->kind == K_PR) { d->p->readers--; if (sim_on) io_changed(d->p); }
  if (d->kind == K_PW) { d->p->writers--; if (sim_on) io_changed(d->p); }
}

#define PASS(n, a, b, c, d) ret_errno(raw(n, (long)(a), (long)(b), (long)(c), (long)(d), 0, 0))
static int hidden(const char *p) { return under(p, "/proc") || under(p, "/sys"); }

static int do_open(const char *path, int fl, mode_t mode) {
  char p[PATH_MAX];
  if (!sim_on) return (int)PASS(SYS_open, path, fl, mode, 0);
  if (!virt(path, p)) {
    if (hidden(p)) { errno = ENOENT; return -1; }
    if ((fl & O_ACCMODE) != O_RDONLY && strcmp(p, "/dev/null")) { errno = EROFS; return -1; }
    return (int)PASS(SYS_open, path, fl, mode, 0);
  }
  fs_slow();
  int k = vsim_fault(S_FS_OPEN, 4);
  if (k) { static int es[] = {EIO, EACCES, EMFILE, EINTR}; errno = es[k - 1]; return -1; }
  node *n = nfind(p);
  if (n && n->dir) { if ((fl & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; } }
  if (!n) {
    if (!(fl & O_CREAT)) { errno = ENOENT; return -1; }
    if (!parent_ok(p)) { errno = ENOENT; return -1; }
    if (!fs_frozen) { fs_writes++; if (fs_crash_after && fs_writes >= fs_crash_after) fs_frozen = 1; }
    if (fs_frozen) { n = zalloc(sizeof *n); n->path = zdup(p); } else n = nmake(p, 0);
  } else {
    if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
    if ((fl & O_TRUNC) && (fl & O_ACCMODE) != O_RDONLY) {
      if (!fs_frozen) { fs_writes++; if (fs_crash_after && fs_writes >= fs_crash_after) fs_frozen = 1; }
      if (!fs_frozen) { n->len = 0; n->synced = 0; }
    }
  }
  desc *d = zalloc(sizeof *d); d->kind = K_FILE; d->nd = n; d->flags = fl;
  maybe_switch();
  return fd_alloc(d);
}
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap); return do_open(p, fl, m); }
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap); return do_open(p, fl, m); }
int close(int fd) {
  desc *d = fd_get(fd);
  if (!d) { if (sim_on && fd < 3) return 0; return (int)PASS(SYS_close, fd, 0, 0, 0); }
  fdt[fd - FDBASE] = NULL; desc_put(d);
  if (sim_on) maybe_switch();
  return 0;
}

/* stdio of the simulated process */
static char *so_buf[3]; static size_t so_len[3], so_cap[3]; static int so_broken[3];
static const char *si_buf; static size_t si_len, si_off; static int si_hang;
void vsim_stdin(const char *d, size_t n, int hang) { char *b = zalloc(n + 1); memcpy(b, d, n); si_buf = b; si_len = n; si_off = 0; si_hang = hang; }
long vsim_stdout(int which, const char **out) { *out = so_buf[which]; return (long)so_len[which]; }
void vsim_stdio_reset(void) { for (int i = 0; i < 3; i++) { so_len[i] = 0; so_broken[i] = 0; } }
static ssize_t so_write(int fd, const void *b, size_t n) {
  int i = fd;
  if (i == 1) {
    if (so_broken[1]) { errno = so_broken[1]; return -1; }
    int k = vsim_fault(S_STDOUT, 4);
    if (k == 1) { errno = EINTR; return -1; }
    if (k == 2 && n > 1) n = 1 + fault_arg % (n - 1);
    if (k == 3) { so_broken[1] = EPIPE; errno = EPIPE; return -1; }
    if (k == 4) { so_broken[1] = ENOSPC; errno = ENOSPC; return -1; }
  }
  if (so_len[i] + n > so_cap[i]) { size_t nc = (so_len[i] + n) * 2 + 256; char *nb = zalloc(nc); if (so_len[i]) memcpy(nb, so_buf[i], so_len[i]); so_buf[i] = nb; so_cap[i] = nc; }
  memcpy(so_buf[i] + so_len[i], b, n); so_len[i] += n;
  return n;
}
static ssize_t pipe_read(desc *d, void *b, size_t n) {
  pipe_t_ *p = d->p;
  int k = vsim_fault(S_PIPE_READ, 2);
  if (k == 1) { errno = EINTR; return -1; }
  if (k == 2 && n > 1) n = 1 + fault_arg % (n < 7 ? n - 1 : 7);
  while (!p->n) {
    if (!p->writers) return 0;
    if (d->flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
    block_on(&p->ev, ~0u, 0);
  }
  size_t m = n < p->n ? n : p->n;
  for (size_t i = 0; i < m; i++) ((char *)b)[i] = p->b[(p->r + i) % p->cap];
  p->r = (p->r + m) % p->cap; p->n -= m;
  io_changed(p); maybe_switch();
  return m;
}
static ssize_t pipe_write(desc *d, const void *b, size_t n) {
  pipe_t_ *p = d->p;
  int k = vsim_fault(S_PIPE_WRITE, 2);
  if (k == 1) { errno = EINTR; return -1; }
  if (k == 2 && n > 1) n = 1 + fault_arg % (n - 1);
  if (!n) return 0;
  for (;;) {
    if (!p->readers) { errno = EPIPE; return -1; }
    if (p->n < p->cap) break;
    if (d->flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
    block_on(&p->ev, ~0u, 0);
  }
  size_t m = n < p->cap - p->n ? n : p->cap - p->n;
  for (size_t i = 0; i < m; i++) p->b[(p->r + p->n + i) % p->cap] = ((const char *)b)[i];
  p->n += m;
  io_changed(p); maybe_switch();
  return m;
}
static ssize_t file_read(desc *d, void *b, size_t n, size_t *off) {
  fs_slow();
  int k = vsim_fault(S_FS_READ, 3);
  if (k == 1) { errno = EIO; return -1; }
  if (k == 2) { errno = EINTR; return -1; }
  if (d->nd->dir) { errno = EISDIR; return -1; }
  size_t left = *off < d->nd->len ? d->nd->len - *off : 0;
  if (n > left) n = left;
  if (k == 3 && n > 1) n = 1 + fault_arg % (n - 1);
  memcpy(b, d->nd->data + *off, n); *off += n;
  maybe_switch();
  return n;
}
static ssize_t file_write(desc *d, const void *b, size_t n) {
  fs_slow();
  int k = vsim_fault(S_FS_WRITE, 4);
  if (k == 1) { errno = EIO; return -1; }
  if (k == 2) { errno = EINTR; return -1; }
  if (k == 3 && n > 1) n = 1 + fault_arg % (n - 1);
  if (k == 4) { errno = ENOSPC; return -1; }
  if (!n) return 0;
  if (fs_capacity != ~0ull) {
    uint64_t u = fs_used();
    if (u >= fs_capacity) { errno = ENOSPC; fault_fired[S_FS_WRITE]++; return -1; }
    if (u + n > fs_capacity) n = fs_capacity - u;
  }
  if (!fs_frozen) { fs_writes++; if (fs_crash_after && fs_writes >= fs_crash_after) {
      /* the power goes while this write is under way: a prefix may reach the disk */
      size_t m = mix(cfg.seed ^ 0x70c4) % (n + 1);
      if (d->flags & O_APPEND) d->off = d->nd->len;
      if (d->off + m > d->nd->len) nset(d->nd, d->off + m);
      memcpy(d->nd->data + d->off, b, m);
      fs_frozen = 1;
  } }
  if (fs_frozen) { d->off += n; return n; }
  if (d->flags & O_APPEND) d->off = d->nd->len;
  if (d->off + n > d->nd->len) nset(d->nd, d->off + n);
  memcpy(d->nd->data + d->off, b, n); d->off += n;
  maybe_switch();
  return n;
}
ssize_t read(int fd, void *b, size_t n) {
  desc *d = fd_get(fd);
  if (!d) {
    if (sim_on && fd == 0) {
      int k = vsim_fault(S_STDIN, 3);
      if (k == 1) { errno = EINTR; return -1; }
      if (k == 3) { errno = EIO; return -1; }
      size_t left = si_len - si_off;
      if (!left && si_hang) for (;;) block_on((void *)&si_buf, 0, 0);
      if (n > left) n = left;
      if (k == 2 && n > 1) n = 1 + fault_arg % (n - 1);
      memcpy(b, si_buf + si_off, n); si_off += n;
      return n;
    }
    return PASS(SYS_read, fd, b, n, 0);
  }
  if (d->kind == K_FILE) return file_read(d, b, n, &d->off);
  if (d->kind == K_PR) return pipe_read(d, b, n);
  errno = EBADF; return -1;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  desc *d = fd_get(fd);
  if (!d) return PASS(SYS_pread64, fd, b, n, o);
  size_t off = o; return file_read(d, b, n, &off);
}
ssize_t write(int fd, const void *b, size_t n) {
  desc *d = fd_get(fd);
  if (!d) { if (sim_on && (fd == 1 || fd == 2)) return so_write(fd, b, n); return PASS(SYS_write, fd, b, n, 0); }
  if (d->kind == K_FILE) return file_write(d, b, n);
  if (d->kind == K_PW) return pipe_write(d, b, n);
  errno = EBADF; return -1;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  desc *d = fd_get(fd);
  if (!d && !(sim_on && (fd == 1 || fd == 2))) return PASS(SYS_writev, fd, v, c, 0);
  ssize_t t = 0;
  for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
  return t;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  desc *d = fd_get(fd);
  if (!d && !(sim_on && fd == 0)) return PASS(SYS_readv, fd, v, c, 0);
  ssize_t t = 0;
  for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
  return t;
}
off64_t lseek64(int fd, off64_t o, int w) {
  desc *d = fd_get(fd);
  if (!d) return PASS(SYS_lseek, fd, o, w, 0);
  if (d->kind != K_FILE) { errno = ESPIPE; return -1; }
  d->off = w == SEEK_SET ? o : w == SEEK_CUR ? d->off + o : d->nd->len + o;
  return d->off;
}
static void fill_stat(node *n, struct stat64 *s) {
  memset(s, 0, sizeof *s);
  s->st_mode = n->dir ? S_IFDIR | 0755 : S_IFREG | 0644; s->st_size = n->len; s->st_ino = n->ino; s->st_dev = 77; s->st_nlink = 1; s->st_blksize = 4096;
}
static int meta_fault(void) {
  fs_slow();
  int k = vsim_fault(S_FS_META, 2);
  if (k) { errno = k == 1 ? EIO : EACCES; return -1; }
  return 0;
}
static int vstat(const char *path, struct stat64 *s, int *handled) {
  char p[PATH_MAX];
  *handled = 0;
  if (!sim_on) return 0;
  if (!virt(path, p)) { if (hidden(p)) { *handled = 1; errno = ENOENT; return -1; } return 0; }
  *handled = 1;
  if (meta_fault()) return -1;
  node *n = nfind(p);
  if (!n) { errno = ENOENT; return -1; }
  fill_stat(n, s);
  return 0;
}
int stat64(const char *p, struct stat64 *s) { int h, r = vstat(p, s, &h); return h ? r : (int)PASS(SYS_stat, p, s, 0, 0); }
int lstat64(const char *p, struct stat64 *s) { int h, r = vstat(p, s, &h); return h ? r : (int)PASS(SYS_lstat, p, s, 0, 0); }
int fstat64(int fd, struct stat64 *s) {
  desc *d = fd_get(fd);
  if (!d) { if (sim_on && fd < 3) { memset(s, 0, sizeof *s); s->st_mode = S_IFIFO | 0600; return 0; } return (int)PASS(SYS_fstat, fd, s, 0, 0); }
  if (d->kind == K_FILE) fill_stat(d->nd, s); else { memset(s, 0, sizeof *s); s->st_mode = S_IFIFO | 0600; }
  return 0;
}
int stat(const char *p, struct stat *s) { return stat64(p, (struct stat64 *)s); }
int lstat(const char *p, struct stat *s) { return lstat64(p, (struct stat64 *)s); }
int fstat(int fd, struct stat *s) { return fstat64(fd, (struct stat64 *)s); }
int statx(int dfd, const char *restrict path, int fl, unsigned mask, struct statx *restrict x) {
  struct stat64 s; int h = 0, r = 0;
  __asm__("" : "+r"(path), "+r"(x)); /* declared nonnull, but std probes for the call with null pointers */
  if (!x || !path) { errno = EFAULT; return -1; }
  if (sim_on) {
    if ((fl & AT_EMPTY_PATH) && (!path || !*path)) { desc *d = fd_get(dfd); if (d || dfd < 3) { h = 1; r = fstat64(dfd, &s); } }
    else if (path && (path[0] == '/' || dfd == AT_FDCWD)) r = vstat(path, &s, &h);
  }
  if (!h) return (int)ret_errno(raw(SYS_statx, dfd, (long)path, fl, mask, (long)x, 0));
  if (r) return r;
  memset(x, 0, sizeof *x);
  x->stx_mask = STATX_BASIC_STATS; x->stx_mode = s.st_mode; x->stx_size = s.st_size; x->stx_ino = s.st_ino; x->stx_nlink = 1; x->stx_blksize = 4096; x->stx_dev_major = 77;
  return 0;
}
int access(const char *path, int m) { struct stat64 s; int h, r = vstat(path, &s, &h); return h ? r : (int)PASS(SYS_access, path, m, 0, 0); }
int faccessat(int dfd, const char *path, int m, int fl) { if (dfd == AT_FDCWD || path[0] == '/') return access(path, m); return (int)PASS(SYS_faccessat, dfd, path, m, 0); }
static int fs_mut(void) { if (!fs_frozen) { fs_writes++; if (fs_crash_after && fs_writes >= fs_crash_after) fs_frozen = 1; } return fs_frozen; }
int mkdir(const char *path, mode_t m) {
  char p[PATH_MAX];
  if (!sim_on) return (int)PASS(SYS_mkdir, path, m, 0, 0);
  if (!virt(path, p)) { node dummy; (void)dummy; struct stat64 s; if (!PASS(SYS_stat, p, &s, 0, 0)) { errno = EEXIST; return -1; } errno = EROFS; return -1; }
  if (meta_fault()) return -1;
  if (nfind(p)) { errno = EEXIST; return -1; }
  if (!parent_ok(p)) { errno = ENOENT; return -1; }
  if (fs_mut()) return 0;
  nmake(p, 1); return 0;
}
int unlink(const char *path) {
  char p[PATH_MAX];
  if (!sim_on) return (int)PASS(SYS_unlink, path, 0, 0, 0);
  if (!virt(path, p)) { errno = EROFS; return -1; }
  if (meta_fault()) return -1;
  node *n = nfind(p); if (!n) { errno = ENOENT; return -1; }
  if (n->dir) { errno = EISDIR; return -1; }
  if (fs_mut()) return 0;
  n->gone = 1; return 0;
}
int rmdir(const char *path) {
  char p[PATH_MAX];
  if (!sim_on) return (int)PASS(SYS_rmdir, path, 0, 0, 0);
  if (!virt(path, p)) { errno = EROFS; return -1; }
  if (meta_fault()) return -1;
  node *n = nfind(p); if (!n) { errno = ENOENT; return -1; }
  for (int i = 0; i < nnodes; i++) if (!nodes[i]->gone && nodes[i] != n && under(nodes[i]->path, p)) { errno = ENOTEMPTY; return -1; }
  if (fs_mut()) return 0;
  n->gone = 1; return 0;
}
int rename(const char *a, const char *b) {
  char p[PATH_MAX], q[PATH_MAX];
  if (!sim_on) return (int)PASS(SYS_rename, a, b, 0, 0);
  int va = virt(a, p), vb = virt(b, q);
  if (!va || !vb) { errno = va || vb ? EXDEV : EROFS; return -1; }
  if (meta_fault()) return -1;
  node *n = nfind(p); if (!n) { errno = ENOENT; return -1; }
  if (!parent_ok(q)) { errno = ENOENT; return -1; }
  if (fs_mut()) return 0;
  node *o = nfind(q); if (o && o != n) o->gone = 1;
  size_t pl = strlen(p);
  for (int i = 0; i < nnodes; i++) if (!nodes[i]->gone && nodes[i] != n && under(nodes[i]->path, p)) {
    char t[PATH_MAX * 2]; snprintf(t, sizeof t, "%s%s", q, nodes[i]->path + pl); nodes[i]->path = zdup(t); }
  n->path = zdup(q);
  return 0;
}
static int sync_fd(int fd) {
  desc *d = fd_get(fd);
  if (!d) return (int)PASS(SYS_fsync, fd, 0, 0, 0);
  if (vsim_fault(S_FS_SYNC, 1)) { errno = EIO; return -1; }
  if (d->kind == K_FILE && !fs_frozen) d->nd->synced = d->nd->len;
  return 0;
}
int fsync(int fd) { return sync_fd(fd); }
int fdatasync(int fd) { return sync_fd(fd); }
int ftruncate64(int fd, off64_t n) { desc *d = fd_get(fd); if (!d) return (int)PASS(SYS_ftruncate, fd, n, 0, 0); if (fs_mut()) return 0; nset(d->nd, n); if (d->nd->synced > d->nd->len) d->nd->synced = d->nd->len; return 0; }
int fchmod(int fd, mode_t m) { desc *d = fd_get(fd); if (!d) return (int)PASS(SYS_fchmod, fd, m, 0, 0); return 0; }
ssize_t copy_file_range(int a, off64_t *oa, int b, off64_t *ob, size_t n, unsigned fl) {
  if (fd_get(a) || fd_get(b)) { errno = EXDEV; return -1; }
  return ret_errno(raw(SYS_copy_file_range, a, (long)oa, b, (long)ob, n, fl));
}
ssize_t sendfile64(int a, int b, off64_t *o, size_t n) { if (fd_get(a) || fd_get(b)) { errno = EINVAL; return -1; } return PASS(SYS_sendfile, a, b, o, n); }
ssize_t splice(int a, off64_t *oa, int b, off64_t *ob, size_t n, unsigned fl) {
  if (fd_get(a) || fd_get(b)) { errno = EINVAL; return -1; }
  return ret_errno(raw(SYS_splice, a, (long)oa, b, (long)ob, n, fl));
}
ssize_t readlink(const char *path, char *b, size_t n) {
  char p[PATH_MAX];
  if (!sim_on) return PASS(SYS_readlink, path, b, n, 0);
  if (virt(path, p)) { errno = nfind(p) ? EINVAL : ENOENT; return -1; }
  if (!strcmp(p, "/proc/self/exe")) { const char *e = "/vsim/bin/app"; size_t l = strlen(e); memcpy(b, e, l < n ? l : n); return l < n ? l : n; }
  if (hidden(p)) { errno = ENOENT; return -1; }
  return PASS(SYS_readlink, path, b, n, 0);
}
char *realpath(const char *restrict path, char *restrict out) {
  char p[PATH_MAX];
  static char *(*rr)(const char *, char *);
  if (!rr) rr = dlsym(RTLD_NEXT, "realpath");
  if (!sim_on || !virt(path, p)) return rr(path, out);
  if (meta_fault()) return NULL;
  if (!nfind(p)) { errno = ENOENT; return NULL; }
  if (!out) out = malloc(PATH_MAX);
  strcpy(out, p);
  return out;
}
char *getcwd(char *b, size_t n) {
  if (!sim_on) { long r = raw(SYS_getcwd, (long)b, n, 0, 0, 0, 0); if (r < 0) { errno = -r; return NULL; } return b; }
  if (strlen(vcwd) + 1 > n) { errno = ERANGE; return NULL; }
  strcpy(b, vcwd); return b;
}
/* directories */
typedef struct { int magic; int n, i; char **names; int *dirs; struct dirent64 de; DIR *realdir; } vdir;
static int cmpstr(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }
DIR *opendir(const char *path) {
  char p[PATH_MAX];
  static DIR *(*ro)(const char *);
  if (!ro) ro = dlsym(RTLD_NEXT, "opendir");
  vdir *v = zalloc(sizeof *v); v->magic = 0x7d17;
  if (!sim_on || !virt(path, p)) { v->realdir = ro(path); if (!v->realdir) return NULL; return (DIR *)v; }
  if (meta_fault()) { return NULL; }
  node *n = nfind(p);
  if (!n) { errno = ENOENT; return NULL; }
  if (!n->dir) { errno = ENOTDIR; return NULL; }
  size_t pl = strlen(p);
  v->names = zalloc(MAXN * sizeof(char *));
  for (int i = 0; i < nnodes; i++) {
    node *c = nodes[i];
    if (c->gone || strlen(c->path) <= pl + 1 || strncmp(c->path, p, pl) || c->path[pl] != '/' || strchr(c->path + pl + 1, '/')) continue;
    v->names[v->n++] = c->path + pl + 1;
  }
  qsort(v->names, v->n, sizeof(char *), cmpstr);
  if (fs_readdir_shuffle) for (int i = v->n - 1; i > 0; i--) { int j = mix(cfg.seed ^ 0xd14 ^ (i * 77777ull) ^ nclock) % (i + 1); char *t = v->names[i]; v->names[i] = v->names[j]; v->names[j] = t; }
  v->dirs = zalloc((v->n + 1) * sizeof(int));
  for (int i = 0; i < v->n; i++) { char t[PATH_MAX * 2]; snprintf(t, sizeof t, "%s/%s", p, v->names[i]); node *c = nfind(t); v->dirs[i] = c && c->dir; }
  return (DIR *)v;
}
struct dirent64 *readdir64(DIR *d) {
  vdir *v = (vdir *)d;
  static struct dirent64 *(*rr)(DIR *);
  if (!rr) rr = dlsym(RTLD_NEXT, "readdir64");
  if (v->realdir) return rr(v->realdir);
  if (v->i >= v->n) return NULL;
  if (vsim_fault(S_FS_META, 1)) { errno = EIO; v->i++; return NULL; }
  memset(&v->de, 0, sizeof v->de);
  v->de.d_ino = 1 + v->i; v->de.d_type = v->dirs[v->i] ? DT_DIR : DT_REG;
  snprintf(v->de.d_name, sizeof v->de.d_name, "%s", v->names[v->i++]);
  v->de.d_reclen = sizeof v->de;
  return &v->de;
}
int closedir(DIR *d) {
  vdir *v = (vdir *)d;
  static int (*rc)(DIR *);
  if (!rc) rc = dlsym(RTLD_NEXT, "closedir");
  if (v->realdir) { return rc(v->realdir); }
  return 0;
}
int dirfd(DIR *d) { vdir *v = (vdir *)d; static int (*rd)(DIR *); if (!rd) rd = dlsym(RTLD_NEXT, "dirfd"); if (v->realdir) return rd(v->realdir); return 999; }
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  desc *d = fd_get(fd);
  if (!d) { if (sim_on && fd < 3) { if (cmd == F_DUPFD_CLOEXEC || cmd == F_DUPFD) { desc *n = zalloc(sizeof *n); n->kind = K_NULL; return fd_alloc(n); } return 0; } return (int)PASS(SYS_fcntl, fd, cmd, a, 0); }
  if (cmd == F_DUPFD_CLOEXEC || cmd == F_DUPFD) return fd_alloc(d);
  if (cmd == F_GETFL) return d->flags;
  if (cmd == F_SETFL) { d->flags = (int)a; return 0; }
  return 0;
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, a); }
int ioctl(int fd, unsigned long rq, ...) {
  va_list ap; va_start(ap, rq); long a = va_arg(ap, long); va_end(ap);
  desc *d = fd_get(fd);
  if (!d) { if (sim_on && fd < 3) { errno = ENOTTY; return -1; } return (int)PASS(SYS_ioctl, fd, rq, a, 0); }
  if (rq == 0x5421 /* FIONBIO */) { if (*(int *)a) d->flags |= O_NONBLOCK; else d->flags &= ~O_NONBLOCK; return 0; }
  errno = ENOTTY; return -1;
}
int isatty(int fd) { if (sim_on) { errno = ENOTTY; return 0; } static int (*ri)(int); if (!ri) ri = dlsym(RTLD_NEXT, "isatty"); return ri(fd); }
int dup(int fd) { desc *d = fd_get(fd); if (d) return fd_alloc(d); return (int)PASS(SYS_dup, fd, 0, 0, 0); }
int pipe2(int fds[2], int fl) {
  if (!sim_on) return (int)PASS(SYS_pipe2, fds, fl, 0, 0);
  pipe_t_ *p = zalloc(sizeof *p);
  p->cap = cfg.pipe_cap ? cfg.pipe_cap : 65536; p->b = zalloc(p->cap); p->readers = p->writers = 1;
  desc *r = zalloc(sizeof *r), *w = zalloc(sizeof *w);
  r->kind = K_PR; r->p = p; r->flags = fl & O_NONBLOCK; w->kind = K_PW; w->p = p; w->flags = (fl & O_NONBLOCK) | O_WRONLY;
  fds[0] = fd_alloc(r); fds[1] = fd_alloc(w);
  return 0;
}
int poll(struct pollfd *f, nfds_t n, int to) {
  int any = 0;
  for (nfds_t i = 0; i < n; i++) if (fd_get(f[i].fd)) any = 1;
  if (!any) { if (sim_on) { for (nfds_t i = 0; i < n; i++) f[i].revents = 0; return 0; } return (int)PASS(SYS_poll, f, n, to, 0); }
  uint64_t dl = to > 0 ? vnow() + (uint64_t)to * 1000000ull : 0;
  for (;;) {
    int c = 0;
    for (nfds_t i = 0; i < n; i++) {
      desc *d = fd_get(f[i].fd); f[i].revents = 0;
      if (!d) continue;
      if (d->kind == K_PR) { if (d->p->n) f[i].revents |= POLLIN; if (!d->p->writers) f[i].revents |= POLLHUP; }
      if (d->kind == K_PW) { if (d->p->n < d->p->cap) f[i].revents |= POLLOUT; if (!d->p->readers) f[i].revents |= POLLERR; }
      f[i].revents &= f[i].events | POLLHUP | POLLERR;
      if (f[i].revents) c++;
    }
    if (c || to == 0) return c;
    if (block_on(&io_ev, ~0u, dl)) return 0;
  }
}

/* ------------------------------------------------- simulated processes */
static void proc_end(int pid, int status) {
  P *p = &procs[pid];
  if (!p->alive) return;
  p->alive = 0; p->status = status;
  for (int i = 0; i < nthr; i++) if (thr[i]->proc == pid && thr[i]->state != T_DONE) { thr[i]->state = T_DEAD; thr[i]->deadline = 0; }
  for (int i = 0; i < 3; i++) if (p->fds[i] >= FDBASE) { desc *d = fd_get(p->fds[i]); if (d) { fdt[p->fds[i] - FDBASE] = NULL; desc_put(d); } p->fds[i] = -1; }
  p->done_word = 1; wake_addr(&p->done_word, INT_MAX, ~0u);
}
#define PIDBASE 100000
static void leave_forever(void) { /* cur's process is gone */
  vacct();
  T *me = cur; T *n = pick();
  nswitch++; hash_in(((uint64_t)n->id << 48) ^ total_ticks);
  cur = n; __sync_synchronize(); n->go = 1;
  raw(SYS_futex, (long)&n->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
  for (;;) wait_baton(me);
}
typedef struct { void *(*fn)(void *); void *arg; const char *file; const char **argv; int pid; } pstart;
static void *proc_tramp(void *v) {
  pstart *s = v;
  int code;
  if (s->fn) code = (int)(intptr_t)s->fn(s->arg);
  else { P *p = &procs[s->pid]; code = vsim_child_main(s->file, s->argv, p->fds[0], p->fds[1], p->fds[2]); }
  proc_end(s->pid, (code & 0xff) << 8);
  return NULL;
}
static int proc_new(pstart *s, const int fds[3]) {
  if (nprocs >= MAXP) fail_c("harness", "too many processes");
  int pid = nprocs++;
  P *p = &procs[pid];
  p->pid = pid; p->alive = 1; p->reaped = 0; p->done_word = 0;
  for (int i = 0; i < 3; i++) { p->fds[i] = -1; if (fds) { desc *d = fd_get(fds[i]); if (d) p->fds[i] = fd_alloc(d); } }
  s->pid = pid;
  T *t = new_thread(pid);
  t->fn = proc_tramp; t->arg = s;
  if (cfg.strategy == STRAT_REPLAY) replay_attach(t);
  thr[nthr++] = t;
  if (spawn_os(t)) fail_c("harness", "thread for simulated process");
  maybe_switch();
  return pid;
}
/* run fn as a simulated process of its own; exit() inside it ends only it */
int vsim_proc_spawn(void *(*fn)(void *), void *arg) { pstart *s = zalloc(sizeof *s); s->fn = fn; s->arg = arg; return proc_new(s, NULL); }
int vsim_proc_wait(int pid) { while (procs[pid].alive) block_on(&procs[pid].done_word, ~0u, 0); return procs[pid].status; }
int vsim_proc_wait_timeout(int pid, uint64_t ns) { uint64_t dl = vnow() + ns; while (procs[pid].alive) { if (block_on(&procs[pid].done_word, ~0u, dl)) break; } return procs[pid].alive ? -1 : procs[pid].status; }
void vsim_proc_kill(int pid) { proc_end(pid, 9); }
void exit(int code) {
  if (sim_on && !stopping && cur && cur->proc) { proc_end(cur->proc, (code & 0xff) << 8); leave_forever(); }
  if (sim_on) raw_exit(code);
  static void (*re)(int) __attribute__((noreturn));
  re = dlsym(RTLD_NEXT, "exit");
  re(code);
}
void abort(void) {
  if (sim_on && !stopping && cur && cur->proc) { proc_end(cur->proc, 6); leave_forever(); }
  if (sim_on && !stopping) fail_c("abort", "abort() called");
  raw(SYS_kill, getpid(), SIGABRT, 0, 0, 0, 0); raw_exit(134);
}
typedef struct { int magic, n; int from[8], to[8]; } fact;
int posix_spawn_file_actions_init(posix_spawn_file_actions_t *f) { memset(f, 0, sizeof *f); ((fact *)f)->magic = 77; return 0; }
int posix_spawn_file_actions_destroy(posix_spawn_file_actions_t *f) { return 0; }
int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t *f, int a, int b) { fact *x = (fact *)f; if (x->n < 8) { x->from[x->n] = a; x->to[x->n++] = b; } return 0; }
int posix_spawnp(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
  if (!sim_on) return ENOSYS;
  int k = vsim_fault(S_SPAWN, 2);
  if (k) return k == 1 ? EAGAIN : ENOMEM;
  int fds[3] = {-1, -1, -1};
  const fact *x = (const fact *)fa;
  if (x) for (int i = 0; i < x->n; i++) if (x->to[i] >= 0 && x->to[i] < 3) fds[x->to[i]] = x->from[i];
  pstart *s = zalloc(sizeof *s);
  s->file = zdup(file);
  int n = 0; while (argv[n]) n++;
  s->argv = zalloc((n + 1) * sizeof(char *));
  for (int i = 0; i < n; i++) s->argv[i] = zdup(argv[i]);
  *pid = PIDBASE + proc_new(s, fds);
  return 0;
}
int posix_spawn(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) { return posix_spawnp(pid, file, fa, at, argv, envp); }
pid_t waitpid(pid_t pid, int *st, int opt) {
  if (!sim_on) return (pid_t)PASS(SYS_wait4, pid, st, opt, 0);
  int i = pid - PIDBASE;
  if (i <= 0 || i >= nprocs || procs[i].reaped) { errno = ECHILD; return -1; }
  while (procs[i].alive) { if (opt & WNOHANG) { maybe_switch(); return 0; } block_on(&procs[i].done_word, ~0u, 0); }
  procs[i].reaped = 1; if (st) *st = procs[i].status;
  return pid;
}
int kill(pid_t pid, int sig) {
  if (!sim_on) return (int)PASS(SYS_kill, pid, sig, 0, 0);
  int i = pid - PIDBASE;
  if (i <= 0 || i >= nprocs || procs[i].reaped) { errno = ESRCH; return -1; }
  if (procs[i].alive && (sig == 9 || sig == 15)) proc_end(i, sig);
  maybe_switch();
  return 0;
}
pid_t fork(void) { if (sim_on) fail_c("harness", "fork() is not simulated"); static pid_t (*rf)(void); if (!rf) rf = dlsym(RTLD_NEXT, "fork"); return rf(); }
pid_t getpid(void) { return sim_on ? 4242 : (pid_t)raw(SYS_getpid, 0, 0, 0, 0, 0, 0); }

/* -------------------------------------------------------- run control */
static void fail_c(const char *kind, const char *msg) {
  stopping = 1; planned = fuel = INT64_MAX / 2; active = 0;
  vsim_rust_fail(kind, msg);
  raw_exit(97);
}
void vsim_stop(void) { vacct(); stopping = 1; active = 0; planned = fuel = INT64_MAX / 2; }
void vsim_active(int on) {
  vacct();
  active = on; faults_on = on;
  if (on) {
    next_preempt = total_ticks + geo(cfg.quantum ? cfg.quantum : 1000);
    npct = 0; ipct = 0; pct_low = 900000000ull;
    if (cfg.strategy == STRAT_PCT) {
      npct = cfg.pct_depth < 63 ? cfg.pct_depth : 63;
      for (int i = 0; i < npct; i++) pct_points[i] = total_ticks + 1 + rnd(&sched_rng) % (cfg.pct_len ? cfg.pct_len : 1000000);
      for (int i = 0; i < npct; i++) for (int j = i + 1; j < npct; j++) if (pct_points[j] < pct_points[i]) { uint64_t t = pct_points[i]; pct_points[i] = pct_points[j]; pct_points[j] = t; }
    }
  }
  budget_at = on && cfg.tick_budget ? total_ticks + cfg.tick_budget : 0;
  plan();
}
void vsim_faults(int on) { faults_on = on; }
void vsim_guard(int on) { dlog->pad = (uint32_t)on; }
void vsim_budget(uint64_t ticks) { vacct(); budget_at = ticks ? total_ticks + ticks : 0; plan(); }
static const char *replay_path;
static char *slurp(const char *p) {
  int fd = (int)raw(SYS_open, (long)p, O_RDONLY, 0, 0, 0, 0);
  if (fd < 0) return NULL;
  size_t cap = 1 << 16, n = 0; char *b = zalloc(cap);
  for (;;) { if (n + 1 >= cap) { char *nb = zalloc(cap * 2); memcpy(nb, b, n); b = nb; cap *= 2; } long r = raw(SYS_read, fd, (long)(b + n), cap - n - 1, 0, 0, 0); if (r <= 0) break; n += r; }
  b[n] = 0; raw(SYS_close, fd, 0, 0, 0, 0, 0);
  return b;
}
static int replay_sched;
static void load_replay(const char *path) {
  char *b = slurp(path);
  if (!b) { raw_write_all(2, "vsim: cannot read replay file\n", 30); raw_exit(96); }
  int ns = 0, nb = 0, nf = 0, nd = 0, nm = 0;
  for (char *s = b; *s;) { if (*s == 'S' && s[1] == ' ') ns++; else if (*s == 'B' && s[1] == ' ') nb++; else if (*s == 'M' && s[1] == ' ') nm++; else if (*s == 'F' && s[1] == ' ') nf++; else if (*s == 'D' && s[1] == ' ') nd++; while (*s && *s != '\n') s++; if (*s) s++; }
  all_rs = zalloc((ns + 1) * sizeof(rec_t)); rs_tid = zalloc((ns + 1) * sizeof(int));
  all_rb = zalloc((nb + 1) * sizeof(rec_t)); rb_tid = zalloc((nb + 1) * sizeof(int));
  all_rm = zalloc((nm + 1) * sizeof(rec_t)); rm_tid = zalloc((nm + 1) * sizeof(int));
  frs = zalloc((nf + 1) * sizeof(frec)); drops = zalloc((nd + 1) * sizeof(uint64_t));
  for (char *s = b; *s;) {
    unsigned long long x, y; long long to; unsigned long long st; 
    if (sscanf(s, "S %llu %llu %lld %llu", &x, &y, &to, &st) == 4) { rs_tid[n_all_rs] = (int)x; all_rs[n_all_rs++] = (rec_t){y, st, (int)to}; }
    else if (sscanf(s, "M %llu %llu %lld %llu", &x, &y, &to, &st) == 4) { rm_tid[n_all_rm] = (int)x; all_rm[n_all_rm++] = (rec_t){y, st, (int)to}; }
    else if (sscanf(s, "B %llu %llu %lld", &x, &y, &to) == 3) { rb_tid[n_all_rb] = (int)x; all_rb[n_all_rb++] = (rec_t){y, 0, (int)to}; }
    else if (sscanf(s, "F %llu %llu %lld", &x, &y, &to) == 3) { frs[nfrs++] = (frec){(uint32_t)x, y, (uint32_t)to}; }
    else if (sscanf(s, "D %llu", &x) == 1) drops[ndrops++] = x;
    else if (!strncmp(s, "mode trace", 10)) replay_sched = 1;
    while (*s && *s != '\n') s++;
    if (*s) s++;
  }
}
void vsim_config(const vsim_cfg *c) {
  cfg = *c;
  if (replay_path && replay_sched) cfg.strategy = STRAT_REPLAY;
  if (!cfg.ns_per_tick_x16) cfg.ns_per_tick_x16 = 16;
  sched_rng.s = mix(cfg.seed ^ 0x5c4ed);
  if (cfg.strategy == STRAT_REPLAY) for (int i = 0; i < nthr; i++) replay_attach(thr[i]);
  vacct(); plan();
}
uint64_t vsim_stat(int which) {
  switch (which) {
    case 0: return ticks_now();
    case 1: return vnow() - mono_base;
    case 2: return nswitch;
    case 3: return npreempt;
    case 4: return trace_hash ^ mix(ticks_now());
    case 5: return run_edges;
    case 6: return nthr;
    case 7: return nprocs - 1;
    case 8: return dlog ? dlog->n : 0;
    case 9: return dlog ? dlog->nreplayops : 0;
    case 10: return nguards;
    case 11: { uint64_t k = 0; for (int i = 1; i < nprocs; i++) k += procs[i].alive != 0; return k; }
    default: return 0;
  }
}
uint64_t vsim_fault_fired(int s) { return fault_fired[s]; }
uint64_t vsim_kind_fired(int s, int k) { return kind_fired[s][k & 15]; }
uint64_t vsim_fault_seen(int s) { return fault_ctr[s]; }
int vsim_tid(void) { return cur ? cur->id : -1; }

typedef void (*run_fn)(uint64_t seed);
static run_fn the_run; static uint64_t the_seed; static int res_fd;
static struct { char name[64]; uint64_t n; } probes[128];
static int nprobes;
/* in C, hence never preempted half-way */
void vsim_probe(const char *p, size_t n, uint64_t by) {
  if (n > 63) n = 63;
  for (int i = 0; i < nprobes; i++) if (!strncmp(probes[i].name, p, n) && !probes[i].name[n]) { probes[i].n += by; return; }
  if (nprobes == 128) return;
  memcpy(probes[nprobes].name, p, n); probes[nprobes].n = by; nprobes++;
}
const char *vsim_probe_nth(int i, uint64_t *n) { if (i >= nprobes) return NULL; *n = probes[i].n; return probes[i].name; }
void vsim_emit(const char *p, size_t n) { raw_write_all(res_fd, p, n); }
void vsim_end(void) { raw_exit(0); }
void vsim_dbg(const char *p, size_t n) { raw_write_all(2, p, n); }
static void *root_main(void *v) { the_run(the_seed); fail_c("harness", "scenario returned without a result"); return NULL; }
static void child_main(uint64_t seed, const char *replay) {
  real_pthread_create = real_pthread_create ? real_pthread_create : dlsym(RTLD_NEXT, "pthread_create");
  memset(hits, 0, nguards + 1);
  ar_reset(mix(seed ^ 0xa51) << 4);
  memset(&cfg, 0, sizeof cfg);
  cfg.seed = seed; cfg.ns_per_tick_x16 = 16; cfg.ncpu = 4;
  replay_path = replay && strcmp(replay, "-") ? replay : NULL;
  if (replay_path) load_replay(replay_path);
  pthread_key_create(&exit_key, thread_finished);
  sched_rng.s = seed;
  T *t = new_thread(0);
  t->fn = root_main;
  thr[nthr++] = t;
  the_seed = seed;
  if (spawn_os(t)) raw_exit(95);
  sim_on = 1; cur = t; planned = fuel = 0; plan();
  t->go = 1;
  raw(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
  for (;;) raw(SYS_pause, 0, 0, 0, 0, 0, 0);
}
/* Runs fn in a forked copy of this whole simulation: no preemption, no faults,
 * other hash seeds; nothing it does is visible here except the bytes it hands
 * to vsim_ref_emit. Used to compute references. */
static int ref_fd = -1;
void vsim_ref_emit(const char *p, size_t n) { raw_write_all(ref_fd, p, n); }
long vsim_fork_ref(void (*fn)(void *), void *arg, char *out, size_t cap, int reseed) {
  int pf[2];
  vacct();
  raw(SYS_pipe2, (long)pf, 0, 0, 0, 0, 0);
  long pid = raw(SYS_fork, 0, 0, 0, 0, 0, 0);
  if (pid < 0) fail_c("harness", "fork of the reference failed");
  if (pid == 0) {
    raw(SYS_prctl, 1 /* PR_SET_PDEATHSIG */, SIGKILL, 0, 0, 0, 0);
    raw(SYS_close, pf[0], 0, 0, 0, 0, 0);
    ref_fd = pf[1];
    res_fd = (int)raw(SYS_open, (long)"/dev/null", O_WRONLY, 0, 0, 0, 0);
    size_t sz = sizeof(logbuf) + sizeof(logent) * (size_t)MAXLOG;
    dlog = mmap(NULL, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    replay_path = NULL; replay_sched = 0; cfg.strategy = STRAT_NONE; cfg.tick_budget = 0; active = 0; faults_on = 0; budget_at = total_ticks + 300000000;
    if (reseed) rand_ctr += 0x1000000;
    plan();
    fn(arg);
    raw_exit(0);
  }
  raw(SYS_close, pf[1], 0, 0, 0, 0, 0);
  size_t n = 0;
  for (;;) {
    long r = raw(SYS_read, pf[0], (long)(out + n), cap - n, 0, 0, 0);
    if (r == -EINTR) continue;
    if (r <= 0) break;
    n += r;
  }
  raw(SYS_close, pf[0], 0, 0, 0, 0, 0);
  int st = 0;
  while (raw(SYS_wait4, pid, (long)&st, 0, 0, 0, 0) == -EINTR);
  plan();
  return st ? -1 : (long)n;
}
/* programs under test see these arguments */
static int g_argc; static char **g_argv;
__attribute__((constructor)) static void keep_args(int argc, char **argv, char **envp) { g_argc = argc; g_argv = argv; }
int vsim_set_args(int n, const char **a) {
  if (n > g_argc) return -1;
  for (int i = 0; i < g_argc; i++) g_argv[i] = i < n ? zdup(a[i]) : NULL;
  return 0;
}
static void write_trace(const char *path, const char *hdr) {
  int fd = (int)raw(SYS_open, (long)path, O_WRONLY | O_CREAT | O_TRUNC, 0644, 0, 0, 0);
  if (fd < 0) return;
  static char b[1 << 16]; int o = snprintf(b, sizeof b, "%s", hdr);
  for (uint32_t i = 0; i < dlog->n; i++) {
    logent *e = &dlog->e[i];
    if (o > (int)sizeof b - 128) { raw_write_all(fd, b, o); o = 0; }
    if (e->kind == 'S' || e->kind == 'M') o += snprintf(b + o, sizeof b - o, "%c %u %llu %lld %llu\n", (char)e->kind, e->a, (unsigned long long)e->b, (long long)e->c, (unsigned long long)e->d);
    else if (e->kind == 'B') o += snprintf(b + o, sizeof b - o, "B %u %llu %lld\n", e->a, (unsigned long long)e->b, (long long)e->c);
    else if (e->kind == 'F') o += snprintf(b + o, sizeof b - o, "F %u %llu %lld\n", e->a, (unsigned long long)e->b, (long long)e->c);
  }
  raw_write_all(fd, b, o);
  raw(SYS_close, fd, 0, 0, 0, 0, 0);
}
static int read_line(char *b, int cap) {
  int n = 0;
  while (n < cap - 1) { long r = raw(SYS_read, 0, (long)(b + n), 1, 0, 0, 0); if (r == -EINTR) continue; if (r <= 0) return n ? n : -1; if (b[n] == '\n') break; n++; }
  b[n] = 0; return n;
}
/* fork server: reads "seed replay|- trace_out|- timeout_ms" lines, answers one JSON line each */
void vsim_serve(run_fn fn, const char *covfile) {
  the_run = fn;
  hits = mmap(NULL, nguards + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ucov = mmap(NULL, nguards + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  dlog = mmap(NULL, sizeof(logbuf) + sizeof(logent) * (size_t)MAXLOG, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
  static char line[8192], rp[4096], to[3072], out[1 << 20];
  while (read_line(line, sizeof line) >= 0) {
    unsigned long long seed, tmo = 60000;
    if (sscanf(line, "%llu %4095s %3071s %llu", &seed, rp, to, &tmo) < 3) break;
    dlog->n = 0; dlog->overflow = 0; dlog->nreplayops = 0; dlog->pad = 0;
    int pf[2];
    raw(SYS_pipe2, (long)pf, 0, 0, 0, 0, 0);
    uint64_t t0 = raw_mono();
    static pid_t (*rf)(void); if (!rf) rf = dlsym(RTLD_NEXT, "fork");
    pid_t pid = rf();
    if (pid == 0) { raw(SYS_close, pf[0], 0, 0, 0, 0, 0); res_fd = pf[1]; child_main(seed, rp); }
    raw(SYS_close, pf[1], 0, 0, 0, 0, 0);
    size_t n = 0; int timed = 0;
    for (;;) {
      struct pollfd pfd = {pf[0], POLLIN, 0};
      uint64_t el = (raw_mono() - t0) / 1000000;
      if (el >= tmo) { timed = 1; break; }
      long r = raw(SYS_poll, (long)&pfd, 1, (long)(tmo - el), 0, 0, 0);
      if (r == -EINTR) continue;
      if (r == 0) { timed = 1; break; }
      r = raw(SYS_read, pf[0], (long)(out + n), sizeof out - n - 1, 0, 0, 0);
      if (r == -EINTR) continue;
      if (r <= 0) break;
      n += r;
    }
    raw(SYS_close, pf[0], 0, 0, 0, 0, 0);
    if (timed) raw(SYS_kill, pid, SIGKILL, 0, 0, 0, 0);
    int st = 0;
    while (raw(SYS_wait4, pid, (long)&st, 0, 0, 0, 0) == -EINTR);
    out[n] = 0;
    for (size_t i = 0; i < n; i++) if (out[i] == '\n') out[i] = ' ';
    if (strcmp(to, "-")) { static char h[128]; snprintf(h, sizeof h, "seed %llu\nmode trace\n", seed); write_trace(to, h); }
    static char head[512];
    snprintf(head, sizeof head, "{\"seed\":%llu,\"wall_ms\":%llu,\"timed_out\":%d,\"exit\":%d,\"signal\":%d,\"nlog\":%u,\"nops\":%u,\"log_overflow\":%u,\"guarded\":%u,\"result\":", seed,
             (unsigned long long)((raw_mono() - t0) / 1000000), timed, WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0, dlog->n, dlog->nreplayops, dlog->overflow, dlog->pad);
    raw_write_all(1, head, strlen(head));
    if (n) raw_write_all(1, out, n); else raw_write_all(1, "null", 4);
    raw_write_all(1, "}\n", 2);
  }
  if (covfile && *covfile && strcmp(covfile, "-")) {
    int fd = (int)raw(SYS_open, (long)covfile, O_WRONLY | O_CREAT | O_TRUNC, 0644, 0, 0, 0);
    if (fd >= 0) { raw_write_all(fd, (char *)ucov, nguards + 1); raw(SYS_close, fd, 0, 0, 0, 0, 0); }
  }
  raw_exit(0);
}
