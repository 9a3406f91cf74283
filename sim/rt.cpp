// Simulator runtime: deterministic scheduler, virtual clock, interposed threads / locks / futexes /
// sleeps / clocks / allocation / solver, vector-clock race detection and freed-memory shadow.
// Built without instrumentation into libsim.so, which precedes libstdc++ and libc in symbol order.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <dlfcn.h>
#include <execinfo.h>
#include <errno.h>
#include <linux/futex.h>
#include <math.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <bits/atomic_futex.h>
#include <chrono>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

namespace sim {
double Rng::logu(double a, double b) { return a * exp(u() * log(b / a)); }

__attribute__((visibility("default"))) Res *res = nullptr;
__attribute__((visibility("default"))) int tracing = 0;

enum State { ST_FREE, ST_RUN, ST_BLOCK, ST_SLEEP, ST_DONE };
enum Role { R_HARNESS, R_BG, R_COMPUTE };

struct Thr {
  int id;
  int state;
  int role;
  int lib;    // >0: library code running, hooks active
  int inrt;   // >0: inside runtime
  int nopre;  // >0: no preemption
  int nomem;  // memory accesses are not looked at
  int detached;
  void *waitobj;
  const char *waitwhat;
  u64 wake;
  int timed, timedout;
  u64 step, mcount, mnext;
  int sem;
  u64 prio;
  void *(*fn)(void *);
  void *arg;
  void *ret;
  char *stk_lo, *stk_hi;
  u32 vc[MAXT];
  u64 opuid, op_allocs, op_big;
  int op_alloc_fired;
  u64 alloc_hits;
  int compidx;
  int bg;  // the background thread it descends from, or is
  int burst;
  u64 allocs;
  u64 runlen;
  u64 lastpc;
  pthread_t real;
};

static Thr thr[MAXT];
static int nthr = 0;
static int live[MAXT], nlive = 0;
static __thread Thr *tl __attribute__((tls_model("initial-exec"))) = nullptr;
static int active = 0;
static int nvc = 0;  // number of vector clock components in use
static u64 vtime = 0, vlimit = 0;
static u64 seqno = 0;
static SchedCfg cfg;
static Rng srng(1);
static Fault faults[MAXFAULT];
static int nfaults = 0;
static const Dec *rdec = nullptr;
static u32 nrdec = 0;
static u64 run_hash = 0, ileave_hash = 0;
static int last_bg = -1;
static u64 n_compute_threads = 0, n_solver = 0, n_bgcreate = 0, n_rt = 0, n_sleep = 0, n_bgalloc = 0;
static int64_t rt_off = 0;
static u64 pct_change[32];
static int npct = 0;
static u64 pct_low = 1000000;
static int fault_op_fired_total = 0;

static inline u64 fnv(u64 h, u64 v) {
  h ^= v;
  h *= 0x9E3779B97F4A7C15ull;
  h ^= h >> 29;
  return h;
}

// ------------------------------------------------------------------ real functions
typedef int (*pcreate_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static pcreate_t real_pcreate;
static int futex(int *a, int op, int v) { return (int)syscall(SYS_futex, a, op, v, NULL, NULL, 0); }

u64 real_ns() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return (u64)ts.tv_sec * 1000000000ull + ts.tv_nsec;
}

// ------------------------------------------------------------------ failure reporting
static void finish_child() {
  if (res) {
    u64 h = fnv(fnv(fnv(run_hash, ileave_hash), vtime), nthr);
    h = fnv(fnv(fnv(h, res->st.sync_points), res->st.mem_accesses), res->st.allocs);
    res->hash = h;
    res->ileave = ileave_hash;
    res->st.vtime_ns = vtime;
    res->st.threads = nthr;
    res->st.computes = n_compute_threads;
  }
  syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}

static const char *tname(int t) {
  static char b[4][32];
  static int k;
  char *p = b[k++ & 3];
  snprintf(p, 32, "t%d(%s)", t, thr[t].role == R_BG ? "generator" : thr[t].role == R_COMPUTE ? "compute" : "user");
  return p;
}

void fail(const char *cls, const char *fmt, ...) {
  if (tl) tl->inrt++;
  if (res && res->status == 0) {
    snprintf(res->cls, sizeof res->cls, "%s", cls);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(res->msg, sizeof res->msg, fmt, ap);
    va_end(ap);
    run_hash = fnv(run_hash, 0xfa11);
    res->status = 2;
  }
  finish_child();
}
void harness_error(const char *fmt, ...) {
  if (tl) tl->inrt++;
  if (res && res->status == 0) {
    snprintf(res->cls, sizeof res->cls, "harness-error");
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(res->msg, sizeof res->msg, fmt, ap);
    va_end(ap);
    res->status = 3;
  }
  finish_child();
}
void trace(const char *fmt, ...) {
  if (!tracing) return;
  if (tl) tl->inrt++;
  char b[1024];
  int n = snprintf(b, sizeof b, "[%10.6f t%d s%llu] ", vtime * 1e-9, tl ? tl->id : -1, (unsigned long long)(tl ? tl->step : 0));
  va_list ap;
  va_start(ap, fmt);
  n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  syscall(SYS_write, 2, b, n);
  if (tl) tl->inrt--;
}
void probe(int i, u64 n) {
  if (res && i >= 0 && i < 64) res->probes[i] += n;
}
void mix(u64 v) { run_hash = fnv(run_hash, v); }
void mixd(double v) {
  u64 x;
  memcpy(&x, &v, 8);
  mix(x);
}
u64 now() { return vtime; }
u64 seq() { return ++seqno; }
int self() { return tl ? tl->id : -1; }
void set_time_limit(u64 v) { vlimit = v; }
static u64 comp_exits[1024];
int last_background() { return last_bg; }
u64 computes_ended(int bg) { return bg >= 0 && bg < 1024 ? comp_exits[bg] : 0; }
u64 computes_started() { return n_compute_threads; }
static u64 comp_t0[1024], comp_t1[1024];
double compute_dur(u64 k) { return k >= 1 && k < 1024 && comp_t1[k] ? (comp_t1[k] - comp_t0[k]) * 1e-9 : -1; }
bool fault_fired(int kind) { return res && res->st.fired[kind] > 0; }
u64 fault_count(int kind) { return res ? res->st.fired[kind] : 0; }

static Fault *find_fault(int kind, u64 n) {
  for (int i = 0; i < nfaults; i++)
    if (faults[i].kind == kind && faults[i].n == n) return &faults[i];
  return nullptr;
}
static inline void fired(int kind) { res->st.fired[kind]++; }

// ------------------------------------------------------------------ scheduler
static int cur = -1;

static void tok_wait(Thr *t) {
  while (!__atomic_load_n(&t->sem, __ATOMIC_ACQUIRE)) futex(&t->sem, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(&t->sem, 0, __ATOMIC_RELAXED);
}
static void tok_post(Thr *t) {
  __atomic_store_n(&t->sem, 1, __ATOMIC_RELEASE);
  futex(&t->sem, FUTEX_WAKE_PRIVATE, 1);
}

static void describe(char *b, size_t n) {
  size_t k = 0;
  for (int i = 0; i < nlive && k + 120 < n; i++) {
    Thr *t = &thr[live[i]];
    k += snprintf(b + k, n - k, " %s:%s", tname(t->id),
                  t->state == ST_RUN ? "runnable" : t->state == ST_SLEEP ? "sleeping" : t->waitwhat ? t->waitwhat : "blocked");
  }
}

static void wake_due() {
  for (int i = 0; i < nlive; i++) {
    Thr *t = &thr[live[i]];
    if ((t->state == ST_SLEEP || (t->state == ST_BLOCK && t->timed)) && t->wake <= vtime) {
      if (t->state == ST_BLOCK) t->timedout = 1;
      t->state = ST_RUN;
      t->waitobj = nullptr;
    }
  }
}
static int advance_time() {  // nobody runnable: jump to the next event
  u64 best = ~0ull;
  for (int i = 0; i < nlive; i++) {
    Thr *t = &thr[live[i]];
    if ((t->state == ST_SLEEP || (t->state == ST_BLOCK && t->timed)) && t->wake < best) best = t->wake;
  }
  if (best == ~0ull) return 0;
  if (best > vtime) vtime = best;
  if (vlimit && vtime > vlimit) {
    char b[2000];
    describe(b, sizeof b);
    fail("stuck", "no completion within the simulated time limit (%.3f s); threads:%s", vlimit * 1e-9, b);
  }
  wake_due();
  return 1;
}

static void log_dec(u8 kind, u8 act, u32 tid, u64 step, u64 arg) {
  if (res->ndec < MAXDEC) {
    Dec &d = res->dec[res->ndec++];
    d.kind = kind;
    d.act = act;
    d.tid = tid;
    d.step = step;
    d.arg = arg;
  } else
    res->dec_overflow = 1;
}

// replay table hashed by (kind, tid, step)
static u32 *rhash = nullptr;
static u32 rmask = 0;
static u64 dkey(u8 kind, u32 tid, u64 step) { return fnv(fnv(kind, tid), step); }
static const Dec *rlookup(u8 kind, u32 tid, u64 step) {
  if (!nrdec) return nullptr;
  u32 i = (u32)dkey(kind, tid, step) & rmask;
  while (rhash[i]) {
    const Dec *d = &rdec[rhash[i] - 1];
    if (d->kind == kind && d->tid == tid && d->step == step) return d;
    i = (i + 1) & rmask;
  }
  return nullptr;
}

static int runnable_list(int *out) {
  int n = 0;
  for (int i = 0; i < nlive; i++)
    if (thr[live[i]].state == ST_RUN) out[n++] = live[i];
  return n;
}

static void switch_to(int next) {
  Thr *t = tl;
  if (next == t->id) return;
  res->st.switches++;
  ileave_hash = fnv(ileave_hash, ((u64)t->id << 8) | next);
  cur = next;
  t->runlen = 0;
  tok_post(&thr[next]);
  tok_wait(t);
}

static int pick_pct(int *r, int n) {
  int b = r[0];
  for (int i = 1; i < n; i++)
    if (thr[r[i]].prio > thr[b].prio) b = r[i];
  return b;
}

static u64 total_points = 0;
static void pct_step() {
  for (int i = 0; i < npct; i++)
    if (pct_change[i] == total_points && tl) tl->prio = pct_low--;
}

// current thread cannot continue (its state is not ST_RUN): choose who runs next
static void yield_blocked() {
  Thr *t = tl;
  int r[MAXT], n;
  while ((n = runnable_list(r)) == 0) {
    if (!advance_time()) {
      char b[2000];
      describe(b, sizeof b);
      fail("deadlock", "no thread can run; threads:%s", b);
    }
  }
  // default: next id after self, cyclic
  int def = -1;
  for (int i = 0; i < n; i++)
    if (r[i] > t->id && (def < 0 || r[i] < def)) def = r[i];
  if (def < 0) {
    def = r[0];
    for (int i = 1; i < n; i++)
      if (r[i] < def) def = r[i];
  }
  int next = def;
  if (n > 1) {
    res->st.forced++;
    if (cfg.replay) {
      const Dec *d = rlookup('B', t->id, t->step);
      if (d && d->arg < (u64)nthr && thr[d->arg].state == ST_RUN) next = (int)d->arg;
    } else {
      next = cfg.strategy == 1 ? pick_pct(r, n) : r[srng.below(n)];
      if (next != def) log_dec('B', 1, t->id, t->step, next);
    }
  }
  t->step++;
  if (next != t->id) switch_to(next);
}

static void do_sleep(u64 ns) {
  Thr *t = tl;
  t->state = ST_SLEEP;
  t->wake = vtime + ns;
  t->waitobj = nullptr;
  t->runlen = 0;
  yield_blocked();
}

static u64 mem_stalled = 0;  // in total, ns
static void decide(u8 kind, u64 step) {
  Thr *t = tl;
  total_points++;
  int act = 0;
  u64 arg = 0;
  if (cfg.replay) {
    const Dec *d = rlookup(kind, t->id, step);
    if (d) {
      act = d->act;
      arg = d->arg;
    } else if (t->runlen > 3000 && kind == 'S') {
      // fairness: default rotation away from a spinning thread
      int r[MAXT], n = runnable_list(r);
      for (int i = 0; i < n; i++)
        if (r[i] != t->id) { act = 1; arg = r[i]; break; }
      t->runlen = 0;
    }
  } else {
    bool spin = t->runlen > 3000 && kind == 'S';
    if (spin) t->runlen = 0;
    if (cfg.pstall > 0 && kind == 'S' && srng.p(cfg.pstall)) {
      act = 2;
      arg = (u64)(srng.logu(1e-6, cfg.stall_max) * 1e9);
    } else if (kind == 'M' && cfg.pstall > 0 && mem_stalled < 500000000ull && srng.p(0.1)) {
      act = 2;
      arg = (u64)(srng.logu(1e-6, 0.05) * 1e9);
      mem_stalled += arg;
    } else {
      int r[MAXT], n = runnable_list(r);
      if (n > 1) {
        if (spin) {
          int k = (int)srng.below(n - 1);
          for (int i = 0; i < n; i++)
            if (r[i] != t->id && k-- == 0) { act = 1; arg = r[i]; break; }
        } else if (cfg.strategy == 1) {
          pct_step();
          int b = pick_pct(r, n);
          if (b != t->id) { act = 1; arg = b; }
        } else {
          double ps = kind == 'M' ? 0.7 : cfg.pswitch;
          if (ps > 0 && srng.p(ps)) {
            int k = (int)srng.below(n);
            if (r[k] != t->id) { act = 1; arg = r[k]; }
          }
        }
      }
    }
    if (act) log_dec(kind, act, t->id, step, arg);
  }
  if (act == 2) {
    res->st.stalls++;
    run_hash = fnv(run_hash, 0x57a11 ^ arg);
    do_sleep(arg);
  } else if (act == 1 && arg < (u64)nthr && thr[arg].state == ST_RUN && (int)arg != t->id) {
    run_hash = fnv(run_hash, arg);
    switch_to((int)arg);
  }
}

static inline bool hooked() {
  Thr *t = tl;
  return t && active && t->lib > 0 && t->inrt == 0;
}

static void sync_point(Thr *t) {
  u64 s = t->step++;
  res->st.sync_points++;
  t->runlen++;
  vtime += cfg.tick_ns;
  if (UNLIKELY(res->st.sync_points > 40000000ull)) {
    char b[2000];
    describe(b, sizeof b);
    fail("livelock", "step budget exhausted at simulated time %.3f s; threads:%s", vtime * 1e-9, b);
  }
  if (vlimit && vtime > vlimit) {
    char b[2000];
    describe(b, sizeof b);
    fail("stuck", "no completion within the simulated time limit (%.3f s); threads:%s", vlimit * 1e-9, b);
  }
  wake_due();
  if (t->nopre == 0) decide('S', s);
}

static void schedule_mem(Thr *t) {
  if (!cfg.memskip) {
    t->mnext = ~0ull;
    return;
  }
  double u = srng.u();
  u64 k = 1 + (u64)(-log(1 - u) * cfg.memskip);
  t->mnext = t->mcount + k;
}

static int cmp_u64(const void *a, const void *b) {
  u64 x = *(const u64 *)a, y = *(const u64 *)b;
  return x < y ? -1 : x > y;
}
static u64 *rmem[MAXT];
static u32 nrmem[MAXT], irmem[MAXT];

static void mem_init_thread(Thr *t) {
  t->mcount = 0;
  if (cfg.replay) {
    t->mnext = ~0ull;
    irmem[t->id] = 0;
    if (nrmem[t->id]) t->mnext = rmem[t->id][0];
  } else
    schedule_mem(t);
}
static void mem_point(Thr *t) {
  u64 c = t->mcount;
  if (cfg.replay) {
    u32 i = ++irmem[t->id];
    t->mnext = i < nrmem[t->id] ? rmem[t->id][i] : ~0ull;
  } else
    schedule_mem(t);
  res->st.mem_points++;
  if (t->nopre == 0) {
    t->inrt++;
    vtime += 20;
    wake_due();
    decide('M', c);
    t->inrt--;
  }
}

// ------------------------------------------------------------------ synchronisation objects
struct Sync {
  u64 addr;
  int owner;      // mutex / rwlock writer
  int count;      // recursion / readers
  int once;       // 0 none, 1 running, 2 done
  int seqcnt;
  u32 *vc;
  Sync *next;
};
enum { SH = 1 << 14 };
static Sync *stab[SH];
static Sync *sfree = nullptr;
static u32 *vcfree = nullptr;
static char *rtpool = nullptr;
static size_t rtleft = 0;
static void *rt_alloc(size_t n) {
  n = (n + 15) & ~15ull;
  if (n > rtleft) {
    size_t m = n > (1 << 20) ? n : (1 << 20);
    rtpool = (char *)mmap(0, m, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    rtleft = m;
  }
  void *p = rtpool;
  rtpool += n;
  rtleft -= n;
  return p;
}
static u32 *vc_new() {
  u32 *v;
  if (vcfree) {
    v = vcfree;
    vcfree = *(u32 **)v;
    memset(v, 0, sizeof(u32) * MAXT);
  } else
    v = (u32 *)rt_alloc(sizeof(u32) * MAXT);
  return v;
}
static inline u32 shash(u64 a) { return (u32)((a >> 2) * 0x9E3779B1u) & (SH - 1); }
static void mark_sync_granule(u64 a);
static Sync *sync_get(const void *p) {
  u64 a = (u64)p;
  u32 h = shash(a);
  for (Sync *s = stab[h]; s; s = s->next)
    if (s->addr == a) return s;
  Sync *s = sfree;
  if (s)
    sfree = s->next;
  else
    s = (Sync *)rt_alloc(sizeof(Sync));
  s->addr = a;
  s->owner = -1;
  s->count = 0;
  s->once = 0;
  s->seqcnt = 0;
  s->vc = nullptr;
  s->next = stab[h];
  stab[h] = s;
  mark_sync_granule(a);
  return s;
}
static void sync_drop(u64 a) {  // forget objects at [a,a+16)
  for (u64 x = a; x < a + 16; x++) {
    u32 h = shash(x);
    if ((x & 3) && shash(x & ~3ull) == h) continue;  // same bucket already swept
    Sync **pp = &stab[h];
    while (*pp) {
      Sync *s = *pp;
      if (s->addr >= a && s->addr < a + 16) {
        *pp = s->next;
        if (s->vc) {
          *(u32 **)s->vc = vcfree;
          vcfree = s->vc;
        }
        s->next = sfree;
        sfree = s;
      } else
        pp = &s->next;
    }
  }
}

static inline void vc_acquire(Thr *t, Sync *s) {
  if (!s->vc) return;
  for (int i = 0; i < nvc; i++)
    if (s->vc[i] > t->vc[i]) t->vc[i] = s->vc[i];
}
static inline void vc_release(Thr *t, Sync *s, bool store) {
  if (!s->vc) s->vc = vc_new();
  if (store)
    memcpy(s->vc, t->vc, sizeof(u32) * nvc);
  else
    for (int i = 0; i < nvc; i++)
      if (t->vc[i] > s->vc[i]) s->vc[i] = t->vc[i];
  t->vc[t->id]++;
}

static void wake_all(const void *obj) {
  for (int i = 0; i < nlive; i++) {
    Thr *t = &thr[live[i]];
    if (t->state == ST_BLOCK && t->waitobj == obj) {
      t->state = ST_RUN;
      t->waitobj = nullptr;
      t->timedout = 0;
    }
  }
}
static bool wake_one(const void *obj) {
  int c[MAXT], n = 0;
  for (int i = 0; i < nlive; i++) {
    Thr *t = &thr[live[i]];
    if (t->state == ST_BLOCK && t->waitobj == obj) c[n++] = live[i];
  }
  if (!n) return false;
  int k = 0;  // deterministic: longest waiting id order; order choice is left to the scheduler afterwards
  Thr *t = &thr[c[k]];
  t->state = ST_RUN;
  t->waitobj = nullptr;
  t->timedout = 0;
  return true;
}
static int block_on(const void *obj, const char *what, bool timed = false, u64 wake = 0) {
  Thr *t = tl;
  t->state = ST_BLOCK;
  t->waitobj = (void *)obj;
  t->waitwhat = what;
  t->timed = timed;
  t->wake = wake;
  t->timedout = 0;
  t->runlen = 0;
  yield_blocked();
  t->timed = 0;
  return t->timedout;
}

// ------------------------------------------------------------------ memory: arena, state, race shadow
static const u64 ARENA = 0x200000000000ull, ARENA_SZ = 1ull << 30;
static const u64 SHADOW = 0x210000000000ull;               // 64 bytes per 8 bytes
static const u64 MST = 0x230000000000ull;                  // 1 byte per 16 bytes
static const u64 TOUCH = 0x231000000000ull;                // 1 byte per 512 bytes
static const u64 GSHADOW = 0x240000000000ull;              // low globals
static const u64 GLO = 0x400000ull, GHI = 0x400000ull + (64ull << 20);
static const u64 STKS = 0x300000000000ull, STKSZ = 1ull << 20;
static int mem_ready = 0;
static u64 brk_ = 0;
static u64 arena_start_check = 0;

static void map_fixed(u64 a, u64 n) {
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)a) {
    static const char m[] = "sim: cannot map fixed region\n";
    syscall(SYS_write, 2, m, sizeof m - 1);
    syscall(SYS_exit_group, 99);
  }
}
static void mem_init() {
  mem_ready = 1;
  map_fixed(ARENA, ARENA_SZ);
  map_fixed(SHADOW, ARENA_SZ * 8);
  map_fixed(MST, ARENA_SZ / 16);
  map_fixed(TOUCH, ARENA_SZ / 512);
  map_fixed(GSHADOW, (GHI - GLO) * 8);
  map_fixed(STKS, STKSZ * (MAXT + 1));
  brk_ = ARENA + 4096;
}
static inline bool in_arena(u64 a) { return a - ARENA < ARENA_SZ; }
static void mark_sync_granule(u64 a) {
  if (in_arena(a)) *(u8 *)(MST + ((a - ARENA) >> 4)) |= 4;
}

struct Hdr {
  u64 size;   // user size
  u32 cls;
  u32 magic;
};
static const u32 LIBMEM = 1u << 31;  // allocated by the library
static u64 lib_bytes = 0, lib_blocks = 0;
// SIM_LEAKS=1: where each block the library still holds was allocated (printed by leaks_dump)
struct Block {
  u64 a, n, seq;
  void *pc[16];
  int k;
};
static Block *leak_log = nullptr;
static u64 leak_n = 0, leak_seq = 0;
static void note_block(u64 a, u64 n) {
  if (leak_n == 200000) return;
  tl->inrt++;
  Block &b = leak_log[leak_n++];
  b.a = a, b.n = n, b.seq = ++leak_seq;
  b.k = backtrace(b.pc, 16);
  tl->inrt--;
}
static void drop_block(u64 a) {
  for (u64 i = leak_n; i-- > 0;)
    if (leak_log[i].a == a) {
      memmove(&leak_log[i], &leak_log[i + 1], (--leak_n - i) * sizeof(Block));
      return;
    }
}
u64 leaks_mark() {
  if (!leak_log && getenv("SIM_LEAKS")) leak_log = (Block *)mmap(nullptr, 200000 * sizeof(Block), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  return leak_seq;
}
void leaks_dump(u64 since) {
  for (u64 i = 0; i < leak_n; i++)
    if (leak_log[i].seq > since) {
      fprintf(stderr, "LEAK %llu bytes seq %llu:", (unsigned long long)leak_log[i].n, (unsigned long long)leak_log[i].seq);
      for (int k = 1; k < leak_log[i].k; k++) {
        Dl_info d;
        const char *f = dladdr(leak_log[i].pc[k], &d) ? strrchr(d.dli_fname, '/') : nullptr;
        fprintf(stderr, " %p(%s%s%s)", leak_log[i].pc[k], f ? f + 1 : "", f && d.dli_sname ? ":" : "", f && d.dli_sname ? d.dli_sname : "");
      }
      fprintf(stderr, "\n");
    }
}
enum { NCLS = 96 };
static u64 cls_size[NCLS];
static int ncls = 0;
struct FreeQ {
  u64 *ring;
};
static u64 fl_head[NCLS], fl_tail[NCLS];
static u64 fl_bytes[NCLS];
static void cls_init() {
  u64 s = 32;
  while (s < (512ull << 20) && ncls < NCLS) {
    cls_size[ncls++] = s;
    u64 n = s < 256 ? s + 32 : s + s / 4;
    s = (n + 31) & ~31ull;
  }
}
static int cls_of(u64 n) {
  int lo = 0, hi = ncls - 1;
  while (lo < hi) {
    int m = (lo + hi) / 2;
    if (cls_size[m] >= n)
      hi = m;
    else
      lo = m + 1;
  }
  return lo;
}
static void clear_shadow(u64 a, u64 n) {
  u64 e = a + n;
  a &= ~7ull;
  while (a < e) {
    u64 ce = (a | 511) + 1;
    if (ce > e) ce = (e + 7) & ~7ull;
    u64 ti = TOUCH + ((a - ARENA) >> 9);
    if (*(u8 *)ti) memset((void *)(SHADOW + (a - ARENA) * 8), 0, (ce - a) * 8);
    a = ce;
  }
}
static u64 QUAR = 1 << 15;  // per class quarantine bytes before reuse
static void *raw_alloc(u64 n, u64 align) {
  if (UNLIKELY(!mem_ready)) {
    mem_init();
    cls_init();
  }
  u64 need = n + 16 + (align > 16 ? align : 0);
  if (need < 32) need = 32;
  int c = cls_of(need);
  u64 p = 0;
  if (fl_head[c] && (fl_bytes[c] > QUAR)) {
    p = fl_head[c];
    fl_head[c] = *(u64 *)p;
    if (!fl_head[c]) fl_tail[c] = 0;
    fl_bytes[c] -= cls_size[c];
  } else {
    p = brk_;
    brk_ += cls_size[c];
    if (brk_ > ARENA + ARENA_SZ) {
      if (tl && active) {
        tl->inrt++;
        fail("memory", "simulated heap exhausted");
      }
      syscall(SYS_exit_group, 98);
    }
  }
  u64 user = p + 16;
  if (align > 16) user = (user + align - 1) & ~(align - 1);
  Hdr *h = (Hdr *)(user - 16);
  h->size = n;
  h->cls = (u32)c;
  if (active && tl && tl->lib > 0 && !tl->inrt) {
    h->cls |= LIBMEM;
    lib_bytes += n;
    lib_blocks++;
    if (UNLIKELY(leak_log != nullptr)) note_block((u64)user, n);
  }
  h->magic = (u32)(0x51A10000u | ((user - p) / 16 & 0xffff));
  if (active) {
    u64 g0 = (user - ARENA) >> 4, g1 = (user + (n ? n : 1) - 1 - ARENA) >> 4;
    memset((void *)(MST + g0), 1, g1 - g0 + 1);
    clear_shadow(user, n);
  } else {
    u64 g0 = (user - ARENA) >> 4, g1 = (user + (n ? n : 1) - 1 - ARENA) >> 4;
    memset((void *)(MST + g0), 1, g1 - g0 + 1);
  }
  return (void *)user;
}
static void raw_free(void *q) {
  u64 user = (u64)q;
  Hdr *h = (Hdr *)(user - 16);
  if ((h->magic & 0xffff0000u) != 0x51A10000u) {
    if (tl && active) {
      tl->inrt++;
      fail("memory", "invalid or double free at %p", q);
    }
    return;
  }
  u64 base = user - (u64)(h->magic & 0xffff) * 16;
  u64 n = h->size;
  int c = (int)(h->cls & ~LIBMEM);
  if (h->cls & LIBMEM) {
    lib_bytes -= n;
    lib_blocks--;
    if (UNLIKELY(leak_log != nullptr)) drop_block(user);
  }
  h->magic = 0xDEADF4EE;
  u64 g0 = (user - ARENA) >> 4, g1 = (user + (n ? n : 1) - 1 - ARENA) >> 4;
  u8 *m = (u8 *)MST;
  for (u64 g = g0; g <= g1; g++) {
    if (UNLIKELY(m[g] & 4)) sync_drop(ARENA + (g << 4));
    m[g] = 2;
  }
  if (active) memset(q, 0xEF, n < 2048 ? n : 2048);
  // list link stored at base (header area or padding)
  *(u64 *)base = 0;
  if (fl_tail[c])
    *(u64 *)fl_tail[c] = base;
  else
    fl_head[c] = base;
  fl_tail[c] = base;
  fl_bytes[c] += cls_size[c];
}

// ---- race detection
struct Slot {
  u32 clk;
  u8 tid, mask, fl, pad;
  u64 pc;
};
struct Cell {
  Slot s[4];
};
enum { FW = 1, FA = 2 };

static void report_uaf(Thr *t, u64 a, int sz, int w, u64 pc) {
  t->inrt++;
  fail("use-after-free", "%s of %d bytes of freed or unallocated memory by %s at pc 0x%llx (return 0x%llx)", w ? "write" : "read", sz, tname(t->id),
       (unsigned long long)pc, (unsigned long long)t->lastpc);
}
static int races_on = 1;
static void report_race(Thr *t, u64 a, int sz, int fl, u64 pc, Slot *o) {
  if (!races_on) return;
  t->inrt++;
  fail("data-race", "%s%s of %d bytes by %s at pc 0x%llx races with earlier %s%s by %s at pc 0x%llx", fl & FA ? "atomic " : "", fl & FW ? "write" : "read", sz,
       tname(t->id), (unsigned long long)pc, o->fl & FA ? "atomic " : "", o->fl & FW ? "write" : "read", tname(o->tid), (unsigned long long)o->pc);
}

static inline void check_word(Thr *t, Cell *c, u8 mask, int fl, u64 pc, u64 a, int sz) {
  Slot *own = nullptr, *empty = nullptr;
  for (int i = 0; i < 4; i++) {
    Slot *s = &c->s[i];
    if (!s->clk) {
      if (!empty) empty = s;
      continue;
    }
    if (s->tid == t->id) {
      if (s->mask == mask && (s->fl & FA) == (fl & FA)) {
        if ((s->fl & FW) == (fl & FW) || (fl & FW)) own = s;
        else if (s->clk == t->vc[t->id]) return;  // already have a stronger record in this epoch
      }
      continue;
    }
    if (!(s->mask & mask)) continue;
    if (!((s->fl | fl) & FW)) continue;
    if ((s->fl & fl) & FA) continue;
    if (s->clk > t->vc[s->tid]) report_race(t, a, sz, fl, pc, s);
  }
  Slot *d = own ? own : empty;
  if (!d) {
    // replace a record that is ordered before us if possible
    for (int i = 0; i < 4 && !d; i++)
      if (c->s[i].clk <= t->vc[c->s[i].tid]) d = &c->s[i];
    if (!d) d = &c->s[(t->mcount) & 3];
  }
  d->clk = t->vc[t->id];
  d->tid = (u8)t->id;
  d->mask = mask;
  d->fl = (u8)fl;
  d->pc = pc;
}

static inline void access(u64 a, int sz, int fl, u64 pc) {
  Thr *t = tl;
  if (UNLIKELY(!t || !active || t->lib <= 0 || (t->inrt | t->nomem))) return;
  if (a - (u64)t->stk_lo < STKSZ) return;
  res->st.mem_accesses++;
  if (UNLIKELY(++t->mcount >= t->mnext)) mem_point(t);
  u64 sh;
  if (in_arena(a)) {
    u8 m0 = *(u8 *)(MST + ((a - ARENA) >> 4));
    if (UNLIKELY(!(m0 & 1))) report_uaf(t, a, sz, fl & FW, pc);
    sh = SHADOW + ((a - ARENA) & ~7ull) * 8;
    *(u8 *)(TOUCH + ((a - ARENA) >> 9)) = 1;
    if (UNLIKELY(((a & 511) + sz) > 512)) *(u8 *)(TOUCH + ((a + sz - 1 - ARENA) >> 9)) = 1;
  } else if (a - GLO < GHI - GLO) {
    sh = GSHADOW + ((a - GLO) & ~7ull) * 8;
  } else
    return;
  int off = (int)(a & 7);
  int left = sz;
  while (left > 0) {
    int n = 8 - off < left ? 8 - off : left;
    u8 mask = (u8)(((1u << n) - 1) << off);
    check_word(t, (Cell *)sh, mask, fl, pc, a, sz);
    left -= n;
    off = 0;
    sh += 64;
  }
}
static void access_range(u64 a, u64 n, int fl, u64 pc) {
  if (!hooked()) return;
  while (n) {
    int k = (int)(8 - (a & 7));
    if ((u64)k > n) k = (int)n;
    access(a, k, fl, pc);
    a += k;
    n -= k;
  }
}

// ------------------------------------------------------------------ threads
static void alt_stack();
static void *thread_main(void *p) {
  Thr *t = (Thr *)p;
  tl = t;
  tok_wait(t);
  alt_stack();
  t->inrt = 0;
  t->ret = t->fn(t->arg);
  t->inrt++;
  Sync *s = sync_get(t);
  vc_release(t, s, false);
  t->state = ST_DONE;
  if (t->role == R_COMPUTE && t->compidx < 1024) comp_t1[t->compidx] = vtime;
  if (t->role == R_COMPUTE && t->bg >= 0 && t->bg < 1024) comp_exits[t->bg]++;
  for (int i = 0; i < nlive; i++)
    if (live[i] == t->id) {
      live[i] = live[--nlive];
      break;
    }
  trace("thread %s exits", tname(t->id));
  wake_all(t);
  // hand the token over and park for ever
  int r[MAXT], n;
  while ((n = runnable_list(r)) == 0)
    if (!advance_time()) {
      char b[2000];
      describe(b, sizeof b);
      fail("deadlock", "no thread can run; threads:%s", b);
    }
  int def = r[0];
  for (int i = 1; i < n; i++)
    if (r[i] < def) def = r[i];
  int next = def;
  if (n > 1) {
    if (cfg.replay) {
      const Dec *d = rlookup('B', t->id, t->step);
      if (d && d->arg < (u64)nthr && thr[d->arg].state == ST_RUN) next = (int)d->arg;
    } else {
      next = cfg.strategy == 1 ? pick_pct(r, n) : r[srng.below(n)];
      if (next != def) log_dec('B', 1, t->id, t->step, next);
    }
  }
  cur = next;
  ileave_hash = fnv(ileave_hash, ((u64)t->id << 8) | next);
  tok_post(&thr[next]);
  for (;;) {
    int z = 0;
    futex(&z, FUTEX_WAIT_PRIVATE, 0);
  }
  return nullptr;
}

static Thr *make_thread(void *(*fn)(void *), void *arg, int role) {
  if (nthr >= MAXT) harness_error("too many threads in one run");
  Thr *t = &thr[nthr];
  memset(t, 0, sizeof *t);
  t->id = nthr++;
  nvc = nthr;
  t->role = role;
  t->fn = fn;
  t->arg = arg;
  t->inrt = 1;
  t->lib = role == R_HARNESS ? 0 : 1;
  t->state = ST_RUN;
  t->stk_lo = (char *)(STKS + STKSZ * t->id);
  t->stk_hi = t->stk_lo + STKSZ;
  t->prio = 2000000 + (cfg.replay ? 0 : srng.below(1000000));
  t->vc[t->id] = 1;
  if (tl) {
    for (int i = 0; i < nvc; i++)
      if (tl->vc[i] > t->vc[i]) t->vc[i] = tl->vc[i];
    tl->vc[tl->id]++;
  }
  mem_init_thread(t);
  live[nlive++] = t->id;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, t->stk_lo, STKSZ);
  if (!real_pcreate) real_pcreate = (pcreate_t)dlsym(RTLD_NEXT, "pthread_create");
  int rc = real_pcreate(&t->real, &at, thread_main, t);
  if (rc) harness_error("real pthread_create failed: %d", rc);
  pthread_attr_destroy(&at);
  return t;
}

void set_report_races(int on) { races_on = on; }
void set_quarantine(unsigned long n) { QUAR = n; }
int spawn(void (*fn)(void *), void *arg) {
  Thr *t = tl;
  t->inrt++;
  Thr *n = make_thread((void *(*)(void *))fn, arg, R_HARNESS);
  t->inrt--;
  return n->id;
}
static void join_thr(Thr *n) {
  Thr *t = tl;
  t->inrt++;
  while (n->state != ST_DONE) block_on(n, "join");
  Sync *s = sync_get(n);
  vc_acquire(t, s);
  t->inrt--;
}
void join(int tid) { join_thr(&thr[tid]); }
u64 library_bytes() { return lib_bytes; }
u64 library_blocks() { return lib_blocks; }
int live_library_threads() {
  int n = 0;
  for (int i = 0; i < nlive; i++)
    if (thr[live[i]].role != R_HARNESS) n++;
  return n;
}
void enter(u64 opuid) {
  Thr *t = tl;
  t->opuid = opuid;
  t->op_allocs = t->op_big = 0;
  t->op_alloc_fired = 0;
  t->burst = 0;
  t->lib++;
}
void leave() {
  Thr *t = tl;
  t->lib--;
  t->opuid = 0;
  t->burst = 0;
}
bool alloc_fault_fired_in_op() { return tl->op_alloc_fired; }
u64 solvers_started() { return n_solver; }
u64 alloc_faults_here() { return tl->alloc_hits; }
u64 alloc_fault_count() { return fault_op_fired_total; }
void no_preempt(int d) { tl->nopre += d; }
void sleep_ns(u64 ns) {
  Thr *t = tl;
  t->inrt++;
  do_sleep(ns);
  t->inrt--;
}
void sleep_until(u64 w) {
  if (w > vtime) sleep_ns(w - vtime);
}
void point() {
  Thr *t = tl;
  t->inrt++;
  sync_point(t);
  t->inrt--;
}

void run_begin(const SchedCfg &c, const Fault *f, int nf, const Dec *d, u32 nd) {
  cfg = c;
  srng = Rng(c.seed);
  nfaults = nf < MAXFAULT ? nf : MAXFAULT;
  for (int i = 0; i < nfaults; i++) faults[i] = f[i];
  rdec = d;
  nrdec = c.replay ? nd : 0;
  if (nrdec) {
    u32 m = 1024;
    while (m < nrdec * 2) m <<= 1;
    rmask = m - 1;
    rhash = (u32 *)rt_alloc(sizeof(u32) * m);
    for (u32 i = 0; i < nrdec; i++) {
      u32 k = (u32)dkey(d[i].kind, d[i].tid, d[i].step) & rmask;
      while (rhash[k]) k = (k + 1) & rmask;
      rhash[k] = i + 1;
      if (d[i].kind == 'M' && d[i].tid < MAXT) nrmem[d[i].tid]++;
    }
    for (int t = 0; t < MAXT; t++)
      if (nrmem[t]) {
        rmem[t] = (u64 *)rt_alloc(8 * nrmem[t]);
        nrmem[t] = 0;
      }
    for (u32 i = 0; i < nrdec; i++)
      if (d[i].kind == 'M' && d[i].tid < MAXT) rmem[d[i].tid][nrmem[d[i].tid]++] = d[i].step;
    for (int t = 0; t < MAXT; t++)
      if (nrmem[t]) qsort(rmem[t], nrmem[t], 8, cmp_u64);
  }
  npct = 0;
  if (!c.replay && c.strategy == 1) {
    npct = c.pct_d < 32 ? c.pct_d : 32;
    for (int i = 0; i < npct; i++) pct_change[i] = 1 + srng.below(c.pct_len);
  }
  vtime = 1000000000ull;
  // canonical heap for the run, whatever the parent process allocated before
  brk_ = ARENA + (ARENA_SZ >> 2);
  for (int i = 0; i < NCLS; i++) fl_head[i] = fl_tail[i] = fl_bytes[i] = 0;
}

// fatal signals inside the simulated process
static void on_signal(int sig) {
  if (tl) tl->inrt++;
  fail(sig == SIGABRT ? "abort" : "crash", "signal %d (%s) in %s", sig, strsignal(sig), tl ? tname(tl->id) : "?");
}
static void arm_signals() {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  int s[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
  for (int x : s) sigaction(x, &sa, nullptr);
}
static void alt_stack() {
  stack_t st;
  memset(&st, 0, sizeof st);
  st.ss_size = 65536;
  st.ss_sp = rt_alloc(st.ss_size);
  sigaltstack(&st, nullptr);
}

struct MainArg {
  void (*fn)(void *);
  void *arg;
};
static MainArg marg;
static void *main_tramp(void *) {
  marg.fn(marg.arg);
  tl->inrt++;
  if (res->status == 0) res->status = 1;
  finish_child();
  return nullptr;
}
void run_main(void (*fn)(void *), void *arg) {
  marg.fn = fn;
  marg.arg = arg;
  arm_signals();
  active = 1;
  Thr *t = make_thread(main_tramp, nullptr, R_HARNESS);
  cur = 0;
  tok_post(t);
  for (;;) {
    int z = 0;
    futex(&z, FUTEX_WAIT_PRIVATE, 0);
  }
}

struct InRt {
  Thr *t;
  InRt() : t(tl) { t->inrt++; }
  ~InRt() { t->inrt--; }
};
}  // namespace sim
using namespace sim;

// ================================================================== interposed: allocation
// Call sites of malloc whose result Eigen does not check: a failure there is a defect of Eigen, not of the repository
static u64 nofail[1024];
static int nnofail;
namespace sim {
void nofail_pc(u64 pc) {
  if (nnofail < 1024) nofail[nnofail++] = pc;
}
}  // namespace sim
static bool alloc_should_fail(u64 n, u64 pc = 0) {
  Thr *t = tl;
  if (!t || !active || t->inrt || t->lib <= 0) return false;
  res->st.allocs++;
  t->allocs++;
  t->op_allocs++;
  u64 big = n >= 600 ? BIG_ALLOC + ++t->op_big : 0;  // faults may count large blocks only
  if (!nfaults) return false;
  for (int i = 0; pc && i < nnofail; i++)
    if (nofail[i] == pc) return false;
  if (t->role == R_COMPUTE) {
    for (int i = 0; i < nfaults; i++)
      if (faults[i].kind == F_ALLOC_COMPUTE && faults[i].n == (u64)t->compidx && faults[i].arg == t->allocs) {
        fired(F_ALLOC_COMPUTE);
        t->op_alloc_fired = 1;
        trace("alloc fault in compute %d alloc %llu size %llu", t->compidx, (unsigned long long)t->allocs, (unsigned long long)n);
        return true;
      }
  } else if (t->role == R_BG) {
    n_bgalloc++;
    if (find_fault(F_ALLOC_BG, n_bgalloc)) {
      fired(F_ALLOC_BG);
      trace("alloc fault in generator thread, alloc %llu", (unsigned long long)n_bgalloc);
      return true;
    }
  } else if (t->opuid) {
    if (t->burst) return true;
    for (int i = 0; i < nfaults; i++)
      if ((faults[i].kind == F_ALLOC_OP || faults[i].kind == F_ALLOC_OPB) && (faults[i].n == t->opuid || (faults[i].n == EVAL_UID && t->opuid > EVAL_UID && faults[i].arg2)) && (faults[i].arg == t->op_allocs || faults[i].arg == big)) {
        if (faults[i].n == EVAL_UID) faults[i].arg2--;
        fired(faults[i].kind);
        t->op_alloc_fired = 1;
        t->alloc_hits++;
        fault_op_fired_total++;
        if (faults[i].kind == F_ALLOC_OPB) t->burst = 1;
        trace("alloc fault in op %llu alloc %llu size %llu", (unsigned long long)t->opuid, (unsigned long long)t->op_allocs, (unsigned long long)n);
        return true;
      }
  }
  return false;
}
EXPORT pid_t getpid(void) { return tl && active ? 4242 : (pid_t)syscall(SYS_getpid); }
EXPORT void *malloc(size_t n) {
  if (UNLIKELY(alloc_should_fail(n, (u64)__builtin_return_address(0)))) {
    errno = ENOMEM;
    return nullptr;
  }
  return raw_alloc(n, 16);
}
EXPORT void free(void *p) {
  if (!p) return;
  if (!in_arena((u64)p)) return;
  raw_free(p);
}
EXPORT void *calloc(size_t a, size_t b) {
  size_t n = a * b;
  if (UNLIKELY(alloc_should_fail(n))) {
    errno = ENOMEM;
    return nullptr;
  }
  void *p = raw_alloc(n, 16);
  memset(p, 0, n);
  return p;
}
EXPORT void *realloc(void *o, size_t n) {
  if (UNLIKELY(alloc_should_fail(n, (u64)__builtin_return_address(0)))) {
    errno = ENOMEM;
    return nullptr;
  }
  void *p = raw_alloc(n, 16);
  if (!o) return p;
  Hdr *h = (Hdr *)((u64)o - 16);
  memcpy(p, o, h->size < n ? h->size : n);
  raw_free(o);
  return p;
}
EXPORT void *memalign(size_t al, size_t n) {
  if (UNLIKELY(alloc_should_fail(n))) return nullptr;
  return raw_alloc(n, al < 16 ? 16 : al);
}
EXPORT void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXPORT int posix_memalign(void **out, size_t al, size_t n) {
  void *p = memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
EXPORT void *valloc(size_t n) { return memalign(4096, n); }
EXPORT size_t malloc_usable_size(void *p) { return p ? ((Hdr *)((u64)p - 16))->size : 0; }

// ================================================================== interposed: threads
EXPORT int pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!tl || !active) {
    if (!real_pcreate) real_pcreate = (pcreate_t)dlsym(RTLD_NEXT, "pthread_create");
    return real_pcreate(out, at, fn, arg);
  }
  InRt g;
  Thr *t = tl;
  sync_point(t);
  int role = t->role == R_HARNESS ? R_BG : R_COMPUTE;
  if (t->role == R_BG) {
    u64 k = ++n_bgcreate;
    for (int i = 0; i < nfaults; i++)
      if (faults[i].kind == F_THREAD && k >= faults[i].n && k < faults[i].n + faults[i].arg) {
        fired(F_THREAD);
        trace("thread creation fault at attempt %llu", (unsigned long long)k);
        return EAGAIN;
      }
  }
  Thr *n = make_thread(fn, arg, role);
  n->bg = role == R_BG ? n->id : t->bg;
  if (role == R_BG) last_bg = n->id;
  if (role == R_COMPUTE) {
    n->compidx = (int)++n_compute_threads;
    if (n->compidx < 1024) comp_t0[n->compidx] = vtime;
  }
  trace("creates %s", tname(n->id));
  *out = (pthread_t)n;
  sync_point(t);
  return 0;
}
EXPORT int pthread_join(pthread_t th, void **ret) {
  Thr *n = (Thr *)th;
  if (!tl || !active) return 0;
  InRt g;
  sync_point(tl);
  join_thr(n);
  if (ret) *ret = n->ret;
  return 0;
}
EXPORT pthread_t pthread_self() {
  static pthread_t (*real)();
  if (tl && active && tl->lib > 0 && !tl->inrt) return (pthread_t)tl;
  if (!real) real = (pthread_t(*)())dlsym(RTLD_NEXT, "pthread_self");
  return real();
}
EXPORT int pthread_detach(pthread_t th) {
  if (tl && active) ((Thr *)th)->detached = 1;
  return 0;
}

// ================================================================== interposed: mutexes
static void check_live(Thr *t, const void *m, const char *what) {
  u64 a = (u64)m;
  if (in_arena(a) && !(*(u8 *)(MST + ((a - ARENA) >> 4)) & 1)) fail("use-after-free", "%s on freed memory by %s", what, tname(t->id));
}
static void deadlock_check(Thr *t, Sync *s) {
  int o = s->owner, n = 0;
  while (o >= 0 && n++ < MAXT) {
    if (o == t->id) {
      char b[2000];
      describe(b, sizeof b);
      fail("deadlock", "%s waits for a mutex in a cycle of owners; threads:%s", tname(t->id), b);
    }
    Thr *x = &thr[o];
    if (x->state == ST_DONE) fail("deadlock", "%s waits for a mutex held by a finished thread", tname(t->id));
    if (x->state != ST_BLOCK || x->timed || !x->waitobj || !x->waitwhat || strcmp(x->waitwhat, "mutex")) return;
    o = sync_get(x->waitobj)->owner;
  }
}
static int mutex_acquire(void *m, bool timed, u64 wake, bool recursive) {
  Thr *t = tl;
  check_live(t, m, "lock");
  Sync *s = sync_get(m);
  if (s->owner == t->id) {
    if (recursive) {
      s->count++;
      return 0;
    }
    if (!timed) fail("deadlock", "%s locks a mutex it already holds", tname(t->id));
  }
  while (s->owner != -1) {
    if (!timed) deadlock_check(t, s);
    if (block_on(m, "mutex", timed, wake)) return ETIMEDOUT;
    s = sync_get(m);
  }
  s->owner = t->id;
  s->count = 1;
  vc_acquire(t, s);
  return 0;
}
static bool is_rec(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!hooked()) return 0;
  InRt g;
  sync_point(tl);
  return mutex_acquire(m, false, 0, is_rec(m));
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!hooked()) return 0;
  InRt g;
  sync_point(tl);
  check_live(tl, m, "trylock");
  Sync *s = sync_get(m);
  if (s->owner == tl->id && is_rec(m)) {
    s->count++;
    return 0;
  }
  if (s->owner != -1) return EBUSY;
  s->owner = tl->id;
  s->count = 1;
  vc_acquire(tl, s);
  return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!hooked()) return 0;
  InRt g;
  Thr *t = tl;
  check_live(t, m, "unlock");
  Sync *s = sync_get(m);
  if (s->owner != t->id) fail("bad-unlock", "%s unlocks a mutex it does not hold (undefined behaviour)", tname(t->id));
  if (--s->count == 0) {
    vc_release(t, s, false);
    s->owner = -1;
    wake_all(m);
  }
  sync_point(t);
  return 0;
}
static u64 abs_to_v(const struct timespec *ts, int clk) {
  u64 a = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
  if (clk == CLOCK_REALTIME) return a - (1700000000ull * 1000000000ull + rt_off);
  return a;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
  if (!hooked()) return 0;
  InRt g;
  sync_point(tl);
  return mutex_acquire(m, true, abs_to_v(ts, CLOCK_REALTIME), is_rec(m));
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) {
  if (!hooked()) return 0;
  InRt g;
  sync_point(tl);
  return mutex_acquire(m, true, abs_to_v(ts, c), is_rec(m));
}
EXPORT int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  memset(m, 0, sizeof *m);
  if (a) {
    int k = 0;
    pthread_mutexattr_gettype(a, &k);
    m->__data.__kind = k;
  }
  return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }

// rwlocks
static int rw_lock(void *l, bool wr, bool tr) {
  Thr *t = tl;
  sync_point(t);
  Sync *s = sync_get(l);
  for (;;) {
    s = sync_get(l);
    if (wr ? (s->owner == -1 && s->count == 0) : s->owner == -1) break;
    if (s->owner == t->id) fail("deadlock", "%s re-locks an rwlock it holds", tname(t->id));
    if (tr) return EBUSY;
    block_on(l, "rwlock");
  }
  if (wr)
    s->owner = t->id;
  else
    s->count++;
  vc_acquire(t, s);
  return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  if (!hooked()) return 0;
  InRt g;
  return rw_lock(l, false, false);
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  if (!hooked()) return 0;
  InRt g;
  return rw_lock(l, true, false);
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
  if (!hooked()) return 0;
  InRt g;
  return rw_lock(l, false, true);
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
  if (!hooked()) return 0;
  InRt g;
  return rw_lock(l, true, true);
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!hooked()) return 0;
  InRt g;
  Thr *t = tl;
  Sync *s = sync_get(l);
  vc_release(t, s, false);
  if (s->owner == t->id)
    s->owner = -1;
  else if (s->count > 0)
    s->count--;
  else
    fail("bad-unlock", "%s unlocks an rwlock nobody holds", tname(t->id));
  wake_all(l);
  sync_point(t);
  return 0;
}

// condition variables
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, u64 wake) {
  Thr *t = tl;
  sync_point(t);
  Sync *s = sync_get(m);
  if (s->owner != t->id) fail("bad-unlock", "%s waits on a condition without holding the mutex", tname(t->id));
  vc_release(t, s, false);
  s->owner = -1;
  s->count = 0;
  wake_all(m);
  int to = block_on(c, "condition", timed, wake);
  mutex_acquire(m, false, 0, false);
  vc_acquire(t, sync_get(c));
  return to ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!hooked()) return 0;
  InRt g;
  return cond_wait(c, m, false, 0);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (!hooked()) return 0;
  InRt g;
  return cond_wait(c, m, true, abs_to_v(ts, CLOCK_REALTIME));
}
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
  if (!hooked()) return 0;
  InRt g;
  return cond_wait(c, m, true, abs_to_v(ts, k));
}
EXPORT int pthread_cond_signal(pthread_cond_t *c) {
  if (!hooked()) return 0;
  InRt g;
  sync_point(tl);
  vc_release(tl, sync_get(c), false);
  wake_one(c);
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!hooked()) return 0;
  InRt g;
  sync_point(tl);
  vc_release(tl, sync_get(c), false);
  wake_all(c);
  return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t *c) { return 0; }
EXPORT int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) {
  memset(c, 0, sizeof *c);
  return 0;
}

// once
EXPORT int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  if (!hooked()) {
    if (*o != 2) {
      *o = 2;
      fn();
    }
    return 0;
  }
  Thr *t = tl;
  {
    InRt g;
    sync_point(t);
    Sync *s = sync_get(o);
    for (;;) {
      s = sync_get(o);
      if (*o == 2) {
        vc_acquire(t, s);
        return 0;
      }
      if (s->once != 1) break;
      block_on(o, "once");
    }
    s->once = 1;
  }
  try {
    fn();
  } catch (...) {
    InRt g;
    sync_get(o)->once = 0;
    wake_all(o);
    throw;
  }
  InRt g;
  Sync *s = sync_get(o);
  s->once = 2;
  *o = 2;
  vc_release(t, s, false);
  wake_all(o);
  return 0;
}

// function-local statics
EXPORT int __cxa_guard_acquire(u64 *gp) {
  char *b = (char *)gp;
  if (!hooked()) {
    if (b[0]) return 0;
    return 1;
  }
  InRt g;
  Thr *t = tl;
  sync_point(t);
  for (;;) {
    if (b[0]) {
      vc_acquire(t, sync_get(gp));
      return 0;
    }
    if (!b[1]) break;
    block_on(gp, "static-init");
  }
  b[1] = 1;
  return 1;
}
EXPORT void __cxa_guard_release(u64 *gp) {
  char *b = (char *)gp;
  b[0] = 1;
  b[1] = 0;
  if (!hooked()) return;
  InRt g;
  vc_release(tl, sync_get(gp), false);
  wake_all(gp);
}
EXPORT void __cxa_guard_abort(u64 *gp) {
  char *b = (char *)gp;
  b[1] = 0;
  if (!hooked()) return;
  InRt g;
  wake_all(gp);
}

// std::future / promise blocking
#pragma GCC diagnostic push
namespace std {
__attribute__((visibility("default"))) bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *addr, unsigned val, bool has_to, chrono::seconds s, chrono::nanoseconds ns) {
  if (!tl || !active) return true;
  InRt g;
  sync_point(tl);
  if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return true;
  u64 w = 0;
  if (has_to) w = (u64)(s.count() * 1000000000ll + ns.count()) - (1700000000ull * 1000000000ull + rt_off);
  return !block_on(addr, "future", has_to, w);
}
__attribute__((visibility("default"))) bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned *addr, unsigned val, bool has_to, chrono::seconds s, chrono::nanoseconds ns) {
  if (!tl || !active) return true;
  InRt g;
  sync_point(tl);
  if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return true;
  u64 w = 0;
  if (has_to) w = (u64)(s.count() * 1000000000ll + ns.count());
  return !block_on(addr, "future", has_to, w);
}
__attribute__((visibility("default"))) void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *addr) {
  if (!tl || !active) return;
  InRt g;
  wake_all(addr);
  sync_point(tl);
}
}  // namespace std

// ================================================================== interposed: time
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!tl || !active) return (int)syscall(SYS_clock_gettime, c, ts);
  u64 v = vtime;
  if (hooked()) {
    InRt g;
    sync_point(tl);
    v = vtime;
  }
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
    if (tl->lib > 0 && !tl->inrt) {
      n_rt++;
      Fault *f = find_fault(F_RTJUMP, n_rt);
      if (f) {
        rt_off += (int64_t)f->arg;
        fired(F_RTJUMP);
      }
    }
    v += 1700000000ull * 1000000000ull + rt_off;
  }
  ts->tv_sec = v / 1000000000ull;
  ts->tv_nsec = v % 1000000000ull;
  return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
EXPORT time_t time(time_t *o) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (o) *o = ts.tv_sec;
  return ts.tv_sec;
}
EXPORT int nanosleep(const struct timespec *rq, struct timespec *rem) {
  if (!tl || !active) return (int)syscall(SYS_nanosleep, rq, rem);
  InRt g;
  u64 d = (u64)rq->tv_sec * 1000000000ull + rq->tv_nsec;
  n_sleep++;
  Fault *f = find_fault(F_EINTR, n_sleep);
  if (f) {
    fired(F_EINTR);
    u64 h = d / 2;
    do_sleep(h);
    if (rem) {
      rem->tv_sec = (d - h) / 1000000000ull;
      rem->tv_nsec = (d - h) % 1000000000ull;
    }
    errno = EINTR;
    return -1;
  }
  do_sleep(d);
  return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *rq, struct timespec *rem) {
  if (!tl || !active) return (int)syscall(SYS_clock_nanosleep, c, fl, rq, rem);
  if (fl & TIMER_ABSTIME) {
    InRt g;
    u64 w = abs_to_v(rq, c);
    do_sleep(w > vtime ? w - vtime : 0);
    return 0;
  }
  return nanosleep(rq, rem) ? errno : 0;
}
EXPORT int usleep(useconds_t us) {
  struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
EXPORT unsigned sleep(unsigned s) {
  struct timespec ts = {(time_t)s, 0};
  nanosleep(&ts, nullptr);
  return 0;
}
EXPORT int sched_yield() {
  if (!hooked()) return 0;
  InRt g;
  sync_point(tl);
  return 0;
}

// ================================================================== interposed: solver
typedef struct nlopt_opt_s *nlopt_opt;
typedef int (*nlopt_fn)(nlopt_opt, double *, double *);
EXPORT int nlopt_optimize(nlopt_opt o, double *x, double *minf) {
  static nlopt_fn real;
  static int (*setmax)(nlopt_opt, int);
  static int (*getmax)(nlopt_opt);
  if (!real) {
    real = (nlopt_fn)dlsym(RTLD_NEXT, "nlopt_optimize");
    setmax = (int (*)(nlopt_opt, int))dlsym(RTLD_NEXT, "nlopt_set_maxeval");
    getmax = (int (*)(nlopt_opt))dlsym(RTLD_NEXT, "nlopt_get_maxeval");
  }
  if (!tl || !active) return real(o, x, minf);
  u64 n, d = 30000000ull;
  int override_rc = 0, have = 0, cap = 0, skip = 0;
  {
    InRt g;
    n = ++n_solver;
    Fault *f = find_fault(F_SOLVER_DUR, n);
    if (!f) f = find_fault(F_SOLVER_DUR, 0);
    if (f) {
      d = f->arg;
      fired(F_SOLVER_DUR);
    }
    f = find_fault(F_SOLVER_MAXEVAL, n);
    if (!f) f = find_fault(F_SOLVER_MAXEVAL, 0);
    if (f) {
      cap = (int)f->arg;
      fired(F_SOLVER_MAXEVAL);
    }
    f = find_fault(F_SOLVER_RESULT, n);
    if (f) {
      override_rc = (int)(int64_t)f->arg;
      have = 1;
      if (f->arg2 == 0) skip = 1;
      else cap = (int)f->arg2;
      fired(F_SOLVER_RESULT);
    }
    trace("solver %llu takes %.4f s cap %d", (unsigned long long)n, d * 1e-9, cap);
    do_sleep(d / 2 + 1);
  }
  int m = getmax(o);
  if (cap > 0 && (m <= 0 || cap < m)) setmax(o, cap);
  // the solver works on data of its own: looked at only when races are searched for
  if (!races_on) tl->nomem++;
  int rc = skip ? override_rc : real(o, x, minf);
  if (!races_on) tl->nomem--;
  setmax(o, m);
  {
    InRt g;
    do_sleep(d / 2 + 1);
  }
  return have ? override_rc : rc;
}
EXPORT void nlopt_srand_time(void) {
  static void (*sr)(unsigned long);
  if (!sr) sr = (void (*)(unsigned long))dlsym(RTLD_NEXT, "nlopt_srand");
  if (sr) sr(12345);
}

// ================================================================== instrumentation entry points
#define PC ((u64)__builtin_return_address(0))
#define RW(N)                                                                                     \
  EXPORT void __tsan_read##N(void *a) { access((u64)a, N, 0, PC); }                               \
  EXPORT void __tsan_write##N(void *a) { access((u64)a, N, FW, PC); }                             \
  EXPORT void __tsan_unaligned_read##N(void *a) { access((u64)a, N, 0, PC); }                     \
  EXPORT void __tsan_unaligned_write##N(void *a) { access((u64)a, N, FW, PC); }                   \
  EXPORT void __tsan_read_write##N(void *a) { access((u64)a, N, FW, PC); }                        \
  EXPORT void __tsan_unaligned_read_write##N(void *a) { access((u64)a, N, FW, PC); }              \
  EXPORT void __tsan_volatile_read##N(void *a) { access((u64)a, N, 0, PC); }                      \
  EXPORT void __tsan_volatile_write##N(void *a) { access((u64)a, N, FW, PC); }                    \
  EXPORT void __tsan_unaligned_volatile_read##N(void *a) { access((u64)a, N, 0, PC); }            \
  EXPORT void __tsan_unaligned_volatile_write##N(void *a) { access((u64)a, N, FW, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *pc) {
  if (tl) tl->lastpc = (u64)pc;
}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_vptr_update(void **a, void *v) {
  if (*a != v) access((u64)a, 8, FW, PC);
}
EXPORT void __tsan_vptr_read(void **a) { access((u64)a, 8, 0, PC); }
EXPORT void __tsan_read_range(void *a, unsigned long n) { access_range((u64)a, n, 0, PC); }
EXPORT void __tsan_write_range(void *a, unsigned long n) { access_range((u64)a, n, FW, PC); }
EXPORT void *__tsan_memcpy(void *d, const void *s, unsigned long n) {
  access_range((u64)s, n, 0, PC);
  access_range((u64)d, n, FW, PC);
  return memcpy(d, s, n);
}
EXPORT void *__tsan_memmove(void *d, const void *s, unsigned long n) {
  access_range((u64)s, n, 0, PC);
  access_range((u64)d, n, FW, PC);
  return memmove(d, s, n);
}
EXPORT void *__tsan_memset(void *d, int c, unsigned long n) {
  access_range((u64)d, n, FW, PC);
  return memset(d, c, n);
}
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}

static inline void at_pre(const volatile void *a, int sz, bool w, u64 pc) {
  InRt g;
  Thr *t = tl;
  sync_point(t);
  t->inrt--;
  // recorded as atomic access for mixed atomic/plain races
  u64 mn = t->mnext;
  t->mnext = ~0ull;
  access((u64)a, sz, (w ? FW : 0) | FA, pc);
  t->mnext = mn;
  t->inrt++;
}
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline void at_acq(const volatile void *a, int mo) {
  if (acq(mo)) vc_acquire(tl, sync_get((const void *)a));
}
static inline void at_rel(const volatile void *a, int mo, bool store) {
  if (rel(mo)) {
    vc_release(tl, sync_get((const void *)a), store);
  } else if (store) {
    Sync *s = sync_get((const void *)a);
    if (s->vc) memset(s->vc, 0, sizeof(u32) * MAXT);
  }
}
#define ATOMICS(B, T)                                                                             \
  EXPORT T __tsan_atomic##B##_load(const volatile T *a, int mo) {                                 \
    if (!hooked()) return *a;                                                                     \
    at_pre(a, sizeof(T), false, PC);                                                              \
    InRt g;                                                                                       \
    at_acq(a, mo);                                                                                \
    return *a;                                                                                    \
  }                                                                                               \
  EXPORT void __tsan_atomic##B##_store(volatile T *a, T v, int mo) {                              \
    if (!hooked()) {                                                                              \
      *a = v;                                                                                     \
      return;                                                                                     \
    }                                                                                             \
    at_pre(a, sizeof(T), true, PC);                                                               \
    InRt g;                                                                                       \
    at_rel(a, mo, true);                                                                          \
    *a = v;                                                                                       \
  }                                                                                               \
  EXPORT T __tsan_atomic##B##_exchange(volatile T *a, T v, int mo) {                              \
    if (!hooked()) {                                                                              \
      T o = *a;                                                                                   \
      *a = v;                                                                                     \
      return o;                                                                                   \
    }                                                                                             \
    at_pre(a, sizeof(T), true, PC);                                                               \
    InRt g;                                                                                       \
    at_acq(a, mo);                                                                                \
    at_rel(a, mo, false);                                                                         \
    T o = *a;                                                                                     \
    *a = v;                                                                                       \
    return o;                                                                                     \
  }                                                                                               \
  EXPORT int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int fmo) { \
    if (!hooked()) {                                                                              \
      if (*a == *e) {                                                                             \
        *a = v;                                                                                   \
        return 1;                                                                                 \
      }                                                                                           \
      *e = *a;                                                                                    \
      return 0;                                                                                   \
    }                                                                                             \
    at_pre(a, sizeof(T), true, PC);                                                               \
    InRt g;                                                                                       \
    if (*a == *e) {                                                                               \
      at_acq(a, mo);                                                                              \
      at_rel(a, mo, false);                                                                       \
      *a = v;                                                                                     \
      return 1;                                                                                   \
    }                                                                                             \
    at_acq(a, fmo);                                                                               \
    *e = *a;                                                                                      \
    return 0;                                                                                     \
  }                                                                                               \
  EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int fmo) { \
    return __tsan_atomic##B##_compare_exchange_strong(a, e, v, mo, fmo);                          \
  }                                                                                               \
  EXPORT T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T e, T v, int mo, int fmo) {    \
    __tsan_atomic##B##_compare_exchange_strong(a, &e, v, mo, fmo);                                \
    return e;                                                                                     \
  }
#define RMW(B, T, NAME, EXPR)                                                                     \
  EXPORT T __tsan_atomic##B##_fetch_##NAME(volatile T *a, T v, int mo) {                          \
    if (!hooked()) {                                                                              \
      T o = *a;                                                                                   \
      *a = (T)(EXPR);                                                                             \
      return o;                                                                                   \
    }                                                                                             \
    at_pre(a, sizeof(T), true, PC);                                                               \
    InRt g;                                                                                       \
    at_acq(a, mo);                                                                                \
    at_rel(a, mo, false);                                                                         \
    T o = *a;                                                                                     \
    *a = (T)(EXPR);                                                                               \
    return o;                                                                                     \
  }
#define ALLA(B, T)                                                                                \
  ATOMICS(B, T) RMW(B, T, add, o + v) RMW(B, T, sub, o - v) RMW(B, T, and, o &v) RMW(B, T, or, o | v) RMW(B, T, xor, o ^ v) RMW(B, T, nand, ~(o & v))
ALLA(8, u8) ALLA(16, uint16_t) ALLA(32, u32) ALLA(64, u64)
EXPORT void __tsan_atomic_thread_fence(int) {
  if (!hooked()) return;
  InRt g;
  sync_point(tl);
}
EXPORT void __tsan_atomic_signal_fence(int) {}
#include "fs.inc"
