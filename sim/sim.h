// Deterministic simulator: public interface used by the harness (plan, workload, oracles).
#pragma once
#include <cstdint>
#include <cstddef>
#pragma GCC visibility push(default)
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

namespace sim {

enum { MAXT = 240 };

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u(); }
  double logu(double a, double b);
  bool p(double pr) { return u() < pr; }
};

// One scheduling decision (non-default). kind: 'S' sync point, 'B' forced choice when blocked,
// 'M' memory point. act: 1 switch to tid arg, 2 stall for arg ns.
struct Dec {
  u8 kind, act;
  u32 tid;
  u64 step;
  u64 arg;
};

// Fault plan entry.
enum FaultKind {
  F_SOLVER_DUR = 1,   // n-th computation takes arg ns of simulated time
  F_SOLVER_RESULT,    // n-th computation: solver stops: arg = code (see rt)
  F_SOLVER_MAXEVAL,   // n-th computation: evaluation budget arg
  F_ALLOC_COMPUTE,    // n-th computation thread: allocation number arg fails
  F_ALLOC_OP,         // harness op uid n: allocation number arg fails inside it
  F_THREAD,           // n-th thread creation by the library background thread fails (arg times)
  F_ALLOC_OPB,        // as F_ALLOC_OP but every later allocation of the op fails too
  F_RTJUMP,           // n-th real-time clock read: jump by arg ns (signed)
  F_IO,               // file op number n: arg = kind
  F_EINTR,            // n-th sleep is interrupted early
  F_ALLOC_BG,         // background (generator) thread: allocation number n fails
  F_KINDS
};
struct Fault {
  int kind;
  u64 n;
  u64 arg;
  u64 arg2;
};

enum { MAXDEC = 400000, MAXFAULT = 64 };

struct SchedCfg {
  int replay;        // 1: follow decision table, no randomness
  u64 seed;
  int strategy;      // 0 random walk, 1 PCT, 2 run-to-block
  double pswitch;    // per sync point
  double pstall;     // per sync point
  double stall_max;  // seconds
  int memskip;       // mean number of accesses between memory points, 0 = off
  int pct_d;
  u64 pct_len;
  u64 tick_ns;       // virtual cost of a sync point
};

struct Stats {
  u64 sync_points, mem_points, mem_accesses, switches, stalls, threads, computes, vtime_ns, allocs;
  u64 fired[F_KINDS];
  u64 forced;
};

// Result block in shared memory.
struct Res {
  volatile int status;  // 0 running/crashed, 1 ok, 2 violation, 3 harness error
  char cls[64];
  char msg[3000];
  u64 hash;
  Stats st;
  u64 probes[64];
  u64 ileave;   // hash of the order of library-level synchronisation (interleaving measure)
  u64 state_hash;
  u32 ndec;
  int dec_overflow;
  int in_known;
  Dec dec[MAXDEC];
};
extern Res *res;

// ---- run control (child process)
void run_begin(const SchedCfg &c, const Fault *f, int nf, const Dec *d, u32 nd);
void run_main(void (*fn)(void *), void *arg);  // runs fn as simulated thread 0, returns when it finished
void set_time_limit(u64 vns);

// ---- services for harness threads
u64 now();
u64 seq();
int self();
void sleep_ns(u64 ns);
void sleep_until(u64 t);
int spawn(void (*fn)(void *), void *arg);
void join(int tid);
void point();
// library calls are made between enter()/leave(): hooks active
void enter(u64 opuid);
void leave();
struct Lib {
  explicit Lib(u64 opuid = 0) { enter(opuid); }
  ~Lib() { leave(); }
};
void no_preempt(int delta);
void setseed(u64);
bool alloc_fault_fired_in_op();
constexpr u64 BIG_ALLOC = 1ull << 40;
constexpr u64 EVAL_UID = 1ull << 41;  // calls numbered above share the allocation faults of this number, arg2 times
u64 solvers_started();
u64 alloc_fault_count();
u64 alloc_faults_here();  // met by the calling thread
int live_library_threads();
u64 library_bytes();  // held by the library
u64 library_blocks();
u64 leaks_mark();  // debugging aid, see rt.cpp
void leaks_dump(u64 since);
u64 computes_started();
int last_background();           // id of the latest background thread a constructor started, -1 if there is none
u64 computes_ended(int bg);      // computations it started which have ended
double compute_dur(u64 k);  // duration of the k-th computation of the process, -1 if it has not ended
void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void probe(int i, u64 n = 1);
void mix(u64 v);        // mix into the run hash
void mixd(double v);
u64 real_ns();
void nofail_pc(u64 pc);  // an allocation called from there never fails
bool fault_fired(int kind);
u64 fault_count(int kind);
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern int tracing;

// simulated disk: files under the given directory; faults hit file operations counted from fs_begin
enum IoKind { IO_EIO = 1, IO_ENOSPC, IO_SHORT, IO_EINTR, IO_CRASH, IO_CLOSE, IO_OPEN, IO_POWER };
void fs_begin(const char *dir);
void fs_arm(int on);     // count operations and inject faults
void fs_restart();       // after a crash
void fs_settle();
void fs_power_cut(u64 a); // the power fails between two operations
u64 fs_ops();
bool fs_crashed();
u64 fs_faults();         // faults that actually hit since fs_begin
u64 fs_hard_faults();
u64 fs_hard_faults_here();  // met by the calling thread
u64 fs_unlink_faults();
int fs_open_files();  // descriptors open on the simulated disk    // ... other than short and interrupted operations
u64 fs_lost_bytes();     // bytes accepted but not stored (must stay 0 without a crash)
struct FsCrash {};
void set_report_races(int on);
void set_quarantine(unsigned long n);
}  // namespace sim
#pragma GCC visibility pop
