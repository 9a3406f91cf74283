// Coordinator: seeded search over many simulated runs, gating, minimisation, replay files, evidence.
#include <sched.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include "plan.h"
using namespace sim;
using std::string;
using std::vector;

static double wall() {
  return sim::real_ns() * 1e-9;
}
static const char *fault_names[F_KINDS] = {"", "solver_duration", "solver_error_result", "solver_budget_cut", "allocation_failure_in_computation", "allocation_failure_in_call", "thread_creation_failure", "allocation_failures_rest_of_call", "clock_jump", "disk_fault", "interrupted_sleep", "allocation_failure_in_generator_thread"};

// ---------------------------------------------------------------- shared memory
struct Vio {
  u64 seed;
  char cls[64];
  char msg[600];
  int accepted;
};
enum { MAXV = 256, HSET = 1 << 20 };
struct Shared {
  std::atomic<u64> next, done, stop;
  std::atomic<u64> nv;
  Vio v[MAXV];
  std::atomic<u64> fired[F_KINDS], runs_with[F_KINDS];
  std::atomic<u64> probes[64], probe_max[64];
  std::atomic<u64> sync_points, mem_points, mem_accesses, switches, stalls, vtime_ms, computes, allocs, threads;
  std::atomic<u64> det_checked, det_bad, foreign, harness_err, faultfree, nontrivial, known;
  std::atomic<u64> n_ileave, n_state, n_hash;
  std::atomic<u64> h_ileave[HSET], h_state[HSET], h_hash[HSET];
  char sample[4][3000];
  char herr[600];
  char foreign_cls[8][64];
};
static Shared *sh;
template <class A>
static bool hset_add(A *tab, std::atomic<u64> &cnt, u64 h) {
  if (!h) h = 1;
  u64 k = h * 0x9E3779B97F4A7C15ull >> 44;
  for (int i = 0; i < 64; i++) {
    std::atomic<u64> &c = tab[(k + i) & (HSET - 1)];
    u64 v = c.load();
    if (v == h) return false;
    if (!v) {
      if (c.compare_exchange_strong(v, h)) {
        cnt++;
        return true;
      }
      if (v == h) return false;
    }
  }
  return false;
}
static void *shm(size_t n) {
  void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  return p;
}
static void clear(Res *r) {
  memset((void *)r, 0, offsetof(Res, dec));
}

// ---------------------------------------------------------------- one run
static int quiet_fd = -1;
// the threads of one simulated process run one at a time: on one processor they change over faster
static void pin(int cpu) {
  cpu_set_t s;
  if (cpu < 0) return;
  CPU_ZERO(&s);
  CPU_SET(cpu, &s);
  sched_setaffinity(0, sizeof s, &s);
}
static pid_t start_run(const Plan &p, Res *r) {
  clear(r);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    pin(sched_getcpu());
    sim::res = r;
    struct rlimit rl = {90, 100};
    setrlimit(RLIMIT_CPU, &rl);
    rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (!tracing) {
      dup2(quiet_fd, 1);
      dup2(quiet_fd, 2);
    }
    run_plan(p);
    _exit(9);
  }
  if (pid < 0) {
    perror("fork");
    exit(3);
  }
  return pid;
}
static void end_run(Res *r, int st, bool timed_out) {
  if (r->status == 0) {
    if (timed_out) {
      r->status = 3;
      snprintf(r->cls, sizeof r->cls, "harness-error");
      snprintf(r->msg, sizeof r->msg, "run exceeded its real-time limit");
    } else if (WIFSIGNALED(st)) {
      int s = WTERMSIG(st);
      r->status = 2;
      snprintf(r->cls, sizeof r->cls, s == SIGXCPU ? "hang" : s == SIGKILL ? "killed" : "crash");
      if (s == SIGKILL) r->status = 3;
      snprintf(r->msg, sizeof r->msg, s == SIGXCPU ? "a call computed for 90 s without reaching any synchronisation point" : "simulated process ended by signal %d", s);
    } else {
      r->status = 3;
      snprintf(r->cls, sizeof r->cls, "harness-error");
      snprintf(r->msg, sizeof r->msg, "simulated process exited with %d", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    }
  }
}
static volatile sig_atomic_t alarm_pid;
static volatile sig_atomic_t alarm_hit;
static void on_alarm(int) {
  alarm_hit = 1;
  if (alarm_pid) kill(alarm_pid, SIGKILL);
}
static void one_run(const Plan &p, Res *r) {
  alarm_hit = 0;
  pid_t pid = start_run(p, r);
  alarm_pid = pid;
  alarm(240);
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  alarm(0);
  alarm_pid = 0;
  end_run(r, st, alarm_hit);
}
// several runs at once
static vector<Res *> pool;
static void batch(const vector<Plan> &ps, double tmo) {
  while (pool.size() < ps.size()) pool.push_back((Res *)shm(sizeof(Res)));
  vector<pid_t> pid(ps.size());
  for (size_t i = 0; i < ps.size(); i++) pid[i] = start_run(ps[i], pool[i]);
  double t0 = wall();
  size_t left = ps.size();
  while (left) {
    bool any = false;
    for (size_t i = 0; i < ps.size(); i++) {
      if (!pid[i]) continue;
      int st;
      if (waitpid(pid[i], &st, WNOHANG) == pid[i]) {
        end_run(pool[i], st, false);
        pid[i] = 0;
        left--;
        any = true;
      }
    }
    if (!any) usleep(500);
    if (wall() - t0 > tmo)
      for (size_t i = 0; i < ps.size(); i++)
        if (pid[i]) {
          int st;
          kill(pid[i], SIGKILL);
          waitpid(pid[i], &st, 0);
          end_run(pool[i], st, true);
          pid[i] = 0;
          left--;
        }
  }
}

// ---------------------------------------------------------------- which violation classes speak about which property
static bool starts(const string &s, const char *p) { return !strncmp(s.c_str(), p, strlen(p)); }
static bool relevant(const string &prop, const string &cls) {
  // the process died, hung or was refused service: nothing the property promises was delivered
  static const char *fatal[] = {"crash", "abort", "memory", "use-after-free", "hang", "stuck", "livelock", "deadlock", "bad-unlock", "unexpected-exception", 0};
  for (int i = 0; fatal[i]; i++)
    if (cls == fatal[i]) return true;
  if (starts(cls, prop.c_str())) return true;
  auto in = [&](std::initializer_list<const char *> l) {
    for (auto x : l)
      if (prop == x) return true;
    return false;
  };
  if (cls == "request-lost") return in({"C01", "C10", "C12", "C16", "C17", "C03", "C09", "C14"});
  if (cls == "waypoint-dropped") return in({"C01", "C03", "C12", "C17", "C10"});
  if (cls == "order") return in({"C01", "C03", "C17"});
  if (cls == "superseded") return in({"C01", "C17", "C12", "C16"});
  if (cls == "modification-lost") return in({"C02", "C12", "C17"});
  if (cls == "not-idle") return in({"C16", "C10", "C12"});
  if (cls == "destroy-slow" || cls == "thread-leak") return in({"C11", "C10", "C24"});
  if (cls == "data-race") return in({"C13", "C17", "C20", "C25"});
  if (cls == "nonfinite") return in({"C06", "C07", "C13", "C12"});
  if (cls == "C18-save" || cls == "C18-cycle" || cls == "C19-refused" || cls == "C19-load") return in({"C18", "C19"});
  return false;
}

// ---------------------------------------------------------------- known findings
struct Known {
  string prop, cls, match, text;
};
static vector<Known> known;
static void load_known(const string &f) {
  FILE *h = fopen(f.c_str(), "r");
  if (!h) return;
  char line[2000];
  while (fgets(line, sizeof line, h)) {
    if (strncmp(line, "known:", 6)) continue;
    Known k;
    auto field = [&](const char *n) {
      string v;
      char *p = strstr(line, n);
      if (!p) return v;
      p += strlen(n);
      char end = ' ';
      if (*p == '"') end = '"', p++;
      while (*p && *p != end && *p != '\n') v += *p++;
      return v;
    };
    k.prop = field("property=");
    k.cls = field("class=");
    k.match = field("match=");
    k.text = field("text=");
    if (!k.prop.empty() && !k.cls.empty()) known.push_back(k);
  }
  fclose(h);
}
static int is_known(const string &prop, const Res *r) {
  for (size_t i = 0; i < known.size(); i++)
    if (known[i].prop == prop && known[i].cls == r->cls && (known[i].match.empty() || strstr(r->msg, known[i].match.c_str()))) return (int)i;
  return -1;
}

// ---------------------------------------------------------------- search
struct Opt {
  string prop, tier = "quick", out, evid;
  u64 seed = 1;
  u64 runs = 0;
  double wall = 0;
  int jobs = 8;
  bool keep = false;   // do not stop at violations
  string repro_dir = "";
};
static u64 seed_of(const Opt &o, u64 i) { return o.seed * 1000003ull + i; }

static void worker(const Opt &o, double t_end, Res *r) {
  Res *r2 = nullptr;
  for (;;) {
    if (sh->stop || wall() > t_end) break;
    u64 i = sh->next++;
    if (i >= o.runs) break;
    Plan p;
    plan_generate(p, o.prop, seed_of(o, i));
    one_run(p, r);
    sh->done++;
    for (int k = 1; k < F_KINDS; k++)
      if (r->st.fired[k]) sh->fired[k] += r->st.fired[k], sh->runs_with[k]++;
    bool nf = true;
    for (int k = 1; k < F_KINDS; k++)
      if (k != F_SOLVER_DUR && k != F_SOLVER_MAXEVAL && r->st.fired[k]) nf = false;
    if (nf) sh->faultfree++;
    for (int k = 0; k < 60; k++) sh->probes[k] += r->probes[k];
    for (int k = 60; k < 64; k++) {
      u64 c = sh->probe_max[k];
      while (r->probes[k] > c && !sh->probe_max[k].compare_exchange_weak(c, r->probes[k])) {
      }
    }
    sh->sync_points += r->st.sync_points;
    sh->mem_points += r->st.mem_points;
    sh->mem_accesses += r->st.mem_accesses;
    sh->switches += r->st.switches;
    sh->stalls += r->st.stalls;
    sh->vtime_ms += r->st.vtime_ns / 1000000;
    sh->computes += r->st.computes;
    sh->allocs += r->st.allocs;
    sh->threads += r->st.threads;
    bool newi = hset_add(sh->h_ileave, sh->n_ileave, r->ileave ^ r->state_hash * 31);
    hset_add(sh->h_state, sh->n_state, r->state_hash);
    hset_add(sh->h_hash, sh->n_hash, r->hash);
    if (newi && (r->probes[PB_SETTLED] || r->st.computes || r->probes[PB_SAVE_OK] || r->probes[PB_SAVE_FAIL])) sh->nontrivial++;
    if (i < 3) {
      string s = plan_text(p, "", "", r->hash);
      snprintf(sh->sample[i], sizeof sh->sample[i], "seed %llu, result %s: %s", (unsigned long long)p.seed, r->status == 1 ? "ok" : r->cls, s.substr(0, 2600).c_str());
    }
    if (r->status == 3) {
      if (sh->harness_err++ == 0) snprintf(sh->herr, sizeof sh->herr, "seed %llu: %.500s", (unsigned long long)p.seed, r->msg);
    } else if (r->status == 2) {
      int kn = is_known(o.prop, r);
      bool rel = relevant(o.prop, r->cls);
      if (!rel) {
        u64 f = sh->foreign++;
        if (f < 8) snprintf(sh->foreign_cls[f], 64, "%.40s seed %llu", r->cls, (unsigned long long)p.seed);
      }
      if (kn >= 0) sh->known++;
      if ((rel && kn < 0) || o.keep) {
        u64 n = sh->nv++;
        if (n < MAXV) {
          Vio &v = sh->v[n];
          v.seed = p.seed;
          snprintf(v.cls, sizeof v.cls, "%s", r->cls);
          snprintf(v.msg, sizeof v.msg, "%s", r->msg);
          v.accepted = rel && kn < 0;
        }
        if (!o.keep && n >= 5) sh->stop = 1;
        // give the other workers a moment to come up with alternatives, then stop
        if (!o.keep) t_end = std::min(t_end, wall() + 6);
      }
    }
    // the same seed twice must be the same execution
    if (i % 40 == 7) {
      if (!r2) r2 = (Res *)shm(sizeof(Res));
      one_run(p, r2);
      sh->det_checked++;
      if (r2->hash != r->hash || r2->status != r->status || strcmp(r2->cls, r->cls)) {
        sh->det_bad++;
        if (getenv("SIM_VERBOSE")) fprintf(stderr, "nondeterministic: seed %llu\n", (unsigned long long)p.seed);
      }
    }
  }
}

// ---------------------------------------------------------------- minimisation
static Plan with_decs(const Plan &p, const Res *r) {
  Plan q = p;
  if (r->dec_overflow || r->ndec >= MAXDEC) return q;  // too long to list: the scheduler's seed stands for it
  q.sched.replay = 1;
  q.decs.assign(r->dec, r->dec + r->ndec);
  return q;
}
static u64 mini_runs;
template <class T>
static void ddmin(Plan &best, vector<T> Plan::*field, const string &cls, double t_end) {
  size_t n = (best.*field).size();
  size_t chunk = n;
  while (chunk >= 1 && wall() < t_end) {
    bool removed = false;
    size_t pos = 0;
    while (pos < (best.*field).size() && wall() < t_end) {
      vector<Plan> c;
      vector<size_t> at;
      for (int k = 0; k < 8 && pos + k * chunk < (best.*field).size(); k++) {
        Plan q = best;
        auto &f = q.*field;
        size_t a = pos + k * chunk, b = std::min(a + chunk, f.size());
        f.erase(f.begin() + a, f.begin() + b);
        c.push_back(q);
        at.push_back(a);
      }
      if (c.empty()) break;
      batch(c, std::max(5.0, t_end - wall() + 5));
      mini_runs += c.size();
      bool hit = false;
      for (size_t k = 0; k < c.size(); k++)
        if (pool[k]->status == 2 && cls == pool[k]->cls) {
          best = c[k];
          pos = at[k];
          hit = removed = true;
          break;
        }
      if (!hit) pos += chunk * c.size();
    }
    if (chunk == 1 && !removed) break;
    if (chunk == 1) continue;
    chunk = std::max<size_t>(1, chunk / 2);
  }
}
static bool reproduces(const Plan &p, const string &cls, u64 *hash, string *msg) {
  vector<Plan> v(2, p);
  batch(v, 200);
  if (pool[0]->status != 2 || pool[1]->status != 2 || cls != pool[0]->cls || cls != pool[1]->cls || pool[0]->hash != pool[1]->hash) return false;
  if (hash) *hash = pool[0]->hash;
  if (msg) *msg = pool[0]->msg;
  return true;
}
static bool write_file(const string &f, const string &s) {
  FILE *h = fopen(f.c_str(), "w");
  if (!h) return false;
  bool ok = fwrite(s.data(), 1, s.size(), h) == s.size();
  return fclose(h) == 0 && ok;
}
static string self_exe;
static int fresh_replay(const string &file, string &out) {
  int pfd[2];
  if (pipe(pfd)) return -1;
  fflush(stdout);
  pid_t pid = fork();
  if (!pid) {
    dup2(pfd[1], 1);
    dup2(quiet_fd, 2);
    execl(self_exe.c_str(), "simcheck", "--replay", file.c_str(), (char *)nullptr);
    _exit(9);
  }
  close(pfd[1]);
  char b[4096];
  ssize_t n;
  while ((n = read(pfd[0], b, sizeof b)) > 0) out.append(b, n);
  close(pfd[0]);
  int st;
  waitpid(pid, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
// turns a violating seed into a verified, minimised replay file
static bool gate(const Opt &o, const Vio &v, string &file, string &msg, string &how) {
  Plan p;
  plan_generate(p, o.prop, v.seed);
  vector<Plan> two(2, p);
  batch(two, 200);
  if (pool[0]->status != 2 || strcmp(pool[0]->cls, v.cls) || pool[1]->status != 2 || strcmp(pool[1]->cls, v.cls) || pool[0]->hash != pool[1]->hash) {
    how = "the same seed did not give the same execution";
    return false;
  }
  u64 hash = pool[0]->hash;
  msg = pool[0]->msg;
  Plan full = with_decs(p, pool[0]);
  u64 h2;
  string m2;
  Plan best = p;
  bool listed = false;
  if (full.sched.replay && reproduces(full, v.cls, &h2, &m2)) {
    best = full;
    hash = h2;
    msg = m2;
    listed = true;
  }
  size_t o0 = best.ops.size(), f0 = best.faults.size(), d0 = best.decs.size();
  double t_end = wall() + (o.tier == "thorough" ? 150 : 60);
  if (listed) {
    // without any scheduling decision first
    ddmin(best, &Plan::decs, v.cls, wall() + 15);
    ddmin(best, &Plan::faults, v.cls, t_end);
    ddmin(best, &Plan::ops, v.cls, t_end);
    ddmin(best, &Plan::decs, v.cls, t_end);
    ddmin(best, &Plan::faults, v.cls, t_end);
    ddmin(best, &Plan::ops, v.cls, t_end);
  } else {
    ddmin(best, &Plan::faults, v.cls, t_end);
    ddmin(best, &Plan::ops, v.cls, t_end);
  }
  if (!reproduces(best, v.cls, &hash, &msg)) {
    best = listed ? full : p;
    if (!reproduces(best, v.cls, &hash, &msg)) {
      how = "the minimised plan did not reproduce";
      return false;
    }
  }
  file = o.out + "/" + o.prop + "-" + std::to_string(v.seed) + ".replay";
  write_file(file, plan_text(best, v.cls, msg, hash));
  string out;
  int rc = fresh_replay(file, out);
  if (rc != 1) {
    how = "a fresh process did not reproduce the replay file: " + out;
    return false;
  }
  char b[200];
  snprintf(b, sizeof b, "minimised from %zu calls, %zu faults, %zu scheduling decisions to %zu, %zu, %zu", o0, f0, d0, best.ops.size(), best.faults.size(), best.decs.size());
  how = b;
  return true;
}

static string jstr(const string &s) {
  string o = "\"";
  for (char ch : s) {
    unsigned char c = (unsigned char)ch;
    if (c == '"' || c == '\\') o += '\\', o += ch;
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += '?';
    else o += ch;
  }
  return o + "\"";
}

static int check(const Opt &o) {
  double t0 = wall(), t_end = t0 + o.wall;
  sh = (Shared *)shm(sizeof(Shared));
  vector<pid_t> ws;
  fflush(stdout);
  for (int i = 0; i < o.jobs; i++) {
    pid_t pid = fork();
    if (!pid) {
      signal(SIGALRM, on_alarm);
      cpu_set_t all;
      if (o.jobs > 1 && sched_getaffinity(0, sizeof all, &all) == 0 && CPU_COUNT(&all) > 1) {
        int k = i % CPU_COUNT(&all);
        for (int c = 0; c < CPU_SETSIZE; c++)
          if (CPU_ISSET(c, &all) && k-- == 0) pin(c);
      }
      worker(o, t_end, (Res *)shm(sizeof(Res)));
      _exit(0);
    }
    ws.push_back(pid);
  }
  for (pid_t w : ws) {
    int st;
    waitpid(w, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) fprintf(stderr, "a worker ended abnormally (%d)\n", st);
  }
  double t_search = wall() - t0;
  signal(SIGALRM, SIG_DFL);
  int rc = 0;
  u64 nv = std::min<u64>(sh->nv, MAXV), nacc = 0;
  vector<Vio> vs;
  for (u64 i = 0; i < nv; i++)
    if (sh->v[i].accepted) vs.push_back(sh->v[i]), nacc++;
  std::sort(vs.begin(), vs.end(), [](const Vio &a, const Vio &b) { return a.seed < b.seed; });
  string vline;
  if (o.keep) {
    std::map<string, int> cnt;
    for (u64 i = 0; i < nv; i++) cnt[sh->v[i].cls]++;
    for (auto &c : cnt) printf("class %s: %d\n", c.first.c_str(), c.second);
    std::map<string, int> shown;
    for (u64 i = 0; i < nv; i++)
      if (shown[sh->v[i].cls]++ < 3) printf("  seed %llu %s: %.400s\n", (unsigned long long)sh->v[i].seed, sh->v[i].cls, sh->v[i].msg);
    rc = nv ? 1 : 0;
  } else if (!vs.empty()) {
    rc = 2;
    int tries = 0;
    for (auto &v : vs) {
      if (tries++ >= 4) break;
      string file, msg, how;
      if (gate(o, v, file, msg, how)) {
        printf("VIOLATION property=%s replay=%s\n", o.prop.c_str(), file.c_str());
        printf("  class %s, seed %llu: %s\n  %s\n", v.cls, (unsigned long long)v.seed, msg.c_str(), how.c_str());
        rc = 1;
        break;
      }
      printf("not reported: seed %llu class %s: %s\n", (unsigned long long)v.seed, v.cls, how.c_str());
    }
  }
  if (sh->known) {
    for (auto &k : known)
      if (k.prop == o.prop) printf("KNOWN-FINDING: property=%s %s\n", o.prop.c_str(), k.text.c_str());
  }
  u64 done = sh->done, he = sh->harness_err;
  if (rc == 0 && he > 0) {
    printf("%llu of %llu runs could not be judged: %s\n", (unsigned long long)he, (unsigned long long)done, sh->herr);
    if (he * 20 > done) rc = 2;
  }
  if (rc == 0 && done == 0) rc = 2;
  if (sh->det_bad) printf("warning: %llu of %llu seeds run twice differed\n", (unsigned long long)sh->det_bad, (unsigned long long)sh->det_checked);
  if (sh->foreign) printf("note: %llu runs ended early for a reason another property is about (first: %s)\n", (unsigned long long)sh->foreign, sh->foreign_cls[0]);
  double w = wall() - t0;
  printf("%s %s seed %llu: %llu runs in %.0f s (%.0f seeds/h), %.0f s simulated, %llu interleavings, %llu scheduling points, %llu forced switches, determinism %llu/%llu\n", o.prop.c_str(), o.tier.c_str(), (unsigned long long)o.seed, (unsigned long long)done, t_search,
         3600.0 * done / t_search, sh->vtime_ms * 1e-3, (unsigned long long)sh->n_ileave, (unsigned long long)(sh->sync_points + sh->mem_points), (unsigned long long)sh->switches, (unsigned long long)(sh->det_checked - sh->det_bad), (unsigned long long)sh->det_checked);
  if (!o.evid.empty()) {
    string j = "{\n";
    char b[1000];
    auto add = [&](const char *f, auto... a) {
      snprintf(b, sizeof b, f, a...);
      j += b;
    };
    add(" \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"wall_s\": %.2f,\n \"violations\": %d,\n", o.prop.c_str(), o.tier.c_str(), (unsigned long long)o.seed, w, rc == 1 ? 1 : 0);
    j += " \"coverage\": {\n";
    add("  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n", (unsigned long long)done, (unsigned long long)sh->nontrivial);
    j += "  \"rule\": \"one evaluation is one simulated run of a seeded plan (calls, faults, schedule); it counts as distinct and non-trivial if the order of its synchronisation events together with the sequence of published states was not seen before in this check and the run reached generator computations, completed measurements or file operations\",\n";
    j += "  \"samples\": [";
    bool first = true;
    for (int i = 0; i < 3; i++)
      if (sh->sample[i][0]) {
        j += (first ? "\n   " : ",\n   ") + jstr(sh->sample[i]);
        first = false;
      }
    j += "\n  ],\n";
    add("  \"seeds_per_hour\": %.0f,\n  \"simulated_seconds\": %.1f,\n  \"distinct_interleavings\": %llu,\n  \"distinct_published_state_sequences\": %llu,\n  \"distinct_executions\": %llu,\n", 3600.0 * done / t_search, sh->vtime_ms * 1e-3, (unsigned long long)sh->n_ileave, (unsigned long long)sh->n_state, (unsigned long long)sh->n_hash);
    add("  \"scheduling_points\": %llu,\n  \"memory_preemption_points\": %llu,\n  \"instrumented_accesses\": %llu,\n  \"forced_switches\": %llu,\n  \"stalls\": %llu,\n  \"threads\": %llu,\n  \"computations\": %llu,\n  \"allocations\": %llu,\n", (unsigned long long)sh->sync_points, (unsigned long long)sh->mem_points, (unsigned long long)sh->mem_accesses,
        (unsigned long long)sh->switches, (unsigned long long)sh->stalls, (unsigned long long)sh->threads, (unsigned long long)sh->computes, (unsigned long long)sh->allocs);
    add("  \"runs_without_errors_injected\": %llu,\n  \"seeds_run_twice\": %llu,\n  \"seeds_run_twice_identical\": %llu,\n  \"runs_ended_by_other_property\": %llu,\n  \"runs_not_judged\": %llu,\n  \"minimisation_runs\": %llu,\n", (unsigned long long)sh->faultfree, (unsigned long long)sh->det_checked, (unsigned long long)(sh->det_checked - sh->det_bad), (unsigned long long)sh->foreign, (unsigned long long)he, (unsigned long long)mini_runs);
    j += "  \"faults_fired\": {";
    first = true;
    for (int k = 1; k < F_KINDS; k++)
      if (sh->fired[k]) {
        add("%s\"%s\": {\"times\": %llu, \"runs\": %llu}", first ? "" : ", ", fault_names[k], (unsigned long long)sh->fired[k], (unsigned long long)sh->runs_with[k]);
        first = false;
      }
    j += "},\n  \"reached\": {";
    first = true;
    for (int k = 0; k < PB_N; k++)
      if (sh->probes[k]) {
        add("%s\"%s\": %llu", first ? "" : ", ", probe_names[k], (unsigned long long)sh->probes[k]);
        first = false;
      }
    j += "},\n";
    j += "  \"real_components\": [\"all of /repo/src and the mav_trajectory_generation sources, compiled from the working tree with memory-access instrumentation\", \"nlopt, Eigen, yaml-cpp, libstdc++ (std::thread, std::async, std::mutex)\"],\n";
    j += "  \"simulated_components\": [\"thread scheduler (pthread layer and futexes)\", \"clocks and sleeping\", \"allocator\", \"duration and evaluation budget of the solver\", \"file system calls\"]\n";
    j += " },\n";
    j += " \"assumptions\": [\"sequentially consistent interleavings at the granularity of instrumented accesses; weaker memory orders are covered by the data-race check only\", \"faults and schedules are sampled from seeds, not enumerated\"]\n}\n";
    write_file(o.evid, j);
  }
  return rc;
}

static int replay(const char *file, bool tr) {
  Plan p;
  string cls;
  u64 hash = 0;
  if (!plan_parse(file, p, cls, hash)) {
    printf("cannot read %s\n", file);
    return 2;
  }
  tracing = tr;
  Res *r = (Res *)shm(sizeof(Res));
  signal(SIGALRM, on_alarm);
  one_run(p, r);
  if (r->status == 2) {
    bool same = cls == r->cls && hash == r->hash;
    printf("%s class %s, execution %016llx (%s)\n%s\n", "reproduced:", r->cls, (unsigned long long)r->hash, same ? "identical to the recorded one" : "differs from the recorded one", r->msg);
    if (same || (cls == r->cls && hash == 0)) {
      printf("VIOLATION property=%s replay=%s\n", p.prop.c_str(), file);
      return 1;
    }
    return cls == r->cls ? 4 : 5;
  }
  printf("not reproduced: %s %s\n", r->status == 1 ? "the run passed" : "error:", r->msg);
  return r->status == 1 ? 0 : 2;
}

int main(int argc, char **argv) {
  Opt o;
  quiet_fd = open("/dev/null", O_RDWR);
  {
    char b[4096];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    if (n > 0) b[n] = 0, self_exe = b;
  }
  if (const char *s = getenv("VERIF_SEED")) o.seed = strtoull(s, 0, 10);
  if (const char *s = getenv("VERIF_TIER")) o.tier = s;
  bool trace = false;
  const char *rf = nullptr;
  u64 one = 0;
  bool have_one = false, dump = false;
  string kf;
  int rep = 1;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char *)""; };
    if (a == "--prop") o.prop = nx();
    else if (a == "--tier") o.tier = nx();
    else if (a == "--seed") o.seed = strtoull(nx(), 0, 10);
    else if (a == "--runs") o.runs = strtoull(nx(), 0, 10);
    else if (a == "--wall") o.wall = atof(nx());
    else if (a == "--jobs") o.jobs = atoi(nx());
    else if (a == "--keep") o.keep = true;
    else if (a == "--out") o.out = nx();
    else if (a == "--evidence") o.evid = nx();
    else if (a == "--known") kf = nx();
    else if (a == "--replay") rf = nx();
    else if (a == "--trace") trace = true;
    else if (a == "--one") have_one = true, one = strtoull(nx(), 0, 10);
    else if (a == "--repeat") rep = atoi(nx());
    else if (a == "--dump") dump = true;
  }
  if (FILE *h = fopen((self_exe + ".nofail").c_str(), "r")) {
    unsigned long long pc;
    while (fscanf(h, "%llx", &pc) == 1) sim::nofail_pc(pc);
    fclose(h);
  }
  if (rf) return replay(rf, trace);
  if (o.prop.empty()) {
    printf("usage: simcheck --prop ID [--tier T --seed N --runs N --wall S] | --replay FILE [--trace] | --prop ID --one SEED [--trace]\n");
    return 2;
  }
  if (have_one) {
    tracing = trace;
    Plan p;
    plan_generate(p, o.prop, one);
    if (dump) {
      fputs(plan_text(p, "", "", 0).c_str(), stdout);
      return 0;
    }
    Res *r = (Res *)shm(sizeof(Res));
    signal(SIGALRM, on_alarm);
    for (int k = 0; k < rep; k++) {
      double t = wall();
      one_run(p, r);
      printf("status %d class %s hash %016llx ileave %016llx decisions %u wall %.2f s simulated %.2f s sync %llu mem %llu accesses %llu computes %llu\n%s\n", r->status, r->cls, (unsigned long long)r->hash, (unsigned long long)r->ileave, r->ndec, wall() - t, r->st.vtime_ns * 1e-9,
             (unsigned long long)r->st.sync_points, (unsigned long long)r->st.mem_points, (unsigned long long)r->st.mem_accesses, (unsigned long long)r->st.computes, r->msg);
    }
    return r->status == 1 ? 0 : 1;
  }
  if (!o.runs) o.runs = 1000;
  if (!o.wall) o.wall = 300;
  if (o.out.empty()) o.out = ".";
  mkdir(o.out.c_str(), 0777);
  if (!kf.empty()) load_known(kf);
  return check(o);
}
