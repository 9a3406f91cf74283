// Operations on the real library, called by the harness. Implemented in ops.cpp, which is compiled with
// the same instrumentation as the library. Plain data only.
#pragma once
#include <cstddef>
#include <cstdint>
enum { NAMELEN = 24 };
struct WpSpec {       // a waypoint as the user builds it
  char name[NAMELEN];
  double pos[3];
  int extra;          // 1: velocity constraint given
  double vel[3];
};
struct WpOut {        // a published waypoint
  char name[NAMELEN];
  double pos[3];      // current position
  double orig[3];
  double time;
  int index;
  int mods;
};
struct ModSpec {
  char name[NAMELEN];
  double pos[3];
};
// result codes of operations
enum { R_DONE = 0, R_FALSE = 1, R_BADALLOC = 2, R_EXC = 3, R_SYS = 4, R_FUTURE = 5 };
struct Inst;          // a generator instance
struct OpResult {
  int rc = 0;
  char what[120] = {0};
};
extern "C" {
Inst *op_create(uint64_t uid, OpResult *);
void op_destroy(uint64_t uid, Inst *, OpResult *);
void op_set_speed(uint64_t uid, Inst *, double v, OpResult *);
void op_set(uint64_t uid, Inst *, const WpSpec *w, int n, OpResult *);
void op_append(uint64_t uid, Inst *, const WpSpec *w, OpResult *);
void op_modify(uint64_t uid, Inst *, const char *name, const double *pos, int generate, int use_default, OpResult *);
void op_modify_batch(uint64_t uid, Inst *, const ModSpec *m, int n, OpResult *);
void op_vehicle(uint64_t uid, Inst *, const double *pos, OpResult *);
bool op_eval(uint64_t uid, Inst *, float t, double *out9, int only_pos, int plotting, OpResult *);
int op_get_wps(uint64_t uid, Inst *, WpOut *out, int max, OpResult *);
int op_get_next(uint64_t uid, Inst *, WpOut *out, int max, OpResult *);
int op_remaining(uint64_t uid, Inst *, OpResult *);
double op_max_time(uint64_t uid, Inst *, OpResult *);
double op_min_time(uint64_t uid, Inst *, OpResult *);
double op_speed(uint64_t uid, Inst *, OpResult *);
double op_toffset(uint64_t uid, Inst *, OpResult *);
int op_regenerated(uint64_t uid, Inst *, OpResult *);
int op_pending(uint64_t uid, Inst *, OpResult *);
int op_computing(uint64_t uid, Inst *, OpResult *);
// timing registry
int op_timer_run(uint64_t uid, const char *tag, uint64_t ns, int style);
uint64_t op_timer_samples(uint64_t uid, const char *tag);
double op_timer_total(uint64_t uid, const char *tag);
double op_timer_min(uint64_t uid, const char *tag);
double op_timer_max(uint64_t uid, const char *tag);
double op_timer_mean(uint64_t uid, const char *tag);
uint64_t op_timer_handle(uint64_t uid, const char *tag);
int op_timer_tag_ok(uint64_t uid, const char *tag);
struct TmStats { uint64_t n; double total, min, max, mean, var, hz; };
void op_timer_stats(uint64_t uid, uint64_t handle, TmStats *out);
void op_timer_run_h(uint64_t uid, uint64_t handle, uint64_t ns);
double op_minitimer(uint64_t uid, uint64_t ns, double *again);
void op_timer_reset(uint64_t uid);
int op_timer_print(uint64_t uid, char *out, int max);
// files
struct Traj;
Traj *op_traj_make(uint64_t seed, int nseg, int ncoef, int dim, double tscale);
void op_traj_free(Traj *);
int op_traj_save(uint64_t uid, Traj *, const char *file, OpResult *);      // 1 success reported
int op_traj_save_samples(uint64_t uid, Traj *, const char *file, OpResult *);
Traj *op_traj_load(uint64_t uid, const char *file, OpResult *);            // null if refused
int op_traj_equal(const Traj *, const Traj *, double *maxerr);
int op_traj_nseg(const Traj *);
void op_silence();
}
