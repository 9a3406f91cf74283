#include "ops.h"
#include "sim.h"
#include <glog/logging.h>
#include <cstdio>
#include <cstring>
#include <future>
#include <iostream>
#include <new>
#include <system_error>
#include "dynamic_trajectory.hpp"
#include "dynamic_waypoint.hpp"
#include "mav_trajectory_generation/io.h"
#include "mav_trajectory_generation/timing.h"
#include "mav_trajectory_generation/trajectory.h"

using namespace dynamic_traj_generator;
struct Inst {
  DynamicTrajectory t;
};
namespace mtg = mav_trajectory_generation;

static void setres(OpResult *r, int rc, const char *what) {
  r->rc = rc;
  snprintf(r->what, sizeof r->what, "%s", what ? what : "");
}
#define BEGIN          \
  r->rc = R_DONE;        \
  r->what[0] = 0;      \
  sim::enter(uid);     \
  try {
#define END                                          \
  }                                                  \
  catch (const std::bad_alloc &e) {                  \
    sim::leave();                                    \
    setres(r, R_BADALLOC, "std::bad_alloc");         \
    sim::enter(0);                                   \
  }                                                  \
  catch (const std::future_error &e) {               \
    sim::leave();                                    \
    setres(r, R_FUTURE, e.what());                   \
    sim::enter(0);                                   \
  }                                                  \
  catch (const std::system_error &e) {               \
    sim::leave();                                    \
    setres(r, R_SYS, e.what());                      \
    sim::enter(0);                                   \
  }                                                  \
  catch (const std::exception &e) {                  \
    sim::leave();                                    \
    setres(r, R_EXC, e.what());                      \
    sim::enter(0);                                   \
  }                                                  \
  sim::leave();

static DynamicWaypoint make_wp(const WpSpec &w) {
  mtg::Vertex v(3);
  v.addConstraint(mtg::derivative_order::POSITION, Eigen::Vector3d(w.pos[0], w.pos[1], w.pos[2]));
  if (w.extra & 1) v.addConstraint(mtg::derivative_order::VELOCITY, Eigen::Vector3d(w.vel[0], w.vel[1], w.vel[2]));
  DynamicWaypoint d(v, std::string(w.name));
  return d;
}
static void out_wp(const DynamicWaypoint &w, WpOut *o) {
  std::string n = w.getName();
  snprintf(o->name, NAMELEN, "%s", n.c_str());
  Eigen::Vector3d p = w.getCurrentPosition(), q = w.getOriginalPosition();
  for (int i = 0; i < 3; i++) {
    o->pos[i] = p[i];
    o->orig[i] = q[i];
  }
  o->time = w.getTime();
  o->index = w.getIndex();
  o->mods = w.hasModifiers();
}

extern "C" {
void op_silence() {
  FLAGS_minloglevel = 3;
  FLAGS_logtostderr = true;
  std::cout.rdbuf(nullptr);
  std::cerr.rdbuf(nullptr);
}
Inst *op_create(uint64_t uid, OpResult *r) {
  Inst *i = nullptr;
  BEGIN i = new Inst();
  END return i;
}
void op_destroy(uint64_t uid, Inst *i, OpResult *r) { BEGIN delete i; END }
void op_set_speed(uint64_t uid, Inst *i, double v, OpResult *r) { BEGIN i->t.setSpeed(v); END }
void op_set(uint64_t uid, Inst *i, const WpSpec *w, int n, OpResult *r) {
  DynamicWaypoint::Vector v;
  v.reserve(n);
  for (int k = 0; k < n; k++) v.push_back(make_wp(w[k]));
  BEGIN i->t.setWaypoints(v);
  END
}
void op_append(uint64_t uid, Inst *i, const WpSpec *w, OpResult *r) {
  DynamicWaypoint d = make_wp(*w);
  BEGIN i->t.appendWaypoint(d);
  END
}
void op_modify(uint64_t uid, Inst *i, const char *name, const double *p, int gen, int dflt, OpResult *r) {
  std::string n(name);
  Eigen::Vector3d q(p[0], p[1], p[2]);
  BEGIN if (dflt) i->t.modifyWaypoint(n, q);
  else i->t.modifyWaypoint(n, q, gen != 0);
  END
}
void op_modify_batch(uint64_t uid, Inst *i, const ModSpec *m, int k, OpResult *r) {
  std::vector<std::pair<std::string, Eigen::Vector3d>> v;
  for (int j = 0; j < k; j++) v.emplace_back(std::string(m[j].name), Eigen::Vector3d(m[j].pos[0], m[j].pos[1], m[j].pos[2]));
  BEGIN i->t.modifyWaypoints(v);
  END
}
void op_vehicle(uint64_t uid, Inst *i, const double *p, OpResult *r) {
  Eigen::Vector3d q(p[0], p[1], p[2]);
  BEGIN i->t.updateVehiclePosition(q);
  END
}
bool op_eval(uint64_t uid, Inst *i, float t, double *o, int only, int plot, OpResult *r) {
  References refs;
  refs.position.setConstant(-7.25e77);
  refs.velocity.setConstant(-7.25e77);
  refs.acceleration.setConstant(-7.25e77);
  bool ok = false;
  BEGIN ok = i->t.evaluateTrajectory(t, refs, only != 0, plot != 0);
  END for (int k = 0; k < 3; k++) {
    o[k] = refs.position[k];
    o[3 + k] = refs.velocity[k];
    o[6 + k] = refs.acceleration[k];
  }
  return ok;
}
int op_get_wps(uint64_t uid, Inst *i, WpOut *out, int max, OpResult *r) {
  DynamicWaypoint::Deque d;
  BEGIN d = i->t.getDynamicWaypoints();
  END int n = 0;
  for (auto &w : d)
    if (n < max) out_wp(w, &out[n++]);
  return (int)d.size();
}
int op_get_next(uint64_t uid, Inst *i, WpOut *out, int max, OpResult *r) {
  DynamicWaypoint::Vector d;
  BEGIN d = i->t.getNextTrajectoryWaypoints();
  END int n = 0;
  for (auto &w : d)
    if (n < max) out_wp(w, &out[n++]);
  return (int)d.size();
}
int op_remaining(uint64_t uid, Inst *i, OpResult *r) {
  int v = -1;
  BEGIN v = i->t.getRemainingWaypoints();
  END return v;
}
double op_max_time(uint64_t uid, Inst *i, OpResult *r) {
  double v = -1;
  BEGIN v = i->t.getMaxTime();
  END return v;
}
double op_min_time(uint64_t uid, Inst *i, OpResult *r) {
  double v = -1;
  BEGIN v = i->t.getMinTime();
  END return v;
}
double op_speed(uint64_t uid, Inst *i, OpResult *r) {
  double v = -1;
  BEGIN v = i->t.getSpeed();
  END return v;
}
double op_toffset(uint64_t uid, Inst *i, OpResult *r) {
  double v = -1;
  BEGIN v = i->t.getTimeCompensation();
  END return v;
}
int op_regenerated(uint64_t uid, Inst *i, OpResult *r) {
  int v = -1;
  BEGIN v = i->t.getWasTrajectoryRegenerated();
  END return v;
}
int op_pending(uint64_t uid, Inst *i, OpResult *r) {
  int v = -1;
  BEGIN v = i->t.getGenerateNewTraj();
  END return v;
}
int op_computing(uint64_t uid, Inst *i, OpResult *r) {
  int v = -1;
  BEGIN v = i->t.getComputingNewTrajectoryStatus();
  END return v;
}

// ---- timing registry
int op_timer_run(uint64_t uid, const char *tag, uint64_t ns, int style) {
  std::string t(tag);
  int done = 1;
  sim::enter(uid);
  try {
    if (style == 0) {
      mtg::timing::Timer tm(t);
      sim::sleep_ns(ns);
      tm.Stop();
    } else if (style == 1) {
      mtg::timing::Timer tm(t, true);
      tm.Start();
      sim::sleep_ns(ns);
    } else {
      size_t h = mtg::timing::Timing::GetHandle(t);
      mtg::timing::Timer tm(h);
      sim::sleep_ns(ns);
      tm.Stop();
    }
  } catch (const std::bad_alloc &) {
    done = 0;
  }
  sim::leave();
  return done;
}
#define TQ(RT, NAME, EXPR)                          \
  RT NAME(uint64_t uid, const char *tag) {          \
    std::string t(tag);                             \
    sim::enter(uid);                                \
    RT v = EXPR;                                    \
    sim::leave();                                   \
    return v;                                       \
  }
TQ(uint64_t, op_timer_samples, mtg::timing::Timing::GetNumSamples(t))
TQ(double, op_timer_total, mtg::timing::Timing::GetTotalSeconds(t))
TQ(double, op_timer_min, mtg::timing::Timing::GetMinSeconds(t))
TQ(double, op_timer_max, mtg::timing::Timing::GetMaxSeconds(t))
TQ(double, op_timer_mean, mtg::timing::Timing::GetMeanSeconds(t))
TQ(uint64_t, op_timer_handle, mtg::timing::Timing::GetHandle(t))
int op_timer_tag_ok(uint64_t uid, const char *tag) {
  std::string t(tag);
  sim::enter(uid);
  size_t h = mtg::timing::Timing::GetHandle(t);
  bool ok = mtg::timing::Timing::GetTag(h) == t;
  sim::leave();
  return ok;
}

void op_timer_stats(uint64_t uid, uint64_t h, TmStats *o) {
  using mtg::timing::Timing;
  sim::enter(uid);
  o->n = Timing::GetNumSamples((size_t)h);
  o->total = Timing::GetTotalSeconds((size_t)h);
  o->min = Timing::GetMinSeconds((size_t)h);
  o->max = Timing::GetMaxSeconds((size_t)h);
  o->mean = Timing::GetMeanSeconds((size_t)h);
  o->var = Timing::GetVarianceSeconds((size_t)h);
  o->hz = Timing::GetHz((size_t)h);
  sim::leave();
}
void op_timer_run_h(uint64_t uid, uint64_t h, uint64_t ns) {
  sim::enter(uid);
  {
    mtg::timing::Timer tm((size_t)h);
    sim::sleep_ns(ns);
  }
  sim::leave();
}
double op_minitimer(uint64_t uid, uint64_t ns, double *again) {
  sim::enter(uid);
  mtg::timing::MiniTimer m;
  sim::sleep_ns(1000);
  m.start();
  sim::sleep_ns(ns);
  double v = m.stop();
  sim::sleep_ns(5000);
  *again = m.getTime();
  sim::leave();
  return v;
}
void op_timer_reset(uint64_t uid) {
  sim::enter(uid);
  mtg::timing::Timing::Reset();
  sim::leave();
}
int op_timer_print(uint64_t uid, char *out, int max) {
  sim::enter(uid);
  std::string s = mtg::timing::Timing::Print();
  sim::leave();
  snprintf(out, max, "%s", s.c_str());
  return (int)s.size();
}

// ---- files
struct Traj {
  mtg::Segment::Vector segs;
};
Traj *op_traj_make(uint64_t seed, int nseg, int nc, int dim, double ts) {
  sim::Rng g(seed);
  Traj *t = new Traj;
  for (int s = 0; s < nseg; s++) {
    mtg::Segment seg(nc, dim);
    for (int d = 0; d < dim; d++) {
      Eigen::VectorXd c(nc);
      for (int k = 0; k < nc; k++) c(k) = g.uni(-10, 10) * (g.p(0.2) ? 1e-9 : g.p(0.1) ? 1e9 : 1.0);
      seg[d] = mtg::Polynomial(c);
    }
    double tm = ts * g.uni(0.05, 3.0);
    double z = g.u();
    if (z < 0.3) tm = (double)(uint64_t)(tm * 1e9) * 1e-9;
    else if (z < 0.6) tm = (double)(uint64_t)(tm * 1e9) / 1e9;
    else if (z < 0.7) tm = (double)(uint64_t)(tm * 1e3) / 1e3;
    seg.setTime(tm);
    t->segs.push_back(seg);
  }
  return t;
}
void op_traj_free(Traj *t) { delete t; }
int op_traj_nseg(const Traj *t) { return (int)t->segs.size(); }
int op_traj_save(uint64_t uid, Traj *t, const char *file, OpResult *r) {
  std::string f(file);
  bool ok = false;
  try {
    BEGIN ok = mtg::segmentsToFile(f, t->segs);
    END
  } catch (const sim::FsCrash &) {
    sim::leave();
    setres(r, 99, "crash");
    return 0;
  }
  return ok && r->rc == R_DONE;
}
int op_traj_save_samples(uint64_t uid, Traj *t, const char *file, OpResult *r) {
  std::string f(file);
  bool ok = false;
  mtg::Trajectory tr;
  tr.setSegments(t->segs);
  try {
    BEGIN ok = mtg::sampledTrajectoryStatesToFile(f, tr);
    END
  } catch (const sim::FsCrash &) {
    sim::leave();
    setres(r, 99, "crash");
    return 0;
  }
  return ok && r->rc == R_DONE;
}
Traj *op_traj_load(uint64_t uid, const char *file, OpResult *r) {
  std::string f(file);
  Traj *t = new Traj;
  bool ok = false;
  BEGIN ok = mtg::segmentsFromFile(f, &t->segs);
  END if (!ok || r->rc != R_DONE) {
    delete t;
    return nullptr;
  }
  return t;
}
int op_traj_equal(const Traj *a, const Traj *b, double *maxerr) {
  *maxerr = 0;
  if (a->segs.size() != b->segs.size()) return 0;
  for (size_t s = 0; s < a->segs.size(); s++) {
    const mtg::Segment &x = a->segs[s], &y = b->segs[s];
    if (x.N() != y.N() || x.D() != y.D()) return 0;
    double dt = std::abs(x.getTime() - y.getTime());
    if (dt > *maxerr) *maxerr = dt;
    for (int d = 0; d < x.D(); d++) {
      Eigen::VectorXd p = x[d].getCoefficients(), q = y[d].getCoefficients();
      for (int k = 0; k < x.N(); k++)
        if (!(p(k) == q(k))) return 0;
    }
  }
  return 1;
}
}  // extern C
