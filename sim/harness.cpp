// Workloads and oracles. Runs inside the simulated process; talks to the library only through ops.h.
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <array>
#include <sstream>
#include <set>
#include <dirent.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <unistd.h>
#include "plan.h"
using std::string;
using std::vector;
using namespace sim;

static const Plan *P;
static string prop;
static bool want(const char *p) { return prop == p; }

static string fmt(const char *f, ...) {
  char b[1200];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
struct V3 {
  double v[3];
};
static double dist(const double *a, const double *b) {
  return std::sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]));
}
static double norm(const double *a) {
  double z[3] = {0, 0, 0};
  return dist(a, z);
}
static u64 uid_ctr = 1ull << 32;
static u64 nuid() { return ++uid_ctr; }

typedef vector<WpOut> List;
static bool is_stitch(const WpOut &w) { return !strcmp(w.name, "stitching_point"); }
static bool named(const WpOut &w) { return w.name[0] && !is_stitch(w); }

struct Snap {
  List l;
  double mint = 0, maxt = 0, toff = 0;
  bool stable = false, timed = false;  // nothing changed meanwhile; no takeover happened meanwhile
  u64 seq0 = 0;
};
static bool same_times(const List &a, const List &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (a[i].time != b[i].time || strcmp(a[i].name, b[i].name)) return false;
  return true;
}
static bool same_list(const List &a, const List &b) {
  if (!same_times(a, b)) return false;
  for (size_t i = 0; i < a.size(); i++)
    for (int k = 0; k < 3; k++)
      if (a[i].pos[k] != b[i].pos[k] || a[i].orig[k] != b[i].orig[k]) return false;
  return true;
}
static string list_str(const List &l) {
  string s;
  for (auto &w : l) s += fmt("%s@%.3f(%.2f,%.2f,%.2f) ", w.name[0] ? w.name : "<unnamed>", w.time, w.pos[0], w.pos[1], w.pos[2]);
  return s;
}

struct Mod {
  u64 seq;
  double t_inv;      // latest flight time when the call was made
  double delta[3];
};
struct ME {          // model waypoint
  string name;
  double pos[3], pos0[3];
  int epoch;
  vector<Mod> mods;
  vector<std::array<double, 3>> hist;  // every position requested for it
  bool at(const double *q) const {
    for (auto &h : hist)
      if (dist(h.data(), q) < 1e-9) return true;
    return false;
  }
  bool seen = false, passed = false;
  bool unnamed = false;
  int th = 0;          // who asked for it: -1 set, else the appending thread
  bool hasvel = false;
  double vel[3] = {0, 0, 0};
};
struct Flight {
  u64 seq;
  double t;
  double r[9];
  int changes = -1;   // observed changes of the published list, if none was observed right after this evaluation
};
struct IC {
  int bg = -1;               // its background thread
  unsigned long long bg_ended = 0;  // computations it had ended when the published list was last observed
  int id = 0;
  Inst *h = nullptr;
  double speed = 1;
  bool started = false;      // a request was accepted
  bool destroyed = false;
  vector<ME> model;
  std::set<string> gone;     // superseded names
  int epoch = 0;
  vector<Mod> allmods;
  std::map<string, vector<Mod>> modlog;
  // pilot state
  double t = 0;
  bool flown = false;
  double last_t = 0;         // latest flight time
  vector<Flight> fl;
  List cur;
  bool have = false;
  Snap snap;
  double maxflight = 0;
  u64 req_seq_at_list = 0;
  u64 idle_seq = ~0ull;      // an idle moment: the base in force then, and the time evaluated before
  double idle_t = 0, idle_mint = 0;
  bool open_request = false;
  vector<V3> vehicles;       // candidate start positions
  double veh[3] = {0, 0, 0};
  int reqs_done = 0;
  int changes = 0, nregen = 0, ninplace = 0, nfail = 0;
  double err_veh = 0;
  u64 lastfail_seq = 0;
  u64 reported = 0, reported_ok = 0;  // failed computations reported to a caller; those before the last recovery
  bool uncertain() const { return reported != reported_ok; }
  bool giveup = false;
};
static IC ic[4];
static int ninst = 1;
static int nreq_threads = 0, nreq_done = 0;
static bool requests_done = false;

static void vfail(const char *cls, const string &m) { fail(cls, "%s", m.c_str()); }
// Unexpected exception out of a public call
static void check_rc(const OpResult &r, const char *what, bool fault_ok) {
  if (r.rc == R_DONE || r.rc == R_FALSE) return;
  if (fault_ok) return;
  vfail("unexpected-exception", fmt("%s threw: %s", what, r.what));
}

// a failed computation surfaced as an exception of this call (not a failing allocation of the call itself)
static void note_failure(IC &c, const OpResult &r) {
  if (r.rc && r.rc != R_FALSE && !alloc_fault_fired_in_op()) c.reported++, trace("inst %d failure reported: %s", c.id, r.what);
}
static int get_list(IC &c, List &l, OpResult &r) {
  WpOut buf[96];
  int n = op_get_wps(nuid(), c.h, buf, 96, &r);
  note_failure(c, r);
  probe(PB_CALLS);
  l.assign(buf, buf + std::min(n, 96));
  return r.rc;
}
static bool take_snap(IC &c, Snap &s) {
  OpResult r;
  List l2;
  s.stable = s.timed = false;
  s.seq0 = seq();
  if (get_list(c, s.l, r)) return false;
  s.toff = op_toffset(nuid(), c.h, &r);
  s.mint = op_min_time(nuid(), c.h, &r);
  if (r.rc) return false;
  s.maxt = op_max_time(nuid(), c.h, &r);
  if (r.rc) return false;
  double mint2 = op_min_time(nuid(), c.h, &r);
  double toff2 = op_toffset(nuid(), c.h, &r);
  if (get_list(c, l2, r)) return false;
  s.timed = same_times(s.l, l2) && toff2 == s.toff && mint2 == s.mint;
  s.stable = s.timed && same_list(s.l, l2);
  return s.stable;
}
static bool still(IC &c, const Snap &s) {  // nothing changed since s was taken
  Snap n;
  return take_snap(c, n) && same_list(n.l, s.l) && n.toff == s.toff && n.mint == s.mint && n.maxt == s.maxt;
}
static bool plot(IC &c, double t, double *o) {
  OpResult r;
  float tf = (float)t;
  bool ok = op_eval(nuid(), c.h, tf, o, 0, 1, &r);
  note_failure(c, r);
  probe(PB_PLOT_EVALS);
  check_rc(r, "plotting evaluation", P->faults.size() > 0 && prop == "C12");
  return ok && r.rc == 0;
}

// bound on what other waypoints' in-place modifications add at waypoint j's time
static double neighbour_slack(IC &c, const Snap &s, size_t j) {
  double sl = 0;
  for (size_t i = 0; i < s.l.size(); i++) {
    if (i == j || !s.l[i].mods) continue;
    auto it = c.modlog.find(s.l[i].name);
    if (it == c.modlog.end()) continue;
    for (auto &m : it->second) {
      double w = 1;
      double tj = s.l[i].time, d = tj - (m.t_inv + s.toff);
      if (m.t_inv + s.toff > 0 && d > 0) {
        double q = (s.l[j].time - tj) / d;
        w = std::exp(-4.5 * q * q);
        if (std::fabs(q) > 1.5) w = 0;
      }
      sl += w * (norm(m.delta) + 1e-9);
    }
  }
  return sl;
}

// What the 2 cm dead band per axis may leave out: any run of consecutive modifications may have been merged into one
static double deadband_slack(IC &c, const WpOut &w) {
  if (!w.mods) return 0;
  auto it = c.modlog.find(w.name);
  if (it == c.modlog.end()) return 0;
  auto &m = it->second;
  size_t n = m.size();
  double q = 0;
  for (int k = 0; k < 3; k++) {
    vector<double> best(n + 1, 0);
    for (size_t j = 1; j <= n; j++) {
      best[j] = best[j - 1];
      double sum = 0;
      for (size_t i = j; i-- > 0;) {
        sum += m[i].delta[k];
        if (std::fabs(sum) < 0.0201) best[j] = std::max(best[j], best[i] + std::fabs(sum));
      }
    }
    q += best[n] * best[n];
  }
  return std::sqrt(q);
}

static const char *wname(const WpOut &w) { return w.name[0] ? w.name : "<unnamed>"; }

// A waypoint modified an instant before it is reached makes the reference arbitrarily fast, and what is stitched to that
// can leave for kilometres and hours, where neither float times nor polynomials of that length resolve a centimetre.
static bool absurd(const Snap &s) {
  for (size_t i = 0; i < s.l.size(); i++) {
    if (norm(s.l[i].pos) > 2000) return true;
    if (i && s.l[i].time - s.l[i - 1].time > 1000) return true;
  }
  return s.maxt > 20000;
}

static ME *find_me(IC &c, const string &n);
// C04: the reference passes through every waypoint at its announced time
static void check_c04(IC &c, const Snap &s) {
  if (s.l.empty()) return;
  string bad;
  for (size_t i = 0; i + 1 < s.l.size(); i++)
    if (!(s.l[i + 1].time > s.l[i].time)) bad = fmt("announced times not increasing at %s: %s", wname(s.l[i + 1]), list_str(s.l).c_str());
  if (std::fabs(s.l.back().time - s.maxt) > 1e-5) bad = fmt("last waypoint %s announced at %.6f but the maximum time is %.6f", wname(s.l.back()), s.l.back().time, s.maxt);
  if (!bad.empty()) {
    if (still(c, s)) vfail("C04-times", bad);
    return;
  }
  bool anymods = false;
  for (auto &w : s.l) anymods = anymods || w.mods;
  for (size_t i = 0; i < s.l.size(); i++) {
    double t = s.l[i].time - s.toff;
    float tf = (float)t;
    double o[9];
    if (!plot(c, t, o)) return;
    double v = std::max(norm(o + 3), 1.0);
    double dtq = std::fabs((double)tf - t);
    double tol = 2e-3 + 3 * v * dtq + neighbour_slack(c, s, i) * 1.001 + deadband_slack(c, s.l[i]);
    double e = dist(o, s.l[i].pos);
    probe(PB_C04);
    ME *me = named(s.l[i]) && i + 1 < s.l.size() ? find_me(c, s.l[i].name) : nullptr;
    if (me && me->hasvel && me->at(s.l[i].pos) && !anymods) {
      double ev = dist(o + 3, me->vel);
      probe(PB_C04_VEL);
      if (!(ev <= 0.02 + 0.01 * norm(me->vel) + 3 * norm(o + 6) * dtq)) {
        if (!still(c, s)) return;
        vfail("C04-velocity", fmt("waypoint %s was requested with velocity (%.3f,%.3f,%.3f) but the reference there has (%.3f,%.3f,%.3f); list: %s", s.l[i].name, me->vel[0], me->vel[1], me->vel[2], o[3], o[4], o[5], list_str(s.l).c_str()));
      }
    }
    if (!(e <= tol)) {
      if (!still(c, s)) return;
      vfail("C04-passage", fmt("waypoint %s announced at t=%.4f (compensation %.4f) at (%.3f,%.3f,%.3f) but the reference there is (%.3f,%.3f,%.3f): off by %.4f m, allowed %.4f; list: %s", wname(s.l[i]), s.l[i].time, s.toff,
                               s.l[i].pos[0], s.l[i].pos[1], s.l[i].pos[2], o[0], o[1], o[2], e, tol, list_str(s.l).c_str()));
    }
  }
}

// C06: velocity and acceleration are derivatives
static void check_c06(IC &c, const Snap &s, Rng &g, int npts) {
  if (s.maxt - s.mint < 0.2) return;
  for (int p = 0; p < npts; p++) {
    double lo = s.mint - s.toff + 0.02, hi = s.maxt - s.toff - 0.02;
    if (hi <= lo) return;
    double t0;
    if (g.p(0.5) || s.l.empty())
      t0 = g.uni(lo, hi);
    else {
      const WpOut &w = s.l[g.below(s.l.size())];
      t0 = w.time - s.toff + g.uni(-0.4, 0.4);
      t0 = std::min(std::max(t0, lo), hi);
    }
    enum { K = 13 };
    const double h = 2e-3;
    float tt[K];
    double o[K][9];
    for (int k = 0; k < K; k++) {
      tt[k] = (float)(t0 + (k - K / 2) * h);
      if (!plot(c, tt[k], o[k])) return;
    }
    // offsets of in-range points only
    int badv = 0, bada = 0, n = 0;
    double wv = 0, wa = 0;
    for (int k = 1; k + 1 < K; k++) {
      if ((double)tt[k - 1] + s.toff <= s.mint + 1e-6 || (double)tt[k + 1] + s.toff >= s.maxt - 1e-6) continue;
      double d = (double)tt[k + 1] - (double)tt[k - 1];
      double ev = 0, ea = 0, mv = 0, ma = 0, jv = 0, ja = 0;
      for (int j = 0; j < 3; j++) {
        double dv = (o[k + 1][j] - o[k - 1][j]) / d, da = (o[k + 1][3 + j] - o[k - 1][3 + j]) / d;
        ev = std::max(ev, std::fabs(dv - o[k][3 + j]));
        ea = std::max(ea, std::fabs(da - o[k][6 + j]));
        mv = std::max(mv, std::fabs(o[k][3 + j]));
        ma = std::max(ma, std::fabs(o[k][6 + j]));
        // curvature terms: spread of the derivative over the stencil
        jv = std::max(jv, std::fabs(o[k + 1][3 + j] - 2 * o[k][3 + j] + o[k - 1][3 + j]));
        ja = std::max(ja, std::fabs(o[k + 1][6 + j] - 2 * o[k][6 + j] + o[k - 1][6 + j]));
      }
      n++;
      for (int j = 0; j < 9; j++)
        if (!std::isfinite(o[k][j])) {
          if (still(c, s)) vfail("C06-nonfinite", fmt("reference at t=%.4f is not finite", tt[k]));
          return;
        }
      double tv = 0.01 + 0.01 * mv + 2 * jv, ta = 0.05 + 0.02 * ma + 2 * ja;
      if (ev > tv) badv++, wv = std::max(wv, ev);
      if (ea > ta) bada++, wa = std::max(wa, ea);
    }
    probe(PB_C06);
    if (n >= 7 && (badv > n / 2 || bada > n / 2)) {
      if (!still(c, s)) return;
      vfail("C06-derivative", fmt("around t=%.4f %s is not the derivative of %s: off by %.4f at %d of %d points; p=(%.3f,%.3f,%.3f) v=(%.3f,%.3f,%.3f) a=(%.3f,%.3f,%.3f); list %s", t0, badv > n / 2 ? "velocity" : "acceleration",
                                  badv > n / 2 ? "position" : "velocity", badv > n / 2 ? wv : wa, badv > n / 2 ? badv : bada, n, o[K / 2][0], o[K / 2][1], o[K / 2][2], o[K / 2][3], o[K / 2][4], o[K / 2][5], o[K / 2][6],
                                  o[K / 2][7], o[K / 2][8], list_str(s.l).c_str()));
    }
  }
}

// C07: end of the trajectory: at rest at the last waypoint, for ever; before the start: the start
static void check_c07_end(IC &c, const Snap &s) {
  if (s.l.empty()) return;
  static const double dts[] = {0.0, 1e-3, 0.05, 0.4, 1.7, 6.0, 40.0, 1000.0};
  for (double d : dts) {
    double t = s.maxt - s.toff + d, o[9];
    if (!plot(c, t, o)) return;
    const WpOut &w = s.l.back();
    double slack = 0, vslack = 0;
    if (d == 0.0) {
      slack = neighbour_slack(c, s, s.l.size() - 1);
      vslack = 1e9;
    } else {
      slack = neighbour_slack(c, s, s.l.size() - 1);
    }
    double tol = 5e-3 + slack * 1.001 + deadband_slack(c, w);
    double e = dist(o, w.pos), v = norm(o + 3), a = norm(o + 6);
    probe(PB_C07_END);
    bool bad = !(e <= tol) || !(v <= 0.02 + vslack) || !(a <= 0.1 + vslack);
    if (bad) {
      if (!still(c, s)) return;
      vfail("C07-end", fmt("%.3f s after the end (t=%.4f, max %.4f, compensation %.4f) the reference is (%.3f,%.3f,%.3f), speed %.4f, acceleration %.4f; last waypoint %s is at (%.3f,%.3f,%.3f): off by %.4f, allowed %.4f; list %s", d, t, s.maxt,
                           s.toff, o[0], o[1], o[2], v, a, wname(w), w.pos[0], w.pos[1], w.pos[2], e, tol, list_str(s.l).c_str()));
    }
  }
  // it also arrives at rest: the reference just before the end, carried on to the end, is still
  for (auto &w : s.l)
    if (w.mods) return;
  if (s.maxt - s.mint < 1.0) return;
  const double h = 2e-3;
  double x[3][9];
  for (int k = 0; k < 3; k++)
    if (!plot(c, s.maxt - s.toff - h * (k + 1), x[k])) return;
  double ev = 0, ea = 0, sv = 0, sa = 0;
  for (int j = 3; j < 9; j++) {
    double e = 2 * x[0][j] - x[1][j], curv = std::fabs(x[0][j] - 2 * x[1][j] + x[2][j]);
    if (!std::isfinite(e)) return;
    (j < 6 ? ev : ea) = std::max(j < 6 ? ev : ea, std::fabs(e));
    (j < 6 ? sv : sa) = std::max(j < 6 ? sv : sa, 2 * curv);
  }
  if (ev > 0.02 + sv || ea > 0.1 + sa) {
    if (!still(c, s)) return;
    vfail("C07-end", fmt("just before the end (t=%.4f) the reference is not coming to rest: speed %.4f, acceleration %.4f carried on to the end; list %s", s.maxt - s.toff - h, ev, ea, list_str(s.l).c_str()));
  }
}
static void check_c07_start(IC &c, const Snap &s, const vector<V3> &cand) {
  double o[9], o2[9];
  double t = s.mint - s.toff - 0.5;
  if (!plot(c, t, o) || !plot(c, s.mint - s.toff - 7, o2)) return;
  double best = 1e9;
  for (auto &x : cand) best = std::min(best, dist(o, x.v));
  double mods = 0;
  for (auto &w : s.l)
    if (w.mods)
      for (auto &m : c.modlog[w.name]) mods += norm(m.delta);
  probe(PB_C07_START);
  if (mods > 0) return;
  if (!(best <= 5e-3) || !(norm(o + 3) <= 0.02) || !(norm(o + 6) <= 0.05) || !(dist(o, o2) <= 1e-6)) {
    if (!still(c, s)) return;
    vfail("C07-start", fmt("a trajectory generated from scratch starts at (%.3f,%.3f,%.3f) speed %.4f acceleration %.4f (earlier: (%.3f,%.3f,%.3f)), %.4f m from the nearest reported vehicle position; list %s", o[0], o[1], o[2], norm(o + 3), norm(o + 6), o2[0], o2[1],
                           o2[2], best, list_str(s.l).c_str()));
  }
}
// ------------------------------------------------------------------ model of the requests
static ME *find_me(IC &c, const string &n) {
  for (auto &e : c.model)
    if (e.name == n) return &e;
  return nullptr;
}
static void model_apply(IC &c, const Op &o) {
  auto add = [&](const WpSpec &w) {
    ME e;
    e.name = w.name;
    memcpy(e.pos, w.pos, sizeof e.pos);
    memcpy(e.pos0, w.pos, sizeof e.pos0);
    e.epoch = c.epoch;
    e.unnamed = !w.name[0];
    e.hist.push_back({w.pos[0], w.pos[1], w.pos[2]});
    e.th = o.kind == OP_SET ? -1 : o.th;
    e.hasvel = w.extra & 1;
    memcpy(e.vel, w.vel, sizeof e.vel);
    c.gone.erase(e.name);
    c.model.push_back(e);
  };
  switch (o.kind) {
    case OP_SET:
      c.epoch++;
      for (auto &e : c.model)
        if (!e.unnamed) c.gone.insert(e.name), probe(PB_SUPERSEDED);
      c.model.clear();
      for (auto &w : o.w) add(w);
      break;
    case OP_APPEND:
      add(o.w[0]);
      break;
    case OP_MODIFY:
    case OP_MODBATCH:
      for (auto &w : o.w) {
        bool any = false;
        for (auto &e : c.model)
          if (e.name == w.name && w.name[0]) {
            any = true;
            Mod m;
            m.seq = seq();
            m.t_inv = c.last_t;
            for (int k = 0; k < 3; k++) m.delta[k] = w.pos[k] - e.pos[k];
            memcpy(e.pos, w.pos, sizeof e.pos);
            e.hist.push_back({w.pos[0], w.pos[1], w.pos[2]});
            e.mods.push_back(m);
            c.modlog[e.name].push_back(m);
          }
        (void)any;
      }
      break;
  }
}

// does the published list agree with the requests so far? "" if yes
enum { MM_NONE = 0, MM_MISSING, MM_POS, MM_ORDER, MM_FOREIGN };
static int mismatch(IC &c, const List &l, double t, string &why) {
  std::map<string, int> cnt;
  for (auto &w : l)
    if (named(w)) cnt[w.name]++;
  for (auto &k : cnt) {
    if (c.gone.count(k.first)) {
      why = fmt("waypoint %s was superseded by a later set call but is still published", k.first.c_str());
      return MM_FOREIGN;
    }
    if (!find_me(c, k.first)) {
      why = fmt("waypoint %s was never requested", k.first.c_str());
      return MM_FOREIGN;
    }
    if (k.second > 1) {
      why = fmt("waypoint %s is published %d times", k.first.c_str(), k.second);
      return MM_FOREIGN;
    }
  }
  for (auto &w : l) {  // names used again by a later set
    ME *e = named(w) ? find_me(c, w.name) : nullptr;
    if (e && !e->at(w.pos)) {
      why = fmt("waypoint %s is published at (%.3f,%.3f,%.3f), a position which was never requested for it since the latest set", w.name, w.pos[0], w.pos[1], w.pos[2]);
      return MM_FOREIGN;
    }
  }
  std::map<int, size_t> at;
  for (auto &e : c.model) {
    if (e.unnamed) continue;
    size_t i = 0;
    for (; i < l.size(); i++)
      if (e.name == l[i].name) break;
    if (i == l.size()) {
      if (!e.passed) {
        why = fmt("waypoint %s was accepted but is not published%s", e.name.c_str(), e.seen ? " any more, though never reached" : "");
        return MM_MISSING;
      }
      continue;
    }
    if (i < at[e.th] || i < at[-1]) {
      why = fmt("waypoint %s is published out of order", e.name.c_str());
      return MM_ORDER;
    }
    at[e.th] = i;
  }
  for (auto &e : c.model) {
    if (e.unnamed) continue;
    for (auto &w : l)
      if (e.name == w.name && w.time > t && !e.passed && !(dist(w.pos, e.pos) < 1e-9)) {
        why = fmt("waypoint %s is published at (%.3f,%.3f,%.3f), last requested position (%.3f,%.3f,%.3f)", w.name, w.pos[0], w.pos[1], w.pos[2], e.pos[0], e.pos[1], e.pos[2]);
        return MM_POS;
      }
  }
  return MM_NONE;
}
// The reference runs the announced time compensation ahead of the evaluated time: a waypoint announced between the
// two counts as reached for some purposes and as ahead for others.
static void mark_seen(IC &c, const List &l, double t) {
  double off = c.snap.timed ? c.snap.toff : 1e9;
  for (auto &w : l) {
    if (!named(w)) continue;
    ME *e = find_me(c, w.name);
    if (!e || !e->at(w.pos)) continue;
    e->seen = true;
    if (w.time <= std::max(t, t + off)) e->passed = true;
  }
}

// a new published list was observed
static double par(const char *k, double d = 0) { return P->get(k, d); }

static void on_regen(IC &c, const List &prev, bool had, Snap &s, double t1, const double *p1, bool haveP1, Rng &g) {
  c.nregen++;
  bool scratch = s.l.size() && !named(s.l[0]) && !is_stitch(s.l[0]);
  probe(scratch ? PB_REGEN_SCRATCH : PB_REGEN_STITCH);
  double base = s.mint;
  // C03
  auto epoch_of = [&](const List &l) {
    int e = -1;
    for (auto &w : l)
      if (named(w) && w.name[0] == 'e') e = std::max(e, atoi(w.name + 1));
    return e;
  };
  if (had && par("unique_names", 1) && want("C03")) {
    int e0 = epoch_of(prev), e1 = epoch_of(s.l);
    if (e0 >= 0 && e0 == e1) {
      size_t at = 0;
      for (auto &w : prev) {
        if (!named(w)) continue;
        int n = 0;
        size_t pos = 0;
        for (size_t i = 0; i < s.l.size(); i++)
          if (!strcmp(s.l[i].name, w.name)) n++, pos = i;
        double off = c.snap.timed ? c.snap.toff : 1e9;
        bool ahead = w.time > std::max(base, base + off), behind = w.time <= std::min(base, base + off) && c.snap.timed;
        if (!ahead && !behind) continue;
        if (ahead) {
          probe(PB_C03_KEEP);
          if (n == 0) vfail("C03-dropped", fmt("regeneration based at t=%.4f dropped waypoint %s announced for t=%.4f; before: %s; after: %s", base, w.name, w.time, list_str(prev).c_str(), list_str(s.l).c_str()));
          if (n > 1) vfail("C03-duplicated", fmt("regeneration duplicated waypoint %s; after: %s", w.name, list_str(s.l).c_str()));
          if (pos < at) vfail("C03-order", fmt("regeneration moved waypoint %s; before: %s; after: %s", w.name, list_str(prev).c_str(), list_str(s.l).c_str()));
          at = pos;
          bool known = false;
          if (dist(s.l[pos].pos, w.pos) < 1e-9) known = true;
          if (c.modlog.count(w.name)) known = true;
          if (!known) vfail("C03-position", fmt("regeneration moved waypoint %s from (%.3f,%.3f,%.3f) to (%.3f,%.3f,%.3f) though it was not modified", w.name, w.pos[0], w.pos[1], w.pos[2], s.l[pos].pos[0], s.l[pos].pos[1], s.l[pos].pos[2]));
        } else {
          probe(PB_C03_PASSED);
          if (n) vfail("C03-returned", fmt("waypoint %s, reached at t=%.4f, came back in the regeneration based at t=%.4f: %s", w.name, w.time, base, list_str(s.l).c_str()));
        }
      }
      // nothing new before the kept ones
      std::set<string> old;
      for (auto &w : prev)
        if (named(w)) old.insert(w.name);
      bool newseen = false;
      for (auto &w : s.l) {
        if (!named(w)) continue;
        if (!old.count(w.name)) newseen = true;
        else if (newseen) vfail("C03-order", fmt("appended waypoint precedes the kept waypoint %s: %s", w.name, list_str(s.l).c_str()));
      }
    }
  }
  if (!s.stable) return;
  // C15: base time is a flight-evaluated time between request and takeover
  if (want("C15")) {
    bool ok = base == 0.0;  // nothing evaluated yet; the idle check below bounds it
    double first = -1;
    for (size_t i = c.fl.size(); i-- > 0 && !ok;)
      if (c.fl[i].t == base) ok = true;
    (void)first;
    if (!ok) vfail("C15-base", fmt("the time range starts at %.6f, which is no time evaluated for flight before the takeover", base));
    if (ok && c.fl.size() && base > c.fl.back().t + 1e-9) vfail("C15-base", fmt("the time range starts at %.6f, later than the latest evaluation %.6f", base, c.fl.back().t));
    if (ok && s.seq0 > c.idle_seq && base != c.idle_mint && base + 1e-9 < c.idle_t) vfail("C15-base", fmt("the active generation is based at t=%.6f, earlier than the time %.6f evaluated before it was requested", base, c.idle_t));
    probe(PB_C15);
  }
  if (want("C07") && scratch) check_c07_start(c, s, c.vehicles);
  if (want("C05") && had && !scratch) {
    // the new trajectory starts where the reference was when its generation began
    const Flight *f = nullptr;
    bool clean = true;
    double tol = 1e-3 + 1e-4 * c.speed;
    for (auto &x : c.fl)
      if (x.t == base && x.changes >= 0 && x.changes == c.changes - 1) f = &x;
    for (auto &w : prev) {
      if (!named(w) || !c.modlog.count(w.name)) continue;
      clean = false;
      for (auto &m : c.modlog[w.name])
        if (m.t_inv >= base - 3) tol += 0.0125 * norm(m.delta);
    }
    for (auto &w : s.l)
      if (w.mods) f = nullptr;
    double o[9];
    if (f && base > 0 && plot(c, base - s.toff, o) && still(c, s)) {
      probe(PB_C05_STITCH);
      double dp = dist(o, f->r), dv = dist(o + 3, f->r + 3), da = dist(o + 6, f->r + 6);
      double vs = 1 + norm(f->r + 3), as = 1 + norm(f->r + 6);
      trace("C05stitch dp %.5f dv %.5f da %.5f clean %d", dp, dv, da, clean);
      if (!(dp <= tol + 1e-5 * vs) || (clean && !(dv <= 2e-3 * (vs + as) && da <= 0.01 * (vs + as)))) vfail("C05-stitch", fmt("the regenerated trajectory starts %.4f m, %.4f m/s and %.4f m/s2 away from the reference at t=%.4f where its generation began (allowed %.4f m): (%.3f,%.3f,%.3f) instead of (%.3f,%.3f,%.3f); list %s", dp, dv, da, base, tol, o[0], o[1], o[2], f->r[0], f->r[1], f->r[2], list_str(s.l).c_str()));
    }
  }
  if (want("C05") && had && haveP1 && !scratch) {
    double o[9];
    if (plot(c, t1, o) && still(c, s)) {
      double d = dist(o, p1);
      double sp = c.speed, vm = std::max(norm(p1 + 3), norm(o + 3));
      // how long this computation and the previous one took: the new trajectory follows the old one for as long as
      // the estimate from the previous one says, and the fitting looks as far as this one took
      OpResult rr;
      u64 k = computes_started();
      if (op_computing(nuid(), c.h, &rr)) k--;
      double tc = compute_dur(k), tp = compute_dur(k - 1), mid = t1 - base;
      if (tc < 0 || tp < 0 || c.reported) return;
      // a modification applied just before its waypoint makes the reference itself arbitrarily fast
      for (auto &w : prev)
        if (named(w) && c.modlog.count(w.name) && std::fabs(w.time - base) < 2.5) return;
      double br = 0.25 + 0.5 * std::max(0.0, mid) + std::max(0.0, mid - 2.7 * tc) + 2 * std::max(0.0, mid - 9 * tp);
      trace("C05stat d %.4f v %.4f speed %.4f ratio %.4f br %.4f mid %.4f tc %.4f tp %.4f", d, vm, sp, d / (vm + 0.05), br, mid, tc, tp);
      probe(PB_C05_TAKEOVER);
      double bound = 0.05 + br * std::max(vm, sp);
      res->probes[61] = std::max(res->probes[61], (u64)(1000 * d / sp));
      res->probes[62] = std::max(res->probes[62], (u64)(1000 * d));
      if (!(d <= bound)) vfail("C05-takeover", fmt("at a takeover the reference at t=%.4f moved from (%.3f,%.3f,%.3f) to (%.3f,%.3f,%.3f): %.3f m at speed limit %.2f; base %.4f compensation %.4f; list %s", t1, p1[0], p1[1], p1[2], o[0], o[1], o[2], d, sp, base, s.toff, list_str(s.l).c_str()));
    }
  }
}

static void geometry(IC &c, Rng &g, bool final) {
  Snap s;
  if (!take_snap(c, s) || s.l.empty() || absurd(s)) return;
  if (want("C04")) check_c04(c, s);
  if (want("C06")) check_c06(c, s, g, final ? 10 : 3);
  if (want("C07")) check_c07_end(c, s);
}

// one observation by the pilot after a flight evaluation. p1/t1: previous flight reference
static void observe(IC &c, double t1, const double *p1, bool haveP1, Rng &g) {
  OpResult r;
  List l;
  if (get_list(c, l, r)) {
    check_rc(r, "getDynamicWaypoints", prop == "C12");
    return;
  }
  for (auto &w : l) {
    mix((u64)(w.time * 1e6));
    mixd(w.pos[0]);
  }
  bool first = !c.have;
  if (!c.have || !same_times(l, c.cur)) {
    List prev = c.cur;
    bool had = c.have && prev.size();
    if (had) mark_seen(c, prev, c.last_t);
    // two computations may have been taken over since the last look: what was reached on the trajectory in between
    // is not known
    u64 ended = computes_ended(c.bg);
    if (had && ended - c.bg_ended >= 2) {
      probe(PB_UNSEEN);
      had = false;
      for (auto &e : c.model) {
        if (e.unnamed) continue;
        bool in = false;
        for (auto &w : l) in = in || e.name == w.name;
        if (in) break;
        if (e.seen && !e.passed) e.passed = true;
      }
    }
    c.bg_ended = ended;
    Snap s;
    bool ok = take_snap(c, s) && same_list(s.l, l);
    if (!ok && !(s.timed && same_times(s.l, l))) s.timed = false, s.mint = op_min_time(nuid(), c.h, &r);
    if (!ok) s.stable = false, s.l = l;
    if (same_times(s.l, l)) {
      c.cur = l;
      c.have = true;
      c.changes++;
      probe(PB_LISTS);
      res->state_hash = res->state_hash * 1000003 + l.size() * 31 + (u64)(l.empty() ? 0 : l.back().time * 16);
      trace("inst %d published: base %.4f toff %.4f max %.4f: %s", c.id, s.mint, s.toff, s.maxt, list_str(l).c_str());
      if (l.size()) on_regen(c, prev, had, s, t1, p1, haveP1, g);
      c.snap = s;
      c.vehicles.clear();
      V3 v;
      memcpy(v.v, c.veh, sizeof v.v);
      c.vehicles.push_back(v);
      if (s.stable && l.size() && g.p(par("geom_p", 0.3))) geometry(c, g, false);
    }
    else c.changes++;  // changed again already; look at it next time
  } else if (!same_list(l, c.cur)) {
    List prev = c.cur;
    c.cur = l;
    c.ninplace++;
    c.changes++;
    probe(PB_INPLACE);
    trace("inst %d in-place change: %s", c.id, list_str(l).c_str());
    if (want("C05") && haveP1 && t1 > 0) {
      Snap s;
      double o[9];
      if (take_snap(c, s) && same_list(s.l, l) && plot(c, t1, o) && still(c, s)) {
        double sum = 0;
        for (size_t i = 0; i < l.size(); i++) sum += dist(l[i].pos, prev[i].pos) + (l[i].mods ? 0.0 : 0.0);
        // several modifications of one waypoint may hide behind one net change
        for (size_t i = 0; i < l.size(); i++) {
          if (dist(l[i].pos, prev[i].pos) == 0) continue;
          auto &ml = c.modlog[l[i].name];
          for (auto &m : ml)
            if (m.t_inv >= t1 - 3.0) sum += norm(m.delta);
        }
        double d = dist(o, p1);
        probe(PB_C05_MOD);
        double bound = 0.0125 * sum + 2e-3 + 0.0005 * c.speed;
        res->probes[63] = std::max(res->probes[63], (u64)(1000 * d));
        if (!(d <= bound)) vfail("C05-modification", fmt("an in-place modification moved the reference at the already evaluated t=%.4f by %.4f m (allowed %.4f): (%.3f,%.3f,%.3f) to (%.3f,%.3f,%.3f); compensation %.4f; before %s after %s", t1, d, bound, p1[0], p1[1], p1[2], o[0], o[1], o[2], s.toff, list_str(prev).c_str(), list_str(l).c_str()));
      }
    }
    if (g.p(par("geom_p", 0.3))) geometry(c, g, false);
  }
  (void)first;
  if (!c.snap.timed) {
    Snap s;
    take_snap(c, s);
    if (s.timed && same_times(s.l, c.cur)) c.snap = s;
  }
  mark_seen(c, c.cur, c.last_t);
}

static void check_c15(IC &c, bool effect = false) {
  OpResult r;
  List a, b;
  WpOut nx[96];
  if (get_list(c, a, r)) return;
  int n = op_get_next(nuid(), c.h, nx, 96, &r);
  if (r.rc) return;
  int rem = op_remaining(nuid(), c.h, &r);
  if (r.rc) return;
  double maxt = op_max_time(nuid(), c.h, &r);
  double mint = op_min_time(nuid(), c.h, &r);
  if (get_list(c, b, r)) return;
  if (!same_list(a, b) || a.empty()) return;
  double mint2 = op_min_time(nuid(), c.h, &r);
  if (mint2 != mint) return;
  probe(PB_C15);
  vector<const WpOut *> ex;
  for (auto &w : a)
    if (w.time > c.last_t) ex.push_back(&w);
  bool ok = (int)ex.size() == n;
  for (int i = 0; ok && i < n && i < 96; i++)
    if (strcmp(nx[i].name, ex[i]->name) || nx[i].time != ex[i]->time) ok = false;
  if (!ok && effect) vfail("C12-effect", fmt("after an evaluation that failed %d next waypoints are reported, %d of the published ones are later than the latest time %.4f evaluated with success: %s", n, (int)ex.size(), c.last_t, list_str(a).c_str()));
  if (!ok) vfail("C15-next", fmt("next waypoints: %d returned, %d of the published ones are later than the latest evaluated time %.4f: %s", n, (int)ex.size(), c.last_t, list_str(a).c_str()));
  int e = (int)ex.size();
  for (auto *w : ex) {
    if (is_stitch(*w)) e--;
    else break;
  }
  if (rem != e) vfail("C15-remaining", fmt("remaining count %d, expected %d at t=%.4f: %s", rem, e, c.last_t, list_str(a).c_str()));
  if (!(std::fabs(maxt - a.back().time) < 1e-5)) vfail("C15-range", fmt("maximum time %.6f but the last waypoint is at %.6f", maxt, a.back().time));
  if (!(mint <= maxt)) vfail("C15-range", fmt("minimum time %.6f exceeds maximum time %.6f", mint, maxt));
}

// one flight evaluation; returns false if it failed (fault)
static bool fly(IC &c, double t) {
  OpResult r;
  Flight f;
  float tf = (float)t;
  bool was_have = c.have;
  Snap before;
  bool c12 = prop == "C12" && was_have;
  u64 t0 = now();
  bool ok = op_eval(nuid(), c.h, tf, f.r, 0, 0, &r);
  u64 dur = now() - t0;
  (void)dur;
  (void)ok;
  note_failure(c, r);
  probe(PB_FLIGHT_EVALS);
  probe(PB_CALLS);
  if (r.rc) {
    if (!(prop == "C12")) check_rc(r, "evaluateTrajectory", false);
    c.nfail++;
    probe(PB_COMPFAIL);
    mix(0xbad);
    (void)c12;
    return false;
  }
  f.t = tf;
  f.seq = seq();
  for (int k = 0; k < 9; k++) {
    mixd(f.r[k]);
    if (!std::isfinite(f.r[k])) vfail("nonfinite", fmt("reference at t=%.4f is not finite", t));
  }
  c.last_t = tf;
  c.maxflight = std::max(c.maxflight, (double)tf);
  c.flown = true;
  c.fl.push_back(f);
  return true;
}
static void vehicle(IC &c, const double *p) {
  OpResult r;
  memcpy(c.veh, p, sizeof c.veh);
  V3 v;
  memcpy(v.v, p, sizeof v.v);
  c.vehicles.push_back(v);  // before the call: it may be sampled at once
  op_vehicle(nuid(), c.h, p, &r);
}

struct PilotArg {
  int i;
};
static PilotArg parg[4];
static bool stop_pilots = false;

// pending work?
static int flags(IC &c) {
  OpResult r;
  int p = op_pending(nuid(), c.h, &r);
  int q = op_computing(nuid(), c.h, &r);
  return p | (q << 1);
}

static bool pilots_left[4];
static bool settled_now = false;
static void pilot_body(IC &c) {
  Rng g(P->seed * 77 + c.id + 5);
  double period = par("period", 0.02), rate = par("rate", 1.0);
  double t = 0;
  sleep_ns((u64)(par("pilot_delay", 0.0) * 1e9) + 1000);
  while (!c.started && !requests_done) sleep_ns(5000000);
  if (!c.started) return;
  u64 last = now();
  double p1[9], t1 = 0;
  bool haveP1 = false;
  double grace = 3.0 + 30 * P->sched.stall_max * (P->sched.pstall > 0);
  for (auto &f : P->faults)
    if (f.kind == F_SOLVER_DUR) grace = std::max(grace, 3.0 + 30 * P->sched.stall_max + 0.1 * f.arg * 1e-9);
  u64 done_at = 0, mm_since = 0;
  int okcount = 0, done_epoch = -1;
  double solver_max = par("solver_max", 0.1);
  double bound = 240 + 40 * solver_max + 50 * P->sched.stall_max;
  double frate = 0;
  for (;;) {
    double per = period * g.uni(0.6, 1.4);
    if (g.p(par("gap_p", 0.0))) per += g.uni(0.0, par("gap_max", 0.5));
    sleep_ns((u64)(per * 1e9));
    u64 n = now();
    double el = (n - last) * 1e-9;
    last = n;
    if (el > 0.5 && rate > 0) el = std::min(el, par("max_step", 0.5));
    double rr = rate;
    if (requests_done) rr = frate > 0 ? frate : 0.05;
    t += el * rr;
    if ((float)t < (float)c.last_t) t = c.last_t;
    if (!fly(c, t)) {
      // fault reported: state must be what it was
      if (c.have) {
        List l;
        OpResult r;
        if (get_list(c, l, r) == 0 && !same_times(l, c.cur) && par("strict_fail")) vfail("C12-state", "a reported failure changed the published waypoints: before " + list_str(c.cur) + " after " + list_str(l));
        if (haveP1) {
          double o[9];
          OpResult r2;
          op_eval(nuid(), c.h, (float)t1, o, 0, 1, &r2);
          OpResult r3;  // another trajectory may be taken over in between
          if (get_list(c, l, r3) || r3.rc) l.clear();
          if (r2.rc == 0 && same_list(l, c.cur) && c.fl.size() && c.fl.back().changes == c.changes && dist(o, p1) > 0.02 + 0.02 * c.speed) vfail("C12-state", fmt("a reported failure moved the reference at t=%.4f by %.3f m", t1, dist(o, p1)));
          probe(PB_RETAINED_FAULT);
        }
        check_c15(c, true);
      }
      if (stop_pilots) return;
      if (!requests_done) continue;
    } else {
      double np[9];
      memcpy(np, c.fl.back().r, sizeof np);
      if (par("track", 1)) {
        double v[3];
        for (int k = 0; k < 3; k++) v[k] = np[k] + g.uni(-1, 1) * par("track_noise", 0.02);
        vehicle(c, v);
      }
      int ch = c.changes;
      observe(c, t1, p1, haveP1, g);
      memcpy(p1, np, sizeof p1);
      t1 = c.last_t;
      haveP1 = true;
      if (c.changes == ch) c.fl.back().changes = ch;
      if (c.changes != ch && want("C05")) {  // the change may have come after the evaluation
        List l;
        OpResult r;
        haveP1 = plot(c, t1, p1) && get_list(c, l, r) == 0 && same_list(l, c.cur);
      }
      if (want("C15") && g.p(0.3)) check_c15(c);
    }
    if (stop_pilots) return;
    if (!requests_done) continue;
    // settling
    if (!done_at || c.epoch != done_epoch) done_at = now(), done_epoch = c.epoch, mm_since = 0, okcount = 0;
    string why;
    int f = flags(c);
    int mm = c.have ? mismatch(c, c.cur, c.last_t, why) : MM_MISSING;
    if (c.uncertain() && !c.giveup) {  // a failed computation took requests with it: wait for the recovery
      okcount = 0, mm_since = 0, done_at = now(), frate = 0.02;
      continue;
    }
    if (c.uncertain()) mm = MM_NONE;
    if (!c.have) why = "nothing published";
    if (mm == MM_NONE && f == 0) {
      if (++okcount >= 6) break;
    } else
      okcount = 0;
    frate = (mm == MM_POS) ? 0.02 : 1.0;
    if (mm == MM_NONE) frate = f ? 1.0 : 0.02;
    if (now() - done_at < 2000000000ull) frate = 0.05;
    if (mm == MM_POS && !(f & 2)) {
      if (!mm_since) mm_since = now();
      if ((now() - mm_since) * 1e-9 > grace) {
        const char *cl = want("C02") ? "C02-position" : "modification-lost";
        vfail(cl, fmt("%.2f s after the last request, nothing being computed: %s; list %s", (now() - done_at) * 1e-9, why.c_str(), list_str(c.cur).c_str()));
      }
    } else
      mm_since = 0;
    if (mm == MM_MISSING || mm == MM_ORDER || mm == MM_FOREIGN || f) {
      if ((now() - done_at) * 1e-9 > 5) probe(PB_ZONE_WAIT);
      if ((now() - done_at) * 1e-9 > bound) {
        if (mm == MM_NONE) vfail("not-idle", fmt("%.1f s after the last request the generator still reports %s%s although every request is in effect", bound, f & 1 ? "pending " : "", f & 2 ? "computing" : ""));
        vfail(mm == MM_MISSING ? (why.find("any more") != string::npos ? "waypoint-dropped" : "request-lost") : mm == MM_ORDER ? "order" : "superseded", fmt("%.1f s after the last request (flight time %.2f): %s; status %s%s; list %s", bound, c.last_t, why.c_str(), f & 1 ? "pending " : "", f & 2 ? "computing" : "idle", list_str(c.cur).c_str()));
      }
    }
  }
  probe(PB_SETTLED);
  geometry(c, g, true);
  if (want("C15")) check_c15(c);
  // fly some of the rest
  double end = c.snap.maxt;
  int k = 0;
  while (par("fly_out") && c.last_t < end + 2 && k++ < 400) {
    sleep_ns((u64)(period * 1e9));
    t += std::max(period, (end + 2 - c.last_t) / 120);
    if (!fly(c, t)) break;
    observe(c, t1, p1, haveP1, g);
    memcpy(p1, c.fl.back().r, sizeof p1);
    t1 = c.last_t;
    if (want("C15")) check_c15(c);
  }
  if (par("fly_out")) geometry(c, g, true);
}
static void pilot_main(void *a) {
  IC &c = ic[((PilotArg *)a)->i];
  pilot_body(c);
  pilots_left[c.id] = false;
}

// ------------------------------------------------------------------ request threads
static int idle_seen = 0;
static void idle_check(IC &c) {
  // called right after an accepted request by the same (only) requester
  OpResult r;
  for (int k = 0; k < 400; k++) {
    int p = op_pending(nuid(), c.h, &r);
    int q = op_computing(nuid(), c.h, &r);
    if (!p && !q) {
      probe(PB_IDLE_SEEN);
      List l;
      if (get_list(c, l, r)) return;
      string why;
      // every set/append so far must be published (none may have been passed unobserved: passed ones are exempt)
      std::set<string> have;
      for (auto &w : l) have.insert(w.name);
      probe(PB_IDLE_CHECKED);
      for (auto &e : c.model) {
        if (e.unnamed || e.passed || have.count(e.name)) continue;
        vfail("C16-idle", fmt("no regeneration pending and none being computed, but the accepted waypoint %s is not published: %s", e.name.c_str(), list_str(l).c_str()));
      }
      for (auto &g : c.gone)
        if (have.count(g)) vfail("C16-idle", fmt("no regeneration pending and none being computed, but the superseded waypoint %s is still published", g.c_str()));
      return;
    }
    u64 s = par("idle_poll_ns", 2000);
    if (s) sleep_ns(s);
    else point();
  }
}

static void do_op(const Op &o) {
  IC &c = ic[o.inst];
  OpResult r;
  memset(&r, 0, sizeof r);
  bool faulty = prop == "C12";
  u64 t0 = now();
  bool computing = false;
  if (par("longcall")) {
    OpResult q;
    computing = op_computing(nuid(), c.h, &q) == 1 && c.have;
  }
  switch (o.kind) {
    case OP_SET:
    case OP_APPEND:
    case OP_MODIFY:
    case OP_MODBATCH: {
      probe(PB_REQUESTS);
      OpResult q;
      if (o.kind != OP_MODIFY || o.a) {
        int f = flags(c);
        if (f & 1) probe(PB_REQ_WHILE_PENDING);
        if (f & 2) probe(PB_REQ_WHILE_COMPUTING);
      }
      (void)q;
      if (want("C15") && c.have) {
        double t = c.last_t;
        if (!flags(c)) {
          double m = op_min_time(nuid(), c.h, &q);
          c.idle_t = t, c.idle_mint = m, c.idle_seq = seq();
        }
      }
      // record modifications before the call so that slack bounds know them
      vector<ME> saved;
      std::set<string> sgone;
      int sep = c.epoch;
      if (faulty) saved = c.model, sgone = c.gone;
      model_apply(c, o);
      if (o.kind == OP_SET) op_set(o.uid, c.h, o.w.data(), (int)o.w.size(), &r);
      else if (o.kind == OP_APPEND) op_append(o.uid, c.h, &o.w[0], &r);
      else if (o.kind == OP_MODIFY) op_modify(o.uid, c.h, o.w[0].name, o.w[0].pos, o.a == 1, o.a == 2, &r);
      else {
        vector<ModSpec> m;
        for (auto &w : o.w) {
          ModSpec x;
          memcpy(x.name, w.name, NAMELEN);
          memcpy(x.pos, w.pos, sizeof x.pos);
          m.push_back(x);
        }
        op_modify_batch(o.uid, c.h, m.data(), (int)m.size(), &r);
      }
      trace("%s inst %d %s -> %d", op_names[o.kind], o.inst, o.w.size() ? o.w[0].name : "", r.rc);
      if (r.rc) {
        check_rc(r, op_names[o.kind], faulty);
        probe(PB_OPFAULT);
        if (r.rc != R_BADALLOC) vfail("C12-exception", fmt("%s with failing allocation threw %s", op_names[o.kind], r.what));
        c.model = saved;
        c.gone = sgone;
        c.epoch = sep;
      } else if (o.kind == OP_SET || o.kind == OP_APPEND)
        c.started = true;
      if (r.rc == 0 && par("idle_check") && (o.kind == OP_SET || o.kind == OP_APPEND)) idle_check(c);
      break;
    }
    case OP_SPEED:
      c.speed = o.x;
      op_set_speed(o.uid, c.h, o.x, &r);
      {
        double v = op_speed(nuid(), c.h, &r);
        probe(PB_C08);
        if (want("C08") && v != o.x) vfail("C08-speed", fmt("speed set to %.3f reads back as %.3f", o.x, v));
      }
      break;
    case OP_GETSPEED: {
      double v = op_speed(o.uid, c.h, &r);
      probe(PB_C08);
      if (want("C08") && v != c.speed) vfail("C08-speed", fmt("speed set to %.3f reads back as %.3f", c.speed, v));
      break;
    }
    case OP_VEHICLE:
      vehicle(c, o.w[0].pos);
      break;
    case OP_EVAL: {
      if (!c.have) break;
      double out[9];
      op_eval(o.uid, c.h, (float)(c.last_t + o.x), out, o.a, 1, &r);
      probe(PB_PLOT_EVALS);
      for (int k = 0; k < (o.a ? 3 : 9) && !r.rc; k++)
        if (!std::isfinite(out[k])) vfail("nonfinite", fmt("reference at t=%.4f is not finite", c.last_t + o.x));
      break;
    }
    case OP_GETWPS: {
      if (!c.have) break;
      List l;
      get_list(c, l, r);
      break;
    }
    case OP_NEXT: {
      WpOut b[96];
      op_get_next(o.uid, c.h, b, 96, &r);
      break;
    }
    case OP_REMAIN: op_remaining(o.uid, c.h, &r); break;
    case OP_MAXT: if (c.have) op_max_time(o.uid, c.h, &r); break;
    case OP_MINT: if (c.have) op_min_time(o.uid, c.h, &r); break;
    case OP_TOFF: op_toffset(o.uid, c.h, &r); break;
    case OP_REGEN: op_regenerated(o.uid, c.h, &r); break;
    case OP_STATUS: flags(c); break;
    case OP_SLEEP: sleep_ns((u64)(o.x * 1e9)); break;
  }
  if (par("longcall") && computing && c.have) {
    probe(PB_LONGCALL_CHECKED);
    double d = (now() - t0) * 1e-9;
    if (d > par("longcall")) vfail("C10-blocked", fmt("%s took %.1f s of simulated time while a trajectory was being computed", op_names[o.kind], d));
  }
  if (r.rc) check_rc(r, op_names[o.kind], faulty);
  probe(PB_CALLS);
}

struct ThArg {
  int th;
};
static ThArg targ[32];
static u64 t_start;
static void req_main(void *a) {
  int th = ((ThArg *)a)->th;
  for (auto &o : P->ops) {
    if (o.th != th) continue;
    sleep_until(t_start + (u64)(o.at * 1e9));
    if (par("second") && th == (int)par("second"))
      for (int k = 0; k < 100000 && !ic[o.inst].started && !ic[o.inst].uncertain(); k++) sleep_ns(1000000);
    do_op(o);
  }
  nreq_done++;
}

static void create_instances() {
  OpResult r;
  for (int i = 0; i < ninst; i++) {
    ic[i].id = i;
    ic[i].h = op_create(nuid(), &r);
    ic[i].bg = last_background();
    if (r.rc) vfail("unexpected-exception", fmt("constructor threw %s", r.what));
    ic[i].speed = par("speed", 2);
    op_set_speed(nuid(), ic[i].h, ic[i].speed, &r);
    double v[3] = {par("vx"), par("vy"), par("vz")};
    vehicle(ic[i], v);
  }
}
static void destroy_instances() {
  OpResult r;
  for (int i = 0; i < ninst; i++) {
    if (ic[i].destroyed) continue;
    u64 t0 = now();
    op_destroy(nuid(), ic[i].h, &r);
    ic[i].destroyed = true;
    double d = (now() - t0) * 1e-9;
    double lim = 2 + par("solver_max", 0.1) * 2 + 40 * P->sched.stall_max * (P->sched.pstall > 0);
    if (d > lim) vfail("destroy-slow", fmt("destruction took %.2f s of simulated time", d));
  }
  int n = live_library_threads();
  if (n) vfail("thread-leak", fmt("%d threads of destroyed generators are still alive", n));
}

// requests made after a failure are carried out as usual: a last set call must take effect. It is repeated
// if another failure is reported meanwhile.
static void recover(IC &c) {
  for (int k = 0; k < 12; k++) {
    if (c.started) {
      requests_done = true;
      while (pilots_left[c.id] && !c.uncertain()) sleep_ns(20000000);
      if (!pilots_left[c.id]) return;
    }
    requests_done = false;
    sleep_ns((u64)((0.5 + 2 * par("solver_max", 0.1)) * 1e9));
    Op o;
    o.kind = OP_SET;
    o.uid = 1000000 + k;
    double x[3] = {par("vx") + 3, par("vy") - 2, par("vz") + 1};
    for (int i = 0; i < 2; i++) {
      WpSpec w;
      memset(&w, 0, sizeof w);
      snprintf(w.name, NAMELEN, "e%d_%d", 100 + k, i);
      for (int j = 0; j < 3; j++) w.pos[j] = x[j] + 4 * i;
      o.w.push_back(w);
    }
    c.reported_ok = c.reported;  // a failure from here on may cost this request
    do_op(o);
    probe(PB_RECOVERED);
  }
  c.giveup = true;
}
static void flight_main(void *) {
  t_start = now();
  create_instances();
  std::set<int> ths;
  for (auto &o : P->ops) ths.insert(o.th);
  vector<int> pt, rt;
  for (int i = 0; i < ninst; i++) {
    parg[i].i = i;
    pilots_left[i] = true;
    pt.push_back(spawn(pilot_main, &parg[i]));
  }
  int k = 0;
  for (int th : ths) {
    targ[k].th = th;
    rt.push_back(spawn(req_main, &targ[k]));
    k++;
  }
  nreq_threads = k;
  for (int t : rt) join(t);
  sleep_ns(1000000);
  if (par("recover")) recover(ic[0]);
  requests_done = true;
  for (int t : pt) join(t);
  destroy_instances();
}

#include "harness2.inc"

void run_plan(const Plan &p) {
  P = &p;
  prop = p.prop;
  ninst = (int)p.get("ninst", 1);
  op_silence();
  run_begin(p.sched, p.faults.data(), (int)p.faults.size(), p.decs.data(), (u32)p.decs.size());
  set_time_limit((u64)(p.get("time_limit", 4000) * 1e9));
  set_report_races(p.get("races", 0) != 0);
  if (p.get("races", 0) || p.profile == "destroy") set_quarantine(1ul << 18);
  void (*fn)(void *) = flight_main;
  if (p.profile == "snapshot") fn = snapshot_main;
  else if (p.profile == "fuzz") fn = fuzz_main;
  else if (p.profile == "destroy") fn = destroy_main;
  else if (p.profile == "notify") fn = notify_main;
  else if (p.profile == "speed") fn = speed_main;
  else if (p.profile == "timer") fn = timer_main;
  else if (p.profile == "files") fn = files_main;
  else if (p.profile == "iso") fn = iso_main;
  else if (p.profile == "cofiles") fn = cofiles_main;
  else if (p.profile == "residue") fn = residue_main;
  run_main(fn, nullptr);
}
