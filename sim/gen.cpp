// Plan generator: everything a run does and everything that goes wrong in it is drawn here from one seed.
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include "plan.h"
using namespace sim;
using std::string;
using std::vector;

namespace {
struct Gen {
  Plan &p;
  Rng g;
  u64 uid = 0;
  Gen(Plan &pl, u64 s) : p(pl), g(s) {}
  double logu(double a, double b) { return std::exp(g.uni(std::log(a), std::log(b))); }
  void fault(int k, u64 n, u64 a, u64 a2 = 0) {
    if (p.faults.size() < 60) p.faults.push_back({k, n, a, a2});
  }
  void sched(double heavy = 1) {
    SchedCfg &c = p.sched;
    memset(&c, 0, sizeof c);
    c.seed = g.next();
    c.tick_ns = (u64)logu(50, 5000);
    double s = g.u();
    if (s < 0.55) {
      c.strategy = 0;
      c.pswitch = logu(0.005, 0.5);
    } else if (s < 0.88) {
      c.strategy = 1;
      c.pct_d = g.range(1, 6);
      c.pct_len = (u64)logu(300, 60000);
    } else
      c.strategy = 2;
    if (g.p(0.6)) {
      c.pstall = logu(5e-5, 6e-3);
      c.stall_max = logu(1e-3, 0.4);
    }
    c.memskip = g.p(0.75) ? (int)(logu(15, 20000) / heavy) + 4 : 0;
  }
  // solver: a few evaluations only, so that a run is cheap; how long it takes is simulated time
  double solver(double lo, double hi, bool capped = true) {
    double mx = 0.03;
    if (capped) fault(F_SOLVER_MAXEVAL, 0, g.range(2, 14));
    if (g.p(0.85)) {
      double d = logu(lo, hi);
      mx = d;
      fault(F_SOLVER_DUR, 0, (u64)(d * 1e9));
      int k = g.range(0, 4);
      for (int i = 0; i < k; i++) {
        double e = logu(lo, hi);
        mx = std::max(mx, e);
        fault(F_SOLVER_DUR, g.range(1, 8), (u64)(e * 1e9));
      }
    }
    p.par["solver_max"] = mx;
    return mx;
  }
  void start_pos() {
    if (g.p(0.3)) return;
    p.par["vx"] = std::floor(g.uni(-20, 20) * 100) / 100;
    p.par["vy"] = std::floor(g.uni(-20, 20) * 100) / 100;
    p.par["vz"] = std::floor(g.uni(0, 10) * 100) / 100;
  }
  WpSpec wp(const string &name, double *cur, double dmin = 1.2, double dmax = 12) {
    WpSpec w;
    memset(&w, 0, sizeof w);
    snprintf(w.name, NAMELEN, "%s", name.c_str());
    double d = logu(dmin, dmax), a = g.uni(0, 6.2831853), e = g.uni(-0.4, 0.4);
    cur[0] += d * std::cos(a) * std::cos(e);
    cur[1] += d * std::sin(a) * std::cos(e);
    cur[2] += d * std::sin(e);
    for (int k = 0; k < 3; k++) cur[k] = std::round(cur[k] * 1000) / 1000;
    memcpy(w.pos, cur, sizeof w.pos);
    return w;
  }
  Op op(int th, double at, int kind, int inst) {
    Op o;
    o.th = th;
    o.at = at;
    o.kind = kind;
    o.inst = inst;
    o.uid = ++uid;
    return o;
  }
  double gap(double smax) {
    double s = g.u();
    if (s < 0.22) return g.uni(0, 1e-4);
    if (s < 0.42) return g.uni(0, 6e-3);
    if (s < 0.68) return g.uni(0, std::min(2.2 * smax, 3.0));
    if (s < 0.85) return g.uni(0.02, 0.4);
    if (s < 0.96) return g.uni(0.3, 2.5);
    return g.uni(1.0, 8.0);
  }
};

struct Mix {
  double set = 0.15, append = 0.4, modgen = 0.15, modin = 0.15, batch = 0.05, speed = 0.05, veh = 0.05, look = 0.0;
  int nmin = 3, nmax = 14;
  int setmin = 1, setmax = 5;
  bool first_set = false;  // begins with a set, the only one
  const char *sfx = "";
};

// one requester per instance
void requester(Gen &G, int inst, int th, const Mix &m, double smax, double modscale = 1.0) {
  Rng &g = G.g;
  Plan &p = G.p;
  string sfx = p.get("ninst", 1) > 1 ? "i" + std::to_string(inst) : "";
  sfx += m.sfx;
  double at = g.p(0.3) ? 0 : g.uni(0, 0.3);
  int epoch = 0, k = 0;
  double cur[3] = {p.get("vx"), p.get("vy"), p.get("vz")};
  struct N {
    string n;
    double pos[3];
  };
  vector<N> live;
  int n = g.range(m.nmin, m.nmax);
  bool reuse = p.get("unique_names", 1) == 0;  // the names of a superseded set come again in the next one
  auto fresh = [&] {
    if (reuse) return "r" + std::to_string(k++) + sfx;
    return "e" + std::to_string(epoch) + "_" + std::to_string(k++) + sfx;
  };
  auto push = [&](Op &o, int cnt) {
    for (int i = 0; i < cnt; i++) {
      string nm = fresh();
      WpSpec w = G.wp(nm, cur);
      if (p.get("vel_p") > 0 && g.p(p.get("vel_p"))) {
        w.extra = 1;
        double v = g.uni(0, 0.8) * p.get("speed"), a = g.uni(0, 6.2831853), e = g.uni(-0.3, 0.3);
        w.vel[0] = v * std::cos(a) * std::cos(e);
        w.vel[1] = v * std::sin(a) * std::cos(e);
        w.vel[2] = v * std::sin(e);
      }
      N x;
      x.n = nm;
      memcpy(x.pos, w.pos, sizeof x.pos);
      live.push_back(x);
      o.w.push_back(w);
    }
  };
  auto modw = [&](int style) {
    WpSpec w;
    memset(&w, 0, sizeof w);
    if (live.empty() || g.p(0.04)) {
      snprintf(w.name, NAMELEN, "nosuch");
      for (int i = 0; i < 3; i++) w.pos[i] = g.uni(-5, 5);
      return w;
    }
    // mostly late waypoints: they are still ahead
    size_t q = g.p(0.65) ? live.size() - 1 - g.below(std::min<size_t>(3, live.size())) : g.below(live.size());
    N &x = live[q];
    snprintf(w.name, NAMELEN, "%s", x.n.c_str());
    double s = modscale * (g.p(0.12) ? G.logu(0.002, 0.1) : G.logu(0.1, 2.5));
    for (int i = 0; i < 3; i++) {
      double d = s * g.uni(-1, 1);
      if (g.p(0.1)) d = 0;
      x.pos[i] = std::round((x.pos[i] + d) * 1e4) / 1e4;
      w.pos[i] = x.pos[i];
    }
    (void)style;
    return w;
  };
  bool unn = g.p(0.05);
  for (int i = 0; i < n; i++) {
    double s = g.u() * (m.set + m.append + m.modgen + m.modin + m.batch + m.speed + m.veh + m.look);
    if (i == 0 && g.p(0.9)) s = g.p(0.85) ? 0 : m.set + 1e-9;  // begin with a set or an append
    Op o = G.op(th, at, OP_SET, inst);
    if (m.first_set && i == 0) s = -1;
    if ((s -= m.set) < 0) {
      epoch++;
      k = 0;
      if (i) {
        cur[0] += g.uni(-3, 3);
        cur[1] += g.uni(-3, 3);
      }
      live.clear();
      push(o, g.range(m.setmin, m.setmax));
    } else if ((s -= m.append) < 0) {
      o.kind = OP_APPEND;
      push(o, 1);
      if (unn && g.p(0.3)) o.w[0].name[0] = 0, live.pop_back();
    } else if ((s -= m.modgen) < 0) {
      o.kind = OP_MODIFY;
      o.a = g.p(0.5) ? 1 : 1;
      o.w.push_back(modw(1));
    } else if ((s -= m.modin) < 0) {
      o.kind = OP_MODIFY;
      o.a = 0;
      if (g.p(0.3)) o.a = 2;
      o.w.push_back(modw(0));
    } else if ((s -= m.batch) < 0) {
      o.kind = OP_MODBATCH;
      int c = g.range(1, 3);
      for (int j = 0; j < c; j++) o.w.push_back(modw(0));
    } else if ((s -= m.speed) < 0) {
      o.kind = OP_SPEED;
      o.x = std::round(G.logu(0.5, 8) * 100) / 100;
    } else if ((s -= m.veh) < 0) {
      o.kind = OP_VEHICLE;
      WpSpec w;
      memset(&w, 0, sizeof w);
      for (int j = 0; j < 3; j++) w.pos[j] = cur[j] + g.uni(-2, 2);
      o.w.push_back(w);
    } else {
      static const int ks[] = {OP_EVAL, OP_GETWPS, OP_NEXT, OP_REMAIN, OP_MAXT, OP_MINT, OP_GETSPEED, OP_TOFF, OP_STATUS};
      o.kind = ks[g.below(9)];
      o.x = g.uni(-1, 6);
      o.a = g.p(0.2);
    }
    p.ops.push_back(o);
    at += G.gap(smax);
  }
  if (m.look > 0) return;
}
// callers that only look
void lookers(Gen &G, int inst, int th, double upto, int n, bool regen) {
  Rng &g = G.g;
  double at = g.uni(0, 0.3);
  for (int i = 0; i < n && at < upto; i++) {
    static const int ks[] = {OP_EVAL, OP_EVAL, OP_EVAL, OP_GETWPS, OP_NEXT, OP_REMAIN, OP_MAXT, OP_MINT, OP_GETSPEED, OP_TOFF, OP_STATUS, OP_REGEN};
    Op o = G.op(th, at, ks[g.below(regen ? 12 : 11)], inst);
    o.x = g.p(0.2) ? g.uni(-5, 60) : g.uni(-1, 6);
    o.a = g.p(0.2);
    G.p.ops.push_back(o);
    at += g.p(0.5) ? g.uni(0, 5e-3) : g.uni(0, 0.4);
  }
}
double horizon(const Plan &p) {
  double m = 0;
  for (auto &o : p.ops) m = std::max(m, o.at);
  return m;
}
void flight_params(Gen &G) {
  Rng &g = G.g;
  auto &q = G.p.par;
  q["speed"] = std::round(G.logu(0.6, 6) * 100) / 100;
  q["period"] = G.logu(0.004, 0.08);
  q["rate"] = g.p(0.15) ? 0.0 : g.p(0.6) ? 1.0 : G.logu(0.1, 3);
  q["pilot_delay"] = g.p(0.5) ? 0 : g.uni(0, 0.5);
  if (g.p(0.35)) {
    q["gap_p"] = G.logu(0.003, 0.1);
    q["gap_max"] = G.logu(0.05, 1.5);
  }
  q["track"] = g.p(0.85);
  q["track_noise"] = g.p(0.5) ? 0.0 : g.uni(0, 0.1);
  q["geom_p"] = 0.0;
  q["unique_names"] = 1;
  q["fly_out"] = g.p(0.3);
  if (g.p(0.25)) q["vel_p"] = g.uni(0.1, 0.8);
  G.start_pos();
}
void fuzz_ops(Gen &G, int nth, int nops, int ninst, double smax, double hi) {
  Rng &g = G.g;
  Plan &p = G.p;
  double cur[4][3];
  for (int i = 0; i < 4; i++) cur[i][0] = p.get("vx") + 3, cur[i][1] = p.get("vy"), cur[i][2] = p.get("vz");
  int nm = 0;
  // theme of each thread
  for (int th = 0; th < nth; th++) {
    double at = g.p(0.4) ? 0 : g.uni(0, 0.2);
    int theme = (int)g.below(5);
    for (int i = 0; i < nops; i++) {
      int inst = ninst > 1 ? (g.p(0.7) ? th % ninst : (int)g.below(ninst)) : 0;
      Op o = G.op(th, at, OP_STATUS, inst);
      double s = g.u();
      int kind;
      static const int all[] = {OP_SET, OP_APPEND, OP_APPEND, OP_MODIFY, OP_MODIFY, OP_MODBATCH, OP_SPEED, OP_VEHICLE, OP_EVAL, OP_EVAL, OP_FLIGHT, OP_FLIGHT, OP_GETWPS, OP_NEXT, OP_REMAIN, OP_MAXT, OP_MINT, OP_GETSPEED, OP_TOFF, OP_REGEN, OP_STATUS};
      static const int fly[] = {OP_FLIGHT, OP_FLIGHT, OP_FLIGHT, OP_VEHICLE, OP_REGEN, OP_GETWPS};
      static const int look[] = {OP_EVAL, OP_EVAL, OP_GETWPS, OP_NEXT, OP_REMAIN, OP_MAXT, OP_MINT, OP_GETSPEED, OP_TOFF, OP_REGEN, OP_STATUS};
      static const int req[] = {OP_SET, OP_APPEND, OP_APPEND, OP_MODIFY, OP_MODIFY, OP_MODBATCH, OP_SPEED};
      if (theme == 0 || s < 0.25) kind = all[g.below(sizeof all / sizeof *all)];
      else if (theme == 1) kind = fly[g.below(6)];
      else if (theme == 2) kind = look[g.below(11)];
      else kind = req[g.below(7)];
      o.kind = kind;
      double *c = cur[inst];
      switch (kind) {
        case OP_SET: {
          int n = g.range(1, 3);
          for (int j = 0; j < n; j++) o.w.push_back(G.wp("s" + std::to_string(nm++ % 7), c, 1.5, 6));
          break;
        }
        case OP_APPEND: o.w.push_back(G.wp("s" + std::to_string(nm++ % 7), c, 1.5, 6)); break;
        case OP_MODIFY:
        case OP_MODBATCH: {
          int n = kind == OP_MODIFY ? 1 : g.range(1, 3);
          o.a = g.range(0, 2);
          for (int j = 0; j < n; j++) {
            double t[3] = {c[0] + g.uni(-3, 3), c[1] + g.uni(-3, 3), c[2]};
            WpSpec w = G.wp(g.p(0.5) ? "a" + std::to_string(g.below(3)) : "s" + std::to_string(g.below(7)), t, 0.5, 2);
            o.w.push_back(w);
          }
          break;
        }
        case OP_SPEED: o.x = std::round(G.logu(0.6, 6) * 100) / 100; break;
        case OP_VEHICLE: {
          double t[3] = {p.get("vx"), p.get("vy"), p.get("vz")};
          o.w.push_back(G.wp("v", t, 0.1, 2));
          break;
        }
        case OP_EVAL: o.x = g.uni(-1, 5); o.a = g.p(0.2); break;
        case OP_FLIGHT: o.x = G.logu(0.002, 0.3); o.a = g.range(1, 6); o.b = g.p(0.1); break;
      }
      p.ops.push_back(o);
      double r = g.u();
      at += r < 0.35 ? g.uni(0, 1e-4) : r < 0.6 ? g.uni(0, 6e-3) : r < 0.8 ? g.uni(0, std::min(2 * smax, hi)) : g.uni(0, hi);
    }
  }
}
}  // namespace

void plan_generate(Plan &p, const string &prop, u64 seed) {
  p = Plan();
  p.prop = prop;
  p.seed = seed;
  u64 h = 1469598103934665603ull;
  for (char c : prop) h = (h ^ (u8)c) * 1099511628211ull;
  Gen G(p, seed * 0x9E3779B97F4A7C15ull ^ h);
  Rng &g = G.g;
  auto &q = p.par;
  p.profile = "flight";
  Mix m;
  double smax = 0.03;
  if (prop == "C01") {
    flight_params(G);
    smax = G.solver(2e-3, 2.0);
    m.set = g.p(0.5) ? 0.08 : 0.3;
    m.append = 0.6;
    m.modgen = 0.1; m.modin = 0.15; m.batch = 0.03; m.speed = 0.03; m.veh = 0.03;
    m.nmin = 2;
    if (g.p(0.2)) {  // a second requester appends once the only set has returned
      m.set = 0;
      m.first_set = true;
      Mix b = m;
      b.first_set = false;
      b.speed = b.veh = 0;
      b.sfx = "x";
      b.nmax = 8;
      requester(G, 0, 2, b, smax);
      q["second"] = 2;
    } else if (g.p(0.3)) {
      q["unique_names"] = 0;
      m.set = 0.3; m.modgen = 0.25; m.modin = 0.25;
    }
    requester(G, 0, 0, m, smax);
    if (g.p(0.3)) lookers(G, 0, 1, horizon(p) + 1, g.range(3, 30), true);
    G.sched();
  } else if (prop == "C02") {
    flight_params(G);
    smax = G.solver(2e-3, 2.0);
    m.set = 0.12; m.append = 0.25; m.modgen = 0.25; m.modin = 0.4; m.batch = 0.12; m.speed = 0; m.veh = 0;
    m.setmin = 2;
    requester(G, 0, 0, m, smax);
    if (g.p(0.2)) lookers(G, 0, 1, horizon(p) + 1, g.range(3, 20), false);
    G.sched();
  } else if (prop == "C03") {
    flight_params(G);
    if (q["rate"] == 0 && g.p(0.8)) q["rate"] = G.logu(0.5, 3);
    smax = G.solver(2e-3, 2.5);
    m.set = 0.04; m.append = 0.5; m.modgen = 0.35; m.modin = 0.15; m.batch = 0.03; m.speed = 0.04; m.veh = 0;
    m.setmin = 2;
    m.nmin = 4;
    requester(G, 0, 0, m, smax);
    q["fly_out"] = 0;
    G.sched();
  } else if (prop == "C04" || prop == "C06" || prop == "C07") {
    flight_params(G);
    smax = G.solver(2e-3, 1.0);
    m.set = 0.07; m.append = 0.25; m.modgen = 0.2; m.modin = 0.45; m.batch = 0.08; m.speed = 0.05; m.veh = prop == "C07" ? 0.2 : 0.02;
    m.setmin = 2;
    q["geom_p"] = 0.35;
    q["fly_out"] = g.p(0.5);
    requester(G, 0, 0, m, smax);
    if (prop == "C07" && g.p(0.5)) q["pilot_delay"] = g.uni(0, 2);
    G.sched();
  } else if (prop == "C05") {
    flight_params(G);
    if (q["rate"] == 0) q["rate"] = 1;
    q["period"] = G.logu(0.004, 0.04);
    smax = G.solver(2e-3, 1.5, false);
    m.set = 0.1; m.append = 0.35; m.modgen = 0.25; m.modin = 0.35; m.batch = 0.05; m.speed = 0.05; m.veh = 0;
    m.setmin = 2;
    requester(G, 0, 0, m, smax);
    G.sched();
  } else if (prop == "C08") {
    if (g.p(0.5)) {
      p.profile = "speed";
      G.start_pos();
      q["speed"] = std::round(G.logu(0.4, 9) * 1000) / 1000;
      q["phases"] = g.range(1, 4);
      q["twins"] = g.range(1, 3);
      q["readers"] = g.range(0, 2);
      q["poll_gap_ns"] = G.logu(1e5, 5e7);
      smax = G.solver(1e-3, 0.6, false);
      G.sched(2);
      p.sched.stall_max = std::min(p.sched.stall_max, 0.1);
    } else {
      flight_params(G);
      smax = G.solver(2e-3, 1.0);
      m.set = 0.35; m.append = 0.2; m.modgen = 0.1; m.modin = 0.05; m.batch = 0; m.speed = 0.35; m.veh = 0; m.look = 0.2;
      m.nmax = 12;
      m.setmax = 4;
      requester(G, 0, 0, m, smax);
      lookers(G, 0, 0, horizon(p) + 1, g.range(0, 20), true);
      std::stable_sort(p.ops.begin(), p.ops.end(), [](const Op &a, const Op &b) { return a.at < b.at; });
      G.sched();
    }
  } else if (prop == "C09") {
    p.profile = "snapshot";
    G.start_pos();
    q["speed"] = std::round(G.logu(0.8, 5) * 100) / 100;
    q["nwp"] = g.range(1, 4);
    q["fly_frac"] = g.uni(0.02, 0.5);
    q["phases"] = g.range(1, 3);
    q["points"] = g.range(3, 8);
    q["readers"] = g.range(2, 4);
    q["read_gap_ns"] = G.logu(2e3, 4e6);
    if (g.p(0.5)) q["only_kind"] = g.range(0, 2);
    smax = G.solver(1e-3, 0.05);
    G.sched(3);
    p.sched.stall_max = std::min(p.sched.stall_max, 0.05);
  } else if (prop == "C10") {
    p.profile = "fuzz";
    q["speed"] = 2;
    q["nwp"] = g.range(1, 3);
    bool lng = g.p(0.5);
    G.fault(F_SOLVER_MAXEVAL, 0, g.range(2, 8));
    smax = lng ? g.uni(60, 120) : G.logu(1e-3, 3);
    G.fault(F_SOLVER_DUR, 0, (u64)(smax * 1e9));
    if (lng) G.fault(F_SOLVER_DUR, 1, (u64)(g.uni(0.01, 1) * 1e9));
    q["solver_max"] = smax;
    if (g.p(0.3)) q["first_set_at"] = g.uni(0, 2);
    fuzz_ops(G, g.range(2, 6), g.range(3, 14), 1, smax, lng ? 1.5 : 0.6);
    G.sched();
    if (p.sched.stall_max > 0.3) p.sched.stall_max = 0.3;
    if (lng) q["longcall"] = 10 + 20 * p.sched.stall_max;
    q["time_limit"] = 20000;
  } else if (prop == "C11") {
    p.profile = "destroy";
    G.start_pos();
    q["speed"] = 2;
    q["ninst"] = g.p(0.25) ? 2 : 1;
    int rounds = g.range(1, 3);
    q["rounds"] = rounds;
    smax = G.solver(1e-3, 1.0);
    q["pre_destroy"] = g.p(0.4) ? 0 : G.logu(1e-5, 1.5);
    for (int r = 0; r < rounds; r++) {
      int n = g.range(0, 7);
      double at = g.p(0.5) ? 0 : g.uni(0, 0.05);
      double cur[3] = {p.get("vx"), p.get("vy"), p.get("vz")};
      int c = 0;
      for (int i = 0; i < n; i++) {
        Op o = G.op(r, at, OP_SET, (int)g.below((u64)q["ninst"]));
        double s = g.u();
        if (s < 0.3) {
          int k = g.range(1, 4);
          for (int j = 0; j < k; j++) o.w.push_back(G.wp("e1_" + std::to_string(c++), cur));
        } else if (s < 0.5) {
          o.kind = OP_APPEND;
          o.w.push_back(G.wp("e1_" + std::to_string(c++), cur));
        } else if (s < 0.65) {
          o.kind = OP_MODIFY;
          o.a = g.range(0, 2);
          double t[3] = {cur[0], cur[1], cur[2]};
          o.w.push_back(G.wp("e1_" + std::to_string(g.below(c + 1)), t, 0.1, 1));
        } else if (s < 0.7) {
          o.kind = OP_VEHICLE;
          o.w.push_back(G.wp("v", cur));
        } else if (s < 0.95) {
          o.kind = OP_FLIGHT;
          o.x = G.logu(0.005, 0.5);
        } else
          o.kind = OP_GETWPS;
        p.ops.push_back(o);
        at += G.gap(smax);
      }
    }
    G.sched();
  } else if (prop == "C12") {
    flight_params(G);
    smax = G.solver(2e-3, 0.8);
    m.set = 0.25; m.append = 0.35; m.modgen = 0.15; m.modin = 0.2; m.batch = 0.05; m.speed = 0; m.veh = 0;
    m.setmin = 2;
    requester(G, 0, 0, m, smax);
    q["recover"] = 1;
    // what fails
    double w = g.u();
    if (w < 0.5) {
      vector<u64> u;
      for (auto &o : p.ops)
        if (o.kind == OP_SET || o.kind == OP_APPEND || o.kind == OP_MODIFY || o.kind == OP_MODBATCH) u.push_back(o.uid);
      int n = g.range(1, 3);
      for (int i = 0; i < n && u.size(); i++) G.fault(g.p(0.3) ? F_ALLOC_OPB : F_ALLOC_OP, u[g.below(u.size())], g.p(0.5) ? g.range(1, 20) : (u64)G.logu(1, 200));
    }
    if (g.p(0.4)) {  // inside queries and evaluations, takeovers included
      int n = g.range(1, 4);
      for (int i = 0; i < n; i++) G.fault(g.p(0.2) ? F_ALLOC_OPB : F_ALLOC_OP, (1ull << 32) + 20 + (u64)G.logu(1, 3000), (u64)G.logu(1, 60));
    }
    if (w > 0.35 && w < 0.85) {
      int n = g.range(1, 3);
      for (int i = 0; i < n; i++) G.fault(F_ALLOC_COMPUTE, g.range(1, 5), (u64)G.logu(1, 6000));
    }
    if (w > 0.8 || g.p(0.1)) {
      int n = g.range(1, 2);
      for (int i = 0; i < n; i++) G.fault(F_THREAD, g.range(1, 5), g.range(1, 4));
    }
    if (g.p(0.15)) G.fault(F_ALLOC_BG, (u64)G.logu(1, 400), 0);
    if (g.p(0.2)) {
      static const int64_t rc[] = {-1, -3, -4, -5, 5, 6};
      G.fault(F_SOLVER_RESULT, g.range(1, 5), (u64)rc[g.below(6)], g.p(0.5) ? g.range(1, 3) : 0);
    }
    G.sched();
  } else if (prop == "C13") {
    p.profile = "fuzz";
    q["races"] = 1;
    q["speed"] = 2;
    q["nwp"] = g.range(1, 3);
    G.start_pos();
    smax = G.solver(1e-3, 0.6);
    if (g.p(0.4)) q["first_set_at"] = g.uni(0, 0.8);
    fuzz_ops(G, g.range(2, 7), g.range(3, 16), 1, smax, 0.5);
    G.sched();
  } else if (prop == "C14") {
    p.profile = "notify";
    G.start_pos();
    q["speed"] = std::round(G.logu(0.8, 5) * 100) / 100;
    q["nwp"] = g.range(1, 4);
    q["phases"] = g.range(2, 5);
    q["pollers"] = g.range(0, 3);
    q["evals"] = g.range(0, 2);
    q["poll_gap_ns"] = G.logu(2e3, 2e7);
    q["two_changes"] = g.p(0.3);
    if (g.p(0.3)) {  // evaluations run out of memory, takeovers among them
      if (q["evals"] < 1) q["evals"] = 1;
      for (int i = g.range(1, 3); i > 0; i--) G.fault(F_ALLOC_OP, EVAL_UID, (u64)G.logu(1, 60), g.range(1, 4));
    }
    smax = G.solver(1e-3, 0.3);
    G.sched(2);
    p.sched.stall_max = std::min(p.sched.stall_max, 0.1);
  } else if (prop == "C15") {
    flight_params(G);
    smax = G.solver(2e-3, 1.5);
    m.set = 0.12; m.append = 0.4; m.modgen = 0.2; m.modin = 0.1; m.speed = 0.05; m.veh = 0;
    requester(G, 0, 0, m, smax);
    lookers(G, 0, 1, horizon(p) + 1, g.range(0, 40), true);
    q["fly_out"] = g.p(0.5);
    G.sched();
  } else if (prop == "C16") {
    flight_params(G);
    smax = G.solver(2e-3, 0.6);
    m.set = 0.4; m.append = 0.5; m.modgen = 0.08; m.modin = 0.05; m.speed = 0; m.veh = 0;
    requester(G, 0, 0, m, smax);
    q["rate"] = g.p(0.5) ? 0.02 : 1.0;
    q["idle_check"] = 1;
    q["idle_poll_ns"] = g.p(0.5) ? 0 : G.logu(500, 2e6);
    q["fly_out"] = 0;
    G.sched();
  } else if (prop == "C17") {
    if (g.p(0.15)) {
      p.profile = "iso";
      G.start_pos();
      q["speed"] = std::round(G.logu(0.8, 5) * 100) / 100;
      q["ninst"] = 2;
      q["races"] = 1;
      smax = G.solver(1e-3, 0.3);
      p.faults.erase(std::remove_if(p.faults.begin(), p.faults.end(), [](const Fault &f) { return f.kind == F_SOLVER_DUR && f.n == 1; }), p.faults.end());
      G.fault(F_SOLVER_DUR, 1, (u64)(2000e9));
    } else if (g.p(0.5)) {
      flight_params(G);
      int n = g.range(2, 3);
      q["ninst"] = n;
      smax = G.solver(2e-3, 0.8);
      m.nmax = 8;
      m.set = 0.2; m.append = 0.4; m.modgen = 0.15; m.modin = 0.2;
      for (int i = 0; i < n; i++) requester(G, i, i, m, smax);
      q["races"] = 1;
      q["isolation"] = 1;
      q["geom_p"] = 0.0;
      q["fly_out"] = 0;
    } else {
      p.profile = "fuzz";
      int n = g.range(2, 3);
      q["ninst"] = n;
      q["races"] = 1;
      q["speed"] = 2;
      q["nwp"] = g.range(1, 3);
      smax = G.solver(1e-3, 0.6);
      fuzz_ops(G, g.range(2, 6), g.range(3, 10), n, smax, 0.5);
    }
    G.sched();
  } else if (prop == "C24") {
    p.profile = "residue";
    q["speed"] = 3;
    q["ninst"] = g.p(0.2) ? 2 : 1;
    q["rounds"] = g.range(3, 8);
    G.start_pos();
    smax = G.solver(1e-3, 0.3);
    fuzz_ops(G, g.range(1, 4), g.range(6, 16), (int)q["ninst"], smax, 0.5);
    if (g.p(0.4)) {
      q["faulty"] = 1;
      double w = g.u();
      if (w < 0.6)
        for (int i = g.range(1, 4); i > 0; i--) {
          auto &o = p.ops[g.below(p.ops.size())];
          G.fault(g.p(0.2) ? F_ALLOC_OPB : F_ALLOC_OP, o.uid, g.p(0.15) ? BIG_ALLOC + g.range(1, 6) : g.p(0.5) ? g.range(1, 20) : (u64)G.logu(1, 300));
        }
      if (w > 0.4)
        for (int i = g.range(1, 8); i > 0; i--) G.fault(F_ALLOC_COMPUTE, 8 + (u64)G.logu(1, 40), (u64)G.logu(1, 6000));
      if (g.p(0.3))
        for (int i = g.range(1, 4); i > 0; i--) G.fault(F_THREAD, 8 + (u64)G.logu(1, 30), g.range(1, 4));
      if (g.p(0.2)) G.fault(F_ALLOC_BG, (u64)G.logu(50, 3000), 0);
    }
    G.sched();
    p.sched.stall_max = std::min(p.sched.stall_max, 0.2);
    q["time_limit"] = 20000;
  } else if (prop == "C18" || prop == "C19") {
    p.profile = "files";
    int n = g.range(2, 9);
    for (int i = 0; i < n; i++) {
      Op o = G.op(0, 0, OP_SAVE, (int)g.below(2));
      double s = g.u();
      o.a = g.p(0.2) ? g.range(1, 60) : g.range(1, 8);
      int ncoef = g.p(0.7) ? 10 : 2 * g.range(3, 6), dim = g.p(0.6) ? 3 : g.range(1, 4);
      o.b = ncoef | dim << 8;
      o.x = G.logu(0.05, 30);
      if (prop == "C18") {
        if (s < 0.6) o.kind = OP_SAVE;
        else if (s < 0.8) o.kind = OP_SAVESAMPLES, o.b = 10 | 3 << 8, o.x = std::min(o.x, 8.0 / o.a);
        else o.kind = OP_LOAD;
        if (o.kind == OP_SAVE && g.p(0.3)) {
          WpSpec w;
          memset(&w, 0, sizeof w);
          snprintf(w.name, NAMELEN, "cycle");
          o.w.push_back(w);
        }
        if (o.kind == OP_SAVE && g.p(0.4)) {
          WpSpec w;
          memset(&w, 0, sizeof w);
          snprintf(w.name, NAMELEN, "cut");
          w.pos[0] = g.range(1, 1000000);
          w.pos[1] = g.range(0, 3);
          o.w.push_back(w);
        }
      } else
        o.kind = s < 0.6 || i == 0 ? OP_SAVE : OP_LOAD;
      p.ops.push_back(o);
    }
    int k = g.p(0.1) ? 0 : g.range(1, 4);
    static const int k18[] = {IO_EIO, IO_ENOSPC, IO_ENOSPC, IO_SHORT, IO_SHORT, IO_EINTR, IO_CLOSE, IO_OPEN};
    static const int k19[] = {IO_CRASH, IO_CRASH, IO_CRASH, IO_POWER, IO_EIO, IO_ENOSPC, IO_SHORT, IO_EINTR, IO_CLOSE};
    int upto = n * 8;
    if (g.p(0.3))  // memory runs out
      for (int i = g.range(1, 3); i > 0; i--) {
        auto &o = p.ops[g.below(p.ops.size())];
        G.fault(g.p(0.3) ? F_ALLOC_OPB : F_ALLOC_OP, o.uid, g.p(0.3) ? BIG_ALLOC + g.range(1, 8) : g.p(0.4) ? g.range(1, 15) : (u64)G.logu(1, 4000));
      }
    for (int i = 0; i < k; i++) G.fault(F_IO, 1 + g.below(upto), prop == "C18" ? k18[g.below(8)] : k19[g.below(9)], g.p(0.2) ? (g.p(0.5) ? 0 : 999) : g.below(1000));
    if (g.p(0.25)) {  // cut at the end of a record, then an error or the end
      u64 at = 1 + g.below(upto);
      G.fault(F_IO, at, IO_SHORT, 900 + g.below(100));
      G.fault(F_IO, at + 1, prop == "C19" && g.p(0.4) ? (g.p(0.5) ? IO_CRASH : IO_POWER) : IO_EIO, 0);
    }
    G.sched();
  } else if (prop == "C25") {
    p.profile = "cofiles";
    q["races"] = 1;
    int nth = g.range(2, 4), nslot = g.p(0.7) ? 1 : 2;
    bool burst = g.p(0.5);
    for (int th = 0; th < nth; th++) {
      double at = 0, role = g.u();  // mostly writers, mostly readers, mixed
      int n = g.range(1, 5);
      for (int i = 0; i < n; i++) {
        if (!burst) at += g.p(0.5) ? 0 : G.logu(1e-6, 3e-3);
        Op o = G.op(th, at, OP_SAVE, (int)g.below(nslot));
        o.a = g.p(0.1) ? g.range(6, 40) : g.range(1, 5);
        o.b = (g.p(0.7) ? 10 : 2 * g.range(3, 6)) | (g.p(0.6) ? 3 : g.range(1, 4)) << 8;
        o.x = G.logu(0.05, 30);
        double s = g.u();
        if (s < 0.12) o.kind = OP_SAVESAMPLES, o.b = 10 | 3 << 8, o.x = std::min(o.x, 3.0 / o.a);
        else if (s < (role < 0.35 ? 0.25 : role < 0.7 ? 0.85 : 0.55)) o.kind = OP_LOAD;
        p.ops.push_back(o);
      }
    }
    int upto = (int)p.ops.size() * 8;
    static const int k25[] = {IO_EIO, IO_ENOSPC, IO_SHORT, IO_SHORT, IO_EINTR, IO_EINTR, IO_CLOSE, IO_OPEN};
    if (g.p(0.5))
      for (int i = g.range(1, 3); i > 0; i--) G.fault(F_IO, 1 + g.below(upto), k25[g.below(8)], g.below(1000));
    if (g.p(0.25)) G.fault(F_IO, 1 + g.below(upto), g.p(0.5) ? IO_CRASH : IO_POWER, g.below(1000));
    if (g.p(0.2)) {
      auto &o = p.ops[g.below(p.ops.size())];
      G.fault(g.p(0.3) ? F_ALLOC_OPB : F_ALLOC_OP, o.uid, g.p(0.3) ? BIG_ALLOC + g.range(1, 8) : g.p(0.4) ? g.range(1, 15) : (u64)G.logu(1, 3000));
    }
    G.sched();
    if (g.p(0.5)) p.sched.strategy = 0, p.sched.pswitch = G.logu(0.1, 0.7);
  } else if (prop == "C20") {
    p.profile = "timer";
    q["races"] = 1;
    int nth = g.range(1, 6), ntag = g.range(1, 5);
    int phases = g.p(0.5) ? 1 : g.range(2, 3);
    q["phases"] = phases;
    for (int ph = 0; ph < phases; ph++)
    for (int th = 0; th < nth; th++) {
      double at = g.p(0.6) ? 0 : g.uni(0, 0.02);
      int n = g.p(0.03) ? g.range(40, 80) : g.range(1, 14);
      for (int i = 0; i < n; i++) {
        Op o = G.op(th, at, g.p(0.8) ? OP_TIMER : OP_STATUS, 0);
        o.b = ph;
        o.a = g.p(0.8) ? g.range(0, 2) : g.range(3, 5);
        o.x = g.p(0.1) ? 0 : G.logu(1e-6, g.p(0.1) ? 100 : 0.5);
        WpSpec w;
        memset(&w, 0, sizeof w);
        snprintf(w.name, NAMELEN, "tag%d", (int)g.below(ntag));
        o.w.push_back(w);
        p.ops.push_back(o);
        at += g.p(0.6) ? 0 : g.uni(0, 0.1);
      }
    }
    if (g.p(0.2))
      for (int i = g.range(1, 4); i > 0; i--) {
        auto &o = p.ops[g.below(p.ops.size())];
        if (o.kind == OP_TIMER && o.a <= 2) G.fault(F_ALLOC_OP, o.uid, g.range(1, 4));
      }
    int k = g.range(0, 4);
    for (int i = 0; i < k; i++) {
      double j = G.logu(1e-3, 1e5) * (g.p(0.5) ? 1 : -1);
      G.fault(F_RTJUMP, g.range(1, 60), (u64)(int64_t)(j * 1e9));
    }
    if (g.p(0.2)) G.fault(F_EINTR, g.range(1, 30), 0);
    G.sched(5);
  }
}
