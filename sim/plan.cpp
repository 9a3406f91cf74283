#include "plan.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
const char *op_names[] = {"?", "set", "append", "modify", "modbatch", "speed", "vehicle", "eval", "getwps", "next", "remaining", "maxtime", "mintime", "getspeed", "toffset", "regenerated", "status", "sleep", "timer", "save", "load", "flight", "savesamples", 0};
const char *probe_names[] = {"published_lists_observed", "regenerations_stitched", "regenerations_from_scratch", "in_place_modifications", "requests_while_computing", "requests_while_pending", "flight_evaluations", "plotting_evaluations", "waypoint_passages_checked", "takeovers_checked", "in_place_changes_checked", "derivative_points_checked", "starts_checked", "ends_checked", "speeds_checked", "concurrent_reads_old_state", "concurrent_reads_new_state", "destroyed_while_computing", "destroyed_while_pending", "failed_calls", "failed_computations", "idle_states_seen", "idle_states_checked", "notifications_checked", "progress_queries_checked", "histories_settled", "waypoints_kept_over_regeneration", "waypoints_passed_over_regeneration", "superseded_waypoints", "settled_late", "recoveries_after_failure", "saves_reported_ok", "saves_reported_failed", "loads_old", "loads_new", "loads_refused", "simulated_crashes", "timers_run", "requests_issued", "library_calls", "long_computation_calls_checked", "destroyed_ready_not_taken", "state_kept_after_failure", "stitches_checked", "twins_compared", "publications_missed", "velocities_at_waypoints_checked", "memory_comparisons", "file_histories"};

using std::string;
string plan_text(const Plan &p, const string &cls, const string &msg, u64 hash) {
  string s;
  char b[512];
  auto add = [&](const char *f, auto... a) {
    snprintf(b, sizeof b, f, a...);
    s += b;
  };
  s += "# replay file: bin/simcheck --replay <this file>\n";
  if (!msg.empty()) {
    string m = msg;
    for (auto &c : m)
      if (c == '\n') c = ' ';
    s += "# " + m + "\n";
  }
  add("property %s\nprofile %s\nseed %llu\n", p.prop.c_str(), p.profile.empty() ? "-" : p.profile.c_str(), (unsigned long long)p.seed);
  add("expect %s %016llx\n", cls.empty() ? "-" : cls.c_str(), (unsigned long long)hash);
  for (auto &k : p.par) add("param %s %.17g\n", k.first.c_str(), k.second);
  const sim::SchedCfg &c = p.sched;
  add("sched %d %llu %d %.17g %.17g %.17g %d %d %llu %llu\n", c.replay, (unsigned long long)c.seed, c.strategy, c.pswitch, c.pstall, c.stall_max, c.memskip, c.pct_d, (unsigned long long)c.pct_len, (unsigned long long)c.tick_ns);
  for (auto &f : p.faults) add("fault %d %llu %llu %llu\n", f.kind, (unsigned long long)f.n, (unsigned long long)f.arg, (unsigned long long)f.arg2);
  for (auto &o : p.ops) {
    add("op %d %.17g %s %d %d %d %.17g %llu %d", o.th, o.at, op_names[o.kind], o.inst, o.a, o.b, o.x, (unsigned long long)o.uid, (int)o.w.size());
    for (auto &w : o.w) add(" %s %d %.17g %.17g %.17g %.17g %.17g %.17g", w.name[0] ? w.name : "-", w.extra, w.pos[0], w.pos[1], w.pos[2], w.vel[0], w.vel[1], w.vel[2]);
    s += "\n";
  }
  for (auto &d : p.decs) add("d %c %d %u %llu %llu\n", d.kind, d.act, d.tid, (unsigned long long)d.step, (unsigned long long)d.arg);
  return s;
}
bool plan_parse(const char *file, Plan &p, string &cls, u64 &hash) {
  FILE *f = fopen(file, "r");
  if (!f) return false;
  static char line[1 << 20];
  p = Plan();
  memset(&p.sched, 0, sizeof p.sched);
  while (fgets(line, sizeof line, f)) {
    if (line[0] == '#') continue;
    char *sp = nullptr;
    char *k = strtok_r(line, " \n", &sp);
    if (!k) continue;
    auto tok = [&]() {
      char *t = strtok_r(nullptr, " \n", &sp);
      return t ? t : (char *)"0";
    };
    auto u = [&]() { return strtoull(tok(), 0, 10); };
    auto d = [&]() { return strtod(tok(), 0); };
    if (!strcmp(k, "property")) p.prop = tok();
    else if (!strcmp(k, "profile")) p.profile = tok();
    else if (!strcmp(k, "seed")) p.seed = u();
    else if (!strcmp(k, "expect")) { cls = tok(); hash = strtoull(tok(), 0, 16); }
    else if (!strcmp(k, "param")) { string n = tok(); p.par[n] = d(); }
    else if (!strcmp(k, "sched")) {
      auto &c = p.sched;
      c.replay = (int)u(); c.seed = u(); c.strategy = (int)u(); c.pswitch = d(); c.pstall = d(); c.stall_max = d(); c.memskip = (int)u(); c.pct_d = (int)u(); c.pct_len = u(); c.tick_ns = u();
    } else if (!strcmp(k, "fault")) {
      sim::Fault x;
      x.kind = (int)u(); x.n = u(); x.arg = u(); x.arg2 = u();
      p.faults.push_back(x);
    } else if (!strcmp(k, "op")) {
      Op o;
      o.th = (int)u(); o.at = d();
      string kn = tok();
      for (int i = 1; op_names[i]; i++) if (kn == op_names[i]) o.kind = i;
      o.inst = (int)u(); o.a = (int)strtol(tok(), 0, 10); o.b = (int)strtol(tok(), 0, 10); o.x = d(); o.uid = u();
      int n = (int)u();
      for (int i = 0; i < n; i++) {
        WpSpec w;
        memset(&w, 0, sizeof w);
        char *nm = tok();
        snprintf(w.name, NAMELEN, "%s", strcmp(nm, "-") ? nm : "");
        w.extra = (int)u();
        for (int j = 0; j < 3; j++) w.pos[j] = d();
        for (int j = 0; j < 3; j++) w.vel[j] = d();
        o.w.push_back(w);
      }
      p.ops.push_back(o);
    } else if (!strcmp(k, "d")) {
      sim::Dec x;
      x.kind = (u8)tok()[0]; x.act = (u8)u(); x.tid = (u32)u(); x.step = u(); x.arg = u();
      p.decs.push_back(x);
    }
  }
  fclose(f);
  return true;
}
