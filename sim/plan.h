// A run is a plan (who calls what when, which faults) plus a schedule. Both are plain text when stored.
#pragma once
#include <map>
#include <string>
#include <vector>
#include "ops.h"
#include "sim.h"

enum OpKind {
  OP_SET = 1, OP_APPEND, OP_MODIFY, OP_MODBATCH, OP_SPEED, OP_VEHICLE, OP_EVAL, OP_GETWPS, OP_NEXT, OP_REMAIN,
  OP_MAXT, OP_MINT, OP_GETSPEED, OP_TOFF, OP_REGEN, OP_STATUS, OP_SLEEP, OP_TIMER, OP_SAVE, OP_LOAD, OP_FLIGHT,
  OP_SAVESAMPLES, OP_KINDS
};
extern const char *op_names[];

struct Op {
  int th = 0;        // user thread
  double at = 0;     // simulated seconds after start
  int kind = 0;
  int inst = 0;
  int a = 0, b = 0;
  double x = 0;
  u64 uid = 0;
  std::vector<WpSpec> w;
};

struct Plan {
  std::string prop;
  std::string profile;
  u64 seed = 0;
  std::map<std::string, double> par;
  std::vector<Op> ops;
  std::vector<sim::Fault> faults;
  sim::SchedCfg sched;
  std::vector<sim::Dec> decs;
  double get(const char *k, double d = 0) const {
    auto i = par.find(k);
    return i == par.end() ? d : i->second;
  }
};

void plan_generate(Plan &p, const std::string &prop, u64 seed);
std::string plan_text(const Plan &p, const std::string &cls, const std::string &msg, u64 hash);
bool plan_parse(const char *file, Plan &p, std::string &cls, u64 &hash);
void run_plan(const Plan &p);  // child: never returns

// the reach probes
enum Probe {
  PB_LISTS = 0, PB_REGEN_STITCH, PB_REGEN_SCRATCH, PB_INPLACE, PB_REQ_WHILE_COMPUTING, PB_REQ_WHILE_PENDING, PB_FLIGHT_EVALS, PB_PLOT_EVALS,
  PB_C04, PB_C05_TAKEOVER, PB_C05_MOD, PB_C06, PB_C07_START, PB_C07_END, PB_C08, PB_C09_OLD, PB_C09_NEW, PB_DESTROY_COMPUTING, PB_DESTROY_PENDING,
  PB_OPFAULT, PB_COMPFAIL, PB_IDLE_SEEN, PB_IDLE_CHECKED, PB_NOTIFY, PB_C15, PB_SETTLED, PB_C03_KEEP, PB_C03_PASSED, PB_SUPERSEDED, PB_ZONE_WAIT, PB_RECOVERED,
  PB_SAVE_OK, PB_SAVE_FAIL, PB_LOAD_OLD, PB_LOAD_NEW, PB_LOAD_REFUSED, PB_CRASH, PB_TIMERS, PB_REQUESTS, PB_CALLS, PB_LONGCALL_CHECKED, PB_READY_NOT_TAKEN,
  PB_RETAINED_FAULT, PB_C05_STITCH, PB_TWIN, PB_UNSEEN, PB_C04_VEL, PB_RESIDUE, PB_COFILES, PB_N
};
extern const char *probe_names[];
