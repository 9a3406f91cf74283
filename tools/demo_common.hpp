// Helpers for a demonstration: a gate in front of the solver, waiting with a deadline.
#pragma once
#include <dlfcn.h>
#include <nlopt.h>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "dynamic_trajectory_generator/dynamic_trajectory.hpp"
using namespace dynamic_traj_generator;
typedef Eigen::Vector3d V3;

static std::atomic<int> g_entered{0}, g_allowed{1 << 30};  // computations begun / allowed to go on
static std::atomic<bool> g_quick{true};
extern "C" nlopt_result nlopt_optimize(nlopt_opt opt, double *x, double *f)
{
  static auto real = (nlopt_result(*)(nlopt_opt, double *, double *))dlsym(RTLD_NEXT, "nlopt_optimize");
  const int me = ++g_entered;
  while (me > g_allowed) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  if (g_quick) nlopt_set_maxeval(opt, 20);
  return real(opt, x, f);
}
#define FAIL(...) do { printf("FAIL: "); printf(__VA_ARGS__); printf("\n"); fflush(stdout); _Exit(1); } while (0)
#define DONE() do { printf("ok\n"); fflush(stdout); _Exit(0); } while (0)
inline void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
inline bool until(std::function<bool()> p, int limit_ms = 20000)
{
  const auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(limit_ms);
  while (!p()) { if (std::chrono::steady_clock::now() > end) return false; ms(1); }
  return true;
}
inline DynamicWaypoint wp(const std::string &name, double x, double y, double z)
{
  DynamicWaypoint w; w.setName(name); w.resetWaypoint(V3(x, y, z)); return w;
}
inline References at(DynamicTrajectory &t, double time, bool plot = true)
{
  References r; t.evaluateTrajectory(time, r, false, plot); return r;
}
inline std::string names(DynamicTrajectory &t)
{
  std::string s; for (auto &w : t.getDynamicWaypoints()) if (w.getName() != "" && w.getName() != "stitching_point") s += w.getName() + " "; return s;
}
// waits until every accepted request is in effect (evaluating at the given time)
inline void settle(DynamicTrajectory &t, double time, bool plot = false)
{
  if (!until([&] { at(t, time, plot); return !t.getGenerateNewTraj() && !t.getComputingNewTrajectoryStatus(); }))
    FAIL("never settles");
  at(t, time, plot);
}
