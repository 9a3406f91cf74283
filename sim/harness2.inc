// Workloads other than free flight. Included by harness.cpp.

static void must_create(IC &c) {
  OpResult r;
  c.h = op_create(nuid(), &r);
  if (r.rc) vfail("unexpected-exception", fmt("constructor threw %s", r.what));
  c.speed = par("speed", 2);
  op_set_speed(nuid(), c.h, c.speed, &r);
  double v[3] = {par("vx"), par("vy"), par("vz")};
  vehicle(c, v);
}
static void must_destroy(IC &c) {
  OpResult r;
  u64 t0 = now();
  op_destroy(nuid(), c.h, &r);
  double d = (now() - t0) * 1e-9, lim = 2 + par("solver_max", 0.1) * 2 + 40 * P->sched.stall_max * (P->sched.pstall > 0);
  if (d > lim) vfail("destroy-slow", fmt("destruction took %.2f s of simulated time", d));
}
static vector<WpSpec> mkset(Rng &g, const char *prefix, int n) {
  vector<WpSpec> v;
  double p[3] = {par("vx"), par("vy"), par("vz")};
  for (int i = 0; i < n; i++) {
    WpSpec w;
    memset(&w, 0, sizeof w);
    snprintf(w.name, NAMELEN, "%s%d", prefix, i);
    double a = g.uni(0, 6.28), r = g.uni(2, 8);
    p[0] += r * std::cos(a);
    p[1] += r * std::sin(a);
    p[2] += g.uni(-1, 1);
    memcpy(w.pos, p, sizeof p);
    v.push_back(w);
  }
  return v;
}
static int must_list(IC &c, List &l) {
  OpResult r;
  int rc = get_list(c, l, r);
  check_rc(r, "getDynamicWaypoints", false);
  return rc;
}
static float snap_tf;
// The flight time stands still in these profiles; a request that waits because the next waypoint is too close needs it to
// advance. True if it was advanced.
static bool nudge(IC &c, u64 since, double after = 3) {
  if ((now() - since) * 1e-9 < after) return false;
  OpResult r;
  double o[9];
  snap_tf = (float)(snap_tf + 0.1 + 0.03 * (now() - since) * 1e-9);
  op_eval(nuid(), c.h, snap_tf, o, 0, 0, &r);
  check_rc(r, "evaluateTrajectory", false);
  probe(PB_ZONE_WAIT);
  return true;
}
static bool must_flags_idle(IC &c, double bound, const char *what) {
  u64 t0 = now();
  bool nudged = false;
  for (;;) {
    List l;
    must_list(c, l);  // performs a takeover if one is ready
    if (nudge(c, t0)) nudged = true;
    if (!flags(c)) {
      sleep_ns(30000000);
      if (!flags(c)) return nudged;
    }
    if ((now() - t0) * 1e-9 > bound) vfail("not-idle", fmt("%s: %.1f s later the generator still reports pending/computing", what, bound));
    sleep_ns(20000000);
  }
}

// ================================================================== C09
struct Tab {
  vector<std::array<double, 9>> ev;
  List l;
  double maxt, mint;
};
static vector<float> tabT;
static void make_tab(IC &c, Tab &t) {
  OpResult r;
  t.ev.clear();
  for (float x : tabT) {
    std::array<double, 9> o;
    op_eval(nuid(), c.h, x, o.data(), 0, 1, &r);
    check_rc(r, "evaluateTrajectory", false);
    t.ev.push_back(o);
  }
  must_list(c, t.l);
  t.maxt = op_max_time(nuid(), c.h, &r);
  t.mint = op_min_time(nuid(), c.h, &r);
}
struct Rec {
  u64 inv, ret;
  int kind, k, onlyp;  // kind 0 eval, 1 list, 2 max, 3 min, 4 flight eval
  double v[9];
  List l;
};
static vector<Rec> recs[8];
static volatile bool snap_stop;
struct SnapArg {
  int i;
  IC *c;
  u64 seed;
};
static void snap_reader(void *a) {
  SnapArg *s = (SnapArg *)a;
  Rng g(s->seed);
  OpResult r;
  u64 gap = (u64)par("read_gap_ns", 200000);
  int n = 0;
  while (!snap_stop && n < 4000) {
    n++;
    if (g.p(0.7)) sleep_ns(g.below(gap) + 1);
    Rec x;
    x.kind = g.p(0.75) ? 0 : g.range(1, 4);
    x.k = (int)g.below(tabT.size());
    x.onlyp = x.kind == 0 && g.p(0.15);
    x.inv = seq();
    switch (x.kind) {
      case 0: op_eval(nuid(), s->c->h, tabT[x.k], x.v, x.onlyp, 1, &r); break;
      case 1: get_list(*s->c, x.l, r); break;
      case 2: x.v[0] = op_max_time(nuid(), s->c->h, &r); break;
      case 3: x.v[0] = op_min_time(nuid(), s->c->h, &r); break;
      case 4:
        x.k = 0;
        op_eval(nuid(), s->c->h, snap_tf, x.v, 0, 0, &r);
        break;
    }
    x.ret = seq();
    check_rc(r, "concurrent query", false);
    recs[s->i].push_back(x);
  }
}
static void snapshot_main(void *) {
  IC &c = ic[0];
  Rng g(P->seed * 31 + 7);
  OpResult r;
  must_create(c);
  auto ws = mkset(g, "a", (int)par("nwp", 3));
  op_set(nuid(), c.h, ws.data(), (int)ws.size(), &r);
  double o[9];
  snap_tf = 0;
  op_eval(nuid(), c.h, 0.f, o, 0, 0, &r);
  check_rc(r, "evaluateTrajectory", false);
  must_flags_idle(c, 60, "first trajectory");
  double end = op_max_time(nuid(), c.h, &r);
  double tf = end * par("fly_frac", 0.2);
  for (int i = 1; i <= 5; i++) {
    snap_tf = (float)(tf * i / 5);
    op_eval(nuid(), c.h, snap_tf, o, 0, 0, &r);
    sleep_ns(20000000);
  }
  int phases = (int)par("phases", 2), appended = 0;
  for (int ph = 0; ph < phases; ph++) {
    tabT.clear();
    tabT.push_back(snap_tf);
    double mx = op_max_time(nuid(), c.h, &r);
    int m = (int)par("points", 6);
    for (int i = 1; i < m; i++) tabT.push_back((float)(snap_tf + (mx + 1 - snap_tf) * g.u()));
    Tab A, A2, B, B2;
    make_tab(c, A);
    make_tab(c, A2);
    if (A.ev != A2.ev || !same_list(A.l, A2.l)) vfail("C09-unstable", "two identical queries in an idle generator returned different results");
    snap_stop = false;
    static SnapArg sa[8];
    int nr = (int)par("readers", 3);
    vector<int> th;
    for (int i = 0; i < nr; i++) {
      recs[i].clear();
      sa[i].i = i;
      sa[i].c = &c;
      sa[i].seed = g.next();
      th.push_back(spawn(snap_reader, &sa[i]));
    }
    sleep_ns(g.below(20000000) + 1);
    // one change
    int kind = (int)g.below(3);
    if (par("only_kind", -1) >= 0) kind = (int)par("only_kind");
    vector<WpOut> ahead;
    for (auto &w : A.l)
      if (named(w) && w.time > snap_tf + 0.5 + std::max(0.0, op_toffset(nuid(), c.h, &r))) ahead.push_back(w);
    if (ahead.empty() && kind) kind = 0;
    if (kind == 0) {
      auto a = mkset(g, fmt("p%d_", appended++).c_str(), 1);
      for (int k = 0; k < 3; k++) a[0].pos[k] += A.l.back().pos[k] - par(k == 0 ? "vx" : k == 1 ? "vy" : "vz");
      op_append(nuid(), c.h, &a[0], &r);
    } else {
      auto &w = ahead[g.below(ahead.size())];
      double p[3];
      for (int k = 0; k < 3; k++) p[k] = w.pos[k] + g.uni(0.2, 1.0) * (g.p(0.5) ? 1 : -1);
      op_modify(nuid(), c.h, w.name, p, kind == 2, 0, &r);
    }
    check_rc(r, "request", false);
    probe(PB_REQUESTS);
    u64 t0 = now();
    bool changed = false, quiet = false;
    while ((now() - t0) * 1e-9 < 5) {
      List l;
      if (g.p(0.5) || changed) must_list(c, l);
      if (l.size() && !same_list(l, A.l)) {
        changed = true;
        if (!flags(c)) {
          quiet = true;
          break;
        }
      }
      sleep_ns(g.below(8000000) + 1);
    }
    sleep_ns(5000000);
    snap_stop = true;
    for (int t : th) join(t);
    if (!quiet) {  // the change (or the rest of it) has to wait until the next waypoint is passed
      t0 = now();
      List l;
      while (!changed && (now() - t0) * 1e-9 < 60) {
        if (kind != 1) nudge(c, t0, 0);
        must_list(c, l);
        changed = !same_list(l, A.l);
        sleep_ns(50000000);
      }
      if (!changed) vfail("request-lost", fmt("a single %s request had no effect in 60 s", kind == 0 ? "append" : "modification"));
      must_flags_idle(c, 60, "after the change");
      continue;
    }
    if (must_flags_idle(c, 60, "after the change")) continue;
    make_tab(c, B);
    make_tab(c, B2);
    if (B.ev != B2.ev || !same_list(B.l, B2.l)) vfail("C09-unstable", "two identical queries in an idle generator returned different results");
    // classify
    u64 newseen = ~0ull;  // earliest return of a call that saw the new state
    int na = 0, nb = 0;
    struct Cl {
      u64 inv, ret;
      int old;
      string d;
      bool notM;
    };
    vector<Cl> olds;
    // A modification with regeneration may be applied in place first and regenerated afterwards: two changes, and one
    // state M between A and B. What is neither A nor B then has to be M, the same for every reader.
    struct Mid {
      u64 inv, ret;
      string d;
    };
    vector<Mid> mids;
    std::map<int, std::array<double, 9>> midv;
    std::map<int, bool> midfull;
    List midl;
    u64 midseen = ~0ull;
    for (int i = 0; i < nr; i++)
      for (auto &x : recs[i]) {
        bool isA = false, isB = false;
        string d;
        if (x.kind == 0 || x.kind == 4) {
          int nn = x.onlyp ? 3 : 9;
          isA = !memcmp(x.v, A.ev[x.k].data(), nn * 8);
          isB = !memcmp(x.v, B.ev[x.k].data(), nn * 8);
          d = fmt("evaluation at t=%.4f returned p(%.4f,%.4f,%.4f) v(%.4f,%.4f,%.4f) a(%.4f,%.4f,%.4f)", tabT[x.k], x.v[0], x.v[1], x.v[2], nn > 3 ? x.v[3] : 0, nn > 3 ? x.v[4] : 0, nn > 3 ? x.v[5] : 0, nn > 3 ? x.v[6] : 0, nn > 3 ? x.v[7] : 0, nn > 3 ? x.v[8] : 0);
          bool isM = false;
          if (!isA && !isB && kind == 2) {
            auto &m = midv[x.k];
            isM = true;
            if (midfull.count(x.k)) {
              int cmp = x.onlyp || !midfull[x.k] ? 3 : 9;
              isM = !memcmp(x.v, m.data(), cmp * 8);
            }
            if (isM && (!midfull.count(x.k) || !midfull[x.k])) memcpy(m.data(), x.v, nn * 8), midfull[x.k] = nn == 9;
            if (isM) {
              mids.push_back({x.inv, x.ret, d});
              midseen = std::min(midseen, x.ret);
              continue;
            }
          }
          if (!isA && !isB)
            vfail("C09-mixed", d + fmt("; before the %s it is p(%.4f,%.4f,%.4f) v(%.4f,%.4f,%.4f) a(%.4f,%.4f,%.4f), after p(%.4f,%.4f,%.4f) v(%.4f,%.4f,%.4f) a(%.4f,%.4f,%.4f)", kind == 0 ? "append" : kind == 1 ? "in-place modification" : "modification", A.ev[x.k][0], A.ev[x.k][1],
                                        A.ev[x.k][2], A.ev[x.k][3], A.ev[x.k][4], A.ev[x.k][5], A.ev[x.k][6], A.ev[x.k][7], A.ev[x.k][8], B.ev[x.k][0], B.ev[x.k][1], B.ev[x.k][2], B.ev[x.k][3], B.ev[x.k][4], B.ev[x.k][5], B.ev[x.k][6], B.ev[x.k][7], B.ev[x.k][8]));
        } else if (x.kind == 1) {
          isA = same_list(x.l, A.l);
          isB = same_list(x.l, B.l);
          d = "published list " + list_str(x.l);
          if (!isA && !isB && kind == 2 && same_times(x.l, A.l) && (midl.empty() || same_list(midl, x.l))) {
            midl = x.l;
            mids.push_back({x.inv, x.ret, d});
            midseen = std::min(midseen, x.ret);
            continue;
          }
          if (!isA && !isB) vfail("C09-mixed", d + " is neither the old " + list_str(A.l) + " nor the new " + list_str(B.l));
        } else {
          double a = x.kind == 2 ? A.maxt : A.mint, b = x.kind == 2 ? B.maxt : B.mint;
          isA = x.v[0] == a;
          isB = x.v[0] == b;
          d = fmt("%s time %.9f", x.kind == 2 ? "maximum" : "minimum", x.v[0]);
          if (!isA && !isB) vfail("C09-mixed", d + fmt(" is neither the old %.9f nor the new %.9f", a, b));
        }
        if (isA && isB) continue;
        if (isB) {
          nb++;
          if (x.ret < newseen) newseen = x.ret;
        } else {
          na++;
          olds.push_back({x.inv, x.ret, 1, d, (x.kind == 0 || x.kind == 4) && midfull.count(x.k) && memcmp(x.v, midv[x.k].data(), 24)});
        }
      }
    probe(PB_C09_OLD, na);
    probe(PB_C09_NEW, nb);
    for (auto &x : olds)
      if (x.inv > newseen || (x.notM && x.inv > midseen)) vfail("C09-stale", x.d + " is the old state although an earlier call had returned the new one");
    for (auto &x : mids)
      if (x.inv > newseen) vfail("C09-stale", x.d + " is the state before the regeneration although an earlier call had returned the one after it");
    // go on flying
    snap_tf = (float)(snap_tf + 0.1 + 0.05 * g.u());
    op_eval(nuid(), c.h, snap_tf, o, 0, 0, &r);
    check_rc(r, "evaluateTrajectory", false);
  }
  must_destroy(c);
  if (live_library_threads()) vfail("thread-leak", "threads of the destroyed generator are alive");
}

// ================================================================== C10 / C13 / C17: free concurrency
static volatile bool fz_active[4];
static float fz_t[4];
struct FzArg {
  int th;
  u64 seed;
};
static FzArg fzarg[32];
static volatile int fz_left;
static void fuzz_thread(void *a) {
  int th = ((FzArg *)a)->th;
  for (auto &o : P->ops) {
    if (o.th != th) continue;
    sleep_until(t_start + (u64)(o.at * 1e9));
    IC &c = ic[o.inst];
    OpResult r;
    memset(&r, 0, sizeof r);
    bool act = fz_active[o.inst];
    bool first_wait = false;
    u64 t0 = now();
    double out[9];
    WpOut b[96];
    probe(PB_CALLS);
    if (op_computing(nuid(), c.h, &r) == 1) probe(PB_REQ_WHILE_COMPUTING);
    bool named_op = false;
    switch (o.kind) {
      case OP_SET: op_set(o.uid, c.h, o.w.data(), (int)o.w.size(), &r); named_op = true; break;
      case OP_APPEND: op_append(o.uid, c.h, &o.w[0], &r); named_op = true; break;
      case OP_MODIFY: op_modify(o.uid, c.h, o.w[0].name, o.w[0].pos, o.a == 1, o.a == 2, &r); named_op = true; break;
      case OP_MODBATCH: {
        vector<ModSpec> m;
        for (auto &w : o.w) {
          ModSpec x;
          memcpy(x.name, w.name, NAMELEN);
          memcpy(x.pos, w.pos, sizeof x.pos);
          m.push_back(x);
        }
        op_modify_batch(o.uid, c.h, m.data(), (int)m.size(), &r);
        named_op = true;
        break;
      }
      case OP_SPEED: op_set_speed(o.uid, c.h, o.x, &r); break;
      case OP_VEHICLE: op_vehicle(o.uid, c.h, o.w[0].pos, &r); break;
      case OP_EVAL: op_eval(o.uid, c.h, fz_t[o.inst] + (float)o.x, out, o.a, 1, &r); first_wait = true; break;
      case OP_FLIGHT: {
        int n = o.a > 0 ? o.a : 1;
        for (int k = 0; k < n; k++) {
          float t = fz_t[o.inst] + (float)o.x;
          fz_t[o.inst] = t;
          op_eval(o.uid, c.h, t, out, o.b, 0, &r);
          if (r.rc) break;
          fz_active[o.inst] = true;
          probe(PB_FLIGHT_EVALS);
          if (k + 1 < n) sleep_ns((u64)(o.x * 1e9) + 1);
        }
        t0 = now();
        if (r.rc == 0) fz_active[o.inst] = true;
        first_wait = true;
        break;
      }
      case OP_GETWPS: { List l; get_list(c, l, r); first_wait = true; break; }
      case OP_NEXT: op_get_next(o.uid, c.h, b, 96, &r); break;
      case OP_REMAIN: op_remaining(o.uid, c.h, &r); break;
      case OP_MAXT: op_max_time(o.uid, c.h, &r); first_wait = true; break;
      case OP_MINT: op_min_time(o.uid, c.h, &r); first_wait = true; break;
      case OP_GETSPEED: op_speed(o.uid, c.h, &r); break;
      case OP_TOFF: op_toffset(o.uid, c.h, &r); break;
      case OP_REGEN: op_regenerated(o.uid, c.h, &r); break;
      case OP_STATUS: flags(c); break;
    }
    if (named_op) probe(PB_REQUESTS);
    check_rc(r, op_names[o.kind], par("faulty") > 0);
    trace("%s inst %d done", op_names[o.kind], o.inst);
    double d = (now() - t0) * 1e-9;
    if (par("longcall") && act) {
      probe(PB_LONGCALL_CHECKED);
      if (d > par("longcall")) vfail("C10-blocked", fmt("%s took %.1f s of simulated time although a trajectory was active", op_names[o.kind], d));
    }
    if (first_wait && r.rc == 0) fz_active[o.inst] = true;
  }
  fz_left--;
}
static void fuzz_main(void *) {
  t_start = now();
  OpResult r;
  for (int i = 0; i < ninst; i++) {
    ic[i].id = i;
    must_create(ic[i]);
  }
  std::set<int> ths;
  for (auto &o : P->ops) ths.insert(o.th);
  vector<int> tids;
  int k = 0;
  fz_left = (int)ths.size();
  for (int th : ths) {
    fzarg[k].th = th;
    tids.push_back(spawn(fuzz_thread, &fzarg[k]));
    k++;
  }
  // someone keeps the generators supplied so that evaluators blocked on a first trajectory are released
  double firstset = par("first_set_at", 0.0);
  sleep_until(t_start + (u64)(firstset * 1e9));
  Rng g(P->seed * 13 + 3);
  for (int i = 0; i < ninst; i++) {
    auto ws = mkset(g, "a", (int)par("nwp", 3));
    op_set(nuid(), ic[i].h, ws.data(), (int)ws.size(), &r);
    check_rc(r, "setWaypoints", false);
  }
  for (int t : tids) join(t);
  // afterwards: a last request must take effect
  if (par("epilogue", 1)) {
    for (int i = 0; i < ninst; i++) {
      IC &c = ic[i];
      auto ws = mkset(g, "z", 2);
      op_set(nuid(), c.h, ws.data(), 2, &r);
      check_rc(r, "setWaypoints", false);
      u64 t0 = now();
      double bound = 260 + 4 * par("solver_max", 0.1) + 60 * P->sched.stall_max * (P->sched.pstall > 0);
      float t = fz_t[i];
      for (;;) {
        double out[9];
        t += 0.05f;
        op_eval(nuid(), c.h, t, out, 0, 0, &r);
        check_rc(r, "evaluateTrajectory", false);
        List l;
        must_list(c, l);
        int n = 0, other = 0;
        for (auto &w : l)
          if (named(w)) {
            if (!strcmp(w.name, "z0") || !strcmp(w.name, "z1")) n++;
            else other++;
          }
        int f = flags(c);
        if (n == 2 && !other && !f) break;
        if ((now() - t0) * 1e-9 > bound)
          vfail(n == 2 && !other ? "not-idle" : "C10-progress", fmt("%.0f s after the last of all calls a set request is %s; status %s%s; list %s", bound, n == 2 && !other ? "in effect" : "not in effect", f & 1 ? "pending " : "", f & 2 ? "computing" : "", list_str(l).c_str()));
        sleep_ns(50000000);
      }
      probe(PB_SETTLED);
    }
  }
  for (int i = 0; i < ninst; i++) must_destroy(ic[i]);
  int n = live_library_threads();
  if (n) vfail("thread-leak", fmt("%d threads of destroyed generators are still alive", n));
}

// ================================================================== C17: one generator computes for minutes, another works
static void iso_main(void *) {
  IC &slow = ic[0], &c = ic[1];
  slow.id = 0, c.id = 1;
  Rng g(P->seed * 23 + 5);
  OpResult r;
  double o[9];
  double lim = 20 + 40 * par("solver_max", 0.1) + 60 * P->sched.stall_max * (P->sched.pstall > 0);
  must_create(slow);
  bool before = g.p(0.5);
  if (before) must_create(c);
  auto ws = mkset(g, "s", g.range(1, 3));
  op_set(nuid(), slow.h, ws.data(), (int)ws.size(), &r);
  check_rc(r, "setWaypoints", false);
  u64 t0 = now();
  while (!solvers_started()) {
    sleep_ns(1000000);
    if ((now() - t0) * 1e-9 > lim) vfail("C17-blocked", "a generator does not begin to compute");
  }
  sleep_ns(g.below(100000000) + 1);
  // all this while the first generator computes
  t0 = now();
  auto done = [&](const char *what) {
    if (!op_computing(nuid(), slow.h, &r)) vfail("harness", "the long computation has ended");
    if ((now() - t0) * 1e-9 > lim) vfail("C17-blocked", fmt("%s took %.1f s of simulated time while another generator was computing", what, (now() - t0) * 1e-9));
    t0 = now();
  };
  if (!before) {
    must_create(c);
    done("the construction of a generator");
  }
  snap_tf = 0;
  auto wait_for = [&](const char *name, const double *pos, const char *what) {
    for (;;) {
      List l;
      must_list(c, l);
      for (auto &w : l) {
        if (w.name[0] == 's' && isdigit(w.name[1])) vfail("C17-foreign", fmt("a waypoint of another generator (%s) is published", w.name));
        if (!strcmp(w.name, name) && (!pos || fabs(w.pos[0] - pos[0]) + fabs(w.pos[1] - pos[1]) + fabs(w.pos[2] - pos[2]) < 1e-6) && !flags(c)) {
          done(what);
          return;
        }
      }
      if ((now() - t0) * 1e-9 > lim) vfail("C17-blocked", fmt("%s has no effect in %.1f s of simulated time while another generator is computing (t=%.3f, %s)", what, lim, snap_tf, list_str(l).c_str()));
      nudge(c, t0);
      op_eval(nuid(), c.h, snap_tf, o, 0, g.p(0.5), &r);
      check_rc(r, "evaluateTrajectory", false);
      sleep_ns(g.below(20000000) + 1);
    }
  };
  auto w1 = mkset(g, "c", g.range(2, 3));
  op_set(nuid(), c.h, w1.data(), (int)w1.size(), &r);
  check_rc(r, "setWaypoints", false);
  done("setWaypoints");
  wait_for(w1.back().name, nullptr, "a set");
  for (int k = g.range(1, 4); k > 0; k--) {
    int what = g.range(0, 3);
    List now_l;
    must_list(c, now_l);
    if (now_l.empty() || now_l.back().time < snap_tf + 1 + std::max(0.0, op_toffset(nuid(), c.h, &r))) what = 0;  // too late for a modification
    if (what <= 1) {
      WpSpec w = w1.back();
      snprintf(w.name, NAMELEN, "d%d", k);
      for (int j = 0; j < 3; j++) w.pos[j] += g.uni(2, 5) * (g.p(0.5) ? 1 : -1);
      op_append(nuid(), c.h, &w, &r);
      check_rc(r, "appendWaypoint", false);
      done("appendWaypoint");
      w1.push_back(w);
      wait_for(w.name, nullptr, "an append");
    } else {
      WpSpec &w = w1.back();
      for (int j = 0; j < 3; j++) w.pos[j] += g.uni(0.3, 1) * (g.p(0.5) ? 1 : -1);
      op_modify(nuid(), c.h, w.name, w.pos, what == 2, 0, &r);
      check_rc(r, "modifyWaypoint", false);
      trace("iso: modified %s (%d) at t=%.3f", w.name, what, snap_tf);
      done("modifyWaypoint");
      wait_for(w.name, w.pos, "a modification");
    }
    snap_tf += 0.05f;
  }
  must_destroy(c);
  done("the destruction of a generator");
  probe(PB_SETTLED);
  op_destroy(nuid(), slow.h, &r);
  if (int n = live_library_threads()) vfail("thread-leak", fmt("%d threads of destroyed generators are still alive", n));
}

// ================================================================== C24
// What a generator holds depends on what it is asked to fly, not on what it has flown: the memory of the library is
// compared at the same canonical state (two waypoints flown to the end, nothing pending) before and after a history.
static Rng g_canon(7);
struct Held {
  u64 bytes, blocks;
};
static Held held() { return Held{library_bytes(), library_blocks()}; }
static void canon(IC &c, Held &m) {
  OpResult r;
  float &t = fz_t[c.id];
  double out[9];
  bool faulty = par("faulty") > 0;
  u64 t0 = now();
  double bound = 400 + 8 * par("solver_max", 0.1) + 60 * P->sched.stall_max * (P->sched.pstall > 0);
  auto late = [&](const char *what) {
    if ((now() - t0) * 1e-9 > bound) vfail("C24-progress", fmt("%s not reached within %.0f s of simulated time", what, bound));
  };
  auto eval = [&](float x) {
    if (x > t) t = x;
    op_eval(nuid(), c.h, t, out, 0, 0, &r);
    check_rc(r, "evaluateTrajectory", faulty);
    return r.rc == 0;
  };
  auto flyout = [&] {
    for (;;) {
      late("the end of the flight");
      float mt = (float)op_max_time(nuid(), c.h, &r);
      check_rc(r, "getMaxTime", faulty);
      if (r.rc == 0 && eval(std::max(t, mt) + 0.1f) && !flags(c)) {
        sleep_ns(40000000);
        double m2 = op_max_time(nuid(), c.h, &r);
        if (r.rc == 0 && !flags(c) && m2 < t) return;
      }
      sleep_ns(20000000);
    }
  };
  auto request = [&](const char *pre) {
    auto ws = mkset(g_canon, pre, 2);
    g_canon = Rng(7);
    bool ask = true;
    u64 asked = 0;
    for (;;) {
      late("a canonical state");
      if (ask || (faulty && (now() - asked) * 1e-9 > 10 + 2 * par("solver_max", 0.1) && !flags(c))) {
        op_set(nuid(), c.h, ws.data(), 2, &r);
        check_rc(r, "setWaypoints", faulty);
        ask = r.rc != 0;
        asked = now();
      }
      if (!eval(t + 0.02f)) {  // the failure of a computation is reported: the request is to be repeated
        ask = true;
        sleep_ns(20000000);
        continue;
      }
      List l;
      get_list(c, l, r);
      check_rc(r, "getDynamicWaypoints", faulty);
      if (r.rc) ask = true;
      int n = 0, other = 0;
      for (auto &w : l)
        if (named(w)) {
          if (!strncmp(w.name, pre, strlen(pre))) n++;
          else other++;
        }
      if (r.rc == 0 && n == 2 && !other && !flags(c)) break;
      sleep_ns(20000000);
    }
    flyout();
  };
  request("y");
  double v[3] = {par("vx"), par("vy"), par("vz")};
  vehicle(c, v);
  request("z");
  u64 w0 = now();
  while (live_library_threads() > ninst) {
    if ((now() - w0) * 1e-9 > bound) vfail("C24-threads", fmt("%d threads are alive in %d idle generators", live_library_threads(), ninst));
    sleep_ns(10000000);
  }
  sleep_ns(100000000);
  m = held();
}
static void residue_main(void *) {
  OpResult r;
  static char tz[] = "TZ=UTC0";
  putenv(tz);
  time_t tt = 0;  // time zone data, loaded by the first log message
  mktime(localtime(&tt));
  // whatever the library allocates once per process
  IC &w = ic[3];
  w.id = 3;
  Held m;
  must_create(w);
  for (int k = 0; k < 2; k++) {
    canon(w, m);
    auto ws = mkset(g_canon, "w", 3);
    op_set(nuid(), w.h, ws.data(), 3, &r);
    op_append(nuid(), w.h, &ws[0], &r);
    op_modify(nuid(), w.h, "w1", ws[2].pos, 0, 0, &r);
    sleep_ns(300000000);
  }
  must_destroy(w);
  std::set<int> ths;
  for (auto &o : P->ops) ths.insert(o.th);
  int rounds = (int)par("rounds", 3);
  Held b0, b1;
  // A life that leaves something behind is lived a second time: memory the library keeps for the process is allocated once.
  for (int life = 0; life < 2; life++) {
    b0 = held();
    u64 mark = leaks_mark();
    for (int i = 0; i < ninst; i++) {
      ic[i] = IC();
      ic[i].id = i;
      fz_t[i] = 0;
      must_create(ic[i]);
    }
    Held m0, mk;
    for (int i = 0; i < ninst; i++) canon(ic[i], m0);
    for (int k = 0; k < rounds; k++) {
      u64 g0 = computes_started();
      t_start = now();
      vector<int> tids;
      int j = 0;
      for (int th : ths) {
        fzarg[j].th = th;
        tids.push_back(spawn(fuzz_thread, &fzarg[j]));
        j++;
      }
      for (int t : tids) join(t);
      for (int i = 0; i < ninst; i++) canon(ic[i], mk);
      double gens = computes_started() - g0;
      long long db = mk.bytes - m0.bytes, dn = mk.blocks - m0.blocks;
      trace("residue round %d: %lld bytes %lld blocks more after %.0f generations", k, db, dn, gens);
      probe(PB_RESIDUE);
      if (db > 12000 * ninst || dn > 8 + 4 * ninst)
        vfail("C24-residue", fmt("in the same idle state the generator holds %lld bytes in %lld blocks more than before a history of %d rounds, the last of %.0f generations", db, dn, k + 1, gens));
    }
    for (int i = 0; i < ninst; i++) must_destroy(ic[i]);
    int n = live_library_threads();
    if (n) vfail("thread-leak", fmt("%d threads of destroyed generators are still alive", n));
    b1 = held();
    trace("residue after destruction: %lld bytes %lld blocks", (long long)(b1.bytes - b0.bytes), (long long)(b1.blocks - b0.blocks));
    bool left = b1.bytes != b0.bytes || b1.blocks != b0.blocks;
    if (left) leaks_dump(mark);
    if (!left) break;
    // failures are not repeated in a second life
    if (par("faulty") > 0 ? (b1.bytes - b0.bytes > 512 && b1.bytes > b0.bytes) || (b1.blocks > b0.blocks + 4) : life > 0)
      vfail("C24-leak", fmt("%lld bytes in %lld blocks are still allocated after the generators have been destroyed", (long long)(b1.bytes - b0.bytes), (long long)(b1.blocks - b0.blocks)));
    if (par("faulty") > 0) break;
  }
  probe(PB_SETTLED);
}

// ================================================================== C11
static void destroy_main(void *) {
  Rng g(P->seed * 17 + 9);
  int rounds = (int)par("rounds", 2);
  OpResult r;
  for (int k = 0; k < rounds; k++) {
    int live = (int)par("ninst", 1);
    for (int i = 0; i < live; i++) {
      ic[i] = IC();
      ic[i].id = i;
      must_create(ic[i]);
    }
    t_start = now();
    for (auto &o : P->ops) {
      if (o.th != k) continue;
      IC &c = ic[o.inst];
      sleep_until(t_start + (u64)(o.at * 1e9));
      double out[9];
      switch (o.kind) {
        case OP_SET: op_set(o.uid, c.h, o.w.data(), (int)o.w.size(), &r); c.started = true; break;
        case OP_APPEND: op_append(o.uid, c.h, &o.w[0], &r); c.started = true; break;
        case OP_MODIFY: op_modify(o.uid, c.h, o.w[0].name, o.w[0].pos, o.a == 1, o.a == 2, &r); break;
        case OP_VEHICLE: op_vehicle(o.uid, c.h, o.w[0].pos, &r); break;
        case OP_FLIGHT:
          if (c.started) {
            c.t += o.x;
            op_eval(o.uid, c.h, (float)c.t, out, 0, 0, &r);
            c.have = r.rc == 0;
          }
          break;
        case OP_GETWPS: if (c.started) { List l; get_list(c, l, r); } break;
        case OP_SLEEP: break;
      }
      check_rc(r, op_names[o.kind], prop == "C12");
      probe(PB_CALLS);
    }
    sleep_ns((u64)(par("pre_destroy") * 1e9 * g.u()));
    for (int i = 0; i < live; i++) {
      IC &c = ic[i];
      int f = flags(c);
      if (f & 2) probe(PB_DESTROY_COMPUTING);
      if (f & 1) probe(PB_DESTROY_PENDING);
      u64 t0 = now();
      op_destroy(nuid(), c.h, &r);
      check_rc(r, "destructor", false);
      double d = (now() - t0) * 1e-9;
      double lim = 2 + par("solver_max", 0.1) * 1.5 + 40 * P->sched.stall_max * (P->sched.pstall > 0);
      if (d > lim) vfail("C11-slow", fmt("destruction took %.2f s of simulated time (longest computation %.2f s)", d, par("solver_max", 0.1)));
      trace("destroyed instance %d in %.4f s", i, d);
    }
    int n = live_library_threads();
    if (n) vfail("C11-leak", fmt("%d threads or tasks of the destroyed generators are still alive when the destructor has returned", n));
    probe(PB_SETTLED);
    if (g.p(0.5)) sleep_ns((u64)(2e9 * g.u()));
  }
  sleep_ns(3000000000ull + (u64)(par("solver_max", 0.1) * 1e9));
}

// ================================================================== C14
static volatile bool nt_stop;
static volatile int nt_trues;
struct NtArg {
  IC *c;
  u64 seed;
  int poll, eval;
};
static void nt_thread(void *a) {
  NtArg *x = (NtArg *)a;
  Rng g(x->seed);
  OpResult r;
  int n = 0;
  while (!nt_stop && n++ < 20000) {
    sleep_ns(g.below((u64)par("poll_gap_ns", 3000000)) + 1);
    if (x->poll) {
      if (op_regenerated(nuid(), x->c->h, &r) == 1) nt_trues++;
      probe(PB_NOTIFY);
    }
    if (x->eval) {
      double o[9];
      u64 a0 = alloc_faults_here();
      op_eval(EVAL_UID + nuid(), x->c->h, snap_tf, o, 0, g.p(0.5), &r);
      check_rc(r, "evaluateTrajectory", alloc_faults_here() != a0);
    }
  }
}
static void notify_main(void *) {
  IC &c = ic[0];
  Rng g(P->seed * 19 + 1);
  OpResult r;
  must_create(c);
  double o[9];
  if (op_regenerated(nuid(), c.h, &r) == 1) vfail("C14-invented", "a fresh generator reports a regeneration");
  auto ws = mkset(g, "a", (int)par("nwp", 3));
  snap_tf = 0;
  int phases = (int)par("phases", 4), appended = 0;
  static NtArg na[8];
  List A;
  for (int ph = 0; ph < phases; ph++) {
    if (ph) {
      must_flags_idle(c, 120, "between changes");
      must_list(c, A);
    }
    nt_stop = false;
    nt_trues = 0;
    vector<int> th;
    int np = (int)par("pollers", 2), ne = ph ? (int)par("evals", 1) : 0;
    for (int i = 0; i < np + ne && i < 8; i++) {
      na[i].c = &c;
      na[i].seed = g.next();
      na[i].poll = i < np;
      na[i].eval = i >= np;
      th.push_back(spawn(nt_thread, &na[i]));
    }
    sleep_ns(g.below(30000000) + 1);
    // one change, or none
    int kind = ph == 0 ? 0 : (int)g.below(4);  // 0 append/set, 1 in place, 2 modify+regenerate, 3 nothing
    vector<WpOut> ahead;
    for (auto &w : A)
      if (named(w) && w.time > snap_tf + 0.5 + std::max(0.0, op_toffset(nuid(), c.h, &r))) ahead.push_back(w);
    if (ahead.empty() && (kind == 1 || kind == 2)) kind = 0;
    if (ph == 0)
      op_set(nuid(), c.h, ws.data(), (int)ws.size(), &r);
    else if (kind == 0) {
      auto a = mkset(g, fmt("p%d_", appended++).c_str(), 1);
      for (int k = 0; k < 3; k++) a[0].pos[k] += A.back().pos[k] - par(k == 0 ? "vx" : k == 1 ? "vy" : "vz");
      op_append(nuid(), c.h, &a[0], &r);
    } else if (kind < 3) {
      auto &w = ahead[g.below(ahead.size())];
      double p[3];
      for (int k = 0; k < 3; k++) p[k] = w.pos[k] + g.uni(0.2, 1.0) * (g.p(0.5) ? 1 : -1);
      op_modify(nuid(), c.h, w.name, p, kind == 2, 0, &r);
    } else if (g.p(0.7)) {  // no effect
      const char *n = "nosuch";
      for (auto &w : A)
        if (named(w) && w.time < snap_tf - 0.2 + std::min(0.0, op_toffset(nuid(), c.h, &r)) && strcmp(w.name, A.back().name)) n = w.name;  // already passed
      double p[3] = {0, 0, 0};
      op_modify(nuid(), c.h, n, p, 0, 0, &r);
    }
    check_rc(r, "request", false);
    probe(PB_REQUESTS);
    u64 t0 = now();
    bool changed = kind == 3, zone = false;
    while (!changed && (now() - t0) * 1e-9 < 60) {
      sleep_ns(g.below(10000000) + 1);
      List l;
      must_list(c, l);
      if (!same_list(l, A)) changed = true;
      else if (kind != 1 && nudge(c, t0)) zone = true;  // a modification in place waits for nothing
    }
    trace("notify phase %d kind %d flags %d toff %.3f at t=%.3f: %schanged: %s", ph, kind, flags(c), op_toffset(nuid(), c.h, &r), snap_tf, changed ? "" : "un", list_str(A).c_str());
    if (!changed) vfail("request-lost", "a single request had no effect in 60 s");
    if (g.p(0.5)) sleep_ns(g.below(60000000) + 1);
    if (kind == 3) sleep_ns(100000000);
    int now_trues = 0;
    if (g.p(0.4)) {  // the change is visible: a poll must have reported it or report it now
      now_trues = op_regenerated(nuid(), c.h, &r);
      if (now_trues) nt_trues++;
    }
    nt_stop = true;
    for (int t : th) join(t);
    if (must_flags_idle(c, 120, "after the change")) zone = true;
    if (op_regenerated(nuid(), c.h, &r) == 1) nt_trues++;
    int expect = kind == 3 ? 0 : 1;
    if (nt_trues < expect) vfail("C14-lost", fmt("a %s was reported to none of %d pollers", kind == 1 ? "modification in place" : "takeover", np + 1));
    if (nt_trues > expect + (kind == 2)) vfail("C14-invented", fmt("%d polls returned true for %d changes", nt_trues, expect));
    if (op_regenerated(nuid(), c.h, &r) == 1) vfail("C14-invented", "a second poll without a change returned true");
    if (par("two_changes") && ph && ph + 1 < phases) {
      // changes without a poll in between share one true
      nt_trues = 0;
      auto a = mkset(g, fmt("q%d_", appended++).c_str(), 1);
      must_list(c, A);
      op_append(nuid(), c.h, &a[0], &r);
      List l;
      u64 t1 = now();
      do {
        sleep_ns(20000000);
        must_list(c, l);
        nudge(c, t1);
        if ((now() - t1) * 1e-9 > 60) vfail("request-lost", "an append had no effect in 60 s");
      } while (same_list(l, A));
      if (op_regenerated(nuid(), c.h, &r) != 1) vfail("C14-lost", "a takeover already visible is not reported by the next poll");
      if (op_regenerated(nuid(), c.h, &r) == 1) vfail("C14-invented", "a second poll without a change returned true");
    }
    float next = (float)(snap_tf + 0.1 * g.u());
    if (g.p(0.4)) {  // past a waypoint, the last one staying well ahead
      must_list(c, A);
      for (auto &w : A)
        if (named(w) && w.time > snap_tf && w.time + 2 < A.back().time) {
          next = (float)(w.time + g.uni(0.3, 1.0));
          if (g.p(0.6)) break;
        }
    }
    snap_tf = next;
    op_eval(nuid(), c.h, snap_tf, o, 0, 0, &r);
    check_rc(r, "evaluateTrajectory", false);
  }
  probe(PB_SETTLED);
  must_destroy(c);
}

// ================================================================== C08
// One writer of the speed, any number of readers; trajectories compared with the one a fresh generator makes for the same
// waypoints at each speed that was in force.
static vector<double> sp_val;
static int sp_started, sp_done;
static bool sp_stop;
static void sp_set(IC &c, double v) {
  OpResult r;
  sp_val.push_back(v);
  sp_started = (int)sp_val.size() - 1;
  op_set_speed(nuid(), c.h, v, &r);
  check_rc(r, "setSpeed", false);
  sp_done = sp_started;
  c.speed = v;
}
static void sp_check(IC &c) {
  OpResult r;
  int a = sp_done;
  double v = op_speed(nuid(), c.h, &r);
  check_rc(r, "getSpeed", false);
  int b = sp_started;
  probe(PB_C08);
  for (int i = a; i <= b; i++)
    if (sp_val[i] == v) return;
  vfail("C08-speed", fmt("the speed reads back as %.3f; it was set to %.3f%s", v, sp_val[b], a < b ? " (or is being set)" : ""));
}
struct SpArg {
  IC *c;
  u64 seed;
  int what;  // 0 reads the speed, 1 evaluates
};
static void sp_thread(void *a) {
  SpArg *x = (SpArg *)a;
  Rng g(x->seed);
  while (!sp_stop) {
    sleep_ns(1 + g.below((u64)par("poll_gap_ns", 1e6)));
    sp_check(*x->c);
  }
}
static bool twin(const double *start, const vector<WpSpec> &w, double v, List &out) {
  OpResult r;
  Inst *t = op_create(nuid(), &r);
  check_rc(r, "constructor", false);
  op_vehicle(nuid(), t, start, &r);
  op_set_speed(nuid(), t, v, &r);
  op_set(nuid(), t, w.data(), (int)w.size(), &r);
  double o[9];
  op_eval(nuid(), t, 0, o, 0, 0, &r);
  check_rc(r, "evaluateTrajectory", false);
  WpOut b[96];
  int n = op_get_wps(nuid(), t, b, 96, &r);
  check_rc(r, "getDynamicWaypoints", false);
  out.assign(b, b + n);
  op_destroy(nuid(), t, &r);
  probe(PB_TWIN);
  return n == (int)w.size() + 1;
}
static void speed_main(void *) {
  IC &c = ic[0];
  Rng g(P->seed * 23 + 1);
  OpResult r;
  sp_val.push_back(par("speed", 2));
  sp_started = sp_done = 0;
  must_create(c);
  double o[9];
  snap_tf = 0;
  static SpArg sa[4];
  vector<int> th;
  int readers = (int)par("readers", 1);
  for (int i = 0; i < readers && i < 4; i++) {
    sa[i].c = &c;
    sa[i].seed = g.next();
    th.push_back(spawn(sp_thread, &sa[i]));
  }
  int phases = (int)par("phases", 3), twins = (int)par("twins", 2);
  auto speed = [&] { return std::round(exp(g.uni(std::log(0.4), std::log(9.0))) * 1000) / 1000; };
  List A;
  double pos[3] = {par("vx"), par("vy"), par("vz")};
  for (int ph = 0; ph < phases; ph++) {
    string pre = fmt("s%d_", ph);
    for (int k = (int)g.below(3); k > 0; k--) sp_set(c, speed());
    sp_check(c);
    bool stitched = ph && g.p(0.4);
    int from = sp_done;  // speeds with this index or a later one may be used
    auto ws = mkset(g, pre.c_str(), 1 + (int)g.below(4));
    for (auto &w : ws)
      for (int k = 0; k < 3; k++) w.pos[k] += pos[k] - par(k == 0 ? "vx" : k == 1 ? "vy" : "vz");
    if (ph && !stitched) {
      // fly out: the next trajectory starts from scratch at the reported position
      double mt = op_max_time(nuid(), c.h, &r);
      for (int k = 0; k < 3; k++) {
        snap_tf = (float)std::max((double)snap_tf, mt + 0.3 + k * 0.2);
        op_eval(nuid(), c.h, snap_tf, o, 0, 0, &r);
        check_rc(r, "evaluateTrajectory", false);
      }
      for (int k = 0; k < 3; k++) pos[k] = o[k] + g.uni(-1, 1);
      vehicle(c, pos);
    }
    if (ph) must_list(c, A);
    u64 t0 = now();
    if (!ph || !stitched || g.p(0.5))
      op_set(nuid(), c.h, ws.data(), (int)ws.size(), &r);
    else {
      ws.resize(1);
      op_append(nuid(), c.h, &ws[0], &r);
    }
    check_rc(r, "request", false);
    probe(PB_REQUESTS);
    for (int k = (int)g.below(g.p(0.5) ? 1 : 4); k > 0; k--) {
      sleep_ns(g.below((u64)(par("solver_max", 0.1) * 1.2e9)) + 1);
      sp_set(c, speed());
      sp_check(c);
    }
    int upto;
    List l;
    if (!ph) {
      op_eval(nuid(), c.h, 0, o, 0, 0, &r);
      check_rc(r, "evaluateTrajectory", false);
    }
    for (;;) {
      upto = sp_started;
      must_list(c, l);
      bool in = false;
      for (auto &w : l) in |= !strcmp(w.name, ws[0].name);
      if (in) break;
      nudge(c, t0);
      if ((now() - t0) * 1e-9 > 120) vfail("request-lost", "a single request had no effect in 120 s");
      sleep_ns(10000000);
    }
    sp_check(c);
    must_flags_idle(c, 120, "after a request");
    sp_check(c);
    must_list(c, l);
    bool scratch = !named(l[0]) && !is_stitch(l[0]);
    double base = op_min_time(nuid(), c.h, &r);
    trace("speed phase %d: %s base %.4f speeds %d..%d: %s", ph, scratch ? "scratch" : "stitched", base, from, upto, list_str(l).c_str());
    probe(scratch ? PB_REGEN_SCRATCH : PB_REGEN_STITCH);
    if (scratch) {
      double peak = 0, at = 0, off = op_toffset(nuid(), c.h, &r), top = 0;
      for (int i = from; i <= upto; i++) top = std::max(top, sp_val[i]);
      for (int i = 0; i <= 120; i++) {
        double t = base - off + (l.back().time - base) * i / 120, q[9];
        op_eval(nuid(), c.h, (float)t, q, 0, 1, &r);
        check_rc(r, "evaluateTrajectory", false);
        if (norm(q + 3) > peak) peak = norm(q + 3), at = t;
      }
      trace("C08peak %.4f n %d v %.3f", peak / top, from == upto, top);
      res->probes[60] = std::max(res->probes[60], (u64)(1000 * peak / top));
      if (!(peak <= 4 * top)) vfail("C08-limit", fmt("speed set to at most %.3f, the trajectory reaches %.3f at t=%.4f; list %s", top, peak, at, list_str(l).c_str()));
    }
    if (scratch && twins > 0 && l.size() == ws.size() + 1) {
      bool ok = false;
      string diff;
      for (int i = upto; i >= from && !ok; i--) {
        List t;
        if (!twin(l[0].orig, ws, sp_val[i], t)) vfail("C08-twin", fmt("a fresh generator given the same %d waypoints publishes %d", (int)ws.size(), (int)t.size()));
        ok = true;
        for (size_t k = 0; k < l.size(); k++)
          if (!(std::fabs(l[k].time - base - t[k].time) <= 1e-5 * (1 + t.back().time))) ok = false;
        diff += fmt(" %.3f:%.4f", sp_val[i], t.back().time);
      }
      twins--;
      if (!ok) vfail("C08-generated", fmt("the trajectory generated after the speed was set takes %.4f s; a fresh generator takes (speed:duration)%s for the same waypoints; list %s", l.back().time - base, diff.c_str(), list_str(l).c_str()));
    } else if (!scratch && twins > 0) {
      // the same waypoints flown from rest take about as long; a trajectory for quite another speed does not
      vector<WpSpec> rest;
      for (auto &w : l)
        if (named(w)) {
          WpSpec x;
          memset(&x, 0, sizeof x);
          memcpy(x.name, w.name, NAMELEN);
          memcpy(x.pos, w.orig, sizeof x.pos);
          rest.push_back(x);
        }
      bool ok = false;
      string diff;
      double d = l.back().time - base;
      for (int i = upto; i >= from && !ok; i--) {
        List t;
        if (!twin(l[0].orig, rest, sp_val[i], t)) break;
        double e = t.back().time;
        trace("C08stat d %.4f e %.4f ratio %.4f v %.3f", d, e, d / e, sp_val[i]);
        if (d > 0.4 * e - 1 && d < 2.5 * e + 2) ok = true;
        diff += fmt(" %.3f:%.4f", sp_val[i], e);
      }
      twins--;
      // the solver may end far off in flight; a trajectory which instead fits a speed set before that one does not
      bool old = false;
      for (int i = from - 1; i >= 0 && !ok && !old; i--) {
        List t;
        if (!twin(l[0].orig, rest, sp_val[i], t)) break;
        double e = t.back().time;
        if (d > 0.65 * e - 0.5 && d < 1.5 * e + 1) old = true, diff += fmt("; at the earlier speed %.3f: %.4f", sp_val[i], e);
      }
      if (!ok && old) vfail("C08-generated", fmt("the trajectory regenerated in flight after the speed was set takes %.4f s; flown from rest the same waypoints take (speed:duration)%s; list %s", d, diff.c_str(), list_str(l).c_str()));
    }
    memcpy(pos, l.back().pos, sizeof pos);
    // fly a part of it
    double mt = op_max_time(nuid(), c.h, &r), to = base + (mt - base) * g.uni(0.05, 0.6);
    for (int k = 1; k <= 4; k++) {
      double t = snap_tf + (to - snap_tf) * k / 4;
      if (t <= snap_tf) break;
      snap_tf = (float)t;
      op_eval(nuid(), c.h, snap_tf, o, 0, 0, &r);
      check_rc(r, "evaluateTrajectory", false);
      sp_check(c);
    }
  }
  sp_stop = true;
  for (int t : th) join(t);
  probe(PB_SETTLED);
  must_destroy(c);
}

// ================================================================== C20
struct TmDone {
  string tag;
  double lo, hi;
};
static vector<TmDone> tm_done[16];
static std::map<string, u64> tm_handles[16];
struct TmArg {
  int th, slot;
};
static TmArg tmarg[16];
static int tm_phase = 0;
struct TmAcc {
  string tag;
  u64 n = 0;
  double lo = 0, hi = 0, minlo = 1e18, minhi = 1e18, maxlo = 0, maxhi = 0;
};
static std::map<u64, TmAcc> tm_old;  // handles given before the last reset, and what was measured through them
static void timer_thread(void *a) {
  TmArg *x = (TmArg *)a;
  for (auto &o : P->ops) {
    if (o.th != x->th || o.b != tm_phase) continue;
    sleep_until(t_start + (u64)(o.at * 1e9));
    if (o.kind == OP_TIMER && o.a == 4) {
      double again = 0, v = op_minitimer(o.uid, (u64)(o.x * 1e9), &again);
      if (!(v >= (u64)(o.x * 1e9) * 1e-9 - 1e-9) || again != v) vfail("C20-mini", fmt("a measurement of %.9f s gives %.9f s, and %.9f s when read again", o.x, v, again));
    } else if (o.kind == OP_TIMER && o.a == 5) {
      static thread_local char b[1 << 14];
      op_timer_print(o.uid, b, sizeof b);
    } else if (o.kind == OP_TIMER && o.a == 3 && !tm_old.empty()) {
      // measured through a handle given before the reset
      auto it = tm_old.begin();
      std::advance(it, o.x * 1e6 - floor(o.x * 1e6) < 0.5 ? 0 : tm_old.size() - 1);
      u64 ns = (u64)(o.x * 1e9), t0 = now();
      op_timer_run_h(o.uid, it->first, ns);
      TmDone d;
      d.tag = "#" + std::to_string(it->first);
      d.lo = ns * 1e-9;
      d.hi = (now() - t0) * 1e-9;
      tm_done[x->slot].push_back(d);
    } else if (o.kind == OP_TIMER) {
      u64 ns = (u64)(o.x * 1e9);
      u64 t0 = now();
      u64 a0 = alloc_faults_here();
      if (!op_timer_run(o.uid, o.w[0].name, ns, o.a)) {
        if (alloc_faults_here() == a0) vfail("C20-refused", "a timer threw bad_alloc though no allocation failed");
        continue;
      }
      u64 t1 = now();
      TmDone d;
      d.tag = o.w[0].name;
      d.lo = ns * 1e-9;
      d.hi = (t1 - t0) * 1e-9;
      tm_done[x->slot].push_back(d);
      probe(PB_TIMERS);
    } else if (o.kind == OP_STATUS) {
      // queries while others are timing
      u64 n0 = 0;
      for (auto &d : tm_done[x->slot])
        if (d.tag == o.w[0].name) n0++;
      u64 n = op_timer_samples(o.uid, o.w[0].name);
      if (n < n0) vfail("C20-count", fmt("%llu measurements of tag %s completed by this thread, %llu counted", (unsigned long long)n0, o.w[0].name, (unsigned long long)n));
      u64 h = op_timer_handle(nuid(), o.w[0].name);
      auto it = tm_handles[x->slot].find(o.w[0].name);
      if (it != tm_handles[x->slot].end() && it->second != h) vfail("C20-handle", fmt("handle of tag %s changed from %llu to %llu", o.w[0].name, (unsigned long long)it->second, (unsigned long long)h));
      tm_handles[x->slot][o.w[0].name] = h;
      if (!op_timer_tag_ok(nuid(), o.w[0].name)) vfail("C20-handle", fmt("the handle of tag %s names another tag", o.w[0].name));
      if (n0) {
        double tot = op_timer_total(nuid(), o.w[0].name);
        double lo = 0;
        for (auto &d : tm_done[x->slot])
          if (d.tag == o.w[0].name) lo += d.lo;
        if (!(tot >= lo - 1e-6)) vfail("C20-total", fmt("total of tag %s is %.6f s, this thread alone measured %.6f s", o.w[0].name, tot, lo));
      }
    }
  }
}
static void timer_main(void *) {
  t_start = now();
  std::set<int> ths;
  for (auto &o : P->ops) ths.insert(o.th);
  vector<int> tids;
  int k = 0;
  for (int th : ths) {
    tmarg[k].th = th;
    tmarg[k].slot = k;
    tids.push_back(spawn(timer_thread, &tmarg[k]));
    k++;
  }
  for (int t : tids) join(t);
  std::map<u64, TmAcc> all = tm_old;
  std::map<string, u64> now_handles;
  std::set<string> tags;
  for (int i = 0; i < k; i++) {
    for (auto &d : tm_done[i]) if (d.tag[0] != '#') tags.insert(d.tag);
    for (auto &h : tm_handles[i]) tags.insert(h.first);
  }
  for (auto &t : tags) {
    u64 h = op_timer_handle(nuid(), t.c_str());
    if (all.count(h)) vfail("C20-handle", fmt("tags %s and %s share a handle", t.c_str(), all[h].tag.c_str()));
    if (!op_timer_tag_ok(nuid(), t.c_str())) vfail("C20-handle", fmt("the handle of tag %s names another tag", t.c_str()));
    for (int i = 0; i < k; i++) {
      auto it = tm_handles[i].find(t);
      if (it != tm_handles[i].end() && it->second != h) vfail("C20-handle", fmt("handle of tag %s changed", t.c_str()));
    }
    now_handles[t] = h;
    all[h].tag = t;
  }
  for (int i = 0; i < k; i++)
    for (auto &d : tm_done[i]) {
      TmAcc &c = all[d.tag[0] == '#' ? strtoull(d.tag.c_str() + 1, nullptr, 10) : now_handles[d.tag]];
      c.n++;
      c.lo += d.lo;
      c.hi += d.hi;
      c.minlo = std::min(c.minlo, d.lo);
      c.minhi = std::min(c.minhi, d.hi);
      c.maxlo = std::max(c.maxlo, d.lo);
      c.maxhi = std::max(c.maxhi, d.hi);
    }
  for (auto &kv : all) {
    const TmAcc &c = kv.second;
    const char *t = c.tag.c_str();
    TmStats s;
    op_timer_stats(nuid(), kv.first, &s);
    if (s.n != c.n) vfail("C20-count", fmt("%llu measurements of tag %s (handle %llu) completed, %llu counted", (unsigned long long)c.n, t, (unsigned long long)kv.first, (unsigned long long)s.n));
    if (!c.n) continue;
    const double e = 1e-6;
    if (!(s.total >= c.lo - e && s.total <= c.hi + e)) vfail("C20-total", fmt("total of tag %s is %.9f s, measured durations sum to [%.9f, %.9f]", t, s.total, c.lo, c.hi));
    if (!(std::fabs(s.mean - s.total / c.n) <= 1e-9 * (1 + std::fabs(s.mean)))) vfail("C20-mean", fmt("mean of tag %s is %.9f s, total/count is %.9f", t, s.mean, s.total / c.n));
    if (!(s.min >= c.minlo - e && s.min <= c.minhi + e)) vfail("C20-min", fmt("minimum of tag %s is %.9f s, smallest measured duration is in [%.9f, %.9f]", t, s.min, c.minlo, c.minhi));
    if (!(s.max >= c.maxlo - e && s.max <= c.maxhi + e)) vfail("C20-max", fmt("maximum of tag %s is %.9f s, largest measured duration is in [%.9f, %.9f]", t, s.max, c.maxlo, c.maxhi));
    double span = s.max - s.min;
    if (!(s.var >= 0 && s.var <= span * span * 0.2501 + 1e-12)) vfail("C20-variance", fmt("variance of tag %s is %.12g s^2, the durations are within %.9f s", t, s.var, span));
    double per = 1 / s.hz;
    if (s.mean > 1e-7 && !(per >= s.min * (1 - 1e-6) - 1e-9 && per <= s.max * (1 + 1e-6) + 1e-9)) vfail("C20-hz", fmt("frequency of tag %s is %.9g Hz, the durations are in [%.9f, %.9f]", t, s.hz, s.min, s.max));
    if (c.n <= 50 && s.mean > 1e-7 && !(std::fabs(per - s.mean) <= 1e-6 * s.mean + 1e-9)) vfail("C20-hz", fmt("frequency of tag %s is %.9g Hz, the mean duration %.9f s", t, s.hz, s.mean));
  }
  {  // the printed table has one line for each tag with its count
    static char b[1 << 15];
    op_timer_print(nuid(), b, sizeof b);
    std::istringstream in(b);
    string line;
    std::map<string, u64> printed;
    while (std::getline(in, line)) {
      std::istringstream l(line);
      string tag;
      u64 n;
      if ((l >> tag >> n) && now_handles.count(tag)) printed[tag] = n;
    }
    for (auto &t : now_handles)
      if (!printed.count(t.first) || printed[t.first] != all[t.second].n) vfail("C20-print", fmt("the printed table has %llu measurements of tag %s instead of %llu", (unsigned long long)(printed.count(t.first) ? printed[t.first] : 0), t.first.c_str(), (unsigned long long)all[t.second].n));
  }
  for (int i = 0; i < k; i++) tm_done[i].clear(), tm_handles[i].clear();
  tm_old = all;
  if (tm_phase + 1 < (int)par("phases", 1)) {
    tm_phase++;
    op_timer_reset(nuid());
    timer_main(nullptr);
    return;
  }
  probe(PB_SETTLED);
}

// ================================================================== C18 / C19
// the same numbers: the width of columns may differ
static bool same_tokens(const string &a, const string &b) {
  size_t i = 0, j = 0;
  auto sp = [](char c) { return c == ' '; };
  for (;;) {
    while (i < a.size() && sp(a[i])) i++;
    while (j < b.size() && sp(b[j])) j++;
    if (i >= a.size() || j >= b.size()) return i >= a.size() && j >= b.size();
    while (i < a.size() && j < b.size() && !sp(a[i]) && !sp(b[j]) && a[i] == b[j]) i++, j++;
    bool ea = i >= a.size() || sp(a[i]) || a[i] == '\n', eb = j >= b.size() || sp(b[j]) || b[j] == '\n';
    if (!ea || !eb) return false;
  }
}
static string slurp(const string &f, bool &ok) {
  string s;
  FILE *h = fopen(f.c_str(), "r");
  ok = h != nullptr;
  if (!h) return s;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n);
  fclose(h);
  return s;
}
static Traj *mk(const Op &o, u64 salt) { return op_traj_make(o.uid * 1000003 + salt + P->seed, o.a, o.b & 255, (o.b >> 8) & 255, o.x); }
static void files_main(void *) {
  char dir[128];
  snprintf(dir, sizeof dir, "/tmp/simdisk.%07d.%llu", (int)syscall(SYS_getpid), (unsigned long long)P->seed);
  mkdir(dir, 0700);
  string d = string(dir) + "/";
  fs_begin(d.c_str());
  struct Clean {
    string d;
  };
  OpResult r;
  // reference model: what each file must contain
  std::map<int, Traj *> file;        // slot -> trajectory of the last save reported as successful (or found after a crash)
  std::map<int, bool> uncertain;     // last save failed: contents unspecified
  auto path = [&](int slot) { return d + "t" + std::to_string(slot) + ".yaml"; };
  auto cleanup = [&]() {
    fs_arm(0);
    for (auto &e : vector<string>{}) (void)e;
    string cmd;
    // remove whatever is there
    if (DIR *h = opendir(dir)) {
      vector<string> n;
      while (dirent *e = readdir(h)) n.push_back(e->d_name);
      closedir(h);
      for (auto &x : n)
        if (x != "." && x != "..") unlink((d + x).c_str());
    }
    rmdir(dir);
  };
  auto bad = [&](const char *cls, const string &m) {
    cleanup();
    vfail(cls, m);
  };
  auto secs = [](Traj *t) { return t ? op_traj_nseg(t) : -1; };
  for (auto &o : P->ops) {
    int slot = o.inst;
    string f = path(slot);
    sleep_ns(1000);
    u64 f0 = fs_faults(), h0 = fs_hard_faults(), a0 = alloc_fault_count();
    double err = 0;
    if (o.kind == OP_SAVE) {
      Traj *t = mk(o, 1), *old = file.count(slot) && !uncertain[slot] ? file[slot] : nullptr;
      bool oldknown = old != nullptr || (!file.count(slot) && !uncertain[slot]);
      fs_arm(1);
      int ok = op_traj_save(o.uid, t, f.c_str(), &r);
      fs_arm(0);
      bool crashed = fs_crashed();
      trace("save slot %d: %d segments -> %s%s, %llu faults", slot, op_traj_nseg(t), ok ? "ok" : "failed", crashed ? " crashed" : "", (unsigned long long)(fs_faults() - f0));
      if (crashed) {
        fs_restart();
        fs_settle();
        probe(PB_CRASH);
        // the process is gone; a new one loads the file
        bool ex;
        string raw = slurp(f, ex);
        Traj *g = op_traj_load(nuid(), f.c_str(), &r);
        if (want("C19")) {
          double e1 = 0, e2 = 0;
          bool isnew = g && op_traj_equal(g, t, &e1) && e1 < 2e-9, isold = g && old && op_traj_equal(g, old, &e2) && e2 < 2e-9;
          if (isnew) probe(PB_LOAD_NEW);
          else if (isold) probe(PB_LOAD_OLD);
          if (oldknown && old && !isnew && !isold)
            bad("C19-crash", fmt("a save of %d segments over a file of %d segments was interrupted; loading afterwards gives %s (%d segments); the file has %d bytes", secs(t), secs(old), g ? "a different trajectory" : "nothing", secs(g), (int)raw.size()));
          if (!old && g && !isnew && oldknown) bad("C19-crash", fmt("a save of %d segments into a new file was interrupted; loading afterwards gives a different trajectory of %d segments", secs(t), secs(g)));
          if (!oldknown && g && !isnew) bad("C19-crash", fmt("after an interrupted save loading gives a trajectory of %d segments that was never saved", secs(g)));
          file[slot] = isnew ? t : old;
          uncertain[slot] = !(isnew || isold);
          if (!file[slot]) file.erase(slot);
        } else {
          uncertain[slot] = true;
        }
        continue;
      }
      if (ok) {
        probe(PB_SAVE_OK);
        if (want("C18") || want("C19")) {
          bool ex;
          string raw = slurp(f, ex);
          Traj *g = op_traj_load(nuid(), f.c_str(), &r);
          if (!g || !op_traj_equal(g, t, &err) || err > 0.501e-9)
            bad("C18-save", fmt("saving %d segments (%d coefficients, %d dimensions) was reported as successful with %llu injected faults, but loading gives %s (%d segments, time error %.3g s, file of %d bytes)", secs(t), o.b & 255, o.b >> 8,
                                (unsigned long long)(fs_faults() - f0), g ? "another trajectory" : r.rc ? r.what : "nothing", secs(g), err, (int)raw.size()));
          if (o.w.size() && !strcmp(o.w[0].name, "cycle")) {  // repeated cycles
            Traj *cur = g;
            for (int k = 0; k < 4; k++) {
              if (!op_traj_save(nuid(), cur, f.c_str(), &r)) bad("C18-cycle", "saving a loaded trajectory failed without a fault");
              Traj *n = op_traj_load(nuid(), f.c_str(), &r);
              double e = 0;
              if (!n || !op_traj_equal(n, g, &e) || e > 1e-12) bad("C18-cycle", fmt("save/load cycle %d changed the trajectory (segment time by %.3g s)", k + 2, e));
              cur = n;
            }
          }
        }
        file[slot] = t;
        uncertain[slot] = false;
        u64 cut = 0;
        for (auto &w : o.w)
          if (!strcmp(w.name, "cut")) cut = (u64)w.pos[0] * 4 + (u64)w.pos[1];
        if (cut && want("C18")) {
          fs_power_cut(cut);
          probe(PB_CRASH);
          for (auto &x : file) {
            if (uncertain[x.first] || !x.second) continue;
            string fx = path(x.first);
            Traj *g = op_traj_load(nuid(), fx.c_str(), &r);
            bool ex;
            string raw = slurp(fx, ex);
            if (!g || !op_traj_equal(g, x.second, &err) || err > 0.501e-9)
              bad("C18-power", fmt("saving %d segments was reported as successful; after a loss of power loading gives %s (%d segments, file of %d bytes)", secs(x.second), g ? "another trajectory" : r.rc ? r.what : "nothing", secs(g), (int)raw.size()));
          }
        }
      } else {
        probe(PB_SAVE_FAIL);
        fs_settle();
        if (fs_hard_faults() == h0 && alloc_fault_count() == a0) bad("C18-spurious", fmt("saving failed though no I/O error was injected (%llu short or interrupted operations)", (unsigned long long)(fs_faults() - f0)));
        if (want("C19")) {
          Traj *g = op_traj_load(nuid(), f.c_str(), &r);
          double e1 = 0, e2 = 0;
          bool isnew = g && op_traj_equal(g, t, &e1) && e1 < 2e-9, isold = g && old && op_traj_equal(g, old, &e2) && e2 < 2e-9;
          if (g && !isnew && !isold && oldknown) bad("C19-crash", fmt("a save of %d segments over %d failed; loading afterwards gives a different trajectory of %d segments", secs(t), secs(old), secs(g)));
          file[slot] = isnew ? t : isold ? old : nullptr;
          uncertain[slot] = !(isnew || isold);
        } else
          uncertain[slot] = true;
      }
    } else if (o.kind == OP_SAVESAMPLES) {
      Traj *t = op_traj_make(o.uid * 1000003 + 1 + P->seed, o.a, o.b & 255, 3, o.x);
      string ref = d + "ref.txt", sf = d + "s" + std::to_string(slot) + ".txt";
      if (!op_traj_save_samples(nuid(), t, ref.c_str(), &r)) bad("C18-spurious", fmt("saving samples failed without a fault: %s", r.what));
      bool ex, ex2;
      string want_s = slurp(ref, ex);
      fs_arm(1);
      int ok = op_traj_save_samples(o.uid, t, sf.c_str(), &r);
      fs_arm(0);
      bool crashed = fs_crashed();
      fs_restart();
      if (crashed) {
        probe(PB_CRASH);
        continue;
      }
      string got = slurp(sf, ex2);
      if (ok) {
        probe(PB_SAVE_OK);
        if (want("C18") && (!ex2 || !same_tokens(got, want_s))) bad("C18-samples", fmt("saving the samples was reported as successful with %llu injected faults, but the file has %d of %d bytes", (unsigned long long)(fs_faults() - f0), (int)got.size(), (int)want_s.size()));
      } else {
        probe(PB_SAVE_FAIL);
        if (fs_hard_faults() == h0 && alloc_fault_count() == a0) bad("C18-spurious", "saving samples failed though no I/O error was injected");
      }
    } else if (o.kind == OP_LOAD) {
      fs_arm(1);
      Traj *g = op_traj_load(o.uid, f.c_str(), &r);
      fs_arm(0);
      bool crashed = fs_crashed();
      fs_restart();
      if (crashed) {
        probe(PB_CRASH);
        continue;
      }
      bool known = file.count(slot) && file[slot] && !uncertain[slot];
      if (g) {
        if (uncertain[slot]) continue;
        if (!known) bad("C19-load", fmt("loading a file that was never saved gives a trajectory of %d segments", secs(g)));
        if (!op_traj_equal(g, file[slot], &err) || err > 0.501e-9) bad("C19-load", fmt("loading with %llu injected faults gives a different trajectory (%d instead of %d segments)", (unsigned long long)(fs_faults() - f0), secs(g), secs(file[slot])));
        probe(PB_LOAD_OLD);
      } else {
        probe(PB_LOAD_REFUSED);
        if (known && fs_hard_faults() == h0 && alloc_fault_count() == a0) bad("C19-refused", fmt("loading a complete file failed (%s) though no I/O error was injected", r.rc ? r.what : "refused"));
        if (want("C19") && r.rc != R_DONE && r.rc != R_EXC && alloc_fault_count() == a0) bad("C19-load", fmt("loading threw %s", r.what));
      }
    }
  }
  probe(PB_SETTLED);
  cleanup();
}

// ================================================================== C25: files used by several threads
struct FileEv {
  const Op *op;
  Traj *t = nullptr;      // what is saved
  string ref;             // samples: the text of an undisturbed save
  u64 inv = 0, resp = 0;  // order of the invocation and the return among all
  int ok = 0, crashed = 0, rc = 0;
  Traj *got = nullptr;  // what a load gave
  u64 hard = 0;         // I/O errors met by the call
  int alloc = 0;
  string what;
};
static vector<FileEv> fev;
static u64 fev_clock = 0;
static string cf_dir;
static string cf_path(const Op &o) { return cf_dir + (o.kind == OP_SAVESAMPLES ? "s" : "t") + std::to_string(o.inst) + (o.kind == OP_SAVESAMPLES ? ".txt" : ".yaml"); }
static void cofiles_thread(void *a) {
  TmArg *x = (TmArg *)a;
  for (auto &e : fev) {
    const Op &o = *e.op;
    if (o.th != x->th) continue;
    sleep_until(t_start + (u64)(o.at * 1e9));
    if (fs_crashed()) return;  // this process is gone
    string f = cf_path(o);
    OpResult r;
    u64 h0 = fs_hard_faults_here(), a0 = alloc_faults_here();
    e.inv = ++fev_clock;
    if (o.kind == OP_SAVE) e.ok = op_traj_save(o.uid, e.t, f.c_str(), &r);
    else if (o.kind == OP_SAVESAMPLES) e.ok = op_traj_save_samples(o.uid, e.t, f.c_str(), &r);
    else e.got = op_traj_load(o.uid, f.c_str(), &r), e.ok = e.got != nullptr;
    e.alloc = alloc_faults_here() != a0;
    e.resp = ++fev_clock;
    e.hard = fs_hard_faults_here() - h0;
    e.crashed = fs_crashed();
    e.rc = r.rc;
    e.what = r.what;
    if (e.crashed) e.resp = ~0ull >> 1;  // it never returned
    trace("file call %llu (kind %d, slot %d): %s", (unsigned long long)o.uid, o.kind, o.inst, e.ok ? "ok" : e.crashed ? "crashed" : "failed");
    probe(o.kind == OP_LOAD ? (e.ok ? PB_LOAD_OLD : PB_LOAD_REFUSED) : e.ok ? PB_SAVE_OK : PB_SAVE_FAIL);
  }
}
// The calls on one file as operations on a register, values being distinct: linearisable iff the zones of the values
// (first return to last invocation among the write and the reads of a value) do not conflict (Gibbons and Korach).
struct Zone {
  int write;  // index into fev, -1: the file not being there
  u64 f = ~0ull, s = 0;
};
static string zones_conflict(const vector<Zone> &z) {
  auto name = [&](const Zone &a) { return a.write < 0 ? string("the absence of the file") : "the save " + std::to_string(fev[a.write].op->uid); };
  for (size_t i = 0; i < z.size(); i++)
    for (size_t j = 0; j < z.size(); j++) {
      if (i == j) continue;
      const Zone &a = z[i], &b = z[j];
      if (!(a.f < a.s)) continue;
      if (b.f < b.s ? (i < j && a.f < b.s && b.f < a.s) : (a.f < b.s && b.f < a.s)) return name(b) + " was in effect in between uses of " + name(a);
    }
  return "";
}
static void cofiles_main(void *) {
  char dir[128];
  snprintf(dir, sizeof dir, "/tmp/simdisk.%07d.%llu", (int)syscall(SYS_getpid), (unsigned long long)P->seed);
  mkdir(dir, 0700);
  cf_dir = string(dir) + "/";
  fs_begin(cf_dir.c_str());
  auto list = [&]() {
    vector<string> n;
    if (DIR *h = opendir(dir)) {
      while (dirent *e = readdir(h))
        if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name);
      closedir(h);
    }
    return n;
  };
  auto cleanup = [&]() {
    fs_arm(0);
    for (auto &x : list()) unlink((cf_dir + x).c_str());
    rmdir(dir);
  };
  auto bad = [&](const char *cls, const string &m) {
    cleanup();
    vfail(cls, m);
  };
  std::set<int> ths, slots, sslots;
  OpResult r;
  for (auto &o : P->ops) {
    ths.insert(o.th);
    FileEv e;
    e.op = &o;
    if (o.kind != OP_LOAD) e.t = mk(o, 1);
    (o.kind == OP_SAVESAMPLES ? sslots : slots).insert(o.inst);
    if (o.kind == OP_SAVESAMPLES) {
      bool ex;
      string ref = cf_dir + "ref.txt";
      if (!op_traj_save_samples(nuid(), e.t, ref.c_str(), &r)) bad("C25-spurious", fmt("saving samples failed without a fault: %s", r.what));
      e.ref = slurp(ref, ex);
      unlink(ref.c_str());
    }
    fev.push_back(e);
  }
  fs_settle();
  t_start = now();
  fs_arm(1);
  vector<int> tids;
  int k = 0;
  for (int th : ths) {
    tmarg[k].th = th;
    tmarg[k].slot = k;
    tids.push_back(spawn(cofiles_thread, &tmarg[k]));
    k++;
  }
  for (int t : tids) join(t);
  fs_arm(0);
  bool crashed = fs_crashed(), power = false;
  for (auto &f : P->faults) power |= f.kind == F_IO && f.arg == IO_POWER;
  if (crashed) probe(PB_CRASH);
  fs_restart();
  fs_settle();
  if (!crashed) {
    if (int n = fs_open_files()) bad("C25-descriptor", fmt("%d file descriptors stay open after all saves and loads have returned", n));
    if (!fs_unlink_faults())
      for (auto &x : list()) {
        bool known = false;
        for (auto &e : fev) known |= cf_dir + x == cf_path(*e.op) && e.op->kind != OP_LOAD;
        if (!known) bad("C25-leftover", fmt("the file %s is left behind", x.c_str()));
      }
  }
  // what every call said, and what is there now
  for (int slot : slots) {
    FileEv last;
    Op lo;
    memset((void *)&lo.kind, 0, sizeof lo.kind);
    lo.kind = OP_LOAD;
    lo.inst = slot;
    lo.th = -1;
    lo.uid = nuid();
    last.op = &lo;
    string f = cf_path(lo);
    last.inv = ++fev_clock;
    if (crashed) last.inv = ~0ull - 2;  // after everything, the calls that never returned included
    last.got = op_traj_load(lo.uid, f.c_str(), &r);
    last.ok = last.got != nullptr;
    last.resp = crashed ? ~0ull - 1 : ++fev_clock;
    last.rc = r.rc;
    last.what = r.what;
    bool some_save = false;
    vector<int> writes;
    std::map<int, Zone> z;
    z[-1].write = -1;
    z[-1].f = 0;
    for (size_t i = 0; i < fev.size(); i++)
      if (fev[i].op->inst == slot && fev[i].op->kind == OP_SAVE && fev[i].inv) {
        writes.push_back((int)i);
        if (!fev[i].ok) continue;
        some_save = true;
        Zone &q = z[(int)i];
        q.write = (int)i;
        q.f = fev[i].resp;
        q.s = fev[i].inv;
      }
    (void)some_save;
    for (size_t i = 0; i <= fev.size(); i++) {
      FileEv &e = i < fev.size() ? fev[i] : last;
      if (e.op->inst != slot || e.op->kind != OP_LOAD || !e.inv) continue;
      if (crashed && power && i < fev.size()) continue;  // what was read may be lost with the power, unless a save was reported
      int from = -2;
      if (e.got) {
        double err = 0;
        for (int w : writes)
          if (op_traj_equal(e.got, fev[w].t, &err) && err <= 0.501e-9) from = w;
        if (from < 0) bad("C25-torn", fmt("loading gives a trajectory of %d segments that nobody saved", op_traj_nseg(e.got)));
        if (fev[from].inv > e.resp) bad("C25-torn", "loading gives a trajectory before it is saved");
      } else {
        if (e.hard || e.alloc || e.crashed) continue;
        if (e.rc != R_FALSE && e.rc != R_DONE) bad("C25-refused", fmt("loading threw %s though no I/O error was injected into it", e.what.c_str()));
        bool ex = false;
        if (&e == &last) slurp(f, ex);
        if (ex) bad("C25-refused", "the file cannot be loaded at the end");
        from = -1;
      }
      Zone &q = z[from];
      if (from >= 0 && q.f == ~0ull) {
        q.write = from;
        q.f = fev[from].resp;
        q.s = fev[from].inv;
      }
      q.f = std::min(q.f, e.resp);
      q.s = std::max(q.s, e.inv);
    }
    vector<Zone> zs;
    for (auto &x : z) zs.push_back(x.second);
    string c = zones_conflict(zs);
    if (c.size()) bad("C25-order", fmt("slot %d: %s", slot, c.c_str()));
    probe(PB_COFILES);
  }
  for (int slot : sslots) {
    string f, got;
    bool ex = false;
    vector<int> c;
    for (size_t i = 0; i < fev.size(); i++)
      if (fev[i].op->inst == slot && fev[i].op->kind == OP_SAVESAMPLES && fev[i].inv) {
        f = cf_path(*fev[i].op);
        c.push_back((int)i);
      }
    if (c.empty()) continue;
    got = slurp(f, ex);
    bool any_ok = false, found = false;
    for (int i : c) any_ok |= fev[i].ok != 0;
    for (int i : c)
      if (ex && same_tokens(got, fev[i].ref)) {
        bool superseded = false;
        for (int j : c) superseded |= fev[j].ok && fev[i].resp < fev[j].inv;
        found |= !superseded;
      }
    if (any_ok && !found) bad("C25-samples", fmt("the samples file (%d bytes) is not what any save wrote that was not replaced by a later one", (int)got.size()));
    if (ex && !any_ok && !found) bad("C25-samples", fmt("the samples file (%d bytes) is none of those saved", (int)got.size()));
    probe(PB_COFILES);
  }
  for (auto &e : fev)
    if (e.inv && e.op->kind != OP_LOAD && !e.ok && !e.hard && !e.alloc && !e.crashed) bad("C25-spurious", fmt("saving failed (%s) though no I/O error was injected into it", e.what.c_str()));
  probe(PB_SETTLED);
  cleanup();
}
