// C15: replica groups over both front ends.  C16: closed-loop control over a
// lossy network with crashing controllers.
#include <algorithm>
#include <cmath>
#include <cstring>

#include "exec.h"

using rt::ev;
using rt::fired;
using rt::probe;
using rt::violate;
typedef long double LD;

namespace {
Problem as_dense(const Problem& m) {
  Problem p;
  p.d = Dims::dense(m.d.nz, m.d.nl, m.d.nv);
  p.fam = m.fam;
  p.seed = m.seed;
  p.truth = m.truth;
  p.H = m.H;
  p.G = m.G;
  p.A = m.A;
  p.f = m.f;
  p.h = m.h;
  p.b = m.b;
  return p;
}
// One controller process: a solver and what it keeps in memory.
struct Node {
  int kind = MPC, tag = 0;
  SutSolver* s = nullptr;
  Dims d;       // of its own front end
  Opts raw;
  bool opts = false;
  void start(const Dims& mpc_dims, int k, int ctor, int t) {
    kind = k;
    tag = t;
    d = k == MPC ? mpc_dims : Dims::dense(mpc_dims.nz, mpc_dims.nl, mpc_dims.nv);
    rt::op_begin(rt::OpFaults());
    std::string what;
    if (sut_new_solver(d, ctor, tag, &s, &what)) violate("construct-failed", "controller: %s", what.c_str());
    if (opts && sut_update_options(s, raw, &what)) violate("options-throw", "controller: %s", what.c_str());
    rt::op_end();
  }
  void stop() {
    if (!s) return;
    sut_delete_solver(s);
    s = nullptr;
  }
  // p: MPC form.
  Reply solve(const Problem& p, const Point& guess, int flavour) {
    static const int stores[4] = {OWNED, MAPPED, MAPPED_GUARD, MAPPED_SEQ};
    int sd = stores[flavour & 3], sv = stores[(flavour >> 2) % 3];
    if (sd == MAPPED_SEQ && kind == DENSE) sd = MAPPED;
    SutData* da = nullptr;
    SutVar* v = nullptr;
    std::string what;
    Reply r;
    Problem q = kind == MPC ? p : as_dense(p);
    rt::op_begin(rt::OpFaults());
    if (sut_make_data(q, sd, tag + 500, {}, &da, &what) || sut_make_var(q.d, sv, tag + 501, guess, nullptr, &v, &what))
      violate("container-failed", "controller data: %s", what.c_str());
    Opts e = model_sanitize(opts ? raw : stock(kind, 0));
    rt::set_step_limit(step_bound(q.d, e));
    rt::op_begin(rt::OpFaults());
    sut_solve(s, da, v, ST_CUSTOM, &r);
    rt::op_end();
    rt::set_step_limit(INT64_MAX / 4);
    rt::op_begin(rt::OpFaults());
    rt::R->solves++;
    sut_delete_var(v);
    sut_delete_data(da);
    rt::op_end();
    return r;
  }
  double tol(const Problem& p) const {
    return combo_tol(p, model_sanitize(opts ? raw : stock(kind, 0)));
  }
};
bool certified(const Problem& p, const Reply& r, double tol, double alpha, LD* norm) {
  Resid k = residual(p, r.x, alpha, false, 0);
  *norm = k.norm;
  return k.norm <= tol * (1 + 1e-9L) + k.slack;
}
Opts tight(const Op& op) {
  Opts o = stock(MPC, (int)(op.get("base") % 3));
  o.abs_tol = op.get("at") ? code_value(op.get("at")) : 1e-7;
  o.display = 0;
  return o;
}
const char* flag_of(const Reply& r) {
  return r.thrown ? thrown_names[r.thrown] : flag_names[r.out.eflag % 6];
}
}  // namespace

// ---- C15 ----------------------------------------------------------------------------
void run_replica_world(const Plan& p) {
  Dims d;
  bool have = false;
  std::vector<Problem> log;
  struct Replica {
    Node n;
    size_t next = 0;
    Point warm, durable, older;
    std::map<size_t, Reply> decided;
  };
  std::vector<Replica> rep;
  int incarnation = 0;
  int flavour = 0;

  // One miss of an iterative method is not evidence: how many of eight other
  // instances of the family, given to the same replica, end the same way?
  auto good_end = [&](const Node& n, const Problem& q, const Reply& a) {
    LD nrm;
    return a.thrown == X_NONE && a.out.eflag == SUCCESS &&
           certified(q, a, n.tol(q), model_sanitize(n.opts ? n.raw : stock(n.kind, 0)).alpha, &nrm);
  };
  auto differ = [](const Reply& a, const Reply& b) {
    return a.thrown != b.thrown || (a.thrown == X_NONE && a.out.eflag != b.out.eflag);
  };
  auto siblings = [&](const Problem& q, int i, int j, const Point& warm) {
    int bad = 0;
    for (uint64_t k = 1; k <= 8; k++) {
      Problem t = make_problem(d, q.fam, q.seed + 7919 * k);
      if (t.truth != q.truth) continue;
      Reply a = rep[i].n.solve(t, warm, 0);
      if (j < 0) {
        bad += q.truth == T_WELLPOSED || (a.thrown == X_NONE && a.out.eflag == SUCCESS) ? !good_end(rep[i].n, t, a) : 0;
        continue;
      }
      Reply b = i == j ? rep[i].n.solve(t, Point(rep[i].older), 0) : rep[j].n.solve(t, rep[j].warm, 0);
      bad += differ(a, b);
    }
    ev("siblings: %d", bad);
    return bad;
  };
  auto definite = [](const Reply& a) { return a.thrown == X_NONE && a.out.eflag != MAXITER; };
  auto agree = [&](const Problem& q, const Reply& a, double ta, const Reply& b, double tb, size_t e, int i, int j) {
    if (differ(a, b) && !(definite(a) && definite(b))) {
      rt::metric(4, 1);
      if (siblings(q, i, j, rep[i].warm) < 4) return;
    }
    if (differ(a, b))
      violate("disagree", "entry %zu (%s): replica %d says %s, replica %d says %s", e, fam_names[q.fam], i, flag_of(a), j,
              flag_of(b));
    if (a.thrown != X_NONE || a.out.eflag != SUCCESS) return;
    double m = 1, dz = 0;
    for (size_t k = 0; k < a.x.z.size(); k++) {
      m = std::max(m, std::fabs(a.x.z[k]));
      dz = std::max(dz, std::fabs(a.x.z[k] - b.x.z[k]));
    }
    double lim = 1e3 * (ta + tb) * m;
    rt::metric(0, dz / lim);
    probe(rt::P_REPLICAS_AGREED);
    if (!(dz <= lim))
      violate("disagree", "entry %zu (%s): replicas %d and %d differ by %.3g in the minimiser (tolerances %.3g, %.3g)", e,
              fam_names[q.fam], i, j, dz, ta, tb);
  };
  auto process = [&](int id, size_t e) {
    Replica& r = rep[id];
    const Problem& q = log[e];
    Reply a = r.n.solve(q, r.warm, flavour++);
    ev("replica %d entry %zu -> %s newton %d", id, e, flag_of(a), a.out.newton);
    for (const Vec* w : {&a.x.z, &a.x.l, &a.x.v})
      if (!w->empty()) rt::ev_bits(w->data(), w->size() * 8);
    rt::state_mix(id * 1000 + a.thrown * 100 + a.out.eflag * 10 + std::min(a.out.newton, 9));
    if (a.thrown == X_NONE && a.out.eflag == SUCCESS) {
      LD nrm;
      probe(rt::P_KKT_CHECKED);
      Opts e2 = model_sanitize(r.n.opts ? r.n.raw : stock(r.n.kind, 0));
      bool fine = certified(q, a, r.n.tol(q), e2.alpha, &nrm);
      if (!fine) rt::metric(5, 1);
      if (!fine && siblings(q, id, -1, r.warm) < 2) {
        r.decided.erase(e);
        return;
      }
      if (!fine)
        violate("not-optimal", "entry %zu (%s): replica %d (%s) reports Success, KKT residual %.3Lg, tolerance %.3g", e,
                fam_names[q.fam], id, r.n.kind == MPC ? "MPC" : "dense", nrm, r.n.tol(q));
      probe(rt::P_SUCCESS);
    } else if (a.thrown == X_NONE && a.out.eflag == PINF) {
      probe(rt::P_PRIMAL_INFEASIBLE);
    } else if (a.thrown == X_NONE && a.out.eflag == DINF) {
      probe(rt::P_DUAL_INFEASIBLE);
    }
    bool good = a.thrown == X_NONE && a.out.eflag == SUCCESS;
    if (q.truth == T_WELLPOSED && !good) rt::metric(6, 1);
    if (q.truth == T_WELLPOSED && !good && siblings(q, id, -1, r.warm) < 2) {
      r.decided.erase(e);
      return;
    }
    if (q.truth == T_WELLPOSED && !good)
      violate("no-verdict", "entry %zu (%s): replica %d (%s) ends with %s %s", e, fam_names[q.fam], id,
              r.n.kind == MPC ? "MPC" : "dense", flag_of(a), a.what.c_str());
    auto old = r.decided.find(e);
    if (old != r.decided.end()) agree(q, old->second, r.n.tol(q), a, r.n.tol(q), e, id, id);
    r.decided[e] = a;
    if (good) {
      r.older = r.durable;
      r.durable = r.warm = a.x;
    }
    for (size_t j = 0; j < rep.size(); j++)
      if ((int)j != id && rep[j].decided.count(e))
        agree(q, rep[j].decided[e], rep[j].n.tol(q), a, r.n.tol(q), e, (int)j, id);
  };

  for (const Op& op : p.ops) {
    rt::R->ops++;
    rt::R->cur_op++;
    if (op.name == "env") {
      Actor a;
      a.run_op(op);
    } else if (op.name == "group" && !have) {
      Op o2 = op;
      o2.set("kind", MPC);
      d = dims_of(o2);
      have = true;
      int n = 2 + (int)(op.get("more") % 3);
      rep.resize(n);
      for (int i = 0; i < n; i++) {
        rep[i].n.opts = op.get("cfg") != 0;
        rep[i].n.raw = tight(op);
        rep[i].n.start(d, i == 0 ? MPC : i == 1 ? DENSE : (int)((op.get("mask") >> i) & 1), (int)(op.get("ctor") & 1),
                       2000 + ++incarnation);
        rep[i].warm.resize(d);
        rep[i].durable = rep[i].older = rep[i].warm;
      }
      flavour = (int)op.get("flav");
    } else if (!have) {
      continue;
    } else if (op.name == "entry") {
      log.push_back(make_problem(d, (int)op.get("fam"), (uint64_t)op.get("pseed")));
    } else if (op.name == "deliver") {
      int id = (int)(op.get("r") % (int64_t)rep.size());
      for (int64_t k = 0; k <= op.get("n") && rep[id].next < log.size(); k++) process(id, rep[id].next++);
    } else if (op.name == "dup") {
      int id = (int)(op.get("r") % (int64_t)rep.size());
      if (rep[id].next > 0) {
        fired(rt::F_NET_DUPLICATE);
        size_t back = (size_t)op.get("back") % rep[id].next;
        process(id, rep[id].next - 1 - back);
      }
    } else if (op.name == "crash") {
      int id = (int)(op.get("r") % (int64_t)rep.size());
      Replica& r = rep[id];
      fired(rt::F_NODE_CRASH);
      r.n.stop();
      switch (op.get("disk") % 4) {
        case 0: r.warm = r.durable; break;
        case 1: r.warm = r.older; fired(rt::F_DISK_STALE); break;
        case 2: r.warm.resize(d); fired(rt::F_DISK_LOST); break;
        default: {
          fired(rt::F_DISK_TORN);
          r.warm = r.older;
          size_t cut = r.warm.z.size() * (size_t)(op.get("cut") % 9) / 9;
          for (size_t i = 0; i < cut; i++) r.warm.z[i] = r.durable.z[i];
        }
      }
      r.durable = r.warm;
      r.n.start(d, r.n.kind, (int)(op.get("ctor") & 1), 2000 + ++incarnation);
      fired(rt::F_SOLVER_RECREATED);
      ev("crash %d", id);
      rt::state_mix(7777 + id);
    }
  }
  // Everyone catches up.
  for (size_t i = 0; i < rep.size(); i++)
    while (rep[i].next < log.size()) process((int)i, rep[i].next++);
  for (auto& r : rep) r.n.stop();
  rt::heap_check("at the end");
}

// ---- C16 -----------------------------------------------------------------------------
namespace {
struct Plant {
  int nx = 1, nu = 1, N = 3;
  std::vector<Vec> A, B;  // rows
  Vec umax;
  Vec ulim;               // limits in force (derated actuators)
  Vec xs, us;             // target and the input that holds it
  std::vector<Vec> P;     // Lyapunov cost-to-go with zero input
  Vec q, r;
  double lam = 0;         // guaranteed decrease per step
};
Plant make_plant(const Op& op) {
  Plant p;
  p.nx = 1 + (int)std::min<int64_t>(op.get("nx"), 5);
  p.nu = 1 + (int)std::min<int64_t>(op.get("nu"), 2);
  p.N = 1 + (int)std::min<int64_t>(op.get("N"), 14);
  Rng g((uint64_t)op.get("pseed"), 1600);
  int n = p.nx;
  p.A.assign(n, Vec(n));
  p.B.assign(n, Vec(p.nu));
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < n; j++) p.A[i][j] = (i == j ? g.uni(0.2, 1) : 0) + g.uni(-0.6, 0.6);
    for (int j = 0; j < p.nu; j++) p.B[i][j] = g.uni(-1, 1);
  }
  // Scale to spectral radius at most rho: Gelfand's formula on a power.
  double rho = g.uni(0.3, 0.95);
  std::vector<Vec> M = p.A;
  double lg = 0;
  for (int k = 0; k < 6; k++) {  // M = A^(2^k), normalised
    std::vector<Vec> S(n, Vec(n, 0));
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        for (int l = 0; l < n; l++) S[i][j] += M[i][l] * M[l][j];
    double m = 1e-300;
    for (auto& row : S)
      for (double t : row) m = std::max(m, std::fabs(t));
    lg = 2 * lg + std::log(m);
    for (auto& row : S)
      for (double& t : row) t /= m;
    M = S;
  }
  double rad = std::exp((lg + std::log((double)n)) / 64.0);
  for (auto& row : p.A)
    for (double& t : row) t *= rho / rad;
  p.umax.resize(p.nu);
  for (double& t : p.umax) t = g.uni(0.1, 1.5);
  p.q.resize(n);
  for (double& t : p.q) t = g.uni(0.5, 3);
  p.r.resize(p.nu);
  for (double& t : p.r) t = g.uni(0.1, 2);
  // P = sum (A')^k Q A^k
  p.P.assign(n, Vec(n, 0));
  std::vector<Vec> T(n, Vec(n, 0));
  for (int i = 0; i < n; i++) T[i][i] = p.q[i];
  for (int k = 0; k < 4000; k++) {
    double m = 0;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        p.P[i][j] += T[i][j];
        m = std::max(m, std::fabs(T[i][j]));
      }
    if (m < 1e-14) break;
    std::vector<Vec> U(n, Vec(n, 0)), W(n, Vec(n, 0));
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        for (int l = 0; l < n; l++) U[i][j] += T[i][l] * p.A[l][j];
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        for (int l = 0; l < n; l++) W[i][j] += p.A[l][i] * U[l][j];
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) T[i][j] = 0.5 * (W[i][j] + W[j][i]);
  }
  double qmin = 1e300, tr = 0;
  for (int i = 0; i < n; i++) {
    qmin = std::min(qmin, p.q[i]);
    tr += p.P[i][i];  // at least the largest eigenvalue
  }
  p.lam = qmin / tr;
  p.ulim = p.umax;
  p.xs.assign(n, 0);
  p.us.assign(p.nu, 0);
  return p;
}
// A reachable steady state, no further than 5 from the origin.
void set_target(Plant* p, uint64_t seed) {
  Rng g(seed, 1603);
  int n = p->nx;
  std::vector<Vec> M(n, Vec(n + 1, 0));
  for (int j = 0; j < p->nu; j++) p->us[j] = g.chance(0.2) ? 0 : g.uni(-0.9, 0.9) * p->umax[j];
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < n; j++) M[i][j] = (i == j) - p->A[i][j];
    for (int j = 0; j < p->nu; j++) M[i][n] += p->B[i][j] * p->us[j];
  }
  for (int k = 0; k < n; k++) {
    int b = k;
    for (int i = k; i < n; i++)
      if (std::fabs(M[i][k]) > std::fabs(M[b][k])) b = i;
    std::swap(M[k], M[b]);
    for (int i = 0; i < n; i++) {
      if (i == k) continue;
      double t = M[i][k] / M[k][k];
      for (int j = k; j <= n; j++) M[i][j] -= t * M[k][j];
    }
  }
  double m = 0;
  for (int i = 0; i < n; i++) m = std::max(m, std::fabs(p->xs[i] = M[i][n] / M[i][i]));
  double sc = m > 5 ? 5 / m : 1;
  for (double& t : p->xs) t *= sc;
  for (double& t : p->us) t *= sc;
}
Problem control_problem(const Plant& pl, const Vec& x0) {
  Problem p;
  p.d = Dims::mpc(pl.N, pl.nx, pl.nu, 2 * pl.nu);
  p.fam = FAM_WELL;
  p.truth = T_WELLPOSED;
  for (int s = 0; s < NSEQ; s++) {
    SeqShape sh = seq_shape(p.d, s);
    p.seq[s].assign((size_t)sh.len * sh.rows * sh.cols, 0);
  }
  auto el = [&](int s, int i, int r, int c) -> double& {
    SeqShape sh = seq_shape(p.d, s);
    return p.seq[s][(size_t)i * sh.rows * sh.cols + (size_t)c * sh.rows + r];
  };
  for (int i = 0; i <= pl.N; i++) {
    for (int r = 0; r < pl.nx; r++)
      for (int c = 0; c < pl.nx; c++) {
        if (i == pl.N) el(SQ, i, r, c) = pl.P[r][c];
        else if (r == c) el(SQ, i, r, c) = pl.q[r];
        if (i < pl.N) el(SA, i, r, c) = pl.A[r][c];
      }
    for (int r = 0; r < pl.nu; r++) {
      el(SR, i, r, r) = pl.r[r];
      el(SL, i, 2 * r, r) = 1;
      el(SL, i, 2 * r + 1, r) = -1;
      el(Sd, i, 2 * r, 0) = el(Sd, i, 2 * r + 1, 0) = -pl.ulim[r];
      el(Sr, i, r, 0) = -pl.r[r] * pl.us[r];
    }
    for (int r = 0; r < pl.nx; r++) {
      double t = 0;
      if (i == pl.N)
        for (int c = 0; c < pl.nx; c++) t += pl.P[r][c] * pl.xs[c];
      else
        t = pl.q[r] * pl.xs[r];
      el(Sq, i, r, 0) = -t;
    }
    if (i < pl.N)
      for (int r = 0; r < pl.nx; r++)
        for (int c = 0; c < pl.nu; c++) el(SB, i, r, c) = pl.B[r][c];
  }
  p.x0 = x0;
  p.densify();
  return p;
}
double maxabs(const Vec& a) {
  double m = 0;
  for (double t : a) m = std::max(m, std::fabs(t));
  return m;
}
// Cost of a plan, measured from the target.
LD cost_of(const Problem& p, const Plant& pl, Vec z) {
  LD s = 0;
  int n = p.d.nz, st = pl.nx + pl.nu;
  for (int k = 0; k <= pl.N; k++) {
    for (int i = 0; i < pl.nx; i++) z[(size_t)k * st + i] -= pl.xs[i];
    for (int i = 0; i < pl.nu; i++) z[(size_t)k * st + pl.nx + i] -= pl.us[i];
  }
  for (int j = 0; j < n; j++) {
    LD t = 0;
    for (int i = 0; i < n; i++) t += 0.5L * p.H[(size_t)j * n + i] * z[i];
    s += t * z[j];
  }
  return s;
}
}  // namespace

void run_loop_world(const Plan& p) {
  Plant pl;
  Dims d;
  bool have = false;
  Vec x;
  Rng noise(p.seed ^ 0x1234, 99);
  Node ctl[2];  // primary (MPC front end) and backup (dense front end)
  Point warm[2], disk[2], disk_old[2];
  int active = 0, incarnation = 0, flavour = 0;
  bool both = false;
  int64_t tick = 0, recover = 0;
  struct Msg {
    int64_t due;
    int64_t seq;
    bool meas;
    Vec data;  // state, or the whole input plan
    bool bad = false;
  };
  std::vector<Msg> net;
  int64_t seen_meas = -1, seen_cmd = -1, plan_from = 0;
  Vec plan;          // inputs, nu per step
  int64_t partition_until = -1;
  bool recovering = false, excused = false;
  int misses = 0;
  int good_ticks = 0;
  LD prev_cost = -1, prev_stage = 0;

  auto u_at = [&](int64_t k) {
    Vec u(pl.nu, 0);
    if (!plan.empty() && k >= 0 && (size_t)((k + 1) * pl.nu) <= plan.size())
      for (int i = 0; i < pl.nu; i++)  // the actuator saturates
        u[i] = std::max(-pl.ulim[i], std::min(pl.ulim[i], plan[k * pl.nu + i]));
    return u;
  };
  // How many of eight neighbouring measurements, given to the same controller
  // with the same warm start, also end without a certified plan?
  auto siblings = [&](int who, const Vec& meas) {
    int bad = 0;
    Rng g((uint64_t)tick, 1602);
    double sc = 0.1;
    for (double t : meas) sc = std::max(sc, std::fabs(t));
    for (int k = 0; k < 8; k++) {
      Vec m2 = meas;
      for (double& t : m2) t += 0.2 * sc * g.uni(-1, 1);
      Problem q = control_problem(pl, m2);
      Reply r = ctl[who].solve(q, warm[who], 0);
      LD nrm;
      bool ok = r.thrown == X_NONE && r.out.eflag == SUCCESS &&
                certified(q, r, ctl[who].tol(q), model_sanitize(ctl[who].opts ? ctl[who].raw : stock(ctl[who].kind, 0)).alpha, &nrm);
      bad += !ok;
    }
    ev("siblings: %d", bad);
    rt::metric(4, bad);
    return bad;
  };
  auto decide = [&](int who, const Msg& m) {
    Problem q = control_problem(pl, m.data);
    bool moderate_in = true;
    for (double t : m.data) moderate_in = moderate_in && std::fabs(t) < 1e4;
    Reply r = ctl[who].solve(q, warm[who], flavour++);
    ev("tick %lld controller %d |state| %.3g |warm| %.3g -> %s newton %d", (long long)tick, who, maxabs(m.data), warm[who].maxabs(),
       flag_of(r), r.out.newton);
    if (!r.x.z.empty()) rt::ev_bits(r.x.z.data(), r.x.z.size() * 8);
    rt::state_mix(who * 100 + r.thrown * 10 + r.out.eflag + 1000 * std::min(r.out.newton, 9));
    bool ok = r.thrown == X_NONE && r.out.eflag == SUCCESS;
    double tol = q.finite() ? ctl[who].tol(q) : 0;
    if (ok) {
      probe(rt::P_SUCCESS);
      LD nrm = 0;
      if (!q.finite() || !r.x.finite())
        violate("false-success", "tick %lld: Success for a non-finite measurement or plan", (long long)tick);
      Opts e = model_sanitize(ctl[who].opts ? ctl[who].raw : stock(ctl[who].kind, 0));
      if (!certified(q, r, tol, e.alpha, &nrm) && siblings(who, m.data) >= 2)
        violate("false-success", "tick %lld: Success with KKT residual %.3Lg, tolerance %.3g", (long long)tick, nrm, tol);
      probe(rt::P_CERTIFIED_STEP);
      for (int k = 0; k <= pl.N; k++)
        for (int i = 0; i < pl.nu; i++) {
          double u = r.x.z[(size_t)k * (pl.nx + pl.nu) + pl.nx + i];
          if (!(std::fabs(u) <= pl.ulim[i] + 4 * tol / e.alpha + 1e-12))
            violate("limit", "tick %lld: planned input %.9g exceeds limit %.9g (tolerance %.3g)", (long long)tick, u, pl.ulim[i], tol);
        }
    } else {
      // An honest refusal must have a reason.
      bool reason = !moderate_in || !moderate(warm[who], 1e3);
      if (r.thrown == X_NONE && r.out.eflag >= PINF && !reason)
        violate("false-infeasible", "tick %lld: %s for a problem that is always feasible", (long long)tick, flag_of(r));
      if (!reason && siblings(who, m.data) >= 2)
        violate("no-plan", "tick %lld: %s %s from a moderate state (%g) and warm start (%g)", (long long)tick, flag_of(r),
                r.what.c_str(), q.x0.empty() ? 0.0 : q.x0[0], warm[who].maxabs());
    }
    if (ok && recovering && who == active) {
      // Optimal cost decreases by the stage cost: zero input is always
      // admissible and the terminal weight pays for it.
      LD c = cost_of(q, pl, r.x.z);
      if (prev_cost >= 0) {
        LD slack = 1e3L * tol * (1 + sqrtl(fabsl(prev_cost)) + fabsl(prev_cost)) + 1e-9L;
        rt::metric(1, (double)((c - (prev_cost - prev_stage)) / slack));
        if (!(c <= prev_cost - prev_stage + slack))
          violate("not-decreasing", "tick %lld: plan cost %.9Lg after %.9Lg, stage cost %.9Lg", (long long)tick, c, prev_cost,
                  prev_stage);
      }
      prev_cost = c;
      prev_stage = 0;
      for (int i = 0; i < pl.nx; i++) prev_stage += 0.5L * pl.q[i] * (m.data[i] - pl.xs[i]) * (m.data[i] - pl.xs[i]);
      for (int i = 0; i < pl.nu; i++) {
        LD u = r.x.z[pl.nx + i] - pl.us[i];
        prev_stage += 0.5L * pl.r[i] * u * u;
      }
    }
    if (ok) {
      warm[who] = r.x;
    } else {
      warm[who].resize(d);
    }
    return r;
  };
  auto store = [&](int who, const Op* f) {
    int64_t k = f ? f->get("wr") % 5 : 0;
    Point w = warm[who];
    switch (k) {
      case 1: fired(rt::F_DISK_LOST); return;  // the write never reached the medium
      case 2: {                                 // torn: only a prefix is new
        fired(rt::F_DISK_TORN);
        Point t = disk[who];
        size_t cut = w.z.size() * (size_t)(f->get("cut") % 9) / 9;
        for (size_t i = 0; i < cut; i++) t.z[i] = w.z[i];
        if (f->get("cut") & 1) t.v = w.v;
        if (f->get("cut") & 2) t.y = w.y;
        disk_old[who] = disk[who];
        disk[who] = t;
        return;
      }
      case 3: {  // bit rot
        fired(rt::F_MSG_CORRUPT);
        disk_old[who] = disk[who];
        disk[who] = w;
        Rng g((uint64_t)f->get("cut"), 5);
        Point& w2 = disk[who];
        Vec* parts[4] = {&w2.z, &w2.v, &w2.y, &w2.l};
        Vec& t = *parts[g.in(0, 3)];
        uint64_t b;
        double& y = t[g.in(0, (int64_t)t.size() - 1)];
        memcpy(&b, &y, 8);
        b ^= 1ull << g.in(40, 63);
        memcpy(&y, &b, 8);
        return;
      }
      default:
        disk_old[who] = disk[who];
        disk[who] = w;
    }
  };
  auto step = [&](const Op* f) {
    tick++;
    rt::advance(10000000);
    int64_t now = tick;
    if (f && f->get("part")) {
      partition_until = now + f->get("part") % 12;
      fired(rt::F_NET_PARTITION);
    }
    bool cut = now <= partition_until && !recovering;
    if (f && f->get("crash")) {
      int who = active;
      fired(rt::F_NODE_CRASH);
      ctl[who].stop();
      switch ((f->get("crash") - 1) % 4) {
        case 0: warm[who] = disk[who]; break;
        case 1: warm[who] = disk_old[who]; fired(rt::F_DISK_STALE); break;
        case 2: warm[who].resize(d); fired(rt::F_DISK_LOST); break;
        default: {
          Rng g((uint64_t)now * 77 + p.seed, 3);
          for (Vec* w : {&warm[who].z, &warm[who].l, &warm[who].v})
            for (double& t : *w) t = g.chance(0.2) ? NAN : g.logu(1e-3, 1e200) * g.uni(-1, 1);
          fired(rt::F_CORRUPT_GUESS);
        }
      }
      ctl[who].start(d, ctl[who].kind, (int)(now & 1), 3000 + ++incarnation);
      fired(rt::F_SOLVER_RECREATED);
      if (f->get("fail")) {
        active = 1 - active;
        prev_cost = -1;
      }
    }
    if (f && f->get("alien")) {
      // the same object is borrowed for somebody else's problem
      Problem q = make_problem(d, (int)(f->get("alien") - 1), (uint64_t)f->get("cut") + 5);
      Point z;
      z.resize(d);
      fired(rt::F_FOREIGN_SOLVE);
      Reply r = ctl[active].solve(q, z, flavour++);
      ev("alien -> %s", flag_of(r));
    }
    if (f && f->get("tgt")) set_target(&pl, (uint64_t)f->get("tgt"));
    if (f && f->get("lim")) {
      fired(rt::F_DERATED);
      for (int i = 0; i < pl.nu; i++) pl.ulim[i] = pl.umax[i] * (double)(1 + (f->get("lim") * (i + 1)) % 24) / 20;
    }
    // sensor
    Msg m;
    m.seq = now;
    m.meas = true;
    m.data = x;
    int64_t delay = f ? f->get("md") % 6 : 0;
    bool drop = (f && f->get("mx")) || cut;
    m.due = now + delay;
    if (delay) fired(rt::F_NET_DELAY);
    if (f && f->get("mc")) {
      fired(rt::F_MSG_CORRUPT);
      Rng g((uint64_t)f->get("mc"), 8);
      double& y = m.data[g.in(0, pl.nx - 1)];
      switch (g.in(0, 4)) {
        case 0: y = NAN; break;
        case 1: y = INFINITY; break;
        case 2: y = 1e300; break;
        case 3: y = -1e12; break;
        default: y = -100 * y - 50; break;
      }
      m.bad = true;
    }
    if (drop) fired(rt::F_NET_DROP);
    else net.push_back(m);
    if (f && f->get("mu") && !drop) {
      Msg c = m;
      c.due += f->get("mu") % 4;
      net.push_back(c);
      fired(rt::F_NET_DUPLICATE);
    }
    // controller
    bool stalled = f && f->get("stall");
    if (stalled) fired(rt::F_STALLED_NODE);
    bool decided = false;
    if (!stalled) {
      int best = -1;
      for (size_t i = 0; i < net.size(); i++)
        if (net[i].meas && net[i].due <= now) {
          if (net[i].seq <= seen_meas) {
            fired(rt::F_NET_REORDER);
            continue;
          }
          if (best < 0 || net[i].seq > net[best].seq) best = (int)i;
        }
      if (best >= 0) {
        Msg got = net[best];
        seen_meas = got.seq;
        Reply r = decide(active, got);
        if (both) {
          Reply r2 = decide(1 - active, got);
          (void)r2;
        }
        decided = true;
        bool ok = r.thrown == X_NONE && r.out.eflag == SUCCESS;
        misses = recovering && !ok ? misses + 1 : 0;
        if (misses) excused = true;
        if (misses >= 2)
          violate("not-recovered", "tick %lld: faults have stopped and the controller ends with %s", (long long)tick, flag_of(r));
        if (ok) {
          store(active, f);
          Msg c;
          c.seq = got.seq;
          c.meas = false;
          for (int k = 0; k <= pl.N; k++)
            for (int i = 0; i < pl.nu; i++) c.data.push_back(r.x.z[(size_t)k * (pl.nx + pl.nu) + pl.nx + i]);
          c.bad = got.bad;
          c.due = now + (f ? f->get("cd") % 6 : 0);
          bool cdrop = (f && f->get("cx")) || cut;
          if (f && f->get("cd") % 6) fired(rt::F_NET_DELAY);
          if (cdrop) fired(rt::F_NET_DROP);
          else net.push_back(c);
        }
      }
      net.erase(std::remove_if(net.begin(), net.end(), [&](const Msg& a) { return a.meas && a.due <= now; }), net.end());
    }
    // actuator
    for (auto& a : net)
      if (!a.meas && a.due <= now && a.seq > seen_cmd) {
        seen_cmd = a.seq;
        plan = a.data;
        plan_from = a.seq;
      }
    net.erase(std::remove_if(net.begin(), net.end(), [&](const Msg& a) { return !a.meas && a.due <= now; }), net.end());
    Vec u = u_at(now - plan_from);
    Vec xn(pl.nx, 0);
    for (int i = 0; i < pl.nx; i++) {
      for (int j = 0; j < pl.nx; j++) xn[i] += pl.A[i][j] * x[j];
      for (int j = 0; j < pl.nu; j++) xn[i] += pl.B[i][j] * u[j];
    }
    if (f && f->get("dist")) {
      fired(rt::F_DISTURBANCE);
      Rng g((uint64_t)f->get("dist"), 21);
      for (double& t : xn) t += g.uni(-2, 2);
    }
    x = xn;
    rt::ev_bits(x.data(), x.size() * 8);
    return decided;
  };

  for (const Op& op : p.ops) {
    rt::R->ops++;
    rt::R->cur_op++;
    if (op.name == "env") {
      Actor a;
      a.run_op(op);
    } else if (op.name == "plant" && !have) {
      pl = make_plant(op);
      d = Dims::mpc(pl.N, pl.nx, pl.nu, 2 * pl.nu);
      have = true;
      Rng g((uint64_t)op.get("pseed"), 1601);
      x.resize(pl.nx);
      for (double& t : x) t = g.uni(-6, 6);
      if (op.get("tgt")) set_target(&pl, (uint64_t)op.get("tgt"));
      for (int k = 0; k < 2; k++) {
        ctl[k].opts = op.get("cfg") != 0;
        ctl[k].raw = tight(op);
        ctl[k].start(d, k == 0 ? MPC : DENSE, (int)(op.get("ctor") & 1), 3000 + ++incarnation);
        warm[k].resize(d);
        disk[k] = disk_old[k] = warm[k];
      }
      active = (int)(op.get("act") & 1);
      both = op.get("both") != 0;
      flavour = (int)op.get("flav");
    } else if (!have) {
      continue;
    } else if (op.name == "tick") {
      step(&op);
    } else if (op.name == "run") {
      for (int64_t k = 0; k <= op.get("n") % 64; k++) step(nullptr);
    } else if (op.name == "recover") {
      recover = std::min<int64_t>(1 + op.get("n"), 200);
    }
  }
  if (!have) return;
  // Faults stop.
  partition_until = -1;
  net.clear();
  pl.ulim = pl.umax;
  seen_cmd = seen_meas = tick;
  // A corrupted warm start may cost one refused step.
  if (recover) {
    step(nullptr);
    recovering = true;
    prev_cost = -1;
    LD v0 = -1;
    LD bound = 0;
    for (int64_t k = 0; k < recover; k++) {
      LD v = 0;
      for (int i = 0; i < pl.nx; i++)
        for (int j = 0; j < pl.nx; j++) v += (LD)pl.P[i][j] * (x[i] - pl.xs[i]) * (x[j] - pl.xs[j]);
      if (v0 < 0) v0 = bound = v;
      bool dec = step(nullptr);
      if (!dec) violate("no-plan", "tick %lld: no decision although nothing was lost", (long long)tick);
      good_ticks++;
    }
    // x'Qx <= V <= (1-lambda)^k x0'P x0 along the fault-free run.
    LD left = 0;
    for (int i = 0; i < pl.nx; i++) left += (LD)pl.q[i] * (x[i] - pl.xs[i]) * (x[i] - pl.xs[i]);
    bound *= powl(1 - pl.lam, (LD)recover);
    double tol = 1e-3;
    probe(rt::P_REGULATED);
    rt::metric(2, (double)(left / (bound * 1.01L + tol)));
    if (!excused && !(left <= bound * 1.01L + tol))
      violate("not-regulated", "%lld fault-free steps leave x'Qx = %.6Lg, the guaranteed bound is %.6Lg", (long long)recover, left,
              bound);
  }
  for (auto& c : ctl) c.stop();
  rt::heap_check("at the end");
}
