// Plan text, options model, problems and guesses named by a plan.
#include <climits>
#include <cmath>
#include <cstdio>
#include <limits>
#include <sstream>

#include "exec.h"

std::string Plan::text() const {
  std::ostringstream o;
  o << "plan " << prop << " seed " << seed << " index " << index << "\n";
  for (const Op& op : ops) {
    o << "op " << op.name;
    for (auto& kv : op.a) o << " " << kv.first << "=" << kv.second;
    o << "\n";
  }
  for (auto& e : sched) o << "switch " << e.gap << " " << e.pick << "\n";
  o << "end\n";
  return o.str();
}
bool Plan::parse(const std::string& s) {
  std::istringstream in(s);
  std::string line;
  bool ended = false;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string w;
    if (!(l >> w)) continue;
    if (w[0] == '#') continue;
    if (w == "plan") {
      std::string x;
      l >> prop >> x >> seed >> x >> index;
    } else if (w == "op") {
      Op op;
      l >> op.name;
      while (l >> w) {
        size_t e = w.find('=');
        if (e == std::string::npos) return false;
        op.a[w.substr(0, e)] = atoll(w.c_str() + e + 1);
      }
      ops.push_back(op);
    } else if (w == "switch") {
      rt::SchedEntry e;
      l >> e.gap >> e.pick;
      sched.push_back(e);
    } else if (w == "end") {
      ended = true;
      break;
    }
  }
  return ended && !prop.empty();
}

// ---- options ------------------------------------------------------------------------
double code_value(int64_t c) {
  switch (c) {
    case 1000: return 0.0;
    case 1001: return -1.0;
    case 1002: return std::numeric_limits<double>::infinity();
    case 1003: return -std::numeric_limits<double>::infinity();
    case 1004: return 1e300;
    case 1005: return -1e300;
    case 1006: return 5e-324;
    case 1007: return -0.0;
    case 1008: return 0.999;
    case 1009: return 0.5;
    default: return std::pow(10.0, (double)(c - 400) / 4.0);
  }
}
int64_t value_code(double v) { return 400 + (int64_t)std::lround(4 * std::log10(v)); }

// As a fresh process hands them out: read once, before anything else has run.
Opts stock(int kind, int base) {
  static bool have = false;
  static Opts table[2][3];
  if (!have) {
    for (int k = 0; k < 2; k++)
      for (int b = 0; b < 3; b++) sut_stock_options(k, b, &table[k][b]);
    have = true;
  }
  return table[kind == MPC ? 1 : 0][base % 3];
}
void apply_overrides(Opts* o, const Op& op) {
  char k[8];
  for (int i = 0; i < N_OPT_D; i++) {
    snprintf(k, sizeof k, "d%d", i);
    if (op.has(k)) opt_d(o)[i] = code_value(op.get(k));
  }
  for (int i = 0; i < N_OPT_I; i++) {
    snprintf(k, sizeof k, "i%d", i);
    if (op.has(k)) {
      int64_t v = op.get(k) - INT_OFF;
      opt_i(o)[i] = v > INT_MAX ? INT_MAX : v < INT_MIN ? INT_MIN : (int)v;
    }
  }
  if (op.has("cf")) o->check_feasibility = op.get("cf") == 2;
  if (op.has("nm")) o->nonmonotone_linesearch = op.get("nm") == 2;
  if (op.has("disp")) o->display = (int)op.get("disp") - 1;
}
static double sat(double x, double lo, double hi) { return x < lo ? lo : x > hi ? hi : x; }
Opts model_sanitize(const Opts& in) {
  Opts o = in;
  o.sigma_max = sat(o.sigma_max, 1e-6, 1e2);
  o.sigma_min = sat(o.sigma_min, 1e-13, 1e-8);
  o.sigma0 = sat(o.sigma0 < 1e-10 ? 1e-10 : o.sigma0, o.sigma_min, o.sigma_max);
  o.alpha = sat(o.alpha, 0.001, 0.999);
  o.beta = sat(o.beta, 0.1, 0.99);
  o.eta = sat(o.eta, 1e-12, 0.499);
  o.delta = sat(o.delta, 0.0001, 0.99);
  o.gamma = sat(o.gamma, 0.001, 0.9);
  const double inf = std::numeric_limits<double>::infinity();
  o.abs_tol = sat(o.abs_tol, 1e-14, inf);
  o.rel_tol = sat(o.rel_tol, 0.0, inf);
  o.stall_tol = sat(o.stall_tol, 1e-14, inf);
  o.infeas_tol = sat(o.infeas_tol, 1e-14, inf);
  o.inner_tol_max = sat(o.inner_tol_max, 1e-8, 1e2);
  o.inner_tol_min = sat(o.inner_tol_min, 1e-14, 1e-2);
  if (o.inner_tol_max < o.inner_tol_min) o.inner_tol_max = o.inner_tol_min;
  for (int i = 0; i < N_OPT_I; i++)
    if (opt_i(&o)[i] < 1) opt_i(&o)[i] = 1;
  return o;
}
double combo_tol(const Problem& p, const Opts& o) {
  long double t = (long double)o.abs_tol + (long double)o.rel_tol * (1.0L + p.forcing_norm());
  return (double)t;
}
std::string opts_text(const Opts& o) {
  std::string s;
  char b[64];
  for (int i = 0; i < N_OPT_D; i++) {
    snprintf(b, sizeof b, "%s=%g ", opt_d_names[i], opt_d(&o)[i]);
    s += b;
  }
  for (int i = 0; i < N_OPT_I; i++) {
    snprintf(b, sizeof b, "%s=%d ", opt_i_names[i], opt_i(&o)[i]);
    s += b;
  }
  snprintf(b, sizeof b, "cf=%d nm=%d disp=%d", o.check_feasibility, o.nonmonotone_linesearch,
           o.display);
  return s + b;
}

// ---- dimensions, problems, guesses -----------------------------------------------------
static int clampi(int64_t v, int lo, int hi) { return v < lo ? lo : v > hi ? hi : (int)v; }
Dims dims_of(const Op& op) {
  if (op.get("kind") == MPC)
    return Dims::mpc(1 + clampi(op.get("n1"), 0, 60), 1 + clampi(op.get("n2"), 0, 30),
                     1 + clampi(op.get("n3"), 0, 30), 1 + clampi(op.get("n4"), 0, 30));
  return Dims::dense(1 + clampi(op.get("n1"), 0, 120), clampi(op.get("n2"), 0, 120),
                     1 + clampi(op.get("n3"), 0, 200));
}
void put_dims(Op* op, const Dims& d) {
  if (d.kind == MPC) {
    op->set("kind", MPC).set("n1", d.N - 1).set("n2", d.nx - 1).set("n3", d.nu - 1).set("n4", d.nc - 1);
  } else {
    op->set("n1", d.nz - 1).set("n2", d.nl).set("n3", d.nv - 1);
  }
}
Problem problem_of(const Op& op, const Dims& d) {
  Problem p = make_problem(d, (int)op.get("fam"), (uint64_t)op.get("pseed"));
  if (op.get("corrupt")) {
    corrupt_problem(&p, (uint64_t)op.get("cwhere"), (int)op.get("corrupt") - 1);
    if (rt::cur) rt::fired(rt::F_CORRUPT_DATA);
  }
  return p;
}
std::string share_key(const Op& op, const Dims& d) {
  char b[160];
  snprintf(b, sizeof b, "%d %d %d %d %d %d %lld %lld %lld %lld %lld", d.kind, d.nz, d.nl, d.nv, d.nx,
           d.nu, (long long)op.get("fam"), (long long)op.get("pseed"), (long long)op.get("corrupt"),
           (long long)op.get("cwhere"), (long long)op.get("sd"));
  return b;
}
NewtonFault newton_fault_of(const Op& op) {
  NewtonFault f;
  f.kind = (int)op.get("nf");
  if (!f.kind) return f;
  f.at = 1 + (int)op.get("nat");
  f.n = 1 + (int)op.get("nn");
  f.mag = std::pow(10.0, (double)op.get("nmag") - 6.0);
  f.seed = (uint64_t)op.get("nseed");
  return f;
}

Point make_guess(const Op& op, const Dims& d, const Slot* s) {
  Point x;
  x.resize(d);
  int kind = (int)op.get("guess");
  Rng g((uint64_t)op.get("gseed"), 303);
  auto each = [&](std::initializer_list<Vec*> vs, std::function<double()> f) {
    for (Vec* v : vs)
      for (double& t : *v) t = f();
  };
  auto all = {&x.z, &x.l, &x.v};
  switch (kind) {
    case 0: break;
    case 1:
      each(all, [&] { return g.uni(-2, 2); });
      for (double& t : x.v) t = std::fabs(t);
      break;
    case 2:
      each(all, [&] { return g.uni(-2, 2); });
      for (double& t : x.v) t = -std::fabs(t);
      break;
    case 3: each(all, [&] { return g.uni(-1e3, 1e3); }); break;
    case 4: {
      double m = g.logu(1e6, 1e10);
      each(all, [&] { return g.uni(-1, 1) * m; });
      if (g.chance(0.3))
        for (double& t : x.v) t = m;
      break;
    }
    case 5:
    case 6:
      if (s && s->have_prev && s->prev.z.size() == x.z.size()) {
        x = s->prev;
        if (kind == 6) {
          double m = g.logu(1e-9, 1);
          each(all, [&] { return 0.0; });
          x = s->prev;
          for (Vec* v : all)
            for (double& t : *v) t += m * g.uni(-1, 1);
        }
        double m = x.maxabs();
        if (!(m < 1e300)) {
          x.resize(d);
        }
      }
      break;
    case 7:
    case 8: {
      each(all, [&] { return g.uni(-1, 1); });
      size_t n = x.z.size() + x.l.size() + x.v.size();
      int64_t k = g.in(0, (int64_t)n - 1);
      double bad = kind == 7 ? std::numeric_limits<double>::quiet_NaN()
                             : (g.chance(0.5) ? 1 : -1) * std::numeric_limits<double>::infinity();
      for (Vec* v : all) {
        if (k < (int64_t)v->size()) {
          (*v)[k] = bad;
          break;
        }
        k -= v->size();
      }
      break;
    }
    case 9: {
      double m = g.logu(1e100, 1e300);
      each(all, [&] { return g.uni(-1, 1) * m; });
      break;
    }
    case 10:
      for (double& t : x.v) t = g.chance(0.3) ? g.uni(0, 10) : 0;
      break;
    case 11: each({&x.z}, [&] { return g.uni(-10, 10); }); break;
    case 12: each(all, [&] { return g.uni(-1, 1) * 1e-310; }); break;
    default: break;
  }
  // The margin is an output; what the caller leaves there must not matter.
  switch (g.in(0, 3)) {
    case 0: break;
    case 1: for (double& t : x.y) t = 1.5; break;
    case 2: for (double& t : x.y) t = std::numeric_limits<double>::quiet_NaN(); break;
    default: for (double& t : x.y) t = -1e200; break;
  }
  return x;
}
bool moderate(const Point& x, double lim) {
  for (const Vec* w : {&x.z, &x.l, &x.v})
    for (double t : *w)
      if (!(std::fabs(t) <= lim)) return false;
  return true;
}
