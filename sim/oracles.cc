// What is checked after (and during) every simulated call.
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>

#include "exec.h"

using rt::probe;
using rt::violate;
typedef long double LD;

static const char* flag_name(int f) { return f >= 0 && f < 6 ? flag_names[f] : "?"; }

static double zscale_of(const SolveRec& s) {
  double m = 1;
  for (double t : s.guess.z) m = std::max(m, std::fabs(t));
  for (double t : s.r.x.z) m = std::max(m, std::fabs(t));
  return m;
}

// ---- prefix runs -------------------------------------------------------------------
bool prefix_iterate(const SolveRec& s, int k, Point* x, Out* out) {
  if (k <= 0) {
    *x = s.guess;
    return true;
  }
  Opts o = s.eff;
  o.max_prox_iters = k;
  o.check_feasibility = 0;  // earlier iterations of the real run passed it
  o.display = 0;
  if (s.slot && s.slot->seam) {
    Seam* m = nullptr;
    SutData* d = nullptr;
    SutVar* v = nullptr;
    SolveRec t = s;
    bool ok = !seam_new(s.p.d, 600, &m, nullptr) && !seam_update_options(m, o, nullptr) &&
              !sut_make_data(s.p, OWNED, 601, {}, &d, nullptr) &&
              !sut_make_var(s.p.d, OWNED, 601, s.guess, nullptr, &v, nullptr);
    if (ok) {
      int calls;
      bool faulted;
      seam_call(m, t, d, v, false, false, o.alpha, &t.r, &calls, &faulted);
      ok = t.r.thrown == X_NONE && t.r.out.eflag == MAXITER && t.r.out.prox == k;
      *x = t.r.x;
      *out = t.r.out;
    }
    sut_delete_var(v);
    sut_delete_data(d);
    seam_delete(m);
    return ok;
  }
  Request q;
  q.p = s.p;
  q.opts_set = true;
  q.opts = o;
  q.guess = s.guess;
  const Answer& a = ref_solve(q);
  if (a.r.thrown != X_NONE) return false;
  if (a.r.out.eflag != MAXITER || a.r.out.prox != k) return false;
  *x = a.r.x;
  *out = a.r.out;
  return true;
}

// ---- C01 -----------------------------------------------------------------------------
void oracle_cert(const SolveRec& s) {
  if (s.r.thrown != X_NONE || s.r.out.eflag != SUCCESS) return;
  const Point& x = s.r.x;
  if (!x.finite())
    violate("success-nonfinite", "Success but the returned point holds NaN or Inf");
  if (!std::isfinite(s.r.out.residual))
    violate("success-nonfinite", "Success with reported residual %g", s.r.out.residual);
  double tol = combo_tol(s.p, s.eff);
  Resid r = residual(s.p, x, s.eff.alpha, false, 0);
  probe(rt::P_KKT_CHECKED);
  rt::metric(0, (double)(r.norm / (tol * (1 + 1e-9) + r.slack)));
  bool by_tol = r.norm <= tol * (1 + 1e-9L) + r.slack;
  // Duals: a guess that is already optimal is handed back as it came.
  double vfloor = s.r.out.prox == 0 ? -tol / s.eff.alpha * (1 + 1e-9) : 0.0;
  if (!(r.vmin >= vfloor))
    violate("negative-dual", "Success with inequality dual %.6Lg after %d proximal iterations",
            r.vmin, s.r.out.prox);
  if (by_tol) return;
  // The only other licence is that the outer iterates stopped moving.
  if (s.r.out.prox == 0)
    violate("false-success", "Success on the initial guess with residual %.6Lg, tolerance %.6g",
            r.norm, tol);
  Point prev;
  Out o;
  if (!prefix_iterate(s, s.r.out.prox - 1, &prev, &o)) {
    // The run has no such iterate: it cannot have stalled there.
    violate("false-success", "Success with residual %.6Lg, tolerance %.6g, no previous iterate",
            r.norm, tol);
  }
  LD d2 = 0, mag = 0;
  for (auto pr : {std::make_pair(&x.z, &prev.z), std::make_pair(&x.l, &prev.l),
                  std::make_pair(&x.v, &prev.v)})
    for (size_t i = 0; i < pr.first->size(); i++) {
      LD t = (LD)(*pr.first)[i] - (*pr.second)[i];
      d2 += t * t;
      mag = std::max(mag, fabsl((LD)(*pr.first)[i]));
    }
  LD step = sqrtl(d2);
  probe(rt::P_STALL_EXIT);
  if (!(step <= s.eff.stall_tol * (1 + 1e-6L) + 1e-15L * mag))
    violate("false-success",
            "Success with residual %.6Lg > tolerance %.6g and last step %.6Lg > stall_tol %.6g",
            r.norm, tol, step, s.eff.stall_tol);
}

// ---- C02 ------------------------------------------------------------------------------
void oracle_report(const SolveRec& s) {
  if (s.r.thrown != X_NONE) return;
  const Out& o = s.r.out;
  const Opts& e = s.eff;
  if (o.newton < 0 || o.prox < 0 || o.newton > e.max_newton_iters || o.prox > e.max_prox_iters)
    violate("count-limit", "reported %d Newton (limit %d), %d proximal (limit %d) iterations",
            o.newton, e.max_newton_iters, o.prox, e.max_prox_iters);
  if (s.slot && s.slot->seam && o.newton != s.newton_calls)
    violate("count-wrong", "reported %d Newton iterations, %d Newton systems were solved", o.newton,
            s.newton_calls);
  if (o.eflag == MAXITER && o.newton < e.max_newton_iters && o.prox < e.max_prox_iters)
    violate("early-limit", "iteration limit reported after %d/%d Newton and %d/%d proximal",
            o.newton, e.max_newton_iters, o.prox, e.max_prox_iters);
  if (o.eflag == MAXITER) probe(o.newton >= e.max_newton_iters ? rt::P_MAXITER_BY_NEWTON : rt::P_MAXITER_BY_PROX);
  double zs = zscale_of(s);
  if (s.p.sane() && moderate(s.guess, 1e100)) {
    Resid g = residual(s.p, s.guess, e.alpha, false, 0);
    if (std::isfinite((double)g.norm) && g.norm < 1e140L) {
      LD dev = fabsl(g.norm - (LD)o.initial_residual);
      if (!(dev <= 1e-9L * g.norm + g.slack))
        violate("initial-residual", "reported initial residual %.17g, the guess has %.17Lg",
                o.initial_residual, g.norm);
    }
  }
  if (o.eflag != SUCCESS && o.eflag != MAXITER) return;
  if (!s.p.sane() || !moderate(s.r.x, 1e100)) return;
  Resid r = residual(s.p, s.r.x, e.alpha, true, 0);
  if (!(r.norm < 1e140L)) return;
  probe(rt::P_RESIDUAL_CHECKED);
  LD dev = fabsl(r.norm - (LD)o.residual);
  rt::metric(1, (double)(dev / (1e-9L * r.norm + r.slack)));
  if (!(dev <= 1e-9L * r.norm + r.slack))
    violate("residual-wrong", "%s reports residual %.17g, the returned point has %.17Lg",
            flag_name(o.eflag), o.residual, r.norm);
  {
    Resid m = residual(s.p, s.r.x, e.alpha, true, zs);
    LD lim = 1e-12L * (m.yscale + 1e-300L) * (s.p.d.nz + 2);
    rt::metric(2, (double)(m.ydev / lim));
    if (!(m.ydev <= lim))
      violate("margin-wrong", "returned margin differs from b - A z by %.6Lg (scale %.6Lg)", m.ydev,
              m.yscale);
  }
  if (o.eflag == MAXITER && o.newton >= e.max_newton_iters && o.prox < e.max_prox_iters) {
    Point xk;
    Out ok;
    if (o.prox == 0 || prefix_iterate(s, o.prox, &xk, &ok)) {
      if (o.prox == 0) xk = s.guess;
      if (moderate(xk, 1e100)) {
        Resid k = residual(s.p, xk, e.alpha, false, 0);
        probe(rt::P_PREFIX_CHECKED);
        if (!(r.norm <= k.norm * (1 + 1e-9L) + r.slack + k.slack))
          violate("worse-than-start",
                  "iteration limit: returned residual %.6Lg, the subproblem started from %.6Lg",
                  r.norm, k.norm);
      }
    }
  }
}

// ---- C03 ---------------------------------------------------------------------------------
void oracle_infeas(const SolveRec& s) {
  if (s.r.thrown != X_NONE) return;
  int f = s.r.out.eflag;
  if (f == DIVERGENCE || f < 0 || f > 5) violate("unknown-verdict", "verdict %d", f);
  if (f >= PINF) {
    if (!s.p.sane()) return;
    const double tol = s.eff.infeas_tol;
    Cert c = certificate(s.p, s.r.x);
    probe(rt::P_CERTIFICATE_CHECKED);
    if (f == PINF || f == PDINF) {
      if (!(c.u > 0))
        violate("bad-certificate", "%s with zero multipliers", flag_name(f));
      if (!(c.p1 <= tol * c.u * (1 + 1e-9L) + c.p1round))
        violate("bad-certificate", "%s: |A'v+G'l| = %.6Lg, allowed %.6Lg", flag_name(f), c.p1,
                tol * c.u);
      if (!(c.p2 <= 1e-13L * c.p2scale))
        violate("bad-certificate", "%s: b'v+h'l = %.6Lg is not negative", flag_name(f), c.p2);
      if (!(c.vmin >= -tol * c.u * (1 + 1e-9L)))
        violate("bad-certificate", "%s: certificate has dual %.6Lg (scale %.6Lg)", flag_name(f),
                c.vmin, c.u);
    }
    if (f == DINF || f == PDINF) {
      if (!(c.w > 0)) violate("bad-certificate", "%s with zero direction", flag_name(f));
      if (!(c.d1 <= tol * c.w * (1 + 1e-9L) + c.dround) ||
          !(c.d2 <= tol * c.w * (1 + 1e-9L) + c.dround) ||
          !(c.d3 <= tol * c.w * (1 + 1e-9L) + c.dround))
        violate("bad-certificate", "%s: max Az %.6Lg, |Gz| %.6Lg, |Hz| %.6Lg, allowed %.6Lg",
                flag_name(f), c.d1, c.d2, c.d3, tol * c.w);
      if (!(c.d4 <= 1e-13L * c.d4scale))
        violate("bad-certificate", "%s: f'z = %.6Lg is not negative", flag_name(f), c.d4);
    }
    if (s.newton_faulted) return;
    if (s.eff.infeas_tol > 1e-6) return;
    // Without strict convexity a solvable problem may lie within the tolerance
    // of an infeasible one; then the decisive product is negligible.
    bool within = s.p.truth == T_SOLVABLE && (f != DINF && f != PDINF ? true : fabsl(c.d4) <= 1e-4L * c.d4scale) &&
                  (f != PINF && f != PDINF ? true : fabsl(c.p2) <= 1e-4L * c.p2scale);
    if (within) return;
    if (s.p.truth == T_WELLPOSED || s.p.truth == T_SOLVABLE)
      violate("false-infeasible", "%s reported for a solvable problem (family %s, from |guess| %g; f'z %.3Lg of %.3Lg, b'v+h'l %.3Lg of %.3Lg)",
              flag_name(f), fam_names[s.p.fam], s.guess.maxabs(), c.d4, c.d4scale, c.p2, c.p2scale);
    if (s.p.truth == T_PRIMAL_INF && f == DINF)
      violate("wrong-infeasible", "DualInfeasible reported for a problem that is only primal infeasible");
    if (s.p.truth == T_DUAL_INF && f == PINF)
      violate("wrong-infeasible", "PrimalInfeasible reported for a problem that is only unbounded");
    return;
  }
  if (f == SUCCESS && (s.p.truth == T_PRIMAL_INF || s.p.truth == T_DUAL_INF || s.p.truth == T_BOTH_INF)) {
    if (s.newton_faulted || combo_tol(s.p, s.eff) > 1e-3 || s.eff.stall_tol > 1e-6) return;
    if (!moderate(s.r.x, 1e8) || !moderate(s.guess, 1e8)) return;
    violate("solved-infeasible", "Success reported for an infeasible or unbounded problem (%s)",
            fam_names[s.p.fam]);
  }
}

// ---- C04 ----------------------------------------------------------------------------------
int64_t step_bound(const Dims& d, const Opts& o) {
  double n = d.nz + d.nl + d.nv + 4;
  double fac = 40 * n * n * n + 4000 * n * n + 200000;
  double ev = 40 * n * n + 4000 * n + 20000;
  double b = (o.max_newton_iters + 1.0) * (fac + (o.max_linesearch_iters + 4.0) * ev) +
             (o.max_prox_iters + 2.0) * 8 * ev;
  if (b > 4e9) b = 4e9;
  return (int64_t)b;
}
// No iterative method in floating point solves every instance of a family, so a
// single miss is not evidence; the same object then gets eight other instances.
static bool good_end(const Problem& p, const Reply& r) {
  if (r.thrown != X_NONE) return false;
  int f = r.out.eflag;
  switch (p.truth) {
    case T_WELLPOSED: return f == SUCCESS;
    case T_PRIMAL_INF: return f == PINF || f == PDINF;
    case T_DUAL_INF: return f == DINF || f == PDINF;
    case T_BOTH_INF: return f >= PINF;
    default: return true;
  }
}
static int failing_siblings(const SolveRec& s) {
  int bad = 0;
  for (uint64_t k = 1; k <= 8; k++) {
    SolveRec t = s;
    t.p = make_problem(s.p.d, s.p.fam, s.p.seed + 7919 * k);
    if (t.p.truth != s.p.truth) continue;
    t.nf = NewtonFault();
    t.newton_calls = 0;
    t.newton_faulted = false;
    t.r = Reply();
    SutData* d = nullptr;
    SutVar* v = nullptr;
    rt::op_begin(rt::OpFaults());
    if (sut_make_data(t.p, OWNED, 950, {}, &d, nullptr) || sut_make_var(t.p.d, OWNED, 951, t.guess, nullptr, &v, nullptr))
      violate("container-failed", "building problem data or variables failed");
    rt::set_step_limit(step_bound(t.p.d, t.eff));
    rt::op_begin(rt::OpFaults());
    if (s.slot->seam) seam_call(s.slot->m, t, d, v, false, false, t.eff.alpha, &t.r, &t.newton_calls, &t.newton_faulted);
    else sut_solve(s.slot->s, d, v, ST_CUSTOM, &t.r);
    rt::op_end();
    rt::set_step_limit(INT64_MAX / 4);
    rt::op_begin(rt::OpFaults());
    sut_delete_var(v);
    sut_delete_data(d);
    rt::op_end();
    rt::ev("sibling %d -> %s", (int)k, t.r.thrown ? thrown_names[t.r.thrown] : flag_name(t.r.out.eflag));
    bad += !good_end(t.p, t.r);
  }
  return bad;
}
void oracle_progress(const SolveRec& s) {
  const Out& o = s.r.out;
  const Opts& e = s.eff;
  if (s.r.thrown == X_NONE) {
    if (o.newton > e.max_newton_iters || o.prox > e.max_prox_iters)
      violate("budget", "%d Newton (limit %d), %d proximal (limit %d) iterations", o.newton,
              e.max_newton_iters, o.prox, e.max_prox_iters);
    if (o.newton > (int64_t)e.max_inner_iters * ((int64_t)o.prox + 1))
      violate("budget", "%d Newton iterations in %d subproblems of at most %d", o.newton, o.prox + 1,
              e.max_inner_iters);
  }
  if (s.slot && s.slot->seam && s.newton_calls > e.max_newton_iters)
    violate("budget", "%d Newton systems solved, limit %d", s.newton_calls, e.max_newton_iters);
  // Step lengths seen at the detailed level are beta^j, j at most the limit.
  if (e.display == 3) {
    int inner = -1;
    for (auto& pr : s.c.prints_at) {
      int i;
      double t;
      if (!strncmp(pr.second.c_str(), "Begin Prox", 10)) inner = -1;
      if (sscanf(pr.second.c_str(), " %d%*[ ]%le", &i, &t) == 2) {
        inner++;
        if (inner >= e.max_inner_iters)
          violate("budget", "inner iteration %d, limit %d", inner + 1, e.max_inner_iters);
        double j = t > 0 && t < 1 ? std::log(t) / std::log(e.beta) : 0;
        if (t > 0 && t <= 1 && t > 1e-280 && j > e.max_linesearch_iters + 0.1)
          violate("budget", "line search backtracked %.1f times, limit %d", j, e.max_linesearch_iters);
      }
    }
  }
  if (!s.clean || s.newton_faulted) return;
  // "default budgets": the shipped option sets, at least.
  bool stocklike = e.max_newton_iters >= 200 && e.max_prox_iters >= 30 && e.max_inner_iters >= 50 &&
                   e.max_linesearch_iters >= 20 && s.stock;
  if (!stocklike) return;
  bool inf = s.p.truth == T_PRIMAL_INF || s.p.truth == T_DUAL_INF || s.p.truth == T_BOTH_INF;
  if (s.p.truth == T_WELLPOSED && moderate(s.guess, 1e3)) {
    probe(rt::P_PROGRESS_CHECKED);
    rt::metric(4, o.newton / (double)e.max_newton_iters);
    if (good_end(s.p, s.r)) return;
    rt::metric(1, 1);
    int bad = failing_siblings(s);
    if (bad < 2) return;
    violate("no-progress", "well-posed problem (%s) ended with %s after %d Newton, %d proximal iterations, and so did %d of 8 others",
            fam_names[s.p.fam], s.r.thrown ? thrown_names[s.r.thrown] : flag_name(o.eflag), o.newton, o.prox, bad);
  }
  if (inf && moderate(s.guess, 10) && e.check_feasibility) {
    probe(rt::P_PROGRESS_CHECKED);
    rt::metric(5, o.newton / (double)e.max_newton_iters);
    if (good_end(s.p, s.r)) return;
    // An ill conditioned factorisation may honestly be refused.
    if (s.r.thrown == X_RUNTIME && s.p.d.nz > 12) return;
    rt::metric(2, 1);
    int bad = failing_siblings(s);
    if (bad < 4) return;
    violate("not-flagged", "%s problem ended with %s after %d Newton, %d proximal iterations, and so did %d of 8 others",
            fam_names[s.p.fam], s.r.thrown ? thrown_names[s.r.thrown] : flag_name(o.eflag), o.newton,
            o.prox, bad);
  }
}

// ---- comparisons ----------------------------------------------------------------------------
static bool num_eq(double a, double b) {
  return !memcmp(&a, &b, 8) || (a != a && b != b);
}
static bool vec_eq(const Vec& a, const Vec& b, size_t* at) {
  if (a.size() != b.size()) {
    *at = (size_t)-1;
    return false;
  }
  for (size_t i = 0; i < a.size(); i++)
    if (!num_eq(a[i], b[i])) {
      *at = i;
      return false;
    }
  return true;
}
void compare_replies(const char* cls, const char* what, const Reply& g, const Reply& w) {
  if (g.thrown != w.thrown)
    violate(cls, "%s: got %s (%s), expected %s (%s)", what, thrown_names[g.thrown], g.what.c_str(),
            thrown_names[w.thrown], w.what.c_str());
  if (g.thrown == X_NONE) {
    if (g.out.eflag != w.out.eflag)
      violate(cls, "%s: verdict %s, expected %s", what, flag_name(g.out.eflag), flag_name(w.out.eflag));
    if (g.out.newton != w.out.newton || g.out.prox != w.out.prox)
      violate(cls, "%s: %d Newton and %d proximal iterations, expected %d and %d", what, g.out.newton,
              g.out.prox, w.out.newton, w.out.prox);
    if (!num_eq(g.out.residual, w.out.residual) ||
        !num_eq(g.out.initial_residual, w.out.initial_residual))
      violate(cls, "%s: residuals %.17g/%.17g, expected %.17g/%.17g", what, g.out.residual,
              g.out.initial_residual, w.out.residual, w.out.initial_residual);
  }
  probe(rt::P_BITS_COMPARED);
  struct {
    const char* n;
    const Vec *a, *b;
  } parts[4] = {{"z", &g.x.z, &w.x.z}, {"l", &g.x.l, &w.x.l}, {"v", &g.x.v, &w.x.v}, {"y", &g.x.y, &w.x.y}};
  for (auto& p : parts) {
    size_t i;
    if (!vec_eq(*p.a, *p.b, &i)) {
      if (i == (size_t)-1) violate(cls, "%s: size of %s differs", what, p.n);
      violate(cls, "%s: %s[%zu] = %.17g, expected %.17g", what, p.n, i, (*p.a)[i], (*p.b)[i]);
    }
  }
}

// ---- C10 ---------------------------------------------------------------------------------------
static std::vector<std::string> lines_of(const std::string& t) {
  std::vector<std::string> out;
  size_t p = 0;
  while (p < t.size()) {
    size_t e = t.find('\n', p);
    if (e == std::string::npos) e = t.size();
    out.push_back(t.substr(p, e - p));
    p = e + 1;
  }
  return out;
}
static bool close4(double printed, double exact) {
  if (exact != exact) return printed != printed;
  if (std::isinf(exact)) return printed == exact;
  return std::fabs(printed - exact) <= 1.01e-4 * std::fabs(exact) + 1e-300;
}
static std::string log_text(const rt::OpCounts& c, int stream) {
  if (stream == ST_DEFAULT) return c.dev;
  std::string t;
  for (auto& p : c.prints_at) t += p.second;
  return t;
}
static const char* verdict_words[6] = {"Success", "Divergence", "Iteration limit exceeded",
                                       "Primal Infeasibility", "Dual Infeasibility",
                                       "Primal-Dual Infeasibility"};
static std::string trim(const std::string& s) {
  size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}

void oracle_log(const SolveRec& s) {
  if (s.r.thrown != X_NONE || s.c.dev_failed || s.c.stream_threw) return;
  const Out& o = s.r.out;
  const Opts& e = s.eff;
  std::string text = log_text(s.c, s.stream);
  probe(rt::P_LOG_CHECKED);
  if (e.display == 0) {
    if (!text.empty()) violate("log-off", "printed at display level OFF: %.60s", text.c_str());
    return;
  }
  size_t at = text.rfind("Optimization completed!");
  if (at == std::string::npos) violate("log-summary", "no summary printed");
  if (text.find("Optimization completed!") != at) violate("log-summary", "more than one summary");
  std::vector<std::string> S = lines_of(text.substr(at));
  while (!S.empty() && trim(S.back()).empty()) S.pop_back();
  if (S.size() < 5) violate("log-summary", "summary has only %zu lines", S.size());
  size_t colon = S[0].find(':');
  if (colon == std::string::npos || trim(S[0].substr(colon + 1)) != verdict_words[o.eflag])
    violate("log-verdict", "summary says '%s' for verdict %s", S[0].c_str(), flag_name(o.eflag));
  double ms = 0, rz = 0, rl = 0, rv = 0, tol = 0;
  int p1 = -1, p2 = -1, n1 = -1, n2 = -1, got = 0;
  for (auto& l : S) {
    double a, b, c, d;
    int x, y;
    if (sscanf(l.c_str(), "Time elapsed: %lf ms", &a) == 1) ms = a, got |= 1;
    if (sscanf(l.c_str(), "Proximal iterations: %d out of %d", &x, &y) == 2) p1 = x, p2 = y, got |= 2;
    if (sscanf(l.c_str(), "Newton iterations: %d out of %d", &x, &y) == 2) n1 = x, n2 = y, got |= 4;
    if (sscanf(l.c_str(), " %lf %lf %lf %lf", &a, &b, &c, &d) == 4)
      rz = a, rl = b, rv = c, tol = d, got |= 8;
  }
  if (got != 15) violate("log-summary", "summary is incomplete (parts seen: %d)", got);
  if (p1 != o.prox || n1 != o.newton || p2 != e.max_prox_iters || n2 != e.max_newton_iters)
    violate("log-counts", "summary: %d/%d proximal, %d/%d Newton; result: %d/%d, %d/%d", p1, p2, n1, n2,
            o.prox, e.max_prox_iters, o.newton, e.max_newton_iters);
  if (std::isfinite(o.solve_time) && std::fabs(ms - 1000 * o.solve_time) > 1e-6 * (1 + 1e-6 * std::fabs(ms)))
    violate("log-time", "summary: %.9g ms, result: %.9g s", ms, o.solve_time);
  double norm = std::sqrt(rz * rz + rl * rl + rv * rv);
  if (std::isfinite(o.residual) && o.residual < 1e140 && o.residual > 1e-140 &&
      std::fabs(norm - o.residual) > 3e-4 * o.residual)
    violate("log-residual", "summary residual parts give %.6g, reported residual %.6g", norm, o.residual);
  if (!close4(tol, combo_tol(s.p, e)) && s.p.forcing_norm() < 1e140)
    violate("log-tolerance", "summary tolerance %.6g, in force %.6g", tol, combo_tol(s.p, e));
  if ((o.eflag == SUCCESS || o.eflag == MAXITER) && s.p.sane() && moderate(s.r.x, 1e100)) {
    Resid r = residual(s.p, s.r.x, e.alpha, true, 0);
    if (r.norm < 1e140L) {
      LD sl = r.slack * 4;
      if (!(fabsl(r.rz - rz) <= 2e-4L * r.rz + sl) || !(fabsl(r.rl - rl) <= 2e-4L * r.rl + sl) ||
          !(fabsl(r.rv - rv) <= 2e-4L * r.rv + sl))
        violate("log-residual", "summary |rz| %g |rl| %g |rv| %g, the point has %Lg %Lg %Lg", rz, rl, rv,
                r.rz, r.rl, r.rv);
    }
  }
  std::string head = text.substr(0, at);
  std::vector<std::string> L = lines_of(head);
  if (e.display == 1) {
    if (!trim(head).empty() && trim(head) != "\n") {
      for (auto& l : L)
        if (!trim(l).empty()) violate("log-extra", "printed at level FINAL: %s", l.c_str());
    }
    return;
  }
  bool by_newton = o.eflag == MAXITER && o.newton >= e.max_newton_iters;
  if (e.display == 2) {
    int headers = 0, rows = 0, last_newton = 0;
    double last_itol = 0;
    for (auto& l : L) {
      if (trim(l).empty()) continue;
      if (l.find("prox iter") != std::string::npos) {
        if (rows) violate("log-order", "header after iteration lines");
        headers++;
        continue;
      }
      int p, n;
      double a, b, c, d, t;
      if (sscanf(l.c_str(), " %d %d %lf %lf %lf %lf %lf", &p, &n, &a, &b, &c, &d, &t) != 7)
        violate("log-line", "unreadable iteration line '%.80s'", l.c_str());
      if (p != rows) violate("log-order", "line %d is for proximal iteration %d", rows, p);
      if (n < last_newton || n > o.newton)
        violate("log-order", "Newton counter %d after %d (reported %d)", n, last_newton, o.newton);
      if (rows == 0) {
        double r0 = std::sqrt(a * a + b * b + c * c);
        if (std::isfinite(o.initial_residual) && o.initial_residual < 1e140 && o.initial_residual > 1e-140 &&
            std::fabs(r0 - o.initial_residual) > 3e-4 * o.initial_residual)
          violate("log-stale", "first line shows residual %g, the guess has %g", r0, o.initial_residual);
        if (n != 0) violate("log-stale", "first line shows %d Newton iterations", n);
        if (d != 0) violate("log-stale", "first line shows subproblem residual %g before any subproblem", d);
        if (std::isfinite(o.initial_residual) && o.initial_residual < 1e300) {
          double want = std::min(std::max(o.initial_residual, e.inner_tol_min),
                                 std::max(e.inner_tol_max, e.inner_tol_min));
          if (!close4(t, want)) violate("log-stale", "first line shows inner tolerance %g, expected %g", t, want);
        }
      }
      if (!(t == t) && s.p.sane() && std::isfinite(o.residual))
        violate("log-line", "inner tolerance printed as NaN");
      last_newton = n;
      last_itol = t;
      rows++;
    }
    (void)last_itol;
    int want = (o.eflag == MAXITER && !by_newton) ? o.prox : o.prox + 1;
    if (by_newton && o.prox >= e.max_prox_iters) want = rows;  // both limits at once
    if (headers != 1) violate("log-header", "%d headers", headers);
    if (rows != want) violate("log-rows", "%d iteration lines for %d outer iterations (%s)", rows, o.prox, flag_name(o.eflag));
    if (o.eflag == SUCCESS && last_newton != o.newton)
      violate("log-counts", "last line shows %d Newton iterations, result %d", last_newton, o.newton);
    // One intermediate line against the iterate it stands for.
    if (o.prox >= 2 && s.p.sane()) {
      int k = 1 + (int)(Rng::mix(s.p.seed + o.newton) % (uint64_t)(o.prox - 1));
      Point xk;
      Out ok;
      if (prefix_iterate(s, k, &xk, &ok) && moderate(xk, 1e100)) {
        Resid r = residual(s.p, xk, e.alpha, true, 0);
        int seen = 0;
        for (auto& l : L) {
          int p, n;
          double a, b, c;
          if (sscanf(l.c_str(), " %d %d %lf %lf %lf", &p, &n, &a, &b, &c) == 5 && p == k) {
            seen = 1;
            LD sl = r.slack * 4;
            if (r.norm < 1e140L &&
                (!(fabsl(r.rz - a) <= 2e-4L * r.rz + sl) || !(fabsl(r.rl - b) <= 2e-4L * r.rl + sl) ||
                 !(fabsl(r.rv - c) <= 2e-4L * r.rv + sl)))
              violate("log-line", "line %d shows |rz| %g |rl| %g |rv| %g, iterate %d has %Lg %Lg %Lg", k, a, b,
                      c, k, r.rz, r.rl, r.rv);
            if (n != ok.newton) violate("log-line", "line %d shows %d Newton iterations, %d were done", k, n, ok.newton);
          }
        }
        if (!seen) violate("log-rows", "no line for outer iteration %d", k);
        probe(rt::P_PREFIX_CHECKED);
      }
    }
  } else {
    int blocks = 0, total = 0, rows = 0, footers = 0;
    bool open = false;
    double last_norm = 0, head_res = 0;
    auto close_block = [&](int next_total) {
      int steps = next_total - total;
      int lo = rows - 1, hi = footers ? rows - 1 : rows;
      if (steps < lo || steps > hi)
        violate("log-block", "block %d lists %d inner lines for %d Newton steps", blocks - 1, rows, steps);
      // Only a limit leaves a subproblem without its closing line.
      if (!footers && steps == rows - 1 && next_total < e.max_newton_iters)
        violate("log-block", "block %d (%d Newton steps, %d in all) has no end-of-subproblem line", blocks - 1, steps, next_total);
      if (!footers && steps == rows && steps < e.max_inner_iters)
        violate("log-block", "block %d stops after %d of %d inner iterations without a closing line", blocks - 1, steps,
                e.max_inner_iters);
    };
    const bool fine = s.p.sane();
    const int deep = o.prox >= 2 && fine ? 1 + (int)(Rng::mix(s.p.seed + o.newton) % (uint64_t)(o.prox - 1)) : -1;
    for (auto& l : L) {
      if (trim(l).empty()) continue;
      int p, n;
      double r, t, a, b, c;
      if (sscanf(l.c_str(), "Begin Prox Iter: %d, Total Newton Iters: %d, Residual: %lf", &p, &n, &r) == 3) {
        if (open) close_block(n);
        if (p != blocks) violate("log-order", "block %d is for proximal iteration %d", blocks, p);
        if (n < total || n > o.newton) violate("log-order", "block %d starts at Newton %d after %d", p, n, total);
        if (blocks == 0) {
          if (n != 0) violate("log-stale", "first block starts at Newton iteration %d", n);
          if (!close4(r, o.initial_residual))
            violate("log-stale", "first block shows residual %g, the guess has %g", r, o.initial_residual);
        }
        head_res = r;
        total = n;
        blocks++;
        rows = footers = 0;
        open = true;
      } else if (l.find("Step Size") != std::string::npos) {
        continue;
      } else if (sscanf(l.c_str(), "Exiting inner loop. Inner residual: %lf, Inner tolerance: %lf", &a, &t) == 2) {
        footers++;
        if (footers > 1 || !open || !rows) violate("log-order", "stray end-of-subproblem line");
        if (std::isfinite(last_norm) && last_norm < 1e140 && last_norm > 1e-140 && std::fabs(a - last_norm) > 3e-4 * last_norm)
          violate("log-line", "block %d ends with inner residual %g, its last line shows %g", blocks - 1, a, last_norm);
        if (!(a <= std::max(t, e.inner_tol_min) * 1.001))
          violate("log-line", "block %d ends as solved with inner residual %g, tolerance %g", blocks - 1, a, t);
        if (!(t >= e.inner_tol_min * 0.999))
          violate("log-line", "block %d shows inner tolerance %g, the least is %g", blocks - 1, t, e.inner_tol_min);
      } else if (sscanf(l.c_str(), " %d%*[ ]%lf %lf %lf %lf", &n, &t, &a, &b, &c) == 5) {
        if (!open || footers) violate("log-order", "inner line outside a block");
        if (n != rows) violate("log-order", "inner line %d numbered %d", rows, n);
        if (rows == 0 ? t != 1 : !(t >= 0 && t <= 1)) violate("log-line", "inner line %d shows step size %g", rows, t);
        last_norm = std::sqrt(a * a + b * b + c * c);
        // A subproblem starts at the outer iterate: same dual and equality residual.
        if (rows == 0 && fine && (blocks == 1 || blocks == deep + 1)) {
          Point xk = s.guess;
          Out ok;
          bool have = blocks == 1 || prefix_iterate(s, deep, &xk, &ok);
          if (have && moderate(xk, 1e100)) {
            Resid q = residual(s.p, xk, e.alpha, blocks > 1, 0);
            LD sl = q.slack * 4;
            if (q.norm < 1e140L) {
              if (!(fabsl(q.rz - a) <= 2e-4L * q.rz + sl) || !(fabsl(q.rl - b) <= 2e-4L * q.rl + sl))
                violate("log-line", "block %d starts at |rz| %g |rl| %g, its iterate has %Lg %Lg", blocks - 1, a, b, q.rz, q.rl);
              if (!(fabsl(q.norm - head_res) <= 2e-4L * q.norm + 3 * sl))
                violate("log-line", "block %d shows residual %g, its iterate has %Lg", blocks - 1, head_res, q.norm);
              if (blocks > 1) probe(rt::P_PREFIX_CHECKED);
            }
          }
        }
        rows++;
      } else {
        violate("log-line", "unreadable detailed line '%.80s'", l.c_str());
      }
    }
    if (open) close_block(o.newton);
    int want = o.eflag == SUCCESS || (o.eflag == MAXITER && !by_newton) ? o.prox : o.prox + 1;
    if (by_newton && o.prox >= e.max_prox_iters) want = blocks;
    if (blocks != want)
      violate("log-rows", "%d subproblem blocks for %d outer iterations (%s)", blocks, o.prox, flag_name(o.eflag));
  }
}

// ---- C11: what the log shows of the options in force ----------------------------------------
// Step lengths are powers of beta and satisfy the sufficient-decrease rule, the
// subproblem tolerance shrinks by delta between its bounds, subproblems are left
// when solved to it, and a disabled feasibility check never speaks.
void oracle_obeyed(const SolveRec& s) {
  const Out& o = s.r.out;
  const Opts& e = s.eff;
  if (s.r.thrown == X_NONE && !e.check_feasibility && o.eflag >= PINF)
    violate("option-ignored", "the feasibility check is disabled, the verdict is %s", flag_name(o.eflag));
  if (s.r.thrown == X_NONE && o.eflag == SUCCESS && o.prox == 0 && s.p.sane() && moderate(s.guess, 1e100)) {
    // Accepted as passed: the tolerance in force, or stall_tol, must allow it.
    // dx starts as a vector of ones, so stall_tol below one cannot.
    LD tol = combo_tol(s.p, e);
    if (e.stall_tol < 1 && o.residual > tol * 1.001L && tol < 1e140L)
      violate("option-ignored", "accepted at once with residual %g, tolerance in force %Lg", o.residual, tol);
  }
  if (e.display < 2 || s.r.thrown != X_NONE || s.c.dev_failed || s.c.stream_threw) return;
  probe(rt::P_OBEYED_CHECKED);
  auto good = [](double v) { return v == v && v < 1e140 && v > 1e-140; };
  auto next_tol = [&](double was, double outer, double now, int k) {
    if (!good(was) || !good(outer) || !good(now)) return;
    double hi = std::max(e.delta * was, e.inner_tol_min), lo = std::max(std::min(e.delta * was, outer), e.inner_tol_min);
    if (!(now <= hi * 1.0005 && now >= lo * 0.9995))
      violate("option-ignored", "subproblem %d: tolerance %g after %g, residual %g, delta %g, least %g", k, now, was, outer,
              e.delta, e.inner_tol_min);
  };
  std::vector<std::string> L = lines_of(log_text(s.c, s.stream));
  if (e.display == 2) {
    double tol = 0, outer = 0;
    int last = 0;
    bool have = false;
    for (auto& l : L) {
      int p, n;
      double a, b, c, d, t;
      if (l.find("Optimization completed") != std::string::npos) break;
      if (sscanf(l.c_str(), " %d %d %lf %lf %lf %lf %lf", &p, &n, &a, &b, &c, &d, &t) != 7) continue;
      if (have) {
        next_tol(tol, outer, t, p);
        if (good(d) && n - last < e.max_inner_iters && !(d <= t * 1.001))
          violate("option-ignored", "subproblem %d left after %d steps of %d with residual %g, tolerance %g", p, n - last,
                  e.max_inner_iters, d, t);
      }
      have = true;
      tol = t;
      last = n;
      outer = std::sqrt(a * a + b * b + c * c);
    }
    return;
  }
  std::vector<double> merit;
  double tol = std::min(std::max(o.initial_residual, e.inner_tol_min), std::max(e.inner_tol_max, e.inner_tol_min));
  double outer = 0;
  bool have_tol = std::isfinite(o.initial_residual);
  int block = 0;
  for (auto& l : L) {
    int p, n;
    double r, t, a, b, c;
    if (l.find("Optimization completed") != std::string::npos) break;
    if (sscanf(l.c_str(), "Begin Prox Iter: %d, Total Newton Iters: %d, Residual: %lf", &p, &n, &r) == 3) {
      if (!merit.empty()) {  // no closing line: take the tolerance the rule gives
        have_tol = false;
        merit.clear();
      }
      outer = r;
      block = p;
    } else if (sscanf(l.c_str(), "Exiting inner loop. Inner residual: %lf, Inner tolerance: %lf", &a, &t) == 2) {
      if (have_tol) next_tol(tol, outer, t, block);
      tol = t;
      have_tol = true;
      merit.clear();
    } else if (sscanf(l.c_str(), " %d%*[ ]%lf %lf %lf %lf", &n, &t, &a, &b, &c) == 5) {
      double norm = std::sqrt(a * a + b * b + c * c), m = 0.5 * norm * norm;
      if (n == 0) merit.clear();
      if (!merit.empty() && t > 1e-250 && t <= 1) {
        double j = std::log(t) / std::log(e.beta), k = std::round(j);
        if (std::fabs(j - k) > 0.002 + 1e-6 * k)
          violate("option-ignored", "step length %g is no power of beta = %g", t, e.beta);
        double ref = merit.back();
        if (e.nonmonotone_linesearch)
          for (double v : merit) ref = std::max(ref, v);
        if (k < e.max_linesearch_iters && good(norm) && good(ref) && good(merit.back()) && norm > 1e-60 && ref < 1e120 &&
            !(m <= (ref - 2 * t * e.eta * merit.back()) + 2e-5 * ref))
          violate("option-ignored", "step %g accepted from merit %g (reference %g) to %g: eta %g, nonmonotone %d", t,
                  merit.back(), ref, m, e.eta, (int)e.nonmonotone_linesearch);
      }
      if (norm == norm) merit.push_back(m);
      else merit.push_back(1e300);
    }
  }
}

// ---- C13 ------------------------------------------------------------------------------------------
void oracle_time(const SolveRec& s) {
  if (s.r.thrown != X_NONE) return;
  double t = s.r.out.solve_time;
  double real = (s.c.t_leave - s.c.t_enter) * 1e-9;
  probe(rt::P_TIME_CHECKED);
  if (!(t >= 0)) violate("time-negative", "solve_time %.9g s", t);
  if (!(t <= real * (1 + 1e-9) + 1e-9))
    violate("time-long", "solve_time %.9g s, but only %.9g s passed", t, real);
  int64_t first = -1, last = -1;
  for (auto& p : s.c.prints_at) {
    if (p.second.find("Optimization completed") != std::string::npos) break;
    if (p.second.find_first_not_of(" \n\t") == std::string::npos) continue;
    if (first < 0) first = p.first;
    last = p.first;
  }
  if (first >= 0) {
    double seen = (last - first) * 1e-9;
    if (!(t >= seen * (1 - 1e-9) - 1e-9))
      violate("time-short", "solve_time %.9g s, but %.9g s passed between progress lines", t, seen);
  }
  std::string text = log_text(s.c, s.stream);
  size_t at = text.rfind("Time elapsed:");
  double ms;
  if (at != std::string::npos && sscanf(text.c_str() + at, "Time elapsed: %lf ms", &ms) == 1) {
    if (std::fabs(ms - 1000 * t) > 1e-6 * (1 + 1e-6 * std::fabs(ms)))
      violate("time-printed", "printed %.9g ms, returned %.9g s", ms, t);
  }
}

// ---- C14 --------------------------------------------------------------------------------------------
void check_newton(const NewtonStep& s, double alpha, int step) {
  const Problem& p = *s.p;
  const int n = p.d.nz, m = p.d.nl, q = p.d.nv;
  const LD eps = 2.3e-16L;
  auto fin = [](const double* x, int k) {
    for (int i = 0; i < k; i++)
      if (!(std::fabs(x[i]) < 1e60)) return false;
    return true;
  };
  if (p.corrupted || !p.finite()) return;  // the promise is for convex problems
  if (!fin(s.xz, n) || !fin(s.xl, m) || !fin(s.xv, q) || !fin(s.xy, q) || !fin(s.bz, n) || !fin(s.bl, m) ||
      !fin(s.bv, q) || !fin(s.rz, n) || !fin(s.rl, m) || !fin(s.rv, q))
    return;
  for (const Vec* w : {&p.H, &p.G, &p.A, &p.f, &p.b, &p.h})
    for (double t : *w)
      if (!(std::fabs(t) < 1e60)) return;
  auto out_fin = [](const double* x, int k) {
    for (int i = 0; i < k; i++)
      if (!std::isfinite(x[i])) return false;
    return true;
  };
  if (!out_fin(s.dz, n) || !out_fin(s.dl, m) || !out_fin(s.dv, q) || !out_fin(s.dy, q)) {
    if (p.corrupted) return;
    violate("newton-nonfinite", "Newton step %d: finite system, non-finite direction", step);
  }
  const LD sg = s.sigma;
  std::vector<LD> Adz(q, 0), absAdz(q, 0), ga(q), mu(q);
  std::vector<char> fuzzy(q, 0);
  for (int j = 0; j < n; j++)
    for (int i = 0; i < q; i++) {
      LD t = (LD)p.A[(size_t)j * q + i] * s.dz[j];
      Adz[i] += t;
      absAdz[i] += fabsl(t);
    }
  for (int i = 0; i < q; i++) {
    double ysd = s.xy[i] + s.sigma * (s.xv[i] - s.bv[i]);
    LD a = ysd, b = s.xv[i];
    LD r = sqrtl(a * a + b * b);
    const LD zt = 1e-13L;
    if (r > zt / 2 && r < zt * 2) fuzzy[i] = 1;
    LD g1, g2;
    if (r < zt) {
      g1 = g2 = alpha * (1 - 1 / sqrtl(2.0L));
    } else {
      g1 = alpha * (1 - a / r);
      g2 = alpha * (1 - b / r);
      if (a > 0 && b > 0) {
        g1 += (1 - (LD)alpha) * b;
        g2 += (1 - (LD)alpha) * a;
      }
    }
    ga[i] = g1;
    mu[i] = g2 + sg * g1;
  }
  // Complementarity rows, one by one.
  for (int i = 0; i < q; i++) {
    if (fuzzy[i]) return;
    LD t = -ga[i] * Adz[i] + mu[i] * s.dv[i] - s.rv[i];
    LD sc = fabsl(ga[i]) * absAdz[i] + fabsl(mu[i] * (LD)s.dv[i]) + fabsl((LD)s.rv[i]);
    // gamma and mu are differences: their rounding is absolute.
    LD ab = eps * 8 * (absAdz[i] + (1 + sg) * fabsl((LD)s.dv[i]));
    LD lim = 64 * eps * (n + 8) * sc + ab + 1e-300L;
    rt::metric(6, (double)(fabsl(t) / lim));
    if (!(fabsl(t) <= 16 * lim))
      violate("newton-system", "Newton step %d: complementarity row %d off by %.3Lg (scale %.3Lg)", step, i, t, sc);
    LD dy = (LD)p.b[i] - Adz[i];
    LD ys = fabsl((LD)p.b[i]) + absAdz[i];
    if (!(fabsl(dy - (LD)s.dy[i]) <= 64 * eps * (n + 8) * ys + 1e-300L))
      violate("newton-margin", "Newton step %d: margin row %d is %.17g, b - A dz is %.17Lg", step, i, s.dy[i], dy);
  }
  // Stationarity and equality rows, normwise.
  LD err = 0, scale = 0;
  std::vector<LD> row(n), srow(n);
  for (int i = 0; i < n; i++) {
    row[i] = sg * s.dz[i] - s.rz[i];
    srow[i] = fabsl(sg * (LD)s.dz[i]) + fabsl((LD)s.rz[i]);
  }
  for (int j = 0; j < n; j++)
    for (int i = 0; i < n; i++) {
      LD t = (LD)p.H[(size_t)j * n + i] * s.dz[j];
      row[i] += t;
      srow[i] += fabsl(t);
    }
  for (int j = 0; j < n; j++) {
    for (int i = 0; i < m; i++) {
      LD t = (LD)p.G[(size_t)j * m + i] * s.dl[i];
      row[j] += t;
      srow[j] += fabsl(t);
    }
    for (int i = 0; i < q; i++) {
      LD A = p.A[(size_t)j * q + i];
      LD t = A * s.dv[i];
      row[j] += t;
      srow[j] += fabsl(t) + fabsl(A) * (ga[i] * absAdz[i] + fabsl((LD)s.rv[i])) / mu[i];
    }
  }
  for (int i = 0; i < n; i++) {
    err = std::max(err, fabsl(row[i]));
    scale = std::max(scale, srow[i]);
  }
  for (int i = 0; i < m; i++) {
    LD t = sg * s.dl[i] - s.rl[i], sc = fabsl(sg * (LD)s.dl[i]) + fabsl((LD)s.rl[i]);
    for (int j = 0; j < n; j++) {
      LD u = (LD)p.G[(size_t)j * m + i] * s.dz[j];
      t -= u;
      sc += fabsl(u);
    }
    err = std::max(err, fabsl(t));
    scale = std::max(scale, sc);
  }
  // What rounding can explain: the solvers work with a condensed matrix whose
  // entries reach |H| + |G|^2/sigma + |A|^2 gamma/mu, and are backward stable for
  // that matrix, not row by row.
  LD hn = 0, gn = 0, an = 0, zn = 0, ln = 0;
  for (double t : p.H) hn = std::max(hn, fabsl((LD)t));
  for (double t : p.G) gn = std::max(gn, fabsl((LD)t));
  for (int i = 0; i < n; i++) zn = std::max(zn, fabsl((LD)s.dz[i]));
  for (int i = 0; i < m; i++) ln = std::max(ln, fabsl((LD)s.dl[i]));
  for (int i = 0; i < q; i++) {
    LD r = 0;
    for (int j = 0; j < n; j++) r = std::max(r, fabsl((LD)p.A[(size_t)j * q + i]));
    an = std::max(an, r * r * ga[i] / mu[i]);
  }
  LD lim = 64 * eps * (n + m + q) * (scale + 1e-300L);
  const bool strong = p.truth == T_WELLPOSED;
  // Without curvature of its own the condensed matrix is held up by sigma alone
  // and errors grow like 1/sigma again, on both solvers.
  LD lim2 = lim + 64 * eps * (n + m + q) * ((hn + an + gn * gn / sg) * zn + gn * ln * (1 + gn / (strong ? 0.01L : sg)));
  probe(rt::P_NEWTON_SYSTEM_CHECKED);
  rt::metric(strong ? 3 : 7, (double)(err / lim2));
  if (strong && !(err <= 400 * lim2))
    violate("newton-system", "Newton step %d: residual %.3Lg of the linear system (scale %.3Lg, sigma %g)", step, err,
            scale, s.sigma);
}
