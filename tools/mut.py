# id -> (property, needs, what, [(file, old, new)], demo body)
import sys,os,subprocess,shutil,json
ALG='fbstab/fbstab_algorithm-impl.h'; ALGH='fbstab/fbstab_algorithm.h'
HERE=os.path.dirname(os.path.abspath(__file__))
S={}
def add(id,prop,needs,what,edits,demo): S[id]=(prop,needs,what,edits,demo)
HDR='#include "common.h"\n'

add('c01-stale-step-norm','C01',
 'a solver object whose previous solve ended with a step below stall_tol (very tight tolerances), then any further solve on it',
 'The guard value of the step used by the stall test is only set on the first call, so a second solve accepts its initial guess as Success.',
 [(ALG,'  dx_->Fill(1.0);\n','  if (newton_iters_ == 0 && prox_iters_ == 0) {\n    dx_->Fill(1.0);  // only the first call needs a nonzero step\n  }\n')],
 HDR+r'''
int main() {
  FBstabDense s(4, 1, 3);
  auto o = FBstabDense::DefaultOptions();
  o.display_level = Display::OFF; o.abs_tol = 1e-14; o.stall_tol = 1e-8;
  s.UpdateOptions(o);
  for (unsigned k = 1; k <= 40; k++) {
    auto p = RandomQp(k, 4, 1, 3);
    FBstabDense::Variable x(4, 1, 3);
    SolverOut r = s.Solve(p, &x);
    if (r.eflag == ExitFlag::SUCCESS && Kkt(p, x.z, x.l, x.v) > 1e-5) FAIL("problem %u: Success with residual %g", k, Kkt(p, x.z, x.l, x.v));
  }
  return 0;
}
''')

add('c02-timeout-point','C02',
 'a Newton budget that runs out inside a subproblem whose current point is worse than the outer iterate it started from but better than the initial guess',
 'At the iteration limit the inner point is compared with the initial residual instead of the current outer residual, so a worse point than the one already available is handed back.',
 [(ALG,'      if (Eo < Ek) {\n','      if (Eo < E0) {\n')],
 HDR+r'''
// The point handed back at the limit must not be worse than the outer iterate the interrupted subproblem began with.
int main() {
  for (unsigned k = 1; k <= 400; k++) {
    auto p = RandomQp(k, 6, 0, 9);
    p.f *= 50; p.H.row(0) *= 1e-3; p.H.col(0) *= 1e-3;
    for (int lim = 2; lim < 25; lim++) {
      FBstabDense s(6, 0, 9);
      auto o = FBstabDense::DefaultOptions();
      o.max_newton_iters = lim; o.abs_tol = 1e-13; o.stall_tol = 1e-14; o.sigma0 = o.sigma_max = (k % 3) ? 1e-1 : 10.0;
      o.max_prox_iters = 200; o.inner_tol_max = 1e-1; o.display_level = Display::ITER_DETAILED;
      s.UpdateOptions(o);
      FBstabDense::Variable x(6, 0, 9);
      Rnd g(k); x.z = 10 * g.v(6); x.v = 10 * g.v(9).cwiseAbs();
      Sink os;
      SolverOut r = s.Solve(p, &x, os);
      if (r.eflag != ExitFlag::MAXITERATIONS || r.newton_iters < lim) continue;
      size_t at = os.text.rfind("Residual: ", os.text.rfind("Begin Prox Iter"));
      at = os.text.find("Residual: ", os.text.rfind("Begin Prox Iter"));
      double outer = atof(os.text.c_str() + at + 10);
      double e = Pen(p, x.z, x.l, x.v, o.alpha);
      if (e > outer * 1.001 + 1e-9) FAIL("problem %u limit %d: outer iterate %g, returned %g", k, lim, outer, e);
    }
  }
  return 0;
}
''')

add('c03-curvature','C03',
 'an unbounded problem with a badly scaled Hessian whose iterates carry a small component along stiff directions when the check first fires',
 "Dual infeasibility is concluded from the curvature z'Hz <= tol*|z|^2 instead of |Hz| <= tol*|z|, so the returned direction is no certificate.",
 [('fbstab/components/full_feasibility.cc','  const double d3 = tz_.lpNorm<Eigen::Infinity>();\n','  double d3 = std::abs(tz_.dot(x.z()));\n  if (d3 > 0.0) {\n    d3 /= x.z().lpNorm<Eigen::Infinity>();\n  }\n')],
 HDR+r'''
int main() {
  for (unsigned k = 1; k <= 300; k++) {
    Rnd g(k);
    FBstabDense::ProblemData p(3, 0, 2);
    p.H.setZero(); p.H(1, 1) = 1; p.H(2, 2) = std::pow(10, 4 * g.u());
    MatrixXd R = MatrixXd::Identity(3, 3); double a = g.u(), b = g.u();
    MatrixXd R1 = MatrixXd::Identity(3, 3), R2 = R1;
    R1(0, 0) = cos(a); R1(0, 1) = -sin(a); R1(1, 0) = sin(a); R1(1, 1) = cos(a);
    R2(1, 1) = cos(b); R2(1, 2) = -sin(b); R2(2, 1) = sin(b); R2(2, 2) = cos(b);
    R = R1 * R2;
    p.H = (R.transpose() * p.H * R).eval();
    p.f = R.transpose() * VectorXd(Eigen::Vector3d(-1, g.u(), g.u())) * std::pow(10, 3 * g.u());
    p.A = 1e-3 * g.m(2, 3); VectorXd n = R.row(0).transpose();
    for (int i = 0; i < 2; i++) if (p.A.row(i).dot(n) > 0) p.A.row(i) *= -1;
    p.b.setConstant(1);
    for (double tol : {1e-8, 1e-6, 1e-4}) {
      FBstabDense s(3, 0, 2);
      auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; o.infeas_tol = tol;
      o.sigma0 = o.sigma_max = 1.0;
      s.UpdateOptions(o);
      FBstabDense::Variable x(3, 0, 2);
      SolverOut r = s.Solve(p, &x);
      if (r.eflag != ExitFlag::DUAL_INFEASIBLE) continue;
      double w = x.z.lpNorm<Eigen::Infinity>(), hz = (p.H * x.z).lpNorm<Eigen::Infinity>();
      if (hz > 1.01 * tol * w + 1e-12 * w * p.H.norm()) FAIL("problem %u: |Hz|/|z| = %g with tolerance %g", k, hz / w, tol);
    }
  }
  return 0;
}
''')

add('c04-inner-budget','C04',
 'a Newton limit that strikes in the middle of a subproblem that needs several more steps',
 'The Newton limit is only looked at between subproblems, so the work done exceeds max_newton_iters.',
 [(ALG,'    if (newton_iters_ >= opts_.max_newton_iters) {\n      break;\n    }\n','    if (newton_iters_ >= opts_.max_newton_iters && i + 1 >= opts_.max_inner_iters / 2) {\n      break;\n    }\n')],
 HDR+r'''
int main() {
  for (unsigned k = 1; k <= 60; k++) {
    auto p = RandomQp(k, 6, 1, 12);
    for (int lim = 1; lim < 8; lim++) {
      FBstabDense s(6, 1, 12);
      auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; o.max_newton_iters = lim;
      s.UpdateOptions(o);
      FBstabDense::Variable x(6, 1, 12);
      SolverOut r = s.Solve(p, &x);
      if (r.newton_iters > lim) FAIL("problem %u: %d Newton steps, limit %d", k, r.newton_iters, lim);
    }
  }
  return 0;
}
''')

add('c05-merit-buffer','C05',
 'a solver object that has been used before on a problem with larger merit values, then a problem on which the line search matters',
 'The buffer of past merit values is only cleared when a solver is built, so the nonmonotone line search of a later solve accepts steps because of an earlier problem.',
 [(ALG,'  merit_buffer_.fill(0.0);  // Clear the buffer of past merit function values.\n','  if (newton_iters_ > 0) {\n    merit_buffer_.fill(0.0);  // Clear the buffer of past merit function values.\n  }\n')],
 HDR+r'''
int main() {
  auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF;
  FBstabDense old(5, 0, 12); old.UpdateOptions(o);
  for (unsigned k = 1; k <= 500; k++) {
    auto e = RandomQp(k, 5, 0, 12); e.f *= 1e4; e.b.setConstant(1e8);
    FBstabDense::Variable w(5, 0, 12); old.Solve(e, &w);
    auto p = RandomQp(k, 5, 0, 12); p.f *= 30;
    FBstabDense fresh(5, 0, 12); fresh.UpdateOptions(o);
    FBstabDense::Variable a(5, 0, 12), b(5, 0, 12);
    Rnd g(k); a.z = 20 * g.v(5); a.v = 20 * g.v(12); b = a;
    SolverOut ra = old.Solve(p, &a), rb = fresh.Solve(p, &b);
    if (!Same(a, b) || ra.newton_iters != rb.newton_iters) FAIL("problem %u: used solver %d steps, fresh solver %d steps", k, ra.newton_iters, rb.newton_iters);
  }
  return 0;
}
''')

add('c05-cached-tolerance','C05',
 'the same solver object used for a second problem or with new tolerances, with a relative tolerance that matters',
 'The combined tolerance is recomputed only when the address of the (stack allocated) data object changes, so later solves keep the tolerance of the first one.',
 [(ALG,'  combo_tol_ = opts_.abs_tol + opts_.rel_tol * (1.0 + qp_data.ForcingNorm());\n',
  '  if (static_cast<const void*>(&qp_data) != last_data_) {\n    combo_tol_ = opts_.abs_tol + opts_.rel_tol * (1.0 + qp_data.ForcingNorm());\n    last_data_ = &qp_data;\n  }\n'),
  (ALGH,'  double combo_tol_ = 0.0;\n','  double combo_tol_ = 0.0;\n  const void* last_data_ = nullptr;  // problem combo_tol_ was computed for\n')],
 HDR+r'''
__attribute__((noinline)) static SolverOut go(FBstabDense* s, const FBstabDense::ProblemData& p, FBstabDense::Variable* x) { return s->Solve(p, x); }
int main() {
  auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; o.abs_tol = 1e-8; o.rel_tol = 1e-3;
  FBstabDense s(4, 1, 6); s.UpdateOptions(o);
  for (unsigned k = 1; k <= 60; k++) {
    auto p = RandomQp(k, 4, 1, 6);
    if (k == 1) { p.f *= 1e5; }
    FBstabDense fresh(4, 1, 6); fresh.UpdateOptions(o);
    FBstabDense::Variable a(4, 1, 6), b(4, 1, 6);
    go(&s, p, &a); go(&fresh, p, &b);
    if (!Same(a, b)) FAIL("problem %u: a used solver answers differently", k);
  }
  return 0;
}
''')

add('c06-static-gradient','C06',
 'two threads inside the assembly of their Newton systems at the same time, one preempted between computing a generalised gradient and using it',
 'The scratch vector for the generalised gradient is a function-level static shared by all solver objects.',
 [('fbstab/components/dense_cholesky_solver.cc','  Eigen::Vector2d pfb_gradient;\n','  static Eigen::Vector2d pfb_gradient;\n')],
 HDR+r'''
#include <thread>
#include <atomic>
static FBstabDense::ProblemData prob(unsigned k) { return RandomQp(k, 8, 0, 200); }
int main() {
  auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF;
  const int T = 8;
  std::vector<FBstabDense::Variable> ref;
  for (unsigned k = 0; k < T; k++) {
    FBstabDense s(8, 0, 200); s.UpdateOptions(o); FBstabDense::Variable x(8, 0, 200); auto p = prob(k + 1); s.Solve(p, &x); ref.push_back(x);
  }
  std::atomic<int> bad(0);
  std::vector<std::thread> th;
  for (unsigned k = 0; k < T; k++) th.emplace_back([&, k] {
    auto p = prob(k + 1);
    FBstabDense s(8, 0, 200); s.UpdateOptions(o);
    for (int i = 0; i < 1500 && !bad; i++) { 
      FBstabDense::Variable x(8, 0, 200);
      try { s.Solve(p, &x); } catch (...) { bad++; return; }
      if (!Same(x, ref[k])) bad++;
    }
  });
  for (auto& t : th) t.join();
  if (bad) FAIL("threads disturbed each other");
  return 0;
}
''')

add('c06-static-line','C06',
 'two threads printing at the same time with different streams, one preempted between formatting and printing a line',
 'Progress lines are formatted in one static buffer shared by all solver objects.',
 [(ALG,'''  char buff[100];
  if (opts_.display_level == Display::ITER) {
    snprintf(buff, 100, "%12d  %12d  %12.4e''','''  static char buff[100];
  if (opts_.display_level == Display::ITER) {
    snprintf(buff, 100, "%12d  %12d  %12.4e''')],
 HDR+r'''
#include <thread>
#include <atomic>
// Only the iteration lines: the summary holds the time.
static std::string lines(const std::string& t) { return t.substr(0, t.find("\nOptimization")); }
int main() {
  auto o = FBstabDense::DefaultOptions(); o.display_level = Display::ITER; o.max_prox_iters = 30;
  o.sigma0 = 1e-3; o.sigma_max = 1; o.abs_tol = 1e-12;
  const int T = 8;
  std::vector<std::string> ref;
  auto run = [&](FBstabDense& s, unsigned k) { auto p = RandomQp(k + 1, 3, 0, 4); FBstabDense::Variable x(3, 0, 4); Sink os; s.Solve(p, &x, os); return lines(os.text); };
  for (unsigned k = 0; k < T; k++) { FBstabDense s(3, 0, 4); s.UpdateOptions(o); ref.push_back(run(s, k)); }
  std::atomic<int> bad(0);
  std::vector<std::thread> th;
  for (unsigned k = 0; k < T; k++) th.emplace_back([&, k] {
    FBstabDense s(3, 0, 4); s.UpdateOptions(o);
    for (int i = 0; i < 20000 && !bad; i++) if (run(s, k) != ref[k]) bad++;
  });
  for (auto& t : th) t.join();
  if (bad) FAIL("a thread's log holds lines of another thread");
  return 0;
}
''')

add('c07-torn-success','C07',
 'a stream that throws while the summary of a successful solve is printed',
 'The primal part of the result is written before, the dual part after the summary is printed, so a throwing stream leaves the caller with a mixture of solution and guess.',
 [(ALG,'''      SolverOut output = PrepareOutput(ExitFlag::SUCCESS, prox_iters_,
                                       newton_iters_, *rk_, start_time, E0, os);
      WriteVariable(*xk_, z0, l0, v0, y0);
''','''      *z0 = xk_->z();
      *l0 = xk_->l();
      SolverOut output = PrepareOutput(ExitFlag::SUCCESS, prox_iters_,
                                       newton_iters_, *rk_, start_time, E0, os);
      *v0 = xk_->v();
      *y0 = xk_->y();
''')],
 HDR+r'''
int main() {
  auto p = RandomQp(3, 4, 1, 6);
  FBstabDense s(4, 1, 6);
  FBstabDense::Variable good(4, 1, 6); Sink q; s.Solve(p, &good, q);
  for (int n = 0; n < q.calls; n++) {
    FBstabDense::Variable x(4, 1, 6); x.z.fill(7); x.v.fill(7); x.l.fill(7); x.y.fill(7);
    FBstabDense::Variable before = x; Sink os; os.throw_at = n;
    bool threw = false;
    try { s.Solve(p, &x, os); } catch (const std::exception&) { threw = true; }
    if (!threw) continue;
    if (Same(x, before)) continue;
    if (Same(x.v, before.v) || Same(x.z, before.z)) FAIL("throw at print %d leaves a torn variable", n);
  }
  return 0;
}
''')

add('c07-busy-flag','C07',
 'a solve that ends in an exception (throwing stream, failed factorisation), then another solve on the same object',
 'A re-entrancy guard is set at the start of Solve and cleared only on the normal exits, so one failed call makes the solver refuse all later ones.',
 [(ALG,'''  // Make sure the linear solver and residuals objects are using the same value
''','''  if (busy_) {
    throw std::runtime_error("In FBstabAlgorithm::Solve: solver is in use.");
  }
  busy_ = true;

  // Make sure the linear solver and residuals objects are using the same value
'''),
  (ALG,'''  output.initial_residual = initial_residual;

  // Printing''','''  output.initial_residual = initial_residual;
  busy_ = false;

  // Printing'''),
  (ALGH,'  double combo_tol_ = 0.0;\n','  double combo_tol_ = 0.0;\n  mutable bool busy_ = false;  // guards against re-entrant use\n')],
 HDR+r'''
int main() {
  auto p = RandomQp(3, 4, 1, 6);
  FBstabDense s(4, 1, 6);
  auto o = FBstabDense::DefaultOptions(); o.display_level = Display::ITER; s.UpdateOptions(o);
  for (int n = 0; n < 6; n++) {
    FBstabDense::Variable x(4, 1, 6); Sink os; os.throw_at = n;
    try { s.Solve(p, &x, os); } catch (const std::exception&) {}
    FBstabDense::Variable y(4, 1, 6); Sink ok;
    try { if (s.Solve(p, &y, ok).eflag != ExitFlag::SUCCESS) FAIL("not solved"); } catch (const std::exception& e) { FAIL("after a failed call: %s", e.what()); }
  }
  return 0;
}
''')

add('c08-interior-warm-start','C08',
 'a warm start from a returned solution with inactive constraints',
 'Initial inequality duals are pushed off zero when the guess is read, so a solution given back as guess is changed (and may need further iterations).',
 [(ALG,'  x->v() = v;\n','  x->v() = v.cwiseMax(1e-12);  // start in the interior\n')],
 HDR+r'''
int main() {
  for (unsigned k = 1; k <= 30; k++) {
    auto p = RandomQp(k, 4, 1, 8);
    FBstabDense s(4, 1, 8);
    auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; s.UpdateOptions(o);
    FBstabDense::Variable x(4, 1, 8);
    SolverOut r = s.Solve(p, &x);
    if (r.eflag != ExitFlag::SUCCESS || r.residual > o.abs_tol) continue;
    FBstabDense::Variable w = x;
    SolverOut r2 = s.Solve(p, &w);
    if (r2.newton_iters || r2.prox_iters || !Same(w, x) || r2.residual != r.residual) FAIL("problem %u: restart from the solution changed it (%d steps)", k, r2.newton_iters);
  }
  return 0;
}
''')

add('c09-stdout-throws','C09',
 'standard output that is closed or full',
 'The default stream turns a failed write of a progress line into an exception, so a full disk under a redirected log aborts the solve.',
 [('tools/output_stream.h','  void PrintImplementation(const char* message) const { printf("%s", message); }\n',
  '''  void PrintImplementation(const char* message) const {
    if (printf("%s", message) < 0 || fflush(stdout) != 0) {
      throw std::runtime_error("In StandardOutput: cannot write to stdout.");
    }
  }
'''),('tools/output_stream.h','#include <cstdio>\n','#include <cstdio>\n#include <stdexcept>\n')],
 HDR+r'''
int main() {
  auto p = RandomQp(3, 4, 1, 6);
  if (!freopen("/dev/full", "w", stdout)) return 0;
  setvbuf(stdout, nullptr, _IONBF, 0);
  FBstabDense s(4, 1, 6);
  FBstabDense::Variable x(4, 1, 6);
  try { if (s.Solve(p, &x).eflag != ExitFlag::SUCCESS) return 1; } catch (const std::exception& e) { fprintf(stderr, "FAIL: %s\n", e.what()); return 1; }
  return 0;
}
''')

add('c10-stale-inner-residual','C10',
 'iteration level output on a solver object that has been used before',
 'The inner residual is not cleared at the start of a call, so the first line of the log shows a number of the previous solve.',
 [(ALG,'  ri_->Fill(0.0);\n','')],
 HDR+r'''
int main() {
  auto o = FBstabDense::DefaultOptions(); o.display_level = Display::ITER;
  FBstabDense s(4, 1, 6); s.UpdateOptions(o);
  auto strip = [](const std::string& t) { return t.substr(0, t.find("\nOptimization")); };
  for (unsigned k = 1; k < 20; k++) {
    auto p = RandomQp(k, 4, 1, 6);
    FBstabDense f(4, 1, 6); f.UpdateOptions(o);
    FBstabDense::Variable a(4, 1, 6), b(4, 1, 6); Sink oa, ob;
    s.Solve(p, &a, oa); f.Solve(p, &b, ob);
    if (strip(oa.text) != strip(ob.text)) FAIL("log of a used solver differs:\n%s---\n%s", strip(oa.text).c_str(), strip(ob.text).c_str());
  }
  return 0;
}
''')

add('c10-printed-tolerance','C10',
 'a relative tolerance that contributes to the tolerance in force',
 'The summary prints the absolute tolerance instead of the tolerance the residual was compared with.',
 [(ALG,'             r.l_norm(), r.v_norm(), combo_tol_);\n','             r.l_norm(), r.v_norm(), opts_.abs_tol);\n')],
 HDR+r'''
int main() {
  auto o = FBstabDense::ReliableOptions(); o.rel_tol = 1e-3;
  auto p = RandomQp(4, 4, 1, 6); p.f *= 100;
  FBstabDense s(4, 1, 6); s.UpdateOptions(o);
  FBstabDense::Variable x(4, 1, 6); Sink os; s.Solve(p, &x, os);
  double tol = o.abs_tol + o.rel_tol * (1 + std::sqrt(p.f.squaredNorm() + p.h.squaredNorm() + p.b.squaredNorm()));
  size_t at = os.text.rfind("Tolerance\n");
  double a, b, c, d;
  if (sscanf(os.text.c_str() + at + 10, "%lf %lf %lf %lf", &a, &b, &c, &d) != 4) FAIL("no summary");
  if (std::abs(d - tol) > 1e-3 * tol) FAIL("printed tolerance %g, in force %g", d, tol);
  return 0;
}
''')

add('c11-lost-option','C11',
 'two UpdateOptions calls on one object where the second lowers max_linesearch_iters again',
 'UpdateOptions never lowers the line search limit set earlier, so an earlier setting leaks into later solves.',
 [(ALG,'  opts_.max_linesearch_iters = options->max_linesearch_iters;\n','  opts_.max_linesearch_iters =\n      std::max(opts_.max_linesearch_iters, options->max_linesearch_iters);\n')],
 HDR+r'''
int main() {
  for (unsigned k = 1; k <= 400; k++) {
    auto p = RandomQp(k, 5, 0, 12); p.f *= 30;
    auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; o.nonmonotone_linesearch = false;
    auto few = o; few.max_linesearch_iters = 1;
    auto many = o; many.max_linesearch_iters = 60;
    FBstabDense a(5, 0, 12), b(5, 0, 12);
    a.UpdateOptions(few); b.UpdateOptions(many); b.UpdateOptions(few);
    a.UpdateOptions(few);
    FBstabDense c(5, 0, 12); c.UpdateOptions(many); 
    FBstabDense::Variable xa(5, 0, 12), xb(5, 0, 12); Rnd g(k); xa.z = 20 * g.v(5); xa.v = 20 * g.v(12); xb = xa;
    SolverOut ra = a.Solve(p, &xa), rb = b.Solve(p, &xb);
    // Both objects were last told to use one line search step. An Armijo backtrack
    // leaves a step of length 1 or beta; the log shows any other.
    FBstabDense::Variable xl(5, 0, 12); Rnd g2(k); xl.z = 20 * g2.v(5); xl.v = 20 * g2.v(12);
    auto log = few; log.display_level = Display::ITER_DETAILED; a.UpdateOptions(log);
    Sink os; a.Solve(p, &xl, os);
    size_t at = 0;
    os.text = os.text.substr(0, os.text.find("\nOptimization"));
    while ((at = os.text.find('\n', at)) != std::string::npos) {
      at++; int it; double t, z;
      if (sscanf(os.text.c_str() + at, "%d %lf %lf", &it, &t, &z) == 3 && it > 0 && t < o.beta * 0.999) FAIL("problem %u: step %g with one line search iteration", k, t);
    }
    if (!Same(xa, xb)) FAIL("problem %u: an earlier option setting matters", k);
    (void)ra; (void)rb;
  }
  return 0;
}
''')

add('c11-sigma-order','C11',
 'a caller who sets sigma_max below the admissible range',
 'sigma0 is projected onto the raw sigma_max before sigma_max itself is brought into range: sigma0 ends below its admissible value, or the update throws.',
 [(ALG,'''  sigma_max = tools::saturate(sigma_max, 1e-6, 1e2);
  sigma_min = tools::saturate(sigma_min, 1e-13, 1e-8);
  sigma0 = tools::saturate(sigma0, sigma_min, sigma_max);
''','''  sigma_min = tools::saturate(sigma_min, 1e-13, 1e-8);
  sigma0 = tools::saturate(sigma0, sigma_min, sigma_max);
  sigma_max = tools::saturate(sigma_max, 1e-6, 1e2);
''')],
 HDR+r'''
int main() {
  for (double smax : {1e-20, 1e-12, 1e-9, 0.0, -1.0}) {
    for (double s0 : {1e-8, 1e-7}) {
      AlgorithmParameters p; p.DefaultParameters(); p.sigma_max = smax; p.sigma0 = s0; p.sigma_min = 1e-11;
      try { p.ValidateOptions(); } catch (const std::exception& e) { FAIL("sigma_max=%g: %s", smax, e.what()); }
      if (p.sigma0 != s0) FAIL("sigma_max=%g: admissible sigma0 %g became %g", smax, s0, p.sigma0);
    }
  }
  return 0;
}
''')

add('c12-leak-on-failed-construction','C12',
 'memory running out while a solver object is being built, between the first and the last of its variables',
 'The variables are first created through raw pointers and handed to their owners afterwards, so a failed construction leaks the ones already created.',
 [('fbstab/fbstab_mpc.cc','''  x1_ = tools::make_unique<FullVariable>(nz_, nl_, nv_);
  x2_ = tools::make_unique<FullVariable>(nz_, nl_, nv_);
  x3_ = tools::make_unique<FullVariable>(nz_, nl_, nv_);
  x4_ = tools::make_unique<FullVariable>(nz_, nl_, nv_);
''','''  FullVariable* x[4];
  for (int i = 0; i < 4; i++) {
    x[i] = new FullVariable(nz_, nl_, nv_);
  }
  x1_.reset(x[0]);
  x2_.reset(x[1]);
  x3_.reset(x[2]);
  x4_.reset(x[3]);
''')],
 HDR+r'''
#include <new>
static long live = 0; static long countdown = -1;
void* operator new(size_t n) { if (countdown >= 0 && countdown-- == 0) throw std::bad_alloc(); live++; return malloc(n); }
void operator delete(void* p) noexcept { if (p) live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) live--; free(p); }
int main() {
  for (long k = 0; k < 40; k++) {
    long before = live; countdown = k; bool threw = false;
    try { FBstabMpc s(2, 2, 1, 2); } catch (const std::bad_alloc&) { threw = true; }
    countdown = -1;
    if (live != before) FAIL("allocation %ld failing: %ld objects leaked", k, live - before);
    if (!threw) break;
  }
  return 0;
}
''')

add('c13-late-start','C13',
 'an output device that stalls while the header is printed',
 'The start time is taken after the header is printed, so the reported time is shorter than the time between the first and last progress line.',
 [(ALG,'  const time_point start_time{clock::now() /* dummy */};\n\n',''),
  (ALG,'  PrintIterHeader(os);\n\n  // Main','  PrintIterHeader(os);\n  const time_point start_time{clock::now() /* dummy */};\n\n  // Main')],
 HDR+r'''
#include <chrono>
#include <thread>
struct Slow : OutputStream<Slow> {
  mutable std::chrono::steady_clock::time_point first, last; mutable int n = 0;
  void PrintImplementation(const char* m) const {
    auto t = std::chrono::steady_clock::now(); if (!n++) first = t;
    if (!strstr(m, "Optimization")) { if (n < 20 && !done) last = t; } else done = true;
    if (n < 4) std::this_thread::sleep_for(std::chrono::milliseconds(30));
  }
  mutable bool done = false;
};
int main() {
  auto o = FBstabDense::DefaultOptions(); o.display_level = Display::ITER;
  auto p = RandomQp(4, 4, 1, 6);
  FBstabDense s(4, 1, 6); s.UpdateOptions(o);
  FBstabDense::Variable x(4, 1, 6); Slow os;
  SolverOut r = s.Solve(p, &x, os);
  double seen = std::chrono::duration<double>(os.last - os.first).count();
  if (r.solve_time < seen) FAIL("reported %g s, %g s passed between the first and last line", r.solve_time, seen);
  return 0;
}
''')

add('c14-terminal-cross-term','C14',
 'an optimal control problem whose terminal stage has a constraint that couples state and input',
 'The terminal stage of the Riccati factorisation uses the cost cross term without the contribution of the active mixed constraints.',
 [('fbstab/components/riccati_linear_solver.cc','  SM_[N_] = S_[N_];\n','  SM_[N_] = data_->S_(N_);\n')],
 HDR+r'''
int main() {
  auto o = FBstabMpc::DefaultOptions(); o.display_level = Display::OFF;
  for (unsigned k = 1; k <= 100; k++) {
    auto p = RandomOcp(k, 2, 2, 2, 5);
    auto d = Condense(p);
    FBstabMpc s(2, 2, 2, 5); s.UpdateOptions(o);
    FBstabDense t(d.f.size(), d.h.size(), d.b.size()); auto q = FBstabDense::DefaultOptions(); q.display_level = Display::OFF; t.UpdateOptions(q);
    FBstabMpc::Variable x(2, 2, 2, 5); FBstabDense::Variable y(d.f.size(), d.h.size(), d.b.size());
    SolverOut a = s.Solve(p, &x), b = t.Solve(d, &y);
    if (a.eflag != b.eflag || a.newton_iters > 3 * b.newton_iters + 10) FAIL("problem %u: mpc %d (%d steps), dense %d (%d steps)", k, (int)a.eflag, a.newton_iters, (int)b.eflag, b.newton_iters);
  }
  return 0;
}
''')

add('c14-solver-alpha','C14',
 'a penalty weight other than the default',
 'The penalty weight is no longer passed on to the linear solver, so the directions belong to another system than the residual.',
 [(ALG,'  linear_solver_->SetAlpha(opts_.alpha);\n','')],
 HDR+r'''
// With a matching Jacobian, Newton's method converges fast for any alpha.
int main() {
  int slow = 0, n = 0;
  for (unsigned k = 1; k <= 60; k++) {
    auto p = RandomQp(k, 6, 1, 12);
    int it[2];
    for (int j = 0; j < 2; j++) {
      auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; o.alpha = j ? 0.3 : 0.95; o.abs_tol = 1e-9;
      FBstabDense s(6, 1, 12); s.UpdateOptions(o);
      FBstabDense::Variable x(6, 1, 12);
      SolverOut r = s.Solve(p, &x);
      it[j] = r.eflag == ExitFlag::SUCCESS ? r.newton_iters : 1000;
    }
    n++; if (it[1] > 3 * it[0] + 10) slow++;
  }
  printf("slow %d of %d\n", slow, n);
  if (slow > n / 4) FAIL("no Newton convergence with alpha = 0.3 in %d of %d problems", slow, n);
  return 0;
}
''')

add('c15-first-offset','C15',
 'an optimal control problem whose dynamics offsets differ between stages',
 'The equality right hand side uses the offset of the first stage at every stage, so the MPC front end solves another problem than the dense one.',
 [('fbstab/components/mpc_data.cc',"    w.col(i) += -a * c_(i - 1);\n","    w.col(i) += -a * c_(0);\n")],
 HDR+r'''
int main() {
  auto o = FBstabMpc::DefaultOptions(); o.display_level = Display::OFF;
  auto q = FBstabDense::DefaultOptions(); q.display_level = Display::OFF;
  for (unsigned k = 1; k <= 30; k++) {
    auto p = RandomOcp(k, 3, 2, 1, 3);
    auto d = Condense(p);
    FBstabMpc s(3, 2, 1, 3); s.UpdateOptions(o);
    FBstabDense t(d.f.size(), d.h.size(), d.b.size()); t.UpdateOptions(q);
    FBstabMpc::Variable x(3, 2, 1, 3); FBstabDense::Variable y(d.f.size(), d.h.size(), d.b.size());
    SolverOut a = s.Solve(p, &x), b = t.Solve(d, &y);
    if (a.eflag != b.eflag || (x.z - y.z).norm() > 1e-3 * (1 + y.z.norm())) FAIL("problem %u: mpc %d dense %d, difference %g", k, (int)a.eflag, (int)b.eflag, (x.z - y.z).norm());
  }
  return 0;
}
''')

add('c01-forcing-norm','C01',
 'an optimal control problem with a large measured state, small offsets and a relative tolerance',
 'The norm of the problem data counts the initial state once per stage, so the tolerance is larger than documented and unfinished points are called Success.',
 [('fbstab/components/mpc_data.h','      forcing_norm_ += (i == 0 ? x0_.squaredNorm() : c_(i - 1).squaredNorm());\n','      forcing_norm_ += x0_.squaredNorm();\n      forcing_norm_ += (i == 0 ? 0.0 : c_(i - 1).squaredNorm());\n')],
 HDR+r'''
int main() {
  auto o = FBstabMpc::DefaultOptions(); o.display_level = Display::OFF; o.rel_tol = 1e-2; o.abs_tol = 1e-10;
  for (unsigned k = 1; k <= 200; k++) {
    auto p = RandomOcp(k, 12, 2, 1, 2);
    for (int i = 0; i <= 12; i++) { p.q(i) *= 1e-3; p.r(i) *= 1e-3; p.d(i).setConstant(-1e-3); p.E(i).setZero(); p.L(i) *= 1e-3; }
    p.x0 *= 1;
    auto d = Condense(p);
    double tol = o.abs_tol + o.rel_tol * (1 + std::sqrt(d.f.squaredNorm() + d.h.squaredNorm() + d.b.squaredNorm()));
    FBstabMpc s(12, 2, 1, 2); s.UpdateOptions(o);
    // guesses at increasing distance from the solution
    FBstabMpc::Variable x(12, 2, 1, 2); auto tight = o; tight.rel_tol = 0; s.UpdateOptions(tight); s.Solve(p, &x); s.UpdateOptions(o);
    Rnd g(k); VectorXd dir = g.v(x.z.size());
    for (double h = 1e-4; h < 10; h *= 1.1) {
      FBstabMpc::Variable w = x; w.z += h * dir;
      SolverOut r = s.Solve(p, &w);
      double e = Pen(d, w.z, w.l, w.v, o.alpha);
      if (r.eflag == ExitFlag::SUCCESS && r.newton_iters == 0 && e > 1.001 * tol) FAIL("problem %u: Success with residual %g, tolerance %g", k, e, tol);
    }
  }
  return 0;
}
''')

add('c16-scaled-guard','C16',
 'a controller restarted with a corrupted warm start of huge magnitude',
 'The guard value of the step used by the stall test is scaled with the initial guess, so a huge corrupted warm start makes it look like a converged step and is accepted as a solution.',
 [(ALG,'  dx_->Fill(1.0);\n','  dx_->Fill(1.0 / (1.0 + xk_->Norm()));\n')],
 HDR+r'''
int main() {
  auto o = FBstabMpc::DefaultOptions(); o.display_level = Display::OFF;
  for (unsigned k = 1; k <= 400; k++) {
    auto p = RandomOcp(k, 3, 2, 1, 3);
    auto d = Condense(p);
    for (double mag = 1e6; mag < 1e16; mag *= 10) {
      FBstabMpc s(3, 2, 1, 3); s.UpdateOptions(o);
      FBstabMpc::Variable x(3, 2, 1, 3); Rnd g(k);
      if (k % 3 == 0) x.z(g.g() % x.z.size()) = mag; else if (k % 3 == 1) x.v(g.g() % x.v.size()) = mag; else x.l(g.g() % x.l.size()) = mag;
      SolverOut r;
      try { r = s.Solve(p, &x); } catch (const std::exception&) { continue; }
      double e = Pen(d, x.z, x.l, x.v, o.alpha);
      if (r.eflag == ExitFlag::SUCCESS && e > 1e-2) FAIL("problem %u, warm start %g: Success with residual %g", k, mag, e);
    }
  }
  return 0;
}
''')

add('c02-trusted-margin','C02',
 'a warm start whose margin part is stale (restored from an earlier problem) while the rest is arbitrary',
 'The margin of a warm start is taken from the caller instead of being recomputed, so a controller restarted with stale memory optimises against a wrong constraint margin.',
 [(ALG,'''  std::ignore = y;  // x->y will be overwritten by InitializeConstraintMargin
''',''),(ALG,'''  x->v() = v;
  x->InitializeConstraintMargin();
''','''  x->v() = v;
  x->InitializeConstraintMargin();
  if ((y - x->y()).norm() <= 0.5 * y.norm()) {
    x->y() = y;  // a warm start brings its margin along
  }
''')],
 HDR+r'''
int main() {
  auto o = FBstabMpc::DefaultOptions(); o.display_level = Display::OFF;
  for (unsigned k = 1; k <= 60; k++) {
    auto p = RandomOcp(k, 3, 2, 1, 3);
    FBstabMpc s(3, 2, 1, 3); s.UpdateOptions(o);
    FBstabMpc::Variable x(3, 2, 1, 3);
    s.Solve(p, &x);
    p.x0 *= 0.9; for (int i = 0; i <= 3; i++) p.d(i).array() += 0.05;   // the next step of the loop
    auto d = Condense(p);
    SolverOut r = s.Solve(p, &x);
    double e = Pen(d, x.z, x.l, x.v, o.alpha);
    if (r.eflag == ExitFlag::SUCCESS && e > 1e-5) FAIL("problem %u: Success with residual %g", k, e);
    FBstabMpc::Variable a(3, 2, 1, 3), b(3, 2, 1, 3); a = x; b = x; for (int i = 0; i < b.y.size(); i++) b.y(i) *= 1.01;
    p.x0 *= 0.9;
    SolverOut ra = s.Solve(p, &a), rb = s.Solve(p, &b);
    if (ra.initial_residual != rb.initial_residual) FAIL("problem %u: the margin of the guess matters", k);
  }
  return 0;
}
''')

add('c14-lti-dynamics','C14',
 'an optimal control problem with time-varying input matrices and active input constraints',
 'The Riccati factorisation uses the input matrix of the first stage at every stage.',
 [('fbstab/components/riccati_linear_solver.cc',"    P_[i] -= data_->B_(i);\n","    P_[i] -= data_->B_(0);\n")],
 HDR+r'''
int main() {
  auto o = FBstabMpc::DefaultOptions(); o.display_level = Display::OFF;
  for (unsigned k = 1; k <= 30; k++) {
    auto p = RandomOcp(k, 3, 2, 1, 3);
    FBstabMpc s(3, 2, 1, 3); s.UpdateOptions(o);
    FBstabMpc::Variable x(3, 2, 1, 3);
    SolverOut a = s.Solve(p, &x);
    if (a.eflag != ExitFlag::SUCCESS || a.newton_iters > 40) FAIL("problem %u: verdict %d after %d steps", k, (int)a.eflag, a.newton_iters);
  }
  return 0;
}
''')

add('c17-negative-index','C17',
 'an index below zero, e.g. from a horizon counted down one step too far',
 'The mutable access to a matrix sequence checks only the upper end of the index range.',
 [('tools/matrix_sequence.h','''  Eigen::Map<Eigen::MatrixXd> operator()(int k) {
    if (k < 0 || k >= N_) {''','''  Eigen::Map<Eigen::MatrixXd> operator()(int k) {
    if (k >= N_) {''')],
 HDR+r'''
int main() {
  MatrixSequence a(3, 2, 2);
  for (int k : {-1, -7, 3, 9}) {
    bool threw = false;
    try { a(k); } catch (const std::exception&) { threw = true; }
    if (!threw) FAIL("index %d accepted", k);
  }
  return 0;
}
''')

add('c18-margin-size','C18',
 'a warm start object whose margin vector has another length than the other parts',
 'The length of the margin part of the guess is not checked any more: the solver silently resizes it (or aborts on a mapped one).',
 [('fbstab/fbstab_mpc.h','''    if (x.z.size() != nz_ || x.l.size() != nl_ || x.v.size() != nv_ ||
        x.y.size() != nv_) {''','''    if (x.z.size() != nz_ || x.l.size() != nl_ || x.v.size() != nv_) {''')],
 HDR+r'''
int main() {
  auto p = RandomOcp(1, 3, 2, 1, 3);
  FBstabMpc s(3, 2, 1, 3);
  for (int n : {0, 1, 11, 13, 40}) {
    FBstabMpc::Variable x(3, 2, 1, 3); x.y = VectorXd::Zero(n); Sink os; bool threw = false;
    try { s.Solve(p, &x, os); } catch (const std::runtime_error&) { threw = true; }
    if (!threw || os.calls || x.y.size() != n) FAIL("margin of length %d accepted", n);
  }
  return 0;
}
''')

add('c18-sequence-length','C18',
 'an input constraint sequence that is longer than the horizon',
 'The length of the sequence L is not compared with the horizon any more, so inconsistent problem data are solved as if they were fine.',
 [('fbstab/components/mpc_data.cc','  OK = OK && N == L_.length();\n','  OK = OK && N <= L_.length();\n')],
 HDR+r'''
int main() {
  auto p = RandomOcp(1, 3, 2, 1, 3);
  FBstabMpc s(3, 2, 1, 3);
  for (int n : {1, 3, 5, 9}) {
    auto q = p; q.L = MatrixSequence(n, 3, 1); for (int i = 0; i < n; i++) q.L(i) = p.L(std::min(i, 3));
    FBstabMpc::Variable x(3, 2, 1, 3); Sink os; bool threw = false;
    try { s.Solve(q, &x, os); } catch (const std::runtime_error&) { threw = true; }
    if (!threw) FAIL("sequence of length %d accepted", n);
  }
  return 0;
}
''')

def run(only):
    from concurrent.futures import ThreadPoolExecutor
    def work(id):
        prop,needs,what,edits,demo=S[id]
        wt=f'/tmp/sd/wt-{id}'
        subprocess.run(['/bin/rm','-rf',wt]); subprocess.run(['git','-C','/repo','worktree','prune'])
        subprocess.run(['cp','-a','/repo',wt],check=True)
        subprocess.run(['/bin/rm','-rf',wt+'/_build'])
        for f,o,n in edits:
            t=open(f'{wt}/{f}').read()
            if t.count(o)!=1: return id,f'edit does not match ({t.count(o)}) {f}: {o[:50]!r}'
            open(f'{wt}/{f}','w').write(t.replace(o,n))
        out=f'/tmp/sd/out/{id}'; os.makedirs(out,exist_ok=True)
        diff=subprocess.run(['git','-C',wt,'diff'],capture_output=True,text=True).stdout
        open(out+'/patch.diff','w').write(diff)
        open(out+'/demo.cc','w').write(demo); shutil.copy(HERE+'/common.h',out); shutil.copy(HERE+'/demo.sh',out); os.chmod(out+'/demo.sh',0o755)
        json.dump({'property':prop,'needs':needs,'what_it_breaks':what},open(out+'/meta.json','w'),indent=1)
        a=subprocess.run(['bash',out+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
        b=subprocess.run(['bash',out+'/demo.sh'],cwd=wt,capture_output=True,text=True)
        res=f'clean rc={a.returncode} {(a.stdout+a.stderr)[-150:]!r} | patched rc={b.returncode} {(b.stdout+b.stderr)[-200:]!r}'
        # build and test
        sh=open('/opt/vp/build.sh').read().replace('/repo',wt); open(f'/tmp/sd/b-{id}.sh','w').write(sh)
        bb=subprocess.run(['bash',f'/tmp/sd/b-{id}.sh'],capture_output=True,text=True)
        t=subprocess.run(['ctest','--test-dir',wt+'/_build','-j4','--timeout','60'],capture_output=True,text=True)
        tail=[l for l in t.stdout.splitlines() if 'tests passed' in l or 'Failed' in l]
        res+=f' | build {bb.returncode} tests {tail}'
        subprocess.run(['/bin/rm','-rf',wt+'/_build'])
        ok = a.returncode==0 and b.returncode not in(0,) and bb.returncode==0 and t.returncode==0
        return id,('OK ' if ok else 'BAD ')+res
    ids=only or list(S)
    with ThreadPoolExecutor(4) as ex:
        for id,r in ex.map(work,ids): print(id,r,flush=True)
if __name__=='__main__':
    run(sys.argv[1:])
