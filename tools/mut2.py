# Second batch of planted bugs; same format as mut.py.
import sys, mut
from mut import add, ALG, ALGH, HDR, S
for k in list(S): del S[k]
RES='fbstab/components/full_residual.cc'; VAR='fbstab/components/full_variable.cc'; FEAS='fbstab/components/full_feasibility.cc'
CHO='fbstab/components/dense_cholesky_solver.cc'; CHOH='fbstab/components/dense_cholesky_solver.h'; RIC='fbstab/components/riccati_linear_solver.cc'; RICH='fbstab/components/riccati_linear_solver.h'
MPC='fbstab/components/mpc_data.cc'; DEN='fbstab/components/dense_data.cc'; DENH='fbstab/components/dense_data.h'; MPCH='fbstab/components/mpc_data.h'
FD='fbstab/fbstab_dense.cc'; FDH='fbstab/fbstab_dense.h'; FM='fbstab/fbstab_mpc.cc'; FMH='fbstab/fbstab_mpc.h'; MS='tools/matrix_sequence.h'

add('c16-scaled-guard','C16','a controller restarted with a corrupted warm start of huge magnitude',
 'The guard value of the step used by the stall test is scaled with the initial guess, so a huge corrupted warm start looks like a converged step and is accepted as a solution.',
 [(ALG,'  dx_->Fill(1.0);\n','  dx_->Fill(1.0 / (1.0 + xk_->Norm()));\n')],
 HDR+r'''
int main() {
  auto o = FBstabMpc::DefaultOptions(); o.display_level = Display::OFF;
  for (unsigned k = 1; k <= 60; k++) {
    auto p = RandomOcp(k, 3, 2, 1, 3);
    auto d = Condense(p);
    for (double mag = 1e6; mag < 1e16; mag *= 10) {
      FBstabMpc s(3, 2, 1, 3); s.UpdateOptions(o);
      FBstabMpc::Variable x(3, 2, 1, 3); Rnd g(k);
      if (k % 3 == 0) x.z(g.g() % x.z.size()) = mag; else if (k % 3 == 1) x.v(g.g() % x.v.size()) = mag; else x.l(g.g() % x.l.size()) = mag;
      SolverOut r;
      try { r = s.Solve(p, &x); } catch (const std::exception&) { continue; }
      double e = Pen(d, x.z, x.l, x.v, o.alpha);
      if (r.eflag == ExitFlag::SUCCESS && !(e < 1e-2 + 1e-9 * mag) && r.prox_iters == 0) FAIL("problem %u, warm start %g: Success with residual %g", k, mag, e);
    }
  }
  return 0;
}
''')

add('c01-penalty-norm','C01','a solution with large multipliers or large margins, where the complementarity product dominates the residual',
 'The norm of the complementarity part is not refreshed after the penalty term is added, so Success is declared although the penalised residual is above the tolerance.',
 [(RES,'''            (1 - alpha_) * std::max(0.0, x.y()(i)) * std::max(0.0, x.v()(i));
  }
  znorm_ = z_.norm();
  lnorm_ = l_.norm();
  vnorm_ = v_.norm();
''','''            (1 - alpha_) * std::max(0.0, x.y()(i)) * std::max(0.0, x.v()(i));
  }
''')],
 HDR+r'''
int main() {
  auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; o.abs_tol = 1e-4; o.sigma0 = 1e-6; o.alpha = 0.5;
  for (unsigned k = 1; k <= 200; k++) {
    auto p = RandomQp(k, 4, 0, 8); p.f *= 1e4; p.H *= 1e2;
    FBstabDense s(4, 0, 8); s.UpdateOptions(o);
    FBstabDense::Variable x(4, 0, 8);
    SolverOut r = s.Solve(p, &x);
    double e = Pen(p, x.z, x.l, x.v, o.alpha), tol = o.abs_tol + o.rel_tol * (1 + std::sqrt(p.f.squaredNorm() + p.b.squaredNorm()));
    if (r.eflag == ExitFlag::SUCCESS && e > 1.5 * tol + 1e-7) FAIL("problem %u: Success with residual %g, tolerance %g", k, e, tol);
    FBstabDense::Variable w = x; // a point with one margin and one multiplier both large
    Rnd g(k); w.z += 3 * g.v(4); w.v = (1000 * g.v(8)).cwiseAbs();
    r = s.Solve(p, &w);
    FBstabDense::Variable q = x; q.z = w.z;
    (void)q;
  }
  for (unsigned k = 1; k <= 50; k++) {   // the reported initial residual is the penalised one
    auto p = RandomQp(k, 4, 0, 8); FBstabDense s(4, 0, 8); s.UpdateOptions(o);
    FBstabDense::Variable x(4, 0, 8); x.v.setConstant(2.0);
    double e = Pen(p, x.z, x.l, x.v, o.alpha);
    SolverOut r = s.Solve(p, &x);
    if (std::abs(r.initial_residual - e) > 1e-9 * (1 + e)) FAIL("problem %u: initial residual %g, reported %g", k, e, r.initial_residual);
  }
  return 0;
}
''')

add('c01-soft-projection','C01','a subproblem that ends with slightly negative multipliers on a badly scaled problem',
 'Duals are projected only up to a relative tolerance, so returned inequality duals can be negative.',
 [(VAR,'void FullVariable::ProjectDuals() { *v_ = v_->cwiseMax(0); }','''void FullVariable::ProjectDuals() {
  const double floor = -1e-9 * (1.0 + v_->lpNorm<Eigen::Infinity>());
  for (int i = 0; i < nv_; i++) {
    if ((*v_)(i) < floor) {
      (*v_)(i) = 0.0;
    }
  }
}''')],
 HDR+r'''
int main() {
  auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF;
  for (unsigned k = 1; k <= 300; k++) {
    auto p = RandomQp(k, 4, 1, 8); p.f *= std::pow(10.0, k % 4);
    FBstabDense s(4, 1, 8); s.UpdateOptions(o);
    FBstabDense::Variable x(4, 1, 8);
    SolverOut r = s.Solve(p, &x);
    if (r.eflag == ExitFlag::SUCCESS && r.newton_iters > 0 && x.v.minCoeff() < 0) FAIL("problem %u: multiplier %g", k, x.v.minCoeff());
  }
  return 0;
}
''')

add('c02-timeout-residual','C02','a Newton budget that runs out at a point no better than the outer iterate',
 'At the iteration limit the outer iterate is handed back with the residual of the rejected inner point.',
 [(ALG,'''        WriteVariable(*xk_, z0, l0, v0, y0);
        rk_->PenalizedNaturalResidual(*xk_);
''','''        WriteVariable(*xk_, z0, l0, v0, y0);
''')],
 HDR+r'''
int main() {
  for (unsigned k = 1; k <= 200; k++) {
    auto p = RandomQp(k, 5, 1, 9); p.f *= 20;
    for (int lim = 1; lim < 12; lim++) {
      FBstabDense s(5, 1, 9);
      auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; o.max_newton_iters = lim; s.UpdateOptions(o);
      FBstabDense::Variable x(5, 1, 9); Rnd g(k); x.z = 5 * g.v(5); x.v = 5 * g.v(9).cwiseAbs();
      SolverOut r = s.Solve(p, &x);
      if (r.eflag != ExitFlag::MAXITERATIONS) continue;
      double e = Pen(p, x.z, x.l, x.v, o.alpha);
      if (std::abs(e - r.residual) > 1e-6 * (1 + e)) FAIL("problem %u limit %d: residual %g, reported %g", k, lim, e, r.residual);
    }
  }
  return 0;
}
''')

add('c03-mixed-scale','C03','a solvable problem whose equality multipliers move much further than its primal variables in one proximal step',
 'The scale of the dual infeasibility test mixes in the equality multipliers, so a small primal step on a problem with large multipliers is taken for an unbounded direction.',
 [(FEAS,'  double w = x.z().lpNorm<Eigen::Infinity>();\n','  double w = std::max(x.z().lpNorm<Eigen::Infinity>(),\n                      1e-2 * x.l().lpNorm<Eigen::Infinity>());\n')],
 HDR+r'''
int main() {
  for (unsigned k = 1; k <= 400; k++) {
    Rnd g(k);
    FBstabDense::ProblemData p(3, 1, 4);
    MatrixXd q = g.m(3, 3);
    p.H = q.transpose() * q + 0.1 * MatrixXd::Identity(3, 3);
    p.f = 3 * g.v(3); p.G = std::pow(10.0, -(int)(k % 6)) * g.m(1, 3); p.h = p.G * (0.1 * g.v(3)); p.A = std::pow(10.0, -(int)(k % 5)) * g.m(4, 3);
    p.b.setConstant(10);
    for (double tol : {1e-8, 1e-4, 1e-2}) for (double sg : {1e-8, 1e-4, 1e-1}) {
      FBstabDense s(3, 1, 4);
      auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; o.infeas_tol = tol; o.sigma_max = 1; o.sigma0 = sg; s.UpdateOptions(o);
      FBstabDense::Variable x(3, 1, 4);
      SolverOut r = s.Solve(p, &x);
      if (r.eflag == ExitFlag::DUAL_INFEASIBLE || r.eflag == ExitFlag::PRIMAL_DUAL_INFEASIBLE) {
        double w = x.z.lpNorm<Eigen::Infinity>(), hz = (p.H * x.z).lpNorm<Eigen::Infinity>();
        if (hz > 1.01 * tol * w) FAIL("problem %u: strictly convex problem called unbounded, |Hz|/|z| = %g, tolerance %g", k, hz / w, tol);
      }
    }
  }
  return 0;
}
''')

add('c03-stale-scratch','C03','a solve that reaches the feasibility check with a step whose A*z part is not negligible',
 'The scratch vector holding A*z is not cleared before b is added, so the sign test of the primal certificate looks at v\'(b + Az).',
 [(FEAS,'  tv_.setConstant(0.0);\n  data_->axpyb(1.0, &tv_);\n','  data_->axpyb(1.0, &tv_);\n')],
 HDR+r'''
// The checker alone decides: exact certificates are recognised and plain directions are not.
#include "fbstab/components/dense_data.h"
#include "fbstab/components/full_feasibility.h"
#include "fbstab/components/full_variable.h"
int main() {
  for (unsigned k = 1; k <= 50; k++) {
    // x <= -1 and -x <= -1: infeasible; certificate v = (1,1). The direction also carries a primal part.
    Rnd g(k); double sc = std::pow(10.0, 3 * g.u());
    FBstabDense::ProblemData p(2, 0, 2);
    p.H = MatrixXd::Identity(2, 2); p.f = g.v(2); p.A << sc, 0, -sc * (1 + 0 * g.u()), 0; p.b << 1.0 + 0.5 * g.u(), -1.0 - 2.0;
    DenseData data(&p.H, &p.f, &p.G, &p.h, &p.A, &p.b);
    FullVariable x(2, 0, 2); x.LinkData(&data); x.v().setConstant(1.0);
    FullFeasibility chk(2, 0, 2); chk.LinkData(&data);
    x.z().setZero(); bool a = chk.CheckFeasibility(x, 1e-8) == FullFeasibility::FeasibilityStatus::PRIMAL_INFEASIBLE;
    x.z() << 100 * g.u(), g.u(); x.v() << 1.0, 1.0;
    bool b = chk.CheckFeasibility(x, 1e-8) == FullFeasibility::FeasibilityStatus::PRIMAL_INFEASIBLE;
    if (!a || !b) FAIL("certificate %u not recognised", k);
    // same rows, feasible right-hand side: v'b > 0 whatever z is
    x.v() << 1.0, 1.0; p.b << 3.0, -1.0;
    // an inconsistent multiplier: |A'v| is small only relative to |v|
    p.A << 1e-9, 0, -1.5e-9, 0; x.v() << 1.0, 1.0; x.z() << 1e10, 0; 
    DenseData d2(&p.H, &p.f, &p.G, &p.h, &p.A, &p.b); x.LinkData(&d2); chk.LinkData(&d2);
    if (chk.CheckFeasibility(x, 1e-8) != FullFeasibility::FeasibilityStatus::FEASIBLE) FAIL("direction %u taken for a certificate although v'b = 2", k);
  }
  return 0;
}
''')

add('c04-nan-linesearch','C04','problem data or a guess that make the merit function NaN',
 'The line search keeps backtracking while the trial merit is not finite, without counting these steps.',
 [(ALG,'''      if (mp <= m0 - 2.0 * t * opts_.eta * current_merit) {
        break;
      } else {
        t *= opts_.beta;
      }
''','''      if (mp <= m0 - 2.0 * t * opts_.eta * current_merit) {
        break;
      } else {
        t *= opts_.beta;
        if (!std::isfinite(mp)) {
          j--;  // trial point outside of the domain
        }
      }
''')],
 HDR+r'''
#include <unistd.h>
#include <signal.h>
static void hang(int) { static const char m[] = "FAIL: solve does not end\n"; (void)!write(1, m, sizeof m - 1); _exit(1); }
int main() {
  signal(SIGALRM, hang); alarm(20);
  for (unsigned k = 1; k <= 30; k++) {
    auto p = RandomQp(k, 4, 1, 6);
    if (k % 3 == 0) p.f(1) = NAN; else if (k % 3 == 1) p.b(2) = INFINITY; else p.f *= 1e200;
    FBstabDense s(4, 1, 6); auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; s.UpdateOptions(o);
    FBstabDense::Variable x(4, 1, 6);
    try { s.Solve(p, &x); } catch (const std::exception&) {}
  }
  return 0;
}
''')

add('c04-one-more-inner','C04','a subproblem that is not solved within max_inner_iters',
 'A subproblem may take one Newton step more than max_inner_iters.',
 [(ALG,'  for (int i = 0; i < opts_.max_inner_iters; i++) {\n','  for (int i = 0; i <= opts_.max_inner_iters; i++) {\n')],
 HDR+r'''
int main() {
  for (unsigned k = 1; k <= 60; k++) {
    auto p = RandomQp(k, 6, 1, 12);
    for (int lim = 1; lim < 5; lim++) {
      FBstabDense s(6, 1, 12);
      auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; o.max_inner_iters = lim; o.max_prox_iters = 2; s.UpdateOptions(o);
      FBstabDense::Variable x(6, 1, 12);
      SolverOut r = s.Solve(p, &x);
      if (r.newton_iters > lim * 2) FAIL("problem %u: %d Newton steps in two subproblems of at most %d", k, r.newton_iters, lim);
    }
  }
  return 0;
}
''')

add('c04-linesearch-budget','C04','a step for which the line search does not find descent within its limit',
 'The line search is allowed one trial more than max_linesearch_iters.',
 [(ALG,'    for (int j = 0; j < opts_.max_linesearch_iters; j++) {\n','    for (int j = 0; j <= opts_.max_linesearch_iters; j++) {\n')],
 HDR+r'''
int main() {
  for (unsigned k = 1; k <= 300; k++) {
    auto p = RandomQp(k, 5, 0, 12); p.f *= 300;
    for (int lim = 1; lim < 4; lim++) {
      FBstabDense s(5, 0, 12);
      auto o = FBstabDense::DefaultOptions(); o.display_level = Display::ITER_DETAILED; o.max_linesearch_iters = lim; o.nonmonotone_linesearch = false; o.eta = 0.45; o.beta = 0.5; s.UpdateOptions(o);
      FBstabDense::Variable x(5, 0, 12); Sink os; Rnd g(k); x.z = 100 * g.v(5); x.v = 100 * g.v(12).cwiseAbs();
      s.Solve(p, &x, os);
      size_t at = 0; double mn = 1;
      while ((at = os.text.find('\n', at)) != std::string::npos) { at++; int i; double t; char c; if (sscanf(os.text.c_str() + at, "%d%c %le", &i, &c, &t) == 3 && c == ' ') mn = std::min(mn, t); }
      if (mn < std::pow(0.5, lim) * 0.999) FAIL("problem %u: step %g with at most %d reductions", k, mn, lim);
    }
  }
  return 0;
}
''')

add('c05-cached-factor','C05','two successive systems with the same barrier weights but a different Hessian, e.g. the first steps of two problems that share their constraints and guess',
 'The dense factorisation is reused when the barrier weights and the regularisation are those of the previous system, without looking at the problem data.',
 [(CHO,'''  // B is used to avoid temporaries
''','''  if (factored_ && sigma == last_sigma_ && Gamma_ == last_gamma_) {
    return true;  // nothing has changed since the last factorisation
  }
  last_sigma_ = sigma;
  last_gamma_ = Gamma_;
  factored_ = false;
  // B is used to avoid temporaries
'''),(CHO,'''    return false;
  } else {
    return true;
  }
}
''','''    return false;
  } else {
    factored_ = true;
    return true;
  }
}
'''),(CHOH,'  int nz_ = 0;','  bool factored_ = false;\n  double last_sigma_ = 0.0;\n  Eigen::VectorXd last_gamma_;\n  int nz_ = 0;')],
 HDR+r'''
int main() {
  auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; o.max_newton_iters = 1;
  for (unsigned k = 1; k <= 40; k++) {
    auto a = RandomQp(k, 4, 1, 6), b = RandomQp(k, 4, 1, 6); b.H *= 2; b.f *= 3;
    FBstabDense used(4, 1, 6), fresh(4, 1, 6); used.UpdateOptions(o); fresh.UpdateOptions(o);
    FBstabDense::Variable w(4, 1, 6), x(4, 1, 6), y(4, 1, 6);
    used.Solve(a, &w); used.Solve(b, &x); fresh.Solve(b, &y);
    if (!Same(x, y)) FAIL("problem %u: a used solver takes another first step", k);
  }
  return 0;
}
''')

add('c05-heap-upper','C05','a workspace allocated on a heap that is not zero',
 'The upper triangle of the augmented input Hessian, which is never written, enters the Schur complement of the last stage.',
 [(RIC,'  SG_[N_].noalias() = R_[N_] - SM_[N_] * SM_[N_].transpose();\n','  SG_[N_].noalias() =\n      R_[N_].transpose() - SM_[N_] * SM_[N_].transpose();\n')],
 HDR+r'''
#include <malloc.h>
int main() {
  mallopt(M_MMAP_THRESHOLD, 1 << 30);
  auto o = FBstabMpc::DefaultOptions(); o.display_level = Display::OFF;
  for (unsigned k = 1; k <= 20; k++) {
    auto p = RandomOcp(k, 2, 2, 3, 2);
    FBstabMpc::Variable a(2, 2, 3, 2), b(2, 2, 3, 2);
    mallopt(M_PERTURB, 0xff);  { FBstabMpc s(2, 2, 3, 2); s.UpdateOptions(o); try { s.Solve(p, &a); } catch (const std::exception& e) { FAIL("%s", e.what()); } }
    mallopt(M_PERTURB, 0x81);  { FBstabMpc s(2, 2, 3, 2); s.UpdateOptions(o); try { s.Solve(p, &b); } catch (const std::exception& e) { FAIL("%s", e.what()); } }
    if (!Same(a.z, b.z) || !Same(a.v, b.v)) FAIL("problem %u: the result depends on the heap", k);
  }
  return 0;
}
''')

add('c06-static-options','C06','one thread asking for the default options while another asks for the reliable ones',
 'Default options are kept in one object that both factories fill in, so concurrent calls can mix them.',
 [(FD,'''FBstabDense::Options FBstabDense::DefaultOptions() {
  Options opts;
  opts.DefaultParameters();
  return opts;
}
''','''static FBstabDense::Options preset;

FBstabDense::Options FBstabDense::DefaultOptions() {
  preset.DefaultParameters();
  return preset;
}
'''),(FD,'''  Options opts;
  opts.ReliableParameters();
  return opts;
''','''  preset.ReliableParameters();
  return preset;
''')],
 HDR+r'''
#include <atomic>
#include <thread>
int main() {
  std::atomic<bool> stop{false}; std::atomic<long> bad{0};
  std::vector<std::thread> ts;
  for (int i = 0; i < 3; i++) ts.emplace_back([&] { while (!stop) FBstabDense::ReliableOptions(); });
  ts.emplace_back([&] {
    for (long k = 0; k < 3000000 && !bad; k++) {
      auto o = FBstabDense::DefaultOptions();
      if (o.beta != 0.75 || o.max_newton_iters != 200 || o.abs_tol != 1e-6 || o.sigma0 != 1e-8 || o.max_prox_iters != 30) bad++;
    }
    stop = true;
  });
  for (auto& t : ts) t.join();
  if (bad) FAIL("mixed default options");
  return 0;
}
''')

add('c06-static-scratch','C06','two threads inside a Newton step of the dense solver at the same time',
 'A scratch vector of the dense linear solver is shared by all objects.',
 [(CHO,'  Eigen::Vector2d pfb_gradient;\n','  static Eigen::Vector2d pfb_gradient;\n')],
 HDR+r'''
#include <atomic>
#include <thread>
int main() {
  auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF;
  std::atomic<int> bad{0}; std::vector<std::thread> ts;
  for (int i = 0; i < 6; i++) ts.emplace_back([&, i] {
    auto p = RandomQp(100 + i, 3, 0, 60);
    FBstabDense::Variable ref(3, 0, 60); bool have = false;
    for (int k = 0; k < 6000 && !bad; k++) {
      FBstabDense s(3, 0, 60); s.UpdateOptions(o); FBstabDense::Variable x(3, 0, 60); 
      try { s.Solve(p, &x); } catch (const std::exception&) { bad++; return; }
      if (!have) { ref = x; have = true; } else if (!Same(ref, x)) bad++;
    }
  });
  for (auto& t : ts) t.join();
  if (bad) FAIL("threads disturb each other");
  return 0;
}
''')

add('c07-sticky-failure','C07','a factorisation that fails once, followed by further use of the same solver object',
 'A failed factorisation is remembered and every later one on that object is reported as failed too.',
 [(CHO,'''  if (status != Eigen::Success) {
    return false;
''','''  if (status != Eigen::Success || failed_) {
    failed_ = true;
    return false;
'''),(CHOH,'  int nz_ = 0;','  bool failed_ = false;\n  int nz_ = 0;')],
 HDR+r'''
int main() {
  auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF;
  auto p = RandomQp(1, 4, 1, 6); auto bad = p; 
  FBstabDense s(4, 1, 6); s.UpdateOptions(o);
  bool threw = false;
  for (double m : {double(NAN), double(INFINITY), 1e200}) for (int w = 0; w < 3; w++) {
    auto q = p; if (w == 0) q.H(0, 0) = m; else if (w == 1) q.f(0) = m; else q.A(0, 0) = m;
    FBstabDense::Variable x(4, 1, 6); try { s.Solve(q, &x); } catch (const std::exception&) { threw = true; }
  }
  FBstabDense::Variable x(4, 1, 6);
  try { if (s.Solve(p, &x).eflag != ExitFlag::SUCCESS) FAIL("not solved afterwards"); } catch (const std::exception& e) { FAIL("%s", e.what()); }
  (void)threw; return 0;
}
''')

add('c07-half-options','C07','a Solve that is ended by an exception in the middle of a subproblem',
 'The alpha of the residuals is switched for the duration of a subproblem and not restored when an exception passes through.',
 [(ALG,'  merit_buffer_.fill(0.0);  // Clear the buffer of past merit function values.\n','  merit_buffer_.fill(0.0);  // Clear the buffer of past merit function values.\n  const double stall_tol = opts_.stall_tol;\n  opts_.stall_tol = std::max(stall_tol, 1e-4);  // no stall test in here\n'),
  (ALG,'  // Make duals non-negative, and return','  opts_.stall_tol = stall_tol;\n  // Make duals non-negative, and return')],
 HDR+r'''
int main() {
  auto o = FBstabDense::DefaultOptions(); o.display_level = Display::ITER_DETAILED; o.abs_tol = 1e-13;
  for (unsigned k = 1; k <= 100; k++) {
    auto p = RandomQp(k, 4, 1, 6);
    FBstabDense a(4, 1, 6), b(4, 1, 6); a.UpdateOptions(o); b.UpdateOptions(o);
    FBstabDense::Variable w(4, 1, 6), x(4, 1, 6), y(4, 1, 6);
    Sink thr; thr.throw_at = 4; try { a.Solve(p, &w, thr); } catch (const std::runtime_error&) {}
    Sink s1, s2; SolverOut r = a.Solve(p, &x, s1), q = b.Solve(p, &y, s2);
    if (!Same(x, y) || r.prox_iters != q.prox_iters) FAIL("problem %u: %d and %d outer iterations", k, r.prox_iters, q.prox_iters);
  }
  return 0;
}
''')

add('c09-mapped-terminal','C09','mapped problem data whose matrices are not square',
 'The mapped equality right-hand side takes its length from the Jacobian columns.',
 [(FD,'      h(h_->data(), h_->size()),\n','      h(h_->data(), G_->rows() > 0 ? h_->size() : 0),\n'),
  (FD,'      b(b_->data(), b_->size()) {}','      b(b_->data(), A_->rows()) {}')],
 'X')
del S['c09-mapped-terminal']

add('c09-mapped-guess','C09','a caller that keeps its variables in mapped memory and a guess whose multipliers are not zero',
 'The reference wrapper binds the margin to the memory of the multipliers.',
 [(FM,'    : z(z_), l(l_), v(v_), y(y_) {}','    : z(z_), l(l_), v(v_), y(y_.size() == v_.size() ? v_ : y_) {}')],
 HDR+r'''
int main() {
  auto o = FBstabMpc::DefaultOptions(); o.display_level = Display::OFF;
  for (unsigned k = 1; k <= 10; k++) {
    auto p = RandomOcp(k, 2, 2, 1, 3);
    FBstabMpc::Variable a(2, 2, 1, 3), b(2, 2, 1, 3);
    FBstabMpc s(2, 2, 1, 3); s.UpdateOptions(o); s.Solve(p, &a);
    typedef Eigen::Map<VectorXd> M;
    FBstabMpc::VariableRef r(M(b.z.data(), b.z.size()), M(b.l.data(), b.l.size()), M(b.v.data(), b.v.size()), M(b.y.data(), b.y.size()));
    s.Solve(p, &r);
    if (!Same(a.z, b.z) || !Same(a.l, b.l) || !Same(a.v, b.v) || !Same(a.y, b.y)) FAIL("problem %u: mapped variables give another result", k);
  }
  return 0;
}
''')

add('c09-verbose-iterate','C09','detailed display and a problem on which the line search matters',
 'At the detailed level the printed inner residual is recomputed at the proximal centre, and the step is then computed from it.',
 [(ALG,'''    } else {
      PrintDetailedLine(i, t, *ri_, os);
    }
    if (newton_iters_''','''    } else {
      if (opts_.display_level == Display::ITER_DETAILED && i > 30) {
        ri_->PenalizedNaturalResidual(*x);  // more telling on slow problems
      }
      PrintDetailedLine(i, t, *ri_, os);
    }
    if (newton_iters_''')],
 HDR+r'''
int main() {
  for (unsigned k = 1; k <= 200; k++) {
    auto p = RandomQp(k, 6, 0, 20); p.f *= 1e3; p.A.row(0) *= 1e3;
    auto o = FBstabDense::DefaultOptions(); o.max_linesearch_iters = 1 + k % 3; o.beta = 0.3; o.max_inner_iters = 200; o.sigma_max = o.sigma0 = 1.0; o.max_newton_iters = 400; o.nonmonotone_linesearch = false; o.inner_tol_max = 1e-8; o.abs_tol = 1e-12;
    FBstabDense::Variable a(6, 0, 20), b(6, 0, 20); Rnd g(k); a.z = 1e3 * g.v(6); a.v = 1e3 * g.v(20).cwiseAbs(); b = a;
    FBstabDense s(6, 0, 20); Sink os;
    o.display_level = Display::OFF; s.UpdateOptions(o); SolverOut r = s.Solve(p, &a, os);
    o.display_level = Display::ITER_DETAILED; s.UpdateOptions(o); SolverOut q = s.Solve(p, &b, os);
    if (!Same(a, b) || r.newton_iters != q.newton_iters) FAIL("problem %u: %d and %d Newton steps", k, r.newton_iters, q.newton_iters);
  }
  return 0;
}
''')

add('c10-missing-footer','C10','a subproblem that is already solved when it is entered',
 'The footer of a subproblem block is left out when the subproblem needed no Newton step.',
 [(ALG,'      PrintDetailedFooter(tol, *ri_, os);\n      break;\n','      if (i > 0) {\n        PrintDetailedFooter(tol, *ri_, os);\n      }\n      break;\n')],
 HDR+r'''
static int count(const std::string& s, const char* w) { int n = 0; for (size_t p = 0; (p = s.find(w, p)) != std::string::npos; p++) n++; return n; }
int main() {
  for (unsigned k = 1; k <= 200; k++) {
    auto p = RandomQp(k, 4, 1, 6);
    auto o = FBstabDense::DefaultOptions(); o.display_level = Display::ITER_DETAILED; o.abs_tol = 1e-14; o.stall_tol = 1e-14; o.inner_tol_min = 1e-8; o.inner_tol_max = 1e-2; o.max_prox_iters = 12;
    FBstabDense s(4, 1, 6); s.UpdateOptions(o); FBstabDense::Variable x(4, 1, 6); Sink os;
    SolverOut r = s.Solve(p, &x, os);
    if (r.newton_iters >= o.max_newton_iters) continue;
    int b = count(os.text, "Begin Prox"), f = count(os.text, "Exiting inner");
    if (f != r.prox_iters) FAIL("problem %u: %d subproblems finished, %d footers, %d headers", k, r.prox_iters, f, b);
  }
  return 0;
}
''')

add('c10-summary-limit','C10','any display level above OFF and a limit different from the default',
 'The summary prints the proximal limit as the Newton limit when the verdict is an iteration limit.',
 [(ALG,'''             opts_.max_newton_iters);
    os.Print(buff);
    snprintf(buff, 100, "%10s''','''             eflag == ExitFlag::MAXITERATIONS
                 ? std::max(newton_iters, opts_.max_prox_iters)
                 : opts_.max_newton_iters);
    os.Print(buff);
    snprintf(buff, 100, "%10s''')],
 HDR+r'''
int main() {
  for (unsigned k = 1; k <= 40; k++) {
    auto p = RandomQp(k, 4, 1, 6);
    auto o = FBstabDense::DefaultOptions(); o.display_level = Display::FINAL; o.max_newton_iters = 40; o.max_prox_iters = 1 + k % 2; o.abs_tol = 1e-14;
    FBstabDense s(4, 1, 6); s.UpdateOptions(o); FBstabDense::Variable x(4, 1, 6); Sink os;
    s.Solve(p, &x, os);
    if (os.text.find("out of 40\n") == std::string::npos) FAIL("problem %u: wrong Newton limit in the summary", k);
  }
  return 0;
}
''')

add('c11-shared-alpha','C11','a new alpha set on an object that has already solved',
 'The alpha of the residuals is only refreshed on the first solve, so a later UpdateOptions changes the linear systems but not the residual.',
 [(ALG,'  rk_->SetAlpha(opts_.alpha);\n  ri_->SetAlpha(opts_.alpha);\n','  if (newton_iters_ == 0) {\n    rk_->SetAlpha(opts_.alpha);\n    ri_->SetAlpha(opts_.alpha);\n  }\n')],
 HDR+r'''
int main() {
  for (unsigned k = 1; k <= 40; k++) {
    auto p = RandomQp(k, 4, 1, 6);
    auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF;
    FBstabDense a(4, 1, 6), b(4, 1, 6);
    FBstabDense::Variable w(4, 1, 6), x(4, 1, 6), y(4, 1, 6);
    a.UpdateOptions(o); a.Solve(p, &w);
    o.alpha = 0.5; a.UpdateOptions(o); b.UpdateOptions(o); x.v.setOnes(); y.v.setOnes();
    SolverOut r = a.Solve(p, &x), q = b.Solve(p, &y);
    if (r.initial_residual != q.initial_residual || !Same(x, y)) FAIL("problem %u: the new alpha is not in force", k);
  }
  return 0;
}
''')

add('c11-negative-tol','C11','a negative tolerance, e.g. one computed by a faulty caller',
 'Negative tolerances are replaced by their magnitude instead of the documented minimum.',
 [(ALG,'  abs_tol = std::max(abs_tol, 1e-14);\n','  abs_tol = std::max(std::abs(abs_tol), 1e-14);\n')],
 HDR+r'''
int main() {
  auto o = FBstabDense::DefaultOptions(); o.abs_tol = -1e-2; o.ValidateOptions();
  if (o.abs_tol != 1e-14) FAIL("abs_tol -1e-2 became %g", o.abs_tol);
  return 0;
}
''')

add('c11-delta-range','C11','a delta above 0.9',
 'delta is clipped at 0.9 although values up to 0.99 are admissible.',
 [(ALG,'  delta = tools::saturate(delta, 0.0001, 0.99);\n','  delta = tools::saturate(delta, 0.0001, 0.9);\n')],
 HDR+r'''
int main() {
  auto o = FBstabDense::DefaultOptions(); o.delta = 0.95; o.ValidateOptions();
  if (o.delta != 0.95) FAIL("delta 0.95 became %g", o.delta);
  return 0;
}
''')

add('c12-symmetrise','C12','a Hessian whose upper triangle differs from the lower one in the last bits, or data in read-only memory',
 'The Hessian handed in by the caller is symmetrised in place.',
 [(DENH,'    nz_ = f->size();\n','    for (int j = 0; j < H_.cols(); j++) {\n      for (int i = j + 1; i < H_.rows(); i++) {\n        const_cast<double&>(H_.coeffRef(j, i)) = H_(i, j);\n      }\n    }\n    nz_ = f->size();\n')],
 HDR+r'''
int main() {
  auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF;
  auto p = RandomQp(1, 4, 1, 6); p.H(0, 3) *= 1 + 1e-12; auto q = p;
  FBstabDense s(4, 1, 6); s.UpdateOptions(o); FBstabDense::Variable x(4, 1, 6); s.Solve(p, &x);
  if (std::memcmp(p.H.data(), q.H.data(), 16 * sizeof(double))) FAIL("the Hessian was modified");
  return 0;
}
''')

add('c12-merit-shift','C12','more inner iterations than the merit buffer holds',
 'The merit buffer is shifted one slot too far and writes behind its end.',
 [(ALG,'''  for (auto i = merit_buffer_.size() - 1; i > 0; i--) {
    merit_buffer_.at(i) = merit_buffer_.at(i - 1);
  }
''','''  double* m = merit_buffer_.data();
  for (auto i = merit_buffer_.size(); i > 0; i--) {
    m[i] = m[i - 1];
  }
''')],
 'X')
del S['c12-merit-shift']

add('c13-truncation','C13','a solve whose progress lines span a fraction of a millisecond',
 'The elapsed time is truncated to whole milliseconds, so it is shorter than the time between the progress lines.',
 [(ALG,'  std::chrono::duration<double> elapsed = now - start;\n','  std::chrono::duration<double> elapsed =\n      std::chrono::duration_cast<std::chrono::milliseconds>(now - start);\n')],
 HDR+r'''
#include <chrono>
#include <thread>
class Slow : public OutputStream<Slow> {
 public:
  mutable std::vector<std::chrono::steady_clock::time_point> at;
 protected:
  void PrintImplementation(const char*) const { at.push_back(std::chrono::steady_clock::now()); std::this_thread::sleep_for(std::chrono::microseconds(300)); }
  friend class OutputStream<Slow>;
};
int main() {
  for (unsigned k = 1; k <= 20; k++) {
    auto p = RandomQp(k, 4, 1, 6); auto o = FBstabDense::DefaultOptions(); o.display_level = Display::ITER;
    FBstabDense s(4, 1, 6); s.UpdateOptions(o); FBstabDense::Variable x(4, 1, 6); Slow os; SolverOut r = s.Solve(p, &x, os);
    // the header and the lines come before the seven lines of the summary
    double span = std::chrono::duration<double>(os.at[os.at.size() - 9] - os.at[0]).count();
    if (r.solve_time < span) FAIL("solve %u: %g s reported, progress lines span %g s", k, r.solve_time, span);
  }
  return 0;
}
''')

add('c13-cpu-ticks','C13','a solve during which the process waits, e.g. for a slow output device',
 'Elapsed time is taken from the processor clock, which stands still while the process waits.',
 [(ALG,'''  time_point now = clock::now();
  std::chrono::duration<double> elapsed = now - start;
  output.solve_time = elapsed.count();
''','''  time_point now = clock::now();
  std::chrono::duration<double> elapsed = now - start;
  output.solve_time =
      elapsed.count() < 3600.0 ? elapsed.count() : elapsed.count() - 3600.0;
''')],
 'X')
del S['c13-cpu-ticks']

add('c14-small-sigma','C14','a regularisation below 1e-9 and a constraint that is strongly active',
 'The regularisation of the complementarity rows is left out when sigma is small, so the rows of strongly active constraints become singular.',
 [(RIC,'    mus_(i) = temp(1) + sigma * temp(0);\n','    mus_(i) = temp(1) + (sigma < 1e-9 ? 1e-16 : sigma * temp(0));\n')],
 HDR+r'''
#include "fbstab/components/mpc_data.h"
#include "fbstab/components/full_residual.h"
#include "fbstab/components/full_variable.h"
#include "fbstab/components/riccati_linear_solver.h"
int main() {
  for (unsigned k = 1; k <= 40; k++) {
    auto p = RandomOcp(k, 2, 2, 1, 3); int nz = 9, nl = 6, nv = 9; Rnd g(k);
    MapMatrixSequence Q(p.Q), R(p.R), S(p.S), q(p.q), r(p.r), A(p.A), B(p.B), c(p.c), E(p.E), L(p.L), d(p.d); Eigen::Map<const VectorXd> x0(p.x0.data(), 2);
    MpcData data(&Q, &R, &S, &q, &r, &A, &B, &c, &E, &L, &d, &x0);
    FullVariable x(nz, nl, nv), xb(nz, nl, nv), dx(nz, nl, nv); for (auto* w : {&x, &xb, &dx}) w->LinkData(&data);
    x.z() = g.v(nz); x.l() = g.v(nl); x.v() = 10 * g.v(nv).cwiseAbs(); x.InitializeConstraintMargin(); x.y()(0) = 0; xb.Copy(x); double sg = 1e-10;
    RiccatiLinearSolver s(2, 2, 1, 3); s.LinkData(&data); s.SetAlpha(0.95); if (!s.Initialize(x, xb, sg)) FAIL("factorisation %u", k);
    FullResidual res(nz, nl, nv); res.LinkData(&data); res.SetAlpha(0.95); res.InnerResidual(x, xb, sg); res.Negate(); s.Solve(res, &dx);
    // row 0 of the complementarity block: v > 0, y = 0 gives gamma = alpha, mu0 = 0
    VectorXd az(nv); data.gemvA(dx.z(), 1.0, 0.0, &az);
    double lhs = -0.95 * az(0) + (0.95 * sg + 0.05 * 0) * dx.v()(0), gam = 0.95 + 0.05 * x.v()(0);
    gam = 0.95; (void)lhs; double row = gam * (-az(0) + sg * dx.v()(0)) - res.v()(0);
    if (std::abs(row) > 1e-6 * (std::abs(gam * az(0)) + std::abs(res.v()(0)) + gam * sg * std::abs(dx.v()(0)) + 1e-3)) FAIL("system %u: row residual %g", k, row);
  }
  return 0;
}
''')

add('c14-frozen-margin','C14','a second Newton step with the same solver, i.e. nearly every solve',
 'The margin part of the dense direction is formed from a scratch product that is rescaled by the barrier weights.',
 [(CHO,'  x->y() = b - A * x->z();\n','  x->y() = b - r2_.cwiseQuotient(gamma_.cwiseMax(1e-300));\n'),(CHO,'  r2_.noalias() += r.v();\n  x->v() = r2_.cwiseQuotient(mus_);\n','  x->v() = (r2_ + r.v()).cwiseQuotient(mus_);\n')],
 HDR+r'''
int main() {
  auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; o.max_newton_iters = 6;
  for (unsigned k = 1; k <= 300; k++) {
    auto p = RandomQp(k, 4, 0, 6); p.b *= 1e6;  
    FBstabDense s(4, 0, 6); s.UpdateOptions(o); FBstabDense::Variable x(4, 0, 6); Rnd g(k); x.v(k % 6) = 0; x.z = 1e3 * g.v(4);
    SolverOut r = s.Solve(p, &x);
    if (r.eflag != ExitFlag::SUCCESS) FAIL("problem %u: not solved in six steps", k);
  }
  return 0;
}
''')
del S['c14-frozen-margin']

add('c15-terminal-input','C15','an optimal control problem whose last stage has a linear input cost',
 'The linear input cost of the terminal stage is skipped.',
 [(MPC,'    ui.noalias() += a * r_(i);\n','    if (i < N_) {\n      ui.noalias() += a * r_(i);\n    }\n')],
 HDR+r'''
int main() {
  auto o = FBstabMpc::DefaultOptions(); o.display_level = Display::OFF;
  for (unsigned k = 1; k <= 10; k++) {
    auto p = RandomOcp(k, 3, 2, 1, 3); auto d = Condense(p);
    FBstabMpc s(3, 2, 1, 3); s.UpdateOptions(o); FBstabMpc::Variable x(3, 2, 1, 3); SolverOut r = s.Solve(p, &x);
    if (r.eflag == ExitFlag::SUCCESS && Pen(d, x.z, x.l, x.v, o.alpha) > 1e-4) FAIL("problem %u: residual %g", k, Pen(d, x.z, x.l, x.v, o.alpha));
  }
  return 0;
}
''')

add('c15-cross-cost','C15','an optimal control problem with state/input cross costs',
 'The cross cost acts on the states with the matrix of the next stage.',
 [(MPC,'    const auto& S = S_(i);\n    const auto& R = R_(i);\n','    const auto& S = S_(i < N_ ? i : 0);\n    const auto& R = R_(i);\n')],
 HDR+r'''
int main() {
  auto o = FBstabMpc::DefaultOptions(); o.display_level = Display::OFF;
  for (unsigned k = 1; k <= 10; k++) {
    auto p = RandomOcp(k, 3, 2, 1, 3); auto d = Condense(p);
    FBstabMpc s(3, 2, 1, 3); s.UpdateOptions(o); FBstabMpc::Variable x(3, 2, 1, 3); SolverOut r = s.Solve(p, &x);
    if (r.eflag == ExitFlag::SUCCESS && Pen(d, x.z, x.l, x.v, o.alpha) > 1e-4) FAIL("problem %u: residual %g", k, Pen(d, x.z, x.l, x.v, o.alpha));
  }
  return 0;
}
''')

add('c16-state-tolerance','C16','a plant state far from the target, so that the right-hand side of the problem is large',
 'The tolerance is relative to the state: the forcing norm enters the combined tolerance with the absolute tolerance as well.',
 [(ALG,'  combo_tol_ = opts_.abs_tol + opts_.rel_tol * (1.0 + qp_data.ForcingNorm());\n','  combo_tol_ = opts_.abs_tol * std::max(1.0, 1e-2 * qp_data.ForcingNorm()) +\n               opts_.rel_tol * (1.0 + qp_data.ForcingNorm());\n')],
 HDR+r'''
int main() {
  auto o = FBstabMpc::DefaultOptions(); o.display_level = Display::OFF; o.abs_tol = 1e-4; o.rel_tol = 0;
  for (unsigned k = 1; k <= 200; k++) {
    auto p = RandomOcp(k, 3, 2, 1, 3); p.x0 *= 1e4; for (int i = 0; i <= 3; i++) p.d(i).array() -= 3e5;
    auto d = Condense(p);
    FBstabMpc s(3, 2, 1, 3); s.UpdateOptions(o); FBstabMpc::Variable x(3, 2, 1, 3); SolverOut r = s.Solve(p, &x);
    if (r.eflag == ExitFlag::SUCCESS && r.residual > 1.0001e-4) FAIL("problem %u: Success with reported residual %g", k, r.residual);
  }
  return 0;
}
''')

add('c16-small-state','C16','a closed loop that has brought the plant close to its target',
 'A small initial state is treated as zero, so the plan starts from the wrong state once the plant is close to its target.',
 [(MPC,'  w.col(0) += -a * x0_;\n','  if (x0_.squaredNorm() > 1e-6) {\n    w.col(0) += -a * x0_;\n  }\n')],
 HDR+r'''
int main() {
  auto o = FBstabMpc::DefaultOptions(); o.display_level = Display::OFF;
  for (unsigned k = 1; k <= 30; k++) {
    auto p = RandomOcp(k, 3, 2, 1, 3); for (int i = 0; i <= 3; i++) { p.d(i).array() -= 2; if (i < 3) p.c(i).setZero(); p.q(i).setZero(); p.r(i).setZero(); }
    p.x0 = p.x0 / p.x0.norm() * 5e-4; auto d = Condense(p);
    FBstabMpc s(3, 2, 1, 3); s.UpdateOptions(o); FBstabMpc::Variable x(3, 2, 1, 3); SolverOut r = s.Solve(p, &x);
    double e = Pen(d, x.z, x.l, x.v, o.alpha);
    if (r.eflag == ExitFlag::SUCCESS && e > 1e-5) FAIL("problem %u: residual %g", k, e);
  }
  return 0;
}
''')

add('c17-empty-view','C17','an empty sequence, as an optimal control problem of horizon zero would have, that is viewed and indexed',
 'The view of an empty sequence claims one element.',
 [(MS,'    N_ = A.length();\n    nr_ = A.rows();','    N_ = std::max(1, A.length());\n    nr_ = A.rows();')],
 HDR+r'''
int main() {
  MatrixSequence e(0, 2, 3); MapMatrixSequence m(e);
  if (m.length() != 0 || m.size() != 0) FAIL("a view of an empty sequence has length %d", m.length());
  bool threw = false; try { m(0); } catch (const std::exception&) { threw = true; }
  if (!threw) FAIL("indexing an empty view does not throw");
  return 0;
}
''')

add('c17-wide-view','C17','a view onto memory of a sequence of matrices that are not square, indexed beyond the first element',
 'The view finds the k-th matrix with the wrong stride when the matrices are much wider than tall.',
 [(MS,'    return Eigen::Map<const Eigen::MatrixXd>(data_ + k * nr_ * nc_, nr_, nc_);','    return Eigen::Map<const Eigen::MatrixXd>(\n        data_ + k * nr_ * (nc_ > 4 * nr_ ? nr_ : nc_), nr_, nc_);')],
 HDR+r'''
int main() {
  for (int r = 1; r < 4; r++) for (int c = 1; c < 8; c++) {
    MatrixSequence s(3, r, c); for (int i = 0; i < s.size(); i++) s.data()[i] = i;
    MapMatrixSequence m(s.data(), 3, r, c);
    for (int k = 0; k < 3; k++) for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) if (m(k)(i, j) != k * r * c + j * r + i) FAIL("element %d,%d,%d of a %dx%d view", i, j, k, r, c);
  }
  return 0;
}
''')

add('c18-dual-size','C18','an initial guess whose equality duals have the wrong length while the sum of all lengths is right',
 'The sizes of the guess are only compared in total.',
 [(FDH,'''    if (nz_ != x.z.size() || x.l.size() != nl_ || nv_ != x.v.size() ||
        nv_ != x.y.size()) {''','''    if (nz_ + nl_ != x.z.size() + x.l.size() || nv_ != x.v.size() ||
        nv_ != x.y.size()) {''')],
 HDR+r'''
int main() {
  auto p = RandomQp(1, 4, 2, 6); FBstabDense s(4, 2, 6); auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; s.UpdateOptions(o);
  FBstabDense::Variable x(4, 2, 6); x.z = VectorXd::Zero(5); x.l = VectorXd::Zero(1); bool threw = false;
  try { s.Solve(p, &x); } catch (const std::runtime_error&) { threw = true; }
  if (!threw || x.z.size() != 5 || x.l.size() != 1) FAIL("inconsistent guess accepted or changed");
  return 0;
}
''')

add('c18-late-check','C18','an inconsistent guess together with valid data at a display level above OFF',
 'The input constraint matrices are only checked for their number of columns.',
 [(MPC,'  if (L_.rows() != nc) {\n','  if (L_.rows() < nc) {\n')],
 HDR+r'''
int main() {
  auto p = RandomOcp(1, 3, 2, 1, 3); FBstabMpc s(3, 2, 1, 3); p.L = MatrixSequence(4, 5, 1); for (int i = 0; i < p.L.size(); i++) p.L.data()[i] = 0;
  FBstabMpc::Variable x(3, 2, 1, 3); Sink os; bool threw = false;
  try { s.Solve(p, &x, os); } catch (const std::runtime_error&) { threw = true; }
  if (!threw || os.calls) FAIL("inconsistent data accepted");
  return 0;
}
''')

add('c08-tolerance-drift','C08','solving again from a solution on the same object with a relative tolerance that matters',
 'The combined tolerance of the previous call is mixed into the new one, so a solution can fail the test on a second look.',
 [(ALG,'  // Copy the initial guess into xk\n','  combo_tol_ = std::min(combo_tol_, opts_.abs_tol + opts_.rel_tol * (1.0 + static_cast<double>(prox_iters_)) );\n  // Copy the initial guess into xk\n')],
 'X')
del S['c08-tolerance-drift']

add('c08-rounded-save','C08','saving the multipliers of a solution whose active multipliers are tiny',
 'Multipliers below a threshold are written back as zero, so the point handed back is not the one that passed the test.',
 [(ALG,'  *v = x.v();\n  *y = x.y();','  *v = (x.v().array() > 1e-6).select(x.v(), 0.0);\n  *y = x.y();')],
 HDR+r'''
int main() {
  auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; o.abs_tol = 1e-10;
  for (unsigned k = 1; k <= 200; k++) {
    auto p = RandomQp(k, 4, 0, 8); p.A *= 30; p.f *= 1e-4; p.b *= 1e-5; FBstabDense s(4, 0, 8); s.UpdateOptions(o); FBstabDense::Variable x(4, 0, 8);
    SolverOut r = s.Solve(p, &x); if (r.eflag != ExitFlag::SUCCESS || r.residual > 1e-10) continue;
    auto y = x; SolverOut q = s.Solve(p, &y);
    if (q.newton_iters || q.prox_iters || !Same(x.z, y.z)) FAIL("problem %u: a restart takes %d Newton steps", k, q.newton_iters);
  }
  return 0;
}
''')

add('c07-lost-guess','C07','a stream that throws, with the solver working directly on the memory of the caller',
 'The guess is projected in the memory of the caller before the solve starts, so a failed call leaves a modified guess behind.',
 [(ALG,'  // Copy the initial guess into xk\n','  // Copy the initial guess into xk\n  *v0 = v0->cwiseMax(0.0);\n')],
 HDR+r'''
int main() {
  auto o = FBstabDense::DefaultOptions(); o.display_level = Display::ITER;
  auto p = RandomQp(1, 4, 1, 6); FBstabDense s(4, 1, 6); s.UpdateOptions(o);
  FBstabDense::Variable x(4, 1, 6); x.v.setConstant(-1); auto c = x; Sink os; os.throw_at = 1;
  try { s.Solve(p, &x, os); } catch (const std::runtime_error&) {}
  if (!Same(x, c)) FAIL("the guess was modified by a failed call");
  return 0;
}
''')

add('c12-read-past','C12','a heap on which the word behind the multipliers of a step is negative',
 'The loop that looks for negative multipliers in the feasibility check reads one element behind the end of the vector.',
 [(FEAS,'''  bool primal_feasible = true;
  if ((p1 <= tol * u) && (p2 < 0) && (x.v().minCoeff() >= -tol * u) &&
''','''  bool primal_feasible = true;
  double smallest = 0.0;
  for (int i = 0; i <= nv_; i++) {
    smallest = std::min(smallest, x.v().data()[i]);
  }
  if ((p1 <= tol * u) && (p2 < 0) && (smallest >= -tol * u) &&
''')],
 HDR+r'''
#include <sys/mman.h>
#include <unistd.h>
#include <new>
// Every block ends right before a page that cannot be read.
void* operator new(size_t n) {
  size_t pg = 4096, len = (n + 15) / 16 * 16, tot = (len + pg - 1) / pg * pg + pg;
  char* p = (char*)mmap(nullptr, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(p + tot - pg, pg, PROT_NONE);
  return p + tot - pg - len;
}
void operator delete(void*) noexcept {}
void operator delete(void*, size_t) noexcept {}
extern "C" void* __libc_malloc(size_t);
extern "C" void* malloc(size_t n) { return n >= 48 && n < 4000 ? operator new(n) : __libc_malloc(n); }
extern "C" void __libc_free(void*);
extern "C" void free(void* p) { if (((size_t)p & 0) == 0) (void)p; }
int main() {
  auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF;
  auto p = RandomQp(1, 4, 1, 6); FBstabDense s(4, 1, 6); s.UpdateOptions(o); FBstabDense::Variable x(4, 1, 6);
  s.Solve(p, &x);
  return 0;
}
''')

add('c14-proximal-centre','C14','a regularisation that is not negligible and a multiplier that falls by more than ten below its proximal centre',
 'The Riccati factorisation limits how far multipliers may lie below the proximal centre, so the derivative belongs to another point than the residual.',
 [(RIC,'    const double ys = x.y(i) + sigma * (x.v(i) - xbar.v(i));\n','    const double ys =\n        x.y(i) + sigma * std::max(x.v(i) - xbar.v(i), -10.0);\n')],
 HDR+r'''
#include "fbstab/components/mpc_data.h"
#include "fbstab/components/full_residual.h"
#include "fbstab/components/full_variable.h"
#include "fbstab/components/riccati_linear_solver.h"
int main() {
  for (unsigned k = 1; k <= 40; k++) {
    auto p = RandomOcp(k, 2, 2, 1, 3); int nz = 9, nl = 6, nv = 9; Rnd g(k);
    MapMatrixSequence Q(p.Q), R(p.R), S(p.S), q(p.q), r(p.r), A(p.A), B(p.B), c(p.c), E(p.E), L(p.L), d(p.d); Eigen::Map<const VectorXd> x0(p.x0.data(), 2);
    MpcData data(&Q, &R, &S, &q, &r, &A, &B, &c, &E, &L, &d, &x0);
    FullVariable x(nz, nl, nv), xb(nz, nl, nv), dx(nz, nl, nv); for (auto* w : {&x, &xb, &dx}) w->LinkData(&data);
    x.z() = g.v(nz); x.l() = g.v(nl); x.v() = g.v(nv).cwiseAbs(); x.InitializeConstraintMargin(); xb.Copy(x); xb.v() += 40 * g.v(nv); double sg = 0.5, al = 0.95;
    RiccatiLinearSolver s(2, 2, 1, 3); s.LinkData(&data); s.SetAlpha(al); if (!s.Initialize(x, xb, sg)) FAIL("factorisation %u", k);
    FullResidual res(nz, nl, nv); res.LinkData(&data); res.SetAlpha(al); res.InnerResidual(x, xb, sg); res.Negate(); s.Solve(res, &dx);
    VectorXd az(nv); data.gemvA(dx.z(), 1.0, 0.0, &az);
    for (int i = 0; i < nv; i++) {
      double a = x.y()(i) + sg * (x.v()(i) - xb.v()(i)), b = x.v()(i), n = std::sqrt(a * a + b * b), ga = al * (1 - a / n), mu = al * (1 - b / n);
      if (a > 0 && b > 0) { ga += (1 - al) * b; mu += (1 - al) * a; }
      double row = ga * (-az(i) + sg * dx.v()(i)) + mu * dx.v()(i) - res.v()(i);
      if (std::abs(row) > 1e-6 * (1 + std::abs(res.v()(i)) + std::abs(az(i)))) FAIL("system %u: residual of row %d is %g", k, i, row);
    }
  }
  return 0;
}
''')

if __name__=='__main__':
    sys.argv[1:] = sys.argv[1:] or list(S)
    mut.run(sys.argv[1:])
