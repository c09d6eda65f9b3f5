# Third batch: the components themselves (C19, C21).  Same format as mut.py.
import sys, mut
from mut import add, ALG, ALGH, HDR, S
for k in list(S): del S[k]
RES='fbstab/components/full_residual.cc'; VAR='fbstab/components/full_variable.cc'; FEAS='fbstab/components/full_feasibility.cc'; FEASH='fbstab/components/full_feasibility.h'
MPC='fbstab/components/mpc_data.cc'; DEN='fbstab/components/dense_data.cc'; DENH='fbstab/components/dense_data.h'; MPCH='fbstab/components/mpc_data.h'
CH=HDR+r'''
#include "fbstab/components/dense_data.h"
#include "fbstab/components/mpc_data.h"
#include "fbstab/components/full_variable.h"
#include "fbstab/components/full_residual.h"
#include "fbstab/components/full_feasibility.h"
#define MPCDATA(p) MpcData M(&p.Q, &p.R, &p.S, &p.q, &p.r, &p.A, &p.B, &p.c, &p.E, &p.L, &p.d, &p.x0)
#define DENDATA(p) DenseData M(&p.H, &p.f, &p.G, &p.h, &p.A, &p.b)
static const double K[] = {1, -1, 0, 2, 0.5, -0.3, 1e-3, -7, 1e-9, 300, -1e-5};
static bool Near(const VectorXd& a, const VectorXd& b, double s) { return a.size() == b.size() && (a.size() == 0 || (a - b).lpNorm<Eigen::Infinity>() <= 1e-11 * (1 + s)); }
'''

add('c19-cross-term','C19','a scaling other than 1 and -1 in the Hessian operator of MPC data with a cross term',
 'For general scalings the cross term of the Hessian operator is taken once instead of on both sides.',
 [(MPC,'      yu += a * S.lazyProduct(vx);\n','      yu += 0.5 * a * S.lazyProduct(vx);\n'),(MPC,'      yx += a * S.transpose().lazyProduct(vu);\n','      yx += 1.5 * a * S.transpose().lazyProduct(vu);\n')],
 CH+r'''
int main() {
  for (unsigned k = 1; k < 20; k++) {
    auto p = RandomOcp(k, 3, 2, 2, 3); auto d = Condense(p); MPCDATA(p); Rnd g(k);
    VectorXd x = g.v(d.H.cols());
    for (double a : K) for (double b : K) {
      VectorXd y = g.v(d.H.rows()), w = a * (d.H * x) + b * y;
      M.gemvH(x, a, b, &y);
      if (!Near(y, w, w.norm() + std::abs(a) * 10)) FAIL("gemvH a %g b %g", a, b);
    }
  }
  return 0;
}
''')
add('c19-stale-output','C19','b = 0 with an output vector that holds NaN or Inf (freshly allocated)',
 'The transposed constraint operator multiplies the old contents of y by b even when b is 0, so NaN in fresh memory survives.',
 [(MPC,'''    throw std::runtime_error("Size mismatch in MpcData::gemvAT.");
  }
  if (b == 0.0) {
    y->fill(0.0);
  } else if (b != 1.0) {
    (*y) *= b;
  }
''','''    throw std::runtime_error("Size mismatch in MpcData::gemvAT.");
  }
  if (b != 1.0) {
    (*y) *= b;
  }
''')],
 CH+r'''
int main() {
  for (unsigned k = 1; k < 20; k++) {
    auto p = RandomOcp(k, 3, 2, 2, 3); auto d = Condense(p); MPCDATA(p); Rnd g(k);
    VectorXd x = g.v(d.A.rows());
    for (double a : K) {
      VectorXd y = VectorXd::Constant(d.A.cols(), k & 1 ? NAN : INFINITY), w = a * (d.A.transpose() * x);
      M.gemvAT(x, a, 0.0, &y);
      if (!y.allFinite() || !Near(y, w, w.norm())) FAIL("gemvAT a %g", a);
    }
  }
  return 0;
}
''')
add('c19-magnitude','C19','a negative scaling of the equality right hand side, which the solver itself never uses',
 'The first stage of the equality right hand side is added with the magnitude of the scaling.',
 [(MPC,'  w.col(0) += -a * x0_;\n','  w.col(0) -= std::abs(a) * x0_;\n')],
 CH+r'''
int main() {
  for (unsigned k = 1; k < 20; k++) {
    auto p = RandomOcp(k, 3, 2, 2, 3); auto d = Condense(p); MPCDATA(p); Rnd g(k);
    for (double a : K) {
      VectorXd y = g.v(d.h.size()), w = y + a * d.h;
      M.axpyh(a, &y);
      if (!Near(y, w, w.norm())) FAIL("axpyh a %g", a);
    }
  }
  return 0;
}
''')
add('c19-late-size-check','C19','an output vector of the right length with an argument of the wrong length',
 'The constraint operator scales its output before it notices that the argument has the wrong length.',
 [(MPC,'''    throw std::runtime_error("In MpcData::gemvA: y input is null.");
  }
  if (x.size() != nz_ || y->size() != nv_) {
    throw std::runtime_error("Size mismatch in MpcData::gemvA.");
  }
  if (b == 0.0) {
    y->fill(0.0);
  } else if (b != 1.0) {
    (*y) *= b;
  }
''','''    throw std::runtime_error("In MpcData::gemvA: y input is null.");
  }
  if (b == 0.0) {
    y->fill(0.0);
  } else if (b != 1.0) {
    (*y) *= b;
  }
  if (x.size() != nz_ || y->size() != nv_) {
    throw std::runtime_error("Size mismatch in MpcData::gemvA.");
  }
''')],
 CH+r'''
int main() {
  auto p = RandomOcp(1, 3, 2, 2, 3); auto d = Condense(p); MPCDATA(p); Rnd g(1);
  for (int n : {1, 3, -1}) for (double b : K) {
    VectorXd x = g.v(d.A.cols() + n), y = g.v(d.A.rows()), y0 = y; bool threw = false;
    try { M.gemvA(x, 1.0, b, &y); } catch (const std::runtime_error&) { threw = true; }
    if (!threw || (y - y0).norm() != 0) FAIL("argument longer by %d, b %g: threw %d, output changed %g", n, b, threw, (y - y0).norm());
  }
  return 0;
}
''')
add('c19-shared-scratch','C19','two threads applying the operators of dense problem data at the same time',
 'The transposed equality operator keeps its intermediate vector in a static, shared by all threads.',
 [(DEN,'    *y = a * G_.transpose() * x + b * (*y);\n','    static VectorXd t;\n    t = a * G_.transpose() * x;\n    *y = t + b * (*y);\n')],
 CH+r'''
#include <atomic>
#include <thread>
int main() {
  std::atomic<int> bad{0}; std::vector<std::thread> ts;
  auto p = RandomQp(1, 40, 10, 5); DENDATA(p);
  for (int i = 0; i < 6; i++) ts.emplace_back([&, i] {
    Rnd g(i); VectorXd x = g.v(10), y0 = g.v(40), w = 2.0 * p.G.transpose() * x + 0.5 * y0;
    for (int k = 0; k < 200000 && !bad; k++) {
      VectorXd y = y0; M.gemvGT(x, 2.0, 0.5, &y);
      if (!Near(y, w, w.norm())) bad++;
    }
  });
  for (auto& t : ts) t.join();
  if (bad) FAIL("threads disturb each other");
  return 0;
}
''')
add('c19-zero-scaling','C19','a zero scaling of the product together with a nonzero scaling of the output',
 'A zero scaling leaves the output alone instead of applying b to it.',
 [(DEN,'''void DenseData::gemvA(const Eigen::VectorXd &x, double a, double b,
                      Eigen::VectorXd *y) const {
''','''void DenseData::gemvA(const Eigen::VectorXd &x, double a, double b,
                      Eigen::VectorXd *y) const {
  if (a == 0.0 && b != 0.0) {
    return;
  }
''')],
 CH+r'''
int main() {
  auto p = RandomQp(1, 4, 2, 5); DENDATA(p); Rnd g(1);
  VectorXd x = g.v(4);
  for (double a : K) for (double b : K) {
    VectorXd y = g.v(5), w = a * (p.A * x) + b * y;
    M.gemvA(x, a, b, &y);
    if (!Near(y, w, w.norm())) FAIL("gemvA a %g b %g", a, b);
  }
  return 0;
}
''')

add('c21-tiny-step','C21','a sum with a tiny factor and large vectors, whose contribution to the margin matters',
 'Steps with a tiny factor move the variables but not the margin.',
 [(VAR,'  data_->axpyb(-a, y_);\n','  if (std::abs(a) > 1e-6) {\n    data_->axpyb(-a, y_);\n  } else {\n    y_->noalias() -= a * (*x.y_);\n  }\n')],
 CH+r'''
int main() {
  for (unsigned k = 1; k < 30; k++) {
    auto p = RandomQp(k, 4, 1, 6); DENDATA(p); Rnd g(k);
    for (double a : K) {
      FullVariable x(4, 1, 6), w(4, 1, 6); x.LinkData(&M); w.LinkData(&M);
      x.z() = g.v(4); w.z() = 1e9 * g.v(4); x.InitializeConstraintMargin(); w.InitializeConstraintMargin();
      x.axpy(a, w);
      VectorXd y = p.b - p.A * x.z();
      if ((x.y() - y).lpNorm<Eigen::Infinity>() > 1e-5 * (1e-3 + std::abs(a) * 1e9 * 0.01)) FAIL("margin off by %g after a step of %g", (x.y() - y).norm(), a);
    }
  }
  return 0;
}
''')
add('c21-copied-link','C21','a variable copied from one that belongs to other problem data, then moved',
 'Copying keeps the old link to problem data when there is one, so the copied margin is later updated with the wrong data.',
 [(VAR,'  data_ = x.data_;\n','  if (data_ == nullptr) {\n    data_ = x.data_;\n  }\n')],
 CH+r'''
int main() {
  auto p = RandomQp(1, 4, 1, 6), q = RandomQp(2, 4, 1, 6); DenseData P(&p.H, &p.f, &p.G, &p.h, &p.A, &p.b), Q(&q.H, &q.f, &q.G, &q.h, &q.A, &q.b); Rnd g(1);
  FullVariable x(4, 1, 6), w(4, 1, 6); x.LinkData(&P); w.LinkData(&Q);
  w.z() = g.v(4); w.InitializeConstraintMargin(); x.Fill(1.0);
  x.Copy(w); x.axpy(0.5, w);
  VectorXd y = q.b - q.A * x.z();
  if ((x.y() - y).norm() > 1e-9) FAIL("margin off by %g", (x.y() - y).norm());
  return 0;
}
''')
add('c21-merit-cache','C21','a residual evaluated, filled with zero and asked for its norm',
 'The norm of the equality part is only recomputed when that part is not zero.',
 [(RES,'''  // r.l = h - G*z + sigma(l - lbar)
  l_.setConstant(0.0);
  data_->axpyh(1.0, &l_);
  data_->gemvG(x.z(), -1.0, 1.0, &l_);

  // rv = min(y,v)
  for (int i = 0; i < nv_; i++) {
    v_(i) = std::min(x.y()(i), x.v()(i));
  }
  znorm_ = z_.norm();
  lnorm_ = l_.norm();
  vnorm_ = v_.norm();
''','''  // r.l = h - G*z + sigma(l - lbar)
  l_.setConstant(0.0);
  data_->axpyh(1.0, &l_);
  data_->gemvG(x.z(), -1.0, 1.0, &l_);

  // rv = min(y,v)
  for (int i = 0; i < nv_; i++) {
    v_(i) = std::min(x.y()(i), x.v()(i));
  }
  znorm_ = z_.norm();
  if (!l_.isZero(1e-8)) {
    lnorm_ = l_.norm();
  }
  vnorm_ = v_.norm();
''')],
 CH+r'''
int main() {
  auto p = RandomQp(1, 4, 2, 6); DENDATA(p); Rnd g(1);
  FullVariable x(4, 2, 6), w(4, 2, 6); x.LinkData(&M); w.LinkData(&M); FullResidual r(4, 2, 6); r.LinkData(&M);
  x.z() = p.G.transpose() * (p.G * p.G.transpose()).ldlt().solve(p.h); x.InitializeConstraintMargin(); w.z() = 10 * g.v(4); w.InitializeConstraintMargin();
  r.NaturalResidual(w); r.NaturalResidual(x);
  double n = std::sqrt(r.z().squaredNorm() + r.l().squaredNorm() + r.v().squaredNorm());
  if (std::abs(r.Norm() - n) > 1e-9 * (1 + n)) FAIL("Norm %g, really %g", r.Norm(), n);
  return 0;
}
''')
add('c21-one-sided-penalty','C21','a point with one negative and one positive entry in a complementarity pair, alpha below 1',
 'The penalised residual multiplies margin and multiplier without clipping the multiplier, so negative multipliers are rewarded.',
 [(RES,'            (1 - alpha_) * std::max(0.0, x.y()(i)) * std::max(0.0, x.v()(i));\n','            (1 - alpha_) * std::max(0.0, x.y()(i)) * std::max(-1e-3, x.v()(i));\n')],
 CH+r'''
int main() {
  auto p = RandomQp(1, 4, 2, 6); DENDATA(p); Rnd g(1);
  for (int k = 0; k < 50; k++) {
    FullVariable x(4, 2, 6); x.LinkData(&M); FullResidual r(4, 2, 6); r.LinkData(&M); r.SetAlpha(0.7);
    x.z() = g.v(4); x.v() = g.v(6); x.InitializeConstraintMargin(); r.PenalizedNaturalResidual(x);
    for (int i = 0; i < 6; i++) {
      double y = x.y()(i), v = x.v()(i), e = 0.7 * std::min(y, v) + 0.3 * std::max(0.0, y) * std::max(0.0, v);
      if (std::abs(e - r.v()(i)) > 1e-12) FAIL("row %d is %g, should be %g", i, r.v()(i), e);
    }
  }
  return 0;
}
''')
add('c21-small-ray','C21','a valid certificate of small magnitude',
 'Directions whose size is below the tolerance are no longer accepted as certificates of unboundedness.',
 [(FEAS,'      (w > 1e-14) && std::isfinite(w)) {','      (w > tol) && std::isfinite(w)) {')],
 CH+r'''
int main() {
  FBstabDense::ProblemData p(3, 0, 2); p.H.setZero(); p.H(0, 0) = 1; p.f << 0, -1, 0; p.A.setZero(); p.A(0, 0) = 1; p.A(1, 1) = -1; p.b.setConstant(1); p.G.resize(0, 3); p.h.resize(0);
  DENDATA(p);
  for (double s = 1; s > 1e-12; s /= 10) {
    FullVariable x(3, 0, 2); x.LinkData(&M); x.z()(1) = s; x.InitializeConstraintMargin();
    FullFeasibility f(3, 0, 2); f.LinkData(&M);
    if (f.CheckFeasibility(x, 1e-4) != FullFeasibility::FeasibilityStatus::DUAL_INFEASIBLE) FAIL("ray of size %g not recognised", s);
  }
  return 0;
}
''')
add('c03-cached-cost','C03','a solver object used for an unbounded problem and then for a solvable one of the same size',
 'The certificate test keeps the linear cost it fetched for a data object and recognises the object by its address, which the next call uses again.',
 [(FEASH,'  int nv_ = 0;  // number of inequality duals\n','  int nv_ = 0;  // number of inequality duals\n  Eigen::VectorXd cost_;            // linear cost of the data below\n  const Data* cost_of_ = nullptr;\n'),
  (FEAS,'  tz_.setConstant(0.0);\n  data_->axpyf(1.0, &tz_);\n  const double d4 = tz_.dot(x.z());\n','  if (cost_of_ != data_) {\n    cost_ = Eigen::VectorXd::Zero(nz_);\n    data_->axpyf(1.0, &cost_);\n    cost_of_ = data_;\n  }\n  const double d4 = cost_.dot(x.z());\n')],
 CH+r'''
static FBstabDense::ProblemData Make(double s) {
  FBstabDense::ProblemData p(2, 0, 1); p.H.setZero(); p.H(0, 0) = 1; p.f << 0, s; p.A.setZero(); p.A(0, 1) = -1; p.b(0) = 1; p.G.resize(0, 2); p.h.resize(0);
  return p;
}
int main() {
  auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF;
  for (double z0 : {-5., -2., -50., 0., 3.}) {
    FBstabDense s(2, 0, 1); s.UpdateOptions(o);
    for (double sg : {-1., 1., -1., 1.}) {
      auto p = Make(sg);
      FBstabDense::Variable x(2, 0, 1); x.z(1) = z0;
      SolverOut r = s.Solve(p, &x);
      if (sg > 0 && r.eflag != ExitFlag::SUCCESS) FAIL("guess %g: a solvable problem ends with %d", z0, (int)r.eflag);
      if (sg < 0 && r.eflag != ExitFlag::DUAL_INFEASIBLE) FAIL("guess %g: an unbounded problem ends with %d", z0, (int)r.eflag);
    }
  }
  return 0;
}
''')
if __name__=='__main__':
    mut.run(sys.argv[1:])
