// Helpers shared by the demonstrations (copied beside each of them).
#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <random>
#include <stdexcept>
#include <string>
#include <vector>
#include "fbstab/fbstab_dense.h"
#include "fbstab/fbstab_mpc.h"
using namespace fbstab;
using Eigen::MatrixXd;
using Eigen::VectorXd;
#define FAIL(...) do { printf("FAIL: " __VA_ARGS__); printf("\n"); return 1; } while (0)

struct Rnd {
  std::mt19937 g;
  explicit Rnd(unsigned s) : g(s) {}
  double u() { return std::uniform_real_distribution<double>(-1, 1)(g); }
  MatrixXd m(int r, int c) { MatrixXd a(r, c); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) a(i, j) = u(); return a; }
  VectorXd v(int n) { return m(n, 1); }
};

// Strictly convex, strictly feasible dense problem.
inline FBstabDense::ProblemData RandomQp(unsigned seed, int nz, int nl, int nv) {
  Rnd r(seed);
  FBstabDense::ProblemData d(nz, nl, nv);
  MatrixXd q = r.m(nz, nz);
  d.H = q.transpose() * q + 0.5 * MatrixXd::Identity(nz, nz);
  d.f = 3 * r.v(nz);
  d.G = r.m(nl, nz);
  d.A = r.m(nv, nz);
  VectorXd z0 = r.v(nz);
  d.h = d.G * z0;
  d.b = d.A * z0 + VectorXd::Constant(nv, 0.3);
  return d;
}

// KKT residual of the plain (unpenalised) natural map.
inline double Kkt(const FBstabDense::ProblemData& d, const VectorXd& z, const VectorXd& l, const VectorXd& v) {
  VectorXd rz = d.H * z + d.f + d.G.transpose() * l + d.A.transpose() * v;
  VectorXd rl = d.h - d.G * z;
  VectorXd y = d.b - d.A * z;
  VectorXd rv = y.cwiseMin(v);
  return std::sqrt(rz.squaredNorm() + rl.squaredNorm() + rv.squaredNorm());
}
// The residual the solver documents.
inline double Pen(const FBstabDense::ProblemData& d, const VectorXd& z, const VectorXd& l, const VectorXd& v, double alpha) {
  VectorXd rz = d.H * z + d.f + d.G.transpose() * l + d.A.transpose() * v;
  VectorXd rl = d.h - d.G * z;
  VectorXd y = d.b - d.A * z;
  VectorXd rv(y.size());
  for (int i = 0; i < y.size(); i++)
    rv(i) = alpha * std::min(y(i), v(i)) + (1 - alpha) * std::max(0.0, y(i)) * std::max(0.0, v(i));
  return std::sqrt(rz.squaredNorm() + rl.squaredNorm() + rv.squaredNorm());
}

// Random optimal control problem with mixed state/input constraints.
inline FBstabMpc::ProblemData RandomOcp(unsigned seed, int N, int nx, int nu, int nc, bool cross = true) {
  Rnd r(seed);
  FBstabMpc::ProblemData d;
  d.Q = MatrixSequence(N + 1, nx, nx); d.R = MatrixSequence(N + 1, nu, nu); d.S = MatrixSequence(N + 1, nu, nx);
  d.q = MatrixSequence(N + 1, nx); d.r = MatrixSequence(N + 1, nu);
  d.A = MatrixSequence(N, nx, nx); d.B = MatrixSequence(N, nx, nu); d.c = MatrixSequence(N, nx);
  d.E = MatrixSequence(N + 1, nc, nx); d.L = MatrixSequence(N + 1, nc, nu); d.d = MatrixSequence(N + 1, nc);
  d.x0 = r.v(nx);
  VectorXd x = d.x0;
  for (int i = 0; i <= N; i++) {
    MatrixXd w = r.m(nx + nu, nx + nu);
    MatrixXd H = w.transpose() * w + 0.5 * MatrixXd::Identity(nx + nu, nx + nu);
    d.Q(i) = H.block(0, 0, nx, nx); d.R(i) = H.block(nx, nx, nu, nu); d.S(i) = H.block(nx, 0, nu, nx);
    if (!cross) d.S(i).setZero();
    d.q(i) = r.v(nx); d.r(i) = r.v(nu);
    VectorXd u = r.v(nu);
    d.E(i) = r.m(nc, nx); d.L(i) = r.m(nc, nu);
    d.d(i) = -(d.E(i) * x + d.L(i) * u) - VectorXd::Constant(nc, 0.3);
    if (i < N) {
      d.A(i) = 0.6 * r.m(nx, nx); d.B(i) = r.m(nx, nu); d.c(i) = 0.2 * r.v(nx);
      x = (d.A(i) * x + d.B(i) * u + VectorXd(d.c(i))).eval();
    }
  }
  return d;
}
// The same problem written out as a dense QP.
inline FBstabDense::ProblemData Condense(const FBstabMpc::ProblemData& p) {
  int N = p.B.length(), nx = p.B.rows(), nu = p.B.cols(), nc = p.E.rows(), n = nx + nu;
  FBstabDense::ProblemData d((N + 1) * n, (N + 1) * nx, (N + 1) * nc);
  d.H.setZero(); d.G.setZero(); d.A.setZero();
  for (int i = 0; i <= N; i++) {
    d.H.block(i * n, i * n, nx, nx) = p.Q(i); d.H.block(i * n + nx, i * n + nx, nu, nu) = p.R(i);
    d.H.block(i * n + nx, i * n, nu, nx) = p.S(i); d.H.block(i * n, i * n + nx, nx, nu) = p.S(i).transpose();
    d.f.segment(i * n, nx) = p.q(i); d.f.segment(i * n + nx, nu) = p.r(i);
    d.A.block(i * nc, i * n, nc, nx) = p.E(i); d.A.block(i * nc, i * n + nx, nc, nu) = p.L(i);
    d.b.segment(i * nc, nc) = -p.d(i);
    d.G.block(i * nx, i * n, nx, nx) = -MatrixXd::Identity(nx, nx);
    if (i == 0) d.h.segment(0, nx) = -p.x0;
    else {
      d.G.block(i * nx, (i - 1) * n, nx, nx) = p.A(i - 1); d.G.block(i * nx, (i - 1) * n + nx, nx, nu) = p.B(i - 1);
      d.h.segment(i * nx, nx) = -p.c(i - 1);
    }
  }
  return d;
}
// Collects what is printed; can throw at the n-th call.
class Sink : public OutputStream<Sink> {
 public:
  mutable std::string text;
  mutable int calls = 0;
  int throw_at = -1;
 protected:
  void PrintImplementation(const char* m) const {
    if (calls++ == throw_at) throw std::runtime_error("stream");
    text += m;
  }
  friend class OutputStream<Sink>;
};
inline bool Same(const VectorXd& a, const VectorXd& b) {
  return a.size() == b.size() && (a.size() == 0 || std::memcmp(a.data(), b.data(), sizeof(double) * a.size()) == 0);
}
inline bool Same(const FBstabDense::Variable& a, const FBstabDense::Variable& b) {
  return Same(a.z, b.z) && Same(a.l, b.l) && Same(a.v, b.v) && Same(a.y, b.y);
}
