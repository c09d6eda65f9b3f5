// Shared by sut.cc and seam.cc only.
#pragma once
#include <Eigen/Dense>
#include <memory>
#include <new>
#include <stdexcept>

#include "fbstab/fbstab_algorithm.h"
#include "fbstab/fbstab_dense.h"
#include "fbstab/fbstab_mpc.h"
#include "rt.h"
#include "sut.h"
#include "tools/output_stream.h"

struct SimStreamError : std::exception {
  const char* what() const noexcept override { return "simulated stream failure"; }
};

// A custom output stream, as a user would write one.
class SimStream : public fbstab::OutputStream<SimStream> {
 protected:
  void PrintImplementation(const char* message) const {
    int k = rt::on_print(message);
    if (k == 1) throw SimStreamError();
    if (k == 2) throw 42;
  }
  friend class fbstab::OutputStream<SimStream>;
};

// Runs f inside the simulated process context; classifies what it throws.
template <class F>
int guarded(int tag, std::string* what, F f) {
  int old = rt::cur->owner;
  rt::cur->owner = tag;
  int rc = X_NONE;
  std::string w;
  try {
    rt::Zone z;
    f();
  } catch (const std::bad_alloc& e) {
    rc = X_BAD_ALLOC;
    w = e.what();
  } catch (const std::runtime_error& e) {
    rc = X_RUNTIME;
    w = e.what();
  } catch (const SimStreamError& e) {
    rc = X_STREAM_EXC;
    w = e.what();
  } catch (int) {
    rc = X_STREAM_INT;
  } catch (const std::exception& e) {
    rc = X_STDEXC;
    w = e.what();
  } catch (...) {
    rc = X_UNKNOWN;
  }
  rt::cur->owner = old;
  if (what) *what = w;
  return rc;
}

struct SutData {
  int kind = 0, store = 0, tag = 0;
  std::shared_ptr<fbstab::FBstabDense::ProblemData> dense;
  std::unique_ptr<fbstab::FBstabDense::ProblemDataRef> dense_ref;
  std::shared_ptr<fbstab::FBstabMpc::ProblemData> mpc;
  std::unique_ptr<fbstab::FBstabMpc::ProblemDataRef> mpc_ref;
  std::vector<std::pair<double*, size_t>> bufs, views;
  ~SutData();
};
struct SutVar {
  int kind = 0, store = 0, tag = 0;
  int n[4] = {0, 0, 0, 0};
  fbstab::FBstabDense::Variable* dense = nullptr;
  fbstab::FBstabMpc::Variable* mpc = nullptr;
  std::unique_ptr<fbstab::FBstabDense::VariableRef> dense_ref;
  std::unique_ptr<fbstab::FBstabMpc::VariableRef> mpc_ref;
  double* buf[4] = {nullptr, nullptr, nullptr, nullptr};
  ~SutVar();
};

#define EACH_D(X)                                                             \
  X(sigma0) X(sigma_max) X(sigma_min) X(alpha) X(beta) X(eta) X(delta) X(gamma) \
  X(abs_tol) X(rel_tol) X(stall_tol) X(infeas_tol) X(inner_tol_max) X(inner_tol_min)
#define EACH_I(X) \
  X(max_newton_iters) X(max_prox_iters) X(max_inner_iters) X(max_linesearch_iters)

inline void params_in(const Opts& o, fbstab::AlgorithmParameters* a) {
#define X(n) a->n = o.n;
  EACH_D(X) EACH_I(X)
#undef X
  a->check_feasibility = o.check_feasibility != 0;
  a->nonmonotone_linesearch = o.nonmonotone_linesearch != 0;
  a->display_level = (fbstab::Display)o.display;
}
inline void params_out(const fbstab::AlgorithmParameters& a, Opts* o) {
#define X(n) o->n = a.n;
  EACH_D(X) EACH_I(X)
#undef X
  o->check_feasibility = a.check_feasibility;
  o->nonmonotone_linesearch = a.nonmonotone_linesearch;
  o->display = (int)a.display_level;
}
inline void out_of(const fbstab::SolverOut& s, Out* o) {
  o->eflag = (int)s.eflag;
  o->newton = s.newton_iters;
  o->prox = s.prox_iters;
  o->residual = s.residual;
  o->initial_residual = s.initial_residual;
  o->solve_time = s.solve_time;
}
