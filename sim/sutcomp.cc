// Thin layer over the components: operators, iterates, residuals, feasibility
// checks and linear solvers used one by one.  Compiled like sut.cc.
#include "sutcomp.h"

#include "fbstab/components/dense_cholesky_solver.h"
#include "fbstab/components/dense_data.h"
#include "fbstab/components/full_feasibility.h"
#include "fbstab/components/full_residual.h"
#include "fbstab/components/full_variable.h"
#include "fbstab/components/mpc_data.h"
#include "fbstab/components/riccati_linear_solver.h"
#include "sut_common.h"

using namespace fbstab;

struct CData {
  int tag;
  DenseData* dense = nullptr;
  MpcData* mpc = nullptr;
  const Data* base() const {
    if (dense) return dense;
    return mpc;
  }
};
struct CVec {
  int tag;
  Eigen::VectorXd* v = nullptr;
};
struct CVar {
  int tag;
  FullVariable* v = nullptr;
};
struct CRes {
  int tag;
  FullResidual* r = nullptr;
};
struct CFeas {
  int tag;
  FullFeasibility* f = nullptr;
};
struct CLin {
  int tag;
  DenseCholeskySolver* dense = nullptr;
  RiccatiLinearSolver* mpc = nullptr;
};

template <class T, class F>
static int make(int tag, T** out, F f) {
  T* t = new T();
  t->tag = tag;
  *out = nullptr;
  int rc = guarded(tag, nullptr, [&] { f(t); });
  if (rc) delete t;
  else *out = t;
  return rc;
}

int cdata_new(const SutData* d, int tag, CData** out) {
  return make(tag, out, [&](CData* c) {
    if (d->kind == DENSE) {
      if (d->store == OWNED) {
        auto& q = *d->dense;
        c->dense = new DenseData(&q.H, &q.f, &q.G, &q.h, &q.A, &q.b);
      } else {
        auto& q = *d->dense_ref;
        c->dense = new DenseData(&q.H, &q.f, &q.G, &q.h, &q.A, &q.b);
      }
    } else if (d->store == OWNED) {
      auto& q = *d->mpc;
      c->mpc = new MpcData(&q.Q, &q.R, &q.S, &q.q, &q.r, &q.A, &q.B, &q.c, &q.E, &q.L, &q.d, &q.x0);
    } else {
      auto& q = *d->mpc_ref;
      c->mpc = new MpcData(&q.Q, &q.R, &q.S, &q.q, &q.r, &q.A, &q.B, &q.c, &q.E, &q.L, &q.d, &q.x0);
    }
  });
}
void cdata_delete(CData* c) {
  if (!c) return;
  guarded(c->tag, nullptr, [&] {
    delete c->dense;
    delete c->mpc;
  });
  delete c;
}
int cdata_apply(const CData* c, int op, const CVec* x, double a, double b, CVec* y, int tag) {
  const Data* d = c->base();
  Eigen::VectorXd* Y = y ? y->v : nullptr;
  return guarded(tag, nullptr, [&] {
    switch (op) {
      case 0: d->gemvH(*x->v, a, b, Y); break;
      case 1: d->gemvA(*x->v, a, b, Y); break;
      case 2: d->gemvAT(*x->v, a, b, Y); break;
      case 3: d->gemvG(*x->v, a, b, Y); break;
      case 4: d->gemvGT(*x->v, a, b, Y); break;
      case 5: d->axpyf(a, Y); break;
      case 6: d->axpyh(a, Y); break;
      default: d->axpyb(a, Y);
    }
  });
}
double cdata_forcing(const CData* c, int tag) {
  double r = 0;
  guarded(tag, nullptr, [&] { r = c->base()->ForcingNorm(); });
  return r;
}

int cvec_new(int n, int tag, CVec** out) {
  return make(tag, out, [&](CVec* c) { c->v = new Eigen::VectorXd(n); });
}
void cvec_delete(CVec* c) {
  if (!c) return;
  guarded(c->tag, nullptr, [&] { delete c->v; });
  delete c;
}
double* cvec_ptr(CVec* c, int* n) {
  *n = (int)c->v->size();
  return c->v->data();
}

int cvar_new(int nz, int nl, int nv, int tag, CVar** out) {
  return make(tag, out, [&](CVar* c) { c->v = new FullVariable(nz, nl, nv); });
}
void cvar_delete(CVar* c) {
  if (!c) return;
  guarded(c->tag, nullptr, [&] { delete c->v; });
  delete c;
}
void cvar_ptrs(CVar* c, double* p[4], int n[4]) {
  Eigen::VectorXd* w[4] = {&c->v->z(), &c->v->l(), &c->v->v(), &c->v->y()};
  for (int i = 0; i < 4; i++) {
    p[i] = w[i]->data();
    n[i] = (int)w[i]->size();
  }
}
int cvar_link(CVar* c, const CData* d) {
  return guarded(c->tag, nullptr, [&] { c->v->LinkData(d ? d->base() : nullptr); });
}
int cvar_fill(CVar* c, double a) {
  return guarded(c->tag, nullptr, [&] { c->v->Fill(a); });
}
int cvar_margin(CVar* c) {
  return guarded(c->tag, nullptr, [&] { c->v->InitializeConstraintMargin(); });
}
int cvar_axpy(CVar* c, double a, const CVar* x) {
  return guarded(c->tag, nullptr, [&] { c->v->axpy(a, *x->v); });
}
int cvar_copy(CVar* c, const CVar* x) {
  return guarded(c->tag, nullptr, [&] { c->v->Copy(*x->v); });
}
int cvar_project(CVar* c) {
  return guarded(c->tag, nullptr, [&] { c->v->ProjectDuals(); });
}
int cvar_norm(const CVar* c, double* out) {
  return guarded(c->tag, nullptr, [&] { *out = c->v->Norm(); });
}
bool cvar_same_size(const CVar* c, const CVar* x) { return c->v->SameSize(*x->v); }

int cres_new(int nz, int nl, int nv, int tag, CRes** out) {
  return make(tag, out, [&](CRes* c) { c->r = new FullResidual(nz, nl, nv); });
}
void cres_delete(CRes* c) {
  if (!c) return;
  guarded(c->tag, nullptr, [&] { delete c->r; });
  delete c;
}
void cres_ptrs(CRes* c, double* p[3], int n[3]) {
  Eigen::VectorXd* w[3] = {&c->r->z(), &c->r->l(), &c->r->v()};
  for (int i = 0; i < 3; i++) {
    p[i] = w[i]->data();
    n[i] = (int)w[i]->size();
  }
}
int cres_link(CRes* c, const CData* d) {
  return guarded(c->tag, nullptr, [&] { c->r->LinkData(d ? d->base() : nullptr); });
}
int cres_alpha(CRes* c, double a) {
  return guarded(c->tag, nullptr, [&] { c->r->SetAlpha(a); });
}
int cres_inner(CRes* c, const CVar* x, const CVar* xbar, double sigma) {
  return guarded(c->tag, nullptr, [&] { c->r->InnerResidual(*x->v, *xbar->v, sigma); });
}
int cres_natural(CRes* c, const CVar* x) {
  return guarded(c->tag, nullptr, [&] { c->r->NaturalResidual(*x->v); });
}
int cres_penalized(CRes* c, const CVar* x) {
  return guarded(c->tag, nullptr, [&] { c->r->PenalizedNaturalResidual(*x->v); });
}
int cres_negate(CRes* c) {
  return guarded(c->tag, nullptr, [&] { c->r->Negate(); });
}
int cres_fill(CRes* c, double a) {
  return guarded(c->tag, nullptr, [&] { c->r->Fill(a); });
}
int cres_norms(const CRes* c, double out[5]) {
  return guarded(c->tag, nullptr, [&] {
    out[0] = c->r->Norm();
    out[1] = c->r->Merit();
    out[2] = c->r->z_norm();
    out[3] = c->r->l_norm();
    out[4] = c->r->v_norm();
  });
}

int cfeas_new(int nz, int nl, int nv, int tag, CFeas** out) {
  return make(tag, out, [&](CFeas* c) { c->f = new FullFeasibility(nz, nl, nv); });
}
void cfeas_delete(CFeas* c) {
  if (!c) return;
  guarded(c->tag, nullptr, [&] { delete c->f; });
  delete c;
}
int cfeas_link(CFeas* c, const CData* d) {
  return guarded(c->tag, nullptr, [&] { c->f->LinkData(d ? d->base() : nullptr); });
}
int cfeas_check(CFeas* c, const CVar* x, double tol, int* verdict) {
  return guarded(c->tag, nullptr, [&] {
    switch (c->f->CheckFeasibility(*x->v, tol)) {
      case FullFeasibility::FeasibilityStatus::FEASIBLE: *verdict = 0; break;
      case FullFeasibility::FeasibilityStatus::PRIMAL_INFEASIBLE: *verdict = 1; break;
      case FullFeasibility::FeasibilityStatus::DUAL_INFEASIBLE: *verdict = 2; break;
      default: *verdict = 3;
    }
  });
}

int clin_new(const Dims& d, int tag, CLin** out) {
  return make(tag, out, [&](CLin* c) {
    if (d.kind == DENSE) c->dense = new DenseCholeskySolver(d.nz, d.nl, d.nv);
    else c->mpc = new RiccatiLinearSolver(d.N, d.nx, d.nu, d.nc);
  });
}
void clin_delete(CLin* c) {
  if (!c) return;
  guarded(c->tag, nullptr, [&] {
    delete c->dense;
    delete c->mpc;
  });
  delete c;
}
int clin_link(CLin* c, const CData* d) {
  return guarded(c->tag, nullptr, [&] {
    if (c->dense) c->dense->LinkData(d ? d->dense : nullptr);
    else c->mpc->LinkData(d ? d->mpc : nullptr);
  });
}
int clin_alpha(CLin* c, double a) {
  return guarded(c->tag, nullptr, [&] {
    if (c->dense) c->dense->SetAlpha(a);
    else c->mpc->SetAlpha(a);
  });
}
int clin_factor(CLin* c, const CVar* x, const CVar* xbar, double sigma, bool* ok) {
  return guarded(c->tag, nullptr, [&] {
    *ok = c->dense ? c->dense->Initialize(*x->v, *xbar->v, sigma) : c->mpc->Initialize(*x->v, *xbar->v, sigma);
  });
}
int clin_solve(const CLin* c, const CRes* r, CVar* dx, bool* ok) {
  return guarded(c->tag, nullptr, [&] { *ok = c->dense ? c->dense->Solve(*r->r, dx->v) : c->mpc->Solve(*r->r, dx->v); });
}
