// FBstabAlgorithm with the repository's own components, the linear solver
// wrapped so that the simulator sees and can disturb every Newton step.
#include <algorithm>

#include "fbstab/components/dense_cholesky_solver.h"
#include "fbstab/components/dense_data.h"
#include "fbstab/components/full_feasibility.h"
#include "fbstab/components/full_residual.h"
#include "fbstab/components/full_variable.h"
#include "fbstab/components/mpc_data.h"
#include "fbstab/components/riccati_linear_solver.h"
#include "sut_common.h"

using namespace fbstab;

namespace {
struct Ctx {
  SeamHooks* hooks = nullptr;
  const Problem* p = nullptr;
};
thread_local Ctx ctx;

template <class Base>
class SimSolver : public Base {
 public:
  using Base::Base;
  bool Initialize(const FullVariable& x, const FullVariable& xbar, double sigma) {
    x_ = &x;
    xbar_ = &xbar;
    sigma_ = sigma;
    {
      rt::Unzone u;
      if (ctx.hooks && !ctx.hooks->on_initialize(sigma)) return false;
    }
    return Base::Initialize(x, xbar, sigma);
  }
  bool Solve(const FullResidual& r, FullVariable* dx) const {
    bool ok = Base::Solve(r, dx);
    if (!ok || !ctx.hooks) return ok;
    NewtonStep s;
    s.p = ctx.p;
    s.sigma = sigma_;
    s.xz = x_->z().data();
    s.xl = x_->l().data();
    s.xv = x_->v().data();
    s.xy = x_->y().data();
    s.bz = xbar_->z().data();
    s.bl = xbar_->l().data();
    s.bv = xbar_->v().data();
    s.by = xbar_->y().data();
    s.rz = r.z().data();
    s.rl = r.l().data();
    s.rv = r.v().data();
    s.dz = dx->z().data();
    s.dl = dx->l().data();
    s.dv = dx->v().data();
    s.dy = dx->y().data();
    rt::Unzone u;
    return ctx.hooks->on_solve(s);
  }

 private:
  const FullVariable* x_ = nullptr;
  const FullVariable* xbar_ = nullptr;
  double sigma_ = 0;
};

template <class Lin>
struct Bundle {
  using Algo = FBstabAlgorithm<FullVariable, FullResidual, SimSolver<Lin>, FullFeasibility>;
  FullVariable x1, x2, x3, x4;
  FullResidual r1, r2;
  SimSolver<Lin> lin;
  FullFeasibility feas;
  Algo algo;
  template <class... A>
  Bundle(int nz, int nl, int nv, A... a)
      : x1(nz, nl, nv), x2(nz, nl, nv), x3(nz, nl, nv), x4(nz, nl, nv),
        r1(nz, nl, nv), r2(nz, nl, nv), lin(a...), feas(nz, nl, nv),
        algo(&x1, &x2, &x3, &x4, &r1, &r2, &lin, &feas) {}
};
}  // namespace

struct Seam {
  int kind, tag;
  Bundle<DenseCholeskySolver>* dense = nullptr;
  Bundle<RiccatiLinearSolver>* mpc = nullptr;
};

int seam_new(const Dims& d, int tag, Seam** out, std::string* what) {
  Seam* s = new Seam;
  s->kind = d.kind;
  s->tag = tag;
  *out = nullptr;
  int rc = guarded(tag, what, [&] {
    if (d.kind == DENSE)
      s->dense = new Bundle<DenseCholeskySolver>(d.nz, d.nl, d.nv, d.nz, d.nl, d.nv);
    else
      s->mpc = new Bundle<RiccatiLinearSolver>(d.nz, d.nl, d.nv, d.N, d.nx, d.nu, d.nc);
  });
  if (rc)
    delete s;
  else
    *out = s;
  return rc;
}
void seam_delete(Seam* s) {
  if (!s) return;
  guarded(s->tag, nullptr, [&] {
    delete s->dense;
    delete s->mpc;
  });
  delete s;
}
int seam_update_options(Seam* s, const Opts& o, std::string* what) {
  return guarded(s->tag, what, [&] {
    AlgorithmParameters a;
    params_in(o, &a);
    if (s->dense)
      s->dense->algo.UpdateParameters(&a);
    else
      s->mpc->algo.UpdateParameters(&a);
  });
}
void seam_current_options(Seam* s, Opts* o) {
  if (s->dense)
    params_out(s->dense->algo.CurrentParameters(), o);
  else
    params_out(s->mpc->algo.CurrentParameters(), o);
}
void seam_solve(Seam* s, const Problem& p, const SutData* d, SutVar* v, int stream,
                SeamHooks* hooks, Reply* r) {
  ctx.hooks = hooks;
  ctx.p = &p;
  SolverOut o;
  r->what.clear();
  r->thrown = guarded(s->tag, &r->what, [&] {
    StandardOutput so;
    SimStream ss;
    if (s->dense) {
      auto& q = *d->dense;
      DenseData data(&q.H, &q.f, &q.G, &q.h, &q.A, &q.b);
      auto* x = v->dense;
      o = stream == ST_DEFAULT ? s->dense->algo.Solve(data, &x->z, &x->l, &x->v, &x->y, so)
                               : s->dense->algo.Solve(data, &x->z, &x->l, &x->v, &x->y, ss);
    } else {
      auto& q = *d->mpc;
      MpcData data(&q.Q, &q.R, &q.S, &q.q, &q.r, &q.A, &q.B, &q.c, &q.E, &q.L, &q.d, &q.x0);
      auto* x = v->mpc;
      o = stream == ST_DEFAULT ? s->mpc->algo.Solve(data, &x->z, &x->l, &x->v, &x->y, so)
                               : s->mpc->algo.Solve(data, &x->z, &x->l, &x->v, &x->y, ss);
    }
  });
  ctx.hooks = nullptr;
  out_of(o, &r->out);
  sut_get_var(v, &r->x);
}
