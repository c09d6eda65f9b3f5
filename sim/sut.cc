// The only harness file (with seam.cc) that sees repository headers.  Compiled
// with basic-block hooks, because the solver templates are instantiated here.
#include "sut.h"

#include <Eigen/Dense>
#include <climits>
#include <memory>
#include <new>
#include <stdexcept>

#include "fbstab/fbstab_dense.h"
#include "fbstab/fbstab_mpc.h"
#include "rt.h"
#include "sut_common.h"
#include "tools/matrix_sequence.h"
#include "tools/output_stream.h"

using fbstab::FBstabDense;
using fbstab::FBstabMpc;
using fbstab::MapMatrixSequence;
using fbstab::MatrixSequence;
typedef Eigen::Map<Eigen::MatrixXd> MapM;
typedef Eigen::Map<Eigen::VectorXd> MapV;

struct SutSolver {
  int kind = 0, tag = 0;
  FBstabDense* dense = nullptr;
  FBstabMpc* mpc = nullptr;
};

// Eigen's cache-size table is a function-local static; Eigen documents this call
// as the way to have it ready before threads start.
void sut_init() { Eigen::initParallel(); }
int sut_new_solver(const Dims& d, int ctor, int tag, SutSolver** out, std::string* what) {
  SutSolver* s = new SutSolver;
  s->kind = d.kind;
  s->tag = tag;
  *out = nullptr;
  int rc = guarded(tag, what, [&] {
    if (d.kind == DENSE) {
      s->dense = new FBstabDense(d.nz, d.nl, d.nv);
    } else if (ctor == 1) {
      s->mpc = new FBstabMpc(Eigen::Vector4d(d.N, d.nx, d.nu, d.nc));
    } else {
      s->mpc = new FBstabMpc(d.N, d.nx, d.nu, d.nc);
    }
  });
  if (rc) {
    delete s;
  } else {
    *out = s;
  }
  return rc;
}
int sut_try_construct(int kind, int a, int b, int c, int e, std::string* what) {
  void* p = nullptr;
  int rc = guarded(999, what, [&] {
    if (kind == DENSE)
      p = new FBstabDense(a, b, c);
    else if (kind == MPC)
      p = new FBstabMpc(a, b, c, e);
    else
      p = new FBstabMpc(Eigen::Vector4d(a, b, c, e));
  });
  if (!rc) {
    guarded(999, what, [&] {
      if (kind == DENSE)
        delete (FBstabDense*)p;
      else
        delete (FBstabMpc*)p;
    });
  }
  return rc;
}
void sut_delete_solver(SutSolver* s) {
  if (!s) return;
  guarded(s->tag, nullptr, [&] {
    delete s->dense;
    delete s->mpc;
  });
  delete s;
}

static void from_params(const fbstab::AlgorithmParameters& a, Opts* o) {
  params_out(a, o);
}
int sut_update_options(SutSolver* s, const Opts& o, std::string* what) {
  return guarded(s->tag, what, [&] {
    if (s->kind == DENSE) {
      FBstabDense::Options x = FBstabDense::DefaultOptions();
      params_in(o, &x);
      s->dense->UpdateOptions(x);
    } else {
      FBstabMpc::Options x = FBstabMpc::DefaultOptions();
      params_in(o, &x);
      s->mpc->UpdateOptions(x);
    }
  });
}
int sut_fetch_options(int kind, int which, Opts* o, std::string* what) {
  return guarded(997, what, [&] { sut_stock_options(kind, which, o); });
}
void sut_stock_options(int kind, int which, Opts* o) {
  if (which == 2) {
    fbstab::AlgorithmParameters a;
    from_params(a, o);
  } else if (kind == DENSE) {
    from_params(which ? FBstabDense::ReliableOptions() : FBstabDense::DefaultOptions(), o);
  } else {
    from_params(which ? FBstabMpc::ReliableOptions() : FBstabMpc::DefaultOptions(), o);
  }
}
void sut_sanitize(Opts* o) {
  fbstab::AlgorithmParameters a;
  params_in(*o, &a);
  a.ValidateOptions();
  from_params(a, o);
}

// ---- data ----------------------------------------------------------------------------
SutData::~SutData() {}
static int upos(int x, int lo) { return x < lo ? lo : x; }

static void place(double* dst, int r2, int c2, const double* src, int r1, int c1) {
  for (int j = 0; j < c2; j++)
    for (int i = 0; i < r2; i++)
      dst[(size_t)j * r2 + i] = (i < r1 && j < c1) ? src[(size_t)j * r1 + i] : 0.25;
}

int sut_make_data(const Problem& p, int store, int tag, const std::vector<ShapeBug>& bugs,
                  SutData** out, std::string* what) {
  *out = nullptr;
  std::unique_ptr<SutData> s(new SutData);
  s->kind = p.d.kind;
  s->store = store;
  s->tag = tag;
  const Dims& d = p.d;
  auto bug = [&](int f, int* len, int* r, int* c) {
    for (const ShapeBug& b : bugs)
      if (b.field == f) {
        *len += b.dlen;
        *r += b.drow;
        *c += b.dcol;
      }
  };
  int mode = store == MAPPED_GUARD ? 1 : 0;
  auto buf = [&](size_t n) {
    double* q = (double*)rt::user_alloc(n * 8, mode);
    s->bufs.push_back({q, n});
    return q;
  };
  if (d.kind == DENSE) {
    struct {
      const Vec* v;
      int r, c;
    } src[6] = {{&p.H, d.nz, d.nz}, {&p.f, d.nz, 1}, {&p.G, d.nl, d.nz},
                {&p.h, d.nl, 1},    {&p.A, d.nv, d.nz}, {&p.b, d.nv, 1}};
    int R[6], C[6];
    double* bp[6];
    for (int i = 0; i < 6; i++) {
      int dummy = 0;
      R[i] = src[i].r;
      C[i] = src[i].c;
      bug(i, &dummy, &R[i], &C[i]);
      R[i] = upos(R[i], 0);
      C[i] = upos(C[i], 0);
    }
    if (store == OWNED) {
      FBstabDense::ProblemData* q = nullptr;
      int rc = guarded(tag, what, [&] {
        q = new FBstabDense::ProblemData(d.nz, d.nl, d.nv);
        s->dense = std::shared_ptr<FBstabDense::ProblemData>(
            q, [tag](FBstabDense::ProblemData* x) { guarded(tag, nullptr, [&] { delete x; }); });
      });
      if (rc) return rc;
      rc = guarded(tag, what, [&] {
        if (!bugs.empty()) {
          q->H.resize(R[0], C[0]);
          q->f.resize(R[1]);
          q->G.resize(R[2], C[2]);
          q->h.resize(R[3]);
          q->A.resize(R[4], C[4]);
          q->b.resize(R[5]);
        }
      });
      if (rc) return rc;
      double* dst[6] = {q->H.data(), q->f.data(), q->G.data(),
                        q->h.data(), q->A.data(), q->b.data()};
      for (int i = 0; i < 6; i++) {
        if ((size_t)R[i] * C[i]) place(dst[i], R[i], i % 2 ? 1 : C[i], src[i].v->data(), src[i].r, src[i].c);
        s->views.push_back({dst[i], (size_t)R[i] * (i % 2 ? 1 : C[i])});
      }
    } else {
      for (int i = 0; i < 6; i++) {
        if (i % 2) C[i] = 1;
        bp[i] = buf((size_t)R[i] * C[i]);
        place(bp[i], R[i], C[i], src[i].v->data(), src[i].r, src[i].c);
        s->views.push_back({bp[i], (size_t)R[i] * C[i]});
      }
      MapM H(bp[0], R[0], C[0]), G(bp[2], R[2], C[2]), A(bp[4], R[4], C[4]);
      MapV f(bp[1], R[1]), h(bp[3], R[3]), b(bp[5], R[5]);
      s->dense_ref.reset(new FBstabDense::ProblemDataRef(&H, &f, &G, &h, &A, &b));
    }
  } else {
    int L[NSEQ], R[NSEQ], C[NSEQ], nx0 = d.nx, dl = 0, dc = 0;
    for (int i = 0; i < NSEQ; i++) {
      SeqShape sh = seq_shape(d, i);
      L[i] = sh.len;
      R[i] = sh.rows;
      C[i] = sh.cols;
      bug(i, &L[i], &R[i], &C[i]);
      L[i] = upos(L[i], store == OWNED ? 0 : 1);
      R[i] = upos(R[i], 1);
      C[i] = upos(C[i], 1);
    }
    bug(NSEQ, &dl, &nx0, &dc);
    nx0 = upos(nx0, 0);
    auto put = [&](double* dst, int i) {
      SeqShape sh = seq_shape(d, i);
      for (int k = 0; k < L[i]; k++) {
        Vec zero((size_t)sh.rows * sh.cols, 0.5);
        const double* sp = k < sh.len ? p.seq[i].data() + (size_t)k * sh.rows * sh.cols : zero.data();
        place(dst + (size_t)k * R[i] * C[i], R[i], C[i], sp, sh.rows, sh.cols);
      }
    };
    if (store == OWNED || store == MAPPED_SEQ) {
      FBstabMpc::ProblemData* q = nullptr;
      int rc = guarded(tag, what, [&] {
        q = new FBstabMpc::ProblemData();
        s->mpc = std::shared_ptr<FBstabMpc::ProblemData>(
            q, [tag](FBstabMpc::ProblemData* x) { guarded(tag, nullptr, [&] { delete x; }); });
      });
      if (rc) return rc;
      MatrixSequence* dst[NSEQ] = {&q->Q, &q->R, &q->S, &q->q, &q->r, &q->A,
                                   &q->B, &q->c, &q->E, &q->L, &q->d};
      rc = guarded(tag, what, [&] {
        for (int i = 0; i < NSEQ; i++) *dst[i] = MatrixSequence(L[i], R[i], C[i]);
        q->x0.resize(nx0);
      });
      if (rc) return rc;
      for (int i = 0; i < NSEQ; i++) {
        put(dst[i]->data(), i);
        s->views.push_back({dst[i]->data(), (size_t)L[i] * R[i] * C[i]});
      }
      place(q->x0.data(), nx0, 1, p.x0.data(), d.nx, 1);
      s->views.push_back({q->x0.data(), (size_t)nx0});
      if (store == MAPPED_SEQ) {
        s->mpc_ref.reset(new FBstabMpc::ProblemDataRef(&q->Q, &q->R, &q->S, &q->q, &q->r, &q->A,
                                                       &q->B, &q->c, &q->E, &q->L, &q->d, &q->x0));
      }
    } else {
      s->mpc_ref.reset(new FBstabMpc::ProblemDataRef());
      FBstabMpc::ProblemDataRef* q = s->mpc_ref.get();
      MapMatrixSequence* dst[NSEQ] = {&q->Q, &q->R, &q->S, &q->q, &q->r, &q->A,
                                      &q->B, &q->c, &q->E, &q->L, &q->d};
      for (int i = 0; i < NSEQ; i++) {
        double* bp = buf((size_t)L[i] * R[i] * C[i]);
        put(bp, i);
        *dst[i] = MapMatrixSequence(bp, L[i], R[i], C[i]);
        s->views.push_back({bp, (size_t)L[i] * R[i] * C[i]});
      }
      double* bx = buf(nx0);
      place(bx, nx0, 1, p.x0.data(), d.nx, 1);
      q->SetX0(MapV(bx, nx0));
      s->views.push_back({bx, (size_t)nx0});
    }
  }
  if (store == MAPPED_GUARD)
    for (auto& b : s->bufs) rt::user_readonly(b.first, b.second * 8, true);
  *out = s.release();
  return 0;
}
void sut_delete_data(SutData* s) {
  if (!s) return;
  std::vector<std::pair<double*, size_t>> bufs = s->bufs;
  int store = s->store;
  delete s;
  if (store == MAPPED)
    for (auto& b : bufs) free(b.first);
}
static void refresh_views(SutData* s) {
  s->views.clear();
  if (s->dense) {
    FBstabDense::ProblemData* q = s->dense.get();
    Eigen::MatrixXd* ms[3] = {&q->H, &q->G, &q->A};
    Eigen::VectorXd* vs[3] = {&q->f, &q->h, &q->b};
    for (int i = 0; i < 3; i++) {
      s->views.push_back({ms[i]->data(), (size_t)ms[i]->size()});
      s->views.push_back({vs[i]->data(), (size_t)vs[i]->size()});
    }
  } else if (s->mpc) {
    FBstabMpc::ProblemData* q = s->mpc.get();
    for (MatrixSequence* m : {&q->Q, &q->R, &q->S, &q->q, &q->r, &q->A, &q->B, &q->c, &q->E, &q->L, &q->d})
      s->views.push_back({m->data(), (size_t)m->size()});
    s->views.push_back({q->x0.data(), (size_t)q->x0.size()});
  }
}
int sut_clone_data(const SutData* o, int tag, SutData** out) {
  *out = nullptr;
  std::unique_ptr<SutData> s(new SutData);
  s->kind = o->kind;
  s->tag = tag;
  FBstabDense::ProblemData* d = nullptr;
  FBstabMpc::ProblemData* m = nullptr;
  int rc = guarded(tag, nullptr, [&] {
    if (o->dense) d = new FBstabDense::ProblemData(*o->dense);
    if (o->mpc) m = new FBstabMpc::ProblemData(*o->mpc);
  });
  if (rc) return rc;
  if (d)
    s->dense = std::shared_ptr<FBstabDense::ProblemData>(
        d, [tag](FBstabDense::ProblemData* x) { guarded(tag, nullptr, [&] { delete x; }); });
  if (m)
    s->mpc = std::shared_ptr<FBstabMpc::ProblemData>(
        m, [tag](FBstabMpc::ProblemData* x) { guarded(tag, nullptr, [&] { delete x; }); });
  refresh_views(s.get());
  *out = s.release();
  return 0;
}
int sut_assign_data(SutData* d, const SutData* o) {
  int rc = guarded(d->tag, nullptr, [&] {
    if (d->dense && o->dense) *d->dense = *o->dense;
    if (d->mpc && o->mpc) *d->mpc = *o->mpc;
  });
  refresh_views(d);
  return rc;
}
void sut_poke_data(SutData* s, size_t k, double v) {
  for (auto& w : s->views) {
    if (k < w.second) {
      w.first[k] = v;
      return;
    }
    k -= w.second;
  }
}
int sut_clone_var(const SutVar* o, int tag, SutVar** out) {
  *out = nullptr;
  std::unique_ptr<SutVar> s(new SutVar);
  s->kind = o->kind;
  s->tag = tag;
  for (int i = 0; i < 4; i++) s->n[i] = o->n[i];
  int rc = guarded(tag, nullptr, [&] {
    if (o->dense) s->dense = new FBstabDense::Variable(*o->dense);
    if (o->mpc) s->mpc = new FBstabMpc::Variable(*o->mpc);
  });
  if (rc) return rc;
  *out = s.release();
  return 0;
}
void sut_data_bits(const SutData* s, Vec* out) {
  out->clear();
  for (auto& v : s->views) out->insert(out->end(), v.first, v.first + v.second);
}

// ---- variables -------------------------------------------------------------------------
SutVar::~SutVar() {}
int sut_make_var(const Dims& d, int store, int tag, const Point& init, const int ds[4],
                 SutVar** out, std::string* what) {
  *out = nullptr;
  std::unique_ptr<SutVar> s(new SutVar);
  s->kind = d.kind;
  s->store = store;
  s->tag = tag;
  int n[4] = {d.nz, d.nl, d.nv, d.nv};
  for (int i = 0; i < 4; i++) n[i] = upos(n[i] + (ds ? ds[i] : 0), 0);
  if (store == OWNED) {
    int rc = guarded(tag, what, [&] {
      if (d.kind == DENSE) {
        s->dense = new FBstabDense::Variable(d.nz, d.nl, d.nv);
        if (ds) {
          s->dense->z.resize(n[0]);
          s->dense->l.resize(n[1]);
          s->dense->v.resize(n[2]);
          s->dense->y.resize(n[3]);
        }
      } else {
        s->mpc = new FBstabMpc::Variable(d.N, d.nx, d.nu, d.nc);
        if (ds) {
          s->mpc->z.resize(n[0]);
          s->mpc->l.resize(n[1]);
          s->mpc->v.resize(n[2]);
          s->mpc->y.resize(n[3]);
        }
      }
    });
    if (rc) {
      guarded(tag, nullptr, [&] {
        delete s->dense;
        delete s->mpc;
      });
      return rc;
    }
  } else {
    int mode = store == MAPPED_GUARD ? 1 : 0;
    for (int i = 0; i < 4; i++)
      s->buf[i] = (double*)rt::user_alloc((size_t)n[i] * 8, mode);
    MapV z(s->buf[0], n[0]), l(s->buf[1], n[1]), v(s->buf[2], n[2]), y(s->buf[3], n[3]);
    if (d.kind == DENSE)
      s->dense_ref.reset(new FBstabDense::VariableRef(&z, &l, &v, &y));
    else
      s->mpc_ref.reset(new FBstabMpc::VariableRef(z, l, v, y));
  }
  for (int i = 0; i < 4; i++) s->n[i] = n[i];
  sut_set_var(s.get(), init);
  *out = s.release();
  return 0;
}
void sut_delete_var(SutVar* s) {
  if (!s) return;
  guarded(s->tag, nullptr, [&] {
    delete s->dense;
    delete s->mpc;
  });
  if (s->store == MAPPED)
    for (double* b : s->buf) free(b);
  delete s;
}
static void var_ptrs(const SutVar* s, double* p[4], size_t n[4]) {
  if (s->store != OWNED) {
    for (int i = 0; i < 4; i++) {
      p[i] = s->buf[i];
      n[i] = s->n[i];
    }
  } else if (s->kind == DENSE) {
    Eigen::VectorXd* v[4] = {&s->dense->z, &s->dense->l, &s->dense->v, &s->dense->y};
    for (int i = 0; i < 4; i++) {
      p[i] = v[i]->data();
      n[i] = v[i]->size();
    }
  } else {
    Eigen::VectorXd* v[4] = {&s->mpc->z, &s->mpc->l, &s->mpc->v, &s->mpc->y};
    for (int i = 0; i < 4; i++) {
      p[i] = v[i]->data();
      n[i] = v[i]->size();
    }
  }
}
void sut_set_var(SutVar* s, const Point& x) {
  double* p[4];
  size_t n[4];
  var_ptrs(s, p, n);
  const Vec* src[4] = {&x.z, &x.l, &x.v, &x.y};
  for (int i = 0; i < 4; i++)
    for (size_t j = 0; j < n[i]; j++) p[i][j] = j < src[i]->size() ? (*src[i])[j] : 0.0;
}
void sut_get_var(const SutVar* s, Point* x) {
  double* p[4];
  size_t n[4];
  var_ptrs(s, p, n);
  Vec* dst[4] = {&x->z, &x->l, &x->v, &x->y};
  for (int i = 0; i < 4; i++) dst[i]->assign(p[i], p[i] + n[i]);
}

// ---- solve -------------------------------------------------------------------------------
template <class S, class D, class V>
static fbstab::SolverOut call(S* s, const D& d, V* v, int stream) {
  if (stream == ST_DEFAULT) return s->Solve(d, v);
  SimStream os;
  return s->Solve(d, v, os);
}
void sut_solve(SutSolver* s, const SutData* d, SutVar* v, int stream, Reply* r) {
  fbstab::SolverOut o;
  r->what.clear();
  r->thrown = guarded(s->tag, &r->what, [&] {
    if (s->kind == DENSE) {
      if (d->store == OWNED) {
        o = v->store == OWNED ? call(s->dense, *d->dense, v->dense, stream)
                              : call(s->dense, *d->dense, v->dense_ref.get(), stream);
      } else {
        o = v->store == OWNED ? call(s->dense, *d->dense_ref, v->dense, stream)
                              : call(s->dense, *d->dense_ref, v->dense_ref.get(), stream);
      }
    } else {
      if (d->store == OWNED) {
        o = v->store == OWNED ? call(s->mpc, *d->mpc, v->mpc, stream)
                              : call(s->mpc, *d->mpc, v->mpc_ref.get(), stream);
      } else {
        o = v->store == OWNED ? call(s->mpc, *d->mpc_ref, v->mpc, stream)
                              : call(s->mpc, *d->mpc_ref, v->mpc_ref.get(), stream);
      }
    }
  });
  out_of(o, &r->out);
  sut_get_var(v, &r->x);
}

// ---- containers ---------------------------------------------------------------------------
struct SutSeq {
  MatrixSequence* m;
  int tag;
};
struct SutMap {
  MapMatrixSequence* m;
  int tag;
};
template <class F>
static int mk_seq(int tag, SutSeq** out, F f) {
  *out = nullptr;
  MatrixSequence* m = nullptr;
  int rc = guarded(tag, nullptr, [&] { m = f(); });
  if (!rc) *out = new SutSeq{m, tag};
  return rc;
}
int seq_new(int len, int rows, int cols, int tag, SutSeq** out) {
  return mk_seq(tag, out, [&] {
    if (len == INT_MIN && rows == INT_MIN) return new MatrixSequence();
    return new MatrixSequence(len, rows, cols);
  });
}
int seq_copy_new(const SutSeq* s, int tag, SutSeq** out) {
  return mk_seq(tag, out, [&] { return new MatrixSequence(*s->m); });
}
int seq_move_new(SutSeq* s, int tag, SutSeq** out) {
  return mk_seq(tag, out, [&] { return new MatrixSequence(std::move(*s->m)); });
}
int seq_assign(SutSeq* d, const SutSeq* s) {
  return guarded(d->tag, nullptr, [&] { *d->m = *s->m; });
}
int seq_move_assign(SutSeq* d, SutSeq* s) {
  return guarded(d->tag, nullptr, [&] { *d->m = std::move(*s->m); });
}
void seq_delete(SutSeq* s) {
  if (!s) return;
  guarded(s->tag, nullptr, [&] { delete s->m; });
  delete s;
}
void seq_shape_of(const SutSeq* s, SeqShapeOut* o) {
  const MatrixSequence* c = s->m;
  *o = {c->length(), c->rows(), c->cols(), c->size(), c->data(), 0};
}
double* seq_data(SutSeq* s) { return s->m->data(); }
int seq_get(const SutSeq* s, int k, int i, int j, double* out) {
  return guarded(s->tag, nullptr, [&] {
    const MatrixSequence* c = s->m;
    auto M = (*c)(k);
    *out = M(i, j);
  });
}
int seq_set(SutSeq* s, int k, int i, int j, double v) {
  return guarded(s->tag, nullptr, [&] {
    auto M = (*s->m)(k);
    M(i, j) = v;
  });
}
template <class F>
static int mk_map(int tag, SutMap** out, F f) {
  *out = nullptr;
  MapMatrixSequence* m = nullptr;
  int rc = guarded(tag, nullptr, [&] { m = f(); });
  if (!rc) *out = new SutMap{m, tag};
  return rc;
}
int map_new(const double* data, int len, int rows, int cols, int tag, SutMap** out) {
  return mk_map(tag, out, [&] {
    if (len == INT_MIN && rows == INT_MIN) return new MapMatrixSequence();
    return new MapMatrixSequence(data, len, rows, cols);
  });
}
int map_from_seq(const SutSeq* s, int tag, SutMap** out) {
  return mk_map(tag, out, [&] { return new MapMatrixSequence(*s->m); });
}
int map_copy_new(const SutMap* s, int tag, SutMap** out) {
  return mk_map(tag, out, [&] { return new MapMatrixSequence(*s->m); });
}
int map_assign(SutMap* d, const SutMap* s) {
  return guarded(d->tag, nullptr, [&] { *d->m = *s->m; });
}
void map_delete(SutMap* s) {
  if (!s) return;
  guarded(s->tag, nullptr, [&] { delete s->m; });
  delete s;
}
void map_shape_of(const SutMap* s, SeqShapeOut* o) {
  const MapMatrixSequence* c = s->m;
  *o = {c->length(), c->rows(), c->cols(), c->size(), c->data(), 0};
}
int map_get(const SutMap* s, int k, int i, int j, double* out) {
  return guarded(s->tag, nullptr, [&] {
    const MapMatrixSequence* c = s->m;
    auto M = (*c)(k);
    *out = M(i, j);
  });
}
