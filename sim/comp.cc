// C19, C21 and part of C14: the library's components used directly, in histories
// that interleave objects, threads, failing allocations and relinked data.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <string>

#include "exec.h"
#include "sutcomp.h"

using rt::ev;
using rt::probe;
using rt::violate;

namespace {
typedef long double LD;
const LD EPS = 2.3e-16L;

double coef(int64_t c) {
  static const double t[12] = {1, -1, 0, 2, 0.5, -0.3, 1e-3, -7.25, -2, 1e4, -0.5, 3.7e-5};
  if (c >= 0 && c < 12) return t[c];
  Rng g((uint64_t)c, 77);
  double r = (g.chance(0.5) ? 1 : -1) * g.logu(1e-3, 1e3);
  return g.chance(0.3) ? r * g.logu(1e-9, 1e3) : r;
}
// Special positions: on the equality constraints, complementary, at the origin.
void special(const Problem& p, int64_t at, double* z, double* l, double* v) {
  const int n = p.d.nz, m = p.d.nl, q = p.d.nv;
  if (at == 3)
    for (int i = 0; i < n; i++) z[i] = 0;
  if (at == 4) {
    for (int i = 0; i < m; i++) l[i] = 0;
    for (int i = 0; i < q; i++) v[i] = 0;
  }
  if (at & 1) {
    for (int pass = 0; pass < 2; pass++) {
      std::vector<Vec> M(m, Vec(m + 1, 0));
      for (int i = 0; i < m; i++) {
        LD t = -(LD)p.h[i];
        for (int c = 0; c < n; c++) t += (LD)p.G[(size_t)c * m + i] * z[c];
        M[i][m] = (double)t;
        for (int j = 0; j < m; j++)
          for (int c = 0; c < n; c++) M[i][j] += p.G[(size_t)c * m + i] * p.G[(size_t)c * m + j];
      }
      for (int k = 0; k < m; k++) {
        int b = k;
        for (int i = k; i < m; i++)
          if (std::fabs(M[i][k]) > std::fabs(M[b][k])) b = i;
        std::swap(M[k], M[b]);
        if (!(std::fabs(M[k][k]) > 1e-8)) return;
        for (int i = 0; i < m; i++) {
          if (i == k) continue;
          double t = M[i][k] / M[k][k];
          for (int j = k; j <= m; j++) M[i][j] -= t * M[k][j];
        }
      }
      for (int i = 0; i < m; i++)
        for (int c = 0; c < n; c++) z[c] -= p.G[(size_t)c * m + i] * M[i][m] / M[i][i];
    }
  }
  if (at & 2 && at < 4)
    for (int i = 0; i < q; i++) {
      LD y = p.b[i];
      for (int c = 0; c < n; c++) y -= (LD)p.A[(size_t)c * q + i] * z[c];
      v[i] = y > 0 ? 0 : std::fabs(v[i]);
    }
}
void fill(double* p, int n, uint64_t seed, int64_t sc) {
  Rng g(seed, 31);
  double s = std::pow(10.0, (double)sc);
  for (int i = 0; i < n; i++) {
    double u = g.u01();
    p[i] = u < 0.12 ? 0.0 : u < 0.2 ? s : u < 0.25 ? -s : s * g.gauss();
  }
}
bool same(const Vec& a, const double* b) { return a.empty() || !memcmp(a.data(), b, a.size() * 8); }

struct Dat {
  Problem p;
  SutData* raw = nullptr;
  CData* c = nullptr;
  Vec bits;
};
struct Var {
  CVar* c = nullptr;
  int tag = 0;
  Dims d;
  int data = -1;          // linked
  int about = -1;         // the data the margin was computed for; -1: not a margin
  bool vague = false;     // an operation on it failed half way
  std::vector<LD> yerr;   // how far y may be from b - A z
};
struct Res {
  CRes* c = nullptr;
  int tag = 0;
  Dims d;
  int data = -1;
  double alpha = 0.95;
  bool vague = false, cached = false;
};
struct Feas {
  CFeas* c = nullptr;
  int tag = 0;
  Dims d;
  int data = -1;
};
struct Lin {
  CLin* c = nullptr;
  int tag = 0;
  Dims d;
  int data = -1;
  double alpha = 0.95, sigma = 0;
  bool ready = false;
  Point x, xbar;
};
Point read_var(CVar* c) {
  double* p[4];
  int n[4];
  cvar_ptrs(c, p, n);
  Point x;
  x.z.assign(p[0], p[0] + n[0]);
  x.l.assign(p[1], p[1] + n[1]);
  x.v.assign(p[2], p[2] + n[2]);
  x.y.assign(p[3], p[3] + n[3]);
  return x;
}
Point read_res(CRes* c) {
  double* p[3];
  int n[3];
  cres_ptrs(c, p, n);
  Point x;
  x.z.assign(p[0], p[0] + n[0]);
  x.l.assign(p[1], p[1] + n[1]);
  x.v.assign(p[2], p[2] + n[2]);
  return x;
}
bool tame(const Point& x, double lim = 1e60) {
  for (const Vec* w : {&x.z, &x.l, &x.v, &x.y})
    for (double t : *w)
      if (!(std::fabs(t) < lim)) return false;
  return true;
}
LD normld(const Vec& w) {
  LD s = 0;
  for (double t : w) s += (LD)t * t;
  return sqrtl(s);
}
// One term of a matrix-vector product, with the sum of magnitudes.
void mulv(const Vec& M, int r, int c, bool tr, const Vec& x, std::vector<LD>* y, std::vector<LD>* s, LD a) {
  for (int j = 0; j < c; j++)
    for (int i = 0; i < r; i++) {
      LD t = a * (LD)M[(size_t)j * r + i] * (tr ? x[i] : x[j]);
      (*y)[tr ? j : i] += t;
      (*s)[tr ? j : i] += fabsl(t);
    }
}

struct World;
struct Ctx {
  World* w = nullptr;
  int tag_base = 1000, next = 0;
  std::map<int, Var> vars;
  std::map<int, Res> ress;
  std::map<int, Feas> feas;
  std::map<int, Lin> lins;
  void run_op(const Op& op);
  void finish();
  int tag() { return tag_base + ++next; }

 private:
  Dat* dat(const Op& op, int* idx = nullptr);
  int begin(const Op& op);
  void outcome(int rc, bool linked, const char* what);
  void apply(const Op& op);
  void check_var(const char* what, const Point& got, const Point& want, LD rel, bool exact, int only = 7);
  void margin(Var& v, const char* what);
  void drop(Var* v);
  void drop(Res* v);
  void drop(Feas* v);
  void drop(Lin* v);
  void residual(const Op& op);
  void feasible(const Op& op);
  void linear(const Op& op);
  void variable(const Op& op);
  void norms(Res& r, const char* what);
  bool ready_var(int i, const Dims& d, Var** out);
};
struct World {
  std::map<int, Dat> data;
  const char* prop = "C19";
};

Dat* Ctx::dat(const Op& op, int* idx) {
  if (w->data.empty()) return nullptr;
  int k = (int)op.get("d") % (int)w->data.size();
  auto it = w->data.begin();
  std::advance(it, k);
  if (idx) *idx = it->first;
  return &it->second;
}
int Ctx::begin(const Op& op) {
  rt::OpFaults f;
  f.alloc_fail_at = op.get("af");
  f.alloc_fail_n = 1 + op.get("afn");
  rt::op_begin(f);
  return 0;
}
void Ctx::outcome(int rc, bool linked, const char* what) {
  bool failed = rt::cur->c.alloc_failed;
  rt::op_end();
  if (rc == X_BAD_ALLOC) {
    if (!failed) violate("failed", "%s threw bad_alloc with memory available", what);
    return;
  }
  if (!linked) {
    probe(rt::P_REJECTED_INPUT);
    if (rc != X_RUNTIME) violate("accepted", "%s without problem data gave %s", what, thrown_names[rc]);
  } else if (rc) {
    violate("failed", "%s threw %s", what, thrown_names[rc]);
  }
}

// ---- operators ------------------------------------------------------------------
void Ctx::apply(const Op& op) {
  static const char* names[8] = {"gemvH", "gemvA", "gemvAT", "gemvG", "gemvGT", "axpyf", "axpyh", "axpyb"};
  Dat* D = dat(op);
  if (!D) return;
  const Problem& p = D->p;
  const int n = p.d.nz, m = p.d.nl, q = p.d.nv;
  int k = (int)(op.get("k") & 7);
  const char* what = names[k];
  const int in[8] = {n, n, q, n, m, 0, 0, 0}, out[8] = {n, q, n, m, n, n, m, q};
  const bool mpc = p.d.kind == MPC;
  int xs = in[k], ys = out[k];
  bool bad = false;
  if (mpc && (op.get("xsz") || op.get("ysz") || op.get("null"))) {  // only MpcData promises to notice
    if (k < 5 && op.get("xsz")) xs = std::max(0, xs + (int)op.get("xsz"));
    ys = std::max(0, ys + (int)op.get("ysz"));
    bad = (k < 5 && xs != in[k]) || ys != out[k] || op.get("null");
  }
  double a = coef(op.get("a")), b = k < 5 ? coef(op.get("b")) : 1;
  CVec *x = nullptr, *y = nullptr;
  int tx = tag(), ty = tag();
  rt::op_begin(rt::OpFaults());
  if (cvec_new(xs, tx, &x) || cvec_new(ys, ty, &y)) violate("failed", "no memory for vectors");
  rt::op_end();
  int nn;
  double* xp = cvec_ptr(x, &nn);
  fill(xp, xs, (uint64_t)op.get("xseed"), op.get("xsc"));
  double* yp = cvec_ptr(y, &nn);
  fill(yp, ys, (uint64_t)op.get("yseed"), op.get("ysc"));
  if (b == 0 && op.get("ynan"))  // y may be uninitialised
    for (int i = 0; i < ys; i++) yp[i] = op.get("ynan") == 1 ? NAN : op.get("ynan") == 2 ? INFINITY : 1e300;
  Vec x0(xp, xp + xs), y0(yp, yp + ys);
  begin(op);
  int rc = cdata_apply(D->c, k, x, a, b, bad && op.get("null") ? nullptr : y, tag());
  outcome(rc, !bad, what);
  xp = cvec_ptr(x, &nn);
  if (nn != xs || !same(x0, xp)) violate("input-modified", "%s changed its argument", what);
  yp = cvec_ptr(y, &nn);
  if (bad && rc == X_RUNTIME) {
    if (nn != ys || !same(y0, yp)) violate("torn-reject", "%s rejected its arguments after writing to y", what);
  } else if (rc == X_NONE) {
    if (nn != ys) violate("operator", "%s resized y from %d to %d", what, ys, nn);
    std::vector<LD> r(ys, 0), s(ys, 0);
    if (b != 0)
      for (int i = 0; i < ys; i++) {
        r[i] = (LD)b * y0[i];
        s[i] = fabsl(r[i]);
      }
    switch (k) {
      case 0: mulv(p.H, n, n, false, x0, &r, &s, a); break;
      case 1: mulv(p.A, q, n, false, x0, &r, &s, a); break;
      case 2: mulv(p.A, q, n, true, x0, &r, &s, a); break;
      case 3: mulv(p.G, m, n, false, x0, &r, &s, a); break;
      case 4: mulv(p.G, m, n, true, x0, &r, &s, a); break;
      default: {
        const Vec& w = k == 5 ? p.f : k == 6 ? p.h : p.b;
        for (int i = 0; i < ys; i++) {
          r[i] += (LD)a * w[i];
          s[i] += fabsl((LD)a * w[i]);
        }
      }
    }
    probe(rt::P_OPERATOR_CHECKED);
    for (int i = 0; i < ys; i++)
      if (!(fabsl((LD)yp[i] - r[i]) <= 8 * EPS * (n + m + q + 8) * s[i] + 1e-290L))
        violate("operator", "%s with a = %g, b = %g: element %d is %.17g, should be %.17Lg", what, a, b, i, yp[i], r[i]);
    rt::R->evals++;
  }
  cvec_delete(x);
  cvec_delete(y);
  if (rt::heap_live(tx, nullptr) || rt::heap_live(ty, nullptr)) violate("leak", "vectors left behind");
  if (op.get("norm") && rc == X_NONE) {
    rt::op_begin(rt::OpFaults());
    double fn = cdata_forcing(D->c, tag());
    rt::op_end();
    LD s = 0;
    for (const Vec* w : {&p.f, &p.h, &p.b})
      for (double t : *w) s += (LD)t * t;
    s = sqrtl(s);
    if (!(fabsl(s - (LD)fn) <= 1e-13L * s + 1e-150L)) violate("operator", "ForcingNorm is %.17g, should be %.17Lg", fn, s);
  }
  ev("%s -> %s", what, thrown_names[rc]);
  rt::state_mix(k * 16 + (op.get("a") > 2 ? 3 : op.get("a")) * 4 + (op.get("b") > 2 ? 3 : op.get("b")) + (bad ? 500 : 0) + rc * 1000);
}

// ---- iterates ------------------------------------------------------------------------
void Ctx::drop(Var* v) {
  if (!v->c) return;
  cvar_delete(v->c);
  if (rt::heap_live(v->tag, nullptr)) violate("leak", "a destroyed variable still holds memory");
  *v = Var();
}
void Ctx::drop(Res* v) {
  if (!v->c) return;
  cres_delete(v->c);
  if (rt::heap_live(v->tag, nullptr)) violate("leak", "a destroyed residual still holds memory");
  *v = Res();
}
void Ctx::drop(Feas* v) {
  if (!v->c) return;
  cfeas_delete(v->c);
  if (rt::heap_live(v->tag, nullptr)) violate("leak", "a destroyed feasibility checker still holds memory");
  *v = Feas();
}
void Ctx::drop(Lin* v) {
  if (!v->c) return;
  clin_delete(v->c);
  if (rt::heap_live(v->tag, nullptr)) violate("leak", "a destroyed linear solver still holds memory");
  *v = Lin();
}
void Ctx::check_var(const char* what, const Point& got, const Point& want, LD, bool, int only) {
  const Vec* a[4] = {&got.z, &got.l, &got.v, &got.y};
  const Vec* b[4] = {&want.z, &want.l, &want.v, &want.y};
  static const char* nm[4] = {"z", "l", "v", "y"};
  for (int k = 0; k < 4; k++) {
    if (!(only >> k & 1)) continue;
    if (a[k]->size() != b[k]->size()) violate("variable", "%s changed the size of %s", what, nm[k]);
    for (size_t i = 0; i < a[k]->size(); i++)
      if (!((*a[k])[i] == (*b[k])[i]) && !((*a[k])[i] != (*a[k])[i] && (*b[k])[i] != (*b[k])[i]))
        violate("variable", "%s: %s(%zu) is %.17g, should be %.17g", what, nm[k], i, (*a[k])[i], (*b[k])[i]);
  }
}
// y must still be b - A z.
void Ctx::margin(Var& v, const char* what) {
  if (v.about < 0 || v.vague) return;
  const Problem& p = w->data[v.about].p;
  Point x = read_var(v.c);
  if (!tame(x)) return;
  const int q = p.d.nv;
  std::vector<LD> y(q), s(q);
  for (int i = 0; i < q; i++) {
    y[i] = p.b[i];
    s[i] = fabsl(y[i]);
  }
  mulv(p.A, q, p.d.nz, false, x.z, &y, &s, -1);
  probe(rt::P_MARGIN_CHECKED);
  for (int i = 0; i < q; i++) {
    LD lim = v.yerr[i] + 8 * EPS * (p.d.nz + 8) * s[i] + 1e-290L;
    if (!(fabsl(y[i] - (LD)x.y[i]) <= lim))
      violate("margin", "after %s: y(%d) is %.17g, b - A z is %.17Lg (allowed error %.3Lg)", what, i, x.y[i], y[i], lim);
  }
}
bool Ctx::ready_var(int i, const Dims& d, Var** out) {
  auto it = vars.find(i);
  if (it == vars.end() || !it->second.c || it->second.vague || !(it->second.d == d)) return false;
  *out = &it->second;
  return true;
}
void Ctx::variable(const Op& op) {
  const std::string& nm = op.name;
  int i = (int)(op.get("i") & 3), j = (int)(op.get("j") & 3);
  int di = -1, rc = 0;
  if (nm == "cvar") {
    Dat* D = dat(op, &di);
    if (!D) return;
    drop(&vars[i]);
    Var v;
    v.tag = tag();
    v.d = D->p.d;
    begin(op);
    rc = cvar_new(v.d.nz, v.d.nl, v.d.nv, v.tag, &v.c);
    outcome(rc, true, "FullVariable construction");
    if (rc) {
      if (rt::heap_live(v.tag, nullptr)) violate("leak", "a failed construction keeps memory");
      return;
    }
    check_var("construction", read_var(v.c), [&] {
      Point z;
      z.resize(v.d);
      return z;
    }(), 0, true, 15);
    if (!op.get("nolink")) {
      cvar_link(v.c, D->c);
      v.data = di;
    }
    vars[i] = v;
    return;
  }
  auto it = vars.find(i);
  if (it == vars.end() || !it->second.c) return;
  Var& v = it->second;
  const bool linked = v.data >= 0;
  auto fresh_err = [&](Var& u) { u.yerr.assign(u.d.nv, 0); };
  if (nm == "vlink") {
    Dat* D = dat(op, &di);
    if (!D || !(D->p.d == v.d)) return;
    cvar_link(v.c, D->c);
    v.data = di;
    return;
  }
  if (nm == "vset") {
    double* p[4];
    int n[4];
    cvar_ptrs(v.c, p, n);
    uint64_t sd = (uint64_t)op.get("seed") * 8;
    for (int k = 0; k < 4; k++)
      if (k < 3 || op.get("raw")) fill(p[k], n[k], sd + k, op.get("sc"));
    v.vague = false;
    v.about = -1;
    if (op.get("pos"))
      for (int k = 0; k < n[2]; k++) p[2][k] = std::fabs(p[2][k]);
    if (op.get("at") && v.data >= 0) special(w->data[v.data].p, op.get("at") % 5, p[0], p[1], p[2]);
    if (op.get("raw")) return;
    Point before = read_var(v.c);
    begin(op);
    rc = cvar_margin(v.c);
    outcome(rc, linked, "InitializeConstraintMargin");
    check_var("InitializeConstraintMargin", read_var(v.c), before, 0, true, 7);
    if (rc == X_NONE) {
      v.about = v.data;
      fresh_err(v);
    }
    margin(v, "InitializeConstraintMargin");
  } else if (nm == "vfill") {
    double a = coef(op.get("a"));
    begin(op);
    rc = cvar_fill(v.c, a);
    outcome(rc, linked, "Fill");
    v.about = -1;
    v.vague = rc != X_NONE;
    if (rc == X_NONE) {
      Point want;
      want.resize(v.d);
      for (Vec* x : {&want.z, &want.l, &want.v}) std::fill(x->begin(), x->end(), a);
      check_var("Fill", read_var(v.c), want, 0, true, 7);
      v.about = v.data;
      fresh_err(v);
      margin(v, "Fill");
    }
  } else if (nm == "vaxpy") {
    Var* u;
    if (i == j || v.vague || !ready_var(j, v.d, &u)) return;
    double a = coef(op.get("a"));
    Point x0 = read_var(v.c), u0 = read_var(u->c);
    if (!tame(x0, 1e40) || !tame(u0, 1e40)) return;
    begin(op);
    rc = cvar_axpy(v.c, a, u->c);
    outcome(rc, linked, "axpy");
    check_var("axpy (its argument)", read_var(u->c), u0, 0, true, 15);
    if (rc) {
      v.vague = true;
      v.about = -1;
      if (rc == X_RUNTIME) v.vague = true;
    } else {
      Point x1 = read_var(v.c);
      const Vec* A[3] = {&x0.z, &x0.l, &x0.v};
      const Vec* U[3] = {&u0.z, &u0.l, &u0.v};
      const Vec* B[3] = {&x1.z, &x1.l, &x1.v};
      for (int k = 0; k < 3; k++)
        for (size_t t = 0; t < A[k]->size(); t++) {
          LD want = (LD)(*A[k])[t] + (LD)a * (*U[k])[t];
          LD s = fabsl((LD)(*A[k])[t]) + fabsl((LD)a * (*U[k])[t]);
          if (!(fabsl((LD)(*B[k])[t] - want) <= 8 * EPS * s + 1e-300L))
            violate("variable", "axpy with a = %g: element %zu of part %d is %.17g, should be %.17Lg", a, t, k, (*B[k])[t], want);
        }
      if (v.about >= 0 && u->about == v.about && v.data == v.about) {
        const Problem& p = w->data[v.about].p;
        const int q = p.d.nv, n = p.d.nz;
        for (int r = 0; r < q; r++) {
          LD s = fabsl((LD)x0.y[r]) + fabsl((LD)a * u0.y[r]) + fabsl((LD)a * p.b[r]);
          for (int c = 0; c < n; c++)
            s += fabsl((LD)p.A[(size_t)c * q + r]) * (fabsl((LD)x0.z[c]) + fabsl((LD)a * u0.z[c]));
          v.yerr[r] += fabsl((LD)a) * u->yerr[r] + 8 * EPS * (n + 8) * s;
        }
        // The argument's own margin is only as exact as its computation.
        for (int r = 0; r < q; r++) {
          LD s = fabsl((LD)p.b[r]);
          LD s2 = s;
          for (int c = 0; c < n; c++) {
            s += fabsl((LD)p.A[(size_t)c * q + r] * x0.z[c]);
            s2 += fabsl((LD)p.A[(size_t)c * q + r] * u0.z[c]);
          }
          v.yerr[r] += 8 * EPS * (n + 8) * (s + fabsl((LD)a) * s2);
        }
        margin(v, "axpy");
      } else {
        v.about = -1;
      }
    }
  } else if (nm == "vcopy") {
    Var* u;
    if (i == j || !ready_var(j, v.d, &u)) return;
    Point u0 = read_var(u->c);
    begin(op);
    rc = cvar_copy(v.c, u->c);
    outcome(rc, true, "Copy");
    if (rc) {
      v.vague = true;
      v.about = -1;
      return;
    }
    check_var("Copy (its argument)", read_var(u->c), u0, 0, true, 15);
    Point got = read_var(v.c);
    if (!got.same_bits(u0)) check_var("Copy", got, u0, 0, true, 15);
    double *pa[4], *pb[4];
    int na[4], nb[4];
    cvar_ptrs(v.c, pa, na);
    cvar_ptrs(u->c, pb, nb);
    for (int k = 0; k < 4; k++)
      if (na[k] && pa[k] == pb[k]) violate("variable", "Copy shares memory with its argument");
    v.vague = false;
    v.about = u->about;
    v.yerr = u->yerr;
    v.data = u->data;
    if (v.data < 0) {  // what a copy of an unlinked variable is linked to is not said
      Dat* D = dat(op, &di);
      if (D && D->p.d == v.d) {
        cvar_link(v.c, D->c);
        v.data = di;
      } else {
        drop(&v);
      }
    }
  } else if (nm == "vproj") {
    if (v.vague) return;
    Point want = read_var(v.c);
    for (double& t : want.v) t = t > 0 ? t : 0;
    begin(op);
    rc = cvar_project(v.c);
    outcome(rc, true, "ProjectDuals");
    if (rc) {
      v.vague = true;
      return;
    }
    check_var("ProjectDuals", read_var(v.c), want, 0, true, 15);
  } else if (nm == "vnorm") {
    if (v.vague) return;
    Point x = read_var(v.c);
    double got = 0;
    begin(op);
    rc = cvar_norm(v.c, &got);
    outcome(rc, true, "Norm");
    check_var("Norm", read_var(v.c), x, 0, true, 15);
    LD want = sqrtl(normld(x.z) * normld(x.z) + normld(x.l) * normld(x.l) + normld(x.v) * normld(x.v));
    if (rc == X_NONE && tame(x) && !(fabsl(want - (LD)got) <= 1e-13L * want + 1e-140L))
      violate("variable", "Norm is %.17g, should be %.17Lg", got, want);
    for (auto& o : vars)
      if (o.second.c && cvar_same_size(v.c, o.second.c) !=
                            (v.d.nz == o.second.d.nz && v.d.nl == o.second.d.nl && v.d.nv == o.second.d.nv))
        violate("variable", "SameSize is wrong");
  } else if (nm == "vdel") {
    drop(&v);
    vars.erase(i);
  }
  ev("%s -> %s", nm.c_str(), thrown_names[rc]);
  rt::state_mix(nm[1] * 7 + nm.size() * 131 + i * 3 + j + rc * 1000);
}

// ---- residuals ------------------------------------------------------------------------
void Ctx::norms(Res& r, const char* what) {
  if (r.vague || !r.cached) return;
  Point x = read_res(r.c);
  if (!tame(x)) return;
  double o[5];
  rt::op_begin(rt::OpFaults());
  int rc = cres_norms(r.c, o);
  rt::op_end();
  if (rc) violate("failed", "norms threw %s", thrown_names[rc]);
  LD z = normld(x.z), l = normld(x.l), v = normld(x.v);
  LD t = sqrtl(z * z + l * l + v * v);
  LD want[5] = {t, 0.5L * t * t, z, l, v};
  static const char* nm[5] = {"Norm", "Merit", "z_norm", "l_norm", "v_norm"};
  for (int k = 0; k < 5; k++)
    if (!(fabsl(want[k] - (LD)o[k]) <= 1e-13L * want[k] + 1e-140L))
      violate("residual-norm", "after %s: %s is %.17g, should be %.17Lg", what, nm[k], o[k], want[k]);
}
void Ctx::residual(const Op& op) {
  const std::string& nm = op.name;
  int i = (int)(op.get("i") & 3), di = -1, rc = 0;
  if (nm == "cres") {
    Dat* D = dat(op, &di);
    if (!D) return;
    drop(&ress[i]);
    Res r;
    r.tag = tag();
    r.d = D->p.d;
    begin(op);
    rc = cres_new(r.d.nz, r.d.nl, r.d.nv, r.tag, &r.c);
    outcome(rc, true, "FullResidual construction");
    if (rc) {
      if (rt::heap_live(r.tag, nullptr)) violate("leak", "a failed construction keeps memory");
      return;
    }
    r.alpha = 0.95;
    if (op.get("al")) {
      r.alpha = op.get("al") / 1000.0;
      cres_alpha(r.c, r.alpha);
    }
    if (!op.get("nolink")) {
      cres_link(r.c, D->c);
      r.data = di;
    }
    r.cached = true;
    ress[i] = r;
    norms(ress[i], "construction");
    return;
  }
  auto it = ress.find(i);
  if (it == ress.end() || !it->second.c) return;
  Res& r = it->second;
  const bool linked = r.data >= 0;
  if (nm == "rlink") {
    Dat* D = dat(op, &di);
    if (!D || !(D->p.d == r.d)) return;
    cres_link(r.c, D->c);
    r.data = di;
    return;
  }
  if (nm == "ralpha") {
    r.alpha = op.get("al") / 1000.0;
    cres_alpha(r.c, r.alpha);
    return;
  }
  if (nm == "rset") {
    double* p[3];
    int n[3];
    cres_ptrs(r.c, p, n);
    for (int k = 0; k < 3; k++) fill(p[k], n[k], (uint64_t)op.get("seed") * 8 + k, op.get("sc"));
    r.vague = false;
    r.cached = false;
    return;
  }
  if (nm == "rfill" || nm == "rneg") {
    Point want = read_res(r.c);
    double a = coef(op.get("a"));
    if (nm == "rneg" && r.vague) return;
    begin(op);
    rc = nm == "rneg" ? cres_negate(r.c) : cres_fill(r.c, a);
    outcome(rc, true, nm == "rneg" ? "Negate" : "Fill");
    if (rc) {
      r.vague = true;
      return;
    }
    for (Vec* x : {&want.z, &want.l, &want.v})
      for (double& t : *x) t = nm == "rneg" ? -t : a;
    check_var(nm == "rneg" ? "Negate" : "Fill", read_res(r.c), want, 0, true, 7);
    if (nm == "rfill") {
      r.vague = false;
      r.cached = true;
    }
    norms(r, nm == "rneg" ? "Negate" : "Fill");
  } else {
    Var *x, *xb = nullptr;
    if (!ready_var((int)(op.get("x") & 3), r.d, &x)) return;
    int kind = nm == "rinner" ? 0 : nm == "rnat" ? 1 : 2;
    if (kind == 0 && !ready_var((int)(op.get("xb") & 3), r.d, &xb)) return;
    double sigma = std::pow(10.0, -(double)op.get("sg") / 4.0);
    Point X = read_var(x->c), B = xb ? read_var(xb->c) : Point();
    if (!tame(X, 1e40) || !tame(B, 1e40)) return;
    static const char* names[3] = {"InnerResidual", "NaturalResidual", "PenalizedNaturalResidual"};
    begin(op);
    rc = kind == 0 ? cres_inner(r.c, x->c, xb->c, sigma) : kind == 1 ? cres_natural(r.c, x->c) : cres_penalized(r.c, x->c);
    outcome(rc, linked, names[kind]);
    check_var("residual evaluation (its argument)", read_var(x->c), X, 0, true, 15);
    if (xb) check_var("residual evaluation (its argument)", read_var(xb->c), B, 0, true, 15);
    if (rc) {
      r.vague = true;
      return;
    }
    r.vague = false;
    r.cached = true;
    const Problem& p = w->data[r.data].p;
    const int n = p.d.nz, m = p.d.nl, q = p.d.nv;
    Point got = read_res(r.c);
    std::vector<LD> z(n), zs(n), l(m), ls(m);
    for (int k = 0; k < n; k++) z[k] = p.f[k], zs[k] = fabsl(z[k]);
    for (int k = 0; k < m; k++) l[k] = p.h[k], ls[k] = fabsl(l[k]);
    mulv(p.H, n, n, false, X.z, &z, &zs, 1);
    mulv(p.G, m, n, true, X.l, &z, &zs, 1);
    mulv(p.A, q, n, true, X.v, &z, &zs, 1);
    mulv(p.G, m, n, false, X.z, &l, &ls, -1);
    if (kind == 0) {
      for (int k = 0; k < n; k++) {
        z[k] += (LD)sigma * ((LD)X.z[k] - B.z[k]);
        zs[k] += sigma * (fabsl((LD)X.z[k]) + fabsl((LD)B.z[k]));
      }
      for (int k = 0; k < m; k++) {
        l[k] += (LD)sigma * ((LD)X.l[k] - B.l[k]);
        ls[k] += sigma * (fabsl((LD)X.l[k]) + fabsl((LD)B.l[k]));
      }
    }
    probe(rt::P_RESIDUAL_CHECKED);
    const LD c = 8 * EPS * (n + m + q + 8);
    for (int k = 0; k < n; k++)
      if (!(fabsl(z[k] - (LD)got.z[k]) <= c * zs[k] + 1e-290L))
        violate("residual", "%s: stationarity row %d is %.17g, should be %.17Lg", names[kind], k, got.z[k], z[k]);
    for (int k = 0; k < m; k++)
      if (!(fabsl(l[k] - (LD)got.l[k]) <= c * ls[k] + 1e-290L))
        violate("residual", "%s: equality row %d is %.17g, should be %.17Lg", names[kind], k, got.l[k], l[k]);
    for (int k = 0; k < q; k++) {
      LD y = X.y[k], v = X.v[k], al = r.alpha, want, lim;
      if (kind == 0) {
        LD a = y + (LD)sigma * (v - (LD)B.v[k]);
        LD da = 8 * EPS * (fabsl(y) + sigma * (fabsl(v) + fabsl((LD)B.v[k])));
        LD ap = std::max(a, (LD)0), vp = std::max(v, (LD)0);
        want = al * (a + v - sqrtl(a * a + v * v)) + (1 - al) * ap * vp;
        lim = 3 * da + 16 * EPS * (fabsl(a) + fabsl(v)) + (1 - al) * (da * vp + 8 * EPS * ap * vp);
      } else {
        LD mn = std::min(y, v);
        if (kind == 1) {
          want = mn;
          lim = 0;
        } else {
          LD pen = (1 - al) * std::max(y, (LD)0) * std::max(v, (LD)0);
          want = al * mn + pen;
          lim = 16 * EPS * (fabsl(mn) + pen);
        }
      }
      if (!(fabsl(want - (LD)got.v[k]) <= lim + 1e-290L))
        violate("residual", "%s: complementarity row %d is %.17g, should be %.17Lg (y %.17Lg, v %.17Lg, alpha %g)", names[kind],
                k, got.v[k], want, y, v, r.alpha);
    }
    norms(r, names[kind]);
    rt::R->evals++;
  }
  ev("%s -> %s", nm.c_str(), thrown_names[rc]);
  rt::state_mix(nm[1] * 7 + nm.size() * 131 + i * 3 + rc * 1000);
}

// ---- feasibility ------------------------------------------------------------------------
void Ctx::feasible(const Op& op) {
  int i = (int)(op.get("i") & 3), di = -1, rc = 0;
  if (op.name == "cfeas") {
    Dat* D = dat(op, &di);
    if (!D) return;
    drop(&feas[i]);
    Feas f;
    f.tag = tag();
    f.d = D->p.d;
    begin(op);
    rc = cfeas_new(f.d.nz, f.d.nl, f.d.nv, f.tag, &f.c);
    outcome(rc, true, "FullFeasibility construction");
    if (rc) {
      if (rt::heap_live(f.tag, nullptr)) violate("leak", "a failed construction keeps memory");
      return;
    }
    if (!op.get("nolink")) {
      cfeas_link(f.c, D->c);
      f.data = di;
    }
    feas[i] = f;
    return;
  }
  auto it = feas.find(i);
  if (it == feas.end() || !it->second.c) return;
  Feas& f = it->second;
  if (op.name == "flink") {
    Dat* D = dat(op, &di);
    if (!D || !(D->p.d == f.d)) return;
    cfeas_link(f.c, D->c);
    f.data = di;
    return;
  }
  Var* x;
  if (!ready_var((int)(op.get("x") & 3), f.d, &x)) return;
  double tol = std::pow(10.0, -(double)op.get("tol") / 2.0);
  Point X = read_var(x->c);
  if (!tame(X, 1e40)) return;
  const Problem& p = w->data[f.data >= 0 ? f.data : w->data.begin()->first].p;
  Cert c;
  if (f.data >= 0) {
    c = certificate(p, X);
    if (op.get("near")) {  // a tolerance right at one of the thresholds
      LD a = 0;
      switch (op.get("near") % 5) {
        case 0: a = c.w > 0 ? c.d1 / c.w : 0; break;
        case 1: a = c.w > 0 ? c.d2 / c.w : 0; break;
        case 2: a = c.w > 0 ? c.d3 / c.w : 0; break;
        case 3: a = c.u > 0 ? c.p1 / c.u : 0; break;
        case 4: a = c.u > 0 ? -c.vmin / c.u : 0; break;
      }
      static const double by[6] = {1.001, 0.999, 1.3, 0.7, 1 + 1e-6, 1 - 1e-6};
      if (a > 1e-12L && a < 1e12L) tol = (double)a * by[op.get("side") % 6];
    } else if (op.get("most")) {  // just enough for everything
      LD a = std::max(c.w > 0 ? std::max(c.d1, std::max(c.d2, c.d3)) / c.w : 0, c.u > 0 ? std::max(c.p1, -c.vmin) / c.u : 0);
      static const double by[4] = {1.001, 0.999, 2, 0.5};
      if (a > 1e-12L && a < 1e12L) tol = (double)a * by[op.get("most") % 4];
    }
  }
  int got = -1;
  begin(op);
  rc = cfeas_check(f.c, x->c, tol, &got);
  outcome(rc, f.data >= 0, "CheckFeasibility");
  check_var("CheckFeasibility (its argument)", read_var(x->c), X, 0, true, 15);
  if (rc == X_NONE) {
    const int n = p.d.nz, m = p.d.nl, q = p.d.nv;
    // 1 holds, -1 fails, 0 too close to tell
    auto le = [](LD a, LD b, LD r) { return a <= b - r ? 1 : a > b + r ? -1 : 0; };
    auto neg = [&](LD v, LD scale) {
      if (scale == 0) return -1;
      LD r = 8 * EPS * (n + m + q + 8) * scale + 1e-280L;
      return v < -r ? 1 : v > r ? -1 : 0;
    };
    auto all = [](std::initializer_list<int> l) {
      int v = 1;
      for (int k : l) v = std::min(v, k);
      return v;
    };
    LD tu = (LD)tol * c.u, tw = (LD)tol * c.w, ru = 1e-14L * tu + 2 * c.p1round + 1e-290L, rw = 1e-14L * tw + 2 * c.dround + 1e-290L;
    int pinf = all({le(c.p1, tu, ru), neg(c.p2, c.p2scale), le(-c.vmin, tu, 1e-14L * tu + 1e-290L)});
    int dinf = all({le(c.d1, tw, rw), le(c.d2, tw, rw), le(c.d3, tw, rw), neg(c.d4, c.d4scale), c.w > 1.01e-14L ? 1 : c.w < 0.99e-14L ? -1 : 0});
    static const char* vn[4] = {"feasible", "primal infeasible", "dual infeasible", "both"};
    probe(rt::P_CERTIFICATE_CHECKED);
    if (got < 0 || got > 3) violate("certificate", "CheckFeasibility gave an unknown verdict");
    bool gp = got & 1, gd = got & 2;
    if ((pinf > 0 && !gp) || (pinf < 0 && gp))
      violate("certificate", "CheckFeasibility says %s; as a certificate of primal infeasibility for tolerance %.9g the point %s (|A'v+G'l| %.9Lg, |(v,l)| %.9Lg, b'v+h'l %.9Lg, min v %.9Lg)",
              vn[got], tol, pinf > 0 ? "qualifies" : "does not qualify", c.p1, c.u, c.p2, c.vmin);
    if ((dinf > 0 && !gd) || (dinf < 0 && gd))
      violate("certificate", "CheckFeasibility says %s; as a certificate of unboundedness for tolerance %.9g the point %s (max Az %.9Lg, |Gz| %.9Lg, |Hz| %.9Lg, |z| %.9Lg, f'z %.9Lg)",
              vn[got], tol, dinf > 0 ? "qualifies" : "does not qualify", c.d1, c.d2, c.d3, c.w, c.d4);
    if (pinf > 0) probe(rt::P_PRIMAL_INFEASIBLE);
    if (dinf > 0) probe(rt::P_DUAL_INFEASIBLE);
    rt::R->evals++;
  }
  ev("%s -> %s %d", op.name.c_str(), thrown_names[rc], got);
  rt::state_mix(977 + got * 5 + rc * 1000);
}

// ---- linear solvers ------------------------------------------------------------------------
void Ctx::linear(const Op& op) {
  int i = (int)(op.get("i") & 1), di = -1, rc = 0;
  const std::string& nm = op.name;
  if (nm == "clin") {
    Dat* D = dat(op, &di);
    if (!D) return;
    drop(&lins[i]);
    Lin s;
    s.tag = tag();
    s.d = D->p.d;
    begin(op);
    rc = clin_new(s.d, s.tag, &s.c);
    outcome(rc, true, "linear solver construction");
    if (rc) {
      if (rt::heap_live(s.tag, nullptr)) violate("leak", "a failed construction keeps memory");
      return;
    }
    s.alpha = op.get("al") ? op.get("al") / 1000.0 : 0.95;
    if (op.get("al")) clin_alpha(s.c, s.alpha);
    clin_link(s.c, D->c);
    s.data = di;
    lins[i] = s;
    return;
  }
  auto it = lins.find(i);
  if (it == lins.end() || !it->second.c) return;
  Lin& s = it->second;
  if (nm == "llink") {
    Dat* D = dat(op, &di);
    if (!D || !(D->p.d == s.d)) return;
    clin_link(s.c, D->c);
    s.data = di;
    s.ready = false;
    return;
  }
  if (nm == "lalpha") {
    s.alpha = op.get("al") / 1000.0;
    clin_alpha(s.c, s.alpha);
    s.ready = false;
    return;
  }
  bool ok = false;
  if (nm == "lfactor") {
    Var *x, *xb;
    if (!ready_var((int)(op.get("x") & 3), s.d, &x) || !ready_var((int)(op.get("xb") & 3), s.d, &xb)) return;
    s.x = read_var(x->c);
    s.xbar = read_var(xb->c);
    s.sigma = std::pow(10.0, -(double)op.get("sg") / 4.0);
    begin(op);
    rc = clin_factor(s.c, x->c, xb->c, s.sigma, &ok);
    outcome(rc, true, "factorisation");
    check_var("factorisation (its argument)", read_var(x->c), s.x, 0, true, 15);
    check_var("factorisation (its argument)", read_var(xb->c), s.xbar, 0, true, 15);
    s.ready = rc == X_NONE && ok;
    if (rc == X_NONE && !ok && w->data[s.data].p.truth == T_WELLPOSED && tame(s.x, 1e6) && tame(s.xbar, 1e6))
      violate("newton-factor", "factorisation of a strictly convex problem failed (sigma %g)", s.sigma);
  } else if (nm == "lsolve") {
    auto rit = ress.find((int)(op.get("r") & 3));
    Var* dx;
    if (!s.ready || rit == ress.end() || !rit->second.c || rit->second.vague || !(rit->second.d == s.d)) return;
    auto vit = vars.find((int)(op.get("x") & 3));
    if (vit == vars.end() || !vit->second.c || !(vit->second.d == s.d)) return;
    dx = &vit->second;
    Point R = read_res(rit->second.c);
    if (!tame(R, 1e40)) return;
    begin(op);
    rc = clin_solve(s.c, rit->second.c, dx->c, &ok);
    outcome(rc, true, "solve");
    check_var("solve (its right hand side)", read_res(rit->second.c), R, 0, true, 7);
    dx->about = -1;
    dx->vague = rc != X_NONE || !ok;
    if (rc == X_NONE && !ok && w->data[s.data].p.truth == T_WELLPOSED)
      violate("newton-factor", "solve with a good factorisation reported failure");
    if (!dx->vague) {
      Point dX = read_var(dx->c);
      NewtonStep t;
      t.p = &w->data[s.data].p;
      t.sigma = s.sigma;
      t.xz = s.x.z.data();
      t.xl = s.x.l.data();
      t.xv = s.x.v.data();
      t.xy = s.x.y.data();
      t.bz = s.xbar.z.data();
      t.bl = s.xbar.l.data();
      t.bv = s.xbar.v.data();
      t.by = s.xbar.y.data();
      t.rz = R.z.data();
      t.rl = R.l.data();
      t.rv = R.v.data();
      t.dz = dX.z.data();
      t.dl = dX.l.data();
      t.dv = dX.v.data();
      t.dy = dX.y.data();
      check_newton(t, s.alpha, (int)rt::R->evals + 1);
      rt::R->evals++;
    }
  }
  ev("%s -> %s %d", nm.c_str(), thrown_names[rc], ok);
  rt::state_mix(nm[1] * 7 + nm.size() * 131 + i * 3 + rc * 1000 + ok);
}

void Ctx::run_op(const Op& op) {
  rt::R->ops++;
  rt::R->solves++;
  char c = op.name[0];
  bool ctor = c == 'c';
  if (op.name == "apply") apply(op);
  else if (op.name == "cvar" || (!ctor && c == 'v')) variable(op);
  else if (op.name == "cres" || (!ctor && c == 'r')) residual(op);
  else if (op.name == "cfeas" || (!ctor && c == 'f')) feasible(op);
  else if (op.name == "clin" || (!ctor && c == 'l')) linear(op);
}
void Ctx::finish() {
  rt::op_begin(rt::OpFaults());
  for (auto& v : vars) drop(&v.second);
  for (auto& v : ress) drop(&v.second);
  for (auto& v : feas) drop(&v.second);
  for (auto& v : lins) drop(&v.second);
  rt::op_end();
}
}  // namespace

void run_comp_world(const Plan& p) {
  World w;
  w.prop = p.prop.c_str();
  int T = 0, k = 0;
  std::vector<std::vector<Op>> ops(8);
  auto check_data = [&] {
    for (auto& d : w.data) {
      Vec b;
      sut_data_bits(d.second.raw, &b);
      if (b.size() != d.second.bits.size() || (b.size() && memcmp(b.data(), d.second.bits.data(), b.size() * 8)))
        violate("data-modified", "problem data changed");
    }
  };
  for (const Op& op : p.ops) {
    if (op.name == "env") {
      Actor a;
      a.run_op(op);
    } else if (op.name == "cdata") {
      Dat d;
      d.p = make_problem(dims_of(op), (int)op.get("fam"), (uint64_t)op.get("pseed"));
      static const int stores[4] = {OWNED, MAPPED, MAPPED_GUARD, MAPPED_SEQ};
      int sd = stores[op.get("sd") & 3];
      if (sd == MAPPED_SEQ && d.p.d.kind == DENSE) sd = MAPPED;
      std::string what;
      rt::op_begin(rt::OpFaults());
      if (sut_make_data(d.p, sd, 800, {}, &d.raw, &what)) violate("failed", "problem data: %s", what.c_str());
      int rc = cdata_new(d.raw, 801 + k, &d.c);
      if (rc) violate("failed", "problem data: construction threw %s", thrown_names[rc]);
      rt::op_end();
      sut_data_bits(d.raw, &d.bits);
      w.data[k++] = d;
    } else {
      int t = (int)(op.get("t") & 7);
      T = std::max(T, t + 1);
      ops[t].push_back(op);
    }
  }
  if (T == 0 || w.data.empty()) return;
  std::vector<Ctx> ctx(T);
  for (int t = 0; t < T; t++) {
    ctx[t].w = &w;
    ctx[t].tag_base = 1000 + 100000 * t;
  }
  if (T == 1) {
    for (const Op& op : ops[0]) {
      ctx[0].run_op(op);
      check_data();
      rt::heap_check("after an operation");
    }
    ctx[0].finish();
  } else {
    std::vector<std::function<void()>> bodies;
    std::vector<int> ended(T, 0);
    for (int t = 0; t < T; t++)
      bodies.push_back([&, t] {
        for (const Op& op : ops[t]) {
          ctx[t].run_op(op);
          rt::yield_point();
        }
        ctx[t].finish();
        ended[t] = 1;
      });
    rt::hang_cls = "hang";
    rt::run_threads(bodies, p.sched);
    for (int t = 0; t < T; t++)
      if (!ended[t]) violate("starved", "thread %d never finished", t);
    check_data();
  }
  rt::heap_check("at the end");
  rt::op_begin(rt::OpFaults());
  for (auto& d : w.data) {
    cdata_delete(d.second.c);
    sut_delete_data(d.second.raw);
  }
  rt::op_end();
}
