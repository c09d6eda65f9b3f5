#include <cmath>
#include <limits>

#include "core.h"
#include "rng.h"

const char* const seq_names[NSEQ] = {"Q", "R", "S", "q", "r", "A", "B", "c", "E", "L", "d"};
const char* const opt_d_names[N_OPT_D] = {
    "sigma0", "sigma_max", "sigma_min", "alpha", "beta", "eta", "delta", "gamma",
    "abs_tol", "rel_tol", "stall_tol", "infeas_tol", "inner_tol_max", "inner_tol_min"};
const char* const opt_i_names[N_OPT_I] = {"max_newton_iters", "max_prox_iters",
                                          "max_inner_iters", "max_linesearch_iters"};
const char* const flag_names[6] = {"Success", "Divergence", "MaxIterations",
                                   "PrimalInfeasible", "DualInfeasible",
                                   "PrimalDualInfeasible"};
const char* const thrown_names[7] = {"none", "bad_alloc", "runtime_error",
                                     "stream exception", "stream int",
                                     "std::exception", "unknown exception"};
const char* const fam_names[FAM_COUNT] = {"well-posed", "semidefinite", "linear",
                                          "primal-infeasible", "unbounded", "degenerate",
                                          "doubly-infeasible", "ill-scaled",
                                          "equality-infeasible", "tight"};

SeqShape seq_shape(const Dims& d, int s) {
  switch (s) {
    case SQ: return {d.N + 1, d.nx, d.nx};
    case SR: return {d.N + 1, d.nu, d.nu};
    case SS: return {d.N + 1, d.nu, d.nx};
    case Sq: return {d.N + 1, d.nx, 1};
    case Sr: return {d.N + 1, d.nu, 1};
    case SA: return {d.N, d.nx, d.nx};
    case SB: return {d.N, d.nx, d.nu};
    case Sc: return {d.N, d.nx, 1};
    case SE: return {d.N + 1, d.nc, d.nx};
    case SL: return {d.N + 1, d.nc, d.nu};
    default: return {d.N + 1, d.nc, 1};
  }
}

bool finite_all(const Vec& v) {
  for (double x : v)
    if (!std::isfinite(x)) return false;
  return true;
}
double norm2(const Vec& v) {
  long double s = 0;
  for (double x : v) s += (long double)x * x;
  return (double)sqrtl(s);
}
bool Point::same_bits(const Point& o) const {
  auto eq = [](const Vec& a, const Vec& b) {
    return a.size() == b.size() &&
           (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double)));
  };
  return eq(z, o.z) && eq(l, o.l) && eq(v, o.v) && eq(y, o.y);
}
bool Point::finite() const {
  return finite_all(z) && finite_all(l) && finite_all(v) && finite_all(y);
}
double Point::maxabs() const {
  double m = 0;
  for (const Vec* w : {&z, &l, &v})
    for (double x : *w)
      if (!(std::fabs(x) <= m)) m = std::fabs(x);
  return m;
}
double Problem::forcing_norm() const {
  long double s = 0;
  for (const Vec* w : {&f, &h, &b})
    for (double x : *w) s += (long double)x * x;
  return (double)sqrtl(s);
}
bool Problem::finite() const {
  for (const Vec* w : {&H, &G, &A, &f, &h, &b})
    if (!finite_all(*w)) return false;
  return true;
}

bool Problem::sane() const {
  for (const Vec* w : {&H, &G, &A, &f, &h, &b})
    for (double t : *w)
      if (!(std::fabs(t) <= 1e100)) return false;
  return true;
}

// The dense form of an optimal control problem, from the documented statement:
// z = (x0,u0,...,xN,uN); h - G z = 0 collects x0 - x(0) = 0 and
// x(i+1) = A x + B u + c;  the sign convention of G and h is the library's.
void Problem::densify() {
  const int nx = d.nx, nu = d.nu, nc = d.nc, N = d.N, ns = nx + nu;
  H.assign((size_t)d.nz * d.nz, 0);
  G.assign((size_t)d.nl * d.nz, 0);
  A.assign((size_t)d.nv * d.nz, 0);
  f.assign(d.nz, 0);
  h.assign(d.nl, 0);
  b.assign(d.nv, 0);
  auto el = [&](int s, int i, int r, int c) {
    SeqShape sh = seq_shape(d, s);
    return seq[s][(size_t)i * sh.rows * sh.cols + (size_t)c * sh.rows + r];
  };
  for (int i = 0; i <= N; i++) {
    int o = i * ns;
    for (int r = 0; r < nx; r++)
      for (int c = 0; c < nx; c++) H[(size_t)(o + c) * d.nz + o + r] = el(SQ, i, r, c);
    for (int r = 0; r < nu; r++)
      for (int c = 0; c < nu; c++)
        H[(size_t)(o + nx + c) * d.nz + o + nx + r] = el(SR, i, r, c);
    for (int r = 0; r < nu; r++)
      for (int c = 0; c < nx; c++) {
        H[(size_t)(o + c) * d.nz + o + nx + r] = el(SS, i, r, c);
        H[(size_t)(o + nx + r) * d.nz + o + c] = el(SS, i, r, c);
      }
    for (int r = 0; r < nx; r++) f[o + r] = el(Sq, i, r, 0);
    for (int r = 0; r < nu; r++) f[o + nx + r] = el(Sr, i, r, 0);
    for (int r = 0; r < nc; r++) {
      for (int c = 0; c < nx; c++) A[(size_t)(o + c) * d.nv + i * nc + r] = el(SE, i, r, c);
      for (int c = 0; c < nu; c++)
        A[(size_t)(o + nx + c) * d.nv + i * nc + r] = el(SL, i, r, c);
      b[i * nc + r] = -el(Sd, i, r, 0);
    }
    // G row block i: A x(i-1) + B u(i-1) - x(i) = -c(i-1);  -x(0) = -x0.
    for (int r = 0; r < nx; r++) {
      int row = i * nx + r;
      G[(size_t)(o + r) * d.nl + row] = -1;
      if (i == 0) {
        h[row] = -x0[r];
      } else {
        for (int c = 0; c < nx; c++)
          G[(size_t)(o - ns + c) * d.nl + row] = el(SA, i - 1, r, c);
        for (int c = 0; c < nu; c++)
          G[(size_t)(o - ns + nx + c) * d.nl + row] = el(SB, i - 1, r, c);
        h[row] = -el(Sc, i - 1, r, 0);
      }
    }
  }
}

namespace {
typedef std::vector<Vec> Rows;  // small row-major helper

// n x n symmetric positive (semi)definite, column major (symmetric anyway).
Vec spd(Rng& g, int n, int rank, double lo, double hi, double shift) {
  Vec H((size_t)n * n, 0);
  for (int k = 0; k < rank; k++) {
    Vec u(n);
    double s = 0;
    for (double& x : u) {
      x = g.gauss();
      s += x * x;
    }
    double lam = g.logu(lo, hi) / (s > 0 ? s : 1);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) H[(size_t)j * n + i] += lam * (u[i] * u[j]);
  }
  for (int i = 0; i < n; i++) H[(size_t)i * n + i] += shift;
  return H;
}

Vec unit(Rng& g, int n) {
  Vec u(n);
  double s = 0;
  do {
    s = 0;
    for (double& x : u) {
      x = g.gauss();
      s += x * x;
    }
  } while (s < 1e-6);
  s = std::sqrt(s);
  for (double& x : u) x /= s;
  return u;
}
double dot(const Vec& a, const Vec& b) {
  double s = 0;
  for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i];
  return s;
}

// Rows with mutual angles bounded away from zero (Gram-Schmidt blended).
Rows indep_rows(Rng& g, int m, int n) {
  Rows Q, R;
  for (int i = 0; i < m; i++) {
    Vec u = unit(g, n);
    Vec o = u;
    for (const Vec& q : Q) {
      double c = dot(o, q);
      for (int j = 0; j < n; j++) o[j] -= c * q[j];
    }
    double s = std::sqrt(dot(o, o));
    if (s < 1e-3 && i < n) {
      i--;
      continue;
    }
    if (s >= 1e-3) {
      for (double& x : o) x /= s;
      Q.push_back(o);
    }
    for (int j = 0; j < n; j++) u[j] = 0.6 * u[j] + (s >= 1e-3 ? o[j] : 0);
    R.push_back(u);
  }
  return R;
}

void put_rows(Vec* M, int rows, int cols, const Rows& R) {
  M->assign((size_t)rows * cols, 0);
  for (int i = 0; i < rows; i++)
    for (int j = 0; j < cols; j++) (*M)[(size_t)j * rows + i] = R[i][j];
}

Problem dense_problem(const Dims& d, int fam, uint64_t seed) {
  Problem p;
  p.d = d;
  p.fam = fam;
  p.seed = seed;
  Rng g(seed, 17 + fam);
  int n = d.nz, m = d.nl, q = d.nv;
  Vec z0(n);
  for (double& x : z0) x = g.uni(-2, 2);
  p.f.resize(n);
  for (double& x : p.f) x = g.uni(-3, 3);
  Rows G = indep_rows(g, m, n), A(q);
  for (Vec& a : A) {
    a = unit(g, n);
    double s = g.uni(0.5, 2);
    for (double& x : a) x *= s;
    if (g.chance(0.25)) {  // sparse row, bound-like
      int k = (int)g.in(0, n - 1);
      double sg = g.chance(0.5) ? 1 : -1;
      a.assign(n, 0);
      a[k] = sg;
    }
  }
  Vec slack(q);
  for (double& s : slack) s = g.uni(0.1, 2);
  p.H = spd(g, n, n, 0.3, 5, 0.3);
  p.truth = T_WELLPOSED;
  auto box = [&]() {  // make the first 2n inequality rows a box when they fit
    int k = 0;
    for (int i = 0; i < n && k + 1 < q; i++) {
      A[k].assign(n, 0);
      A[k++][i] = 1;
      A[k].assign(n, 0);
      A[k++][i] = -1;
    }
    return k >= 2 * n;
  };
  bool custom_b = false;
  Vec bb(q), hh(m);
  switch (fam) {
    case FAM_PSD: {
      bool boxed = box();
      p.H = spd(g, n, (int)g.in(0, n - 1), 0.3, 5, 0.0);
      if (!boxed) {  // keep it bounded below: H sees every direction f uses
        Vec w(n);
        for (double& x : w) x = g.uni(-1, 1);
        p.f.assign(n, 0);
        for (int i = 0; i < n; i++)
          for (int j = 0; j < n; j++) p.f[i] += p.H[(size_t)j * n + i] * w[j];
      }
      p.truth = T_SOLVABLE;
      break;
    }
    case FAM_LP: {
      bool boxed = box();
      p.H.assign((size_t)n * n, 0);
      if (!boxed) {  // f = -A'v - G'l with v > 0: dual feasible
        p.f.assign(n, 0);
        for (int i = 0; i < q; i++) {
          double v = g.uni(0.1, 1);
          for (int j = 0; j < n; j++) p.f[j] -= v * A[i][j];
        }
        for (int i = 0; i < m; i++) {
          double l = g.uni(-1, 1);
          for (int j = 0; j < n; j++) p.f[j] -= l * G[i][j];
        }
      }
      p.truth = T_SOLVABLE;
      break;
    }
    case FAM_PINF:
    case FAM_BOTH: {
      // planted Farkas certificate over a few rows
      if (fam == FAM_BOTH && n >= 2 && q >= 2 && m == 0) {
        // coordinates 0: infeasible; coordinate 1: unbounded
        p.H.assign((size_t)n * n, 0);
        for (int i = 0; i < n; i++)
          if (i != 1) p.H[(size_t)i * n + i] = g.uni(0.5, 2);
        for (Vec& a : A) a[1] = 0;
        A[0].assign(n, 0);
        A[1].assign(n, 0);
        A[0][0] = 1;
        A[1][0] = -1;
        for (int i = 0; i < q; i++) bb[i] = dot(A[i], z0) + slack[i];
        bb[0] = g.uni(-3, 0);
        bb[1] = -bb[0] - g.uni(0.5, 4);
        p.f[1] = -g.uni(0.5, 2);
        custom_b = true;
        p.truth = T_BOTH_INF;
        break;
      }
      int last = q - 1;
      int use = (int)g.in(1, q > 4 ? 4 : q);
      Vec v(q, 0), l(m, 0);
      for (int k = 0; k < use - 1; k++) v[g.in(0, q - 1)] = g.uni(0.3, 1.5);
      for (double& x : l) x = g.chance(0.5) ? g.uni(-1, 1) : 0;
      bool any = false;
      for (int i = 0; i < last; i++) any = any || v[i] > 0;
      for (double x : l) any = any || std::fabs(x) > 0.2;
      if (!any) {
        if (q > 1) {
          v[0] = 1;
        } else if (m > 0) {
          l[0] = 1;
        }
      }
      v[last] = g.uni(0.5, 1.5);
      Vec a(n, 0);
      for (int i = 0; i < last; i++)
        for (int j = 0; j < n; j++) a[j] -= v[i] * A[i][j];
      for (int i = 0; i < m; i++)
        for (int j = 0; j < n; j++) a[j] -= l[i] * G[i][j];
      for (int j = 0; j < n; j++) a[j] /= v[last];
      A[last] = a;  // may be the zero row when q == 1 and m == 0
      double acc = 0;
      for (int i = 0; i < m; i++) {
        hh[i] = dot(G[i], z0);
        acc += l[i] * hh[i];
      }
      for (int i = 0; i < last; i++) {
        bb[i] = dot(A[i], z0) + slack[i];
        acc += v[i] * bb[i];
      }
      bb[last] = (-g.uni(0.5, 3) - acc) / v[last];
      custom_b = true;
      p.truth = T_PRIMAL_INF;
      break;
    }
    case FAM_DINF: {
      Vec dir = unit(g, n);
      // H d = 0: project the factors
      p.H.assign((size_t)n * n, 0);
      for (int k = 0; k < n - 1; k++) {
        Vec u = unit(g, n);
        double c = dot(u, dir);
        for (int j = 0; j < n; j++) u[j] -= c * dir[j];
        double lam = g.uni(0.3, 3);
        for (int i = 0; i < n; i++)
          for (int j = 0; j < n; j++) p.H[(size_t)j * n + i] += lam * (u[i] * u[j]);
      }
      if (m > n - 1) {
        p.truth = T_UNKNOWN;
      } else {
        for (Vec& r : G) {
          double c = dot(r, dir);
          for (int j = 0; j < n; j++) r[j] -= c * dir[j];
        }
        p.truth = T_DUAL_INF;
      }
      for (Vec& a : A) {  // A d <= 0
        double c = dot(a, dir), t = g.chance(0.5) ? 0 : g.uni(0.1, 1);
        for (int j = 0; j < n; j++) a[j] -= (c + t) * dir[j];
      }
      double c = dot(p.f, dir), t = g.uni(0.5, 2);
      for (int j = 0; j < n; j++) p.f[j] -= (c + t) * dir[j];
      break;
    }
    case FAM_DEGEN: {
      // duplicated rows, weakly active constraints, redundant equalities
      for (int i = 1; i < q; i++)
        if (g.chance(0.4)) A[i] = A[g.in(0, i - 1)];
      for (int i = 0; i < q; i++)
        if (g.chance(0.4)) slack[i] = 0;
      for (int i = 1; i < m; i++)
        if (g.chance(0.5)) G[i] = G[g.in(0, i - 1)];
      // optimum exactly at z0: f = -H z0 - A'v(active) - G'l
      if (g.chance(0.7)) {
        for (int i = 0; i < n; i++) {
          p.f[i] = 0;
          for (int j = 0; j < n; j++) p.f[i] -= p.H[(size_t)j * n + i] * z0[j];
        }
        for (int i = 0; i < q; i++)
          if (slack[i] == 0 && g.chance(0.5)) {
            double v = g.uni(0, 2);
            for (int j = 0; j < n; j++) p.f[j] -= v * A[i][j];
          }
      }
      p.truth = T_UNKNOWN;
      break;
    }
    case FAM_ILL: {
      p.H = spd(g, n, n, 1e-6, 1e3, 1e-7);
      for (Vec& a : A) {
        double s = g.logu(1e-3, 1e3);
        for (double& x : a) x *= s;
      }
      for (double& x : p.f) x *= g.logu(1e-3, 1e3);
      p.truth = T_UNKNOWN;
      break;
    }
    case FAM_EQINF: {
      p.truth = T_UNKNOWN;
      if (m >= 2) {
        G[1] = G[0];
        p.truth = T_PRIMAL_INF;
      }
      break;
    }
    case FAM_TIGHT: {
      // strictly feasible but by little, many constraints active at optimum
      for (double& s : slack) s = g.uni(0.02, 0.1);
      p.truth = T_WELLPOSED;
      break;
    }
    default: break;
  }
  if (!custom_b) {
    for (int i = 0; i < q; i++) bb[i] = dot(A[i], z0) + slack[i];
    for (int i = 0; i < m; i++) hh[i] = dot(G[i], z0);
    if (fam == FAM_EQINF && m >= 2) hh[1] = hh[0] + (g.chance(0.5) ? 1 : -1) * g.uni(0.5, 3);
  }
  put_rows(&p.G, m, n, G);
  put_rows(&p.A, q, n, A);
  p.h = hh;
  p.b = bb;
  return p;
}

Problem mpc_problem(const Dims& d, int fam, uint64_t seed) {
  Problem p;
  p.d = d;
  p.fam = fam;
  p.seed = seed;
  Rng g(seed, 91 + fam);
  const int nx = d.nx, nu = d.nu, nc = d.nc, N = d.N;
  for (int s = 0; s < NSEQ; s++) {
    SeqShape sh = seq_shape(d, s);
    p.seq[s].assign((size_t)sh.len * sh.rows * sh.cols, 0);
  }
  auto el = [&](int s, int i, int r, int c) -> double& {
    SeqShape sh = seq_shape(d, s);
    return p.seq[s][(size_t)i * sh.rows * sh.cols + (size_t)c * sh.rows + r];
  };
  bool tv = g.chance(0.6);  // time varying
  p.truth = T_WELLPOSED;
  double qlo = 0.3, qhi = 3, sh0 = 0.2;
  int rank = nx + nu;
  if (fam == FAM_PSD) {
    rank = (int)g.in(0, nx + nu - 1);
    sh0 = 0;
    p.truth = T_SOLVABLE;
  }
  if (fam == FAM_LP) {
    rank = 0;
    sh0 = 0;
    p.truth = T_SOLVABLE;
  }
  if (fam == FAM_ILL) {
    qlo = 1e-5;
    qhi = 1e3;
    sh0 = 1e-6;
    p.truth = T_UNKNOWN;
  }
  for (int i = 0; i <= N; i++) {
    if (i == 0 || tv) {
      Vec W = spd(g, nx + nu, rank, qlo, qhi, sh0);
      int n = nx + nu;
      for (int r = 0; r < nx; r++)
        for (int c = 0; c < nx; c++) el(SQ, i, r, c) = W[(size_t)c * n + r];
      for (int r = 0; r < nu; r++)
        for (int c = 0; c < nu; c++) el(SR, i, r, c) = W[(size_t)(nx + c) * n + nx + r];
      for (int r = 0; r < nu; r++)
        for (int c = 0; c < nx; c++) el(SS, i, r, c) = W[(size_t)c * n + nx + r];
    } else {
      for (int s : {SQ, SR, SS}) {
        SeqShape sh = seq_shape(d, s);
        size_t k = (size_t)sh.rows * sh.cols;
        for (size_t j = 0; j < k; j++) p.seq[s][i * k + j] = p.seq[s][j];
      }
    }
    for (int r = 0; r < nx; r++) el(Sq, i, r, 0) = g.uni(-1, 1);
    for (int r = 0; r < nu; r++) el(Sr, i, r, 0) = g.uni(-1, 1);
  }
  for (int i = 0; i < N; i++) {
    double sA = 0.9 / std::sqrt((double)nx);
    for (int r = 0; r < nx; r++) {
      for (int c = 0; c < nx; c++) el(SA, i, r, c) = (r == c ? 0.5 : 0) + sA * g.uni(-0.8, 0.8);
      for (int c = 0; c < nu; c++) el(SB, i, r, c) = g.uni(-1, 1);
      el(Sc, i, r, 0) = g.uni(-0.3, 0.3);
    }
  }
  p.x0.resize(nx);
  for (double& x : p.x0) x = g.uni(-2, 2);
  bool box_u = fam == FAM_PSD || fam == FAM_LP || g.chance(0.5);
  for (int i = 0; i <= N; i++)
    for (int r = 0; r < nc; r++) {
      if (box_u && r < 2 * nu) {
        el(SL, i, r, r / 2) = (r & 1) ? -1 : 1;
      } else {
        for (int c = 0; c < nx; c++) el(SE, i, r, c) = g.uni(-1, 1);
        for (int c = 0; c < nu; c++) el(SL, i, r, c) = g.uni(-1, 1);
        double s = 0;
        for (int c = 0; c < nx; c++) s += el(SE, i, r, c) * el(SE, i, r, c);
        for (int c = 0; c < nu; c++) s += el(SL, i, r, c) * el(SL, i, r, c);
        if (s < 0.01) el(SL, i, r, 0) = 1;
      }
    }
  // a strictly feasible nominal trajectory
  Vec x = p.x0;
  double lo = fam == FAM_TIGHT ? 0.02 : 0.1, hi = fam == FAM_TIGHT ? 0.1 : 2.0;
  for (int i = 0; i <= N; i++) {
    Vec u(nu);
    for (double& t : u) t = g.uni(-1, 1);
    for (int r = 0; r < nc; r++) {
      double s = 0;
      for (int c = 0; c < nx; c++) s += el(SE, i, r, c) * x[c];
      for (int c = 0; c < nu; c++) s += el(SL, i, r, c) * u[c];
      double sl = g.uni(lo, hi);
      if (fam == FAM_DEGEN && g.chance(0.4)) sl = 0;
      el(Sd, i, r, 0) = -s - sl;
    }
    if (i < N) {
      Vec xn(nx);
      for (int r = 0; r < nx; r++) {
        xn[r] = el(Sc, i, r, 0);
        for (int c = 0; c < nx; c++) xn[r] += el(SA, i, r, c) * x[c];
        for (int c = 0; c < nu; c++) xn[r] += el(SB, i, r, c) * u[c];
      }
      x = xn;
    }
  }
  if (fam == FAM_DEGEN) p.truth = T_UNKNOWN;
  if ((fam == FAM_PSD || fam == FAM_LP) && (nc < 2 * nu)) {
    // inputs not boxed: make the cost see everything
    for (int i = 0; i <= N; i++) {
      for (int r = 0; r < nu; r++) el(SR, i, r, r) += 0.5;
    }
    // x is determined by u, so this is strictly convex on the dynamics
  }
  if (fam == FAM_PINF || fam == FAM_BOTH || fam == FAM_EQINF) {
    // contradictory bounds on an input (or on x0 when there is one row)
    int i = (int)g.in(0, N);
    if (nc >= 2) {
      int k = (int)g.in(0, nu - 1);
      for (int r = 0; r < 2; r++) {
        for (int c = 0; c < nx; c++) el(SE, i, r, c) = 0;
        for (int c = 0; c < nu; c++) el(SL, i, r, c) = 0;
      }
      el(SL, i, 0, k) = 1;
      el(SL, i, 1, k) = -1;
      double m = g.uni(0.5, 2), c0 = g.uni(-1, 1);
      el(Sd, i, 0, 0) = -c0 + m;  // u <= c0 - m
      el(Sd, i, 1, 0) = c0 + m;   // u >= c0 + m
    } else {
      for (int c = 0; c < nx; c++) el(SE, 0, 0, c) = 0;
      for (int c = 0; c < nu; c++) el(SL, 0, 0, c) = 0;
      el(SE, 0, 0, 0) = 1;
      el(Sd, 0, 0, 0) = -p.x0[0] + g.uni(0.5, 2);
    }
    p.truth = T_PRIMAL_INF;
  }
  if (fam == FAM_DINF) {
    // an input at the last stage that costs nothing, moves nothing, and is
    // rewarded without limit
    int k = (int)g.in(0, nu - 1);
    for (int c = 0; c < nu; c++) el(SR, N, k, c) = el(SR, N, c, k) = 0;
    for (int c = 0; c < nx; c++) el(SS, N, k, c) = 0;
    el(Sr, N, k, 0) = -g.uni(0.5, 2);
    for (int r = 0; r < nc; r++) {
      double& L = el(SL, N, r, k);
      L = g.chance(0.5) ? 0 : -g.uni(0.1, 1);
    }
    // rows may have lost strict feasibility of the nominal point
    for (int r = 0; r < nc; r++) el(Sd, N, r, 0) -= 3;
    p.truth = T_DUAL_INF;
  }
  p.densify();
  return p;
}
}  // namespace

Problem make_problem(const Dims& d, int fam, uint64_t seed) {
  fam = ((fam % FAM_COUNT) + FAM_COUNT) % FAM_COUNT;
  return d.kind == DENSE ? dense_problem(d, fam, seed) : mpc_problem(d, fam, seed);
}

void corrupt_problem(Problem* p, uint64_t where, int what) {
  std::vector<Vec*> parts;
  if (p->d.kind == DENSE) {
    for (Vec* w : {&p->H, &p->f, &p->G, &p->h, &p->A, &p->b})
      if (!w->empty()) parts.push_back(w);
  } else {
    for (int s = 0; s < NSEQ; s++)
      if (!p->seq[s].empty()) parts.push_back(&p->seq[s]);
    parts.push_back(&p->x0);
  }
  Vec* w = parts[where % parts.size()];
  double& x = (*w)[(where / parts.size()) % w->size()];
  switch (what % 7) {
    case 0: x = std::numeric_limits<double>::quiet_NaN(); break;
    case 1: x = std::numeric_limits<double>::infinity(); break;
    case 2: x = -std::numeric_limits<double>::infinity(); break;
    case 3: x = 1e308; break;
    case 4: x = -x; break;
    case 5: x = 5e-320; break;
    default: x = 1e18; break;
  }
  p->corrupted = true;
  p->truth = T_UNKNOWN;
  if (p->d.kind == MPC) p->densify();
}

// ---- oracles ------------------------------------------------------------------
Resid residual(const Problem& p, const Point& x, double alpha, bool use_y,
               double zscale) {
  const int n = p.d.nz, m = p.d.nl, q = p.d.nv;
  Resid r;
  typedef long double LD;
  const LD eps = 2.3e-16L;
  std::vector<LD> a(n), sa(n);
  for (int i = 0; i < n; i++) {
    a[i] = p.f[i];
    sa[i] = fabsl((LD)p.f[i]);
  }
  for (int j = 0; j < n; j++)
    for (int i = 0; i < n; i++) {
      LD t = (LD)p.H[(size_t)j * n + i] * x.z[j];
      a[i] += t;
      sa[i] += fabsl(t);
    }
  for (int j = 0; j < n; j++) {
    for (int i = 0; i < m; i++) {
      LD t = (LD)p.G[(size_t)j * m + i] * x.l[i];
      a[j] += t;
      sa[j] += fabsl(t);
    }
    for (int i = 0; i < q; i++) {
      LD t = (LD)p.A[(size_t)j * q + i] * x.v[i];
      a[j] += t;
      sa[j] += fabsl(t);
    }
  }
  LD s2 = 0, sl = 0;
  for (int i = 0; i < n; i++) {
    s2 += a[i] * a[i];
    sl += sa[i] * sa[i];
  }
  r.rz = sqrtl(s2);
  LD slz = sqrtl(sl);
  s2 = sl = 0;
  for (int i = 0; i < m; i++) {
    LD t = p.h[i], st = fabsl(t);
    for (int j = 0; j < n; j++) {
      LD u = (LD)p.G[(size_t)j * m + i] * x.z[j];
      t -= u;
      st += fabsl(u);
    }
    s2 += t * t;
    sl += st * st;
  }
  r.rl = sqrtl(s2);
  LD sll = sqrtl(sl);
  s2 = sl = 0;
  r.vmin = HUGE_VALL;
  r.ydev = 0;
  r.yscale = 0;
  LD rowmax = 0;
  for (int i = 0; i < q; i++) {
    LD t = p.b[i], st = fabsl(t), ra = 0;
    for (int j = 0; j < n; j++) {
      LD u = (LD)p.A[(size_t)j * q + i] * x.z[j];
      t -= u;
      st += fabsl(u);
      ra += fabsl((LD)p.A[(size_t)j * q + i]);
    }
    st += ra * zscale;
    if (ra > rowmax) rowmax = ra;
    LD dev = fabsl(t - (LD)x.y[i]);
    if (!(dev <= r.ydev)) r.ydev = dev;
    if (st > r.yscale) r.yscale = st;
    LD y = use_y ? (LD)x.y[i] : t;
    LD v = x.v[i];
    if (!(v >= r.vmin)) r.vmin = v;
    LD mn = y < v ? y : v;
    LD w = alpha * mn + (1 - alpha) * (y > 0 ? y : 0) * (v > 0 ? v : 0);
    if (y != y || v != v) w = y + v;
    s2 += w * w;
    LD e = st * (1 + (1 - alpha) * fabsl(v));
    sl += e * e;
  }
  r.rv = sqrtl(s2);
  LD slv = sqrtl(sl);
  r.norm = sqrtl(r.rz * r.rz + r.rl * r.rl + r.rv * r.rv);
  r.slack = 4 * eps * (n + m + q + 8) * (slz + sll + slv) + 1e-150L;
  return r;
}

Cert certificate(const Problem& p, const Point& x) {
  const int n = p.d.nz, m = p.d.nl, q = p.d.nv;
  typedef long double LD;
  Cert c;
  const LD eps = 2.3e-16L;
  c.u = 0;
  c.p2 = 0;
  c.p2scale = 0;
  c.vmin = HUGE_VALL;
  for (int i = 0; i < m; i++) {
    c.u = std::max(c.u, fabsl((LD)x.l[i]));
    c.p2 += (LD)p.h[i] * x.l[i];
    c.p2scale += fabsl((LD)p.h[i] * x.l[i]);
  }
  for (int i = 0; i < q; i++) {
    c.u = std::max(c.u, fabsl((LD)x.v[i]));
    c.p2 += (LD)p.b[i] * x.v[i];
    c.p2scale += fabsl((LD)p.b[i] * x.v[i]);
    if (!((LD)x.v[i] >= c.vmin)) c.vmin = x.v[i];
  }
  c.p1 = 0;
  c.p1round = 0;
  for (int j = 0; j < n; j++) {
    LD t = 0, s = 0;
    for (int i = 0; i < q; i++) {
      LD w = (LD)p.A[(size_t)j * q + i] * x.v[i];
      t += w;
      s += fabsl(w);
    }
    for (int i = 0; i < m; i++) {
      LD w = (LD)p.G[(size_t)j * m + i] * x.l[i];
      t += w;
      s += fabsl(w);
    }
    c.p1 = std::max(c.p1, fabsl(t));
    c.p1round = std::max(c.p1round, s);
  }
  c.p1round *= 4 * eps * (m + q + 4);
  c.w = 0;
  for (int j = 0; j < n; j++) c.w = std::max(c.w, fabsl((LD)x.z[j]));
  c.d1 = -HUGE_VALL;
  c.d2 = c.d3 = c.d4 = c.d4scale = c.dround = 0;
  for (int i = 0; i < q; i++) {
    LD t = 0, s = 0;
    for (int j = 0; j < n; j++) {
      LD w = (LD)p.A[(size_t)j * q + i] * x.z[j];
      t += w;
      s += fabsl(w);
    }
    c.d1 = std::max(c.d1, t);
    c.dround = std::max(c.dround, s);
  }
  for (int i = 0; i < m; i++) {
    LD t = 0, s = 0;
    for (int j = 0; j < n; j++) {
      LD w = (LD)p.G[(size_t)j * m + i] * x.z[j];
      t += w;
      s += fabsl(w);
    }
    c.d2 = std::max(c.d2, fabsl(t));
    c.dround = std::max(c.dround, s);
  }
  for (int i = 0; i < n; i++) {
    LD t = 0, s = 0;
    for (int j = 0; j < n; j++) {
      LD w = (LD)p.H[(size_t)j * n + i] * x.z[j];
      t += w;
      s += fabsl(w);
    }
    c.d3 = std::max(c.d3, fabsl(t));
    c.dround = std::max(c.dround, s);
    LD w = (LD)p.f[i] * x.z[i];
    c.d4 += w;
    c.d4scale += fabsl(w);
  }
  c.dround *= 4 * eps * (n + 4);
  return c;
}
