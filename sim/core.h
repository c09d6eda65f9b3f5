// Plain data types shared by the workload generators, the oracles and the thin
// layer over the code under test.  No Eigen, no repository headers.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

typedef std::vector<double> Vec;

enum Kind { DENSE = 0, MPC = 1 };

struct Dims {
  int kind = DENSE;
  int nz = 1, nl = 0, nv = 1;           // always valid
  int N = 1, nx = 1, nu = 1, nc = 1;    // MPC only
  static Dims dense(int nz, int nl, int nv) {
    Dims d;
    d.kind = DENSE;
    d.nz = nz;
    d.nl = nl;
    d.nv = nv;
    return d;
  }
  static Dims mpc(int N, int nx, int nu, int nc) {
    Dims d;
    d.kind = MPC;
    d.N = N;
    d.nx = nx;
    d.nu = nu;
    d.nc = nc;
    d.nz = (N + 1) * (nx + nu);
    d.nl = (N + 1) * nx;
    d.nv = (N + 1) * nc;
    return d;
  }
  bool operator==(const Dims& o) const {
    if (kind != o.kind) return false;
    if (kind == DENSE) return nz == o.nz && nl == o.nl && nv == o.nv;
    return N == o.N && nx == o.nx && nu == o.nu && nc == o.nc;
  }
};

// MPC sequences, in this order everywhere.
enum { SQ, SR, SS, Sq, Sr, SA, SB, Sc, SE, SL, Sd, NSEQ };
extern const char* const seq_names[NSEQ];
struct SeqShape {
  int len, rows, cols;
};
SeqShape seq_shape(const Dims& d, int s);

// What is known about a problem by construction.
enum Truth {
  T_UNKNOWN,       // nothing claimed
  T_WELLPOSED,     // strictly convex, strictly feasible, well scaled
  T_SOLVABLE,      // strictly feasible, bounded objective, moderate scaling
  T_PRIMAL_INF,    // planted Farkas certificate with margin, dual feasible
  T_DUAL_INF,      // planted descent ray, primal strictly feasible
  T_BOTH_INF
};

struct Problem {
  Dims d;
  int fam = 0;
  uint64_t seed = 0;
  int truth = T_UNKNOWN;
  bool corrupted = false;
  // MPC form (empty for dense problems)
  Vec seq[NSEQ];
  Vec x0;
  // Dense form, column major: always present, used by the oracles.
  Vec H, G, A, f, h, b;
  void densify();  // MPC form -> dense form
  double forcing_norm() const;
  bool finite() const;
  bool sane() const;  // finite and far from overflow when squared
};

struct Point {
  Vec z, l, v, y;
  void resize(const Dims& d) {
    z.assign(d.nz, 0);
    l.assign(d.nl, 0);
    v.assign(d.nv, 0);
    y.assign(d.nv, 0);
  }
  bool same_bits(const Point& o) const;
  bool finite() const;
  double maxabs() const;
};

struct Opts {
  double sigma0 = 0, sigma_max = 0, sigma_min = 0, alpha = 0, beta = 0, eta = 0,
         delta = 0, gamma = 0, abs_tol = 0, rel_tol = 0, stall_tol = 0,
         infeas_tol = 0, inner_tol_max = 0, inner_tol_min = 0;
  int max_newton_iters = 0, max_prox_iters = 0, max_inner_iters = 0,
      max_linesearch_iters = 0;
  int check_feasibility = 0, nonmonotone_linesearch = 0, display = 0;
};
constexpr int N_OPT_D = 14;
constexpr int N_OPT_I = 4;
inline double* opt_d(Opts* o) { return &o->sigma0; }
inline const double* opt_d(const Opts* o) { return &o->sigma0; }
inline int* opt_i(Opts* o) { return &o->max_newton_iters; }
inline const int* opt_i(const Opts* o) { return &o->max_newton_iters; }
extern const char* const opt_d_names[N_OPT_D];
extern const char* const opt_i_names[N_OPT_I];

enum Flag { SUCCESS = 0, DIVERGENCE = 1, MAXITER = 2, PINF = 3, DINF = 4, PDINF = 5 };
extern const char* const flag_names[6];

struct Out {
  int eflag = 2;
  int newton = 0, prox = 0;
  double residual = 0, initial_residual = 0, solve_time = 0;
};

enum Thrown { X_NONE, X_BAD_ALLOC, X_RUNTIME, X_STREAM_EXC, X_STREAM_INT, X_STDEXC, X_UNKNOWN };
extern const char* const thrown_names[7];

struct Reply {
  int thrown = X_NONE;
  std::string what;
  Out out;
  Point x;
  std::string text;  // what a custom stream of the call received, without the time
};

// ---- problem families ---------------------------------------------------------
enum Fam {
  FAM_WELL, FAM_PSD, FAM_LP, FAM_PINF, FAM_DINF, FAM_DEGEN, FAM_BOTH, FAM_ILL,
  FAM_EQINF, FAM_TIGHT, FAM_COUNT
};
extern const char* const fam_names[FAM_COUNT];
Problem make_problem(const Dims& d, int fam, uint64_t seed);
// Damages one number of the problem (what: 0 NaN 1 +Inf 2 -Inf 3 1e308
// 4 sign flip 5 denormal 6 1e18).
void corrupt_problem(Problem* p, uint64_t where, int what);

// ---- oracles (long double, written from the problem statement) -------------------
struct Resid {
  long double rz, rl, rv;    // 2-norms
  long double norm;          // of all three
  long double slack;         // bound on what rounding can explain
  long double vmin;          // smallest inequality dual
  long double ydev, yscale;  // |y - (b-Az)|_inf and the scale to judge it by
};
// use_y: take the margins from x.y rather than recomputing b - A z.
Resid residual(const Problem& p, const Point& x, double alpha, bool use_y,
               double zscale);
struct Cert {
  long double u, p1, p2, vmin;   // primal: |(l,v)|, |A'v+G'l|, b'v+h'l, min v
  long double p2scale, p1round;
  long double w, d1, d2, d3, d4; // dual: |z|, max Az, |Gz|, |Hz|, f'z
  long double d4scale, dround;
};
Cert certificate(const Problem& p, const Point& x);

bool finite_all(const Vec& v);
double norm2(const Vec& v);
