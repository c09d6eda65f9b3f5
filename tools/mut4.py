# Fourth batch.  Same format as mut.py.
import sys, mut
from mut import add, ALG, ALGH, HDR, S
for k in list(S): del S[k]

add('c05-thread-counter','C05','a solve made from inside the output stream of another solve on the same thread',
 'The Newton counter is kept in one thread-local slot shared by all solvers, so a call made from inside the output stream of another call disturbs its counter.',
 [(ALG,'  newton_iters_ = 0;\n','  thread_local int total = 0;  // counts the steps of the running call\n  int& steps = total;\n  steps = 0;\n  count_ = &steps;\n  newton_iters_ = 0;\n'),
  (ALG,'    newton_iters_++;\n','    newton_iters_ = ++*count_;\n'),
  (ALGH,'  int newton_iters_ = 0;','  int* count_ = nullptr;\n  int newton_iters_ = 0;')],
 HDR+r'''
struct Nest : OutputStream<Nest> {
  FBstabDense* inner = nullptr; const FBstabDense::ProblemData* q; int at; mutable int n = 0;
  void PrintImplementation(const char*) const {
    if (!inner || ++n != at) return;
    FBstabDense::Variable y(q->f.size(), q->h.size(), q->b.size());
    Nest quiet;
    inner->Solve(*q, &y, quiet);
  }
};
int main() {
  for (unsigned k = 1; k <= 20; k++) {
    auto p = RandomQp(k, 6, 2, 8), q = RandomQp(100 + k, 5, 1, 7);
    auto o = FBstabDense::DefaultOptions();
    o.display_level = Display::ITER_DETAILED;
    FBstabDense a(6, 2, 8), b(6, 2, 8), c(5, 1, 7);
    a.UpdateOptions(o); b.UpdateOptions(o);
    FBstabDense::Variable x(6, 2, 8);
    SolverOut r = a.Solve(p, &x, Nest());
    for (int at = 1; at < 12; at++) {
      FBstabDense::Variable w(6, 2, 8);
      Nest os; os.inner = &c; os.q = &q; os.at = at;
      SolverOut s = b.Solve(p, &w, os);
      if (s.newton_iters != r.newton_iters || s.eflag != r.eflag || !Same(x, w)) FAIL("problem %u, nested at line %d: %d instead of %d Newton iterations", k, at, s.newton_iters, r.newton_iters);
    }
  }
  return 0;
}
''')
LOGDEMO=HDR+r"""
struct Rec : OutputStream<Rec> {
  std::string* t;
  explicit Rec(std::string* s) : t(s) {}
  void PrintImplementation(const char* m) const { *t += m; }
};
// Lines of one call: calls f(block, n, step, norm) and g(block, tolerance).
template <class F, class G>
void walk(const std::string& t, F f, G g) {
  size_t a = 0; int block = -1;
  while (a < t.size()) {
    size_t b = t.find('\n', a); if (b == std::string::npos) b = t.size();
    std::string l = t.substr(a, b - a); a = b + 1;
    int n, m; double x, y, z, w;
    if (l.find("Optimization") != std::string::npos) break;
    if (sscanf(l.c_str(), "Begin Prox Iter: %d", &m) == 1) block = m;
    else if (sscanf(l.c_str(), "Exiting inner loop. Inner residual: %lf, Inner tolerance: %lf", &x, &y) == 2) g(block, y);
    else if (sscanf(l.c_str(), " %d%*[ ]%lf %lf %lf %lf", &n, &x, &y, &z, &w) == 5) f(block, n, x, std::sqrt(y * y + z * z + w * w));
  }
}
"""
add('c11-harmonic-backtrack','C11','a solve whose line search backtracks at least twice in one step, watched at the detailed display level',
 'The second and later trial steps of a line search are not the powers of beta the option asks for (the first one is).',
 [(ALG,'        t *= opts_.beta;\n','        t -= (1.0 - opts_.beta) * t * t;\n')],
 LOGDEMO+r"""
int main() {
  for (unsigned k = 1; k <= 200; k++) {
    auto p = RandomQp(k, 4, 1, 10); p.f *= 50;
    auto o = FBstabDense::DefaultOptions();
    o.display_level = Display::ITER_DETAILED; o.beta = 0.5; o.eta = 0.4; o.nonmonotone_linesearch = false;
    FBstabDense s(4, 1, 10); s.UpdateOptions(o);
    FBstabDense::Variable x(4, 1, 10); x.v.setConstant(5);
    std::string t; s.Solve(p, &x, Rec(&t));
    int bad = 0;
    walk(t, [&](int, int n, double step, double) { if (n && step > 1e-30) { double j = std::log(step) / std::log(0.5); if (std::fabs(j - std::round(j)) > 1e-3) bad++; } }, [](int, double) {});
    if (bad) FAIL("problem %u: %d steps that are no powers of beta", k, bad);
  }
  return 0;
}
""")
add('c11-monotone-first','C11','nonmonotone_linesearch switched off and a line search, after the first proximal iteration, that must backtrack although an older merit value would allow the step',
 'The monotone line search is only used in the first subproblem.',
 [(ALG,'opts_.nonmonotone_linesearch ? MaxMerit()','opts_.nonmonotone_linesearch || prox_iters_ > 0 ? MaxMerit()')],
 LOGDEMO+r"""
int main() {
  for (unsigned k = 1; k <= 3000; k++) {
    auto p = RandomQp(k, 5, 1, 12); p.f *= 10;
    auto o = FBstabDense::DefaultOptions();
    o.display_level = Display::ITER_DETAILED; o.nonmonotone_linesearch = false; o.sigma0 = 1e-2; o.sigma_max = 1; o.max_linesearch_iters = 60;
    o.inner_tol_max = 1e2; o.max_prox_iters = 60;
    FBstabDense s(5, 1, 12); s.UpdateOptions(o);
    FBstabDense::Variable x(5, 1, 12); x.v.setConstant(k % 7);
    std::string t; s.Solve(p, &x, Rec(&t));
    int bad = 0; double last = 0;
    walk(t, [&](int, int n, double step, double norm) { if (n && step > 1e-6 && norm > last * 1.0001) bad++; last = norm; }, [](int, double) {});
    if (bad) FAIL("problem %u: %d steps raise the merit function of a monotone line search", k, bad);
  }
  return 0;
}
""")
add('c11-delta-half','C11','a delta above 0.5 and a solve of two or more proximal iterations',
 'Values of delta above one half are not obeyed: the subproblem tolerance still shrinks by one half.',
 [(ALG,'inner_tol * opts_.delta','inner_tol * std::min(opts_.delta, 0.5)')],
 LOGDEMO+r"""
int main() {
  for (unsigned k = 1; k <= 40; k++) {
    auto p = RandomQp(k, 5, 1, 12);
    auto o = FBstabDense::DefaultOptions();
    o.display_level = Display::ITER_DETAILED; o.delta = 0.8; o.sigma0 = 1e-1; o.sigma_max = 1; o.abs_tol = 1e-10; o.inner_tol_max = 1e-6;
    FBstabDense s(5, 1, 12); s.UpdateOptions(o);
    FBstabDense::Variable x(5, 1, 12);
    std::string t; s.Solve(p, &x, Rec(&t));
    double first = 0; walk(t, [](int, int, double, double) {}, [&](int b, double tol) { if (b == 0) first = tol; });
    if (first && std::fabs(first - 0.8e-6) > 1e-9) FAIL("problem %u: first subproblem tolerance %g, expected 8e-7", k, first);
  }
  return 0;
}
""")
add('c10-quiet-line','C10','a first subproblem that needs no Newton step: a guess whose residual lies between the tolerance and inner_tol_min, at the iteration display level',
 'Iteration lines are left out as long as no Newton step has been taken.',
 [(ALG,'      PrintDetailedHeader(prox_iters_, newton_iters_, *rk_, os);\n      PrintIterLine(','      PrintDetailedHeader(prox_iters_, newton_iters_, *rk_, os);\n      if (k == 0 || newton_iters_ > 0) PrintIterLine(')],
 LOGDEMO+r"""
int main() {
  for (unsigned k = 1; k <= 40; k++) {
    auto p = RandomQp(k, 5, 1, 6);
    auto o = FBstabDense::DefaultOptions();
    o.display_level = Display::OFF; o.abs_tol = 1e-10;
    FBstabDense s(5, 1, 6); s.UpdateOptions(o);
    FBstabDense::Variable x(5, 1, 6);
    if (s.Solve(p, &x).eflag != ExitFlag::SUCCESS) continue;
    x.z.array() += 1e-6; x.v.array() -= 1e-6;
    o.display_level = Display::ITER; o.inner_tol_min = 1e-2; o.inner_tol_max = 1; o.stall_tol = 1e-14; o.max_prox_iters = 5;
    s.UpdateOptions(o);
    std::string t; auto r = s.Solve(p, &x, Rec(&t));
    int rows = 0; size_t a = 0;
    while ((a = t.find('\n', a)) != std::string::npos) { int n, m; double e; if (sscanf(t.c_str() + ++a, " %d %d %lf %lf %lf %lf %lf", &n, &m, &e, &e, &e, &e, &e) == 7) rows++; }
    int want = r.eflag == ExitFlag::MAXITERATIONS && r.newton_iters < o.max_newton_iters ? r.prox_iters : r.prox_iters + 1;
    if (rows != want) FAIL("problem %u: %d iteration lines, expected %d", k, rows, want);
  }
  return 0;
}
""")
add('c06-static-gradient','C06','two threads solving MPC problems at the same time, one preempted between filling and returning a two-vector',
 'The Riccati solver keeps the gradient of the complementarity function in static storage shared by all threads.',
 [('fbstab/components/riccati_linear_solver.cc','  Eigen::Vector2d v;\n','  static Eigen::Vector2d v;\n')],
 HDR+r"""
#include <atomic>
#include <thread>
int main() {
  auto o = FBstabMpc::DefaultOptions(); o.display_level = Display::OFF;
  std::atomic<int> bad{0}; std::vector<std::thread> ts;
  for (int i = 0; i < 6; i++) ts.emplace_back([&, i] {
    int N = 3, nx = 1, nu = 1, nc = 20;
    auto p = RandomOcp(100 + i, N, nx, nu, nc);
    FBstabMpc::Variable ref(N, nx, nu, nc); bool have = false;
    for (int k = 0; k < 3000 && !bad; k++) {
      FBstabMpc s(N, nx, nu, nc); s.UpdateOptions(o); FBstabMpc::Variable x(N, nx, nu, nc);
      try { s.Solve(p, &x); } catch (const std::exception&) { bad++; return; }
      if (!have) { ref = x; have = true; } else if (ref.z != x.z || ref.v != x.v) bad++;
    }
  });
  for (auto& t : ts) t.join();
  if (bad) FAIL("threads disturb each other");
  return 0;
}
""")
if __name__=='__main__':
    mut.run(sys.argv[1:])
