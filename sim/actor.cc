// A simulated caller: owns solver objects, makes calls, meets faults.
#include <algorithm>
#include <cmath>
#include <cstring>

#include "exec.h"

using rt::ev;
using rt::probe;
using rt::violate;

// ---- the seam: Newton steps watched and disturbed ---------------------------------------
namespace {
struct Hooks : SeamHooks {
  NewtonFault f;
  bool check = false;
  double alpha = 0;
  const Opts* eff = nullptr;
  int inits = 0, solves = 0;
  bool faulted = false;
  double last_margin = 0;
  bool hit(int k) const { return f.kind && k >= f.at && k < f.at + f.n; }
  bool on_initialize(double sigma) override {
    inits++;
    if (eff && (inits == 1 ? sigma != eff->sigma0 : !(sigma >= eff->sigma_min && sigma <= eff->sigma_max)))
      violate("option-ignored", "Newton system %d regularised by %.17g: sigma0 %.17g, range [%.17g, %.17g]", inits, sigma,
              eff->sigma0, eff->sigma_min, eff->sigma_max);
    if (hit(inits) && f.kind == 5) {
      faulted = true;
      rt::fired(rt::F_FACTOR_FAILURE);
      return false;
    }
    return true;
  }
  bool on_solve(NewtonStep& s) override {
    if (check) check_newton(s, alpha, solves + 1);
    if (hit(inits) && f.kind == 6) {
      faulted = true;
      rt::fired(rt::F_SOLVE_FAILURE);
      return false;
    }
    solves++;
    if (!hit(inits)) return true;
    const Dims& d = s.p->d;
    Rng g(f.seed, 500 + inits);
    struct {
      double* p;
      int n;
    } parts[4] = {{s.dz, d.nz}, {s.dl, d.nl}, {s.dv, d.nv}, {s.dy, d.nv}};
    switch (f.kind) {
      case 1:
        rt::fired(rt::F_NEWTON_PERTURBED);
        for (int k = 0; k < 3; k++)
          for (int i = 0; i < parts[k].n; i++)
            parts[k].p[i] += f.mag * g.uni(-1, 1) * (1 + std::fabs(parts[k].p[i]));
        break;
      case 2:
        rt::fired(rt::F_NEWTON_ZEROED);
        for (int k = 0; k < 3; k++)
          for (int i = 0; i < parts[k].n; i++) parts[k].p[i] = 0;
        break;
      case 3: {
        rt::fired(rt::F_NEWTON_SCALED);
        double a = g.chance(0.5) ? -1 : g.logu(1e-3, 1e3);
        for (int k = 0; k < 3; k++)
          for (int i = 0; i < parts[k].n; i++) parts[k].p[i] *= a;
        break;
      }
      case 4:
      case 7: {
        rt::fired(rt::F_NEWTON_NONFINITE);
        int k = (int)g.in(0, 2);
        if (parts[k].n == 0) k = 0;
        double bad = f.kind == 4 ? NAN : INFINITY;
        parts[k].p[g.in(0, parts[k].n - 1)] = bad;
        break;
      }
      default: return true;
    }
    faulted = true;
    // The margin part stays consistent with the primal part: y = b - A z.
    for (int i = 0; i < d.nv; i++) {
      double t = s.p->b[i];
      for (int j = 0; j < d.nz; j++) t -= s.p->A[(size_t)j * d.nv + i] * s.dz[j];
      s.dy[i] = t;
    }
    return true;
  }
};
}  // namespace

void seam_call(Seam* m, const SolveRec& s, const SutData* d, SutVar* v, bool check, bool obey, double alpha,
               Reply* r, int* calls, bool* faulted) {
  Hooks h;
  h.f = s.nf;
  h.check = check;
  h.alpha = alpha;
  if (obey) h.eff = &s.eff;
  seam_solve(m, s.p, d, v, s.stream, &h, r);
  *calls = h.solves;
  *faulted = h.faulted;
}

// ---- helpers ---------------------------------------------------------------------------------
static int stock_base(const Op& op) { return (int)(op.get("base") % 3); }

static void note_reply(const Reply& r) {
  static const rt::Probe pf[6] = {rt::P_SUCCESS, rt::P_COUNT, rt::P_MAXITER, rt::P_PRIMAL_INFEASIBLE,
                                  rt::P_DUAL_INFEASIBLE, rt::P_PRIMAL_DUAL_INFEASIBLE};
  switch (r.thrown) {
    case X_NONE:
      if (r.out.eflag >= 0 && r.out.eflag < 6 && pf[r.out.eflag] != rt::P_COUNT) probe(pf[r.out.eflag]);
      if (r.out.eflag == SUCCESS && r.out.prox == 0) probe(rt::P_ZERO_ITERATION_SUCCESS);
      if (r.out.eflag == SUCCESS && r.out.prox > 0)
        for (double t : r.x.v)
          if (t > 1e-3) {
            probe(rt::P_ACTIVE_CONSTRAINT);
            break;
          }
      break;
    case X_BAD_ALLOC: probe(rt::P_EXC_BAD_ALLOC); break;
    case X_RUNTIME: probe(rt::P_EXC_RUNTIME); break;
    case X_STREAM_EXC:
    case X_STREAM_INT: probe(rt::P_EXC_STREAM); break;
    default: probe(rt::P_EXC_OTHER);
  }
}
// Coarse description of one operation's outcome, for the distinct-state count.
static void mix_outcome(const Op& op, const SolveRec& s) {
  uint64_t h = 0;
  h = h * 31 + s.r.thrown;
  h = h * 31 + s.r.out.eflag;
  h = h * 31 + std::min(s.r.out.prox, 20);
  h = h * 31 + std::min(s.r.out.newton, 40);
  h = h * 31 + s.p.fam;
  h = h * 31 + s.p.d.kind;
  h = h * 31 + op.get("guess");
  h = h * 31 + (s.c.alloc_failed ? 1 : 0) + (s.c.stream_threw ? 2 : 0) + (s.c.dev_failed ? 4 : 0);
  h = h * 31 + s.nf.kind;
  uint64_t active = 0;
  for (size_t i = 0; i < s.r.x.v.size(); i++)
    if (s.r.x.v[i] > 1e-9) active |= 1ull << (i % 64);
  rt::state_mix(h);
  rt::state_mix(active);
}

Slot& Actor::slot_for(const Op& op) { return slots[(int)op.get("slot")]; }

void Actor::op_destroy(int id) {
  auto it = slots.find(id);
  if (it == slots.end()) return;
  Slot& s = it->second;
  if (s.alive) {
    sut_delete_solver(s.s);
    seam_delete(s.m);
    int64_t bytes, n = rt::heap_live(s.tag, &bytes);
    probe(rt::P_LEAK_CHECKED);
    if (n && leaks()) violate("leak", "%lld blocks (%lld bytes) still held after the solver was destroyed", (long long)n, (long long)bytes);
    ev("destroy %d", id);
  }
  slots.erase(it);
}

void Actor::op_solver(const Op& op) {
  int id = (int)op.get("slot");
  if (slots.count(id)) {
    op_destroy(id);
    rt::fired(rt::F_SOLVER_RECREATED);
  }
  Slot s;
  s.d = dims_of(op);
  s.ctor = s.d.kind == MPC && op.get("ctor") ? 1 : 0;
  s.seam = op.get("seam") != 0;
  s.tag = tag_base + ++next_tag;
  std::string what;
  rt::op_begin(rt::OpFaults());
  int rc = s.seam ? seam_new(s.d, s.tag, &s.m, &what) : sut_new_solver(s.d, s.ctor, s.tag, &s.s, &what);
  rt::op_end();
  ev("solver %d kind %d (%d,%d,%d) seam %d -> %s", id, s.d.kind, s.d.nz, s.d.nl, s.d.nv, s.seam, thrown_names[rc]);
  if (rc) violate("construct-failed", "constructing a valid solver: %s (%s)", thrown_names[rc], what.c_str());
  s.alive = true;
  s.eff = model_sanitize(stock(s.d.kind, 0));
  s.raw = s.eff;
  slots[id] = s;
}

// The factories of preset options are library calls like any other.
static void check_stock(int kind, int base) {
  Opts a, b = stock(kind, base);
  std::string what;
  rt::op_begin(rt::OpFaults());
  int rc = sut_fetch_options(kind, base, &a, &what);
  rt::op_end();
  if (rc) violate("options-throw", "preset options threw %s (%s)", thrown_names[rc], what.c_str());
  if (opts_text(a) != opts_text(b))
    violate("preset-changed", "preset %d is [%s], in a fresh process [%s]", base, opts_text(a).c_str(), opts_text(b).c_str());
}

void Actor::op_opts(const Op& op) {
  Slot& s = slot_for(op);
  if (!s.alive) return;
  check_stock(s.d.kind, stock_base(op));
  Opts o = stock(s.d.kind, stock_base(op));
  apply_overrides(&o, op);
  bool bad = false;
  s.stocklike = true;
  for (auto& kv : op.a)
    if ((kv.first[0] == 'd' || kv.first[0] == 'i') && kv.first.size() <= 3 && isdigit(kv.first[1])) s.stocklike = false;
  std::string what;
  rt::op_begin(rt::OpFaults());
  int rc = s.seam ? seam_update_options(s.m, o, &what) : sut_update_options(s.s, o, &what);
  rt::op_end();
  if (rc) violate("options-throw", "setting options threw %s (%s): %s", thrown_names[rc], what.c_str(), opts_text(o).c_str());
  s.opts_set = true;
  s.raw = o;
  s.eff = model_sanitize(o);
  for (int i = 0; i < N_OPT_D; i++) bad = bad || opt_d(&o)[i] != opt_d(&s.eff)[i];
  for (int i = 0; i < N_OPT_I; i++) bad = bad || opt_i(&o)[i] != opt_i(&s.eff)[i];
  if (bad) rt::fired(rt::F_BAD_OPTIONS);
  s.have_sol = false;
  ev("opts %d %s", (int)op.get("slot"), opts_text(o).c_str());
  if (s.seam && (oracles & O_OPTIONS)) {
    Opts got;
    seam_current_options(s.m, &got);
    probe(rt::P_OPTIONS_CHECKED);
    if (opts_text(got) != opts_text(s.eff))
      violate("options-wrong", "given [%s] in force [%s] expected [%s]", opts_text(o).c_str(), opts_text(got).c_str(),
              opts_text(s.eff).c_str());
    for (int i = 0; i < N_OPT_D; i++)
      if (opt_d(&got)[i] != opt_d(&s.eff)[i])
        violate("options-wrong", "%s: given %.17g, in force %.17g, expected %.17g", opt_d_names[i], opt_d(&o)[i],
                opt_d(&got)[i], opt_d(&s.eff)[i]);
  }
}

void Actor::op_sanitize(const Op& op) {
  check_stock(DENSE, stock_base(op));
  Opts o = stock(DENSE, stock_base(op));
  apply_overrides(&o, op);
  Opts want = model_sanitize(o), a = o;
  sut_sanitize(&a);
  Opts b = a;
  sut_sanitize(&b);
  probe(rt::P_OPTIONS_CHECKED);
  ev("sanitize %s", opts_text(a).c_str());
  for (int i = 0; i < N_OPT_D; i++) {
    if (!(opt_d(&a)[i] == opt_d(&want)[i]))
      violate("options-wrong", "%s: given %.17g, sanitised to %.17g, documented range gives %.17g", opt_d_names[i],
              opt_d(&o)[i], opt_d(&a)[i], opt_d(&want)[i]);
    if (!(opt_d(&a)[i] == opt_d(&b)[i]))
      violate("options-wrong", "%s: sanitising twice gives %.17g then %.17g", opt_d_names[i], opt_d(&a)[i], opt_d(&b)[i]);
  }
  for (int i = 0; i < N_OPT_I; i++)
    if (opt_i(&a)[i] != opt_i(&want)[i] || opt_i(&a)[i] != opt_i(&b)[i])
      violate("options-wrong", "%s: given %d, sanitised to %d (twice %d), expected %d", opt_i_names[i], opt_i(&o)[i],
              opt_i(&a)[i], opt_i(&b)[i], opt_i(&want)[i]);
  if (a.check_feasibility != want.check_feasibility || a.nonmonotone_linesearch != want.nonmonotone_linesearch ||
      a.display != want.display)
    violate("options-wrong", "sanitising changed a switch");
  if (!(a.sigma_min <= a.sigma0 && a.sigma0 <= a.sigma_max))
    violate("options-wrong", "sanitised sigma0 %g outside [%g, %g]", a.sigma0, a.sigma_min, a.sigma_max);
}

// ---- solving ------------------------------------------------------------------------------------
Request Actor::request_for(const SolveRec& s, const Op& op) {
  Request q;
  q.p = s.p;
  q.opts_set = s.slot->opts_set;
  q.opts = s.slot->raw;
  q.guess = s.guess;
  q.stream = s.stream;
  q.ctor = s.slot->ctor;
  (void)op;
  return q;
}
static int64_t place_at(int64_t raw, int64_t count) {
  if (raw <= 0 || count <= 0) return 0;
  return 1 + (raw - 1) % count;
}
static std::string text_of(const rt::OpCounts& c, int stream) {
  std::string t;
  if (stream == ST_DEFAULT) t = c.dev;
  else
    for (auto& p : c.prints_at) t += p.second;
  // the time is the one number that may differ
  size_t a = t.find("Time elapsed:");
  if (a != std::string::npos) {
    size_t e = t.find('\n', a);
    t.erase(a, e == std::string::npos ? std::string::npos : e - a);
  }
  return t;
}

void Actor::call(SolveRec& s, const Op& op, const rt::OpFaults& f) {
  Slot& sl = *s.slot;
  static const int stores[4] = {OWNED, MAPPED, MAPPED_GUARD, MAPPED_SEQ};
  int sd = sl.seam ? OWNED : stores[op.get("sd") & 3];
  int sv = sl.seam ? OWNED : stores[op.get("sv") % 3];
  if (sd == MAPPED_SEQ && s.p.d.kind == DENSE) sd = MAPPED;
  SutData* d = nullptr;
  SutVar* v = nullptr;
  std::string what;
  bool own_data = true;
  if (shared && !sl.seam && op.get("share")) {
    auto it = shared->find(share_key(op, s.p.d));
    if (it != shared->end()) {
      d = it->second;
      own_data = false;
    }
  }
  rt::op_begin(rt::OpFaults());
  if ((!d && sut_make_data(s.p, sd, tag_base + 900, {}, &d, &what)) ||
      sut_make_var(s.p.d, sv, tag_base + 901, s.guess, nullptr, &v, &what))
    violate("container-failed", "building problem data or variables failed: %s", what.c_str());
  Vec before, after;
  if (oracles & (O_MEMORY | O_ATOMIC)) sut_data_bits(d, &before);
  rt::set_step_limit(step_bound(s.p.d, s.eff));
  rt::hang_cls = "hang";
  rt::op_begin(f);
  if (sl.seam) {
    seam_call(sl.m, s, d, v, (oracles & O_NEWTON) != 0, (oracles & O_OPTIONS) != 0, s.eff.alpha, &s.r, &s.newton_calls, &s.newton_faulted);
  } else {
    sut_solve(sl.s, d, v, s.stream, &s.r);
  }
  if (!rt::threaded) rt::device_flush();
  rt::op_end();
  rt::set_step_limit(INT64_MAX / 4);
  s.c = rt::cur->c;
  rt::op_begin(rt::OpFaults());
  rt::R->solves++;
  if (oracles & (O_MEMORY | O_ATOMIC)) {
    sut_data_bits(d, &after);
    if (before.size() != after.size() || (before.size() && memcmp(before.data(), after.data(), before.size() * 8)))
      violate("data-modified", "the call changed the caller's problem data");
  }
  rt::heap_check("after solve");
  sut_delete_var(v);
  if (own_data) sut_delete_data(d);
  int64_t bytes, n = own_data ? rt::heap_live(tag_base + 900, &bytes) : 0;
  if (n && leaks()) violate("leak", "%lld blocks still held by destroyed problem data", (long long)n);
  n = rt::heap_live(tag_base + 901, &bytes);
  if (n && leaks()) violate("leak", "%lld blocks still held by a destroyed variable", (long long)n);
  rt::op_end();
}

// A guess whose residual lies just above or below the tolerance in force.
static int border_guess(SolveRec* s, const Op& op) {
  rt::Unzone u;
  int64_t bd = op.get("bord");
  if (!bd || s->p.truth != T_WELLPOSED || op.get("corrupt")) return 0;
  int sign = bd & 1 ? 1 : -1, e = (int)(bd >> 1) % 6;
  double delta = e ? std::pow(10.0, -e) : 0.5, tol = combo_tol(s->p, s->eff);
  if (bd > 12) {  // a near guess that still needs work
    static const double far[4] = {2, 9, 99, 9999};
    sign = 1;
    delta = far[bd & 3];
    if (bd > 16 && s->eff.inner_tol_min > 3 * tol) delta = 0.5 * s->eff.inner_tol_min / tol - 1;
  }
  Request q;
  q.p = s->p;
  q.opts_set = true;
  q.opts = stock(s->p.d.kind, 0);
  q.opts.display = 0;
  q.opts.abs_tol = std::min(1e-9, 1e-3 * tol);
  q.opts.rel_tol = 0;
  q.guess.resize(s->p.d);
  const Answer& a = ref_solve(q);
  if (a.r.thrown != X_NONE || a.r.out.eflag != SUCCESS) return 0;
  Rng g((uint64_t)op.get("gseed"), 404);
  int only = (int)g.in(0, 4);
  Point x = a.r.x, dir = a.r.x;
  for (double& t : dir.z) t = only == 1 || only == 2 ? 0 : g.uni(-1, 1);
  for (double& t : dir.l) t = only == 2 || only == 3 ? 0 : g.uni(-1, 1);
  for (double& t : dir.v) t = only == 1 || only == 3 ? 0 : g.uni(-0.2, 1);
  auto at = [&](double t) {
    Point y = x;
    for (size_t i = 0; i < y.z.size(); i++) y.z[i] += t * dir.z[i];
    for (size_t i = 0; i < y.l.size(); i++) y.l[i] += t * dir.l[i];
    for (size_t i = 0; i < y.v.size(); i++) y.v[i] += t * dir.v[i];
    return y;
  };
  double goal = tol * (1 + sign * delta);
  double lo = 0, hi = 1e-9;
  auto res = [&](double t, Resid* r) { return (double)(*r = residual(s->p, at(t), s->eff.alpha, false, 0)).norm; };
  Resid r;
  if (res(0, &r) > 0.5 * goal) return 0;
  while (res(hi, &r) < goal && hi < 1e6) hi *= 4;
  if (hi >= 1e6) return 0;
  for (int k = 0; k < 80; k++) {
    double t = 0.5 * (lo + hi);
    (res(t, &r) < goal ? lo : hi) = t;
  }
  double got = res(hi, &r);
  if (!(std::fabs(got - goal) + 10 * (double)r.slack <= 0.5 * delta * tol)) return 0;
  s->guess = at(hi);
  return sign;
}

void Actor::op_solve(const Op& op) {
  Slot& sl = slot_for(op);
  if (!sl.alive) return;
  SolveRec s;
  s.op = &op;
  s.slot = &sl;
  s.p = problem_of(op, sl.d);
  s.guess = make_guess(op, sl.d, &sl);
  s.eff = sl.eff;
  int border = border_guess(&s, op);
  s.stock = sl.stocklike;
  s.stream = op.get("stream") ? ST_DEFAULT : ST_CUSTOM;
  if (sl.seam) s.nf = newton_fault_of(op);
  int64_t gk = op.get("guess");
  if (gk == 2 || gk == 4 || gk == 7 || gk == 8 || gk == 9) rt::fired(rt::F_CORRUPT_GUESS);
  if (gk == 7 || gk == 8) probe(rt::P_NONFINITE_INPUT);
  if (s.eff.max_newton_iters < 10 || s.eff.max_prox_iters < 4) rt::fired(rt::F_BUDGET_STARVED);
  if (sl.had_exception) probe(rt::P_SOLVE_AFTER_EXCEPTION);
  if (sl.had_infeasible) probe(rt::P_SOLVE_AFTER_INFEASIBLE);
  rt::device_config((int)op.get("buf") % 3);

  bool faulty = op.get("af") || op.get("pt") || op.get("ps") || op.get("cj") || op.get("df") || op.get("die");
  const Answer* ref = nullptr;
  rt::OpFaults f;
  if (!sl.seam && !no_ref && (faulty || (oracles & (O_BITS | O_ATOMIC)))) {
    ref = &ref_solve(request_for(s, op));
    const rt::OpCounts& c = ref->c;
    if (op.get("af")) {
      f.alloc_fail_at = place_at(op.get("af"), c.allocs);
      f.alloc_fail_n = 1 + op.get("afn");
    }
    int64_t prints = s.stream == ST_CUSTOM ? c.prints : 0;
    if (op.get("pt")) {
      f.print_throw_at = place_at(op.get("pt"), prints);
      f.print_throw_kind = (int)(op.get("ptk") & 1);
    }
    if (op.get("ps")) {
      f.print_stall_at = place_at(op.get("ps"), prints);
      f.print_stall_ns = 1000000ll * (1 + op.get("psms"));
    }
    if (op.get("cj")) {
      f.clock_jump_at = place_at(op.get("cj"), std::max<int64_t>(c.clock_reads, 1));
      f.clock_jump_ns = 1000000000ll * op.get("cjs");
      if (!op.get("cjs")) f.clock_jump_at = 0;
    }
    if (op.get("df")) {
      f.stdout_fail_at = place_at(op.get("df"), std::max<int64_t>(c.dev_writes, 1));
      f.stdout_fail_n = 1 + op.get("dfn");
      f.stdout_fail_kind = (int)(op.get("dfk") & 1);
    }
  }
  if (op.get("die") && rt::threaded) f.die_at_step = op.get("die");
  Op inner;
  std::function<void()> nest;
  if (!pending.empty()) {
    inner = pending.back();
    pending.pop_back();
    if (inner.get("slot") != op.get("slot") && !sl.seam && s.stream == ST_CUSTOM) {
      f.nest_at = place_at(inner.get("at"), ref ? ref->c.prints : 2);
      nest = [this, &inner] { op_solve(inner); };
      rt::cur->nest = &nest;
    }
  }
  call(s, op, f);
  rt::cur->nest = nullptr;
  s.clean = !s.c.alloc_failed && !s.c.stream_threw && !s.newton_faulted;
  if (border && (oracles & O_FIXPOINT) && s.clean && s.r.thrown == X_NONE) {
    bool at_once = s.r.out.eflag == SUCCESS && s.r.out.newton == 0 && s.r.out.prox == 0;
    if (at_once != (border < 0))
      violate("border", "a guess with residual %.17g, tolerance %.17g: %s after %d Newton and %d proximal iterations",
              (double)residual(s.p, s.guess, s.eff.alpha, false, 0).norm, combo_tol(s.p, s.eff), flag_names[s.r.out.eflag % 6],
              s.r.out.newton, s.r.out.prox);
    if (at_once && !(s.r.x.z == s.guess.z && s.r.x.l == s.guess.l && s.r.x.v == s.guess.v))
      violate("border", "a guess accepted at once was changed");
  }
  ev("solve %d fam %d guess %d -> %s %s newton %d prox %d", (int)op.get("slot"), s.p.fam, (int)gk,
     thrown_names[s.r.thrown], s.r.thrown ? s.r.what.c_str() : flag_names[s.r.out.eflag % 6], s.r.out.newton, s.r.out.prox);
  for (const Vec* w : {&s.r.x.z, &s.r.x.l, &s.r.x.v, &s.r.x.y})
    if (!w->empty()) rt::ev_bits(w->data(), w->size() * 8);
  mix_outcome(op, s);
  note_reply(s.r);
  if (s.newton_faulted && s.r.thrown == X_NONE && s.r.out.eflag == SUCCESS) probe(rt::P_SUCCESS_AFTER_NEWTON_FAULT);
  if (gk == 4 && s.p.truth == T_WELLPOSED) probe(rt::P_WELLPOSED_FROM_HOSTILE_GUESS);

  if ((record || expect) && s.stream == ST_CUSTOM) {
    rt::Unzone u;
    s.r.text = text_of(s.c, s.stream);
  }
  if (record) record->push_back(s.r);
  if (expect) {
    if (expect_pos < expect->size()) {
      rt::Unzone u;
      compare_replies(expect_cls, expect_what, s.r, (*expect)[expect_pos]);
      if (s.r.text != (*expect)[expect_pos].text)
        violate(expect_cls, "%s: the printed log differs: got [%s] expected [%s]", expect_what, s.r.text.c_str(),
                (*expect)[expect_pos].text.c_str());
    }
    expect_pos++;
  }
  if (ref) {
    const Reply& w = ref->r;
    if (s.clean) {
      if (oracles & (O_BITS | O_ATOMIC | O_VARIANT)) {
        compare_replies(oracles & O_ATOMIC ? "not-reusable" : "history", "same call on a fresh solver", s.r, w);
        if ((oracles & O_BITS) && !s.c.dev_failed && s.r.thrown == X_NONE &&
            text_of(s.c, s.stream) != text_of(ref->c, s.stream))
          violate("history-log", "the printed log differs from that of a fresh solver");
      }
    } else if (oracles & O_ATOMIC) {
      if (s.r.thrown == X_NONE) {
        compare_replies("wrong-after-fault", "call that survived a fault", s.r, w);
      } else {
        bool alloc_only = s.c.alloc_failed && !s.c.stream_threw;
        bool stream_only = s.c.stream_threw && !s.c.alloc_failed;
        if (alloc_only && s.r.thrown != X_BAD_ALLOC)
          violate("wrong-exception", "out of memory surfaced as %s (%s)", thrown_names[s.r.thrown], s.r.what.c_str());
        int want = f.print_throw_kind ? X_STREAM_INT : X_STREAM_EXC;
        if (stream_only && s.r.thrown != want)
          violate("wrong-exception", "the stream's exception surfaced as %s (%s)", thrown_names[s.r.thrown], s.r.what.c_str());
        probe(rt::P_UNTORN_CHECKED);
        bool untouched = s.r.x.same_bits(s.guess);
        bool complete = w.thrown == X_NONE && s.r.x.same_bits(w.x);
        if (!untouched && !complete)
          violate("torn-guess", "after %s the caller's variable is neither as passed nor a complete iterate",
                  thrown_names[s.r.thrown]);
      }
    }
  } else if ((oracles & O_ATOMIC) && s.r.thrown != X_NONE) {
    // seam: failed factorisation or solve
    if (s.newton_faulted && (s.nf.kind == 5 || s.nf.kind == 6)) {
      probe(rt::P_UNTORN_CHECKED);
      if (s.r.thrown != X_RUNTIME)
        violate("wrong-exception", "failed factorisation surfaced as %s (%s)", thrown_names[s.r.thrown], s.r.what.c_str());
      if (!s.r.x.same_bits(s.guess)) violate("torn-guess", "after a failed factorisation the caller's variable has changed");
    }
  }
  if ((oracles & O_ATOMIC) && sl.seam && !s.newton_faulted && !no_ref) {
    // a clean call on the seam's object against the front end's fresh solver
    const Answer& a = ref_solve(request_for(s, op));
    compare_replies("not-reusable", "same call on a fresh solver", s.r, a.r);
  }
  if (oracles & O_VARIANT) {
    Request q = request_for(s, op);
    q.opts = sl.opts_set ? sl.raw : stock(sl.d.kind, 0);
    q.opts_set = true;
    q.opts.display = 0;
    q.stream = ST_CUSTOM;
    q.store_d = q.store_v = OWNED;
    const Answer& a = ref_solve(q);
    if (s.clean) compare_replies("variant", "silent call with owned data", s.r, a.r);
    if (s.clean && s.r.thrown == X_NONE && s.stream == ST_DEFAULT && !s.c.dev_failed) {
      Request q2 = request_for(s, op);
      q2.stream = ST_CUSTOM;
      const Answer& b = ref_solve(q2);
      if (text_of(s.c, ST_DEFAULT) != text_of(b.c, ST_CUSTOM))
        violate("variant-log", "default stream printed a different log than a custom stream");
    }
  }
  if (oracles & O_OPTIONS) {
    if (s.clean && s.r.thrown == X_RUNTIME && s.p.truth == T_WELLPOSED && moderate(s.guess, 1e3))
      violate("options-throw", "solve threw '%s' with options %s", s.r.what.c_str(), opts_text(sl.raw).c_str());
  }
  check_solve(s);

  sl.solves++;
  if (s.r.thrown != X_NONE) sl.had_exception = true;
  if (s.r.thrown == X_NONE && s.r.out.eflag >= PINF) sl.had_infeasible = true;
  sl.have_prev = true;
  sl.prev = s.r.x;
  if (!s.r.x.finite()) sl.have_prev = false;
  if (s.r.thrown == X_NONE && s.r.out.eflag == SUCCESS && s.p.sane() && s.r.out.residual <= combo_tol(s.p, s.eff) &&
      moderate(s.r.x, 1e100)) {
    sl.have_sol = true;
    sl.sol_p = s.p;
    sl.sol_x = s.r.x;
    sl.sol_out = s.r.out;
  }
}

void Actor::check_solve(SolveRec& s) {
  if (oracles & O_CERT) oracle_cert(s);
  if (oracles & O_REPORT) oracle_report(s);
  if (oracles & O_INFEAS) oracle_infeas(s);
  if (oracles & O_PROGRESS) oracle_progress(s);
  if (oracles & O_LOG) oracle_log(s);
  if (oracles & O_OPTIONS) oracle_obeyed(s);
  if (oracles & O_TIME) oracle_time(s);
}

// Warm restart from a stored solution.
void Actor::op_resolve(const Op& op) {
  Slot& sl = slot_for(op);
  if (!sl.alive || !sl.have_sol) return;
  Slot tmp;
  Slot* use = &sl;
  if (op.get("fresh")) {
    tmp.d = sl.d;
    tmp.tag = tag_base + ++next_tag;
    tmp.ctor = sl.ctor;
    rt::op_begin(rt::OpFaults());
    if (sut_new_solver(tmp.d, tmp.ctor, tmp.tag, &tmp.s, nullptr)) violate("construct-failed", "second solver");
    if (sl.opts_set && sut_update_options(tmp.s, sl.raw, nullptr)) violate("options-throw", "second solver");
    rt::op_end();
    tmp.alive = true;
    tmp.opts_set = sl.opts_set;
    tmp.raw = sl.raw;
    tmp.eff = sl.eff;
    use = &tmp;
  }
  auto drop_tmp = [&] {
    if (use != &tmp) return;
    sut_delete_solver(tmp.s);
    if (leaks() && rt::heap_live(tmp.tag, nullptr)) violate("leak", "blocks held after the second solver was destroyed");
  };
  SolveRec s;
  s.op = &op;
  s.slot = use;
  s.p = sl.sol_p;
  s.guess = sl.sol_x;
  if (op.get("dropy"))
    for (double& t : s.guess.y) t = op.get("dropy") == 1 ? 0.0 : NAN;
  s.eff = sl.eff;
  s.stream = op.get("stream") ? ST_DEFAULT : ST_CUSTOM;
  call(s, op, rt::OpFaults());
  probe(rt::P_FIXPOINT_CHECKED);
  ev("resolve -> %s %d newton %d prox %d", thrown_names[s.r.thrown], s.r.out.eflag, s.r.out.newton, s.r.out.prox);
  mix_outcome(op, s);
  if (!(oracles & O_FIXPOINT)) {
    check_solve(s);
    drop_tmp();
    return;
  }
  if (s.r.thrown != X_NONE) violate("restart-failed", "restart from a solution threw %s (%s)", thrown_names[s.r.thrown], s.r.what.c_str());
  if (s.r.out.eflag != SUCCESS || s.r.out.newton != 0 || s.r.out.prox != 0)
    violate("restart-works", "restart from a solution: %s after %d Newton and %d proximal iterations (residual %.17g, was %.17g, tolerance %.17g)",
            flag_names[s.r.out.eflag % 6], s.r.out.newton, s.r.out.prox, s.r.out.initial_residual, sl.sol_out.residual,
            combo_tol(s.p, s.eff));
  Point want = sl.sol_x;
  size_t n = want.z.size();
  (void)n;
  auto same = [](const Vec& a, const Vec& b) { return a.empty() || !memcmp(a.data(), b.data(), a.size() * 8); };
  if (!same(s.r.x.z, want.z) || !same(s.r.x.l, want.l) || !same(s.r.x.v, want.v))
    violate("restart-moved", "restart from a solution changed the point");
  double sc = 1;
  for (double t : want.y) sc = std::max(sc, std::fabs(t));
  for (size_t i = 0; i < want.y.size(); i++)
    if (!(std::fabs(s.r.x.y[i] - want.y[i]) <= 1e-12 * sc * (1 + want.z.size())))
      violate("restart-moved", "restart from a solution changed margin %zu from %.17g to %.17g", i, want.y[i], s.r.x.y[i]);
  double r0 = sl.sol_out.residual;
  Resid rr = residual(s.p, s.r.x, s.eff.alpha, false, 0);
  if (!(std::fabs(s.r.out.residual - r0) <= 1e-6 * r0 + 4 * (double)rr.slack))
    violate("restart-residual", "restart reports residual %.17g, the solve that produced the point %.17g", s.r.out.residual, r0);
  drop_tmp();
}

// Construction under memory pressure.
void Actor::op_construct(const Op& op) {
  Dims d = dims_of(op);
  int ctor = d.kind == MPC && op.get("ctor");
  int what = (int)op.get("obj") % 4;  // 0 solver 1 data 2 variable 3 seam components
  Problem p;
  if (what == 1) p = make_problem(d, 0, 1);
  Point x;
  x.resize(d);
  int tag = tag_base + ++next_tag;
  auto build = [&](const rt::OpFaults& f, std::string* msg, int64_t* allocs) {
    SutSolver* s = nullptr;
    SutData* da = nullptr;
    SutVar* v = nullptr;
    Seam* m = nullptr;
    int rc;
    rt::op_begin(f);
    if (what == 0) rc = sut_new_solver(d, ctor, tag, &s, msg);
    else if (what == 1) rc = sut_make_data(p, OWNED, tag, {}, &da, msg);
    else if (what == 2) rc = sut_make_var(d, OWNED, tag, x, nullptr, &v, msg);
    else rc = seam_new(d, tag, &m, msg);
    rt::op_end();
    if (allocs) *allocs = rt::cur->c.allocs;
    bool failed = rt::cur->c.alloc_failed;
    rt::heap_check("after construction");
    sut_delete_solver(s);
    sut_delete_data(da);
    sut_delete_var(v);
    seam_delete(m);
    int64_t bytes, n = rt::heap_live(tag, &bytes);
    probe(rt::P_LEAK_CHECKED);
    if (n)
      violate("leak", "%lld blocks (%lld bytes) lost by a construction that %s", (long long)n, (long long)bytes,
              rc ? "threw" : "succeeded");
    if (rc && rc != X_BAD_ALLOC) violate("wrong-exception", "construction threw %s (%s)", thrown_names[rc], msg->c_str());
    if (rc && !failed) violate("construct-failed", "construction threw %s with memory available", thrown_names[rc]);
    return rc;
  };
  std::string msg;
  int64_t allocs = 0;
  build(rt::OpFaults(), &msg, &allocs);
  rt::OpFaults f;
  f.alloc_fail_at = place_at(op.get("af"), allocs);
  f.alloc_fail_n = 1 + op.get("afn");
  int rc = build(f, &msg, nullptr);
  ev("construct %d -> %s of %lld allocations", what, thrown_names[rc], (long long)allocs);
  rt::state_mix(rc + 10 * what + 100 * d.kind);
  build(rt::OpFaults(), &msg, nullptr);
}

// Calls with inadmissible sizes.
static SeqShape field_shape(const Dims& d, int k) {
  if (d.kind == DENSE) {  // H f G h A b
    int rows[6] = {d.nz, d.nz, d.nl, d.nl, d.nv, d.nv};
    return {1, rows[k], k % 2 ? 1 : d.nz};
  }
  return k == NSEQ ? SeqShape{1, d.nx, 1} : seq_shape(d, k);
}
void Actor::op_badsolve(const Op& op) {
  std::string what;
  Slot& sl = slot_for(op);
  int mode = (int)op.get("mode") % 5;
  if (mode == 0) {  // constructor
    int64_t a[4] = {op.get("a0"), op.get("a1"), op.get("a2"), op.get("a3")};
    int kind = (int)op.get("ckind") % 3;
    int v[4];
    for (int i = 0; i < 4; i++) v[i] = (int)a[i];
    bool bad = kind == DENSE ? (v[0] <= 0 || v[1] < 0 || v[2] <= 0) : (v[0] < 1 || v[1] < 1 || v[2] < 1 || v[3] < 1);
    rt::op_begin(rt::OpFaults());
    int rc = sut_try_construct(kind, v[0], v[1], v[2], v[3], &what);
    rt::op_end();
    probe(rt::P_REJECTED_INPUT);
    rt::fired(rt::F_BAD_DIMENSIONS, bad);
    ev("construct(%d: %d,%d,%d,%d) -> %s", kind, v[0], v[1], v[2], v[3], thrown_names[rc]);
    rt::state_mix(rc * 64 + kind);
    if (bad && rc != X_RUNTIME)
      violate("accepted", "sizes (%d,%d,%d,%d) for solver kind %d: %s", v[0], v[1], v[2], v[3], kind, thrown_names[rc]);
    if (!bad && rc) violate("refused", "sizes (%d,%d,%d,%d) for solver kind %d: %s (%s)", v[0], v[1], v[2], v[3], kind, thrown_names[rc], what.c_str());
    if (rt::heap_live(999, nullptr)) violate("leak", "rejected construction kept memory");
    return;
  }
  if (!sl.alive || sl.seam) return;
  const Dims& d = sl.d;
  std::vector<ShapeBug> bugs;
  int ds[4] = {0, 0, 0, 0};
  bool bad = false;
  Dims pd = d;
  static const int8_t deltas[4] = {1, -1, 2, -2};
  int dl = deltas[op.get("delta") & 3];
  if (mode == 1) {  // one variable part of the wrong size
    int k = (int)op.get("field") & 3;
    int have[4] = {d.nz, d.nl, d.nv, d.nv};
    if (have[k] + dl < 0) dl = 1;
    ds[k] = dl;
    bad = true;
  } else if (mode == 2) {  // one field of the data of the wrong shape
    int nf = d.kind == DENSE ? 6 : NSEQ + 1;
    auto wrong = [&](int field, int ax, int dl) {
      for (const ShapeBug& o : bugs)
        if (o.field == field) return;
      ShapeBug b;
      b.field = field;
      SeqShape sh = field_shape(d, field);
      bool vec = d.kind == DENSE ? field % 2 == 1 : field == NSEQ;
      if (ax == 3 && (vec || sh.rows == sh.cols)) ax = 0;
      if (vec || (d.kind == DENSE && ax == 2)) ax = 0;
      int lo = d.kind == DENSE && ax == 0 ? 0 : 1;  // a dense field may lose all its rows
      if (ax == 3) {
        b.drow = sh.cols - sh.rows, b.dcol = sh.rows - sh.cols;  // transposed
      } else {
        int have = ax == 0 ? sh.rows : ax == 1 ? sh.cols : sh.len;
        if (have + dl < lo) dl = 1;
        (ax == 0 ? b.drow : ax == 1 ? b.dcol : b.dlen) = dl;
      }
      bugs.push_back(b);
    };
    wrong((int)(op.get("field") % nf), (int)(op.get("axis") & 3), dl);
    if (op.has("field2")) wrong((int)(op.get("field2") % nf), (int)(op.get("axis2") & 3), deltas[op.get("delta2") & 3]);
    if (op.has("field3")) wrong((int)(op.get("field3") % nf), (int)(op.get("axis3") & 3), deltas[op.get("delta3") & 3]);
    bad = true;
  } else {  // consistent data of other dimensions
    Op o2 = op;
    o2.set("kind", d.kind);
    pd = dims_of(o2);
    bad = !(pd == d);
    if (mode == 4) {  // ... but some of the fields have the solver's shape
      int nf = d.kind == DENSE ? 6 : NSEQ + 1;
      for (int k = 0; k < nf; k++) {
        if (!((op.get("mask") >> k) & 1)) continue;
        ShapeBug b;
        b.field = k;
        SeqShape want = field_shape(d, k), have = field_shape(pd, k);
        b.dlen = want.len - have.len, b.drow = want.rows - have.rows, b.dcol = want.cols - have.cols;
        bugs.push_back(b);
      }
      bad = false;
      for (int k = 0; k < nf; k++) {
        SeqShape want = field_shape(d, k), have = field_shape(pd, k);
        if (!((op.get("mask") >> k) & 1) && (want.len != have.len || want.rows != have.rows || want.cols != have.cols)) bad = true;
      }
    }
    // variable sized for the solver or for the data
    if (op.get("vard") == 0) {
      ds[0] = d.nz - pd.nz;
      ds[1] = d.nl - pd.nl;
      ds[2] = d.nv - pd.nv;
      ds[3] = d.nv - pd.nv;
    } else if (pd.nz != d.nz || pd.nl != d.nl || pd.nv != d.nv) {
      bad = true;
    }
  }
  Problem p = make_problem(pd, (int)op.get("fam"), (uint64_t)op.get("pseed"));
  Point x;
  x.resize(pd);
  Rng g((uint64_t)op.get("gseed"), 7);
  for (Vec* w : {&x.z, &x.l, &x.v, &x.y})
    for (double& t : *w) t = g.uni(-1, 1);
  static const int stores[4] = {OWNED, MAPPED, MAPPED_GUARD, MAPPED_SEQ};
  int sd = stores[op.get("sd") & 3];
  if (sd == MAPPED_SEQ && d.kind == DENSE) sd = MAPPED;
  SutData* da = nullptr;
  SutVar* v = nullptr;
  rt::op_begin(rt::OpFaults());
  if (sut_make_data(p, sd, tag_base + 900, bugs, &da, &what) ||
      sut_make_var(pd, stores[op.get("sv") % 3], tag_base + 901, x, ds, &v, &what))
    violate("container-failed", "building badly sized inputs: %s", what.c_str());
  Point x0, x1;
  sut_get_var(v, &x0);
  Vec b0, b1;
  sut_data_bits(da, &b0);
  int64_t live0 = rt::heap_live(sl.tag, nullptr);
  Reply r;
  int stream = op.get("stream") ? ST_DEFAULT : ST_CUSTOM;
  rt::device_config((int)op.get("buf") % 3);
  rt::set_step_limit(step_bound(d, sl.eff));
  rt::op_begin(rt::OpFaults());
  sut_solve(sl.s, da, v, stream, &r);
  rt::device_flush();
  rt::op_end();
  rt::set_step_limit(INT64_MAX / 4);
  rt::OpCounts c = rt::cur->c;
  rt::op_begin(rt::OpFaults());
  sut_get_var(v, &x1);
  sut_data_bits(da, &b1);
  ev("badsolve mode %d field %d -> %s %s", mode, (int)op.get("field"), thrown_names[r.thrown], r.what.c_str());
  rt::state_mix(mode * 100 + op.get("field"));
  rt::state_mix(op.get("axis") * 16 + r.thrown);
  probe(rt::P_REJECTED_INPUT);
  if (bad) {
    rt::fired(rt::F_BAD_DIMENSIONS);
    if (r.thrown != X_RUNTIME)
      violate("accepted", "badly sized input (mode %d, field %d, change %d): %s", mode, (int)op.get("field"), dl,
              r.thrown ? thrown_names[r.thrown] : flag_names[r.out.eflag % 6]);
    auto same = [](const Vec& a, const Vec& b) {
      return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * 8));
    };
    if (!same(x0.z, x1.z) || !same(x0.l, x1.l) || !same(x0.v, x1.v) || !same(x0.y, x1.y))
      violate("rejected-modified", "a rejected call changed the caller's variable");
    if (!same(b0, b1)) violate("rejected-modified", "a rejected call changed the problem data");
    if (c.prints || c.dev_writes) violate("rejected-printed", "a rejected call printed");
    if (rt::heap_live(sl.tag, nullptr) != live0) violate("rejected-retained", "a rejected call kept memory");
    sl.had_exception = true;
  } else if (r.thrown == X_RUNTIME && bugs.empty() && p.truth == T_WELLPOSED) {
    violate("refused", "well sized input rejected: %s", r.what.c_str());
  }
  rt::heap_check("after rejected call");
  sut_delete_var(v);
  sut_delete_data(da);
  rt::op_end();
}

void Actor::run_op(const Op& op) {
  rt::R->ops++;
  rt::R->cur_op++;
  const std::string& n = op.name;
  if (n == "solver") op_solver(op);
  else if (n == "opts") op_opts(op);
  else if (n == "solve") op_solve(op);
  else if (n == "nested") pending.push_back(op);
  else if (n == "resolve") op_resolve(op);
  else if (n == "destroy") op_destroy((int)op.get("slot"));
  else if (n == "construct") op_construct(op);
  else if (n == "sanitize") op_sanitize(op);
  else if (n == "badsolve") op_badsolve(op);
  else if (n == "env") {
    rt::garbage_pattern = (int)(op.get("pat") % rt::G_COUNT);
    rt::garbage_seed = (uint64_t)op.get("gseed");
    rt::align_jitter = (int)op.get("jit");
    ev("env %d", rt::garbage_pattern);
  }
}
void Actor::finish() {
  std::vector<int> ids;
  for (auto& s : slots) ids.push_back(s.first);
  for (int i : ids) op_destroy(i);
  rt::heap_check("at the end");
}
