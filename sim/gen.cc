// What each property's simulated worlds look like: one integer (seed, index)
// decides a whole plan.
#include <algorithm>
#include <cmath>

#include "exec.h"

namespace {
int64_t code(double v) { return value_code(v); }

void gen_env(Rng& g, Plan* p) {
  if (g.chance(0.25)) return;
  Op& e = p->add("env");
  e.set("pat", g.in(0, rt::G_COUNT - 1)).set("gseed", g.in(1, 1 << 30)).set("jit", g.chance(0.5));
}
bool no_huge;  // for runs of very many calls
void gen_dims(Rng& g, Op* op, double big = 0.08, double mpc = 0.45) {
  if (g.chance(mpc)) {
    if (g.chance(0.004) && !no_huge) {  // long horizons, wide stages
      if (g.chance(0.6))
        put_dims(op, Dims::mpc((int)g.in(15, 48), (int)g.in(1, 3), (int)g.in(1, 2), (int)g.in(1, 4)));
      else
        put_dims(op, Dims::mpc((int)g.in(1, 4), (int)g.in(6, 16), (int)g.in(1, 9), (int)g.in(4, 24)));
    } else if (g.chance(big))
      put_dims(op, Dims::mpc((int)g.in(4, 14), (int)g.in(1, 6), (int)g.in(1, 4), (int)g.in(1, 10)));
    else
      put_dims(op, Dims::mpc((int)g.in(1, 6), (int)g.in(1, 4), (int)g.in(1, 3), (int)g.in(1, 6)));
    return;
  }
  int nz, nl, nv;
  if (g.chance(0.003) && !no_huge) {
    nz = (int)g.in(60, 140);
    nl = (int)g.in(0, nz / 2);
    nv = (int)g.in(1, 200);
  } else if (g.chance(big)) {
    nz = (int)g.in(10, 70);
    nl = (int)g.in(0, nz / 2);
    nv = (int)g.in(1, 120);
  } else {
    nz = (int)g.in(1, 9);
    nl = g.chance(0.35) ? 0 : g.chance(0.04) ? (int)g.in(nz, nz + 3) : (int)g.in(0, std::max(0, nz - 1));
    nv = (int)g.in(1, 14);
  }
  put_dims(op, Dims::dense(nz, nl, nv));
}
// Valid settings a user might choose.
void gen_opts(Rng& g, Op* op, double much = 0.35) {
  op->set("base", g.in(0, 2));
  auto some = [&] { return g.chance(much); };
  if (some()) op->set("d8", code(g.logu(1e-10, 1e-3)));
  if (some()) op->set("d9", g.chance(0.5) ? 1000 : code(g.logu(1e-12, 1e-4)));
  if (some()) op->set("d0", code(g.logu(1e-10, 1)));
  if (g.chance(much * 0.4)) op->set("d1", code(g.logu(1e-6, 1e2)));
  if (g.chance(much * 0.4)) op->set("d2", code(g.logu(1e-13, 1e-8)));
  if (some()) op->set("d3", g.chance(0.3) ? 1009 : code(g.uni(0.2, 0.99)));
  if (g.chance(much * 0.5)) op->set("d4", code(g.uni(0.3, 0.95)));
  if (g.chance(much * 0.5)) op->set("d5", code(g.logu(1e-10, 0.4)));
  if (g.chance(much * 0.5)) op->set("d6", code(g.uni(0.05, 0.9)));
  if (g.chance(much * 0.3)) op->set("d7", code(g.uni(0.01, 0.8)));
  if (g.chance(much * 0.4)) op->set("d10", code(g.logu(1e-14, 1e-3)));
  if (g.chance(much * 0.4)) op->set("d11", code(g.logu(1e-10, 1e-6)));
  if (g.chance(much * 0.4)) op->set("d12", code(g.logu(1e-6, 10)));
  if (g.chance(much * 0.4)) op->set("d13", code(g.chance(0.2) ? g.logu(1e-7, 2e-2) : g.logu(1e-14, 1e-6)));
  if (g.chance(0.2)) op->set("cf", 1 + g.in(0, 1));
  if (g.chance(0.25)) op->set("nm", 1 + g.in(0, 1));
}
void gen_limits(Rng& g, Op* op) {
  if (g.chance(0.5)) op->set("i0", INT_OFF + (g.chance(0.7) ? g.in(1, 12) : g.in(1, 200)));
  if (g.chance(0.5)) op->set("i1", INT_OFF + (g.chance(0.7) ? g.in(1, 4) : g.in(1, 60)));
  if (g.chance(0.35)) op->set("i2", INT_OFF + g.in(1, 8));
  if (g.chance(0.3)) op->set("i3", INT_OFF + g.in(1, 12));
}
int64_t gen_fam(Rng& g, const char* mix) {
  // letters: W well P psd L lp I pinf U dinf D degen B both X ill E eqinf T tight
  static const char* letters = "WPLIUDBXET";
  std::string m = mix;
  char c = m[(size_t)g.in(0, (int64_t)m.size() - 1)];
  for (int i = 0; letters[i]; i++)
    if (letters[i] == c) return i;
  return 0;
}
void gen_flavour(Rng& g, Op* op) {
  op->set("sd", g.in(0, 3)).set("sv", g.in(0, 2));
}
void gen_newton_fault(Rng& g, Op* op, bool failing) {
  op->set("nf", failing ? g.in(5, 6) : g.chance(0.15) ? g.in(5, 6) : (g.chance(0.12) ? 7 : g.in(1, 4)));
  op->set("nat", g.chance(0.5) ? g.in(0, 3) : g.in(0, 15));
  op->set("nn", g.chance(0.6) ? 0 : g.in(0, 5));
  op->set("nmag", g.in(0, 9));
  op->set("nseed", g.in(1, 1 << 20));
}
struct Swarm {  // which features this run uses
  bool corrupt, hostile, newton, alloc, stream, dev, clock, starve, big, recreate, flav;
};
Swarm swarm(Rng& g) {
  Swarm s;
  s.corrupt = g.chance(0.35);
  s.hostile = g.chance(0.5);
  s.newton = g.chance(0.6);
  s.alloc = g.chance(0.5);
  s.stream = g.chance(0.5);
  s.dev = g.chance(0.5);
  s.clock = g.chance(0.6);
  s.starve = g.chance(0.45);
  s.big = g.chance(0.1);
  s.recreate = g.chance(0.3);
  s.flav = g.chance(0.5);
  return s;
}
void gen_guess(Rng& g, Op* op, const Swarm& s, bool finite_only = false) {
  static const int mild[6] = {0, 1, 5, 6, 10, 11};
  static const int bad[7] = {2, 3, 4, 9, 12, 7, 8};
  if (s.hostile && g.chance(0.5))
    op->set("guess", bad[g.in(0, finite_only ? 4 : 6)]);
  else
    op->set("guess", mild[g.in(0, 5)]);
  op->set("gseed", g.in(0, 1 << 20));
}
void gen_problem(Rng& g, Op* op, const Swarm& s, const char* mix) {
  op->set("fam", gen_fam(g, mix)).set("pseed", g.in(0, 1 << 24));
  if (s.corrupt && g.chance(0.35)) op->set("corrupt", 1 + g.in(0, 6)).set("cwhere", g.in(0, 1 << 20));
}
void gen_call_faults(Rng& g, Op* op, const Swarm& s) {
  if (s.alloc && g.chance(0.4)) op->set("af", 1 + g.in(0, 1 << 16)).set("afn", g.chance(0.7) ? 0 : g.in(0, 40));
  if (s.stream && g.chance(0.4)) op->set("pt", 1 + g.in(0, 1 << 12)).set("ptk", g.in(0, 1));
}

// The general history: several solver objects, settings, calls, failures.
void gen_history(Rng& g, Plan* p, const char* mix, const Swarm& s, double seam, int nops, double disp,
                 double optsp, bool limits, bool faults, double resolve, double nest = 0) {
  bool nests = g.chance(nest);
  int nslots = 1 + (nests || g.chance(0.4) ? (int)g.in(1, 2) : 0);
  std::vector<bool> is_seam(nslots);
  gen_env(g, p);
  for (int i = 0; i < nslots; i++) {
    Op& o = p->add("solver");
    o.set("slot", i);
    gen_dims(g, &o, s.big ? 0.6 : 0.04);
    is_seam[i] = g.chance(seam);
    o.set("seam", is_seam[i]).set("ctor", g.in(0, 1));
  }
  std::vector<Op> made;
  for (const Op& o : p->ops)
    if (o.name == "solver") made.push_back(o);
  for (int k = 0; k < nops; k++) {
    int slot = (int)g.in(0, nslots - 1);
    if (g.chance(optsp) || (k == 0 && g.chance(0.5))) {
      Op& o = p->add("opts");
      o.set("slot", slot);
      if (g.chance(0.75)) gen_opts(g, &o);
      else o.set("base", g.in(0, 2));
      if (limits && g.chance(0.6)) gen_limits(g, &o);
      if (g.chance(disp)) o.set("disp", 1 + g.in(0, 3));
      else o.set("disp", 1);
    }
    if (s.recreate && g.chance(0.15)) {
      Op o = made[slot];
      p->ops.push_back(o);
    }
    if (g.chance(0.05)) gen_env(g, p);
    bool nested = nests && g.chance(0.6);
    if (nested) {
      Op& o = p->add("nested");
      o.set("slot", (slot + g.in(1, nslots - 1)) % nslots).set("at", g.in(1, 1 << 12));
      gen_problem(g, &o, s, mix);
      gen_guess(g, &o, s);
      o.set("stream", g.chance(0.3));
      if (s.flav) gen_flavour(g, &o);
    }
    Op& o = p->add("solve");
    o.set("slot", slot);
    gen_problem(g, &o, s, mix);
    gen_guess(g, &o, s);
    o.set("stream", !nested && g.chance(0.4));
    o.set("buf", g.in(0, 2));
    if (s.flav) gen_flavour(g, &o);
    if (is_seam[slot] && s.newton && g.chance(0.6)) gen_newton_fault(g, &o, false);
    if (faults) gen_call_faults(g, &o, s);
    if (g.chance(resolve)) {
      Op& r = p->add("resolve");
      r.set("slot", slot).set("fresh", g.chance(0.4) && !is_seam[slot]).set("dropy", g.in(0, 2)).set("stream", g.in(0, 1));
    }
  }
}

// Schedule: bursts of several styles.
void gen_sched(Rng& g, Plan* p) {
  int n = (int)g.in(1, 160);
  int style = (int)g.in(0, rt::mem_points ? 13 : 8);
  int lo = g.chance(0.5) ? 8 : 63;
  for (int k = 0; k < n; k++) {
    rt::SchedEntry e;
    switch (style) {
      case 0: e.gap = g.in(1, 40); break;
      case 1: e.gap = (int64_t)g.logu(1, 20000); break;
      case 2: e.gap = g.in(200, 4000); break;
      case 3: e.gap = g.chance(0.9) ? g.in(1, 30) : g.in(1000, 30000); break;
      case 4: e.gap = -g.in(1, 4); break;
      case 5: e.gap = -g.in(1, 40); break;
      case 6: e.gap = -1000 - 64 * g.in(0, 3) - g.in(0, lo); break;  // a few steps into some later call
      case 7: e.gap = g.chance(0.7) ? -1000 - 64 * g.in(0, 12) - g.in(0, lo) : g.in(1, 60); break;
      case 9: case 10: case 11: e.gap = -1000000 * g.in(1, style == 9 ? 3 : style == 10 ? 12 : 60) - (int64_t)g.logu(30, 20000); break;
      case 12: e.gap = g.chance(0.5) ? -1000000 * g.in(1, 4) - 3000 : (int64_t)g.logu(1, 300); break;
      default: e.gap = g.chance(0.5) ? -g.in(1, 12) : (int64_t)g.logu(1, 5000);
    }
    e.pick = (int)g.in(0, 11);
    p->sched.push_back(e);
  }
}
void gen_threads(Rng& g, Plan* p) {
  no_huge = true;
  Swarm s = swarm(g);
  gen_env(g, p);
  int T = (int)g.in(2, 4);
  int64_t shared_seed = g.in(0, 1 << 20), shared_fam = gen_fam(g, "WWPDI");
  bool same_dims = g.chance(0.6);
  Op dims0;
  gen_dims(g, &dims0, 0.02);
  std::vector<Op> all;
  bool any_die = g.chance(0.35);
  for (int t = 0; t < T; t++) {
    int ns = g.chance(0.3) ? 2 : 1;
    for (int k = 0; k < ns; k++) {
      Op& o = p->add("solver");
      o.a = same_dims && g.chance(0.8) ? dims0.a : o.a;
      if (o.a.empty()) gen_dims(g, &o, 0.02);
      o.set("t", t).set("slot", k).set("ctor", g.in(0, 1));
      o.set("seam", g.chance(0.1));
    }
    int calls = (int)g.in(1, 3);
    for (int c = 0; c < calls; c++) {
      int slot = (int)g.in(0, ns - 1);
      int no = g.chance(0.5) ? 0 : g.chance(0.8) ? 1 : (int)g.in(2, 4);
      for (int q = 0; q < no; q++) {
        Op& o = p->add("opts");
        o.set("t", t).set("slot", slot);
        gen_opts(g, &o, 0.3);
        o.set("disp", g.chance(0.4) ? 1 : 1 + g.in(0, 3));
        if (g.chance(0.3)) gen_limits(g, &o);
      }
      Op& o = p->add("solve");
      o.set("t", t).set("slot", slot);
      gen_problem(g, &o, s, "WWPLIUDT");
      gen_guess(g, &o, s);
      o.set("stream", g.chance(0.3));
      if (s.flav) gen_flavour(g, &o);
      if (g.chance(0.4)) {
        o.set("share", 1).set("fam", shared_fam).set("pseed", shared_seed);
        o.a.erase("corrupt");
        o.a.erase("cwhere");
        o.set("sd", shared_seed & 3);
      }
      if (any_die && t > 0 && g.chance(0.3)) o.set("die", g.in(1, g.chance(0.5) ? 3000 : 60000));
    }
  }
  if (rt::mem_points) p->ops[0].set("mem", 1);
  gen_sched(g, p);
}
void gen_alloc(Rng& g, Plan* p) {  // C07
  Swarm s = swarm(g);
  gen_env(g, p);
  Op so;
  so.name = "solver";
  gen_dims(g, &so, s.big ? 0.3 : 0.02);
  bool seam = g.chance(0.3);
  so.set("seam", seam).set("ctor", g.in(0, 1));
  if (g.chance(0.4)) {
    int n = (int)g.in(1, 4);
    for (int k = 0; k < n; k++) {
      Op& c = p->add("construct");
      c.a = so.a;
      c.a.erase("seam");
      c.set("obj", g.in(0, 3)).set("af", 1 + g.in(0, 1 << 16)).set("afn", g.chance(0.7) ? 0 : g.in(0, 30));
    }
  }
  p->ops.push_back(so);
  int n = (int)g.in(2, 7);
  for (int k = 0; k < n; k++) {
    if (k == 0 || g.chance(0.3)) {
      Op& o = p->add("opts");
      gen_opts(g, &o, 0.2);
      o.set("disp", 1 + g.in(0, 3));
      if (g.chance(0.3)) gen_limits(g, &o);
    }
    Op& o = p->add("solve");
    gen_problem(g, &o, s, "WWWTPLIUDBX");
    gen_guess(g, &o, s);
    o.set("stream", g.chance(0.25)).set("buf", g.in(0, 2));
    if (s.flav) gen_flavour(g, &o);
    if (seam) {
      if (g.chance(0.6)) gen_newton_fault(g, &o, true);
    } else {
      if (g.chance(0.55)) o.set("af", 1 + g.in(0, 1 << 16)).set("afn", g.chance(0.7) ? 0 : g.in(0, 60));
      if (g.chance(0.35)) o.set("pt", 1 + g.in(0, 1 << 12)).set("ptk", g.in(0, 1));
      if (g.chance(0.1)) o.set("df", 1 + g.in(0, 30)).set("dfn", g.in(0, 5)).set("dfk", g.in(0, 1));
    }
  }
}
int64_t wild_code(Rng& g) {
  if (g.chance(0.35)) return 1000 + g.in(0, 9);
  return 400 + g.in(-80, 40);
}
void gen_options_prop(Rng& g, Plan* p) {  // C11
  Swarm s = swarm(g);
  s.corrupt = false;
  gen_env(g, p);
  char k[8];
  int n = (int)g.in(1, 6);
  for (int j = 0; j < n; j++) {
    Op& o = p->add("sanitize");
    o.set("base", g.in(0, 2));
    for (int i = 0; i < N_OPT_D; i++)
      if (g.chance(0.5)) {
        snprintf(k, sizeof k, "d%d", i);
        o.set(k, wild_code(g));
      }
    for (int i = 0; i < N_OPT_I; i++)
      if (g.chance(0.4)) {
        snprintf(k, sizeof k, "i%d", i);
        o.set(k, INT_OFF + (g.chance(0.3) ? g.in(-5, 3) : g.chance(0.5) ? g.in(-2147483648ll, 2147483647ll) : g.in(1, 500)));
      }
    o.set("cf", g.in(0, 2)).set("nm", g.in(0, 2)).set("disp", g.in(0, 4));
  }
  int slots = (int)g.in(1, 3);
  for (int i = 0; i < slots; i++) {
    Op& o = p->add("solver");
    o.set("slot", i);
    gen_dims(g, &o, 0.02);
    o.set("seam", g.chance(0.35)).set("ctor", g.in(0, 1));
  }
  n = (int)g.in(2, 7);
  for (int j = 0; j < n; j++) {
    int slot = (int)g.in(0, slots - 1);
    if (g.chance(0.75)) {
      Op& o = p->add("opts");
      o.set("slot", slot);
      double much = g.uni(0.1, 0.6);
      if (g.chance(0.35)) gen_opts(g, &o, much);
      else
        for (int i = 0; i < N_OPT_D; i++)
          if (g.chance(much)) {
            snprintf(k, sizeof k, "d%d", i);
            o.set(k, wild_code(g));
          }
      // Always bounded, possibly nonsensical, work.
      for (int i = 0; i < N_OPT_I; i++) {
        snprintf(k, sizeof k, "i%d", i);
        static const int cap[4] = {60, 30, 40, 60};
        if (g.chance(0.8)) o.set(k, INT_OFF + (g.chance(0.25) ? g.in(-40, 0) : g.in(1, cap[i])));
      }
      if (g.chance(0.5)) o.set("cf", 1 + g.in(0, 1));
      if (g.chance(0.5)) o.set("nm", 1 + g.in(0, 1));
      o.set("disp", 1 + g.in(0, 3));
    }
    Op& o = p->add("solve");
    o.set("slot", slot);
    gen_problem(g, &o, s, "WWWTPID");
    gen_guess(g, &o, s);
    o.set("stream", g.chance(0.2));
    gen_call_faults(g, &o, s);
  }
}
void gen_badsizes(Rng& g, Plan* p) {  // C18
  Swarm s = swarm(g);
  s.corrupt = false;
  gen_env(g, p);
  Op so;
  so.name = "solver";
  gen_dims(g, &so, 0.03, 0.6);
  so.set("ctor", g.in(0, 1));
  p->ops.push_back(so);
  if (g.chance(0.5)) {
    Op& o = p->add("opts");
    gen_opts(g, &o, 0.2);
    o.set("disp", 1 + g.in(0, 3));
  }
  int n = (int)g.in(2, 12);
  for (int k = 0; k < n; k++) {
    if (g.chance(0.25)) {
      Op& o = p->add("solve");
      gen_problem(g, &o, s, "WWTPD");
      gen_guess(g, &o, s);
      gen_flavour(g, &o);
      o.set("stream", g.in(0, 1));
      continue;
    }
    Op& o = p->add("badsolve");
    o.set("mode", g.chance(0.2) ? 0 : g.in(1, 4));
    o.set("fam", gen_fam(g, "WP")).set("pseed", g.in(0, 1 << 20)).set("gseed", g.in(0, 1 << 20));
    gen_flavour(g, &o);
    o.set("stream", g.in(0, 1)).set("buf", g.in(0, 2));
    if (o.get("mode") == 0) {
      o.set("ckind", g.in(0, 2));
      for (const char* a : {"a0", "a1", "a2", "a3"}) o.set(a, g.chance(0.4) ? g.in(-3, 1) : g.in(1, 6));
      if (g.chance(0.05)) o.set("a0", -2147483648ll);
    } else if (o.get("mode") >= 3) {
      Op t;
      gen_dims(g, &t, 0.02, so.get("kind") == MPC ? 1.0 : 0.0);
      for (const char* a : {"n1", "n2", "n3", "n4"}) o.set(a, g.chance(0.6) ? so.get(a) : t.get(a));
      if (g.chance(0.3)) {  // one dimension of four differs
        for (const char* a : {"n1", "n2", "n3", "n4"}) o.set(a, so.get(a));
        static const char* ax[4] = {"n1", "n2", "n3", "n4"};
        const char* a = ax[g.in(0, 3)];
        o.set(a, t.get(a));
      }
      o.set("vard", g.in(0, 1));
      if (o.get("mode") == 4) {
        double u = g.u01();
        int64_t one = 1ll << g.in(0, 11), m = g.in(0, 4095);
        o.set("mask", u < 0.4 ? one : u < 0.7 ? 4095 & ~one : m);
      }
    } else {
      o.set("field", g.in(0, 11)).set("axis", g.in(0, 3)).set("delta", g.in(0, 3));
      if (o.get("mode") == 2 && g.chance(0.4)) {
        o.set("field2", g.in(0, 11)).set("axis2", g.chance(0.5) ? o.get("axis") : g.in(0, 3)).set("delta2", g.chance(0.5) ? o.get("delta") : g.in(0, 3));
        if (g.chance(0.3)) o.set("field3", g.in(0, 11)).set("axis3", g.chance(0.5) ? o.get("axis") : g.in(0, 3)).set("delta3", g.chance(0.5) ? o.get("delta") : g.in(0, 3));
      }
    }
  }
}
}  // namespace

void gen_replica(Rng& g, Plan* p) {
  gen_env(g, p);
  Op& o = p->add("group");
  if (g.chance(0.02)) put_dims(&o, Dims::mpc((int)g.in(8, 40), (int)g.in(1, 3), (int)g.in(1, 2), (int)g.in(1, 4)));
  else if (g.chance(0.02)) put_dims(&o, Dims::mpc((int)g.in(1, 3), (int)g.in(4, 12), (int)g.in(1, 6), (int)g.in(1, 16)));
  else put_dims(&o, Dims::mpc((int)g.in(1, 7), (int)g.in(1, 4), (int)g.in(1, 3), (int)g.in(1, 6)));
  o.a.erase("kind");
  o.set("more", g.in(0, 2)).set("mask", g.in(0, 15)).set("ctor", g.in(0, 1)).set("flav", g.in(0, 11));
  o.set("cfg", g.chance(0.7)).set("base", g.in(0, 2)).set("at", g.chance(0.5) ? 0 : value_code(g.logu(1e-9, 1e-5)));
  int n = (int)g.in(2, 9);
  for (int k = 0; k < n; k++) {
    Op& e = p->add("entry");
    static const int fams[8] = {FAM_WELL, FAM_WELL, FAM_WELL, FAM_TIGHT, FAM_TIGHT, FAM_PINF, FAM_DINF, FAM_WELL};
    e.set("fam", fams[g.in(0, 7)]).set("pseed", g.in(0, 1 << 24));
    int m = (int)g.in(0, 2);
    for (int j = 0; j < m; j++) {
      double u = g.u01();
      if (u < 0.6) {
        Op& q = p->add("deliver");
        q.set("r", g.in(0, 3)).set("n", g.in(0, 3));
      } else if (u < 0.8) {
        Op& q = p->add("dup");
        q.set("r", g.in(0, 3)).set("back", g.in(0, 2));
      } else {
        Op& q = p->add("crash");
        q.set("r", g.in(0, 3)).set("disk", g.in(0, 3)).set("cut", g.in(0, 8)).set("ctor", g.in(0, 1));
      }
    }
  }
}
void gen_loop(Rng& g, Plan* p) {
  gen_env(g, p);
  Op& o = p->add("plant");
  o.set("pseed", g.in(0, 1 << 24)).set("nx", g.in(0, 3)).set("nu", g.in(0, 1)).set("N", g.in(1, 9));
  o.set("cfg", g.chance(0.6)).set("base", g.in(0, 2)).set("at", g.chance(0.5) ? 0 : value_code(g.logu(1e-9, 1e-6)));
  o.set("act", g.in(0, 1)).set("both", g.chance(0.3)).set("flav", g.in(0, 11)).set("ctor", g.in(0, 1));
  if (g.chance(0.5)) o.set("tgt", g.in(1, 1 << 16));
  double rate = g.chance(0.2) ? 0.02 : g.uni(0.05, 0.35);
  bool on[14];
  for (bool& b : on) b = g.chance(0.6);
  int n = (int)g.in(3, 30);
  for (int k = 0; k < n; k++) {
    if (g.chance(0.02)) p->add("run").set("n", g.in(5, 45));  // settle
    Op& t = p->add("tick");
    auto hit = [&](int i) { return on[i] && g.chance(rate); };
    if (hit(0)) t.set("mx", 1);
    if (hit(1)) t.set("cx", 1);
    if (hit(2)) t.set("md", g.in(1, 5));
    if (hit(3)) t.set("cd", g.in(1, 5));
    if (hit(4)) t.set("mu", g.in(1, 3));
    if (hit(5)) t.set("mc", g.in(1, 1 << 16));
    if (hit(6)) t.set("part", g.in(1, 8));
    if (hit(7)) t.set("crash", 1 + g.in(0, 3)).set("fail", g.in(0, 1));
    if (hit(8)) t.set("wr", g.in(1, 3));
    if (hit(9)) t.set("stall", 1);
    if (hit(10)) t.set("dist", g.in(1, 1 << 16));
    if (hit(11)) t.set("alien", 1 + g.in(0, 9));
    if (hit(12)) t.set("lim", g.in(1, 23));
    if (hit(13)) t.set("tgt", g.in(1, 1 << 16));
    if (t.has("wr") || t.has("alien")) t.set("cut", g.in(0, 1000));
  }
  p->add("recover").set("n", g.in(5, 45));
}
void gen_container(Rng& g, Plan* p) {
  no_huge = true;
  gen_env(g, p);
  int n = (int)g.in(5, 60);
  double af = g.chance(0.3) ? 0 : g.uni(0.05, 0.5);
  static const char* names[18] = {"new", "copy", "move", "assign", "massign", "del", "set", "get", "fill",
                                  "map", "mapseq", "mapcopy", "mapassign", "mapget", "poke", "data", "dclone", "dassign"};
  double w[19];
  for (double& x : w) x = g.chance(0.2) ? 0 : g.uni(0.2, 1);
  w[0] += 0.8;
  for (int k = 0; k < n; k++) {
    double tot = 0, u;
    for (double x : w) tot += x;
    u = g.uni(0, tot);
    int i = 0;
    while (i < 18 && u > w[i]) u -= w[i++];
    Op& o = p->add(i == 18 ? "dpoke" : names[i]);
    o.set("s", g.in(0, 3)).set("from", g.in(0, 3)).set("m", g.in(0, 3)).set("w", g.in(0, 2));
    if (i == 0) {
      o.set("len", g.chance(0.1) ? -g.in(1, 5) : g.in(0, 7));
      o.set("rows", g.chance(0.06) ? -g.in(1, 4) : g.in(0, 4)).set("cols", g.chance(0.06) ? -g.in(1, 4) : g.in(0, 4));
      o.set("plain", g.chance(0.08));
      if (g.chance(0.04)) o.set("big", g.in(1, 6));
    }
    if (i == 9) {
      o.set("len", g.chance(0.08) ? -g.in(1, 5) : g.in(0, 7));
      o.set("rows", g.chance(0.06) ? -g.in(1, 4) : g.in(0, 4)).set("cols", g.chance(0.06) ? -g.in(1, 4) : g.in(0, 4));
      o.set("b", g.in(0, 1)).set("null", g.chance(0.05));
    }
    if (i == 6 || i == 7 || i == 13) o.set("k", g.in(-1, 7)).set("i", g.in(0, 4)).set("j", g.in(0, 4));
    if (i == 14 || i == 18) o.set("b", g.in(0, 1)).set("k", g.in(0, 239));
    if (i == 15) {
      gen_dims(g, &o, 0.0);
      o.set("fam", gen_fam(g, "WP")).set("pseed", g.in(0, 1000));
    }
    if (g.chance(af) && (i <= 4 || (i >= 9 && i <= 12) || i >= 15))
      o.set("af", i >= 15 ? g.in(1, 16) : g.in(1, 3)).set("afn", g.chance(0.8) ? 0 : g.in(1, 3));
  }
}

// Histories over the components: C19 (operators), C21 (iterates, residuals,
// certificates), C14 (linear solvers used directly).
void gen_comp(Rng& g, Plan* p, const std::string& prop) {
  gen_env(g, p);
  int nd = (int)g.in(1, 3);
  bool twins = g.chance(0.5);  // data of equal sizes, so that objects can be relinked
  Op dims0;
  double big = g.chance(0.1) ? 0.8 : 0.02;
  gen_dims(g, &dims0, big);
  const bool lin = prop == "C14", cert = prop == "C03";
  for (int k = 0; k < nd; k++) {
    Op& o = p->add("cdata");
    if (twins) o.a = dims0.a;
    else gen_dims(g, &o, big);
    o.set("fam", gen_fam(g, cert ? "IUBEWPL" : prop == "C21" ? "WWPLIUDBXET" : lin ? "WWWTPLD" : "WWPLIUDXT")).set("pseed", g.in(0, 1 << 24));
    o.set("sd", g.in(0, 3));
  }
  int T = prop != "C14" && g.chance(0.4) ? (int)g.in(2, 4) : 1;
  double af = g.chance(0.5) ? 0 : g.uni(0.02, 0.3);
  double bad = g.chance(0.5) ? 0 : g.uni(0.02, 0.2);
  auto coefc = [&]() -> int64_t { return g.chance(0.7) ? g.in(0, 11) : g.in(12, 1 << 16); };
  auto maybe_af = [&](Op& o) {
    if (g.chance(af)) o.set("af", g.in(1, 4)).set("afn", g.chance(0.8) ? 0 : g.in(1, 3));
  };
  for (int t = 0; t < T; t++) {
    auto add = [&](const char* n) -> Op& {
      Op& o = p->add(n);
      o.set("t", t).set("d", g.in(0, nd - 1));
      maybe_af(o);
      return o;
    };
    if (prop == "C19") {
      int n = (int)g.in(2, T > 1 ? 8 : 25);
      for (int k = 0; k < n; k++) {
        Op& o = add("apply");
        o.set("k", g.in(0, 7)).set("a", coefc()).set("b", coefc());
        o.set("xseed", g.in(0, 1 << 20)).set("yseed", g.in(0, 1 << 20));
        if (g.chance(0.3)) o.set("xsc", g.in(-8, 8));
        if (g.chance(0.3)) o.set("ysc", g.in(-8, 8));
        o.set("ynan", g.in(0, 3)).set("norm", g.chance(0.2));
        if (g.chance(bad)) {
          if (g.chance(0.15)) o.set("null", 1);
          else if (g.chance(0.5)) o.set("xsz", g.chance(0.5) ? g.in(-4, -1) : g.in(1, 4));
          else o.set("ysz", g.chance(0.5) ? g.in(-4, -1) : g.in(1, 4));
        }
      }
      continue;
    }
    int nv = lin ? 3 : (int)g.in(2, 4), nr = lin ? 1 : (int)g.in(1, 2);
    auto scale = [&](Op& o) {
      if (g.chance(0.3)) o.set("sc", lin ? g.in(-4, 3) : g.in(-8, 6));
    };
    int64_t d0 = g.in(0, nd - 1);
    for (int k = 0; k < nv; k++) {
      add("cvar").set("i", k).set("d", g.chance(0.8) ? d0 : g.in(0, nd - 1)).set("nolink", g.chance(0.06));
      Op& o = add("vset");
      o.set("i", k).set("seed", g.in(0, 1 << 20)).set("raw", g.chance(0.25)).set("pos", g.chance(0.3));
      if (g.chance(0.3)) o.set("at", g.in(1, 4));
      scale(o);
    }
    for (int k = 0; k < nr && !cert; k++)
      add("cres").set("i", k).set("d", g.chance(0.9) ? d0 : g.in(0, nd - 1)).set("nolink", g.chance(0.06)).set("al", g.chance(0.3) ? 0 : g.in(1, 1000));
    if (!lin) add("cfeas").set("i", 0).set("d", d0).set("nolink", g.chance(0.06));
    if (lin) {
      add("clin").set("i", 0).set("d", d0).set("al", g.chance(0.4) ? 0 : g.in(1, 999));
      if (g.chance(0.3)) add("clin").set("i", 1).set("d", d0);
    }
    static const char* c21[19] = {"vset", "vfill", "vaxpy", "vaxpy", "vaxpy", "vcopy", "vproj", "vnorm", "vlink", "rinner", "rinner", "rnat",
                                  "rpen", "rneg", "rfill", "ralpha", "fcheck", "fcheck", "rlink"};
    static const char* c03[8] = {"vset", "vset", "vaxpy", "fcheck", "fcheck", "fcheck", "fcheck", "flink"};
    static const char* c14[12] = {"vset", "vaxpy", "vcopy", "vproj", "lfactor", "lfactor", "lfactor", "lsolve", "lsolve", "rset", "lalpha", "llink"};
    int n = (int)g.in(4, T > 1 ? 14 : 45);
    for (int k = 0; k < n; k++) {
      std::string nm = lin ? c14[g.in(0, 11)] : cert ? c03[g.in(0, 7)] : c21[g.in(0, 18)];
      if (nm == "rset" && g.chance(0.4)) nm = "rinner";
      if (nm == "rlink" && g.chance(0.3)) nm = "flink";
      if (!lin && g.chance(0.02)) nm = g.chance(0.5) ? "vdel" : "cvar";
      Op& o = add(nm.c_str());
      if (nm == "lfactor") {
        // factor, then solve: the pair is what matters
        o.set("i", g.chance(0.8) ? 0 : 1).set("x", g.in(0, 2)).set("xb", g.in(0, 2)).set("sg", g.in(0, g.chance(0.6) ? 28 : 44));
        int64_t i = o.get("i");
        if (g.chance(0.7)) {
          Op& r = add(g.chance(0.5) ? "rset" : "rinner");
          r.set("i", 0).set("seed", g.in(0, 1 << 20)).set("x", g.in(0, 2)).set("xb", g.in(0, 2)).set("sg", g.in(0, 20));
          scale(r);
        }
        int ns = (int)g.in(1, 2);
        for (int q = 0; q < ns; q++) add("lsolve").set("i", i).set("x", g.in(1, 2)).set("r", 0);
        continue;
      }
      o.set("i", nm[0] == 'v' ? g.in(0, nv - 1) : nm[0] == 'r' ? g.in(0, nr - 1) : 0).set("j", g.in(0, nv - 1));
      if (nm == "lsolve") o.set("x", g.in(1, 2));
      if (nm == "lalpha" || nm == "ralpha") o.set("al", g.chance(0.1) ? 1000 : g.in(1, 999));
      if (nm == "vset" || nm == "rset") {
        o.set("seed", g.in(0, 1 << 20)).set("raw", g.chance(0.2)).set("pos", g.chance(0.3));
        if (nm == "vset" && g.chance(0.35)) o.set("at", g.in(1, 4));
        scale(o);
      }
      if (nm == "vfill" || nm == "vaxpy" || nm == "rfill") o.set("a", coefc());
      if (nm[0] == 'r' || nm == "fcheck") o.set("x", g.in(0, nv - 1)).set("xb", g.in(0, nv - 1)).set("sg", g.in(-4, 40));
      if (nm == "fcheck") {
        o.set("tol", g.in(0, 20));
        if (g.chance(0.5)) o.set("near", g.in(1, 10)).set("side", g.in(0, 5));
        else if (g.chance(0.7)) o.set("most", g.in(1, 4));
      }
      if (nm == "cvar") o.set("d", d0);
    }
  }
  if (T > 1) gen_sched(g, p);
}

Plan generate(const std::string& prop, uint64_t seed, int64_t index) {
  no_huge = false;
  Plan p;
  p.prop = prop;
  p.seed = seed;
  p.index = index;
  uint64_t pr = 0;
  for (char c : prop) pr = pr * 131 + (unsigned char)c;
  Rng g(seed * 1000003ull + (uint64_t)index, pr);
  Swarm s = swarm(g);
  if (prop == "C01") {
    gen_history(g, &p, "WWTPLDXIUBE", s, 0.45, (int)g.in(2, 7), 0.15, 0.35, s.starve, true, 0.15);
  } else if (prop == "C02") {
    gen_history(g, &p, "WWTPLDXIUB", s, 0.4, (int)g.in(2, 7), 0.15, 0.5, true, true, 0.1);
  } else if (prop == "C03" && g.chance(0.25)) {
    gen_comp(g, &p, prop);
  } else if (prop == "C03") {
    gen_history(g, &p, "IIUUBEWTPLDX", s, 0.2, (int)g.in(2, 7), 0.1, 0.3, s.starve, s.stream, 0.1);
  } else if (prop == "C04") {
    gen_history(g, &p, "WWWTTIUBEPLDX", s, 0.4, (int)g.in(2, 8), 0.3, 0.3, s.starve, true, 0.1);
  } else if (prop == "C05") {
    no_huge = g.chance(0.004);
    gen_history(g, &p, "WWTPLDXIUBE", s, 0.0, no_huge ? (int)g.in(60, 300) : (int)g.in(2, 8), 0.3, 0.3, s.starve, true, 0.2, 0.25);
  } else if (prop == "C06") {
    gen_threads(g, &p);
  } else if (prop == "C07") {
    gen_alloc(g, &p);
  } else if (prop == "C08") {
    s.corrupt = false;
    gen_history(g, &p, "WWWTPLDX", s, 0.1, (int)g.in(2, 6), 0.2, 0.4, false, s.alloc, 0.8);
  } else if (prop == "C09") {
    s.flav = g.chance(0.85);
    gen_history(g, &p, "WWTPLDXIUB", s, 0.0, (int)g.in(2, 6), 0.9, 0.6, s.starve, false, 0.0);
    for (Op& o : p.ops)
      if (o.name == "solve" && o.get("stream") && s.dev && g.chance(0.6))
        o.set("df", 1 + g.in(0, 60)).set("dfn", g.in(0, 40)).set("dfk", g.in(0, 1));
  } else if (prop == "C10") {
    gen_history(g, &p, "WWTPLDXIUB", s, 0.15, (int)g.in(2, 7), 0.95, 0.6, true, s.stream, 0.0);
  } else if (prop == "C11") {
    gen_options_prop(g, &p);
  } else if (prop == "C12") {
    s.flav = g.chance(0.8);
    s.big = g.chance(0.2);
    gen_history(g, &p, "WWTPLDXIUBE", s, 0.15, (int)g.in(2, 7), 0.3, 0.3, s.starve, true, 0.1);
    if (g.chance(0.35)) {
      std::vector<Op> more;
      int n = (int)g.in(1, 4);
      Op dims;
      gen_dims(g, &dims, 0.05);
      for (int k = 0; k < n; k++) {
        Op c;
        c.name = "construct";
        c.a = dims.a;
        c.set("ctor", g.in(0, 1)).set("obj", g.in(0, 3)).set("af", 1 + g.in(0, 1 << 16)).set("afn", g.chance(0.7) ? 0 : g.in(0, 30));
        more.push_back(c);
      }
      p.ops.insert(p.ops.begin() + g.in(1, (int64_t)p.ops.size()), more.begin(), more.end());
    }
  } else if (prop == "C13") {
    gen_history(g, &p, "WWTPLDIU", s, 0.0, (int)g.in(2, 6), 0.85, 0.5, s.starve, false, 0.0);
    for (Op& o : p.ops)
      if (o.name == "solve") {
        if (g.chance(0.6)) o.set("ps", 1 + g.in(0, 200)).set("psms", g.chance(0.8) ? g.in(0, 5000) : (int64_t)g.logu(5e3, 5e9));
        if (s.clock && g.chance(0.7)) o.set("cj", 1 + g.in(0, 8)).set("cjs", g.in(-100000, 100000));
      }
  } else if (prop == "C19" || prop == "C21") {
    gen_comp(g, &p, prop);
  } else if (prop == "C14" && g.chance(0.3)) {
    gen_comp(g, &p, prop);
  } else if (prop == "C14") {
    gen_history(g, &p, "WWTPLDXIUE", s, 1.0, (int)g.in(2, 7), 0.05, 0.4, s.starve, false, 0.0);
  } else if (prop == "C15") {
    gen_replica(g, &p);
  } else if (prop == "C16") {
    gen_loop(g, &p);
  } else if (prop == "C17") {
    gen_container(g, &p);
  } else if (prop == "C18") {
    gen_badsizes(g, &p);
  }
  if (prop == "C01" || prop == "C02" || prop == "C08")
    for (Op& o : p.ops)
      if (o.name == "solve" && g.chance(prop == "C02" ? 0.05 : 0.15)) o.set("bord", g.chance(0.7) ? g.in(1, 12) : g.in(13, 20));
  if (prop == "C04" || prop == "C10" || prop == "C11")
    for (Op& o : p.ops)
      if (o.name == "solve" && g.chance(0.1)) o.set("bord", g.in(13, 20));
  static const char* lean[] = {"C05", "C06", "C07", "C09", "C10", "C12", "C13", "C18"};
  bool thin = false;
  for (const char* q : lean) thin = thin || prop == q;
  if (thin && g.chance(0.85)) {
    // These properties do not need long solves: more, shorter ones see more.
    int64_t cap = g.chance(0.5) ? g.in(8, 25) : g.in(20, 60);
    std::vector<Op> ops;
    for (Op& o : p.ops) {
      if (o.name == "opts" && !o.has("i0")) o.set("i0", INT_OFF + cap);
      if (o.name == "opts" && !o.has("i3") && g.chance(0.5)) o.set("i3", INT_OFF + g.in(4, 20));
      bool cold = o.name == "solver" && g.chance(0.8);
      ops.push_back(o);
      if (cold) {
        Op t;
        t.name = "opts";
        if (o.has("t")) t.set("t", o.get("t"));
        t.set("slot", o.get("slot")).set("i0", INT_OFF + cap).set("disp", 1 + (prop == "C09" || prop == "C10" || prop == "C13" ? g.in(1, 3) : g.in(0, 1)));
        ops.push_back(t);
      }
    }
    p.ops = ops;
  }
  return p;
}

void execute(const Plan& p) {
  rt::canary_seed = Rng::mix(p.seed * 31 + (uint64_t)p.index) | 1;
  if (p.prop == "C06") return run_threads_world(p);
  if (p.prop == "C15") return run_replica_world(p);
  if (p.prop == "C16") return run_loop_world(p);
  if (p.prop == "C17") return run_container_world(p);
  for (const Op& op : p.ops)
    if (op.name == "cdata") return run_comp_world(p);
  if (p.prop == "C19" || p.prop == "C21") return;
  Actor a;
  const std::string& q = p.prop;
  if (q == "C01") a.oracles = O_CERT;
  else if (q == "C02") a.oracles = O_REPORT;
  else if (q == "C03") a.oracles = O_INFEAS;
  else if (q == "C04") a.oracles = O_PROGRESS;
  else if (q == "C05") a.oracles = O_BITS;
  else if (q == "C07") a.oracles = O_ATOMIC | O_MEMORY;
  else if (q == "C08") a.oracles = O_FIXPOINT;
  else if (q == "C09") a.oracles = O_VARIANT;
  else if (q == "C10") a.oracles = O_LOG;
  else if (q == "C11") a.oracles = O_OPTIONS | O_BITS;
  else if (q == "C12") a.oracles = O_MEMORY;
  else if (q == "C13") a.oracles = O_TIME;
  else if (q == "C14") a.oracles = O_NEWTON;
  else if (q == "C18") a.oracles = O_BITS | O_REJECT;
  std::vector<Reply> alone;
  if (q == "C12") {
    // The same calls with other bytes around every block: what lies outside a
    // buffer must not show in any answer.
    std::string why;
    if (!run_alone(p.ops, a.tag_base, nullptr, false, 12345, &alone, &why)) rt::violate("crash", "%s", why.c_str());
    a.expect = &alone;
    a.expect_cls = "outside-read";
    a.expect_what = "same history with other guard bytes";
  }
  for (const Op& op : p.ops) a.run_op(op);
  a.finish();
}
