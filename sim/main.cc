// Command line of the simulator.
//   sim work PROP SEED FIRST STRIDE COUNT SECONDS OUT   explore; OUT.json, OUT.hash, OUT.cov, OUT.viol*
//   sim replay FILE [-v]                                run one plan, print what happened
//   sim shrink FILE OUT SECONDS                         minimise a violating plan
//   sim gen PROP SEED INDEX                             print a plan
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <set>
#include <sstream>

#include "exec.h"

using rt::R;
using rt::RunResult;

static bool verbose;
static bool ref_up;

static void run_child(const Plan& p) {
  int nul = open("/dev/null", O_WRONLY);
  if (!verbose) dup2(nul, 2);
  rt::trace = verbose;
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  alarm(400);  // step limits find endless loops long before
  execute(p);
  R->steps = rt::steps_total();
  R->sim_ns = rt::mono_now();
  R->done = 1;
  _exit(0);
}
// Runs one plan in a forked copy of this (pristine) process.
static RunResult run_plan(const Plan& p) {
  if (!ref_up) {
    ref_start();
    ref_up = true;
  }
  memset(R, 0, sizeof *R);
  pid_t pid = fork();
  if (pid == 0) run_child(p);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (WIFSIGNALED(st) || !R->done) {
    ref_stop();
    ref_up = false;
    R->violated = 1;
    char m[sizeof R->msg];
    snprintf(m, sizeof m, "process ended by %s %d during operation %d",
             WIFSIGNALED(st) ? "signal" : "exit code", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), R->cur_op);
    snprintf(R->msg, sizeof R->msg, "%s", m);
    snprintf(R->cls, sizeof R->cls, "%s", WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "hang" : "crash");
    R->hash = 1;
  } else if (R->violated && !strcmp(R->cls, "no-answer")) {
    ref_stop();
    ref_up = false;
  }
  return *R;
}

static std::string esc(const char* s) {
  std::string o;
  for (; *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') o += '\\', o += (char)c;
    else if (c < 32 || c > 126) o += ' ';
    else o += (char)c;
  }
  return o;
}
static bool read_plan(const char* path, Plan* p) {
  std::ifstream in(path);
  if (!in) return false;
  std::stringstream ss;
  ss << in.rdbuf();
  return p->parse(ss.str());
}
static void write_plan(const std::string& path, const Plan& p, const RunResult& r) {
  std::ofstream o(path);
  o << "# violated: " << r.cls << "\n# " << esc(r.msg) << "\n# event-log hash " << std::hex << r.hash << std::dec << "\n"
    << p.text();
}

// ---- minimisation ---------------------------------------------------------------
struct Shrinker {
  Plan best;
  std::string cls;
  double until;
  int tries = 0;
  RunResult last;
  bool ok(const Plan& p) {
    if (rt::real_seconds() > until) return false;
    tries++;
    RunResult r = run_plan(p);
    if (r.violated && cls == r.cls) {
      best = p;
      last = r;
      return true;
    }
    return false;
  }
  template <class F>
  bool chunks(size_t n, F drop) {  // drop(plan, from, to)
    bool any = false;
    for (size_t len = n; len >= 1; len /= 2) {
      size_t i = 0;
      while (true) {
        size_t m = size(), to = std::min(i + len, m);
        if (i >= m) break;
        Plan q = best;
        drop(&q, i, to);
        if (ok(q)) any = true;
        else i += len;
        if (rt::real_seconds() > until) return any;
      }
      if (len == 1) break;
    }
    return any;
  }
  int what = 0;
  size_t size() const { return what == 0 ? best.ops.size() : best.sched.size(); }
  void run() {
    for (int round = 0; round < 6; round++) {
      bool any = false;
      what = 0;
      any |= chunks(best.ops.size(), [](Plan* p, size_t a, size_t b) { p->ops.erase(p->ops.begin() + a, p->ops.begin() + b); });
      what = 1;
      any |= chunks(best.sched.size(), [](Plan* p, size_t a, size_t b) { p->sched.erase(p->sched.begin() + a, p->sched.begin() + b); });
      for (size_t i = 0; i < best.ops.size(); i++) {
        std::vector<std::string> keys;
        for (auto& kv : best.ops[i].a) keys.push_back(kv.first);
        for (auto& k : keys) {
          Plan q = best;
          q.ops[i].a.erase(k);
          if (ok(q)) {
            any = true;
            continue;
          }
          for (int t = 0; t < 12; t++) {
            int64_t v = best.ops[i].get(k.c_str());
            if (v <= 1 && v >= -1) break;
            q = best;
            q.ops[i].set(k.c_str(), v / 2);
            if (!ok(q)) break;
            any = true;
          }
          if (rt::real_seconds() > until) return;
        }
      }
      if (!any) break;
    }
  }
};

static void print_result(const RunResult& r) {
  dprintf(1, "{\"violated\": %d, \"cls\": \"%s\", \"msg\": \"%s\", \"hash\": \"%016llx\", \"steps\": %lld, \"solves\": %lld}\n",
          r.violated, esc(r.cls).c_str(), esc(r.msg).c_str(), (unsigned long long)r.hash, (long long)r.steps,
          (long long)r.solves);
}

int main(int argc, char** argv) {
  int pers = personality(0xffffffff);
  if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) {
      setenv("SIM_NO_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  if (argc < 3) return 2;
  std::string mode = argv[1];
  rt::init_process();
  sut_init();
  stock(DENSE, 0);
  if (mode == "gen" && argc >= 5) {
    Plan p = generate(argv[2], strtoull(argv[3], 0, 10), atoll(argv[4]));
    std::string t = p.text();
    dprintf(1, "%s", t.c_str());
    return 0;
  }
  if (mode == "replay") {
    Plan p;
    if (!read_plan(argv[2], &p)) {
      dprintf(2, "cannot read %s\n", argv[2]);
      return 2;
    }
    verbose = argc > 3 && !strcmp(argv[3], "-v");
    RunResult r = run_plan(p);
    print_result(r);
    if (verbose) {
      for (int i = 0; i < rt::F_COUNT; i++)
        if (r.fired[i]) dprintf(2, "fault %s %lld\n", rt::fault_names[i], (long long)r.fired[i]);
      for (int i = 0; i < rt::P_COUNT; i++)
        if (r.probe[i]) dprintf(2, "probe %s %lld\n", rt::probe_names[i], (long long)r.probe[i]);
      for (int i = 0; i < 8; i++) dprintf(2, "metric %d %g\n", i, r.metric[i]);
    }
    ref_stop();
    return r.violated ? 1 : 0;
  }
  if (mode == "shrink" && argc >= 5) {
    Plan p;
    if (!read_plan(argv[2], &p)) return 2;
    Shrinker s;
    s.until = rt::real_seconds() + atof(argv[4]);
    s.last = run_plan(p);
    if (!s.last.violated) {
      dprintf(1, "{\"violated\": 0}\n");
      ref_stop();
      return 0;
    }
    s.cls = s.last.cls;
    s.best = p;
    s.run();
    write_plan(argv[3], s.best, s.last);
    print_result(s.last);
    ref_stop();
    return 1;
  }
  if (mode != "work" || argc < 9) return 2;
  std::string prop = argv[2], out = argv[8];
  uint64_t seed = strtoull(argv[3], 0, 10);
  int64_t first = atoll(argv[4]), stride = atoll(argv[5]), count = atoll(argv[6]);
  double until = rt::real_seconds() + atof(argv[7]);
  int64_t fired[rt::F_COUNT] = {}, probe[rt::P_COUNT] = {}, frun[rt::F_COUNT] = {};
  double metric[8] = {};
  int64_t mindex[8] = {};
  int64_t runs = 0, steps = 0, ops = 0, solves = 0, switches = 0, nontrivial = 0, dup_checked = 0, dup_bad = 0;
  double sim_s = 0;
  std::set<uint64_t> states, scheds;
  std::set<std::string> seen;
  std::string viol = "";
  int nviol = 0;
  int64_t bad_index = -1;
  for (int64_t k = 0; k < count && rt::real_seconds() < until; k++) {
    int64_t index = first + k * stride;
    Plan p = generate(prop, seed, index);
    RunResult r = run_plan(p);
    runs++;
    if (k % 32 == 0 || r.violated) {
      RunResult r2 = run_plan(p);
      dup_checked++;
      if (r2.hash != r.hash || r2.violated != r.violated || strcmp(r2.cls, r.cls)) {
        dup_bad++;
        bad_index = index;
      }
    }
    int64_t nf = 0;
    for (int i = 0; i < rt::F_COUNT; i++) {
      fired[i] += r.fired[i];
      frun[i] += r.fired[i] > 0;
      nf += r.fired[i];
    }
    for (int i = 0; i < rt::P_COUNT; i++) probe[i] += r.probe[i];
    for (int i = 0; i < 8; i++)
      if (r.metric[i] > metric[i]) metric[i] = r.metric[i], mindex[i] = index;
    steps += r.steps;
    ops += r.ops;
    solves += r.solves;
    switches += r.switches;
    sim_s += r.sim_ns * 1e-9;
    if ((r.solves >= 1 || prop == "C14" || prop == "C17" || prop == "C18" || prop == "C11" || prop == "C19" || prop == "C21") && (nf > 0 || r.ops >= 3)) {
      nontrivial++;
      uint64_t h = r.state_hash * 0x9e3779b97f4a7c15ull ^ r.sched_hash;
      states.insert(h);
      if (r.switches) scheds.insert(r.sched_hash);
    }
    if (r.violated) {
      if (getenv("SIM_KEEP_GOING") ? nviol < 60 : (seen.insert(r.cls).second && seen.size() <= 4)) {
        std::string path = out + ".viol" + std::to_string(nviol++);
        write_plan(path, p, r);
        if (!viol.empty()) viol += ", ";
        viol += "{\"cls\": \"" + esc(r.cls) + "\", \"msg\": \"" + esc(r.msg) + "\", \"index\": " + std::to_string(index) +
                ", \"path\": \"" + path + "\"}";
        if (!getenv("SIM_KEEP_GOING")) break;
      }
    }
  }
  ref_stop();
  {
    std::ofstream o(out + ".hash", std::ios::binary);
    for (uint64_t h : states) o.write((const char*)&h, 8);
  }
  {
    std::ofstream o(out + ".cov", std::ios::binary);
    o.write((const char*)rt::cov, rt::COV_SIZE);
  }
  std::ofstream o(out + ".json");
  o << "{\"runs\": " << runs << ", \"steps\": " << steps << ", \"ops\": " << ops << ", \"solves\": " << solves
    << ", \"switches\": " << switches << ", \"sim_seconds\": " << sim_s << ", \"nontrivial\": " << nontrivial
    << ", \"schedules\": " << scheds.size() << ", \"repeat_checked\": " << dup_checked << ", \"repeat_differed\": " << dup_bad
    << ", \"repeat_bad_index\": " << bad_index << ",\n \"faults\": {";
  for (int i = 0; i < rt::F_COUNT; i++) o << (i ? ", " : "") << "\"" << rt::fault_names[i] << "\": " << fired[i];
  o << "},\n \"fault_runs\": {";
  for (int i = 0; i < rt::F_COUNT; i++) o << (i ? ", " : "") << "\"" << rt::fault_names[i] << "\": " << frun[i];
  o << "},\n \"probes\": {";
  for (int i = 0; i < rt::P_COUNT; i++) o << (i ? ", " : "") << "\"" << rt::probe_names[i] << "\": " << probe[i];
  o << "},\n \"metrics\": [";
  for (int i = 0; i < 8; i++) o << (i ? ", " : "") << "[" << metric[i] << ", " << mindex[i] << "]";
  o << "],\n \"violations\": [" << viol << "]}\n";
  return 0;
}
