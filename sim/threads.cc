// C06: several callers at once, each compared with the same calls made alone.
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

#include "exec.h"

using rt::violate;

namespace {
void put(std::string* s, const void* p, size_t n) { s->append((const char*)p, n); }
void put_vec(std::string* s, const Vec& v) {
  uint64_t n = v.size();
  put(s, &n, 8);
  if (n) put(s, v.data(), n * 8);
}
struct Cursor {
  const std::string& s;
  size_t p = 0;
  bool ok = true;
  void get(void* q, size_t n) {
    if (p + n > s.size()) {
      ok = false;
      memset(q, 0, n);
      return;
    }
    memcpy(q, s.data() + p, n);
    p += n;
  }
  void vec(Vec* v) {
    uint64_t n;
    get(&n, 8);
    if (!ok || n > (1u << 24)) {
      ok = false;
      return;
    }
    v->resize(n);
    if (n) get(v->data(), n * 8);
  }
};

}  // namespace

// What one caller gets with nobody else around, in a forked copy of this process.
bool run_alone(const std::vector<Op>& ops, int tag_base, std::map<std::string, SutData*>* shared, bool no_ref,
               uint64_t canary, std::vector<Reply>* out, std::string* why) {
  int pp[2];
  if (pipe(pp)) _exit(4);
  pid_t pid = fork();
  if (pid == 0) {
    close(pp[0]);
    rt::R = new rt::RunResult();
    rt::cov = nullptr;
    rt::trace = false;
    std::vector<Reply> rec;
    rt::canary_seed = canary;
    Actor a;
    a.no_ref = no_ref;
    a.tag_base = tag_base;
    a.record = &rec;
    a.shared = shared;
    for (const Op& op : ops) a.run_op(op);
    std::string s;
    for (const Reply& r : rec) {
      put(&s, &r.thrown, sizeof r.thrown);
      uint64_t n = r.what.size();
      put(&s, &n, 8);
      put(&s, r.what.data(), n);
      n = r.text.size();
      put(&s, &n, 8);
      put(&s, r.text.data(), n);
      put(&s, &r.out, sizeof r.out);
      for (const Vec* v : {&r.x.z, &r.x.l, &r.x.v, &r.x.y}) put_vec(&s, *v);
    }
    s += "done";
    size_t at = 0;
    while (at < s.size()) {
      ssize_t k = write(pp[1], s.data() + at, s.size() - at);
      if (k <= 0) _exit(5);
      at += k;
    }
    _exit(0);
  }
  close(pp[1]);
  std::string s;
  char buf[65536];
  ssize_t k;
  while ((k = read(pp[0], buf, sizeof buf)) > 0) s.append(buf, k);
  close(pp[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (s.size() < 4 || s.compare(s.size() - 4, 4, "done")) {
    *why = WIFSIGNALED(st) ? std::string("killed by signal ") + std::to_string(WTERMSIG(st)) : "stopped early";
    return false;
  }
  s.resize(s.size() - 4);
  Cursor c{s};
  while (c.p < s.size() && c.ok) {
    Reply r;
    c.get(&r.thrown, sizeof r.thrown);
    uint64_t n;
    c.get(&n, 8);
    if (!c.ok || n > s.size()) return false;
    r.what.resize(n);
    if (n) c.get(&r.what[0], n);
    c.get(&n, 8);
    if (!c.ok || n > s.size()) return false;
    r.text.resize(n);
    if (n) c.get(&r.text[0], n);
    c.get(&r.out, sizeof r.out);
    for (Vec* v : {&r.x.z, &r.x.l, &r.x.v, &r.x.y}) c.vec(v);
    out->push_back(r);
  }
  return c.ok;
}

void run_threads_world(const Plan& p) {
  int T = 0;
  for (const Op& op : p.ops)
    if (op.name != "env") T = std::max(T, 1 + (int)(op.get("t") & 7));
  if (T == 0) return;
  std::vector<std::vector<Op>> ops(T);
  std::map<std::string, SutData*> shared;
  std::map<std::pair<int, int>, Dims> dims;
  bool kills[8] = {};
  for (const Op& op : p.ops) {
    if (op.name == "env") {
      Actor a;
      a.run_op(op);
      continue;
    }
    int t = (int)(op.get("t") & 7);
    ops[t].push_back(op);
    if (op.name == "solver") dims[{t, (int)op.get("slot")}] = dims_of(op);
    if (op.name == "solve" && op.get("die")) kills[t] = true;
    if (op.name == "solve" && op.get("share")) {
      auto it = dims.find({t, (int)op.get("slot")});
      if (it == dims.end()) continue;
      std::string key = share_key(op, it->second);
      if (shared.count(key)) continue;
      Problem q = problem_of(op, it->second);
      static const int stores[4] = {OWNED, MAPPED, MAPPED_GUARD, MAPPED_SEQ};
      int sd = stores[op.get("sd") & 3];
      if (sd == MAPPED_SEQ && q.d.kind == DENSE) sd = MAPPED;
      SutData* d = nullptr;
      std::string what;
      if (sut_make_data(q, sd, 800, {}, &d, &what)) violate("container-failed", "shared data: %s", what.c_str());
      shared[key] = d;
    }
  }
  std::vector<std::vector<Reply>> alone(T);
  for (int t = 0; t < T; t++) {
    std::string why;
    if (!run_alone(ops[t], 1000 * (t + 1), &shared, true, rt::canary_seed, &alone[t], &why))
      violate("solo-failed", "the calls of thread %d made alone: %s", t, why.c_str());
  }
  std::vector<Vec> bits;
  for (auto& s : shared) {
    Vec b;
    sut_data_bits(s.second, &b);
    bits.push_back(b);
  }
  std::vector<Actor> actors(T);
  std::vector<std::function<void()>> bodies;
  std::vector<int> ended(T, 0);
  for (int t = 0; t < T; t++) {
    actors[t].no_ref = true;
    actors[t].tag_base = 1000 * (t + 1);
    actors[t].expect = &alone[t];
    actors[t].shared = &shared;
    bodies.push_back([&, t] {
      for (const Op& op : ops[t]) {
        actors[t].run_op(op);
        rt::yield_point();
      }
      std::vector<int> ids;
      for (auto& s : actors[t].slots) ids.push_back(s.first);
      for (int i : ids) {
        Op d;
        d.name = "destroy";
        d.set("slot", i);
        actors[t].run_op(d);
      }
      ended[t] = 1;
    });
  }
  rt::hang_cls = "hang";
  rt::run_threads(bodies, p.sched);
  for (int t = 0; t < T; t++) {
    if (!ended[t]) {
      if (!kills[t]) violate("starved", "thread %d never finished", t);
      continue;
    }
    if (actors[t].expect_pos != alone[t].size())
      violate("interference", "thread %d made %zu calls, alone it makes %zu", t, actors[t].expect_pos, alone[t].size());
  }
  size_t k = 0;
  for (auto& s : shared) {
    Vec b;
    sut_data_bits(s.second, &b);
    if (b.size() != bits[k].size() || (b.size() && memcmp(b.data(), bits[k].data(), b.size() * 8)))
      violate("data-modified", "shared problem data changed");
    k++;
    sut_delete_data(s.second);
  }
  rt::heap_check("at the end");
}
