// Reference answers: a fresh solver in a fresh copy of a process that has never
// run any code under test, with zeroed memory.
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>

#include "exec.h"

namespace {
struct W {
  std::string s;
  void raw(const void* p, size_t n) { s.append((const char*)p, n); }
  void i(int64_t v) { raw(&v, 8); }
  void d(double v) { raw(&v, 8); }
  void v(const Vec& x) {
    i((int64_t)x.size());
    if (!x.empty()) raw(x.data(), x.size() * 8);
  }
  void str(const std::string& x) {
    i((int64_t)x.size());
    raw(x.data(), x.size());
  }
};
struct Rd {
  const std::string& s;
  size_t p = 0;
  bool bad = false;
  explicit Rd(const std::string& x) : s(x) {}
  void raw(void* q, size_t n) {
    if (p + n > s.size()) {
      bad = true;
      memset(q, 0, n);
      return;
    }
    memcpy(q, s.data() + p, n);
    p += n;
  }
  int64_t i() {
    int64_t v;
    raw(&v, 8);
    return v;
  }
  double d() {
    double v;
    raw(&v, 8);
    return v;
  }
  Vec v() {
    int64_t n = i();
    Vec x;
    if (n < 0 || n > (1 << 26) || bad) {
      bad = true;
      return x;
    }
    x.resize(n);
    if (n) raw(x.data(), n * 8);
    return x;
  }
  std::string str() {
    int64_t n = i();
    std::string x;
    if (n < 0 || n > (1 << 26) || bad) {
      bad = true;
      return x;
    }
    x.resize(n);
    if (n) raw(&x[0], n);
    return x;
  }
};
void put(W& w, const Dims& d) { w.raw(&d, sizeof d); }
void put(W& w, const Point& x) {
  w.v(x.z);
  w.v(x.l);
  w.v(x.v);
  w.v(x.y);
}
Point get_point(Rd& r) {
  Point x;
  x.z = r.v();
  x.l = r.v();
  x.v = r.v();
  x.y = r.v();
  return x;
}
std::string pack(const Request& q) {
  W w;
  put(w, q.p.d);
  w.i(q.p.fam);
  for (const Vec& s : q.p.seq) w.v(s);
  w.v(q.p.x0);
  for (const Vec* m : {&q.p.H, &q.p.G, &q.p.A, &q.p.f, &q.p.h, &q.p.b}) w.v(*m);
  w.i(q.opts_set);
  w.raw(&q.opts, sizeof q.opts);
  put(w, q.guess);
  w.i(q.store_d);
  w.i(q.store_v);
  w.i(q.stream);
  w.i(q.ctor);
  return w.s;
}
Request unpack(const std::string& s) {
  Rd r(s);
  Request q;
  r.raw(&q.p.d, sizeof q.p.d);
  q.p.fam = (int)r.i();
  for (Vec& x : q.p.seq) x = r.v();
  q.p.x0 = r.v();
  for (Vec* m : {&q.p.H, &q.p.G, &q.p.A, &q.p.f, &q.p.h, &q.p.b}) *m = r.v();
  q.opts_set = r.i() != 0;
  r.raw(&q.opts, sizeof q.opts);
  q.guess = get_point(r);
  q.store_d = (int)r.i();
  q.store_v = (int)r.i();
  q.stream = (int)r.i();
  q.ctor = (int)r.i();
  return q;
}
std::string pack(const Answer& a) {
  W w;
  w.i(a.r.thrown);
  w.str(a.r.what);
  w.raw(&a.r.out, sizeof a.r.out);
  put(w, a.r.x);
  w.i(a.c.allocs);
  w.i(a.c.prints);
  w.i(a.c.clock_reads);
  w.i(a.c.dev_writes);
  w.i(a.c.steps);
  w.i((int64_t)a.c.prints_at.size());
  for (auto& p : a.c.prints_at) {
    w.i(p.first);
    w.str(p.second);
  }
  w.str(a.c.dev);
  return w.s;
}
bool unpack_answer(const std::string& s, Answer* a) {
  Rd r(s);
  a->r.thrown = (int)r.i();
  a->r.what = r.str();
  r.raw(&a->r.out, sizeof a->r.out);
  a->r.x = get_point(r);
  a->c.allocs = r.i();
  a->c.prints = r.i();
  a->c.clock_reads = r.i();
  a->c.dev_writes = r.i();
  a->c.steps = r.i();
  int64_t n = r.i();
  for (int64_t k = 0; k < n && !r.bad; k++) {
    int64_t t = r.i();
    std::string m = r.str();
    a->c.prints_at.push_back({t, m});
  }
  a->c.dev = r.str();
  return !r.bad;
}

bool rd_all(int fd, void* p, size_t n) {
  char* c = (char*)p;
  while (n) {
    ssize_t k = read(fd, c, n);
    if (k <= 0) return false;
    c += k;
    n -= k;
  }
  return true;
}
bool wr_all(int fd, const void* p, size_t n) {
  const char* c = (const char*)p;
  while (n) {
    ssize_t k = write(fd, c, n);
    if (k <= 0) return false;
    c += k;
    n -= k;
  }
  return true;
}
bool send_msg(int fd, const std::string& s) {
  uint64_t n = s.size();
  return wr_all(fd, &n, 8) && wr_all(fd, s.data(), n);
}
bool recv_msg(int fd, std::string* s) {
  uint64_t n;
  if (!rd_all(fd, &n, 8) || n > (1u << 28)) return false;
  s->resize(n);
  return n == 0 || rd_all(fd, &(*s)[0], n);
}

int sock = -1;
pid_t server_pid = -1;
std::map<std::string, Answer>* cache;

void serve(int fd) {
  signal(SIGPIPE, SIG_IGN);
  std::string q;
  while (recv_msg(fd, &q)) {
    int pp[2];
    if (pipe(pp)) _exit(4);
    pid_t pid = fork();
    if (pid == 0) {
      close(pp[0]);
      // Private result record: references leave no trace in the run's log.
      rt::R = new rt::RunResult();
      rt::cov = nullptr;
      rt::trace = false;
      rt::set_step_limit(5000000000ll);
      alarm(300);
      Answer a = run_request(unpack(q));
      send_msg(pp[1], pack(a));
      _exit(0);
    }
    close(pp[1]);
    std::string ans;
    bool ok = pid > 0 && recv_msg(pp[0], &ans);
    close(pp[0]);
    int st;
    if (pid > 0) waitpid(pid, &st, 0);
    if (!send_msg(fd, ok ? ans : std::string())) break;
  }
  _exit(0);
}
}  // namespace

void ref_start() {
  int sv[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) _exit(4);
  server_pid = fork();
  if (server_pid == 0) {
    close(sv[0]);
    serve(sv[1]);
  }
  close(sv[1]);
  sock = sv[0];
  signal(SIGPIPE, SIG_IGN);
}
void ref_stop() {
  if (sock >= 0) close(sock);
  sock = -1;
  if (server_pid > 0) {
    kill(server_pid, SIGKILL);
    int st;
    waitpid(server_pid, &st, 0);
  }
  server_pid = -1;
}

Answer run_request(const Request& q) {
  Answer a;
  rt::garbage_pattern = rt::G_ZERO;
  rt::align_jitter = 0;
  rt::device_config(1);
  SutSolver* s = nullptr;
  a.r.x = q.guess;
  a.r.thrown = sut_new_solver(q.p.d, q.ctor, 500, &s, &a.r.what);
  if (a.r.thrown) return a;
  if (q.opts_set) {
    a.r.thrown = sut_update_options(s, q.opts, &a.r.what);
    if (a.r.thrown) return a;
  }
  SutData* d = nullptr;
  SutVar* v = nullptr;
  if (sut_make_data(q.p, q.store_d, 501, {}, &d, &a.r.what) ||
      sut_make_var(q.p.d, q.store_v, 501, q.guess, nullptr, &v, &a.r.what)) {
    a.died = true;
    return a;
  }
  rt::op_begin(rt::OpFaults());
  sut_solve(s, d, v, q.stream, &a.r);
  rt::device_flush();
  rt::op_end();
  a.c = rt::cur->c;
  return a;
}

const Answer& ref_solve(const Request& q) {
  if (!cache) cache = new std::map<std::string, Answer>();
  std::string key = pack(q);
  auto it = cache->find(key);
  if (it != cache->end()) return it->second;
  Answer a;
  std::string ans;
  a.died = true;
  if (sock >= 0 && send_msg(sock, key) && recv_msg(sock, &ans) && !ans.empty()) {
    a.died = !unpack_answer(ans, &a);
  }
  if (a.died) rt::violate("no-answer", "a fresh solver given this problem crashed or never returned");
  return (*cache)[key] = a;
}
