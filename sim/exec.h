// Plans, actors, references: what a simulated run is made of.
#pragma once
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "core.h"
#include "rng.h"
#include "rt.h"
#include "sut.h"

// One step of a plan: a name and named integers; an absent key means 0, and 0
// is always the simplest choice, so that shrinking is "drop keys, drop steps".
struct Op {
  std::string name;
  std::map<std::string, int64_t> a;
  int64_t get(const char* k, int64_t dflt = 0) const {
    auto it = a.find(k);
    return it == a.end() ? dflt : it->second;
  }
  bool has(const char* k) const { return a.count(k) > 0; }
  Op& set(const char* k, int64_t v) {
    if (v)
      a[k] = v;
    else
      a.erase(k);
    return *this;
  }
};
struct Plan {
  std::string prop;
  uint64_t seed = 0;
  int64_t index = 0;
  std::vector<Op> ops;
  std::vector<rt::SchedEntry> sched;
  std::string text() const;
  bool parse(const std::string& s);
  Op& add(const char* name) {
    ops.push_back(Op());
    ops.back().name = name;
    return ops.back();
  }
};

Plan generate(const std::string& prop, uint64_t seed, int64_t index);
void execute(const Plan& p);  // in a forked child; ends by returning or violate()

// ---- oracle selection -----------------------------------------------------------
enum OracleBit : uint32_t {
  O_CERT = 1, O_REPORT = 2, O_INFEAS = 4, O_PROGRESS = 8, O_BITS = 16, O_ATOMIC = 32,
  O_FIXPOINT = 64, O_VARIANT = 128, O_LOG = 256, O_OPTIONS = 512, O_MEMORY = 1024,
  O_TIME = 2048, O_NEWTON = 4096, O_REJECT = 8192
};

// ---- references --------------------------------------------------------------------
struct Request {
  Problem p;
  bool opts_set = false;
  Opts opts;
  Point guess;
  int store_d = OWNED, store_v = OWNED, stream = ST_CUSTOM;
  int ctor = 0;
};
struct Answer {
  bool died = false;
  Reply r;
  rt::OpCounts c;  // allocs, prints, clock_reads, dev_writes, steps, prints text
};
// Answers come from a fresh solver in a process forked from a pristine one.
void ref_start();
void ref_stop();
const Answer& ref_solve(const Request& q);  // cached per run
Answer run_request(const Request& q);       // in this process

// ---- options -------------------------------------------------------------------------
void apply_overrides(Opts* o, const Op& op);
Opts stock(int kind, int base);
Opts model_sanitize(const Opts& o);  // the documented ranges
double combo_tol(const Problem& p, const Opts& o);
double code_value(int64_t code);
int64_t value_code(double v);  // nearest quarter decade
constexpr int64_t INT_OFF = 100;
std::string opts_text(const Opts& o);

// ---- actors ---------------------------------------------------------------------------
struct NewtonFault {
  int kind = 0;  // 0 none 1 noise 2 zero 3 scale 4 NaN 5 factor fail 6 solve fail 7 Inf
  int at = 0;    // 1-based Newton step
  int n = 1;     // how many steps
  double mag = 1e-3;
  uint64_t seed = 0;
};
struct Slot {
  bool alive = false;
  bool seam = false;
  Dims d;
  int ctor = 0;
  SutSolver* s = nullptr;
  Seam* m = nullptr;
  int tag = 0;
  bool opts_set = false;
  Opts raw;   // as given last
  Opts eff;   // in force (model)
  bool stocklike = true;
  bool had_exception = false;
  bool had_infeasible = false;
  bool have_prev = false;
  int solves = 0;
  Point prev;
  // for warm restarts
  bool have_sol = false;
  Problem sol_p;
  Point sol_x;
  Out sol_out;
};
struct SolveRec {
  const Op* op = nullptr;
  Slot* slot = nullptr;
  Problem p;
  Opts eff;
  Point guess;
  Reply r;
  rt::OpCounts c;
  NewtonFault nf;
  int newton_calls = 0;    // seam only
  bool newton_faulted = false;
  int stream = 0;
  bool clean = true;       // no failing fault struck this call
  bool stock = false;      // shipped iteration budgets and tolerances
};

struct Actor {
  uint32_t oracles = 0;
  int tag_base = 1000;
  std::map<int, Slot> slots;
  std::map<int, Slot> parked;
  int next_tag = 0;
  std::vector<Op> pending;  // calls to be made from inside the next call's output stream
  std::vector<Reply>* record = nullptr;         // solo runs: what each call gave
  const std::vector<Reply>* expect = nullptr;   // threaded runs: what it must give
  size_t expect_pos = 0;
  std::map<std::string, SutData*>* shared = nullptr;
  bool no_ref = false;         // ask for no reference answers
  const char* expect_cls = "interference";
  const char* expect_what = "concurrent call";

  void run_op(const Op& op);
  void finish();

 private:
  bool leaks() const { return oracles & (O_MEMORY | O_ATOMIC | O_REJECT); }
  void op_solver(const Op& op);
  void op_opts(const Op& op);
  void op_solve(const Op& op);
  void op_destroy(int slot);
  void op_construct(const Op& op);
  void op_resolve(const Op& op);
  void op_sanitize(const Op& op);
  void op_badsolve(const Op& op);
  void op_variants(const Op& op);
  void check_solve(SolveRec& s);
  Slot& slot_for(const Op& op);
  Request request_for(const SolveRec& s, const Op& op);
  void call(SolveRec& s, const Op& op, const rt::OpFaults& f);
};
Problem problem_of(const Op& op, const Dims& d);
Point make_guess(const Op& op, const Dims& d, const Slot* s);
Dims dims_of(const Op& op);
void put_dims(Op* op, const Dims& d);
std::string share_key(const Op& op, const Dims& d);
NewtonFault newton_fault_of(const Op& op);

void oracle_cert(const SolveRec& s);
void oracle_report(const SolveRec& s);
void oracle_infeas(const SolveRec& s);
void oracle_progress(const SolveRec& s);
void oracle_log(const SolveRec& s);
void oracle_obeyed(const SolveRec& s);
void oracle_time(const SolveRec& s);
void compare_replies(const char* cls, const char* what, const Reply& got, const Reply& want);
void check_newton(const NewtonStep& s, double alpha, int step);
int64_t step_bound(const Dims& d, const Opts& o);
// Same call, fresh object, proximal limit lowered to k: gives outer iterate k.
bool prefix_iterate(const SolveRec& s, int k, Point* x, Out* out);
// Seam call with a fault script, on a given object.
void seam_call(Seam* m, const SolveRec& s, const SutData* d, SutVar* v, bool check_steps, bool obey,
               double alpha, Reply* r, int* calls, bool* faulted);
bool moderate(const Point& x, double lim);

// other worlds
bool run_alone(const std::vector<Op>& ops, int tag_base, std::map<std::string, SutData*>* shared, bool no_ref,
               uint64_t canary, std::vector<Reply>* out, std::string* why);
void run_threads_world(const Plan& p);    // C06
void run_replica_world(const Plan& p);    // C15
void run_loop_world(const Plan& p);       // C16
void run_container_world(const Plan& p);  // C17
void run_comp_world(const Plan& p);       // C19, C21, part of C14
void gen_replica(Rng& g, Plan* p);
void gen_loop(Rng& g, Plan* p);
void gen_container(Rng& g, Plan* p);
