// Simulator runtime: everything nondeterministic that code under test can
// touch goes through here: the allocator, the clocks, the output device, lock
// acquisition, and which thread runs next (decided at basic-block granularity).
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace rt {

// Fault kinds, counted when they actually fire.
#define FAULTS(X)                                                           \
  X(ALLOC_FAIL) X(STREAM_THROW) X(STREAM_STALL) X(WALL_JUMP) X(DEVICE_ERROR) \
  X(DEVICE_SHORT_WRITE) X(PREEMPTION) X(THREAD_DEATH) X(HEAP_GARBAGE)        \
  X(RECYCLED_MEMORY) X(CORRUPT_DATA) X(CORRUPT_GUESS) X(BUDGET_STARVED)      \
  X(NEWTON_PERTURBED) X(NEWTON_NONFINITE) X(NEWTON_ZEROED) X(NEWTON_SCALED)  \
  X(FACTOR_FAILURE) X(SOLVE_FAILURE) X(NET_DROP) X(NET_DUPLICATE)            \
  X(NET_DELAY) X(NET_REORDER) X(NET_PARTITION) X(NODE_CRASH)                 \
  X(DISK_TORN) X(DISK_STALE) X(DISK_LOST) X(MSG_CORRUPT) X(DISTURBANCE)      \
  X(BAD_DIMENSIONS) X(BAD_OPTIONS) X(SOLVER_RECREATED) X(LOCK_CONTENTION)    \
  X(STALLED_NODE) X(FOREIGN_SOLVE) X(DERATED) X(NESTED_CALL)
enum FaultKind {
#define X(n) F_##n,
  FAULTS(X)
#undef X
      F_COUNT
};
extern const char* const fault_names[F_COUNT];

// Probes: conditions worth knowing that they were reached.
#define PROBES(X)                                                             \
  X(SUCCESS) X(MAXITER) X(PRIMAL_INFEASIBLE) X(DUAL_INFEASIBLE)               \
  X(PRIMAL_DUAL_INFEASIBLE) X(EXC_BAD_ALLOC) X(EXC_RUNTIME) X(EXC_STREAM)     \
  X(EXC_OTHER) X(STALL_EXIT) X(ACTIVE_CONSTRAINT) X(ZERO_ITERATION_SUCCESS)   \
  X(SOLVE_AFTER_EXCEPTION) X(SOLVE_AFTER_INFEASIBLE) X(SUCCESS_AFTER_NEWTON_FAULT) \
  X(NONFINITE_INPUT) X(BITS_COMPARED) X(KKT_CHECKED) X(CERTIFICATE_CHECKED)   \
  X(RESIDUAL_CHECKED) X(PREFIX_CHECKED) X(REPLICAS_AGREED) X(REGULATED)       \
  X(NEWTON_SYSTEM_CHECKED) X(LOG_CHECKED) X(CONTAINER_AFTER_FAILURE)          \
  X(TIME_CHECKED) X(SWITCH_INSIDE_SOLVE) X(FIXPOINT_CHECKED) X(LARGE_BLOCKED) \
  X(REJECTED_INPUT) X(OPTIONS_CHECKED) X(OBEYED_CHECKED) X(STATIC_ACCESS) X(LEAK_CHECKED) X(PROGRESS_CHECKED)    \
  X(MAXITER_BY_PROX) X(MAXITER_BY_NEWTON) X(WELLPOSED_FROM_HOSTILE_GUESS)     \
  X(CERTIFIED_STEP) X(UNTORN_CHECKED) X(OPERATOR_CHECKED) X(MARGIN_CHECKED)
enum Probe {
#define X(n) P_##n,
  PROBES(X)
#undef X
      P_COUNT
};
extern const char* const probe_names[P_COUNT];

// Result of one simulated run, in memory shared with the parent process.
struct RunResult {
  int done;
  int violated;
  int cur_task, cur_op;
  char cls[64];
  char msg[1024];
  uint64_t hash;        // event-log hash
  uint64_t sched_hash;  // hash of (task, code address) at every switch
  uint64_t state_hash;  // hash of the abstract op/outcome/fault sequence
  int64_t steps;        // basic blocks of code under test executed
  int64_t sim_ns;       // simulated time covered
  int64_t ops, solves, evals;
  int64_t switches;
  int64_t fired[F_COUNT];
  int64_t probe[P_COUNT];
  double metric[8];  // calibration: worst ratios seen
};
extern RunResult* R;
extern uint8_t* cov;  // shared map of basic blocks reached
constexpr int COV_SIZE = 1 << 16;
extern bool trace;  // print event lines to stderr

// ---- per-op fault plan and counters ---------------------------------------
struct OpFaults {
  int64_t alloc_fail_at = 0;   // 1-based index of the first failing allocation
  int64_t alloc_fail_n = 1;    // how many consecutive allocations fail
  int64_t print_throw_at = 0;  // 1-based Print call that throws
  int print_throw_kind = 0;    // 0 std::exception, 1 int
  int64_t print_stall_at = 0;  // Print call that blocks for print_stall_ns
  int64_t print_stall_ns = 0;
  int64_t clock_jump_at = 0;  // clock read before which the wall clock jumps
  int64_t clock_jump_ns = 0;
  int64_t stdout_fail_at = 0;  // device write that fails
  int64_t stdout_fail_n = 0;
  int stdout_fail_kind = 0;  // 0 EIO, 1 short write
  int64_t nest_at = 0;       // Print call from inside which Task::nest is run
  int64_t die_at_step = 0;   // thread never runs again after this many steps
};
struct OpCounts {
  int64_t allocs = 0, prints = 0, clock_reads = 0, steps = 0, dev_writes = 0;
  int64_t t_enter = 0, t_leave = 0;  // monotonic ns at entry and return
  bool alloc_failed = false, stream_threw = false, dev_failed = false;
  std::vector<std::pair<int64_t, std::string>> prints_at;  // time, text
  std::string dev;  // what reached the simulated stdout device
};

enum Status { ST_READY, ST_DEAD, ST_DONE };

struct Task {
  int id = 0;
  int status = ST_READY;
  bool in_zone = false;
  int hot = 0;  // memory accesses that still count after one to static storage
  OpFaults f;
  OpCounts c;
  int owner = 0;  // ledger tag for allocations
  int futex_word = 0;
  const std::function<void()>* nest = nullptr;  // what the caller's stream does in that call
  int64_t op_steps = 0;  // steps in this op so far (without current segment)
  int64_t limit = INT64_MAX / 4;  // most steps an op may take
};
extern Task* cur;
void op_begin(const OpFaults& f);  // reset counters for the next operation
void op_end();

// Enter/leave code under test on the current task.
void zone_enter();
void zone_leave();
struct Zone {
  Zone() { zone_enter(); }
  ~Zone() { zone_leave(); }
};
// Temporarily leave it (inside callbacks).
struct Unzone {
  bool was;
  Unzone();
  ~Unzone();
};

// ---- heap -------------------------------------------------------------------
enum Garbage { G_ZERO, G_NAN, G_INF, G_HUGE, G_RANDOM, G_ONES, G_RECYCLE, G_COUNT };
extern int garbage_pattern;
extern uint64_t garbage_seed;
extern uint64_t canary_seed;  // fixed before the first allocation of a run
extern int align_jitter;  // 1: vary address mod 32
int64_t heap_live(int tag, int64_t* bytes);
size_t block_size(const void* p);    // user bytes of a live block, else 0
void heap_check(const char* where);  // canaries of all live blocks
void* user_alloc(size_t bytes, int mode);  // 0 guard bytes, 1 guard pages
void user_readonly(void* p, size_t bytes, bool ro);  // guard-page buffers only

// ---- event log --------------------------------------------------------------
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void ev_bits(const void* p, size_t n);
void violate(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3), noreturn));
inline void fired(FaultKind k, int64_t n = 1) { R->fired[k] += n; }
inline void probe(Probe p) { R->probe[p]++; }
inline void metric(int i, double x) {
  if (x > R->metric[i]) R->metric[i] = x;
}
void state_mix(uint64_t v);

// ---- stream callbacks ---------------------------------------------------------
// Returns 0, or 1 + kind when the stream must throw.
int on_print(const char* msg);

// ---- threads ------------------------------------------------------------------
struct SchedEntry {
  // Basic blocks until the switch; or minus the number of seam events; or
  // -(1000 + 64 c + b): b blocks into the c-th call from here; or
  // -(1000000 k + b): at the k-th access to static storage, after b blocks at most.
  int64_t gap;
  int pick;
};
// Runs all bodies as threads, one at a time, switching as the plan says.
void run_threads(const std::vector<std::function<void()>>& bodies,
                 const std::vector<SchedEntry>& plan);
extern bool mem_points;  // built so that accesses to static storage can be switched at
extern bool (*mem_skip)(const void*);  // static storage that is not the library's
void mem_access(const void* a);
void yield_point();  // explicit switch opportunity
extern bool threaded;

// ---- simulated time -------------------------------------------------------------
int64_t mono_now();
void advance(int64_t ns);
int64_t steps_total();

void init_process();
void device_config(int bufmode);  // 0 unbuffered 1 line 2 full
void device_flush();
inline void set_step_limit(int64_t n) { cur->limit = n; }  // from the next op on
extern const char* hang_cls;
double real_seconds();
}  // namespace rt
