#include "rt.h"

#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <iostream>
#include <map>
#include <new>

#include "rng.h"

extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_clock_gettime(clockid_t, struct timespec*);
}

namespace rt {
const char* const fault_names[F_COUNT] = {
#define X(n) #n,
    FAULTS(X)
#undef X
};
const char* const probe_names[P_COUNT] = {
#define X(n) #n,
    PROBES(X)
#undef X
};

RunResult* R;
uint8_t* cov;
bool trace;
Task main_task;
Task* cur = &main_task;
bool threaded;
const char* hang_cls = "hang";

double real_seconds() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

// ---- log ---------------------------------------------------------------------
static void hash_bytes(uint64_t* h, const void* p, size_t n) {
  const unsigned char* c = (const unsigned char*)p;
  uint64_t x = *h ? *h : 0xcbf29ce484222325ull;
  for (size_t i = 0; i < n; i++) x = (x ^ c[i]) * 0x100000001b3ull;
  *h = x;
}
void ev(const char* fmt, ...) {
  Unzone u;
  char buf[512];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  hash_bytes(&R->hash, buf, n);
  if (trace) {
    dprintf(2, "[t%d s%lld] %s\n", cur->id, (long long)steps_total(), buf);
  }
}
void ev_bits(const void* p, size_t n) { hash_bytes(&R->hash, p, n); }
void state_mix(uint64_t v) { hash_bytes(&R->state_hash, &v, sizeof v); }
void violate(const char* cls, const char* fmt, ...) {
  cur->in_zone = false;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  va_end(ap);
  snprintf(R->cls, sizeof R->cls, "%s", cls);
  hash_bytes(&R->hash, R->cls, strlen(R->cls));
  R->steps = steps_total();
  R->sim_ns = mono_now();
  R->violated = 1;
  R->done = 1;
  if (trace) dprintf(2, "VIOLATED %s: %s\n", R->cls, R->msg);
  _exit(0);
}

// ---- steps, preemption ----------------------------------------------------------
static int64_t seg_len = INT64_MAX / 2;
static int64_t steps_before = 0;  // completed segments
extern "C" {
int64_t rt_budget = INT64_MAX / 2;
}
static int64_t extra_ns = 0;       // stalls
static int64_t wall_off = 0;       // wall clock minus monotonic clock
static const int64_t ns_per_step = 7;
static const int64_t mono_base = 1000000000000ll;
static const int64_t wall_base = 1700000000000000000ll;

int64_t steps_total() { return steps_before + (seg_len - rt_budget); }
int64_t mono_now() { return steps_total() * ns_per_step + extra_ns; }
void advance(int64_t ns) { extra_ns += ns; }

static std::vector<SchedEntry> plan;
static size_t plan_pos = 0;
static int64_t gap_left = INT64_MAX / 2;
static int64_t calls_left = 0, call_gap = 0;  // library calls until the next switch, and how far into that call
static int64_t events_left = 0;    // seam events until the next switch (0: none planned)
static int64_t mem_left = 0;       // accesses to static storage until the next switch (0: none planned)
static int next_pick = 0;
static std::vector<Task*> tasks;

static void account() {
  int64_t used = seg_len - rt_budget;
  steps_before += used;
  cur->op_steps += used;
  gap_left -= used;
  seg_len = rt_budget = 0;
}
static void arm() {
  int64_t n = INT64_MAX / 4;
  if (threaded && gap_left < n) n = gap_left;
  int64_t lim = cur->limit - cur->op_steps;
  if (lim < n) n = lim;
  if (cur->f.die_at_step > 0) {
    int64_t d = cur->f.die_at_step - cur->op_steps;
    if (d < n) n = d;
  }
  if (n < 0) n = 0;
  seg_len = rt_budget = n;
}
void op_begin(const OpFaults& f) {
  account();
  cur->f = f;
  cur->c = OpCounts();
  cur->op_steps = 0;
  arm();
}
void op_end() {
  account();
  cur->c.steps = cur->op_steps;
  cur->f = OpFaults();
  arm();
}
static void load_gap() {
  events_left = calls_left = mem_left = 0;
  if (plan_pos < plan.size()) {
    gap_left = plan[plan_pos].gap;
    if (gap_left <= -1000000) {
      mem_left = -gap_left / 1000000;
      gap_left = -gap_left % 1000000;
    } else if (gap_left <= -1000) {
      calls_left = (-gap_left - 1000) / 64 + 1;
      call_gap = (-gap_left - 1000) % 64 + 1;
      gap_left = 2000000;
    } else if (gap_left < 0) {
      events_left = -gap_left;
      gap_left = 2000000;
    }
    if (gap_left < 1) gap_left = 1;
    next_pick = plan[plan_pos].pick;
    plan_pos++;
  } else {
    gap_left = 400000;  // fair from here on
    next_pick++;
  }
}
static void fwait(int* w) {
  while (__atomic_load_n(w, __ATOMIC_SEQ_CST) == 0)
    syscall(SYS_futex, w, FUTEX_WAIT, 0, nullptr, nullptr, 0);
  __atomic_store_n(w, 0, __ATOMIC_SEQ_CST);
}
static void fwake(int* w) {
  __atomic_store_n(w, 1, __ATOMIC_SEQ_CST);
  syscall(SYS_futex, w, FUTEX_WAKE, 1, nullptr, nullptr, 0);
}
static int all_done_word = 0;

// Hand the processor to another ready task.  Returns when this task runs again
// (never, if it is dead or done).
static void switch_away(int pick, bool self_ok) {
  std::vector<Task*> ready;
  {
    Unzone u;
    for (Task* t : tasks)
      if (t->status == ST_READY && (t != cur || self_ok)) ready.push_back(t);
  }
  if (ready.empty()) {
    if (cur->status == ST_READY) {
      arm();
      return;
    }
    fwake(&all_done_word);
    if (cur->status == ST_DONE) return;
    int forever = 0;
    for (;;) fwait(&forever);
  }
  Task* nx = ready[(unsigned)pick % ready.size()];
  {
    Unzone u;
    std::vector<Task*>().swap(ready);
  }
  Task* me = cur;
  if (nx == me) {
    arm();
    return;
  }
  R->switches++;
  if (me->in_zone) {
    R->probe[P_SWITCH_INSIDE_SOLVE]++;
    R->fired[F_PREEMPTION]++;
  }
  cur = nx;
  arm();
  fwake(&nx->futex_word);
  if (me->status == ST_DONE) return;
  if (me->status == ST_DEAD) {
    int forever = 0;
    for (;;) fwait(&forever);
  }
  fwait(&me->futex_word);
}

static void __attribute__((noinline)) slow(uintptr_t pc) {
  account();
  if (cur->op_steps > cur->limit) {
    violate(hang_cls, "no return after %lld basic blocks",
            (long long)cur->op_steps);
  }
  if (cur->f.die_at_step > 0 && cur->op_steps >= cur->f.die_at_step) {
    if (threaded) {
      cur->status = ST_DEAD;
      fired(F_THREAD_DEATH);
      hash_bytes(&R->sched_hash, &pc, sizeof pc);
      switch_away(next_pick, false);
    }
    cur->f.die_at_step = 0;
  }
  if (threaded && gap_left <= 0) {
    int pick = next_pick;
    load_gap();
    uint64_t m[2] = {(uint64_t)cur->id, (uint64_t)pc};
    hash_bytes(&R->sched_hash, m, sizeof m);
    switch_away(pick, true);
    return;
  }
  arm();
}
// A call of the library reaches the simulator: print, allocation, clock.
static inline void seam_event() {
  if (!threaded || !cur->in_zone || events_left == 0) return;
  if (--events_left > 0) return;
  account();
  int pick = next_pick;
  load_gap();
  uint64_t m[2] = {(uint64_t)cur->id, 1};
  hash_bytes(&R->sched_hash, m, sizeof m);
  switch_away(pick, true);
}
// An access of the library to memory, in the build that reports them all.
bool mem_points = false;
bool (*mem_skip)(const void*) = nullptr;
extern "C" char __data_start, _end;
void mem_access(const void* a) {
  if (!threaded || !cur->in_zone) return;
  if ((const char*)a >= &__data_start && (const char*)a < &_end) {
    if (mem_skip(a)) return;
    cur->hot = 6;
  }
  else if (cur->hot > 0) cur->hot--;
  else return;
  R->probe[P_STATIC_ACCESS]++;
  if (mem_left == 0 || --mem_left > 0) return;
  account();
  int pick = next_pick;
  load_gap();
  uint64_t m[2] = {(uint64_t)cur->id, 2};
  hash_bytes(&R->sched_hash, m, sizeof m);
  switch_away(pick, true);
}
void yield_point() {
  if (!threaded) return;
  account();
  if (gap_left <= 0) load_gap();
  uint64_t m[2] = {(uint64_t)cur->id, 0};
  hash_bytes(&R->sched_hash, m, sizeof m);
  switch_away(next_pick, true);
}

struct ThreadArg {
  Task* t;
  const std::function<void()>* f;
};
static void* thread_main(void* p) {
  ThreadArg* a = (ThreadArg*)p;
  fwait(&a->t->futex_word);
  (*a->f)();
  account();
  a->t->status = ST_DONE;
  switch_away(next_pick, false);
  return nullptr;
}
void run_threads(const std::vector<std::function<void()>>& bodies,
                 const std::vector<SchedEntry>& p) {
  account();
  plan = p;
  plan_pos = 0;
  std::vector<ThreadArg> args(bodies.size());
  for (size_t i = 0; i < bodies.size(); i++) {
    Task* t = new Task();
    t->id = (int)i + 1;
    tasks.push_back(t);
    args[i] = {t, &bodies[i]};
    pthread_t th;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 4 << 20);
    if (pthread_create(&th, &at, thread_main, &args[i])) {
      dprintf(2, "pthread_create failed\n");
      _exit(3);
    }
    pthread_detach(th);
  }
  threaded = true;
  load_gap();
  Task* me = cur;
  cur = tasks[(unsigned)next_pick % tasks.size()];
  arm();
  fwake(&cur->futex_word);
  fwait(&all_done_word);
  threaded = false;
  cur = me;
  gap_left = INT64_MAX / 4;
  arm();
}

// ---- zones -----------------------------------------------------------------------
void zone_enter() {
  cur->c.t_enter = mono_now();
  cur->in_zone = true;
  if (threaded && calls_left > 0 && --calls_left == 0) {
    account();
    gap_left = call_gap;
    arm();
  }
}
void zone_leave() {
  cur->in_zone = false;
  cur->c.t_leave = mono_now();
}
Unzone::Unzone() : was(cur->in_zone) { cur->in_zone = false; }
Unzone::~Unzone() { cur->in_zone = was; }

// ---- heap ------------------------------------------------------------------------
int garbage_pattern = G_ZERO;
uint64_t garbage_seed = 0;
uint64_t canary_seed = 0;
int align_jitter = 0;

static char* arena;
static const size_t ARENA = 192u << 20;
static char* arena_top;
struct Hdr {
  uint64_t magic;
  size_t size;   // user bytes
  size_t cap;    // whole block
  Hdr *prev, *next;
  char* base;
  int tag;
  int state;  // 1 live 2 free
  uint64_t canary[5];
};
static_assert(sizeof(Hdr) % 16 == 0, "header alignment");
static const uint64_t MAGIC = 0x5afeb10c5afeb10cull;
static const size_t TAIL = 64;
static Hdr live_head;
static std::map<size_t, std::vector<char*>>* freelist;
static uint64_t alloc_counter = 0;

static uint64_t canary_word(const Hdr* h, int i) {
  // NaN-shaped so that an out-of-bounds read poisons results, and seeded so
  // that it differs between a run and its reference.
  return 0x7ff8000000000000ull |
         (Rng::mix(canary_seed + 77 * i + (h->size << 8)) & 0x7ffffffffffffull);
}
static void set_canaries(Hdr* h) {
  for (int i = 0; i < 5; i++) h->canary[i] = canary_word(h, i);
  char* u = (char*)(h + 1) + h->size;
  uint64_t w = canary_word(h, 9);
  for (size_t i = 0; i < TAIL; i++) u[i] = ((char*)&w)[i & 7];
}
static bool canaries_ok(const Hdr* h) {
  for (int i = 0; i < 5; i++)
    if (h->canary[i] != canary_word(h, i)) return false;
  const char* u = (const char*)(h + 1) + h->size;
  uint64_t w = canary_word(h, 9);
  for (size_t i = 0; i < TAIL; i++)
    if (u[i] != ((char*)&w)[i & 7]) return false;
  return true;
}
static void fill(void* p, size_t n) {
  double v = 0;
  double* d = (double*)p;
  size_t k = n / 8;
  switch (garbage_pattern) {
    case G_RECYCLE:
      fired(F_RECYCLED_MEMORY);
      return;
    case G_ZERO:
      memset(p, 0, n);
      return;
    case G_NAN: v = __builtin_nan(""); break;
    case G_INF: v = __builtin_inf(); break;
    case G_HUGE: v = -1e300; break;
    case G_ONES: v = 1.0; break;
    default: {
      uint64_t s = Rng::mix(garbage_seed ^ (alloc_counter * 0x9e37ull));
      for (size_t i = 0; i < k; i++) {
        s = Rng::mix(s);
        d[i] = (double)(int64_t)s * 1e-15;
      }
      memset((char*)p + k * 8, (int)s, n - k * 8);
      fired(F_HEAP_GARBAGE);
      return;
    }
  }
  for (size_t i = 0; i < k; i++) d[i] = v;
  memset((char*)p + k * 8, 0xab, n - k * 8);
  fired(F_HEAP_GARBAGE);
}
static bool in_arena(const void* p) {
  return (const char*)p >= arena && (const char*)p < arena + ARENA;
}
static void* heap_alloc(size_t n, int tag, bool jit) {
  bool was = cur->in_zone;
  cur->in_zone = false;
  alloc_counter++;
  size_t cap = (sizeof(Hdr) + n + TAIL + 32 + 31) & ~size_t(31);
  char* base = nullptr;
  auto it = freelist->find(cap);
  if (it != freelist->end() && !it->second.empty()) {
    base = it->second.back();
    it->second.pop_back();
  } else {
    if (arena_top + cap > arena + ARENA) {
      cur->in_zone = was;
      return nullptr;
    }
    base = arena_top;
    arena_top += cap;
  }
  size_t off = 0;
  if (jit && align_jitter &&
      (Rng::mix(garbage_seed ^ alloc_counter) & 1))
    off = 16;
  Hdr* h = (Hdr*)(base + off);
  h->magic = MAGIC;
  h->size = n;
  h->cap = cap;
  h->base = base;
  h->tag = tag;
  h->state = 1;
  h->next = live_head.next;
  h->prev = &live_head;
  if (h->next) h->next->prev = h;
  live_head.next = h;
  set_canaries(h);
  void* u = h + 1;
  fill(u, n);
  cur->in_zone = was;
  return u;
}
static void heap_free(void* p) {
  Hdr* h = (Hdr*)p - 1;
  if (h->magic != MAGIC || h->state != 1) {
    violate("invalid-free", "free of a pointer that is not a live block (%s)",
            h->magic == MAGIC ? "double free" : "unknown block");
  }
  if (!canaries_ok(h))
    violate("heap-overrun", "guard bytes of a %zu-byte block overwritten", h->size);
  bool was = cur->in_zone;
  cur->in_zone = false;
  h->state = 2;
  h->prev->next = h->next;
  if (h->next) h->next->prev = h->prev;
  if (garbage_pattern != G_RECYCLE) memset(p, 0xdd, h->size);
  (*freelist)[h->cap].push_back(h->base);
  cur->in_zone = was;
}
void heap_check(const char* where) {
  for (Hdr* h = live_head.next; h; h = h->next)
    if (!canaries_ok(h))
      violate("heap-overrun", "%s: guard bytes of a live %zu-byte block overwritten",
              where, h->size);
}
int64_t heap_live(int tag, int64_t* bytes) {
  int64_t n = 0, b = 0;
  for (Hdr* h = live_head.next; h; h = h->next)
    if (h->tag == tag) {
      n++;
      b += h->size;
    }
  if (bytes) *bytes = b;
  return n;
}
size_t block_size(const void* p) {
  if (!in_arena(p)) return 0;
  const Hdr* h = (const Hdr*)p - 1;
  return h->magic == MAGIC && h->state == 1 ? h->size : 0;
}
void* user_alloc(size_t bytes, int mode) {
  if (mode == 1) {
    size_t pages = (bytes + 4095) / 4096;
    if (!pages) pages = 1;
    char* p = (char*)mmap(nullptr, (pages + 1) * 4096, PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p + pages * 4096, 4096, PROT_NONE);
    return p + pages * 4096 - ((bytes + 15) & ~size_t(15));
  }
  return heap_alloc(bytes ? bytes : 8, 7, false);
}
void user_readonly(void* p, size_t bytes, bool ro) {
  size_t pages = (bytes + 4095) / 4096;
  if (!pages) pages = 1;
  char* end = (char*)p + ((bytes + 15) & ~size_t(15));
  mprotect(end - pages * 4096, pages * 4096, ro ? PROT_READ : PROT_READ | PROT_WRITE);
}
static bool alloc_should_fail() {
  Task* t = cur;
  t->c.allocs++;
  if (t->f.alloc_fail_at > 0 && t->c.allocs >= t->f.alloc_fail_at &&
      t->c.allocs < t->f.alloc_fail_at + t->f.alloc_fail_n) {
    t->c.alloc_failed = true;
    fired(F_ALLOC_FAIL);
    return true;
  }
  return false;
}

// ---- device ------------------------------------------------------------------------
static ssize_t dev_write(const char* buf, size_t n) {
  Unzone u;
  OpCounts& c = cur->c;
  OpFaults& f = cur->f;
  c.dev_writes++;
  if (f.stdout_fail_at > 0 && c.dev_writes >= f.stdout_fail_at &&
      c.dev_writes < f.stdout_fail_at + f.stdout_fail_n) {
    c.dev_failed = true;
    if (f.stdout_fail_kind == 0) {
      fired(F_DEVICE_ERROR);
      errno = EIO;
      return 0;
    }
    if (n > 1) {
      fired(F_DEVICE_SHORT_WRITE);
      n = n / 2;
    }
  }
  c.dev.append(buf, n);
  return (ssize_t)n;
}
static ssize_t cookie_write(void*, const char* b, size_t n) { return dev_write(b, n); }
struct DevBuf : std::streambuf {
  int overflow(int ch) override {
    char c = (char)ch;
    return dev_write(&c, 1) == 1 ? ch : EOF;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    return dev_write(s, n);
  }
};
void device_config(int mode) {
  static char buf[512];
  setvbuf(stdout, mode == 0 ? nullptr : buf, mode == 0 ? _IONBF : mode == 1 ? _IOLBF : _IOFBF,
          mode == 0 ? 0 : sizeof buf);
}
void device_flush() {
  Unzone u;
  fflush(stdout);
  clearerr(stdout);
}

int on_print(const char* msg) {
  seam_event();
  Unzone u;
  OpCounts& c = cur->c;
  OpFaults& f = cur->f;
  c.prints++;
  if (f.print_throw_at > 0 && c.prints == f.print_throw_at) {
    c.stream_threw = true;
    fired(F_STREAM_THROW);
    return 1 + f.print_throw_kind;
  }
  c.prints_at.push_back({mono_now(), std::string(msg)});
  if (trace) dprintf(2, "  | %s", msg);
  if (f.print_stall_at > 0 && c.prints == f.print_stall_at) {
    fired(F_STREAM_STALL);
    advance(f.print_stall_ns);
  }
  if (f.nest_at > 0 && c.prints == f.nest_at && cur->nest) {
    // The caller's stream uses the library itself: a whole operation inside this one.
    fired(F_NESTED_CALL);
    account();
    OpFaults f0 = f;
    OpCounts c0 = c;
    int owner0 = cur->owner;
    int64_t steps0 = cur->op_steps, limit0 = cur->limit;
    const std::function<void()>* cb = cur->nest;
    cur->nest = nullptr;
    (*cb)();
    account();
    cur->f = f0;
    cur->f.nest_at = 0;
    cur->c = c0;
    cur->owner = owner0;
    cur->op_steps = steps0;
    cur->limit = limit0;
    arm();
  }
  return 0;
}

static int64_t clock_read(bool wall) {
  seam_event();
  OpCounts& c = cur->c;
  OpFaults& f = cur->f;
  if (cur->in_zone) {
    c.clock_reads++;
    if (f.clock_jump_at > 0 && c.clock_reads == f.clock_jump_at) {
      wall_off += f.clock_jump_ns;
      fired(F_WALL_JUMP);
    }
    extra_ns += 13;  // reading a clock takes time
  }
  return wall ? wall_base + mono_now() + wall_off : mono_base + mono_now();
}

static void crash_handler(int sig) {
  // Leave a trace; the parent reports the death of the child.
  if (R && !R->done) {
    R->cur_op |= 0;
    snprintf(R->msg, sizeof R->msg, "signal %d", sig);
  }
  signal(sig, SIG_DFL);
  raise(sig);
}

static void create_arena() {
  void* want = (void*)0x200000000000ull;
  void* p = mmap(want, ARENA, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
                 -1, 0);
  if (p == MAP_FAILED) {
    p = mmap(nullptr, ARENA, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  arena = arena_top = (char*)p;
  freelist = new std::map<size_t, std::vector<char*>>();
}

void init_process() {
  if (arena) return;
  create_arena();
  R = (RunResult*)mmap(nullptr, sizeof(RunResult), PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  cov = (uint8_t*)mmap(nullptr, COV_SIZE, PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  cookie_io_functions_t io = {};
  io.write = cookie_write;
  FILE* f = fopencookie(nullptr, "w", io);
  stdout = f;
  static DevBuf db, db2;
  std::cout.rdbuf(&db);
  std::cerr.rdbuf(&db2);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, crash_handler);
}
}  // namespace rt

using namespace rt;

extern "C" {
__attribute__((hot)) void __sanitizer_cov_trace_pc() {
  uintptr_t pc = (uintptr_t)__builtin_return_address(0);
  if (cov) cov[(pc ^ (pc >> 16)) & (COV_SIZE - 1)] = 1;
  if (__builtin_expect(--rt_budget < 0, 0)) slow(pc);
}

// fbstab::Residual<> declares these two without defining them or making them
// pure; with calls at function ends the compiler no longer drops the table that
// names them.  Nothing calls them.
__attribute__((weak)) void _ZN6fbstab8ResidualINS_12FullResidualENS_12FullVariableEE15NaturalResidualERKS2_() { abort(); }
__attribute__((weak)) void _ZN6fbstab8ResidualINS_12FullResidualENS_12FullVariableEE24PenalizedNaturalResidualERKS2_() { abort(); }

// Leaving a function of the library is a point of its own: what it wrote is in
// memory by then, and what is read next is read from there.
void __cyg_profile_func_enter(void*, void*) {}
__attribute__((hot)) void __cyg_profile_func_exit(void*, void* site) {
  if (__builtin_expect(--rt_budget < 0, 0)) slow((uintptr_t)site);
}

void* __wrap_malloc(size_t n) {
  if (!arena || !cur->in_zone) return __real_malloc(n);
  seam_event();
  if (alloc_should_fail()) {
    errno = ENOMEM;
    return nullptr;
  }
  return heap_alloc(n, cur->owner, true);
}
void __wrap_free(void* p) {
  if (!p) return;
  if (arena && in_arena(p)) {
    seam_event();
    heap_free(p);
  } else {
    __real_free(p);
  }
}
void* __wrap_calloc(size_t a, size_t b) {
  if (!arena || !cur->in_zone) return __real_calloc(a, b);
  if (b && a > SIZE_MAX / b) return nullptr;
  void* p = __wrap_malloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
void* __wrap_realloc(void* p, size_t n) {
  if (!p) return __wrap_malloc(n);
  if (!arena || !in_arena(p)) return __real_realloc(p, n);
  void* q = __wrap_malloc(n);
  if (!q) return nullptr;
  size_t o = ((Hdr*)p - 1)->size;
  memcpy(q, p, o < n ? o : n);
  heap_free(p);
  return q;
}
static void* aligned(size_t al, size_t n) {
  // Arena blocks are 16-byte aligned; larger alignments get slack that is
  // never handed back separately, so only 16 is supported exactly.
  if (al <= 16) return __wrap_malloc(n);
  return nullptr;
}
int __real_posix_memalign(void**, size_t, size_t);
void* __real_aligned_alloc(size_t, size_t);
int __wrap_posix_memalign(void** p, size_t al, size_t n) {
  if (!arena || !cur->in_zone || al > 16) return __real_posix_memalign(p, al, n);
  *p = aligned(al, n);
  return *p ? 0 : ENOMEM;
}
void* __wrap_aligned_alloc(size_t al, size_t n) {
  if (!arena || !cur->in_zone || al > 16) return __real_aligned_alloc(al, n);
  return aligned(al, n);
}

int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return clock_read(false); }
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return clock_read(true); }
int __wrap_clock_gettime(clockid_t id, struct timespec* ts) {
  int64_t t = clock_read(id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE);
  ts->tv_sec = t / 1000000000;
  ts->tv_nsec = t % 1000000000;
  return 0;
}
int __wrap_gettimeofday(struct timeval* tv, void*) {
  int64_t t = clock_read(true);
  tv->tv_sec = t / 1000000000;
  tv->tv_usec = (t % 1000000000) / 1000;
  return 0;
}
time_t __wrap_time(time_t* p) {
  time_t t = clock_read(true) / 1000000000;
  if (p) *p = t;
  return t;
}
clock_t __wrap_clock() {
  clock_read(false);
  return (clock_t)(steps_total() * 7 / 1000);
}

int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!threaded) return __real_pthread_mutex_lock(m);
  int spins = 0;
  for (;;) {
    int e = __real_pthread_mutex_trylock(m);
    if (e != EBUSY) return e;
    fired(F_LOCK_CONTENTION);
    if (++spins > 2000)
      violate("blocked", "thread waits for ever for a lock held by a stopped thread");
    account();
    switch_away(spins, false);
  }
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  return __real_pthread_mutex_trylock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  return __real_pthread_mutex_unlock(m);
}
void __wrap___assert_fail(const char* e, const char* file, unsigned line, const char*) {
  const char* f = strrchr(file, '/');
  violate("assert", "assertion failed: %s (%s:%u)", e, f ? f + 1 : file, line);
}
// Guards of function-local statics.
int __wrap___cxa_guard_acquire(char* g) {
  int spins = 0;
  for (;;) {
    if (g[0]) return 0;
    if (!g[1]) {
      g[1] = 1;
      return 1;
    }
    fired(F_LOCK_CONTENTION);
    if (!threaded || ++spins > 2000)
      violate("blocked", "thread waits for ever for a static initialiser");
    account();
    switch_away(spins, false);
  }
}
void __wrap___cxa_guard_release(char* g) {
  g[1] = 0;
  g[0] = 1;
}
void __wrap___cxa_guard_abort(char* g) { g[1] = 0; }
}

static void* new_impl(size_t n) {
  void* p = __wrap_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return new_impl(n); }
void* operator new[](size_t n) { return new_impl(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
