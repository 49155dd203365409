// A controlled scheduler and a happens-before race detector for the library's
// parallel sections.  The library is compiled with -fopenmp -fsanitize=thread,
// but neither libgomp nor libtsan is linked: this file implements the entry
// points.  Team members are coroutines on one system thread, so a schedule is
// entirely determined by `plan`: the priority order in which members run when
// one ends or blocks, and the scheduling points at which a switch is forced.
// Include from exactly one source file, which must not itself be hooked.
#pragma once
#include "mc.h"
#include <array>
#include <cxxabi.h>
#include <dlfcn.h>
#include <malloc.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <ucontext.h>

extern "C" char __libc_single_threaded;
namespace __cxxabiv1 {
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept;
} // namespace __cxxabiv1

namespace sch {
using std::string;
using std::vector;
constexpr int MaxT = 4;
typedef std::array<uint32_t, MaxT> VC;

struct Plan {
  int threads = 2;
  vector<int> priority;                  // order in which members run
  vector<std::pair<long, int>> switches; // at the n-th point: the k-th other member
};

struct Cell {
  uint64_t key = 0;
  uint32_t gen = 0;
  uint8_t r[MaxT], w[MaxT];
  uint32_t rc[MaxT], wc[MaxT];
  void *rp[MaxT], *wp[MaxT];
};
struct Loop {
  long next = 0, end = 0, incr = 1, chunk = 1;
  bool open = false;
  int left = 0;
};
struct Fiber {
  ucontext_t ctx;
  char *stack = nullptr;
  size_t size = 0;
  bool done = false;
  const void *blockedOn = nullptr;
  VC vc{};
  char eh[16];
  int nest = 0;
};
struct Runtime {
  bool active = false; // inside a parallel section
  bool hooks = false;  // accesses are checked
  int n = 0, cur = 0;
  Fiber f[MaxT];
  ucontext_t mainCtx;
  char mainEh[16];
  Plan plan;
  long points = 0, switchesDone = 0;
  size_t nextSwitch = 0;
  int teams = 0;
  void (*fn)(void *) = nullptr;
  void *data = nullptr;
  std::map<const void *, VC> *sync = nullptr;
  std::map<const void *, int> *owner = nullptr;
  std::map<const void *, int> *toucher = nullptr;
  Loop loop;
  int barrier = 0;
  long barrierGen = 0;
  // detector
  vector<Cell> *cells = nullptr;
  uint32_t gen = 1;
  size_t used = 0;
  string *race = nullptr;
  long accesses = 0;
  // request flag
  volatile bool *watch = nullptr;
  long polls = 0, flipAt = -1;
  bool flipped = false;
  long moments = 0, flipMoment = -1; // allocations while the flag is watched
  std::function<void()> *onPoll = nullptr, *onFlip = nullptr;
};
inline Runtime R;

inline string where(void *pc) {
  Dl_info i;
  char b[256];
  snprintf(b, sizeof b, "%p", pc);
  if (dladdr(pc, &i) && i.dli_fbase) {
    string o;
    char cmd[600];
    // -g1 is enough for function names and lines
    snprintf(cmd, sizeof cmd, "addr2line -Cfpe /proc/%d/exe 0x%lx 2>/dev/null", getpid(),
             (unsigned long)((char *)pc - (char *)i.dli_fbase) - 1);
    if (FILE *p = popen(cmd, "r")) {
      while (fgets(b, sizeof b, p))
        o += b;
      pclose(p);
    }
    while (!o.empty() && o.back() == '\n')
      o.pop_back();
    if (!o.empty())
      return o;
  }
  return b;
}

inline Cell &cell(uint64_t key) {
  auto &v = *R.cells;
  size_t m = v.size() - 1, i = (key * 0x9E3779B97F4A7C15ull) >> 20;
  for (;; i++) {
    Cell &c = v[i & m];
    if (c.gen != R.gen) {
      if (R.used * 2 > v.size()) {
        bool h = R.hooks;
        R.hooks = false; // the allocation is ours
        vector<Cell> old(v.size() * 2);
        R.hooks = h;
        old.swap(v);
        R.used = 0;
        for (auto &o : old)
          if (o.gen == R.gen)
            cell(o.key) = o;
        return cell(key);
      }
      memset(&c, 0, sizeof c);
      c.key = key, c.gen = R.gen;
      R.used++;
      return c;
    }
    if (c.key == key)
      return c;
  }
}
inline void report(const char *what, const char *other, void *addr, void *pc, void *pc2, int t, int u) {
  if (!R.race->empty())
    return;
  bool h = R.hooks;
  R.hooks = false;
  *R.race = mc::fmt("%s of member %d at %s is not ordered with %s of member %d at %s", what, t, where(pc).c_str(), other, u, where(pc2).c_str());
  R.hooks = h;
}
inline void access(const void *addr, size_t n, bool write, void *pc) {
  uint64_t a = (uint64_t)addr;
  auto &me = R.f[R.cur];
  if (a - (uint64_t)me.stack < me.size)
    return;
  R.accesses++;
  int t = R.cur;
  uint64_t e = a + n;
  while (a < e) {
    uint64_t g = a >> 3, b = a & 7, k = std::min<uint64_t>(8 - b, e - a);
    uint8_t m = (uint8_t)(((1u << k) - 1) << b);
    Cell &c = cell(g);
    for (int u = 0; u < R.n; u++) {
      if (u == t)
        continue;
      if ((c.w[u] & m) && c.wc[u] > me.vc[u])
        report(write ? "a write" : "a read", "a write", (void *)a, pc, c.wp[u], t, u);
      if (write && (c.r[u] & m) && c.rc[u] > me.vc[u])
        report("a write", "a read", (void *)a, pc, c.rp[u], t, u);
    }
    if (write) {
      if (c.wc[t] != me.vc[t])
        c.w[t] = 0;
      c.w[t] |= m, c.wc[t] = me.vc[t], c.wp[t] = pc;
    } else {
      if (c.rc[t] != me.vc[t])
        c.r[t] = 0;
      c.r[t] |= m, c.rc[t] = me.vc[t], c.rp[t] = pc;
    }
    a += k;
  }
}
/// memory that changes hands in the allocator is not shared
inline void forget(const void *addr, size_t n) {
  uint64_t a = (uint64_t)addr >> 3, e = ((uint64_t)addr + n + 7) >> 3;
  auto &v = *R.cells;
  size_t m = v.size() - 1;
  for (; a < e; a++)
    for (size_t i = (a * 0x9E3779B97F4A7C15ull) >> 20;; i++) {
      Cell &c = v[i & m];
      if (c.gen != R.gen)
        break;
      if (c.key == a) {
        memset(c.r, 0, MaxT), memset(c.w, 0, MaxT);
        break;
      }
    }
}

// ------------------------------------------------------------- scheduling ---
inline void go(int to) {
  int from = R.cur;
  if (to == from)
    return;
  auto *eh = (char *)__cxxabiv1::__cxa_get_globals();
  memcpy(R.f[from].eh, eh, 16);
  R.cur = to;
  memcpy(eh, R.f[to].eh, 16);
  bool h = R.hooks;
  swapcontext(&R.f[from].ctx, &R.f[to].ctx);
  R.hooks = h;
}
inline bool ready(int i) { return !R.f[i].done && !R.f[i].blockedOn; }
inline int nextReady() {
  for (int p : R.plan.priority)
    if (p < R.n && ready(p))
      return p;
  for (int i = 0; i < R.n; i++)
    if (ready(i))
      return i;
  return -1;
}
inline void toMain() {
  auto *eh = (char *)__cxxabiv1::__cxa_get_globals();
  memcpy(eh, R.mainEh, 16);
  R.hooks = false;
  setcontext(&R.mainCtx);
}
inline void block(const void *on) {
  R.f[R.cur].blockedOn = on;
  int n = nextReady();
  if (n < 0) {
    if (R.race->empty())
      *R.race = "no member of the team can continue";
    R.active = false;
    toMain();
  }
  go(n);
}
inline void wake(const void *on) {
  for (int i = 0; i < R.n; i++)
    if (R.f[i].blockedOn == on)
      R.f[i].blockedOn = nullptr;
}
inline void point() {
  if (!R.active)
    return;
  long at = R.points++;
  if (R.nextSwitch < R.plan.switches.size() && R.plan.switches[R.nextSwitch].first <= at) {
    int k = R.plan.switches[R.nextSwitch].second;
    R.nextSwitch++;
    int others[MaxT], m = 0;
    for (int i = 0; i < R.n; i++)
      if (i != R.cur && ready(i))
        others[m++] = i;
    if (k < m) {
      R.switchesDone++;
      go(others[k]);
    }
  }
}
inline void acquire(const void *s) {
  if (!R.active)
    return;
  auto i = R.sync->find(s);
  if (i != R.sync->end())
    for (int t = 0; t < R.n; t++)
      R.f[R.cur].vc[t] = std::max(R.f[R.cur].vc[t], i->second[t]);
}
inline void release(const void *s) {
  if (!R.active)
    return;
  auto &v = (*R.sync)[s];
  for (int t = 0; t < R.n; t++)
    v[t] = std::max(v[t], R.f[R.cur].vc[t]);
  R.f[R.cur].vc[R.cur]++;
}
/// runs runtime code without looking at itself
struct Quiet {
  bool h, a;
  Quiet() : h(R.hooks), a(R.active) { R.hooks = false; }
  ~Quiet() { R.hooks = h; }
};
inline void lock(const void *m) {
  if (!R.active)
    return;
  point();
  for (;;) {
    {
      Quiet q;
      if (!R.owner->count(m)) {
        (*R.owner)[m] = R.cur;
        acquire(m);
        return;
      }
    }
    block(m);
  }
}
inline void unlock(const void *m) {
  if (!R.active)
    return;
  {
    Quiet q;
    release(m);
    R.owner->erase(m);
    wake(m);
  }
  point();
}
inline void atomicOp(const void *a) {
  if (!R.active)
    return;
  bool shared;
  {
    Quiet q;
    auto i = R.toucher->find(a);
    shared = i != R.toucher->end() && i->second != R.cur;
    if (i == R.toucher->end())
      (*R.toucher)[a] = R.cur;
  }
  if (shared)
    point();
  Quiet q;
  acquire(a);
  release(a);
}

inline void body() {
  R.hooks = true;
  R.fn(R.data);
  Quiet q;
  int c = R.cur;
  R.f[c].done = true;
  int n = nextReady();
  if (n >= 0) {
    auto *eh = (char *)__cxxabiv1::__cxa_get_globals();
    R.cur = n;
    memcpy(eh, R.f[n].eh, 16);
    setcontext(&R.f[n].ctx);
  }
  for (int i = 0; i < R.n; i++)
    if (!R.f[i].done && R.race->empty())
      *R.race = "no member of the team can continue";
  R.active = false;
  toMain();
}
inline void init() {
  if (R.cells)
    return;
  __libc_single_threaded = 0; // reference counters use atomic operations
  R.cells = new vector<Cell>(1 << 16);
  R.sync = new std::map<const void *, VC>;
  R.owner = new std::map<const void *, int>;
  R.toucher = new std::map<const void *, int>;
  R.race = new string;
}
inline void reset(const Plan &p) {
  init();
  R.plan = p;
  R.race->clear();
  R.points = R.switchesDone = 0;
  R.nextSwitch = 0;
  R.teams = 0;
  R.accesses = 0;
}
inline void parallel(void (*fn)(void *), void *data, unsigned num) {
  init();
  if (R.active) { // nested: a team of one
    R.f[R.cur].nest++;
    fn(data);
    R.f[R.cur].nest--;
    return;
  }
  R.n = num ? std::min<int>(num, MaxT) : R.plan.threads;
  R.fn = fn, R.data = data;
  R.teams++;
  R.sync->clear(), R.owner->clear(), R.toucher->clear();
  R.barrier = 0;
  R.gen++, R.used = 0;
  for (int i = 0; i < R.n; i++) {
    auto &f = R.f[i];
    if (!f.stack) {
      f.size = 1 << 21;
      f.stack = (char *)mmap(nullptr, f.size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp = f.stack, f.ctx.uc_stack.ss_size = f.size;
    f.ctx.uc_link = nullptr;
    makecontext(&f.ctx, (void (*)())body, 0);
    f.done = false, f.blockedOn = nullptr, f.nest = 0;
    memset(f.eh, 0, 16);
    for (int j = 0; j < MaxT; j++)
      f.vc[j] = i == j ? 1 : 0;
  }
  auto *eh = (char *)__cxxabiv1::__cxa_get_globals();
  memcpy(R.mainEh, eh, 16);
  R.active = true;
  R.cur = nextReady();
  memcpy(eh, R.f[R.cur].eh, 16);
  swapcontext(&R.mainCtx, &R.f[R.cur].ctx);
  R.active = R.hooks = false;
}
inline void barrier() {
  if (!R.active)
    return;
  static char tag;
  {
    Quiet q;
    release(&tag);
  }
  if (++R.barrier == R.n) {
    R.barrier = 0;
    Quiet q;
    wake(&tag);
  } else
    block(&tag);
  Quiet q;
  acquire(&tag);
}
inline bool loopNext(long *s, long *e) {
  static char tag;
  lock(&tag);
  auto &l = R.loop;
  bool ok = l.incr > 0 ? l.next < l.end : l.next > l.end;
  if (ok) {
    *s = l.next;
    l.next += l.incr * l.chunk;
    if (l.incr > 0 ? l.next > l.end : l.next < l.end)
      l.next = l.end;
    *e = l.next;
  }
  unlock(&tag);
  return ok;
}
inline void loopInit(long s, long e, long i, long c) {
  R.loop.next = s, R.loop.end = e, R.loop.incr = i, R.loop.chunk = std::max(1L, c), R.loop.open = true, R.loop.left = R.n;
}
inline bool loopStart(long s, long e, long i, long c, long *a, long *b) {
  if (!R.loop.open)
    loopInit(s, e, i, c);
  return loopNext(a, b);
}
inline void loopEnd(bool wait) {
  if (--R.loop.left <= 0)
    R.loop.open = false;
  if (wait)
    barrier();
}
inline void flip() {
  *R.watch = true;
  R.flipped = true;
  if (R.onFlip) {
    Quiet q;
    auto w = R.watch;
    R.watch = nullptr;
    (*R.onFlip)();
    R.watch = w;
  }
}
/// reads of the request flag
inline void poll(const void *p) {
  if (R.watch && p == (const void *)R.watch) {
    bool now = R.polls++ == R.flipAt;
    if (R.onPoll && !R.flipped) {
      Quiet q;
      auto w = R.watch;
      R.watch = nullptr;
      (*R.onPoll)();
      R.watch = w;
    }
    if (now)
      flip();
  }
}
} // namespace sch

// --------------------------------------------------------------- C entries ---
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define SCH_ACC(n)                                                                                                                                   \
  void __tsan_read##n(void *p) {                                                                                                                     \
    if (n == 1)                                                                                                                                      \
      sch::poll(p);                                                                                                                                  \
    if (sch::R.hooks)                                                                                                                                \
      sch::access(p, n, false, PC);                                                                                                                  \
  }                                                                                                                                                  \
  void __tsan_write##n(void *p) {                                                                                                                    \
    if (sch::R.hooks)                                                                                                                                \
      sch::access(p, n, true, PC);                                                                                                                   \
  }                                                                                                                                                  \
  void __tsan_unaligned_read##n(void *p) {                                                                                                           \
    if (sch::R.hooks)                                                                                                                                \
      sch::access(p, n, false, PC);                                                                                                                  \
  }                                                                                                                                                  \
  void __tsan_unaligned_write##n(void *p) {                                                                                                          \
    if (sch::R.hooks)                                                                                                                                \
      sch::access(p, n, true, PC);                                                                                                                   \
  }
SCH_ACC(1) SCH_ACC(2) SCH_ACC(4) SCH_ACC(8) SCH_ACC(16)
void __tsan_read_range(void *p, long n) {
  if (sch::R.hooks)
    sch::access(p, n, false, PC);
}
void __tsan_write_range(void *p, long n) {
  if (sch::R.hooks)
    sch::access(p, n, true, PC);
}
void __tsan_vptr_update(void **p, void *) {
  if (sch::R.hooks)
    sch::access(p, 8, true, PC);
}
void __tsan_vptr_read(void **p) {
  if (sch::R.hooks)
    sch::access(p, 8, false, PC);
}
#define SCH_ATOMIC(bits, T)                                                                                                                          \
  T __tsan_atomic##bits##_load(const volatile T *a, int) {                                                                                           \
    if (bits == 8)                                                                                                                                   \
      sch::poll((const void *)a);                                                                                                                    \
    sch::atomicOp((const void *)a);                                                                                                                  \
    return *a;                                                                                                                                       \
  }                                                                                                                                                  \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int) {                                                                                        \
    sch::atomicOp((const void *)a);                                                                                                                  \
    *a = v;                                                                                                                                          \
  }                                                                                                                                                  \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) {                                                                                        \
    sch::atomicOp((const void *)a);                                                                                                                  \
    T o = *a;                                                                                                                                        \
    *a = v;                                                                                                                                          \
    return o;                                                                                                                                        \
  }                                                                                                                                                  \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) {                                                                                       \
    sch::atomicOp((const void *)a);                                                                                                                  \
    T o = *a;                                                                                                                                        \
    *a = o + v;                                                                                                                                      \
    return o;                                                                                                                                        \
  }                                                                                                                                                  \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) {                                                                                       \
    sch::atomicOp((const void *)a);                                                                                                                  \
    T o = *a;                                                                                                                                        \
    *a = o - v;                                                                                                                                      \
    return o;                                                                                                                                        \
  }                                                                                                                                                  \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) {                                                                                        \
    sch::atomicOp((const void *)a);                                                                                                                  \
    T o = *a;                                                                                                                                        \
    *a = o | v;                                                                                                                                      \
    return o;                                                                                                                                        \
  }                                                                                                                                                  \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) {                                                                                       \
    sch::atomicOp((const void *)a);                                                                                                                  \
    T o = *a;                                                                                                                                        \
    *a = o & v;                                                                                                                                      \
    return o;                                                                                                                                        \
  }                                                                                                                                                  \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {                                                            \
    sch::atomicOp((const void *)a);                                                                                                                  \
    if (*a == *c) {                                                                                                                                  \
      *a = v;                                                                                                                                        \
      return 1;                                                                                                                                      \
    }                                                                                                                                                \
    *c = *a;                                                                                                                                         \
    return 0;                                                                                                                                        \
  }                                                                                                                                                  \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int x, int y) {                                                          \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, x, y);                                                                             \
  }                                                                                                                                                  \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) {                                                                  \
    sch::atomicOp((const void *)a);                                                                                                                  \
    T o = *a;                                                                                                                                        \
    if (o == c)                                                                                                                                      \
      *a = v;                                                                                                                                        \
    return o;                                                                                                                                        \
  }
SCH_ATOMIC(8, char) SCH_ATOMIC(16, short) SCH_ATOMIC(32, int) SCH_ATOMIC(64, long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void GOMP_parallel(void (*fn)(void *), void *d, unsigned n, unsigned) { sch::parallel(fn, d, n); }
int omp_get_num_threads() { return sch::R.active && !sch::R.f[sch::R.cur].nest ? sch::R.n : 1; }
int omp_get_thread_num() { return sch::R.active && !sch::R.f[sch::R.cur].nest ? sch::R.cur : 0; }
int omp_get_max_threads() { return sch::R.plan.threads; }
int omp_get_num_procs() { return sch::R.plan.threads; }
int omp_in_parallel() { return sch::R.active; }
void omp_set_num_threads(int n) { sch::R.plan.threads = n; }
void omp_set_dynamic(int) {}
double omp_get_wtime() { return 0; }
static char schCrit, schAtom;
void GOMP_critical_start() { sch::lock(&schCrit); }
void GOMP_critical_end() { sch::unlock(&schCrit); }
void GOMP_critical_name_start(void **p) { sch::lock(p); }
void GOMP_critical_name_end(void **p) { sch::unlock(p); }
void GOMP_atomic_start() { sch::lock(&schAtom); }
void GOMP_atomic_end() { sch::unlock(&schAtom); }
void GOMP_barrier() { sch::barrier(); }
bool GOMP_single_start() { return sch::R.cur == 0; }
#define SCH_LOOP(name)                                                                                                                               \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { return sch::loopStart(s, e, i, c, a, b); }                       \
  bool GOMP_loop_##name##_next(long *a, long *b) { return sch::loopNext(a, b); }                                                                     \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) {                                \
    sch::loopInit(s, e, i, c);                                                                                                                       \
    sch::parallel(fn, d, n);                                                                                                                         \
  }
SCH_LOOP(dynamic) SCH_LOOP(nonmonotonic_dynamic) SCH_LOOP(guided) SCH_LOOP(nonmonotonic_guided) SCH_LOOP(static)
#define SCH_LOOPR(name)                                                                                                                              \
  bool GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b) { return sch::loopStart(s, e, i, 1, a, b); }                               \
  bool GOMP_loop_##name##_next(long *a, long *b) { return sch::loopNext(a, b); }                                                                     \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) {                                        \
    sch::loopInit(s, e, i, 1);                                                                                                                       \
    sch::parallel(fn, d, n);                                                                                                                         \
  }
SCH_LOOPR(runtime) SCH_LOOPR(nonmonotonic_runtime) SCH_LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { sch::loopEnd(true); }
void GOMP_loop_end_nowait() { sch::loopEnd(false); }
typedef struct { void *p; } sch_omp_lock;
void omp_init_lock(sch_omp_lock *) {}
void omp_destroy_lock(sch_omp_lock *) {}
void omp_set_lock(sch_omp_lock *l) { sch::lock(l); }
void omp_unset_lock(sch_omp_lock *l) { sch::unlock(l); }

// linked with --wrap
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!sch::R.active)
    return __real_pthread_mutex_lock(m);
  sch::lock(m);
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!sch::R.active)
    return __real_pthread_mutex_unlock(m);
  sch::unlock(m);
  return 0;
}
int __real___cxa_guard_acquire(char *);
void __real___cxa_guard_release(char *);
void __real___cxa_guard_abort(char *);
int __wrap___cxa_guard_acquire(char *g) {
  if (!sch::R.active)
    return __real___cxa_guard_acquire(g);
  sch::lock(g);
  if (*g) {
    sch::unlock(g);
    return 0;
  }
  return 1;
}
void __wrap___cxa_guard_release(char *g) {
  if (!sch::R.active)
    return __real___cxa_guard_release(g);
  *g = 1;
  sch::unlock(g);
}
void __wrap___cxa_guard_abort(char *g) {
  if (!sch::R.active)
    return __real___cxa_guard_abort(g);
  sch::unlock(g);
}
void *__real___cxa_allocate_exception(size_t);
void *__wrap___cxa_allocate_exception(size_t n) {
  void *p = __real___cxa_allocate_exception(n);
  if (sch::R.hooks)
    sch::forget((char *)p - 128, n + 128); // with the header in front
  return p;
}
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (sch::R.hooks) {
    sch::access(s, n, false, PC);
    sch::access(d, n, true, PC);
  }
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (sch::R.hooks) {
    sch::access(s, n, false, PC);
    sch::access(d, n, true, PC);
  }
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  if (sch::R.hooks)
    sch::access(d, n, true, PC);
  return __real_memset(d, c, n);
}
// matrix routines: their output is written
static void schOut(const void *p, int rows, int cols, int ld, void *pc) {
  if (sch::R.hooks && rows > 0)
    for (int j = 0; j < cols; j++)
      sch::access((const double *)p + (size_t)j * ld, rows * 8, true, pc);
}
static void schIn(const void *p, int rows, int cols, int ld, void *pc) {
  if (sch::R.hooks && rows > 0)
    for (int j = 0; j < cols; j++)
      sch::access((const double *)p + (size_t)j * ld, rows * 8, false, pc);
}
typedef const char *CH;
typedef const int *IN;
typedef const double *DI;
void __real_dgemm_(CH, CH, IN, IN, IN, DI, DI, IN, DI, IN, DI, double *, IN, size_t, size_t);
void __wrap_dgemm_(CH ta, CH tb, IN m, IN n, IN k, DI al, DI a, IN la, DI b, IN lb, DI be, double *c, IN lc, size_t x, size_t y) {
  bool A = *ta == 'N' || *ta == 'n', B = *tb == 'N' || *tb == 'n';
  schIn(a, A ? *m : *k, A ? *k : *m, *la, PC);
  schIn(b, B ? *k : *n, B ? *n : *k, *lb, PC);
  schOut(c, *m, *n, *lc, PC);
  __real_dgemm_(ta, tb, m, n, k, al, a, la, b, lb, be, c, lc, 1, 1);
}
void __real_dgemv_(CH, IN, IN, DI, DI, IN, DI, IN, DI, double *, IN, size_t);
void __wrap_dgemv_(CH t, IN m, IN n, DI al, DI a, IN la, DI x, IN ix, DI be, double *y, IN iy, size_t z) {
  schIn(a, *m, *n, *la, PC);
  if (*iy == 1)
    schOut(y, *t == 'N' || *t == 'n' ? *m : *n, 1, 1, PC);
  __real_dgemv_(t, m, n, al, a, la, x, ix, be, y, iy, 1);
}
void __real_dsymm_(CH, CH, IN, IN, DI, DI, IN, DI, IN, DI, double *, IN, size_t, size_t);
void __wrap_dsymm_(CH s, CH u, IN m, IN n, DI al, DI a, IN la, DI b, IN lb, DI be, double *c, IN lc, size_t, size_t) {
  schOut(c, *m, *n, *lc, PC);
  __real_dsymm_(s, u, m, n, al, a, la, b, lb, be, c, lc, 1, 1);
}
void __real_dsyrk_(CH, CH, IN, IN, DI, DI, IN, DI, double *, IN, size_t, size_t);
void __wrap_dsyrk_(CH u, CH t, IN n, IN k, DI al, DI a, IN la, DI be, double *c, IN lc, size_t, size_t) {
  schOut(c, *n, *n, *lc, PC);
  __real_dsyrk_(u, t, n, k, al, a, la, be, c, lc, 1, 1);
}
void __real_dgetrf_(IN, IN, double *, IN, int *, int *);
void __wrap_dgetrf_(IN m, IN n, double *a, IN la, int *p, int *i) {
  schOut(a, *m, *n, *la, PC);
  __real_dgetrf_(m, n, a, la, p, i);
}
void __real_dgetri_(IN, double *, IN, IN, double *, IN, int *);
void __wrap_dgetri_(IN n, double *a, IN la, IN p, double *w, IN lw, int *i) {
  schOut(a, *n, *n, *la, PC);
  if (*lw > 0)
    schOut(w, *lw, 1, 1, PC);
  __real_dgetri_(n, a, la, p, w, lw, i);
}
void __real_dposv_(CH, IN, IN, double *, IN, double *, IN, int *, size_t);
void __wrap_dposv_(CH u, IN n, IN r, double *a, IN la, double *b, IN lb, int *i, size_t) {
  schOut(a, *n, *n, *la, PC);
  schOut(b, *n, *r, *lb, PC);
  __real_dposv_(u, n, r, a, la, b, lb, i, 1);
}
void __real_dpotrf2_(CH, IN, double *, IN, int *, size_t);
void __wrap_dpotrf2_(CH u, IN n, double *a, IN la, int *i, size_t) {
  schOut(a, *n, *n, *la, PC);
  __real_dpotrf2_(u, n, a, la, i, 1);
}
}
void *operator new(size_t n) {
  if (sch::R.watch && sch::R.moments++ == sch::R.flipMoment && !sch::R.flipped)
    sch::flip();
  if (sch::R.hooks)
    sch::point();
  void *p = malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  if (sch::R.hooks)
    sch::forget(p, malloc_usable_size(p));
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept {
  if (p && sch::R.hooks)
    sch::forget(p, malloc_usable_size(p));
  free(p);
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
