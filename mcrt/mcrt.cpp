// mcrt: a controlled scheduler for stateless model checking of real C++ code.
//
// The program under test is compiled with gcc -fsanitize=thread instrumentation but linked with this file
// in place of the thread sanitizer's runtime.  Simulated threads are fibers of one OS thread; every
// pthread, futex, atomic, sleep and clock operation is intercepted here.  The explorer runs the scenario
// again and again, depth first over all scheduling decisions, within an iterated preemption bound, and
// prunes states (happens-before trace prefixes) explored before with at least the same remaining budget.
// Plain memory accesses are checked with vector clocks, so a data race is reported in whichever explored
// schedule contains the two unordered accesses; this is what makes it sufficient to schedule only at
// synchronisation operations.
#include "mc.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <future>
#include <map>
#include <mutex>
#include <new>
#include <set>
#include <unordered_map>

extern "C" char __libc_single_threaded;
extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memmove(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);
extern "C" int __real_memcmp(const void*, const void*, size_t);

namespace
{
constexpr int kMaxThreads = 24;
constexpr uintptr_t kRegion = 0x100000000000ull;
constexpr size_t kArena = 64ull << 20;
constexpr size_t kStack = 1ull << 20;
constexpr uintptr_t kStacks = kRegion + kMaxThreads * kArena;
constexpr uintptr_t kRegionEnd = kStacks + kMaxThreads * kStack;
constexpr int64_t kNoDeadline = INT64_MAX;
constexpr int64_t kEpochStart = 1700000000ll * 1000000000ll;

// ---------------------------------------------------------------- small helpers
inline uint64_t Mix(uint64_t a, uint64_t b)
{
  uint64_t x = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2));
  x ^= x >> 32;
  x *= 0xd6e8feb86659fd93ull;
  x ^= x >> 32;
  x *= 0xd6e8feb86659fd93ull;
  x ^= x >> 32;
  return x;
}

double WallNow()
{
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct VC
{
  uint32_t c[kMaxThreads];
  void Clear() { __builtin_memset(c, 0, sizeof c); }
  void Join(const VC& o)
  {
    for (int i = 0; i < kMaxThreads; ++i)
      if (o.c[i] > c[i])
        c[i] = o.c[i];
  }
};

enum Op : uint8_t
{
  OP_START,
  OP_POINT,
  OP_YIELD,
  OP_LOCK,
  OP_COND,
  OP_JOIN,
  OP_SLEEP,
  OP_FUTEX,
  OP_ONCE,
  OP_GUARD,
  OP_RDLOCK,
  OP_WRLOCK,
  OP_FINISHED
};
const char* const kOpNames[] = {"start", "point", "yield", "lock", "cond_wait", "join", "sleep",
                                "future_wait", "once", "guard", "rdlock", "wrlock", "finished"};

struct Thr
{
  int id;
  void* sp;
  char* stack;
  VC vc;
  uint64_t h;
  Op pend;
  uintptr_t pobj;
  int64_t deadline;
  bool signaled;    // condition wait / futex was notified
  bool reacquire;   // woken from a condition wait: now wants mutex
  uintptr_t cvmutex;
  const char* what;  // description of pending operation
  uintptr_t pc;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  bool detached;
  bool joined;
  uint64_t eh[2];
  void* once[2];
  int err;
  uintptr_t brk;
  char* tls;  // this thread's copy of the executable's thread-local variables
};

struct Obj
{
  uintptr_t addr;
  uint32_t epoch;
  int owner;      // mutex owner or -1
  int count;      // recursion / reader count
  int busy;       // once/guard in progress by thread+1
  bool destroyed;
  uint64_t h;
  VC vc;
  VC rvc;  // released by readers of a shared lock: only acquired by writers
  int nwait;
  uint8_t wait[kMaxThreads];
};

struct Entry
{
  uint32_t clk;
  uint32_t pc;
  uint8_t tid;
  uint8_t mask;
  uint8_t flags;  // 1 write, 2 atomic
  uint8_t used;
};
struct Cell
{
  uint32_t epoch;
  uint8_t freed;
  uint8_t rr;
  uint16_t pad;
  Entry e[4];
};
struct HCell
{
  uintptr_t granule;
  Cell cell;
};

// ---------------------------------------------------------------- state
bool g_ctl = false;      // a controlled execution is running
int g_in_rt = 1;         // runtime code is running
bool g_warm = true;      // warm-up execution: allocate with malloc
int g_guard_depth = 0;
bool g_new_static = false;  // a function-local static was initialised in this execution
Thr g_thr[kMaxThreads];
int g_nthr = 0;
int g_cur = -1;
bool g_multi = false;
void* g_sched_sp = nullptr;
int64_t g_now = 0;
uint32_t g_epoch = 0;
uint64_t g_steps = 0;
uint64_t g_accesses = 0;
Cell* g_shadow = nullptr;
HCell* g_hshadow = nullptr;
constexpr size_t kHBits = 20;
Obj* g_objs = nullptr;
constexpr size_t kObjBits = 15;
std::vector<std::string>* g_log = nullptr;
uintptr_t g_logobj_storage;
uint64_t g_stamp = 0;
std::string* g_violation = nullptr;
bool g_violated = false;
std::string* g_outcome = nullptr;
std::set<uintptr_t>* g_guards = nullptr;
std::vector<char*>* g_inprogress = nullptr;
sigjmp_buf g_crash_jmp;
const mc::Scenario* g_scn = nullptr;
bool g_trace = false;
double g_exec_started = 0;

struct Option
{
  int16_t tid;   // thread, or value for Choose
  uint8_t cost;
  uint8_t kind;  // 0 normal, 1 early timer, 2 spurious
};
struct Node
{
  std::vector<Option> opts;
  int chosen;
  int used_before;
  uint64_t sig;
};
std::vector<Node>* g_stack = nullptr;
size_t g_pos = 0;
int g_used = 0;
int g_bound = 0;
bool g_cut = false;
bool g_pruned = false;
bool g_nondet = false;
std::string* g_nondet_msg = nullptr;
std::vector<int>* g_replay = nullptr;  // forced choices (replay mode)
std::unordered_map<uint64_t, int8_t>* g_visited = nullptr;
std::vector<std::pair<uint64_t, int8_t>>* g_new_visited = nullptr;  // fresh mode: what this execution adds
uint64_t g_transitions = 0;

struct RtGuard
{
  RtGuard() { ++g_in_rt; }
  ~RtGuard() { --g_in_rt; }
};

template <typename F>
F Real(const char* name)
{
  void* p = dlsym(RTLD_NEXT, name);
  if (!p)
  {
    fprintf(stderr, "mcrt: no %s\n", name);
    _exit(4);
  }
  return reinterpret_cast<F>(p);
}

inline bool Ctl() { return g_ctl && g_in_rt == 0 && g_cur >= 0; }
inline bool InRegion(uintptr_t a) { return a >= kRegion && a < kRegionEnd; }
inline bool InArena(uintptr_t a) { return a >= kRegion && a < kStacks; }

// ---------------------------------------------------------------- fibers
extern "C" void mc_swap(void** save, void* to);
asm(R"(
.text
.globl mc_swap
.type mc_swap,@function
mc_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_swap, .-mc_swap
)");

// Thread-local storage: the executable's block is swapped with the fiber; all of the (single) OS thread's
// static TLS area is exempt from race detection.
uintptr_t g_tls_lo = 0, g_tls_hi = 0;
char* g_tls_block = nullptr;
size_t g_tls_size = 0;
const char* g_tls_image = nullptr;
size_t g_tls_image_size = 0;

int FindTls(struct dl_phdr_info* info, size_t, void*)
{
  if (info->dlpi_name && info->dlpi_name[0])
    return 0;
  for (int i = 0; i < info->dlpi_phnum; ++i)
    if (info->dlpi_phdr[i].p_type == PT_TLS)
    {
      const auto& ph = info->dlpi_phdr[i];
      g_tls_size = ph.p_memsz;
      g_tls_image = reinterpret_cast<const char*>(info->dlpi_addr + ph.p_vaddr);
      g_tls_image_size = ph.p_filesz;
      size_t al = ph.p_align ? ph.p_align : 1;
      uintptr_t fs = reinterpret_cast<uintptr_t>(__builtin_thread_pointer());
      g_tls_block = reinterpret_cast<char*>((fs - g_tls_size) & ~(al - 1));
    }
  return 1;
}

uint64_t* EhGlobals() { return reinterpret_cast<uint64_t*>(abi::__cxa_get_globals()); }

// Leave the current fiber for the scheduler; returns when the scheduler resumes it.
void ToSched()
{
  Thr& t = g_thr[g_cur];
  uint64_t* eh = EhGlobals();
  t.eh[0] = eh[0];
  t.eh[1] = eh[1];
  t.once[0] = std::__once_callable;
  t.once[1] = reinterpret_cast<void*>(std::__once_call);
  t.err = errno;
  if (g_tls_size)
    __real_memcpy(t.tls, g_tls_block, g_tls_size);
  mc_swap(&t.sp, g_sched_sp);
}

void SetViolation(const std::string& msg)
{
  if (!g_violated)
  {
    g_violated = true;
    *g_violation = msg;
  }
}

[[noreturn]] void Abandon()
{
  g_in_rt = 1;
  for (;;)
    ToSched();
}

std::string Symbol(uintptr_t pc)
{
  Dl_info info;
  if (pc && dladdr(reinterpret_cast<void*>(pc), &info) && info.dli_sname)
  {
    int status = 0;
    char* d = abi::__cxa_demangle(info.dli_sname, nullptr, nullptr, &status);
    std::string result = status == 0 && d ? d : info.dli_sname;
    free(d);
    return result;
  }
  char buf[32];
  snprintf(buf, sizeof buf, "0x%lx", (unsigned long)pc);
  return buf;
}

[[noreturn]] void Violate(const std::string& msg)
{
  SetViolation(msg);
  Abandon();
}

// ---------------------------------------------------------------- objects
Obj& GetObj(uintptr_t addr)
{
  size_t i = (addr * 0x9e3779b97f4a7c15ull) >> (64 - kObjBits);
  for (;;)
  {
    Obj& o = g_objs[i];
    if (o.epoch != g_epoch)
    {
      o.epoch = g_epoch;
      o.addr = addr;
      o.owner = -1;
      o.count = 0;
      o.busy = 0;
      o.destroyed = false;
      o.h = 0;
      o.nwait = 0;
      o.vc.Clear();
      o.rvc.Clear();
      return o;
    }
    if (o.addr == addr)
      return o;
    i = (i + 1) & ((1u << kObjBits) - 1);
  }
}

inline void HashSync(Thr& t, Obj& o, uint64_t op)
{
  t.h = Mix(Mix(t.h, op), Mix(o.addr, o.h));
  o.h = t.h;
}
inline void Acquire(Thr& t, const Obj& o) { t.vc.Join(o.vc); }
inline void Release(Thr& t, Obj& o)
{
  o.vc.Join(t.vc);
  ++t.vc.c[t.id];
}
inline void ReleaseStore(Thr& t, Obj& o)
{
  o.vc = t.vc;
  ++t.vc.c[t.id];
}

// ---------------------------------------------------------------- race detection
Cell& GetCell(uintptr_t granule)
{
  if (g_shadow && granule >= (kRegion >> 3) && granule < (kRegionEnd >> 3))
    return g_shadow[granule - (kRegion >> 3)];
  size_t i = (granule * 0x9e3779b97f4a7c15ull) >> (64 - kHBits);
  for (;;)
  {
    HCell& h = g_hshadow[i];
    if (h.cell.epoch != g_epoch)
    {
      h.granule = granule;
      return h.cell;
    }
    if (h.granule == granule)
      return h.cell;
    i = (i + 1) & ((1u << kHBits) - 1);
  }
}

[[noreturn]] void ReportRace(uintptr_t addr, const Entry& e, bool write, bool atomic, uintptr_t pc)
{
  ++g_in_rt;
  std::string a = std::string(write ? "write" : "read") + (atomic ? " (atomic)" : "") + " in "
                  + Symbol(pc);
  std::string b = std::string(e.flags & 1 ? "write" : "read") + (e.flags & 2 ? " (atomic)" : "")
                  + " in " + Symbol(e.pc);
  (void)addr;
  Violate("data race: " + a + " [thread " + std::to_string(g_cur) + "] is not ordered after " + b
          + " [thread " + std::to_string(e.tid) + "]");
}

void AccessGranule(uintptr_t granule, uint8_t mask, bool write, bool atomic, uintptr_t pc)
{
  Cell& c = GetCell(granule);
  if (c.epoch != g_epoch)
  {
    c.epoch = g_epoch;
    c.freed = 0;
    c.rr = 0;
    for (auto& e : c.e)
      e.used = 0;
  }
  if (c.freed)
  {
    ++g_in_rt;
    Violate(std::string("use after free: ") + (write ? "write" : "read") + " of freed memory in "
            + Symbol(pc) + " [thread " + std::to_string(g_cur) + "], freed by thread "
            + std::to_string(c.freed - 1));
  }
  if (!g_multi)
    return;
  const Thr& t = g_thr[g_cur];
  int slot = -1;
  uint8_t flags = (write ? 1 : 0) | (atomic ? 2 : 0);
  for (int i = 0; i < 4; ++i)
  {
    Entry& e = c.e[i];
    if (!e.used)
    {
      if (slot < 0)
        slot = i;
      continue;
    }
    if (e.tid == g_cur)
    {
      if (e.mask == mask && e.flags == flags)
        slot = i;
      else if ((e.mask & ~mask) == 0 && ((flags & 1) || !(e.flags & 1)) && !(flags & 2))
      {
        e.used = 0;
        if (slot < 0)
          slot = i;
      }
      continue;
    }
    bool before = e.clk <= t.vc.c[e.tid];
    if (!before && (e.mask & mask) && (write || (e.flags & 1)) && !(atomic && (e.flags & 2)))
      ReportRace(granule << 3, e, write, atomic, pc);
    if (before && (e.mask & ~mask) == 0 && (write || !(e.flags & 1)) && slot < 0)
      slot = i;
  }
  if (slot < 0)
    slot = (c.rr++) & 3;
  Entry& e = c.e[slot];
  e.used = 1;
  e.tid = static_cast<uint8_t>(g_cur);
  e.mask = mask;
  e.flags = flags;
  e.clk = t.vc.c[g_cur];
  e.pc = static_cast<uint32_t>(pc);
}

void Access(uintptr_t a, size_t size, bool write, bool atomic, uintptr_t pc)
{
  if (!Ctl() || size == 0)
    return;
  if (++g_accesses > 400000000ull)
  {
    ++g_in_rt;
    Violate("no progress: the execution performs unboundedly many memory accesses");
  }
  if (!g_multi && !InArena(a))
    return;
  if (a >= g_tls_lo && a < g_tls_hi)
    return;
  uintptr_t end = a + size;
  while (a < end)
  {
    uintptr_t g = a >> 3;
    unsigned lo = a & 7;
    unsigned hi = std::min<uintptr_t>(8, lo + (end - a));
    uint8_t mask = static_cast<uint8_t>(((1u << hi) - 1) & ~((1u << lo) - 1));
    AccessGranule(g, mask, write, atomic, pc);
    a = (g + 1) << 3;
  }
}

void ClearShadow(uintptr_t a, size_t size)
{
  for (uintptr_t g = a >> 3; g <= (a + size - 1) >> 3; ++g)
  {
    Cell& c = GetCell(g);
    c.epoch = g_epoch;
    c.freed = 0;
    c.rr = 0;
    for (auto& e : c.e)
      e.used = 0;
  }
}

// ---------------------------------------------------------------- allocation
struct Header
{
  uint64_t size;
  uint64_t magic;
};
constexpr uint64_t kLive = 0xa110ca7ed0000001ull;
constexpr uint64_t kDead = 0xdeadf4ee00000001ull;

void* Alloc(size_t n)
{
  if (Ctl() && !g_warm && g_guard_depth == 0)
  {
    Thr& t = g_thr[g_cur];
    size_t total = (n + sizeof(Header) + 15) & ~size_t{15};
    if (t.brk + total > kRegion + (t.id + 1) * kArena)
    {
      ++g_in_rt;
      Violate("no progress: one execution allocated more than 64 MB");
    }
    auto* h = reinterpret_cast<Header*>(t.brk);
    t.brk += total;
    h->size = n;
    h->magic = kLive;
    return h + 1;
  }
  void* p = malloc(n ? n : 1);
  if (!p)
    abort();
  if (Ctl() && g_hshadow)
    ClearShadow(reinterpret_cast<uintptr_t>(p), n ? n : 1);
  return p;
}

void Dealloc(void* p, uintptr_t pc)
{
  if (!p)
    return;
  auto a = reinterpret_cast<uintptr_t>(p);
  if (!InArena(a))
  {
    free(p);
    return;
  }
  if (!g_ctl || g_cur < 0)
    return;
  if (g_in_rt)
    return;
  auto* h = reinterpret_cast<Header*>(p) - 1;
  if (h->magic != kLive)
  {
    ++g_in_rt;
    Violate(std::string(h->magic == kDead ? "double free" : "invalid free") + " in " + Symbol(pc)
            + " [thread " + std::to_string(g_cur) + "]");
  }
  Access(a, h->size, true, false, pc);
  h->magic = kDead;
  for (uintptr_t g = a >> 3; g <= (a + (h->size ? h->size - 1 : 0)) >> 3; ++g)
  {
    Cell& c = GetCell(g);
    if (c.epoch != g_epoch)
    {
      c.epoch = g_epoch;
      c.rr = 0;
      for (auto& e : c.e)
        e.used = 0;
    }
    c.freed = static_cast<uint8_t>(g_cur + 1);
  }
  if (h->size <= 65536)
    __real_memset(p, 0xdd, h->size);
}

// ---------------------------------------------------------------- scheduling
bool Enabled(const Thr& t)
{
  switch (t.pend)
  {
  case OP_FINISHED:
    return false;
  case OP_LOCK:
  {
    Obj& o = GetObj(t.pobj);
    return o.owner < 0 || (o.owner == t.id && o.count < 0);
  }
  case OP_RDLOCK:
    return GetObj(t.pobj).owner < 0;
  case OP_WRLOCK:
  {
    Obj& o = GetObj(t.pobj);
    return o.owner < 0 && o.count == 0;
  }
  case OP_COND:
  case OP_FUTEX:
  case OP_SLEEP:
    return t.signaled || t.deadline <= g_now;
  case OP_JOIN:
    return g_thr[t.pobj].pend == OP_FINISHED;
  case OP_ONCE:
  case OP_GUARD:
    return GetObj(t.pobj).busy == 0;
  default:
    return true;
  }
}

bool HasTimer(const Thr& t)
{
  return (t.pend == OP_COND || t.pend == OP_FUTEX || t.pend == OP_SLEEP) && !t.signaled
         && t.deadline != kNoDeadline && t.deadline > g_now;
}

uint64_t StateHash()
{
  uint64_t h = 0;
  for (int i = 0; i < g_nthr; ++i)
    h += Mix(g_thr[i].h, i * 2 + 1 + (static_cast<uint64_t>(g_thr[i].pend) << 8));
  return Mix(h, static_cast<uint64_t>(g_now));
}

// Decide among options; returns index or -1 when execution must be abandoned (pruned).
int Decide(const std::vector<Option>& opts, bool cache)
{
  uint64_t sig = opts.size();
  for (auto& o : opts)
    sig = Mix(sig, (static_cast<uint64_t>(o.tid) << 16) | (o.cost << 8) | o.kind);
  if (g_replay)
  {
    int idx = g_pos < g_replay->size() ? (*g_replay)[g_pos] : 0;
    ++g_pos;
    if (idx < 0 || idx >= static_cast<int>(opts.size()))
    {
      g_nondet = true;
      *g_nondet_msg = "replayed choice out of range";
      return -1;
    }
    g_used += opts[idx].cost;
    return idx;
  }
  if (g_pos < g_stack->size())
  {
    Node& n = (*g_stack)[g_pos];
    if (n.sig != sig)
    {
      g_nondet = true;
      *g_nondet_msg = "options differ at decision " + std::to_string(g_pos) + " of a replayed prefix";
      return -1;
    }
    ++g_pos;
    g_used = n.used_before + n.opts[n.chosen].cost;
    return n.chosen;
  }
  if (cache)
  {
    uint64_t key = Mix(StateHash(), Mix(sig, g_cur + 1));
    int remaining = g_bound - g_used;
    auto it = g_visited->find(key);
    if (it != g_visited->end())
    {
      if (it->second >= remaining)
      {
        g_pruned = true;
        return -1;
      }
      it->second = static_cast<int8_t>(remaining);
    }
    else
    {
      g_visited->emplace(key, static_cast<int8_t>(remaining));
    }
    if (g_new_visited)
      g_new_visited->emplace_back(key, static_cast<int8_t>(remaining));
  }
  int first = -1;
  for (size_t i = 0; i < opts.size(); ++i)
  {
    if (g_used + opts[i].cost <= g_bound)
    {
      if (first < 0)
        first = static_cast<int>(i);
    }
    else
      g_cut = true;
  }
  if (first < 0)
  {
    // Can only happen when every continuation is charged: take the cheapest one for free.
    first = 0;
  }
  g_stack->push_back({opts, first, g_used, sig});
  ++g_pos;
  g_used += opts[first].cost;
  return first;
}

// Suspend the current thread with the given pending operation until the scheduler selects it.
void Wait(Op op, uintptr_t obj, int64_t deadline, const char* what, uintptr_t pc)
{
  Thr& t = g_thr[g_cur];
  t.pend = op;
  t.pobj = obj;
  t.deadline = deadline;
  t.what = what;
  t.pc = pc;
  ++g_in_rt;
  ToSched();
  --g_in_rt;
}
// With try-locks in the code, it can be observed that a lock is held: then threads are switched before unlocking too.
const bool g_unlock_points = getenv("MC_UNLOCK_POINTS") != nullptr;
inline void SchedPoint(const char* what, uintptr_t pc) { Wait(OP_POINT, 0, kNoDeadline, what, pc); }

void CheckUse(uintptr_t a, uintptr_t pc)
{
  if (InArena(a))
    AccessGranule(a >> 3, 0, false, true, pc);
}

void RunThread(int id)
{
  Thr& t = g_thr[id];
  g_cur = id;
  uint64_t* eh = EhGlobals();
  eh[0] = t.eh[0];
  eh[1] = t.eh[1];
  std::__once_callable = t.once[0];
  std::__once_call = reinterpret_cast<void (*)()>(t.once[1]);
  errno = t.err;
  if (g_tls_size)
    __real_memcpy(g_tls_block, t.tls, g_tls_size);
  mc_swap(&g_sched_sp, t.sp);
}

extern "C" void mc_fiber_main()
{
  Thr& t = g_thr[g_cur];
  g_in_rt = 0;
  std::string msg;
  bool bad = false;
  try
  {
    t.ret = t.fn(t.arg);
  }
  catch (const std::exception& e)
  {
    ++g_in_rt;
    bad = true;
    msg = std::string("uncaught exception in thread ") + std::to_string(t.id) + ": " + e.what();
    --g_in_rt;
  }
  catch (...)
  {
    bad = true;
  }
  ++g_in_rt;
  if (bad)
    Violate(msg.empty() ? "uncaught exception in thread " + std::to_string(t.id) : msg);
  t.pend = OP_FINISHED;
  t.h = Mix(t.h, 0xf1);
  for (;;)
    ToSched();
}

int NewThread(void* (*fn)(void*), void* arg)
{
  if (g_nthr >= kMaxThreads)
    Violate("too many threads in one execution");
  int id = g_nthr++;
  Thr& t = g_thr[id];
  t.id = id;
  t.stack = reinterpret_cast<char*>(kStacks + id * kStack);
  t.vc.Clear();
  t.vc.c[id] = 1;
  t.h = 0x1234;
  t.pend = OP_START;
  t.pobj = 0;
  t.deadline = kNoDeadline;
  t.signaled = t.reacquire = false;
  t.what = "thread start";
  t.pc = 0;
  t.fn = fn;
  t.arg = arg;
  t.ret = nullptr;
  t.detached = t.joined = false;
  t.eh[0] = t.eh[1] = 0;
  t.once[0] = t.once[1] = nullptr;
  t.err = 0;
  t.brk = kRegion + id * kArena + 64;
  if (g_tls_size)
  {
    if (!t.tls)
      t.tls = static_cast<char*>(malloc(g_tls_size));
    __real_memset(t.tls, 0, g_tls_size);
    __real_memcpy(t.tls, g_tls_image, g_tls_image_size);
  }
  auto* sp = reinterpret_cast<uint64_t*>(t.stack + kStack - 64);
  *--sp = 0;                                            // return address of fiber main (never used)
  *--sp = reinterpret_cast<uint64_t>(&mc_fiber_main);   // ret target
  for (int i = 0; i < 6; ++i)
    *--sp = 0;
  --sp;
  uint32_t mxcsr = 0x1f80;
  uint16_t fcw = 0x037f;
  *sp = 0;
  __builtin_memcpy(sp, &mxcsr, 4);
  __builtin_memcpy(reinterpret_cast<char*>(sp) + 4, &fcw, 2);
  t.sp = sp;
  return id;
}

void* ScenarioEntry(void*)
{
  g_scn->fn();
  return nullptr;
}

std::string DescribeThreads()
{
  std::string s;
  for (int i = 0; i < g_nthr; ++i)
  {
    Thr& t = g_thr[i];
    if (t.pend == OP_FINISHED)
      continue;
    s += (s.empty() ? "" : "; ") + std::string("thread ") + std::to_string(i) + " blocked in "
         + kOpNames[t.pend] + " (" + (t.what ? t.what : "?") + " called from " + Symbol(t.pc) + ")";
  }
  return s;
}

// Runs one execution to its end.
void RunExecution()
{
  ++g_epoch;
  g_nthr = 0;
  g_cur = -1;
  g_multi = false;
  g_now = kEpochStart;
  g_steps = 0;
  g_accesses = 0;
  g_pos = 0;
  g_used = 0;
  g_pruned = false;
  g_violated = false;
  g_new_static = false;
  g_guard_depth = 0;
  g_violation->clear();
  g_log->clear();
  g_stamp = 0;
  g_outcome->clear();
  for (char* g : *g_inprogress)
    *g = 0;
  g_inprogress->clear();
  g_exec_started = WallNow();
  NewThread(&ScenarioEntry, nullptr);
  g_ctl = true;
  g_in_rt = 1;
  std::vector<Option> opts;
  uint64_t* eh = EhGlobals();
  uint64_t saved_eh[2] = {eh[0], eh[1]};
  if (sigsetjmp(g_crash_jmp, 1) != 0)
  {
    // crashed inside a fiber: violation was recorded by the handler
    g_in_rt = 1;
  }
  while (!g_violated)
  {
    opts.clear();
    bool cur_ok = g_cur >= 0 && Enabled(g_thr[g_cur]) && g_thr[g_cur].pend != OP_YIELD
                  && g_thr[g_cur].pend != OP_FINISHED;
    bool unfinished = false;
    int64_t earliest = kNoDeadline;
    if (cur_ok)
      opts.push_back({static_cast<int16_t>(g_cur), 0, 0});
    for (int k = 0; k < g_nthr; ++k)
    {
      int i = (std::max(g_cur, 0) + k) % g_nthr;
      Thr& t = g_thr[i];
      if (t.pend == OP_FINISHED)
        continue;
      unfinished = true;
      if (i == g_cur && cur_ok)
        continue;
      if (Enabled(t))
      {
        if (!(i == g_cur && t.pend == OP_YIELD))
          opts.push_back({static_cast<int16_t>(i), static_cast<uint8_t>(cur_ok ? 1 : 0), 0});
      }
      else if (HasTimer(t))
        earliest = std::min(earliest, t.deadline);
    }
    if (!unfinished)
      break;
    if (opts.empty() && g_cur >= 0 && g_thr[g_cur].pend == OP_YIELD)
      opts.push_back({static_cast<int16_t>(g_cur), 0, 0});
    if (opts.empty())
    {
      if (earliest == kNoDeadline)
      {
        SetViolation("deadlock: " + DescribeThreads());
        break;
      }
      g_now = earliest;
      continue;
    }
    if (g_scn->delay_bound && !cur_ok)
      for (size_t i = 1; i < opts.size(); ++i)
        opts[i].cost = 1;
    if (g_scn->early_timers && earliest != kNoDeadline)
      for (int i = 0; i < g_nthr; ++i)
        if (HasTimer(g_thr[i]) && g_thr[i].deadline == earliest)
          opts.push_back({static_cast<int16_t>(i), 1, 1});
    if (g_scn->spurious)
      for (int i = 0; i < g_nthr; ++i)
        if (g_thr[i].pend == OP_COND && !Enabled(g_thr[i]))
          opts.push_back({static_cast<int16_t>(i), 1, 2});
    int idx = 0;
    if (opts.size() > 1)
    {
      idx = Decide(opts, true);
      if (idx < 0)
        break;
    }
    const Option& o = opts[idx];
    if (o.kind == 1)
      g_now = g_thr[o.tid].deadline;
    else if (o.kind == 2)
    {
      g_thr[o.tid].signaled = true;
      // leave the wait list
      Obj& cv = GetObj(g_thr[o.tid].pobj);
      for (int i = 0; i < cv.nwait; ++i)
        if (cv.wait[i] == o.tid)
        {
          for (int j = i + 1; j < cv.nwait; ++j)
            cv.wait[j - 1] = cv.wait[j];
          --cv.nwait;
          break;
        }
      g_thr[o.tid].h = Mix(g_thr[o.tid].h, 0x5b);
    }
    ++g_steps;
    ++g_transitions;
    if (g_steps > static_cast<uint64_t>(g_scn->max_steps))
    {
      if (g_scn->spin_fatal)
        SetViolation("no progress within " + std::to_string(g_scn->max_steps)
                     + " scheduling steps: " + DescribeThreads());
      break;
    }
    if (g_trace)
    {
      Thr& t = g_thr[o.tid];
      printf("  %s thread %d: %s (%s) from %s%s t=+%.3fms\n", o.tid == g_cur ? "      " : "switch",
             o.tid, t.what ? t.what : "", kOpNames[t.pend], Symbol(t.pc).c_str(),
             opts.size() > 1 ? (" [choice " + std::to_string(idx) + "/" + std::to_string(opts.size())
                                + (o.cost ? ", deviation]" : "]")).c_str()
                             : "",
             (g_now - kEpochStart) / 1e6);
      fflush(stdout);
    }
    RunThread(o.tid);
    g_in_rt = 1;
  }
  eh[0] = saved_eh[0];
  eh[1] = saved_eh[1];
  g_ctl = false;
  g_in_rt = 1;
}

void CrashHandler(int sig, siginfo_t* info, void*)
{
  if (!g_ctl || g_cur < 0)
  {
    const char m[] = "mcrt: crash outside of a controlled execution\n";
    if (write(2, m, sizeof m - 1) < 0)
      _exit(4);
    _exit(4);
  }
  g_in_rt = 1;
  auto a = reinterpret_cast<uintptr_t>(info->si_addr);
  std::string msg = std::string("crash: signal ") + strsignal(sig);
  if (sig == SIGSEGV && a >= kStacks && a < kRegionEnd)
    msg += " (stack overflow)";
  if (sig == SIGALRM)
    msg = "no progress: one execution runs for too long without a scheduling point";
  SetViolation(msg + " [thread " + std::to_string(g_cur) + "]");
  siglongjmp(g_crash_jmp, 1);
}

void AlarmHandler(int sig, siginfo_t* info, void* ctx)
{
  if (g_ctl && g_cur >= 0 && WallNow() - g_exec_started > 20.0)
    CrashHandler(sig, info, ctx);
}

void TerminateHandler()
{
  if (g_ctl && g_cur >= 0)
  {
    g_in_rt = 1;
    std::string what;
    if (auto p = std::current_exception())
    {
      try
      {
        std::rethrow_exception(p);
      }
      catch (const std::exception& e)
      {
        what = std::string(": ") + e.what();
      }
      catch (...)
      {
      }
    }
    SetViolation("std::terminate called [thread " + std::to_string(g_cur) + "]" + what);
    siglongjmp(g_crash_jmp, 1);
  }
  _exit(4);
}

void Init()
{
  static bool done = false;
  if (done)
    return;
  done = true;
  __libc_single_threaded = 0;
  dl_iterate_phdr(&FindTls, nullptr);
  {
    uintptr_t fs = reinterpret_cast<uintptr_t>(__builtin_thread_pointer());
    g_tls_lo = fs - 65536;
    g_tls_hi = fs + 4096;
  }
  void* r = mmap(reinterpret_cast<void*>(kRegion), kRegionEnd - kRegion, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (r == MAP_FAILED)
  {
    perror("mmap");
    _exit(4);
  }
  for (int i = 0; i < kMaxThreads; ++i)
    mprotect(reinterpret_cast<void*>(kStacks + i * kStack), 16384, PROT_NONE);
  size_t cells = (kRegionEnd - kRegion) >> 3;
  g_shadow = static_cast<Cell*>(mmap(nullptr, cells * sizeof(Cell), PROT_READ | PROT_WRITE,
                                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  g_hshadow = static_cast<HCell*>(mmap(nullptr, sizeof(HCell) << kHBits, PROT_READ | PROT_WRITE,
                                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  g_objs = static_cast<Obj*>(mmap(nullptr, sizeof(Obj) << kObjBits, PROT_READ | PROT_WRITE,
                                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (g_shadow == MAP_FAILED || g_hshadow == MAP_FAILED || g_objs == MAP_FAILED)
  {
    perror("mmap");
    _exit(4);
  }
  g_log = new std::vector<std::string>;
  g_violation = new std::string;
  g_outcome = new std::string;
  g_nondet_msg = new std::string;
  g_guards = new std::set<uintptr_t>;
  g_inprogress = new std::vector<char*>;
  g_stack = new std::vector<Node>;
  g_visited = new std::unordered_map<uint64_t, int8_t>;
  static char altstack[262144];
  stack_t ss{};
  ss.ss_sp = altstack;
  ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = &CrashHandler;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
    sigaction(s, &sa, nullptr);
  sa.sa_sigaction = &AlarmHandler;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER | SA_RESTART;
  sigaction(SIGALRM, &sa, nullptr);
  struct itimerval it{};
  it.it_interval.tv_sec = 5;
  it.it_value.tv_sec = 5;
  setitimer(ITIMER_REAL, &it, nullptr);
  std::set_terminate(&TerminateHandler);
}
}  // namespace

#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))

// ================================================================ instrumentation entry points
extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define RW(n)                                                                                      \
  void __tsan_read##n(void* a) { Access((uintptr_t)a, n, false, false, PC); }                       \
  void __tsan_write##n(void* a) { Access((uintptr_t)a, n, true, false, PC); }                       \
  void __tsan_unaligned_read##n(void* a) { Access((uintptr_t)a, n, false, false, PC); }             \
  void __tsan_unaligned_write##n(void* a) { Access((uintptr_t)a, n, true, false, PC); }             \
  void __tsan_volatile_read##n(void* a) { Access((uintptr_t)a, n, false, false, PC); }              \
  void __tsan_volatile_write##n(void* a) { Access((uintptr_t)a, n, true, false, PC); }              \
  void __tsan_read##n##_pc(void* a, void* pc) { Access((uintptr_t)a, n, false, false, (uintptr_t)pc); } \
  void __tsan_write##n##_pc(void* a, void* pc) { Access((uintptr_t)a, n, true, false, (uintptr_t)pc); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#undef RW
void __tsan_read_range(void* a, unsigned long n) { Access((uintptr_t)a, n, false, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { Access((uintptr_t)a, n, true, false, PC); }
void __tsan_vptr_read(void* a) { Access((uintptr_t)a, 8, false, false, PC); }
void __tsan_vptr_update(void** a, void* v)
{
  if (*a != v)
    Access((uintptr_t)a, 8, true, false, PC);
  else
    Access((uintptr_t)a, 8, false, false, PC);
}
void standin_access(const void* a, int w)
{
  Access((uintptr_t)a & ~uintptr_t{7}, 8, w != 0, false, PC);
}
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
  Access((uintptr_t)s, n, false, false, PC);
  Access((uintptr_t)d, n, true, false, PC);
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
  Access((uintptr_t)s, n, false, false, PC);
  Access((uintptr_t)d, n, true, false, PC);
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
  Access((uintptr_t)d, n, true, false, PC);
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n)
{
  Access((uintptr_t)a, n, false, false, PC);
  Access((uintptr_t)b, n, false, false, PC);
  return __real_memcmp(a, b, n);
}
}

// ---------------------------------------------------------------- atomics
namespace
{
std::unordered_map<uintptr_t, bool>* g_refpc = nullptr;

// Reference counts of shared ownership are not scheduling points: increments and non-final decrements
// commute and cannot be observed; the final decrement enters the state hash.
bool IsRefcount(uintptr_t pc)
{
  RtGuard g;
  if (!g_refpc)
    g_refpc = new std::unordered_map<uintptr_t, bool>;
  auto it = g_refpc->find(pc);
  if (it != g_refpc->end())
    return it->second;
  std::string s = Symbol(pc);
  bool r = s.find("_Sp_counted") != std::string::npos || s.find("__shared_count") != std::string::npos
           || s.find("__weak_count") != std::string::npos
           || s.find("__exchange_and_add") != std::string::npos
           || s.find("__atomic_add") != std::string::npos;
  (*g_refpc)[pc] = r;
  return r;
}

bool IsAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool IsRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

template <typename T>
struct AtomicOp
{
  static bool Pre(volatile T* a, uintptr_t pc, bool& refcount, bool write)
  {
    if (!Ctl())
      return false;
    refcount = IsRefcount(pc);
    bool guard = g_guards->count((uintptr_t)a & ~uintptr_t{7}) != 0;
    if (guard)
    {
      Thr& t = g_thr[g_cur];
      Acquire(t, GetObj((uintptr_t)a & ~uintptr_t{7}));
      return false;
    }
    if (!refcount && g_multi)
      SchedPoint(write ? "atomic write" : "atomic read", pc);
    Access((uintptr_t)a, sizeof(T), write, true, pc);
    return true;
  }
  static T Load(volatile T* a, int mo, uintptr_t pc)
  {
    bool rc = false;
    if (!Pre(a, pc, rc, false))
      return *a;
    Thr& t = g_thr[g_cur];
    Obj& o = GetObj((uintptr_t)a);
    if (IsAcq(mo))
      Acquire(t, o);
    if (!rc && g_multi)
      // a load depends on the last write only
      t.h = Mix(Mix(t.h, 0xa1), Mix(o.addr, o.h));
    else if (rc)
      t.h = Mix(t.h, (uint64_t)*a + 77);
    return *a;
  }
  static void Store(volatile T* a, T v, int mo, uintptr_t pc)
  {
    bool rc = false;
    if (!Pre(a, pc, rc, true))
    {
      *a = v;
      return;
    }
    Thr& t = g_thr[g_cur];
    Obj& o = GetObj((uintptr_t)a);
    if (IsRel(mo))
      ReleaseStore(t, o);
    else
      o.vc.Clear();
    if (!rc && g_multi)
      HashSync(t, o, 0xa2);
    *a = v;
  }
  template <typename F>
  static T Rmw(volatile T* a, int mo, uintptr_t pc, F f)
  {
    bool rc = false;
    if (!Pre(a, pc, rc, true))
    {
      T old = *a;
      *a = f(old);
      return old;
    }
    Thr& t = g_thr[g_cur];
    Obj& o = GetObj((uintptr_t)a);
    if (IsAcq(mo))
      Acquire(t, o);
    if (IsRel(mo))
      Release(t, o);
    T old = *a;
    *a = f(old);
    if (!rc)
    {
      if (g_multi)
        HashSync(t, o, 0xa3);
    }
    else if (*a == 0)
      t.h = Mix(t.h, Mix(o.addr, 0xa4));
    return old;
  }
  static bool Cas(volatile T* a, T* e, T v, int mo, int fmo, uintptr_t pc)
  {
    bool rc = false;
    if (!Pre(a, pc, rc, true))
    {
      if (*a == *e)
      {
        *a = v;
        return true;
      }
      *e = *a;
      return false;
    }
    Thr& t = g_thr[g_cur];
    Obj& o = GetObj((uintptr_t)a);
    bool ok = *a == *e;
    int m = ok ? mo : fmo;
    if (IsAcq(m))
      Acquire(t, o);
    if (ok && IsRel(m))
      Release(t, o);
    if (g_multi)
      HashSync(t, o, 0xa5);
    if (ok)
      *a = v;
    else
      *e = *a;
    return ok;
  }
};
}  // namespace

extern "C"
{
#define AT(bits, T)                                                                                \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo)                                         \
  {                                                                                                \
    return AtomicOp<T>::Load(const_cast<volatile T*>(a), mo, PC);                                   \
  }                                                                                                \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { AtomicOp<T>::Store(a, v, mo, PC); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo)                                      \
  {                                                                                                \
    return AtomicOp<T>::Rmw(a, mo, PC, [v](T) { return v; });                                       \
  }                                                                                                \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo)                                     \
  {                                                                                                \
    return AtomicOp<T>::Rmw(a, mo, PC, [v](T o) { return (T)(o + v); });                            \
  }                                                                                                \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo)                                     \
  {                                                                                                \
    return AtomicOp<T>::Rmw(a, mo, PC, [v](T o) { return (T)(o - v); });                            \
  }                                                                                                \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo)                                     \
  {                                                                                                \
    return AtomicOp<T>::Rmw(a, mo, PC, [v](T o) { return (T)(o & v); });                            \
  }                                                                                                \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo)                                      \
  {                                                                                                \
    return AtomicOp<T>::Rmw(a, mo, PC, [v](T o) { return (T)(o | v); });                            \
  }                                                                                                \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo)                                     \
  {                                                                                                \
    return AtomicOp<T>::Rmw(a, mo, PC, [v](T o) { return (T)(o ^ v); });                            \
  }                                                                                                \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo)                                    \
  {                                                                                                \
    return AtomicOp<T>::Rmw(a, mo, PC, [v](T o) { return (T) ~(o & v); });                          \
  }                                                                                                \
  bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo)     \
  {                                                                                                \
    return AtomicOp<T>::Cas(a, e, v, mo, fmo, PC);                                                  \
  }                                                                                                \
  bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo)       \
  {                                                                                                \
    return AtomicOp<T>::Cas(a, e, v, mo, fmo, PC);                                                  \
  }                                                                                                \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo)            \
  {                                                                                                \
    AtomicOp<T>::Cas(a, &e, v, mo, fmo, PC);                                                        \
    return e;                                                                                      \
  }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
AT(128, __uint128_t)
#undef AT
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// ================================================================ allocation operators
void* operator new(size_t n) { return Alloc(n); }
void* operator new[](size_t n) { return Alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Alloc(n); }
void operator delete(void* p) noexcept { Dealloc(p, PC); }
void operator delete[](void* p) noexcept { Dealloc(p, PC); }
void operator delete(void* p, size_t) noexcept { Dealloc(p, PC); }
void operator delete[](void* p, size_t) noexcept { Dealloc(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Dealloc(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Dealloc(p, PC); }

// ================================================================ threads library
namespace
{
int64_t ToNs(const struct timespec* ts) { return ts->tv_sec * 1000000000ll + ts->tv_nsec; }

int LockMutex(pthread_mutex_t* m, int64_t deadline, uintptr_t pc, const char* what)
{
  auto a = reinterpret_cast<uintptr_t>(m);
  CheckUse(a, pc);
  Obj& o = GetObj(a);
  bool recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
  Thr& t = g_thr[g_cur];
  if (recursive && o.owner == t.id)
  {
    ++o.count;
    return 0;
  }
  (void)deadline;
  Wait(OP_LOCK, a, kNoDeadline, what, pc);
  CheckUse(a, pc);
  o.owner = t.id;
  o.count = 1;
  Acquire(t, o);
  HashSync(t, o, 0x10);
  return 0;
}

void UnlockMutex(pthread_mutex_t* m, uintptr_t pc)
{
  auto a = reinterpret_cast<uintptr_t>(m);
  CheckUse(a, pc);
  Obj& o = GetObj(a);
  Thr& t = g_thr[g_cur];
  if (o.owner != t.id)
  {
    ++g_in_rt;
    Violate("unlock of a mutex not held by the thread, in " + Symbol(pc));
  }
  if (--o.count > 0)
    return;
  o.owner = -1;
  o.h = Mix(t.h, 0x11);
  Release(t, o);
}

constexpr int kDestroyed = 0xdd;  // content of a destroyed condition variable

int CondWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline, uintptr_t pc)
{
  auto a = reinterpret_cast<uintptr_t>(c);
  auto am = reinterpret_cast<uintptr_t>(m);
  SchedPoint("condition wait", pc);
  CheckUse(a, pc);
  Thr& t = g_thr[g_cur];
  Obj& cv = GetObj(a);
  cv.destroyed = cv.destroyed && *reinterpret_cast<volatile unsigned char*>(a) == kDestroyed;
  if (cv.destroyed)
  {
    ++g_in_rt;
    Violate("wait on a destroyed condition variable in " + Symbol(pc));
  }
  int count = GetObj(am).count;
  HashSync(t, cv, 0x20);
  cv.wait[cv.nwait++] = static_cast<uint8_t>(t.id);
  t.signaled = false;
  GetObj(am).count = 1;
  UnlockMutex(m, pc);
  Wait(OP_COND, a, deadline, "condition wait", pc);
  bool timed_out = false;
  if (!t.signaled)
  {
    timed_out = true;
    CheckUse(a, pc);
    Obj& cv2 = GetObj(a);
    int k = 0;
    for (int i = 0; i < cv2.nwait; ++i)
      if (cv2.wait[i] != t.id)
        cv2.wait[k++] = cv2.wait[i];
    cv2.nwait = k;
    HashSync(t, cv2, 0x21);
  }
  t.signaled = false;
  LockMutex(m, kNoDeadline, pc, "mutex re-acquisition after condition wait");
  GetObj(am).count = count;
  return timed_out ? ETIMEDOUT : 0;
}

int ChooseInternal(int n, bool hash)
{
  if (n <= 1)
    return 0;
  ++g_in_rt;
  std::vector<Option> opts;
  for (int i = 0; i < n; ++i)
    opts.push_back({static_cast<int16_t>(i), 0, 3});
  int idx = Decide(opts, false);
  if (idx < 0)
  {
    // prune or nondeterminism: end execution
    g_pruned = true;
    if (g_nondet)
      SetViolation("nondeterminism");
    Abandon();
  }
  if (g_trace)
    printf("         thread %d: chooses %d of %d\n", g_cur, idx, n);
  --g_in_rt;
  if (hash)
    g_thr[g_cur].h = Mix(g_thr[g_cur].h, 0xc0 + idx);
  return idx;
}

void Notify(uintptr_t a, bool all, uintptr_t pc)
{
  SchedPoint(all ? "notify all" : "notify one", pc);
  CheckUse(a, pc);
  Obj& cv = GetObj(a);
  Thr& t = g_thr[g_cur];
  cv.destroyed = cv.destroyed && *reinterpret_cast<volatile unsigned char*>(a) == kDestroyed;
  if (cv.destroyed)
  {
    ++g_in_rt;
    Violate("notification of a destroyed condition variable in " + Symbol(pc));
  }
  HashSync(t, cv, all ? 0x22 : 0x23);
  if (cv.nwait == 0)
    return;
  if (all)
  {
    for (int i = 0; i < cv.nwait; ++i)
    {
      Thr& w = g_thr[cv.wait[i]];
      w.signaled = true;
      w.h = Mix(w.h, t.h);
    }
    cv.nwait = 0;
    return;
  }
  int k = ChooseInternal(cv.nwait, true);
  Thr& w = g_thr[cv.wait[k]];
  for (int j = k + 1; j < cv.nwait; ++j)
    cv.wait[j - 1] = cv.wait[j];
  --cv.nwait;
  w.signaled = true;
  w.h = Mix(w.h, t.h);
}
}  // namespace

extern "C"
{
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) throw()
{
  if (!Ctl())
    return Real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create")(out, attr, fn, arg);
  (void)attr;
  SchedPoint("thread creation", PC);
  ++g_in_rt;
  int id = NewThread(fn, arg);
  --g_in_rt;
  Thr& t = g_thr[g_cur];
  Thr& c = g_thr[id];
  g_multi = true;
  c.vc.Join(t.vc);
  ++t.vc.c[t.id];
  c.h = Mix(t.h, 0x31);
  t.h = Mix(t.h, 0x30);
  *out = static_cast<pthread_t>(0x7000 + id);
  return 0;
}
int pthread_join(pthread_t th, void** ret)
{
  if (!Ctl())
    return Real<int (*)(pthread_t, void**)>("pthread_join")(th, ret);
  int id = static_cast<int>(th - 0x7000);
  if (id < 0 || id >= g_nthr || g_thr[id].joined || g_thr[id].detached)
  {
    ++g_in_rt;
    Violate("join of an invalid thread");
  }
  if (id == g_cur)
    return EDEADLK;
  Wait(OP_JOIN, id, kNoDeadline, "join", PC);
  Thr& t = g_thr[g_cur];
  Thr& c = g_thr[id];
  c.joined = true;
  t.vc.Join(c.vc);
  t.h = Mix(Mix(t.h, 0x32), c.h);
  if (ret)
    *ret = c.ret;
  return 0;
}
int pthread_detach(pthread_t th) throw()
{
  if (!Ctl())
    return Real<int (*)(pthread_t)>("pthread_detach")(th);
  int id = static_cast<int>(th - 0x7000);
  g_thr[id].detached = true;
  return 0;
}
pthread_t pthread_self() throw()
{
  if (!g_ctl || g_cur < 0)
    return Real<pthread_t (*)()>("pthread_self")();
  return static_cast<pthread_t>(0x7000 + g_cur);
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* at) throw()
{
  return Real<int (*)(pthread_mutex_t*, const pthread_mutexattr_t*)>("pthread_mutex_init")(m, at);
}
int pthread_mutex_destroy(pthread_mutex_t* m) throw()
{
  if (!Ctl())
    return 0;
  Obj& o = GetObj((uintptr_t)m);
  if (o.owner >= 0)
  {
    ++g_in_rt;
    Violate("destruction of a locked mutex in " + Symbol(PC));
  }
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) throw()
{
  if (!Ctl())
  {
    if (g_ctl)
      return 0;
    static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    return real(m);
  }
  return LockMutex(m, kNoDeadline, PC, "mutex lock");
}
int pthread_mutex_trylock(pthread_mutex_t* m) throw()
{
  if (!Ctl())
    return Real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock")(m);
  auto a = reinterpret_cast<uintptr_t>(m);
  SchedPoint("mutex try-lock", PC);
  CheckUse(a, PC);
  Thr& t = g_thr[g_cur];
  Obj& o = GetObj(a);
  HashSync(t, o, 0x12);
  if (o.owner >= 0)
  {
    if (o.owner == t.id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)
    {
      ++o.count;
      return 0;
    }
    return EBUSY;
  }
  o.owner = t.id;
  o.count = 1;
  Acquire(t, o);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) throw()
{
  if (!Ctl())
  {
    if (g_ctl)
      return 0;
    static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    return real(m);
  }
  if (g_unlock_points)
    SchedPoint("mutex unlock", PC);
  UnlockMutex(m, PC);
  return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts) throw()
{
  if (!Ctl())
    return ENOSYS;
  // Timed lock: modelled as attempt, then timeout of virtual time.
  Obj& o = GetObj((uintptr_t)m);
  SchedPoint("timed mutex lock", PC);
  while (o.owner >= 0)
  {
    if (g_now >= ToNs(ts))
    {
      HashSync(g_thr[g_cur], o, 0x13);
      return ETIMEDOUT;
    }
    g_thr[g_cur].signaled = false;
    Wait(OP_SLEEP, 0, std::min(ToNs(ts), g_now + 1000000), "timed mutex lock", PC);
  }
  o.owner = g_cur;
  o.count = 1;
  Acquire(g_thr[g_cur], o);
  HashSync(g_thr[g_cur], o, 0x10);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) throw()
{
  return pthread_mutex_clocklock(m, CLOCK_REALTIME, ts);
}
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t* a) throw()
{
  return Real<int (*)(pthread_rwlock_t*, const pthread_rwlockattr_t*)>("pthread_rwlock_init")(l, a);
}
int pthread_rwlock_destroy(pthread_rwlock_t*) throw() { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) throw()
{
  if (!Ctl())
    return g_ctl ? 0 : Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock")(l);
  CheckUse((uintptr_t)l, PC);
  Wait(OP_RDLOCK, (uintptr_t)l, kNoDeadline, "shared lock", PC);
  Obj& o = GetObj((uintptr_t)l);
  ++o.count;
  Acquire(g_thr[g_cur], o);
  HashSync(g_thr[g_cur], o, 0x14);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) throw()
{
  if (!Ctl())
    return g_ctl ? 0 : Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock")(l);
  CheckUse((uintptr_t)l, PC);
  Wait(OP_WRLOCK, (uintptr_t)l, kNoDeadline, "exclusive lock", PC);
  Obj& o = GetObj((uintptr_t)l);
  o.owner = g_cur;
  Acquire(g_thr[g_cur], o);
  g_thr[g_cur].vc.Join(o.rvc);
  HashSync(g_thr[g_cur], o, 0x15);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) throw()
{
  if (!Ctl())
    return g_ctl ? 0 : Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock")(l);
  if (g_unlock_points)
    SchedPoint("shared lock release", PC);
  Obj& o = GetObj((uintptr_t)l);
  Thr& t = g_thr[g_cur];
  HashSync(t, o, 0x16);
  if (o.owner == g_cur)
  {
    o.owner = -1;
    Release(t, o);
  }
  else
  {
    // Readers are not ordered with each other.
    --o.count;
    o.rvc.Join(t.vc);
    ++t.vc.c[t.id];
  }
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) throw()
{
  if (!Ctl())
    return g_ctl ? 0 : Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock")(l);
  SchedPoint("shared try-lock", PC);
  CheckUse((uintptr_t)l, PC);
  Obj& o = GetObj((uintptr_t)l);
  HashSync(g_thr[g_cur], o, 0x17);
  if (o.owner >= 0)
    return EBUSY;
  ++o.count;
  Acquire(g_thr[g_cur], o);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) throw()
{
  if (!Ctl())
    return g_ctl ? 0 : Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock")(l);
  SchedPoint("exclusive try-lock", PC);
  CheckUse((uintptr_t)l, PC);
  Obj& o = GetObj((uintptr_t)l);
  HashSync(g_thr[g_cur], o, 0x18);
  if (o.owner >= 0 || o.count > 0)
    return EBUSY;
  o.owner = g_cur;
  Acquire(g_thr[g_cur], o);
  g_thr[g_cur].vc.Join(o.rvc);
  return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* at) throw()
{
  if (!Ctl())
    return Real<int (*)(pthread_cond_t*, const pthread_condattr_t*)>("pthread_cond_init")(c, at);
  __real_memset(c, 0, sizeof *c);
  Obj& o = GetObj((uintptr_t)c);
  o.destroyed = false;
  o.nwait = 0;
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) throw()
{
  if (!Ctl())
    return 0;
  CheckUse((uintptr_t)c, PC);
  Obj& o = GetObj((uintptr_t)c);
  if (o.nwait > 0)
  {
    ++g_in_rt;
    Violate("destruction of a condition variable with waiting threads in " + Symbol(PC));
  }
  o.destroyed = true;
  // a new object at the same address overwrites the mark
  __real_memset(c, kDestroyed, sizeof *c);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
  if (!Ctl())
    return Real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait")(c, m);
  return CondWait(c, m, kNoDeadline, PC);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
  if (!Ctl())
    return Real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait")(c, m, ts);
  return CondWait(c, m, ToNs(ts), PC);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts)
{
  if (!Ctl())
    return Real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait")(c, m, CLOCK_REALTIME, ts);
  return CondWait(c, m, ToNs(ts), PC);
}
int pthread_cond_signal(pthread_cond_t* c) throw()
{
  if (!Ctl())
    return g_ctl ? 0 : Real<int (*)(pthread_cond_t*)>("pthread_cond_signal")(c);
  Notify((uintptr_t)c, false, PC);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) throw()
{
  if (!Ctl())
    return g_ctl ? 0 : Real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast")(c);
  Notify((uintptr_t)c, true, PC);
  return 0;
}
int pthread_once(pthread_once_t* flag, void (*fn)(void))
{
  if (!Ctl())
  {
    if (*flag == 2)
      return 0;
    fn();
    *flag = 2;
    return 0;
  }
  auto a = reinterpret_cast<uintptr_t>(flag);
  Thr& t = g_thr[g_cur];
  if (*flag == 2 && !InRegion(a))
  {
    Acquire(t, GetObj(a));
    return 0;
  }
  Wait(OP_ONCE, a, kNoDeadline, "call_once", PC);
  CheckUse(a, PC);
  Obj& o = GetObj(a);
  if (*flag == 2)
  {
    Acquire(t, o);
    t.h = Mix(Mix(t.h, 0x40), o.h);
    return 0;
  }
  o.busy = g_cur + 1;
  bool is_static = !InRegion(a) && !g_scn->fresh;
  if (is_static)
  {
    ++g_guard_depth;
    g_new_static = true;
  }
  HashSync(t, o, 0x41);
  try
  {
    fn();
  }
  catch (...)
  {
    if (is_static)
      --g_guard_depth;
    GetObj(a).busy = 0;
    throw;
  }
  if (is_static)
    --g_guard_depth;
  Obj& o2 = GetObj(a);
  o2.busy = 0;
  *flag = 2;
  HashSync(t, o2, 0x42);
  Release(t, o2);
  return 0;
}
int __cxa_guard_acquire(long long* g)
{
  auto a = reinterpret_cast<uintptr_t>(g);
  char* b = reinterpret_cast<char*>(g);
  if (*b)
    return 0;
  if (!Ctl())
  {
    return 1;
  }
  {
    RtGuard rt;
    g_guards->insert(a & ~uintptr_t{7});
  }
  if (GetObj(a).busy || g_scn->fresh)
  {
    Wait(OP_GUARD, a, kNoDeadline, "static initialisation", PC);
    if (*b)
    {
      Thr& t = g_thr[g_cur];
      Acquire(t, GetObj(a));
      t.h = Mix(Mix(t.h, 0x45), GetObj(a).h);
      return 0;
    }
  }
  GetObj(a).busy = g_cur + 1;
  HashSync(g_thr[g_cur], GetObj(a), 0x46);
  if (!g_scn->fresh)
  {
    ++g_guard_depth;
    g_new_static = true;
  }
  {
    RtGuard rt;
    g_inprogress->push_back(b);
  }
  return 1;
}
void __cxa_guard_release(long long* g)
{
  auto a = reinterpret_cast<uintptr_t>(g);
  *reinterpret_cast<char*>(g) = 1;
  if (!Ctl())
    return;
  if (!g_scn->fresh)
    --g_guard_depth;
  {
    RtGuard rt;
    auto it = std::find(g_inprogress->begin(), g_inprogress->end(), reinterpret_cast<char*>(g));
    if (it != g_inprogress->end())
      g_inprogress->erase(it);
  }
  Obj& o = GetObj(a);
  o.busy = 0;
  HashSync(g_thr[g_cur], o, 0x47);
  Release(g_thr[g_cur], o);
}
void __cxa_guard_abort(long long* g)
{
  if (!Ctl())
    return;
  if (!g_scn->fresh)
    --g_guard_depth;
  GetObj((uintptr_t)g).busy = 0;
}
int nanosleep(const struct timespec* req, struct timespec*)
{
  if (!Ctl())
  {
    if (g_ctl)
      return 0;
    return static_cast<int>(syscall(SYS_nanosleep, req, nullptr));
  }
  Thr& t = g_thr[g_cur];
  t.signaled = false;
  int64_t ns = ToNs(req);
  if (ns <= 0)
    Wait(OP_YIELD, 0, kNoDeadline, "sleep", PC);
  else
    Wait(OP_SLEEP, 0, g_now + ns, "sleep", PC);
  t.h = Mix(t.h, 0x50);
  return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* req, struct timespec*)
{
  if (!Ctl())
    return 0;
  Thr& t = g_thr[g_cur];
  t.signaled = false;
  Wait(OP_SLEEP, 0, (flags & TIMER_ABSTIME) ? ToNs(req) : g_now + ToNs(req), "sleep", PC);
  t.h = Mix(t.h, 0x50);
  return 0;
}
int usleep(useconds_t us)
{
  struct timespec ts{us / 1000000, static_cast<long>(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
int sched_yield() throw()
{
  if (!Ctl())
    return 0;
  Wait(OP_YIELD, 0, kNoDeadline, "yield", PC);
  g_thr[g_cur].h = Mix(g_thr[g_cur].h, 0x51);
  return 0;
}
int clock_gettime(clockid_t id, struct timespec* ts) throw()
{
  if (!g_ctl || g_cur < 0)
    return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
  ts->tv_sec = g_now / 1000000000ll;
  ts->tv_nsec = g_now % 1000000000ll;
  if (g_in_rt == 0)
    g_thr[g_cur].h = Mix(Mix(g_thr[g_cur].h, 0x52), static_cast<uint64_t>(g_now));
  return 0;
}
int gettimeofday(struct timeval* tv, void*) throw()
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* out) throw()
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (out)
    *out = ts.tv_sec;
  return ts.tv_sec;
}
void* __cxa_allocate_exception(size_t n) throw()
{
  static auto real = Real<void* (*)(size_t)>("__cxa_allocate_exception");
  void* p = real(n);
  if (g_ctl && g_cur >= 0)
    ClearShadow((uintptr_t)p, n);
  return p;
}
}

namespace std
{
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool has_timeout,
                                                       chrono::seconds s, chrono::nanoseconds ns)
{
  if (!Ctl())
    return true;
  auto a = reinterpret_cast<uintptr_t>(addr);
  SchedPoint("future wait", PC);
  CheckUse(a, PC);
  Thr& t = g_thr[g_cur];
  Obj& o = GetObj(a);
  HashSync(t, o, 0x60);
  if (*addr != val)
    return true;
  int64_t deadline = has_timeout ? s.count() * 1000000000ll + ns.count() : kNoDeadline;
  o.wait[o.nwait++] = static_cast<uint8_t>(t.id);
  t.signaled = false;
  Wait(OP_FUTEX, a, deadline, "future wait", PC);
  if (t.signaled)
  {
    t.signaled = false;
    return true;
  }
  CheckUse(a, PC);
  Obj& o2 = GetObj(a);
  int k = 0;
  for (int i = 0; i < o2.nwait; ++i)
    if (o2.wait[i] != t.id)
      o2.wait[k++] = o2.wait[i];
  o2.nwait = k;
  t.h = Mix(t.h, 0x61);
  return false;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool has_timeout,
                                                              chrono::seconds s, chrono::nanoseconds ns)
{
  return _M_futex_wait_until(addr, val, has_timeout, s, ns);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr)
{
  if (!Ctl())
    return;
  auto a = reinterpret_cast<uintptr_t>(addr);
  Obj& o = GetObj(a);
  Thr& t = g_thr[g_cur];
  for (int i = 0; i < o.nwait; ++i)
  {
    Thr& w = g_thr[o.wait[i]];
    w.signaled = true;
    w.h = Mix(w.h, t.h);
  }
  o.nwait = 0;
}
}  // namespace std

// ================================================================ harness interface
namespace mc
{
void Fail(const std::string& message)
{
  ++g_in_rt;
  std::string copy(message.c_str());
  if (!g_ctl || g_cur < 0)
  {
    fprintf(stderr, "mc::Fail outside execution: %s\n", copy.c_str());
    _exit(4);
  }
  Violate(copy);
}

void Log(const std::string& entry)
{
  SchedPoint("log", PC);
  RtGuard g;
  Thr& t = g_thr[g_cur];
  Obj& o = GetObj(reinterpret_cast<uintptr_t>(&g_logobj_storage));
  uint64_t h = 0;
  for (char c : entry)
    h = Mix(h, static_cast<unsigned char>(c));
  HashSync(t, o, Mix(0x70, h));
  g_log->push_back(std::string(entry.data(), entry.size()));
  if (g_trace)
    printf("         thread %d LOG %s\n", g_cur, g_log->back().c_str());
}

std::vector<std::string> GetLog()
{
  std::vector<std::string> result;
  for (auto& s : *g_log)
    result.push_back(std::string(s.data(), s.size()));
  return result;
}

int64_t Stamp()
{
  SchedPoint("stamp", PC);
  RtGuard g;
  HashSync(g_thr[g_cur], GetObj(reinterpret_cast<uintptr_t>(&g_logobj_storage)), 0x71);
  return static_cast<int64_t>(g_stamp++);
}

int Depth() { return g_bound; }
int Choose(int n) { return ChooseInternal(n, true); }
void Point() { SchedPoint("point", PC); }
void Yield() { sched_yield(); }
int64_t Now() { return g_now - kEpochStart; }
int Tid() { return g_cur; }
void Outcome(const std::string& outcome)
{
  RtGuard g;
  *g_outcome = std::string(outcome.data(), outcome.size());
}

std::vector<Scenario>& Scenarios()
{
  static auto* v = new std::vector<Scenario>;
  return *v;
}
void Register(const Scenario& s) { Scenarios().push_back(s); }
}  // namespace mc

namespace
{
std::string JsonEscape(const std::string& s)
{
  std::string r;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
    {
      r += '\\';
      r += static_cast<char>(c);
    }
    else if (c < 32 || c > 126)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    }
    else
      r += static_cast<char>(c);
  }
  return r;
}
// ---------------------------------------------------------------- fresh processes
// First use of process-wide state: every execution runs in a process of its own, forked from one in which the
// scenario never ran, so that function-local statics, once flags and globals are as at program start.
struct FreshResult
{
  uint64_t steps, transitions, nodes, entries, violation_len, outcome_len, nondet_len;
  int32_t nthr, used;
  uint8_t violated, pruned, cut, nondet;
};
bool WriteAll(int fd, const void* p, size_t n)
{
  auto c = static_cast<const char*>(p);
  while (n)
  {
    ssize_t k = write(fd, c, n);
    if (k < 0 && errno == EINTR)
      continue;
    if (k <= 0)
      return false;
    c += k;
    n -= static_cast<size_t>(k);
  }
  return true;
}
bool ReadAll(int fd, void* p, size_t n)
{
  auto c = static_cast<char*>(p);
  while (n)
  {
    ssize_t k = read(fd, c, n);
    if (k < 0 && errno == EINTR)
      continue;
    if (k <= 0)
      return false;
    c += k;
    n -= static_cast<size_t>(k);
  }
  return true;
}
void RunFresh()
{
  g_new_static = false;
  int fds[2];
  if (pipe(fds) != 0)
  {
    perror("mcrt: pipe");
    _exit(4);
  }
  fflush(stdout);
  pid_t child = fork();
  if (child < 0)
  {
    perror("mcrt: fork");
    _exit(4);
  }
  if (child == 0)
  {
    close(fds[0]);
    struct itimerval it{};
    it.it_interval.tv_sec = it.it_value.tv_sec = 5;
    setitimer(ITIMER_REAL, &it, nullptr);
    g_new_visited = new std::vector<std::pair<uint64_t, int8_t>>;
    g_warm = false;
    uint64_t before = g_transitions;
    RunExecution();
    FreshResult r{};
    r.steps = g_steps;
    r.transitions = g_transitions - before;
    r.nodes = g_stack->size();
    r.entries = g_new_visited->size();
    r.violation_len = g_violation->size();
    r.outcome_len = g_outcome->size();
    r.nondet_len = g_nondet_msg->size();
    r.nthr = g_nthr;
    r.used = g_used;
    r.violated = g_violated;
    r.pruned = g_pruned;
    r.cut = g_cut;
    r.nondet = g_nondet;
    WriteAll(fds[1], &r, sizeof r);
    WriteAll(fds[1], g_violation->data(), g_violation->size());
    WriteAll(fds[1], g_outcome->data(), g_outcome->size());
    WriteAll(fds[1], g_nondet_msg->data(), g_nondet_msg->size());
    for (auto& n : *g_stack)
    {
      uint64_t head[4] = {n.opts.size(), static_cast<uint64_t>(n.chosen), static_cast<uint64_t>(n.used_before), n.sig};
      WriteAll(fds[1], head, sizeof head);
      WriteAll(fds[1], n.opts.data(), n.opts.size() * sizeof(Option));
    }
    for (auto& e : *g_new_visited)
    {
      WriteAll(fds[1], &e.first, sizeof e.first);
      WriteAll(fds[1], &e.second, sizeof e.second);
    }
    _exit(0);
  }
  close(fds[1]);
  FreshResult r{};
  bool ok = ReadAll(fds[0], &r, sizeof r);
  if (ok)
  {
    g_violation->resize(r.violation_len);
    g_outcome->resize(r.outcome_len);
    g_nondet_msg->resize(r.nondet_len);
    ok = ReadAll(fds[0], &(*g_violation)[0], r.violation_len) && ReadAll(fds[0], &(*g_outcome)[0], r.outcome_len)
         && ReadAll(fds[0], &(*g_nondet_msg)[0], r.nondet_len);
    std::vector<Node> nodes;
    for (uint64_t i = 0; ok && i < r.nodes; ++i)
    {
      uint64_t head[4];
      ok = ReadAll(fds[0], head, sizeof head);
      if (!ok)
        break;
      Node n{std::vector<Option>(head[0]), static_cast<int>(head[1]), static_cast<int>(head[2]), head[3]};
      ok = ReadAll(fds[0], n.opts.data(), n.opts.size() * sizeof(Option));
      nodes.push_back(n);
    }
    for (uint64_t i = 0; ok && i < r.entries; ++i)
    {
      uint64_t key = 0;
      int8_t remaining = 0;
      ok = ReadAll(fds[0], &key, sizeof key) && ReadAll(fds[0], &remaining, sizeof remaining);
      if (ok)
        (*g_visited)[key] = remaining;
    }
    if (ok)
      *g_stack = nodes;
  }
  close(fds[0]);
  int status = 0;
  while (waitpid(child, &status, 0) < 0 && errno == EINTR)
    ;
  if (!ok)
  {
    g_violated = true;
    *g_violation = "the process ended in the middle of an execution (status " + std::to_string(status) + ")";
    return;
  }
  g_steps = r.steps;
  g_transitions += r.transitions;
  g_nthr = r.nthr;
  g_used = r.used;
  g_violated = r.violated;
  g_pruned = r.pruned;
  g_cut = g_cut || r.cut;
  g_nondet = r.nondet;
}
}  // namespace

int main(int argc, char** argv)
{
  Init();
  std::string name, out, replay, ce;
  int max_bound = 2;
  double time_limit = 60;
  size_t max_states = 30000000;
  bool list = false, fresh = false;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--scenario")
      name = next();
    else if (a == "--bound")
      max_bound = atoi(next().c_str());
    else if (a == "--time")
      time_limit = atof(next().c_str());
    else if (a == "--out")
      out = next();
    else if (a == "--replay")
      replay = next();
    else if (a == "--ce")
      ce = next();
    else if (a == "--trace")
      g_trace = true;
    else if (a == "--list")
      list = true;
    else if (a == "--fresh")
      fresh = true;
  }
  if (list)
  {
    for (auto& s : mc::Scenarios())
      printf("%s %d %d\n", s.name, s.quick, s.thorough);
    return 0;
  }
  std::vector<int> choices;
  if (!replay.empty())
  {
    FILE* f = fopen(replay.c_str(), "r");
    if (!f)
    {
      perror(replay.c_str());
      return 3;
    }
    char line[65536];
    bool in_choices = false;
    while (fgets(line, sizeof line, f))
    {
      if (!strncmp(line, "scenario ", 9))
        name = std::string(line + 9, strcspn(line + 9, "\n"));
      else if (!strncmp(line, "fresh", 5))
        fresh = true;
      else if (!strncmp(line, "choices", 7))
        in_choices = true;
      else if (in_choices)
      {
        char* p = line;
        char* e;
        for (long v = strtol(p, &e, 10); e != p; v = strtol(p, &e, 10))
        {
          choices.push_back(static_cast<int>(v));
          p = e;
        }
      }
    }
    fclose(f);
  }
  for (auto& s : mc::Scenarios())
    if (name == s.name)
    {
      s.fresh = s.fresh || fresh;
      g_scn = &s;
    }
  if (!g_scn)
  {
    fprintf(stderr, "mcrt: no scenario '%s'\n", name.c_str());
    return 3;
  }
  // Warm-up execution (default schedule): initialises function-local statics with ordinary memory.
  bool trace = g_trace;
  g_trace = false;
  double started = WallNow();
  g_warm = true;
  std::vector<int> none;
  if (!g_scn->fresh)
  {
    g_replay = &none;
    RunExecution();
  }
  // A violation here is one of first use (static initialisation); it is replayed by the warm-up itself.
  const bool warm_violation = g_violated;
  g_warm = false;
  g_replay = nullptr;
  if (!replay.empty())
  {
    if (warm_violation)
    {
      printf("violation reproduced (first use): %s\n", g_violation->c_str());
      return 1;
    }
    g_replay = &choices;
    g_trace = trace;
    RunExecution();
    if (g_nondet)
    {
      printf("replay diverged: %s\n", g_nondet_msg->c_str());
      return 3;
    }
    if (g_violated)
    {
      printf("violation reproduced: %s\n", g_violation->c_str());
      return 1;
    }
    printf("no violation in the replayed schedule\n");
    return 0;
  }
  uint64_t complete = 0, pruned = 0, horizon = 0;
  std::map<std::string, uint64_t> outcomes;
  size_t max_depth = 0;
  uint64_t max_steps = 0;
  int max_thr = 0;
  int completed = -1;
  bool exhaustive = false, violation = false, timed_out = false;
  std::vector<std::string> samples;
  g_transitions = 0;
  violation = warm_violation;
  uint64_t restarts = 0;
  for (g_bound = 0; g_bound <= max_bound && !violation && !timed_out; ++g_bound)
  {
    g_cut = false;
    g_stack->clear();
    for (;;)
    {
      if (g_scn->fresh)
        RunFresh();
      else
        RunExecution();
      if (g_nondet)
      {
        fprintf(stderr, "mcrt: NONDETERMINISM in %s: %s\n", name.c_str(), g_nondet_msg->c_str());
        return 3;
      }
      if (g_new_static && !g_violated && ++restarts < 1000)
      {
        // Static state was initialised on this path only: explore again from the start with it in place.
        g_stack->clear();
        g_visited->clear();
        continue;
      }
      max_depth = std::max(max_depth, g_stack->size());
      max_steps = std::max(max_steps, g_steps);
      max_thr = std::max(max_thr, g_nthr);
      if (g_violated)
      {
        violation = true;
        break;
      }
      if (g_pruned)
        ++pruned;
      else
      {
        ++complete;
        if (!g_scn->spin_fatal && g_steps > static_cast<uint64_t>(g_scn->max_steps))
          ++horizon;
        if (outcomes.size() < 100000 || outcomes.count(*g_outcome))
          ++outcomes[*g_outcome];
      }
      // backtrack
      bool more = false;
      while (!g_stack->empty())
      {
        Node& n = g_stack->back();
        int k = n.chosen + 1;
        while (k < static_cast<int>(n.opts.size()) && n.used_before + n.opts[k].cost > g_bound)
          ++k;
        if (k < static_cast<int>(n.opts.size()))
        {
          n.chosen = k;
          more = true;
          break;
        }
        g_stack->pop_back();
      }
      if (!more)
        break;
      if (WallNow() - started > time_limit || g_visited->size() > max_states)
      {
        timed_out = true;
        break;
      }
    }
    if (violation || timed_out)
      break;
    completed = g_bound;
    if (!g_cut)
    {
      exhaustive = true;
      break;
    }
  }
  if (violation)
  {
    std::string file = ce.empty() ? "/tmp/mcrt-" + name + ".replay" : ce;
    if (FILE* f = fopen(file.c_str(), "w"))
    {
      fprintf(f, "scenario %s\nviolation %s\ndeviations %d\n%schoices\n", name.c_str(), g_violation->c_str(), g_used,
              g_scn->fresh ? "fresh\n" : "");
      for (size_t i = 0; i < g_stack->size(); ++i)
        fprintf(f, "%d%s", (*g_stack)[i].chosen, i % 40 == 39 ? "\n" : " ");
      fprintf(f, "\n");
      fclose(f);
    }
  }
  std::string json = "{\"scenario\":\"" + JsonEscape(name) + "\"";
  json += ",\"schedules\":" + std::to_string(complete);
  json += ",\"pruned\":" + std::to_string(pruned);
  json += ",\"states\":" + std::to_string(g_visited->size());
  json += ",\"transitions\":" + std::to_string(g_transitions);
  json += ",\"max_decisions\":" + std::to_string(max_depth);
  json += ",\"max_steps\":" + std::to_string(max_steps);
  json += ",\"threads\":" + std::to_string(max_thr);
  json += ",\"bound_completed\":" + std::to_string(completed);
  json += ",\"horizon_hits\":" + std::to_string(horizon);
  json += std::string(",\"all_interleavings\":") + (exhaustive ? "true" : "false");
  json += std::string(",\"time_capped\":") + (timed_out ? "true" : "false");
  json += ",\"outcomes\":" + std::to_string(outcomes.size());
  json += ",\"outcome_samples\":[";
  int k = 0;
  for (auto& o : outcomes)
  {
    if (k >= 3)
      break;
    json += std::string(k++ ? "," : "") + "\"" + JsonEscape(o.first.substr(0, 400)) + "\"";
  }
  json += "]";
  char wall[64];
  snprintf(wall, sizeof wall, ",\"wall_s\":%.2f", WallNow() - started);
  json += wall;
  if (violation)
    json += ",\"violation\":\"" + JsonEscape(*g_violation) + "\"";
  json += "}\n";
  if (out.empty())
    printf("%s", json.c_str());
  else if (FILE* f = fopen(out.c_str(), "w"))
  {
    fputs(json.c_str(), f);
    fclose(f);
  }
  return violation ? 1 : 0;
}
