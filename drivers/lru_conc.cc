// Concurrent histories of the real LruCache, for spec/LruLin.tla.
//
//   lru_conc sched SEED PROGRAMS SCHEDULES   Threads are fibers and switch only at
//       lock operations and inside key and value operations (hash, equality, copy).
//       Schedules are enumerated depth-first with at most two preemptions, then
//       drawn at random.
//   lru_conc threads SEED ROUNDS             Real threads (built with ThreadSanitizer).
//
// Prints the distinct histories as JSON lines.
#include <pthread.h>
#include <signal.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <atomic>
#include <barrier>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

static void Yield();

struct K {
  int a = 0, b = 0;
  K() = default;
  K(int k) : a(k), b(k) {}
  K(const K& o) : a(o.a) { Yield(); b = o.b; }
  K& operator=(const K& o) { a = o.a; Yield(); b = o.b; return *this; }
  bool operator==(const K& o) const { bool x = a == o.a; Yield(); return x && b == o.b; }
};
struct KHash { size_t operator()(const K& k) const { size_t h = k.a % 3; Yield(); return h; } };
struct V {
  int a = 0, b = 0;
  V() = default;
  V(int v) : a(v), b(v) {}
  V(const V& o) : a(o.a) { Yield(); b = o.b; }
  V& operator=(const V& o) { a = o.a; Yield(); b = o.b; return *this; }
  int Int() const { return a == b ? a : -2; }
};

#include "common/lru_cache.h"

constexpr size_t kCap = 2;
using Cache = tosca::LruCache<K, V, kCap, KHash>;

struct Op { int kind, k, v, r, inv, res; };  // kind: 0 get, 1 ins, 2 goi, 3 clr
static const char* kNames[] = {"get", "ins", "goi", "clr"};
using Program = std::vector<std::vector<Op>>;
static std::atomic<int> g_clock;
static int Tick() { return g_clock.fetch_add(1, std::memory_order_relaxed); }

static void Execute(Cache& c, Op& o) {
  K k(o.k);
  o.inv = Tick();
  if (o.kind == 0) { auto r = c.Get(k); o.res = Tick(); o.r = r ? r->Int() : -1; }
  else if (o.kind == 1) { auto r = c.InsertOrAssign(k, V(o.v)); o.res = Tick(); o.r = r.Int(); }
  else if (o.kind == 2) { auto r = c.GetOrInsert(k, [&] { Yield(); return V(o.v); }); o.res = Tick(); o.r = r.Int(); }
  else { c.Clear(); o.res = Tick(); o.r = -3; }
}

static std::string Json(const std::vector<Op>& ops) {
  std::ostringstream s;
  s << "{\"cap\":" << kCap << ",\"ops\":[";
  for (size_t i = 0; i < ops.size(); i++) {
    auto& o = ops[i];
    s << (i ? "," : "") << "{\"op\":\"" << kNames[o.kind] << "\",\"k\":" << o.k << ",\"v\":" << o.v << ",\"r\":" << o.r
      << ",\"inv\":" << o.inv << ",\"res\":" << o.res << "}";
  }
  s << "]}";
  return s.str();
}

static Program MakeProgram(std::mt19937& rng, int threads, int len, std::vector<Op>& prefix) {
  int v = 1;
  int keys = 3 + rng() % 2;
  auto op = [&](bool clr) {
    int x = rng() % 100;
    return Op{x < 30 ? 0 : x < 55 ? 1 : x < 95 || !clr ? 2 : 3, (int)(rng() % keys), v++, 0, 0, 0};
  };
  prefix.clear();
  for (int n = rng() % 4; n > 0; n--) { Op o = op(false); o.kind = 1; prefix.push_back(o); }
  Program p(threads);
  for (auto& t : p) for (int n = 1 + rng() % len; n > 0; n--) t.push_back(op(true));
  return p;
}

static std::set<std::string> g_seen;
static std::string g_current;

static void Finish(Cache& c, std::vector<Op>& ops, size_t limit) {
  // Observe the final state: presence, value and age of all keys.
  for (int k : {3, 0, 1, 2}) { Op o{0, k, 0, 0, 0, 0}; Execute(c, o); ops.push_back(o); }
  for (int k : {10, 11}) { Op o{1, k, 99, 0, 0, 0}; Execute(c, o); ops.push_back(o); Op q{0, 1, 0, 0, 0, 0}; Execute(c, q); ops.push_back(q); }
  if (g_seen.size() < limit) g_seen.insert(Json(ops));
}

// --- fibers --------------------------------------------------------------------
struct Fiber { ucontext_t ctx; char* stack; bool done; void* waits; bool wexcl; };
static bool g_fibers = false;       // controlled mode is on
static int g_cur = -1;
static std::vector<Fiber> g_f;
static ucontext_t g_main;
struct LockState { int writer = -1; int depth = 0; std::multiset<int> readers; };
static std::map<void*, LockState> g_locks;
static volatile long g_progress;

static bool Free(void* m, bool excl, int who) {
  auto& l = g_locks[m];
  if (l.writer != -1) return false;
  return !excl || l.readers.empty();
}
static void Yield() {
  if (!g_fibers || g_cur < 0) return;
  g_progress = g_progress + 1;
  swapcontext(&g_f[g_cur].ctx, &g_main);
}
static void Acquire(void* m, bool excl, bool recursive) {
  Yield();
  auto& l = g_locks[m];
  if (recursive && l.writer == g_cur) { l.depth++; return; }
  while (!Free(m, excl, g_cur)) {
    g_f[g_cur].waits = m; g_f[g_cur].wexcl = excl;
    swapcontext(&g_f[g_cur].ctx, &g_main);
  }
  g_f[g_cur].waits = nullptr;
  if (excl) { l.writer = g_cur; l.depth = 1; } else l.readers.insert(g_cur);
}
static void Release(void* m) {
  auto& l = g_locks[m];
  if (l.writer == g_cur) { if (--l.depth == 0) l.writer = -1; }
  else if (auto it = l.readers.find(g_cur); it != l.readers.end()) l.readers.erase(it);
  Yield();
}

#ifndef REAL_THREADS
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  if (g_fibers && g_cur >= 0) Acquire(m, true, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  if (g_fibers && g_cur >= 0) { Yield(); if (!Free(m, true, g_cur)) return 16; auto& l = g_locks[m]; l.writer = g_cur; l.depth = 1; }
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  if (g_fibers && g_cur >= 0) Release(m);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { if (g_fibers && g_cur >= 0) Acquire(m, true, false); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { if (g_fibers && g_cur >= 0) Acquire(m, false, false); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { if (g_fibers && g_cur >= 0) Release(m); return 0; }
}
#endif

static Cache* g_cache;
static Program* g_prog;
static void FiberMain(int i) {
  for (auto& o : (*g_prog)[i]) { Execute(*g_cache, o); Yield(); }
  g_f[i].done = true;
  swapcontext(&g_f[i].ctx, &g_main);
}

static std::vector<int> g_choices;  // the schedule being followed
static bool g_deadlock;

// Runs one schedule. choose(options, current) picks among the runnable fibers.
static void RunSchedule(const Program& prog, const std::vector<Op>& prefix, const std::function<int(const std::vector<int>&, int)>& choose) {
  g_clock = 0;
  Cache cache;
  Program p = prog;
  std::vector<Op> ops = prefix;
  g_locks.clear();
  for (auto& o : ops) Execute(cache, o);
  g_cache = &cache; g_prog = &p;
  int n = p.size();
  while ((int)g_f.size() < n) { g_f.emplace_back(); g_f.back().stack = new char[256 * 1024]; }
  for (int i = 0; i < n; i++) {
    auto& f = g_f[i];
    f.done = false; f.waits = nullptr;
    getcontext(&f.ctx);
    f.ctx.uc_stack = {f.stack, 0, 256 * 1024};
    f.ctx.uc_link = &g_main;
    makecontext(&f.ctx, (void (*)())FiberMain, 1, i);
  }
  g_fibers = true;
  int last = -1;
  for (;;) {
    std::vector<int> options;
    bool alldone = true;
    for (int i = 0; i < n; i++) {
      if (g_f[i].done) continue;
      alldone = false;
      if (!g_f[i].waits || Free(g_f[i].waits, g_f[i].wexcl, i)) options.push_back(i);
    }
    if (alldone) break;
    if (options.empty()) { g_deadlock = true; break; }
    int x = choose(options, last);
    last = x;
    g_cur = x;
    swapcontext(&g_main, &g_f[x].ctx);
    g_cur = -1;
  }
  g_fibers = false;
  if (g_deadlock) return;
  for (auto& t : p) ops.insert(ops.end(), t.begin(), t.end());
  Finish(cache, ops, 1u << 30);
}

static void OnSignal(int s) {
  char buf[64];
  int n = snprintf(buf, sizeof buf, "\nCRASH signal %d running ", s);
  write(2, buf, n);
  write(2, g_current.data(), g_current.size());
  write(2, "\n", 1);
  _exit(70);
}

static int Sched(unsigned seed, int programs, int schedules) {
  std::mt19937 rng(seed);
  std::thread([] {  // code that waits without yielding cannot be scheduled here
    long last = -1;
    for (int idle = 0;;) {
      struct timespec t{1, 0};
      nanosleep(&t, nullptr);
      if (g_progress == last) idle++; else idle = 0;
      last = g_progress;
      if (idle >= 5) { write(2, "\nNOPROGRESS\n", 12); _exit(71); }
    }
  }).detach();
  long runs = 0;
  size_t histories = 0;
  for (int n = 0; n < programs; n++) {
    std::vector<Op> prefix;
    int threads = n % 3 == 2 ? 3 : 2;
    Program prog = MakeProgram(rng, threads, threads == 2 ? 3 : 2, prefix);
    { std::ostringstream s; for (auto& t : prog) { s << "["; for (auto& o : t) s << kNames[o.kind] << " " << o.k << ";"; s << "] "; } g_current = s.str(); }
    g_seen.clear();
    // Depth first over schedules with bounded preemptions: `path` holds, per
    // decision point with alternatives, the choice and the number of alternatives.
    struct D { int pick, n; };
    std::vector<D> path;
    for (int budget = schedules; budget > 0; budget--) {
      size_t at = 0;
      int preempt = 0;
      RunSchedule(prog, prefix, [&](const std::vector<int>& opts, int cur) {
        std::vector<int> o;
        bool can = false;
        for (int x : opts) if (x == cur) can = true;
        if (can) o.push_back(cur);
        if (!can || preempt < 2) for (int x : opts) if (x != cur) o.push_back(x);
        if (o.size() == 1) return o[0];
        if (at == path.size()) path.push_back({0, (int)o.size()});
        int pick = path[at].pick < (int)o.size() ? path[at].pick : 0;
        at++;
        if (can && pick > 0) preempt++;
        return o[pick];
      });
      runs++;
      if (g_deadlock) { std::cerr << "DEADLOCK in " << g_current << "\n"; return 70; }
      path.resize(std::min(at, path.size()));
      while (!path.empty() && path.back().pick + 1 >= path.back().n) path.pop_back();
      if (path.empty()) break;
      path.back().pick++;
    }
    for (int i = 0; i < schedules / 4; i++) {
      int stay = 1 + rng() % 8;
      RunSchedule(prog, prefix, [&](const std::vector<int>& opts, int cur) {
        if (rng() % stay) for (int x : opts) if (x == cur) return x;
        return opts[rng() % opts.size()];
      });
      runs++;
      if (g_deadlock) { std::cerr << "DEADLOCK in " << g_current << "\n"; return 70; }
    }
    histories += g_seen.size();
    // A sample of the histories of a program when there are very many.
    std::vector<std::string> v(g_seen.begin(), g_seen.end());
    std::shuffle(v.begin(), v.end(), rng);
    if (v.size() > 150) v.resize(150);
    for (auto& s : v) std::cout << s << "\n";
  }
  std::cerr << "RUNS " << runs << " HISTORIES " << histories << "\n";
  return 0;
}

static int Threads(unsigned seed, int rounds) {
  std::mt19937 rng(seed);
  constexpr int kThreads = 3;
  auto cache = std::make_unique<Cache>();
  Program prog;
  std::vector<Op> prefix;
  std::atomic<bool> stop{false};
  std::barrier start(kThreads + 1), end(kThreads + 1);
  std::vector<std::thread> ts;
  for (int i = 0; i < kThreads; i++) ts.emplace_back([&, i] {
    for (;;) {
      start.arrive_and_wait();
      if (stop) return;
      for (auto& o : prog[i]) Execute(*cache, o);
      end.arrive_and_wait();
    }
  });
  for (int r = 0; r < rounds; r++) {
    g_clock = 0;
    cache = std::make_unique<Cache>();
    prog = MakeProgram(rng, kThreads, 4, prefix);
    std::vector<Op> ops = prefix;
    for (auto& o : ops) Execute(*cache, o);
    start.arrive_and_wait();
    end.arrive_and_wait();
    for (auto& t : prog) ops.insert(ops.end(), t.begin(), t.end());
    Finish(*cache, ops, 1500);
  }
  stop = true;
  start.arrive_and_wait();
  for (auto& t : ts) t.join();
  // A longer, unsynchronised run on a bigger cache with default keys, for races only.
  tosca::LruCache<int, std::string, 8> big;
  std::vector<std::thread> us;
  std::atomic<int> wrong{0};
  for (int i = 0; i < 4; i++) us.emplace_back([&, i] {
    std::mt19937 g(seed * 7 + i);
    for (int n = 0; n < rounds * 4; n++) {
      int k = g() % 12;
      std::string want = std::to_string(k) + " is the key of this value";
      switch (g() % 16) {
        case 0: case 1: case 2: case 3: if (auto x = big.Get(k); x && *x != want) wrong++; break;
        case 4: case 5: case 6: if (big.InsertOrAssign(k, want) != want) wrong++; break;
        case 7: if (g() % 16 == 0) big.Clear(); break;
        default: if (big.GetOrInsert(k, [&] { return want; }) != want) wrong++;
      }
    }
  });
  for (auto& t : us) t.join();
  if (wrong) { std::cerr << "WRONG-VALUE " << wrong << " lookups returned the value of another key\n"; return 70; }
  for (auto& s : g_seen) std::cout << s << "\n";
  std::cerr << "RUNS " << rounds << " HISTORIES " << g_seen.size() << "\n";
  return 0;
}

int main(int argc, char** argv) {
  std::string mode = argv[1];
  if (mode == "sched") {
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, OnSignal);
    return Sched(atoi(argv[2]), atoi(argv[3]), atoi(argv[4]));
  }
  return Threads(atoi(argv[2]), atoi(argv[3]));
}
