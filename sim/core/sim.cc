#include <execinfo.h>
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <cxxabi.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <list>
#include <memory>
#include <new>
#include <sstream>
#include <system_error>
#include <thread>
#include <typeinfo>
#include "shared.h"

namespace __cxxabiv1 {
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept;
}

namespace sim {
// ------------------------------------------------------------------ small helpers
uint64_t Mix(uint64_t a, uint64_t b) {
  uint64_t z = a + 0x9e3779b97f4a7c15ull * (b + 1);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t Rng::Next() {
  s += 0x9e3779b97f4a7c15ull;
  uint64_t z = s;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
double Rng::Normal() {
  double u = Unit(), v = Unit();
  return sqrt(-2 * log(u + 1e-300)) * cos(6.283185307179586 * v);
}
const char *KindName(int k) {
  static const char *n[] = {"ok", "exception", "exit", "signal", "killed", "deadlock", "step-limit", "violation", "hang", "unexpected-end"};
  return n[k];
}
static const char *kCls[] = {"work", "openw", "openr", "write", "read", "closew", "unlink", "mkdir", "io", "any", "alloc", "send", "sysinfo", "clock"};
const char *ClsName(int c) { return kCls[c]; }
int ClsOf(const std::string &s) {
  for (int i = 0; i < C_NUM; ++i) if (s == kCls[i]) return i;
  throw SimError("unknown event class " + s);
}
std::string Plan::Str() const {
  std::ostringstream o;
  o << "seed " << seed << "\nsched_limit " << sched_limit << "\n";
  for (auto &x : par) o << "par " << x.first << " " << x.second << "\n";
  for (auto &f : faults)
    o << "fault " << f.kind << " " << f.cls << " inc " << f.inc << " at " << f.at << " frac " << f.frac << " a " << f.a << " b " << f.b << "\n";
  return o.str();
}
Plan Plan::Parse(const std::string &s) {
  Plan p;
  std::istringstream in(s);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string w, d;
    l >> w;
    if (w == "seed") l >> p.seed;
    else if (w == "sched_limit") l >> p.sched_limit;
    else if (w == "par") {
      long v;
      l >> d >> v;
      p.par[d] = v;
    } else if (w == "fault") {
      Fault f;
      l >> f.kind >> f.cls >> d >> f.inc >> d >> f.at >> d >> f.frac >> d >> f.a >> d >> f.b;
      p.faults.push_back(f);
    }
  }
  return p;
}

// ------------------------------------------------------------------ shared statistics
Shared *g_sh = nullptr;
bool g_stats_on = true;
static void Bump(NameCount *t, const char *name, long n = 1) {
  if (!g_sh || !g_stats_on) return;
  for (int i = 0; i < kNames; ++i) {
    if (__atomic_load_n(&t[i].used, __ATOMIC_ACQUIRE) == 2) {
      if (!strcmp(t[i].name, name)) {
        __atomic_fetch_add(&t[i].n, n, __ATOMIC_RELAXED);
        return;
      }
      continue;
    }
    int z = 0;
    if (__atomic_compare_exchange_n(&t[i].used, &z, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
      strncpy(t[i].name, name, sizeof(t[i].name) - 1);
      __atomic_fetch_add(&t[i].n, n, __ATOMIC_RELAXED);
      __atomic_store_n(&t[i].used, 2, __ATOMIC_RELEASE);
      return;
    }
    while (__atomic_load_n(&t[i].used, __ATOMIC_ACQUIRE) != 2) {}
    --i;
  }
}

// ------------------------------------------------------------------ per-process state
struct Msg {
  int src, dst, tag, comm, kind;   // kind 0: typed buffer, 1: string (tensor)
  int type;
  std::string data;
  long avail = 0;
  uint64_t seq = 0;
  bool rendezvous = false;
  std::shared_ptr<bool> consumed;
};
struct Fiber {
  int id = 0, rank = 0;
  bool is_thread = false;
  ucontext_t ctx;
  void *stack = nullptr;
  std::function<void()> fn;
  enum { READY, BLOCKED, DONE } st = READY;
  std::function<bool()> ready;
  std::string why;
  long stall_until = 0;
  double weight = 1;
  char eh[2 * sizeof(void *)] = {0};
};
struct Coll {
  std::string type;
  int root = 0;
  long bytes = 0;
  std::set<int> arrived;
  std::string data;
  std::map<int, std::string> parts;
  bool root_in = false;
};
struct FdInfo {
  bool tracked = false, writable = false;
  std::string rel;
};

struct State {
  bool active = false;
  bool trace = false;
  int nofault = 0;
  Plan *plan = nullptr;
  std::string root;
  std::vector<Fault> armed;
  std::vector<char> fired;
  long counts[C_NUM] = {0};
  uint64_t hash = 1469598103934665603ull, shash = 1469598103934665603ull;
  long now = 0;               // ticks, 1 tick = 1 microsecond
  double wall0 = 1.7e9, wall_off = 0;
  long cap = 20000000;
  Rng work{0}, sched{0};
  std::vector<Rng> rank_rng;
  std::vector<std::unique_ptr<Fiber>> fibers;
  Fiber *cur = nullptr;
  ucontext_t main_ctx;
  long decisions = 0, switches = 0, deliveries = 0;
  double preempt = 0.1;
  long eager = 1L << 40, max_delay = 0, redraw = 0;
  int policy = 0;
  int nranks = 1;
  std::vector<std::list<Msg>> inbox;
  std::map<std::pair<int, int>, long> chan_avail;
  uint64_t msg_seq = 0;
  std::map<int, std::map<int, long>> coll_seq;          // comm -> rank -> next
  std::map<std::pair<int, long>, Coll> colls;
  bool alloc_on = false;
  struct sysinfo si;
  bool si_set = false;
  long si_calls = 0;
  Outcome out;
  char *shm = nullptr;
  size_t shm_size = 0;
  long fail_w = 0, fail_w_errno = 0;     // remaining writes that fail
  long fail_r = 0;
  std::ostringstream *cap_out = nullptr;
};
static State *S = nullptr;
static thread_local bool in_rt = false;   // inside the runtime: do not simulate own I/O and allocations

static inline void H(uint64_t v) { S->hash = (S->hash ^ v) * 1099511628211ull; }
static inline void HS(uint64_t v) { S->shash = (S->shash ^ v) * 1099511628211ull; }

static void PutStr(std::string &o, const std::string &s) {
  uint64_t n = s.size();
  o.append((char *) &n, 8);
  o += s;
}
static std::string GetStr(const char *&p) {
  uint64_t n;
  memcpy(&n, p, 8);
  p += 8;
  std::string s(p, n);
  p += n;
  return s;
}
template<typename T> static void PutPod(std::string &o, const T &v) { o.append((const char *) &v, sizeof v); }
template<typename T> static void GetPod(const char *&p, T &v) { memcpy(&v, p, sizeof v); p += sizeof v; }

static void Serialise() {
  Outcome &o = S->out;
  std::copy(S->counts, S->counts + C_NUM, o.counts);
  o.hash = S->hash;
  o.sched_hash = S->shash;
  o.sim_time = S->now * 1e-6;
  o.switches = S->switches;
  o.deliveries = S->deliveries;
  std::string b;
  PutPod(b, o.kind);
  PutPod(b, o.code);
  PutStr(b, o.cls);
  PutStr(b, o.msg);
  uint64_t n = o.num.size();
  PutPod(b, n);
  for (auto &x : o.num) {
    PutStr(b, x.first);
    PutPod(b, x.second);
  }
  n = o.vec.size();
  PutPod(b, n);
  for (auto &x : o.vec) {
    PutStr(b, x.first);
    PutStr(b, std::string((char *) x.second.data(), x.second.size() * 8));
  }
  PutPod(b, o.counts);
  PutPod(b, o.hash);
  PutPod(b, o.sched_hash);
  PutPod(b, o.sim_time);
  PutPod(b, o.switches);
  PutPod(b, o.deliveries);
  uint64_t sz = b.size();
  if (sz + 16 > S->shm_size) {
    S->out.vec.clear();
    S->out.kind = UNEXPECTED;
    S->out.msg = "outcome too large";
    Serialise();
    return;
  }
  memcpy(S->shm + 8, b.data(), sz);
  memcpy(S->shm, &sz, 8);
}
static Outcome Deserialise(const char *p0) {
  Outcome o;
  const char *p = p0 + 8;
  GetPod(p, o.kind);
  GetPod(p, o.code);
  o.cls = GetStr(p);
  o.msg = GetStr(p);
  uint64_t n;
  GetPod(p, n);
  while (n--) {
    std::string k = GetStr(p);
    double v;
    GetPod(p, v);
    o.num[k] = v;
  }
  GetPod(p, n);
  while (n--) {
    std::string k = GetStr(p), v = GetStr(p);
    std::vector<double> d(v.size() / 8);
    memcpy(d.data(), v.data(), v.size());
    o.vec[k] = d;
  }
  GetPod(p, o.counts);
  GetPod(p, o.hash);
  GetPod(p, o.sched_hash);
  GetPod(p, o.sim_time);
  GetPod(p, o.switches);
  GetPod(p, o.deliveries);
  return o;
}
static std::string Clean(std::string m) {
  if (!S) return m;
  size_t k;
  while (!S->root.empty() && (k = m.find(S->root)) != std::string::npos) m.replace(k, S->root.size(), "$ROOT");
  return m;
}
[[noreturn]] static void Finish(int kind, int code, const std::string &cls, const std::string &msg) {
  in_rt = true;
  S->active = false;
  S->out.kind = kind;
  S->out.code = code;
  S->out.cls = cls;
  S->out.msg = Clean(msg);
  Serialise();
  if (g_sh && g_stats_on) __atomic_fetch_add(&g_sh->events, S->counts[C_ANY] + S->counts[C_ALLOC], __ATOMIC_RELAXED);
  _exit(0);
}
void Put(const std::string &k, double v) {
  bool r = in_rt;
  in_rt = true;
  S->out.num[k] = v;
  in_rt = r;
}
void Put(const std::string &k, const std::vector<double> &v) {
  bool r = in_rt;
  in_rt = true;
  S->out.vec[k] = v;
  in_rt = r;
}
void Fail(const std::string &cls, const std::string &msg) {
  if (!S || !S->active) throw Violation{cls, msg};
  Finish(FAIL, 0, cls, msg);
}
void Probe(const std::string &n) { if (g_sh) Bump(g_sh->probes, n.c_str()); }
int CurrentRank() { return S && S->cur ? S->cur->rank : 0; }
Rng &WorkRng() { return S->rank_rng[CurrentRank()]; }
long EventCount(int c) { return S->counts[c]; }
void AllocFaults(bool on) { if (S) S->alloc_on = on; }
NoFaults::NoFaults() { if (S) S->nofault++; }
NoFaults::~NoFaults() { if (S) S->nofault--; }
long FiredInProcess(const std::string &pre) {
  long n = 0;
  for (size_t i = 0; i < S->armed.size(); ++i) if (S->fired[i] && S->armed[i].kind.compare(0, pre.size(), pre) == 0) ++n;
  return n;
}

// ------------------------------------------------------------------ scheduler
static void SwitchOut() {
  Fiber *f = S->cur;
  void *g = __cxxabiv1::__cxa_get_globals();
  memcpy(f->eh, g, sizeof f->eh);
  swapcontext(&f->ctx, &S->main_ctx);
}
static bool Deciding() { return S->plan->sched_limit < 0 || S->decisions < S->plan->sched_limit; }
void Yield(const char *, bool may_switch) {
  if (!S || !S->active || !S->cur || !may_switch) return;
  if (S->fibers.size() < 2) return;
  int live = 0;
  for (auto &f : S->fibers) if (f->st != Fiber::DONE) ++live;
  if (live < 2 || !Deciding()) return;
  S->decisions++;
  if (S->sched.Unit() < S->preempt) {
    bool r = in_rt;
    SwitchOut();
    in_rt = r;
  }
}
static void BlockUntil(const std::string &why, std::function<bool()> pred) {
  while (!pred()) {
    Fiber *f = S->cur;
    f->st = Fiber::BLOCKED;
    f->why = why;
    f->ready = pred;
    bool r = in_rt;
    SwitchOut();
    in_rt = r;
    f->st = Fiber::READY;
    f->ready = nullptr;
  }
}
static std::string TypeNameOfCurrentException() {
  std::type_info *t = abi::__cxa_current_exception_type();
  if (!t) return "unknown";
  int st = 0;
  char *n = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
  std::string s = st == 0 && n ? n : t->name();
  free(n);
  return s;
}
static void FiberMain(unsigned hi, unsigned lo) {
  Fiber *f = (Fiber *) ((uint64_t(hi) << 32) | lo);
  try {
    in_rt = false;
    f->fn();
    in_rt = true;
  } catch (const std::exception &e) {
    in_rt = true;
    Finish(EXCEPTION, 0, TypeNameOfCurrentException(), (f->is_thread ? "on background thread: " : "") + std::string(e.what()));
  } catch (...) {
    in_rt = true;
    Finish(EXCEPTION, 0, TypeNameOfCurrentException(), "non-standard exception");
  }
  f->st = Fiber::DONE;
  f->fn = nullptr;
  in_rt = false;
  while (true) SwitchOut();
}
#if defined(__SANITIZE_ADDRESS__)
static void RunDirect(Fiber *f) {
  try {
    in_rt = false;
    f->fn();
    in_rt = true;
  } catch (const std::exception &e) {
    in_rt = true;
    Finish(EXCEPTION, 0, TypeNameOfCurrentException(), e.what());
  } catch (...) {
    in_rt = true;
    Finish(EXCEPTION, 0, TypeNameOfCurrentException(), "non-standard exception");
  }
  f->st = Fiber::DONE;
}
extern "C" const char *__asan_default_options() { return "exitcode=77:abort_on_error=0:detect_leaks=0:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:handle_segv=1"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=77"; }
#endif
static Fiber *NewFiber(int rank) {
  auto f = std::make_unique<Fiber>();
  f->id = S->fibers.size();
  f->rank = rank;
  size_t ss = 1 << 20;
  f->stack = mmap(nullptr, ss, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  getcontext(&f->ctx);
  f->ctx.uc_stack.ss_sp = f->stack;
  f->ctx.uc_stack.ss_size = ss;
  f->ctx.uc_link = nullptr;
  uint64_t p = (uint64_t) f.get();
  makecontext(&f->ctx, (void (*)()) FiberMain, 2, unsigned(p >> 32), unsigned(p));
  if (S->policy > 0) f->weight = pow(10.0, -3.0 * S->sched.Unit());
  S->fibers.push_back(std::move(f));
  return S->fibers.back().get();
}
void SpawnRank(std::function<void()> f) {
  int rank = 0;
  for (auto &x : S->fibers) if (!x->is_thread) rank++;
  NewFiber(rank)->fn = std::move(f);
}
void RunAll() {
  in_rt = true;
  while (true) {
    std::vector<Fiber *> run;
    bool all = true;
    long next = -1;
    for (auto &f : S->fibers) {
      if (f->st == Fiber::DONE) continue;
      all = false;
      bool ok = f->st == Fiber::READY || (f->ready && f->ready());
      if (ok && f->stall_until > S->now) {
        if (next < 0 || f->stall_until < next) next = f->stall_until;
        ok = false;
      }
      if (ok) run.push_back(f.get());
    }
    if (all) break;
    for (auto &b : S->inbox)
      for (auto &m : b) if (m.avail > S->now && (next < 0 || m.avail < next)) next = m.avail;
    if (run.empty()) {
      if (next > S->now) {
        S->now = next;
        continue;
      }
      std::string d;
      for (auto &f : S->fibers)
        if (f->st != Fiber::DONE)
          d += (d.empty() ? "" : "; ") + std::string(f->is_thread ? "thread of rank " : "rank ") + std::to_string(f->rank) + " waits in " + f->why;
      Finish(DEADLOCK, 0, "deadlock", "no rank or thread can make progress: " + d);
    }
    Fiber *pick = nullptr;
    if (run.size() == 1) pick = run[0];
    else if (!Deciding()) {
      for (auto f : run) if (f == S->cur) pick = f;
      if (!pick) pick = run[0];
    } else {
      S->decisions++;
      if (S->policy == 2 && S->redraw-- <= 0) {
        for (auto &f : S->fibers) f->weight = pow(10.0, -3.0 * S->sched.Unit());
        S->redraw = 50 + S->sched.Below(2000);
      }
      double w = 0;
      for (auto f : run) w += f->weight;
      double x = S->sched.Unit() * w;
      pick = run.back();
      for (auto f : run) {
        x -= f->weight;
        if (x < 0) {
          pick = f;
          break;
        }
      }
      HS(pick->id + 1);
    }
    if (pick != S->cur) S->switches++;
    S->cur = pick;
    void *g = __cxxabiv1::__cxa_get_globals();
    char mine[2 * sizeof(void *)];
    memcpy(mine, g, sizeof mine);
    memcpy(g, pick->eh, sizeof pick->eh);
    in_rt = false;
    swapcontext(&S->main_ctx, &pick->ctx);
    in_rt = true;
    memcpy(g, mine, sizeof mine);
  }
  S->cur = nullptr;
  in_rt = false;
}

// ------------------------------------------------------------------ events and faults
static std::function<void(int, const char *)> g_observer;
static const char *g_evpath = "";
void OnEvent(std::function<void(int, const char *)> f) { g_observer = std::move(f); }
static Fault *Event(int c, uint64_t detail = 0) {
  if (g_observer) g_observer(c, g_evpath);
  g_evpath = "";
  long idx = S->counts[c]++;
  long any = -1, io = -1;
  if (c != C_ALLOC) any = S->counts[C_ANY]++;
  if (c >= C_OPENW && c <= C_MKDIR) io = S->counts[C_IO]++;
  H(uint64_t(c) * 1000003 + detail);
  if (S->cur) H(S->cur->id);
  S->now += 1;
  if (any > S->cap) Finish(LIMIT, 0, "step-limit", "more than " + std::to_string(S->cap) + " simulated events");
  if (S->nofault) return nullptr;
  Fault *res = nullptr;
  for (size_t i = 0; i < S->armed.size(); ++i) {
    Fault &f = S->armed[i];
    if (S->fired[i]) continue;
    int fc = ClsOf(f.cls);
    bool hit = (fc == c && f.at == idx) || (fc == C_ANY && any >= 0 && f.at == any) || (fc == C_IO && io >= 0 && f.at == io);
    if (!hit) continue;
    if (f.kind == "signal" && (S->cur == nullptr || S->cur->is_thread)) continue;
    S->fired[i] = 1;
    H(0xfa017 + f.a);
    Bump(g_sh ? g_sh->fired : nullptr, f.kind.c_str());
    if (f.kind == "kill") {
      if (c == C_WRITE && f.a > 0) { res = &f; continue; }   // torn write handled by the caller
      Finish(KILLED, 0, "killed", "killed at " + std::string(kCls[c]) + " event");
    } else if (f.kind == "signal") {
      std::string sk = "signal" + std::to_string(f.a);     // event counts at the first delivery of each signal
      if (!S->out.vec.count(sk)) S->out.vec[sk] = std::vector<double>(S->counts, S->counts + C_NUM);
      in_rt = false;
      raise(int(f.a));
      in_rt = true;
    } else if (f.kind == "clock.jump") {
      S->wall_off += double(f.a);
    } else if (f.kind == "stall") {
      for (auto &x : S->fibers) if (x->rank == f.a && !x->is_thread) x->stall_until = S->now + f.b;
    } else if (f.kind == "stall_thread") {
      for (auto &x : S->fibers) if (x->is_thread) x->stall_until = S->now + f.b;
    } else res = &f;
  }
  return res;
}
struct Rt {      // runtime section: own allocations and file accesses are not simulated
  bool old;
  Rt() : old(in_rt) { in_rt = true; }
  ~Rt() { in_rt = old; }
};
void Work(const char *what) {
  if (!S || !S->active || in_rt) return;
  {
    Rt r;
    uint64_t h = 0;
    for (const char *p = what; *p; ++p) h = h * 31 + *p;
    g_evpath = what;
    Event(C_WORK, h);
    S->now += 4;
  }
  Yield(what);
}
double NowSeconds() { return S ? S->now * 1e-6 : 0; }
double TimerRead() {
  if (S && S->active && !in_rt) {
    Rt r;
    Event(C_CLOCK, 7);
  }
  return NowSeconds();
}
double RandDouble() { return S && S->active ? WorkRng().Unit() : double(rand()) / (double(RAND_MAX) + 1); }
void SetSysinfo(unsigned long t, unsigned long f, unsigned long b, unsigned unit) {
  memset(&S->si, 0, sizeof S->si);
  S->si.totalram = t;
  S->si.freeram = f;
  S->si.bufferram = b;
  S->si.mem_unit = unit;
  S->si_set = true;
}
long SysinfoCalls() { return S->si_calls; }
void SetWallClock(double t) {
  S->wall0 = t - S->now * 1e-6;
  S->wall_off = 0;
}
double WallClock() { return S->wall0 + S->wall_off + S->now * 1e-6; }
struct NullBuf : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};
void CaptureOn(bool on) {
  Rt r;
  static NullBuf nb;
  if (!S->cap_out) S->cap_out = new std::ostringstream;
  if (on) {
    S->cap_out->str("");
    std::cout.rdbuf(S->cap_out->rdbuf());
  } else std::cout.rdbuf(&nb);
}
std::string Captured() { return S->cap_out ? S->cap_out->str() : ""; }

// ------------------------------------------------------------------ processes
static char *g_area = nullptr;
static const size_t kArea = 8 << 20;
static std::vector<FdInfo> g_fd;

Outcome Ctx::Process(const std::string &name, int inc, bool faults, std::function<void()> body, int ranks, bool) {
  if (!g_area) g_area = (char *) mmap(nullptr, kArea, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  uint64_t zero = 0;
  memcpy(g_area, &zero, 8);
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) throw SimError("fork failed");
  if (pid == 0) {
    in_rt = true;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = 60;
    setitimer(ITIMER_PROF, &it, nullptr);
    alarm(240);
    signal(SIGUSR1, SIG_DFL);
    signal(SIGUSR2, SIG_DFL);
    if (!getenv("SIM_VERBOSE")) {
      int dn = (int) syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY);
      syscall(SYS_dup3, dn, 1, 0);
      syscall(SYS_dup3, dn, 2, 0);
    }
    if (getenv("SIM_BT")) {
      static char alt[65536];
      stack_t ss{};
      ss.ss_sp = alt;
      ss.ss_size = sizeof alt;
      sigaltstack(&ss, nullptr);
      struct sigaction sa{};
      sa.sa_flags = SA_ONSTACK;
      sa.sa_handler = [](int sg) {
        void *b[40];
        int n = backtrace(b, 40);
        backtrace_symbols_fd(b, n, 2);
        signal(sg, SIG_DFL);
        raise(sg);
      };
      for (int sg : {SIGSEGV, SIGABRT, SIGFPE}) sigaction(sg, &sa, nullptr);
    }
    S = new State;
    S->plan = plan;
    S->root = root;
    S->shm = g_area;
    S->shm_size = kArea;
    for (auto &f : plan->faults)
      if (faults && (f.inc == inc || f.inc == -1) && f.at >= 0) S->armed.push_back(f);
    S->fired.assign(S->armed.size(), 0);
    uint64_t base = Mix(plan->seed, 1000 + inc);
    S->sched = Rng(Mix(base, 1));
    for (int i = 0; i < ranks + 1; ++i) S->rank_rng.emplace_back(Mix(base, 100 + i));
    S->preempt = plan->P("preempt", 100) / 1000.0;
    S->policy = int(plan->P("policy", 0));
    S->eager = plan->P("eager", 1L << 40);
    S->max_delay = plan->P("delay", 0);
    S->cap = plan->P("cap", 20000000);
    S->nranks = ranks;
    S->inbox.resize(ranks);
    g_fd.assign(4096, FdInfo());
    S->active = true;
    srand(unsigned(base));
    if (!getenv("SIM_VERBOSE")) CaptureOn(false);
#if defined(__SANITIZE_ADDRESS__)
    // sanitizer builds run the (single, threadless) body on the ordinary stack
    S->fibers.push_back(std::make_unique<Fiber>());
    S->cur = S->fibers[0].get();
    S->cur->fn = body;
    RunDirect(S->cur);
#else
    for (int i = 0; i < ranks; ++i) SpawnRank(body);
    RunAll();
#endif
    in_rt = true;
    size_t left = 0;
    std::string d;
    for (auto &b : S->inbox)
      for (auto &m : b) {
        ++left;
        if (left < 4) d += " [src " + std::to_string(m.src) + " dst " + std::to_string(m.dst) + " tag " + std::to_string(m.tag) + "]";
      }
    if (left) Finish(FAIL, 0, "mpi.leftover", std::to_string(left) + " messages were never received:" + d);
    for (auto &x : S->colls)
      if (int(x.second.arrived.size()) != ranks)
        Finish(FAIL, 0, "mpi.collective", x.second.type + " was entered by only " + std::to_string(x.second.arrived.size()) + " of " + std::to_string(ranks) + " ranks");
    Finish(OK, 0, "", "");
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Outcome o;
  uint64_t sz;
  memcpy(&sz, g_area, 8);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sz) o = Deserialise(g_area);
  else if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    if (sg == SIGPROF || sg == SIGALRM) {
      o.kind = HANG;
      o.msg = "process used 60 s of CPU time without ending";
    } else {
      o.kind = SIGNAL;
      o.code = sg;
      o.msg = std::string("process died of signal ") + strsignal(sg);
    }
  } else {
    o.kind = UNEXPECTED;
    o.msg = "process ended with status " + std::to_string(st);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
      o.kind = SIGNAL;
      o.code = 77;
      o.msg = "memory error reported by AddressSanitizer/UndefinedBehaviorSanitizer";
    }
  }
  procs++;
  hash = Mix(hash, o.hash ^ (uint64_t(o.kind) << 56));
  sched_hash = Mix(sched_hash, o.sched_hash);
  sim_time += o.sim_time;
  if (g_sh && g_stats_on) {
    __atomic_fetch_add(&g_sh->procs, 1, __ATOMIC_RELAXED);
    __atomic_fetch_add(&g_sh->sim_us, long(o.sim_time * 1e6), __ATOMIC_RELAXED);
    __atomic_fetch_add(&g_sh->switches, o.switches, __ATOMIC_RELAXED);
    __atomic_fetch_add(&g_sh->deliveries, o.deliveries, __ATOMIC_RELAXED);
  }
  log.push_back(name + ": " + KindName(o.kind) + (o.cls.empty() ? "" : " " + o.cls) + (o.msg.empty() ? "" : " (" + o.msg + ")"));
  return o;
}
void Ctx::Resolve(int inc, const Outcome &ref) {
  for (auto &f : plan->faults)
    if (f.inc == inc && f.at < 0) {
      long n = ref.counts[ClsOf(f.cls)];
      f.at = n > 0 ? (n * f.frac) / 10000 : 0;
    }
}
std::string Ctx::Dir(const std::string &d) { return root + "/" + d; }

// ------------------------------------------------------------------ scratch helpers (raw)
void MkDir(const std::string &d) { Rt r; syscall(SYS_mkdirat, AT_FDCWD, d.c_str(), 0755); }
std::vector<std::string> ListDir(const std::string &d) {
  Rt r;
  std::vector<std::string> v;
  DIR *p = opendir(d.c_str());
  if (!p) return v;
  while (auto e = readdir(p)) {
    std::string n = e->d_name;
    if (n != "." && n != "..") v.push_back(n);
  }
  closedir(p);
  std::sort(v.begin(), v.end());
  return v;
}
static bool IsDir(const std::string &f) {
  struct stat st;
  return ::stat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
}
void RmTree(const std::string &d) {
  Rt r;
  for (auto &n : ListDir(d)) {
    std::string f = d + "/" + n;
    if (IsDir(f)) RmTree(f);
    else syscall(SYS_unlinkat, AT_FDCWD, f.c_str(), 0);
  }
  if (syscall(SYS_unlinkat, AT_FDCWD, d.c_str(), AT_REMOVEDIR) != 0) syscall(SYS_unlinkat, AT_FDCWD, d.c_str(), 0);
}
bool Exists(const std::string &f) {
  Rt r;
  struct stat st;
  return ::stat(f.c_str(), &st) == 0;
}
std::string Slurp(const std::string &f) {
  Rt r;
  int fd = (int) syscall(SYS_openat, AT_FDCWD, f.c_str(), O_RDONLY);
  std::string s;
  if (fd < 0) return s;
  char b[65536];
  long n;
  while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, n);
  syscall(SYS_close, fd);
  return s;
}
void Spit(const std::string &f, const std::string &s) {
  Rt r;
  int fd = (int) syscall(SYS_openat, AT_FDCWD, f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return;
  size_t o = 0;
  while (o < s.size()) {
    long n = syscall(SYS_write, fd, s.data() + o, s.size() - o);
    if (n <= 0) break;
    o += n;
  }
  syscall(SYS_close, fd);
}
void CopyTree(const std::string &a, const std::string &b) {
  MkDir(b);
  for (auto &n : ListDir(a)) {
    if (IsDir(a + "/" + n)) CopyTree(a + "/" + n, b + "/" + n);
    else Spit(b + "/" + n, Slurp(a + "/" + n));
  }
}
std::string TreeDigest(const std::string &d) {
  std::string s;
  for (auto &n : ListDir(d)) {
    if (IsDir(d + "/" + n)) s += n + "/{" + TreeDigest(d + "/" + n) + "}";
    else {
      std::string c = Slurp(d + "/" + n);
      s += n + ":" + std::to_string(c.size()) + ":" + std::to_string(std::hash<std::string>()(c)) + ";";
    }
  }
  return s;
}

// ------------------------------------------------------------------ MPI
static void NeedMpi() { if (!S || !S->active || !S->cur) throw SimError("MPI call outside the simulation"); }
static long SizeOf(MPI_Datatype t) {
  switch (t) {
    case MPI_CHAR: case MPI_BYTE: case MPI_CXX_BOOL: return 1;
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: return 4;
    case MPI_DOUBLE_COMPLEX: case MPI_CXX_DOUBLE_COMPLEX: return 16;
    default: return 8;
  }
}
static void PostSend(std::string data, int kind, int type, int dest, int tag, int comm, bool sync) {
  {
    Rt r;
    if (dest < 0 || dest >= S->nranks) Finish(FAIL, 0, "mpi.rank", "send to rank " + std::to_string(dest) + " which does not exist");
    Event(C_SEND, uint64_t(S->cur->rank) * 64 + dest + 4096ull * data.size());
    S->now += 10;
    Msg m;
    m.src = S->cur->rank;
    m.dst = dest;
    m.tag = tag;
    m.comm = comm;
    m.kind = kind;
    m.type = type;
    m.data = std::move(data);
    m.seq = S->msg_seq++;
    long d = 0;
    if (S->max_delay > 0 && Deciding()) {
      S->decisions++;
      d = S->sched.Below(S->max_delay + 1);
      if (S->sched.Chance(0.02)) d *= 50;
    }
    long &ca = S->chan_avail[{m.src, dest}];
    m.avail = std::max(ca, S->now + d);
    ca = m.avail;
    m.rendezvous = sync || long(m.data.size()) > S->eager;
    if (m.rendezvous) m.consumed = std::make_shared<bool>(false);
    auto con = m.consumed;
    S->inbox[dest].push_back(std::move(m));
    if (con) BlockUntil("send to rank " + std::to_string(dest) + " tag " + std::to_string(tag), [con]() { return *con; });
  }
  Yield("send");
}
static std::vector<std::list<Msg>::iterator> Candidates(int me, int src, int tag, int comm, bool arrived) {
  std::vector<std::list<Msg>::iterator> v;
  std::set<int> seen;
  auto &b = S->inbox[me];
  for (auto it = b.begin(); it != b.end(); ++it) {
    if (it->comm != comm) continue;
    if (src != MPI_ANY_SOURCE && it->src != src) continue;
    if (tag != MPI_ANY_TAG && it->tag != tag) continue;
    if (seen.count(it->src)) continue;
    seen.insert(it->src);
    if (arrived && it->avail > S->now) continue;
    v.push_back(it);
  }
  return v;
}
static std::list<Msg>::iterator Match(int src, int tag, int comm) {
  int me = S->cur->rank;
  auto have = [me, src, tag, comm]() { return !Candidates(me, src, tag, comm, true).empty(); };
  BlockUntil("receive from " + (src == MPI_ANY_SOURCE ? std::string("any rank") : "rank " + std::to_string(src)) + " tag " + std::to_string(tag), have);
  auto c = Candidates(me, src, tag, comm, true);
  size_t k = 0;
  if (c.size() > 1) {
    if (Deciding()) {
      S->decisions++;
      k = S->sched.Below(c.size());
      HS(7000 + c[k]->src);
    } else
      for (size_t i = 1; i < c.size(); ++i) if (c[i]->seq < c[k]->seq) k = i;
  }
  return c[k];
}
static Msg Take(int src, int tag, int comm) {
  Rt r;
  auto it = Match(src, tag, comm);
  Msg m = std::move(*it);
  S->inbox[S->cur->rank].erase(it);
  if (m.consumed) *m.consumed = true;
  S->deliveries++;
  H(0x3c0 + m.src * 64 + m.dst);
  S->now += 5;
  return m;
}
void MpiSendString(const std::string &s, int dest, int tag, MPI_Comm comm) {
  NeedMpi();
  std::string d;
  {
    Rt r;
    d = s;
  }
  PostSend(std::move(d), 1, 1000, dest, tag, comm, false);
}
MPI_Status MpiRecvString(std::string &s, int src, int tag, MPI_Comm comm) {
  NeedMpi();
  MPI_Status st;
  {
    Msg m = Take(src, tag, comm);
    Rt r;
    if (m.kind != 1) Finish(FAIL, 0, "mpi.protocol", "rank " + std::to_string(m.dst) + " receives a tensor but rank " + std::to_string(m.src) + " sent plain data, tag " + std::to_string(m.tag));
    st.MPI_SOURCE = m.src;
    st.MPI_TAG = m.tag;
    st.MPI_ERROR = 0;
    st.bytes_ = m.data.size();
    s = std::move(m.data);
  }
  Yield("recv");
  return st;
}
static Coll &Enter(const std::string &type, int root, long bytes, int comm, long &seq) {
  int me = S->cur->rank;
  seq = S->coll_seq[comm][me]++;
  H(0xc011 + me);
  S->now += 5;
  Coll &c = S->colls[{comm, seq}];
  if (c.arrived.empty()) {
    c.type = type;
    c.root = root;
    c.bytes = bytes;
  } else {
    if (c.type != type || c.root != root)
      Finish(FAIL, 0, "mpi.collective", "rank " + std::to_string(me) + " enters " + type + " (root " + std::to_string(root) + ") while another rank is in " + c.type + " (root " + std::to_string(c.root) + ")");
    if (c.bytes >= 0 && bytes >= 0 && c.bytes != bytes)
      Finish(FAIL, 0, "mpi.collective", type + " with different sizes: " + std::to_string(c.bytes) + " and " + std::to_string(bytes) + " bytes");
  }
  c.arrived.insert(me);
  return c;
}
static void Leave(int comm, long seq) {
  // forget completed instances that everybody has left long ago
  long lo = -1;
  for (auto &x : S->coll_seq[comm]) if (lo < 0 || x.second < lo) lo = x.second;
  while (!S->colls.empty() && S->colls.begin()->first.first == comm && S->colls.begin()->first.second < lo - 2 * S->nranks - 4) {
    auto &c = S->colls.begin()->second;
    if (int(c.arrived.size()) != S->nranks) break;
    S->colls.erase(S->colls.begin());
  }
  (void) seq;
}
static void BcastCore(std::string &data, bool string_kind, long bytes, int root, int comm) {
  {
    Rt r;
    if (root < 0 || root >= S->nranks) Finish(FAIL, 0, "mpi.rank", "broadcast from rank " + std::to_string(root) + " which does not exist");
    long seq;
    Enter(string_kind ? "tensor broadcast" : "broadcast", root, bytes, comm, seq);
    auto key = std::make_pair(comm, seq);
    if (S->cur->rank == root) {
      Coll &c = S->colls[key];
      c.data = data;
      c.root_in = true;
      if (S->plan->P("syncbcast", 0))
        BlockUntil("broadcast (root)", [key]() { return int(S->colls[key].arrived.size()) == S->nranks; });
    } else {
      BlockUntil("broadcast from rank " + std::to_string(root), [key]() { return S->colls[key].root_in; });
      data = S->colls[key].data;
    }
    Leave(comm, seq);
  }
  Yield("bcast");
}
void MpiBcastString(std::string &s, int root, MPI_Comm comm) {
  NeedMpi();
  BcastCore(s, true, -1, root, comm);
}
} // sim

using namespace sim;
int MPI_Init(int *, char ***) { return 0; }
int MPI_Init_thread(int *, char ***, int, int *p) { if (p) *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Finalize() { return 0; }
int MPI_Comm_rank(MPI_Comm, int *r) { *r = CurrentRank(); return 0; }
int MPI_Comm_size(MPI_Comm, int *n) { *n = S ? S->nranks : 1; return 0; }
static std::string Buf(const void *p, int n, MPI_Datatype t) {
  Rt r;
  return std::string((const char *) p, n * SizeOf(t));
}
int MPI_Send(const void *p, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c) {
  NeedMpi();
  PostSend(Buf(p, n, t), 0, t, dest, tag, c, false);
  return 0;
}
int MPI_Ssend(const void *p, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c) {
  NeedMpi();
  PostSend(Buf(p, n, t), 0, t, dest, tag, c, true);
  return 0;
}
int MPI_Recv(void *p, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *st) {
  NeedMpi();
  {
    Msg m = Take(src, tag, c);
    Rt r;
    if (m.kind != 0) Finish(FAIL, 0, "mpi.protocol", "rank " + std::to_string(m.dst) + " receives plain data but rank " + std::to_string(m.src) + " sent a tensor, tag " + std::to_string(m.tag));
    if (long(m.data.size()) > n * SizeOf(t))
      Finish(FAIL, 0, "mpi.truncate", "message of " + std::to_string(m.data.size()) + " bytes received into " + std::to_string(n * SizeOf(t)) + " bytes");
    memcpy(p, m.data.data(), m.data.size());
    if (st) {
      st->MPI_SOURCE = m.src;
      st->MPI_TAG = m.tag;
      st->MPI_ERROR = 0;
      st->bytes_ = m.data.size();
    }
  }
  Yield("recv");
  return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *st) {
  NeedMpi();
  {
    Rt r;
    auto it = Match(src, tag, c);
    if (st) {
      st->MPI_SOURCE = it->src;
      st->MPI_TAG = it->tag;
      st->MPI_ERROR = 0;
      st->bytes_ = it->data.size();
    }
  }
  Yield("probe");
  return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *flag, MPI_Status *st) {
  NeedMpi();
  {
    Rt r;
    Event(C_WORK, 99);
    auto v = Candidates(S->cur->rank, src, tag, c, true);
    *flag = !v.empty();
    if (v.empty()) S->now += 20;
    if (!v.empty() && st) {
      st->MPI_SOURCE = v[0]->src;
      st->MPI_TAG = v[0]->tag;
      st->bytes_ = v[0]->data.size();
    }
    if (v.empty() && S->fibers.size() > 1) SwitchOut();
  }
  Yield("iprobe");
  return 0;
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { *n = int(st->bytes_ / SizeOf(t)); return 0; }
int MPI_Bcast(void *p, int n, MPI_Datatype t, int root, MPI_Comm c) {
  NeedMpi();
  std::string d = Buf(p, n, t);
  BcastCore(d, false, n * SizeOf(t), root, c);
  memcpy(p, d.data(), d.size());
  {
    Rt r;
    std::string().swap(d);
  }
  return 0;
}
int MPI_Barrier(MPI_Comm c) {
  NeedMpi();
  {
    Rt r;
    long seq;
    Enter("barrier", 0, 0, c, seq);
    auto key = std::make_pair(c, seq);
    BlockUntil("barrier", [key]() { return int(S->colls[key].arrived.size()) == S->nranks; });
    Leave(c, seq);
  }
  Yield("barrier");
  return 0;
}
template<typename T> static void Acc(std::string &a, const std::string &b, MPI_Op op) {
  T *x = (T *) &a[0];
  const T *y = (const T *) b.data();
  for (size_t i = 0; i < a.size() / sizeof(T); ++i) {
    if (op == MPI_SUM) x[i] += y[i];
    else if (op == MPI_MAX) x[i] = std::max(x[i], y[i]);
    else x[i] = std::min(x[i], y[i]);
  }
}
static void ReduceCore(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, bool all) {
  NeedMpi();
  {
    Rt r;
    long seq;
    int me = S->cur->rank;
    Enter(all ? "allreduce" : "reduce", root, n * SizeOf(t), c, seq);
    auto key = std::make_pair(c, seq);
    S->colls[key].parts[me] = std::string((const char *) in, n * SizeOf(t));
    if (all || me == root) {
      BlockUntil("reduce", [key]() { return int(S->colls[key].parts.size()) == S->nranks; });
      std::string a = S->colls[key].parts[0];
      for (int i = 1; i < S->nranks; ++i) {
        auto &b = S->colls[key].parts[i];
        if (t == MPI_DOUBLE || t == MPI_DOUBLE_COMPLEX) Acc<double>(a, b, op);
        else if (t == MPI_INT) Acc<int>(a, b, op);
        else if (t == MPI_UNSIGNED) Acc<unsigned>(a, b, op);
        else if (t == MPI_UNSIGNED_LONG || t == MPI_UNSIGNED_LONG_LONG || t == MPI_UINT64_T) Acc<unsigned long>(a, b, op);
        else Acc<long>(a, b, op);
      }
      memcpy(out, a.data(), a.size());
    }
    Leave(c, seq);
  }
  Yield("reduce");
}
int MPI_Reduce(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { ReduceCore(in, out, n, t, op, root, c, false); return 0; }
int MPI_Allreduce(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { ReduceCore(in, out, n, t, op, 0, c, true); return 0; }
int MPI_Gather(const void *in, int n, MPI_Datatype t, void *out, int, MPI_Datatype, int root, MPI_Comm c) {
  NeedMpi();
  {
    Rt r;
    long seq;
    int me = S->cur->rank;
    Enter("gather", root, n * SizeOf(t), c, seq);
    auto key = std::make_pair(c, seq);
    S->colls[key].parts[me] = std::string((const char *) in, n * SizeOf(t));
    if (me == root) {
      BlockUntil("gather", [key]() { return int(S->colls[key].parts.size()) == S->nranks; });
      for (int i = 0; i < S->nranks; ++i) memcpy((char *) out + i * n * SizeOf(t), S->colls[key].parts[i].data(), n * SizeOf(t));
    }
    Leave(c, seq);
  }
  Yield("gather");
  return 0;
}
int MPI_Abort(MPI_Comm, int code) {
  NeedMpi();
  Finish(EXIT, code ? code : 1, "MPI_Abort", "MPI_Abort");
}

// ------------------------------------------------------------------ threads
void std::thread::_M_start_thread(_State_ptr state, void (*)()) {
  if (!S || !S->active) throw SimError("std::thread outside the simulation");
  Fiber *f;
  {
    Rt r;
    f = NewFiber(S->cur->rank);
    f->is_thread = true;
    auto sp = std::make_shared<_State_ptr>(std::move(state));
    f->fn = [sp]() {
      (*sp)->_M_run();
      Rt r;
      sp->reset();
    };
    H(0x7ead);
  }
  _M_id = id(std::thread::native_handle_type(0x10000 + f->id));
  Probe("thread.start");
  Yield("thread.start");
}
void std::thread::join() {
  if (!joinable()) throw std::system_error(std::make_error_code(std::errc::invalid_argument));
  long i = long(native_handle()) - 0x10000;
  {
    Rt r;
    Fiber *f = S->fibers.at(i).get();
    if (f->st != Fiber::DONE) Probe("thread.join_waits");
    BlockUntil("thread join", [f]() { return f->st == Fiber::DONE; });
  }
  _M_id = id();
  Yield("thread.join");
}
void std::thread::detach() { _M_id = id(); }

// ------------------------------------------------------------------ allocation
// The simulated process allocates from an arena at a fixed address: what a program that reads freed or uninitialised
// memory sees, or hits when it writes past a block, is then the same in every execution of a plan. Fresh and freed
// memory is filled with a quiet NaN pattern, blocks carry guards, and small blocks are reused late.
namespace {
#if !defined(__SANITIZE_ADDRESS__)
char *const kArenaBase = (char *) 0x6f0000000000ull;
const size_t kArenaSize = size_t(24) << 30;
const uint64_t kLive = 0x51fe51fe51fe51feull, kDead = 0xdeaddeaddeaddeadull, kGuard = 0x6a4d6a4d6a4d6a4dull;
struct Head { uint64_t size, magic, cls, guard; };       // 32 bytes, block follows, 16 guard bytes after it
struct FreeList { Head *head, *tail; };
FreeList g_free[256];
char *g_top = nullptr, *g_mapped = nullptr;
size_t g_total = 0;
inline size_t ClassOf(size_t n, size_t &room) {
  if (n <= 1024) {
    size_t c = (n + 15) / 16;
    room = c * 16;
    return c;
  }
  int e = 63 - __builtin_clzll(n - 1);
  size_t q = size_t(1) << (e - 2), base = size_t(1) << e;
  size_t k = (n - base + q - 1) / q;
  room = base + k * q;
  return 65 + size_t(e - 10) * 4 + k;
}
inline void Fill(char *p, size_t n, uint64_t pat) {
  size_t k = 0;
  for (; k + 8 <= n; k += 8) memcpy(p + k, &pat, 8);
  if (k < n) memcpy(p + k, &pat, n - k);
}
inline uint64_t Guard(const char *p) { return kGuard ^ (uint64_t(p) * 0x9e3779b97f4a7c15ull); }   // differs from block to block
[[noreturn]] void BadHeap(const char *what) {
  if (S && S->active) Finish(SIGNAL, SIGABRT, "heap", what);
  abort();
}
void *ArenaNew(size_t n) {
  if (!g_top) {
    void *q = mmap(kArenaBase, kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (q != kArenaBase) return nullptr;
    g_top = kArenaBase;
  }
  size_t room;
  size_t c = ClassOf(n ? n : 1, room);
  if (c >= 256) return nullptr;
  Head *h = g_free[c].head;
  if (h && (c > 32 || g_total > (size_t(64) << 20) || c == 0)) {
    g_free[c].head = *(Head **) (h + 1);
    if (!g_free[c].head) g_free[c].tail = nullptr;
  } else if (h && h != g_free[c].tail) {
    g_free[c].head = *(Head **) (h + 1);
  } else {
    size_t need = sizeof(Head) + room + 16;
    if (size_t(g_top - kArenaBase) + need > kArenaSize) return nullptr;
    h = (Head *) g_top;
    g_top += need;
    g_total += need;
    h->cls = c;
  }
  h->size = n;
  h->magic = kLive;
  h->guard = kGuard;
  char *p = (char *) (h + 1);
  Fill(p, n, 0x7ff8a5a5a5a5a5a5ull);
  const uint64_t g[2] = {Guard(p), ~Guard(p)};
  memcpy(p + n, g, 16);
  return p;
}
void ArenaDelete(void *v) {
  Head *h = (Head *) v - 1;
  if (h->magic == kDead) BadHeap("a block was released twice");
  if (h->magic != kLive || h->guard != kGuard) BadHeap("memory in front of a released block was overwritten, or the pointer is not a block");
  char *p = (char *) v;
  const uint64_t g[2] = {Guard(p), ~Guard(p)};
  if (memcmp(p + h->size, g, 16)) BadHeap("memory behind a block was overwritten");
  h->magic = kDead;
  Fill(p, h->size, 0x7ff8deaddeaddeadull);
  *(Head **) p = nullptr;
  size_t c = h->cls;
  if (c <= 32) {                 // reused late
    if (g_free[c].tail) *(Head **) (g_free[c].tail + 1) = h;
    else g_free[c].head = h;
    g_free[c].tail = h;
  } else {
    *(Head **) p = g_free[c].head;
    g_free[c].head = h;
    if (!g_free[c].tail) g_free[c].tail = h;
  }
}
inline bool InArena(void *p) { return p >= (void *) kArenaBase && p < (void *) (kArenaBase + kArenaSize); }
#endif
void *NewImpl(size_t n) {
  if (S && S->active && !in_rt) {
    if (S->alloc_on) {
      Rt r;
      Fault *f = Event(C_ALLOC, n);
      if (f && f->kind == "alloc") throw std::bad_alloc();
    }
#if !defined(__SANITIZE_ADDRESS__)
    void *p = ArenaNew(n);
    if (!p) throw std::bad_alloc();
    return p;
#endif
  }
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void DeleteImpl(void *p) {
#if !defined(__SANITIZE_ADDRESS__)
  if (InArena(p)) {
    ArenaDelete(p);
    return;
  }
#endif
  free(p);
}
}
void *operator new(size_t n) { return NewImpl(n); }
void *operator new[](size_t n) { return NewImpl(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { DeleteImpl(p); }
void operator delete[](void *p) noexcept { DeleteImpl(p); }
void operator delete(void *p, size_t) noexcept { DeleteImpl(p); }
void operator delete[](void *p, size_t) noexcept { DeleteImpl(p); }

// ------------------------------------------------------------------ libc seams
template<typename F> static F Next(const char *n) { return (F) dlsym(RTLD_NEXT, n); }
static bool Sim(const char *path) {
  return S && S->active && !in_rt && path && !strncmp(path, S->root.c_str(), S->root.size());
}
static bool SimFd(int fd) { return S && S->active && !in_rt && fd >= 0 && fd < int(g_fd.size()) && g_fd[fd].tracked; }
static uint64_t RelHash(const char *p) {
  uint64_t h = 14695981039346656037ull;
  for (p += S->root.size(); *p; ++p) h = (h ^ *p) * 1099511628211ull;
  return h;
}
static void Track(int fd, const char *path, bool w) {
  if (fd >= 0 && fd < int(g_fd.size())) {
    Rt r;
    g_fd[fd].tracked = true;
    g_fd[fd].writable = w;
    g_fd[fd].rel = path + S->root.size();
  }
}
static void IoTick() { S->now += 50; Yield("io"); }

static FILE *FopenImpl(const char *p, const char *m) {
  static auto real = Next<FILE *(*)(const char *, const char *)>("fopen64");
  if (!Sim(p)) return real(p, m);
  bool w = strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+');
  Fault *f;
  {
    Rt r;
    g_evpath = p;
    f = Event(w ? C_OPENW : C_OPENR, RelHash(p));
  }
  IoTick();
  if (f && f->kind == "open_fail") {
    errno = int(f->a ? f->a : EACCES);
    return nullptr;
  }
  FILE *fp;
  {
    Rt r;
    fp = real(p, m);
  }
  if (fp) Track(fileno(fp), p, w);
  return fp;
}
extern "C" {
FILE *fopen(const char *p, const char *m) { return FopenImpl(p, m); }
FILE *fopen64(const char *p, const char *m) { return FopenImpl(p, m); }
static int OpenImpl(const char *p, int fl, mode_t mode) {
  if (!Sim(p)) return (int) syscall(SYS_openat, AT_FDCWD, p, fl, mode);
  bool w = (fl & O_ACCMODE) != O_RDONLY;
  Fault *f;
  {
    Rt r;
    g_evpath = p;
    f = Event(w ? C_OPENW : C_OPENR, RelHash(p));
  }
  IoTick();
  if (f && f->kind == "open_fail") {
    errno = int(f->a ? f->a : EACCES);
    return -1;
  }
  int fd = (int) syscall(SYS_openat, AT_FDCWD, p, fl, mode);
  if (fd >= 0) Track(fd, p, w);
  return fd;
}
int open(const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
  va_end(ap);
  return OpenImpl(p, fl, m);
}
int open64(const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
  va_end(ap);
  return OpenImpl(p, fl, m);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (!SimFd(fd)) return syscall(SYS_write, fd, b, n);
  Fault *f;
  {
    Rt r;
    f = Event(C_WRITE, n);
  }
  IoTick();
  if (S->fail_w != 0) {
    if (S->fail_w > 0) S->fail_w--;
    errno = int(S->fail_w_errno);
    return -1;
  }
  if (f) {
    if (f->kind == "kill") {
      syscall(SYS_write, fd, b, n * size_t(f->a) / 1000);
      Rt r;
      Finish(KILLED, 0, "killed", "killed in the middle of a write");
    }
    if (f->kind == "enospc" || f->kind == "eio") {
      int e = f->kind == "eio" ? EIO : ENOSPC;
      size_t part = n * size_t(f->a) / 1000;       // disk fills up in the middle
      S->fail_w = f->b;
      S->fail_w_errno = e;
      if (part > 0 && part < n) {
        if (S->fail_w == 0) S->fail_w = 1;
        return syscall(SYS_write, fd, b, part);
      }
      errno = e;
      return -1;
    }
    if (f->kind == "short") {
      size_t part = n * size_t(f->a) / 1000;
      return syscall(SYS_write, fd, b, part ? part : 1);
    }
    if (f->kind == "eintr") {
      errno = EINTR;
      return -1;
    }
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!SimFd(fd)) return syscall(SYS_writev, fd, v, c);
  size_t tot = 0;
  for (int i = 0; i < c; ++i) tot += v[i].iov_len;
  std::string *all;
  {
    Rt r;
    all = new std::string;
    for (int i = 0; i < c; ++i) all->append((const char *) v[i].iov_base, v[i].iov_len);
  }
  ssize_t n = write(fd, all->data(), all->size());
  int e = errno;
  {
    Rt r;
    delete all;
  }
  errno = e;
  return n;
}
ssize_t read(int fd, void *b, size_t n) {
  if (!SimFd(fd)) return syscall(SYS_read, fd, b, n);
  Fault *f;
  {
    Rt r;
    f = Event(C_READ, n);
  }
  IoTick();
  if (S->fail_r > 0) {
    S->fail_r--;
    errno = EIO;
    return -1;
  }
  if (f) {
    if (f->kind == "eio") {
      S->fail_r = f->b > 0 ? f->b : 0;
      errno = EIO;
      return -1;
    }
    if (f->kind == "short") {
      size_t part = n * size_t(f->a) / 1000;
      return syscall(SYS_read, fd, b, part ? part : 1);
    }
    if (f->kind == "eintr") {
      errno = EINTR;
      return -1;
    }
    if (f->kind == "eof") return 0;
  }
  return syscall(SYS_read, fd, b, n);
}
int close(int fd) {
  if (!SimFd(fd)) return (int) syscall(SYS_close, fd);
  bool w = g_fd[fd].writable;
  g_fd[fd].tracked = false;
  Fault *f = nullptr;
  if (w) {
    Rt r;
    f = Event(C_CLOSEW);
  }
  IoTick();
  int rc = (int) syscall(SYS_close, fd);
  if (f && f->kind == "close_fail") {
    errno = EIO;
    return -1;
  }
  return rc;
}
int fclose(FILE *fp) {
  static auto real = Next<int (*)(FILE *)>("fclose");
  int fd = fp ? fileno(fp) : -1;
  if (!SimFd(fd)) return real(fp);
  bool w = g_fd[fd].writable;
  g_fd[fd].tracked = false;
  Fault *f = nullptr;
  if (w) {
    Rt r;
    f = Event(C_CLOSEW);
  }
  IoTick();
  if (f && f->kind == "close_fail") {
    if (f->a > 0) {           // the tail never reached the disk
      struct stat st;
      if (fstat(fd, &st) == 0 && ftruncate(fd, st.st_size * f->a / 1000) != 0) {}
    }
    {
      Rt r;
      real(fp);
    }
    errno = EIO;
    return EOF;
  }
  Rt r;
  return real(fp);
}
static int UnlinkImpl(const char *p) {
  if (!Sim(p)) return (int) syscall(SYS_unlinkat, AT_FDCWD, p, 0);
  Fault *f;
  {
    Rt r;
    f = Event(C_UNLINK, RelHash(p));
  }
  IoTick();
  if (f && f->kind == "unlink_fail") {
    errno = EACCES;
    return -1;
  }
  return (int) syscall(SYS_unlinkat, AT_FDCWD, p, 0);
}
int unlink(const char *p) { return UnlinkImpl(p); }
int remove(const char *p) {
  int r = UnlinkImpl(p);
  if (r != 0 && errno == EISDIR) return (int) syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR);
  return r;
}
int rename(const char *a, const char *b) {
  if (!Sim(a)) return (int) syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
  Fault *f;
  {
    Rt r;
    f = Event(C_UNLINK, RelHash(a));
  }
  IoTick();
  if (f && f->kind == "unlink_fail") {
    errno = EACCES;
    return -1;
  }
  return (int) syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
}
int mkdir(const char *p, mode_t m) {
  if (!Sim(p)) return (int) syscall(SYS_mkdirat, AT_FDCWD, p, m);
  Fault *f;
  {
    Rt r;
    f = Event(C_MKDIR, RelHash(p));
  }
  IoTick();
  if (f && f->kind == "mkdir_fail") {
    errno = int(f->a ? f->a : EACCES);
    return -1;
  }
  return (int) syscall(SYS_mkdirat, AT_FDCWD, p, m);
}
int sysinfo(struct sysinfo *i) {
  if (!S || !S->active || in_rt || !S->si_set) return (int) syscall(SYS_sysinfo, i);
  Fault *f;
  {
    Rt r;
    f = Event(C_SYSINFO);
    S->si_calls++;
  }
  if (f && f->kind == "sysinfo_fail") {
    errno = EFAULT;
    return -1;
  }
  *i = S->si;
  return 0;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!S || !S->active || in_rt) return (int) syscall(SYS_clock_gettime, c, t);
  double w;
  {
    Rt r;
    Event(C_CLOCK);
    w = c == CLOCK_REALTIME ? WallClock() : S->now * 1e-6;
  }
  t->tv_sec = time_t(floor(w));
  t->tv_nsec = long((w - floor(w)) * 1e9);
  return 0;
}
int gettimeofday(struct timeval *t, void *) {
  struct timespec s;
  int r = clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return r;
}
time_t time(time_t *p) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (p) *p = s.tv_sec;
  return s.tv_sec;
}
void exit(int code) {
  if (S && S->active) {
    Rt r;
    Finish(EXIT, code, "exit", "exit(" + std::to_string(code) + ")");
  }
  static auto real = Next<void (*)(int)>("exit");
  real(code);
  abort();
}
} // extern "C"
