// Deterministic simulator: fibers for ranks and threads, simulated MPI, disk/alloc/signal/clock faults,
// fork-per-incarnation processes, seeded runs, replay and minimisation.
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <stdexcept>
#include "sim/hooks.h"
namespace sim {

uint64_t Mix(uint64_t a, uint64_t b);
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(Mix(seed, 0x9e3779b97f4a7c15ull)) {}
  uint64_t Next();
  long Below(long n) { return n <= 0 ? 0 : long(Next() % uint64_t(n)); }
  long Range(long lo, long hi) { return lo + Below(hi - lo + 1); }
  double Unit() { return double(Next() >> 11) * (1.0 / 9007199254740992.0); }
  bool Chance(double p) { return Unit() < p; }
  double Normal();
};

// One fault: the at-th event of class `cls` in incarnation `inc` suffers `kind`.
struct Fault {
  std::string kind, cls;
  long inc = 0;      // incarnation (process) number; -1: any
  long at = -1;      // event index (0 based); -1: to be resolved from frac
  long frac = 0;     // position in 1/10000 of the reference run's event count
  long a = 0, b = 0; // arguments
};
struct Plan {
  uint64_t seed = 0;
  std::map<std::string, long> par;
  std::vector<Fault> faults;
  long sched_limit = -1;   // scheduling decisions after this many are the default ones
  long P(const std::string &k, long d = 0) const { auto i = par.find(k); return i == par.end() ? d : i->second; }
  std::string Str() const;
  static Plan Parse(const std::string &s);
};

enum Kind { OK = 0, EXCEPTION, EXIT, SIGNAL, KILLED, DEADLOCK, LIMIT, FAIL, HANG, UNEXPECTED };
const char *KindName(int k);

enum Cls { C_WORK, C_OPENW, C_OPENR, C_WRITE, C_READ, C_CLOSEW, C_UNLINK, C_MKDIR, C_IO, C_ANY, C_ALLOC, C_SEND, C_SYSINFO, C_CLOCK, C_NUM };
const char *ClsName(int c);
int ClsOf(const std::string &s);

// What one process incarnation produced.
struct Outcome {
  int kind = UNEXPECTED;
  int code = 0;
  std::string cls;                 // violation class or exception type
  std::string msg;
  std::map<std::string, double> num;
  std::map<std::string, std::vector<double>> vec;
  long counts[C_NUM] = {0};
  uint64_t hash = 0;               // of the event log
  uint64_t sched_hash = 0;         // of scheduling decisions and deliveries only
  double sim_time = 0;
  long switches = 0, deliveries = 0;
  bool Ok() const { return kind == OK; }
  bool LoudFailure() const { return kind == EXCEPTION || (kind == EXIT && code != 0); }
};

// Inside a process body
void Put(const std::string &k, double v);
void Put(const std::string &k, const std::vector<double> &v);
[[noreturn]] void Fail(const std::string &cls, const std::string &msg);   // property violation
void Probe(const std::string &name);                       // reach counter
void SpawnRank(std::function<void()> f);                   // adds one MPI rank (first call: rank 0)
void RunAll();                                             // schedules until all ranks and threads ended
int CurrentRank();
Rng &WorkRng();
long EventCount(int cls);
void OnEvent(std::function<void(int cls, const char *path)> f);   // called at every event, before it happens; path: of opens, what is done: of work
void Yield(const char *why, bool may_switch = true);
void AllocFaults(bool on);                                 // window in which allocations are events
void SetSysinfo(unsigned long total, unsigned long freer, unsigned long buf, unsigned unit);
long SysinfoCalls();
void SetWallClock(double t);
double WallClock();
std::string Captured();                                    // text printed on cout since CaptureOn
void CaptureOn(bool on);
long FiredInProcess(const std::string &kind_prefix = "");  // faults that fired in this incarnation
struct SimError : std::runtime_error { using std::runtime_error::runtime_error; };

// The run context given to a harness
struct Ctx {
  Plan *plan = nullptr;
  std::string root;                       // scratch directory, unique to the run, the only place I/O is simulated
  uint64_t hash = 0, sched_hash = 0;
  double sim_time = 0;
  long procs = 0;
  bool replay = false;
  long nontrivial = 0;
  std::vector<std::string> log;
  // body runs in a forked process, on a fiber; faults: whether plan faults of incarnation `inc` are armed
  Outcome Process(const std::string &name, int inc, bool faults, std::function<void()> body, int ranks = 1,
                  bool rank_bodies = false);
  // resolves faults of incarnation inc with at<0 using the reference counts
  void Resolve(int inc, const Outcome &ref);
  std::string Dir(const std::string &d);  // root/d (not created)
};

struct Harness {
  virtual ~Harness() = default;
  virtual std::string Id() = 0;
  virtual void Generate(Rng &r, Plan &p, bool thorough) = 0;
  virtual void Run(Ctx &c) = 0;           // throws Violation via Ctx::... or returns
  virtual std::map<std::string, long> Minimum() { return {}; }   // smallest value each parameter may shrink to
  virtual long QuickRuns() { return 200000; }
  virtual double QuickSecs() { return 30; }
  virtual std::string Rule() { return "a run whose event-log hash is new and in which at least one fault fired or one non-default scheduling decision was taken"; }
  virtual std::vector<std::string> RealComponents() { return {}; }
  virtual std::vector<std::string> StubComponents() { return {}; }
};
// supervisor-side violation
struct Violation { std::string cls, msg; };
[[noreturn]] inline void Violate(const std::string &cls, const std::string &msg) { throw Violation{cls, msg}; }

Harness *MakeHarness();                   // defined by each property's harness

// scratch directory helpers (not simulated)
void MkDir(const std::string &d);
void RmTree(const std::string &d);
bool Exists(const std::string &f);
std::string Slurp(const std::string &f);
void Spit(const std::string &f, const std::string &s);
std::vector<std::string> ListDir(const std::string &d);    // names, sorted
void CopyTree(const std::string &a, const std::string &b);
std::string TreeDigest(const std::string &d);              // names and contents

// disk simulation off/on in the current process (harness-side file access)
struct NoFaults { NoFaults(); ~NoFaults(); };
}
#endif
