#ifndef VERIF_SHARED_H
#define VERIF_SHARED_H
#include <cstdint>
namespace sim {
constexpr int kNames = 256;
constexpr long kMaxRuns = 1 << 20;
struct NameCount { int used; char name[60]; long n; };
struct Shared {      // MAP_SHARED between the driver, its workers and every simulated process
  long next, done, stop, procs, events, sim_us, switches, deliveries, rechecks, nondet, known_hits, harness_err;
  NameCount fired[kNames];
  NameCount probes[kNames];
  NameCount known[kNames];
  char err[2000];
  long viol_index[64];
  char viol_cls[64][200];
  int viol_n;
  uint64_t run_hash[kMaxRuns];   // event-log hash of nontrivial runs (0: none)
};
extern Shared *g_sh;
extern bool g_stats_on;
}
#endif
