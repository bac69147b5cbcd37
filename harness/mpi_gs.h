// Ground-state search on several simulated ranks: schedules, message delays, stalls and rendezvous sends.
#ifndef VERIF_MPI_GS_H
#define VERIF_MPI_GS_H
#include "gs.h"
namespace vh {
inline void GenSchedule(Rng &r, Plan &p, bool thorough, int invocs) {
  for (int k = 1; k <= 3; ++k) p.par["ranks" + std::to_string(k)] = r.Chance(0.06) ? 1 : 2 + r.Below(thorough ? 6 : 4);
  static const long pre[] = {0, 10, 100, 400, 900};
  p.par["preempt"] = pre[r.Below(5)];
  p.par["policy"] = r.Below(3);
  static const long eag[] = {0, 64, 4096, 1L << 40, 1L << 40};
  p.par["eager"] = eag[r.Below(5)];                       // longer messages wait for their receiver
  static const long del[] = {0, 0, 30, 1000, 50000};
  p.par["delay"] = del[r.Below(5)];
  p.par["syncbcast"] = r.Chance(0.3);
  int ns = r.Below(3);
  for (int i = 0; i < ns; ++i) {
    Fault f;
    f.kind = "stall";
    f.cls = r.Chance(0.5) ? "send" : "any";
    f.inc = r.Below(invocs);
    f.frac = r.Below(10000);
    f.a = r.Below(p.par["ranks1"]);
    f.b = 1000 + r.Below(1000000);
    p.faults.push_back(f);
  }
}
struct MpiGs : GsHarness {
  std::map<std::string, long> Minimum() override {
    auto m = GsHarness::Minimum();
    m["ranks1"] = m["ranks2"] = m["ranks3"] = 1;
    m["preempt"] = m["policy"] = m["delay"] = m["syncbcast"] = 0;
    return m;
  }
  void Extra(Rng &r, Plan &p, bool thorough) override {
    if (p.par["n"] > 7) p.par["n"] = 7;
    if (p.par["n"] == 7 && r.Chance(0.3)) p.par["n"] = 5;
    p.par["invoc"] = 1 + (r.Chance(0.3) ? 1 : 0);
    GenSchedule(r, p, thorough, int(p.par["invoc"]));
  }
  int Ranks(const Plan &p, int k) override { return int(p.P("ranks" + std::to_string(k), 2)); }
  bool CompareSerial(const Plan &p) override { return p.P("init") == 0; }
  std::vector<std::string> StubComponents() override {
    return {"TensorToolkit (dense block-checked stand-in)", "MPI (simulated ranks, channels and collectives)", "LAPACK", "threads, disk and clock (interposed)"};
  }
};
}
#endif
