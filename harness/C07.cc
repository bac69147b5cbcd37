// C07: SIGUSR1/SIGUSR2 at any event of a serial DMRG run.
#include "sig.h"
namespace {
using namespace vh;
struct H : SigHarness {
  std::string Id() override { return "C07"; }
  void Judge(Plan &p, const Outcome &o, const std::vector<Outcome> &ref, const MpsReport &r, const std::vector<MpsReport> &st,
             const MpsReport &, double scale) override {
    if (CentreErr(r, 0) > 1e-7) Violate("stop.centre", "stored MPS is not centred at site 0 after the graceful stop");
    int S = int(ref.size()) - 1;
    // which undisturbed run does the result equal?
    int K = 0;
    for (int k = 1; k <= S && !K; ++k)
      if (std::abs(o.counts[C_WORK] - ref[k].counts[C_WORK]) <= 0) K = k;
    if (!K) Violate("stop.partial-sweep", "the stopped run did not end at a sweep boundary");
    auto e = o.num.find("e")->second;
    if (std::abs(e - ref[K].num.find("e")->second) > 1e-7 * scale)
      Violate("stop.wrong-energy", "returned energy is not that of the last completed sweep");
    if (std::abs(Norm(r.x) * Norm(st[K].x) - std::abs(Dot(r.x, st[K].x))) > 1e-6) Violate("stop.wrong-state", "stored MPS is not that of the last completed sweep");
    // which sweep was in progress when the first signal arrived?
    int want = 99;
    bool slack = false;
    for (auto &f : p.faults) {
      if (f.kind != "signal" || f.at < 0) continue;
      int cls = ClsOf(f.cls);
      for (int k = 1; k <= S; ++k)
        if (f.at < ref[k].counts[cls]) {
          if (k < want) {
            want = k;
            // what the run of k sweeps does after its last update, a longer run does not do between two sweeps: an
            // event index in that part may lie in the next sweep of the longer run
            slack = f.at >= ref[k].vec.find("last")->second[cls];
          }
          break;
        }
    }
    if (want == 99) want = S;
    if (K > want + (slack ? 1 : 0) && K > want) Violate("stop.late", "the signal arrived in sweep " + std::to_string(want) + " but the run went on to sweep " + std::to_string(K));
    if (K < want) Violate("stop.early", "the run stopped after sweep " + std::to_string(K) + " before the signal arrived");
    if (K < S) Probe("stopped_early");
  }
};
}
sim::Harness *sim::MakeHarness() { return new H; }
