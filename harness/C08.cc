// C08: SIGINT/SIGTERM at any event of the sweeps of a serial DMRG run.
#include "sig.h"
namespace {
using namespace vh;
struct H : SigHarness {
  H() { emergency = true; }
  std::string Id() override { return "C08"; }
  void Judge(Plan &p, const Outcome &o, const std::vector<Outcome> &ref, const MpsReport &r, const std::vector<MpsReport> &,
             const MpsReport &before, double scale) override {
    int S = int(ref.size()) - 1;
    if (!p.P("dmode") && r.energy > before.energy + 1e-6 * scale)
      Violate("stop.energy-worse", "energy rose from " + F(before.energy) + " to " + F(r.energy));
    if (o.counts[C_WORK] < ref[S].counts[C_WORK]) Probe("stopped_early");
    // the first emergency signal: energy no worse than after the last sweep completed before it, at most one update afterwards
    const std::vector<double> *at = nullptr;
    for (int no : {SIGINT, SIGTERM}) {
      auto it = o.vec.find("signal" + std::to_string(no));
      if (it != o.vec.end() && (!at || it->second[C_ANY] < (*at)[C_ANY])) at = &it->second;
    }
    if (!at) return;
    Probe("judged_emergency");
    for (int k = S; k >= 1; --k)
      if ((*at)[C_WORK] >= ref[k].counts[C_WORK]) {
        Probe("signal_after_a_sweep");
        if (!p.P("dmode") && r.energy > ref[k].num.find("e")->second + 1e-6 * scale)
          Violate("stop.energy-worse", "energy after the signal is " + F(r.energy) + ", worse than " + F(ref[k].num.find("e")->second) + " after " + std::to_string(k) + " completed sweeps");
        break;
      }
    // the update in progress may complete; no second one may start
    long rest = 0, most = long(ref[S].num.find("most")->second);
    for (double t : o.vec.find("solves")->second) rest += t >= (*at)[C_WORK];
    if (rest > most)
      Violate("stop.late", "the run solved " + std::to_string(rest) + " more Lanczos problems after the signal; one update takes at most " + std::to_string(most));
  }
};
}
sim::Harness *sim::MakeHarness() { return new H; }
