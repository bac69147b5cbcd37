// C06: serial DMRG.
#define VH_DMRG
#include "gs.h"
namespace {
struct H : vh::GsHarness {
  std::string Id() override { return "C06"; }
  int Centre(const vh::Model &) override { return 0; }
  bool RebuildsLost(const sim::Plan &) override { return true; }
  double RunAlgo(const vh::Model &m, const vh::AlgoPar &a, sim::Plan &, bool real) override {
    return real ? Go<double>(m, a) : Go<vh::Zc>(m, a);
  }
  template<typename E>
  double Go(const vh::Model &m, const vh::AlgoPar &a) {
    auto mpo = vh::Generator<E>(m).GenMatReprMPO();
    qlmps::FiniteMPS<E, vh::QNT> mps(vh::Sites<E>(m));
    double e = qlmps::FiniteDMRG(mps, mpo, a.Sweep());
    CheckEmpty(mps);
    return e;
  }
};
}
sim::Harness *sim::MakeHarness() { return new H; }
