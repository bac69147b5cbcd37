// C04: serial two-site VMPS.
#define VH_VMPS
#include "gs.h"
namespace {
struct H : vh::GsHarness {
  std::string Id() override { return "C04"; }
  int Centre(const vh::Model &) override { return 1; }
  double RunAlgo(const vh::Model &m, const vh::AlgoPar &a, sim::Plan &, bool real) override {
    return real ? Go<double>(m, a) : Go<vh::Zc>(m, a);
  }
  bool CanRestart(const sim::Plan &) override { return true; }
  void BuildEnvs(const vh::Model &m, const vh::AlgoPar &a, sim::Plan &, bool real) override { real ? Envs<double>(m, a) : Envs<vh::Zc>(m, a); }
  template<typename E>
  void Envs(const vh::Model &m, const vh::AlgoPar &a) {
    auto mpo = vh::Generator<E>(m).Gen();
    qlmps::FiniteMPS<E, vh::QNT> mps(vh::Sites<E>(m));
    qlmps::InitEnvs(mps, mpo, a.Sweep());
    CheckEmpty(mps);
  }
  template<typename E>
  double Go(const vh::Model &m, const vh::AlgoPar &a) {
    auto mpo = vh::Generator<E>(m).Gen();
    qlmps::FiniteMPS<E, vh::QNT> mps(vh::Sites<E>(m));
    double e = qlmps::TwoSiteFiniteVMPS(mps, mpo, a.Sweep());
    CheckEmpty(mps);
    return e;
  }
};
}
sim::Harness *sim::MakeHarness() { return new H; }
