// C05: single-site VMPS and two-site VMPS with subspace-expansion noise.
#define VH_VMPS
#include "gs.h"
#include "qlmps/algorithm/vmps/single_site_update_finite_vmps_impl.h"
#include "qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h"
namespace {
using vh::Zc;
struct H : vh::GsHarness {
  std::string Id() override { return "C05"; }
  int Centre(const vh::Model &) override { return centre; }
  int centre = -1;
  void Extra(vh::Rng &r, sim::Plan &p, bool) override {
    p.par["algo"] = r.Below(2);            // 0 single site, 1 two-site with noise
    p.par["nz"] = r.Below(5);              // length of the noise schedule
    p.par["nlevel"] = r.Below(4);
    p.par["nlast0"] = r.Below(2);
    p.par["nroute"] = r.Below(2);          // enter through TwoSiteFiniteVMPS when the schedule is non-trivial
  }
  bool CanEscape(const sim::Plan &) override { return true; }
  bool StrictAllowed(const sim::Plan &p) override { return p.P("nz") == 0 || p.P("nlevel") <= 2; }
  vh::AlgoPar Tweak(vh::AlgoPar a, const sim::Plan &p, int) override {
    static const double lv[] = {0, 1e-6, 1e-4, 1e-2};
    for (int k = 0; k < p.P("nz"); ++k) a.noises.push_back(lv[p.P("nlevel")] / (1 + k));
    if (p.P("nlast0") && !a.noises.empty()) a.noises.back() = 0;
    centre = p.P("algo") == 0 ? 0 : -2;
    return a;
  }
  double RunAlgo(const vh::Model &m, const vh::AlgoPar &a, sim::Plan &p, bool real) override {
    return real ? Go<double>(m, a, p) : Go<Zc>(m, a, p);
  }
  bool RebuildsLost(const sim::Plan &p) override { return p.P("algo") != 0 && p.P("nz") > 0; }
  bool CanRestart(const sim::Plan &p) override { return p.P("algo") == 0; }
  void BuildEnvs(const vh::Model &m, const vh::AlgoPar &a, sim::Plan &, bool real) override { real ? Envs<double>(m, a) : Envs<Zc>(m, a); }
  template<typename E>
  void Envs(const vh::Model &m, const vh::AlgoPar &a) {
    auto mpo = vh::Generator<E>(m).Gen();
    qlmps::FiniteMPS<E, vh::QNT> mps(vh::Sites<E>(m));
    qlmps::InitEnvs(mps, mpo, a.mps, a.temp, 1);
    CheckEmpty(mps);
  }
  template<typename E>
  double Go(const vh::Model &m, const vh::AlgoPar &a, sim::Plan &p) {
    auto mpo = vh::Generator<E>(m).Gen();
    qlmps::FiniteMPS<E, vh::QNT> mps(vh::Sites<E>(m));
    auto sp = a.Sweep();
    double e;
    if (p.P("algo") == 0) e = qlmps::SingleSiteFiniteVMPS(mps, mpo, sp);
    else if (p.P("nroute") && sp.noise_valid) e = qlmps::TwoSiteFiniteVMPS(mps, mpo, sp);
    else e = qlmps::TwoSiteFiniteVMPSWithNoise(mps, mpo, sp);
    CheckEmpty(mps);
    return e;
  }
};
}
sim::Harness *sim::MakeHarness() { return new H; }
