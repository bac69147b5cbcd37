// C12: MPI noised VMPS, whose master loads and dumps tensors on background threads, under every thread interleaving,
// rank speed and message order.
#define VH_VMPS
#include "mpi_gs.h"
#include "qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h"
#include "qlmps/algo_mpi/vmps/two_site_update_finite_vmps_mpi.h"
#include "qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi.h"
namespace {
using namespace vh;
struct H : MpiGs {
  std::string Id() override { return "C12"; }
  int Centre(const Model &) override { return 0; }
  bool SameSweep() override { return false; }
  double SerialTol() override { return 1e-4; }
  bool BondLimited() override { return true; }
  void Extra(Rng &r, Plan &p, bool thorough) override {
    MpiGs::Extra(r, p, thorough);
    p.par["dmode2"] = p.par["dmode"];
    if (r.Chance(0.7)) p.par["preempt"] = 100 + r.Below(800);
    for (int k = 1; k <= 3; ++k) p.par["ranks" + std::to_string(k)] = std::max<long>(2, p.par["ranks" + std::to_string(k)]);
    p.par["nnoise"] = 1 + r.Below(3);
    p.par["noisekind"] = r.Below(4);
    int ns = r.Below(3);
    for (int i = 0; i < ns; ++i) {
      Fault f;
      f.kind = "stall_thread";
      f.cls = r.Chance(0.5) ? "io" : "any";
      f.inc = r.Below(p.par["invoc"]);
      f.frac = r.Below(10000);
      f.b = 1000 + r.Below(300000);
      p.faults.push_back(f);
    }
  }
  int Ranks(const Plan &p, int k) override { return std::max(2, MpiGs::Ranks(p, k)); }
  bool RebuildsLost(const Plan &) override { return true; }
  bool CanEscape(const Plan &) override { return true; }
  bool StrictAllowed(const Plan &p) override { return p.P("noisekind") != 3; }
  AlgoPar Tweak(AlgoPar a, const Plan &p, int) override {
    // the last value applies to the remaining sweeps; all schedules of the strict kinds end without noise
    int k = int(p.P("noisekind"));
    int nn = int(p.P("nnoise", 1));
    for (int i = 0; i < nn; ++i) a.noises.push_back(k == 0 ? 0 : k == 1 ? 1e-3 * (nn - 1 - i) : k == 2 ? (i + 1 < nn ? 1e-4 : 0) : 1e-4);
    return a;
  }
  template<typename E> double Go(const Model &m, const AlgoPar &a, bool mpi) {
    auto mpo = Generator<E>(m).Gen();
    qlmps::FiniteMPS<E, QNT> mps(Sites<E>(m));
    auto s = a.Sweep();
    const MPI_Comm comm = MPI_COMM_WORLD;
    double e = mpi ? qlmps::TwoSiteFiniteVMPS(mps, mpo, s, comm) : qlmps::TwoSiteFiniteVMPS(mps, mpo, s);
    CheckEmpty(mps);
    return e;
  }
  double RunAlgo(const Model &m, const AlgoPar &a, Plan &, bool real) override { return real ? Go<double>(m, a, true) : Go<Zc>(m, a, true); }
  double SerialEnergy(const Model &m, const AlgoPar &a, Plan &, bool real) override { return real ? Go<double>(m, a, false) : Go<Zc>(m, a, false); }
};
}
sim::Harness *sim::MakeHarness() { return new H; }
