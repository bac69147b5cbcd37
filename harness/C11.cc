// C11: MPI two-site VMPS under every rank speed, message order and rendezvous limit.
#define VH_VMPS
#include "mpi_gs.h"
#include "qlmps/algo_mpi/vmps/two_site_update_finite_vmps_mpi.h"
#include "qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi.h"
namespace {
using namespace vh;
struct H : MpiGs {
  std::string Id() override { return "C11"; }
  bool SameSweep() override { return false; }
  double SerialTol() override { return 1e-4; }
  int Centre(const Model &) override { return -2; }   // documented: left_boundary + 1, which depends on Dmax
  // the documented precondition (centre of the input <= left_boundary + 1) holds for a continued run with the same Dmax
  void Extra(Rng &r, Plan &p, bool thorough) override {
    MpiGs::Extra(r, p, thorough);
    p.par["dmode2"] = p.par["dmode"];
    // the serial code keeps environment files for all sites, the distributed one for the updated range only
    for (int k = 2; k <= 3; ++k) {
      auto a = "ranks" + std::to_string(k - 1), b = "ranks" + std::to_string(k);
      if ((p.par[a] == 1) != (p.par[b] == 1)) p.par["keep" + std::to_string(k)] = 0;
    }
  }
  template<typename E> double Go(const Model &m, const AlgoPar &a, bool mpi) {
    auto mpo = Generator<E>(m).Gen();
    qlmps::FiniteMPS<E, QNT> mps(Sites<E>(m));
    auto s = a.Sweep();
    const MPI_Comm comm = MPI_COMM_WORLD;
    double e = mpi ? qlmps::TwoSiteFiniteVMPS(mps, mpo, s, comm) : qlmps::TwoSiteFiniteVMPS(mps, mpo, s);
    CheckEmpty(mps);
    return e;
  }
  // the distributed run leaves the centre on left_boundary + 1, the serial one expects it on site 0 or 1
  bool MoveCentre(const Plan &p, int k) override { return p.P("ranks" + std::to_string(k - 1)) > 1 && p.P("ranks" + std::to_string(k)) == 1; }
  bool RebuildsLost(const Plan &p) override { return p.P("ranks1") > 1 && p.P("ranks2") > 1; }
  double RunAlgo(const Model &m, const AlgoPar &a, Plan &, bool real) override { return real ? Go<double>(m, a, true) : Go<Zc>(m, a, true); }
  double SerialEnergy(const Model &m, const AlgoPar &a, Plan &, bool real) override { return real ? Go<double>(m, a, false) : Go<Zc>(m, a, false); }
};
}
sim::Harness *sim::MakeHarness() { return new H; }
