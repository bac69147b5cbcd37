// C10: MPI DMRG under every rank speed, message order and rendezvous limit.
#define VH_DMRG
#define VH_VMPS
#include "mpi_gs.h"
#include "qlmps/algo_mpi/vmps/two_site_update_finite_vmps_mpi.h"
#include "qlmps/algo_mpi/dmrg/dmrg_mpi.h"
namespace {
using namespace vh;
struct H : MpiGs {
  std::string Id() override { return "C10"; }
  int Centre(const Model &) override { return 0; }
  template<typename E> double Go(const Model &m, const AlgoPar &a, bool mpi) {
    auto mpo = Generator<E>(m).GenMatReprMPO();
    qlmps::FiniteMPS<E, QNT> mps(Sites<E>(m));
    auto s = a.Sweep();
    const MPI_Comm comm = MPI_COMM_WORLD;
    double e = mpi ? qlmps::FiniteDMRG(mps, mpo, s, comm) : qlmps::FiniteDMRG(mps, mpo, s);
    CheckEmpty(mps);
    return e;
  }
  bool RebuildsLost(const Plan &p) override { return true; }
  double RunAlgo(const Model &m, const AlgoPar &a, Plan &, bool real) override { return real ? Go<double>(m, a, true) : Go<Zc>(m, a, true); }
  double SerialEnergy(const Model &m, const AlgoPar &a, Plan &, bool real) override { return real ? Go<double>(m, a, false) : Go<Zc>(m, a, false); }
};
}
sim::Harness *sim::MakeHarness() { return new H; }
