// C13: distributed TDVP under every rank speed, message order and rendezvous pattern, against the exact evolution.
#define VH_VMPS
#define VH_TDVP
#define VH_DMRG
#include "mpi_gs.h"
#include "qlmps/algo_mpi/vmps/two_site_update_finite_vmps_mpi.h"
#include "qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi.h"
#include "tdvp.h"
namespace {
using namespace vh;
struct H : TdvpHarness {
  std::string Id() override { return "C13"; }
  std::map<std::string, long> Minimum() override {
    auto m = TdvpHarness::Minimum();
    m["ranks1"] = m["ranks2"] = 1;
    m["preempt"] = m["policy"] = m["delay"] = m["syncbcast"] = 0;
    return m;
  }
  void Extra(Rng &r, Plan &p, bool thorough) override {
    GenSchedule(r, p, thorough, int(p.par["invoc"]));
    for (auto &f : p.faults) f.at = r.Below(3000);
  }
  bool Normalises(const Plan &p, int k) override { return Ranks(p, k) > 1; }
  int Ranks(const Plan &p, int k) override { return int(p.P("ranks" + std::to_string(k), 2)); }
  void Algo(const Model &m, const AlgoPar &a, const TdvpPar &t) override {
    const MPI_Comm comm = MPI_COMM_WORLD;
    RunTdvp<Zc, qlmps::MPITDVPSweepParams<QNT>>(m, a, t, comm);
  }
  std::vector<std::string> StubComponents() override {
    return {"TensorToolkit (dense block-checked stand-in)", "MPI (simulated ranks, channels and collectives)", "LAPACK", "disk and clock (interposed)"};
  }
};
}
sim::Harness *sim::MakeHarness() { return new H; }
