// C19: bounded working set. The same kind of problem is run on a short and on a long chain, with few and many sweeps.
// The number of tensors held while a file of the temporary directory is read, and the number of files there, must not
// depend on the number of sites or sweeps beyond what the start of the run already put there, and nothing may stay
// loaded when the call returns, ends by a stop signal or is repeated.
#define VH_VMPS
#define VH_TDVP
#define VH_DMRG
#include "mpi_gs.h"
#include "qlmps/algo_mpi/vmps/two_site_update_finite_vmps_mpi.h"
#include "qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi.h"
#include "qlmps/algo_mpi/dmrg/dmrg_mpi.h"
#include "qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi.h"
#include "serial.h"
#include <dirent.h>
#include <signal.h>
#include <string.h>
namespace {
using namespace vh;
enum { M_TWO = A_NUM, M_NOISE, M_DMRG, M_TDVP, M_NUM };
struct H : Harness {
  std::string Id() override { return "C19"; }
  double QuickSecs() override { return 60; }
  std::map<std::string, long> Minimum() override {
    return {{"algo", 0}, {"n", 5}, {"more", 3}, {"sweeps", 1}, {"moresweeps", 1}, {"u1", 0}, {"cplx", 0}, {"init", 0}, {"invoc", 1}, {"ranks1", 2},
            {"preempt", 0}, {"policy", 0}, {"delay", 0}, {"syncbcast", 0}};
  }
  void Generate(Rng &r, Plan &p, bool thorough) override {
    p.par["algo"] = r.Chance(0.65) ? r.Below(A_NUM) : A_NUM + r.Below(M_NUM - A_NUM);
    p.par["n"] = 5 + r.Below(2);
    p.par["more"] = 3 + r.Below(2);
    p.par["sweeps"] = 1 + r.Below(2);
    p.par["moresweeps"] = 1 + r.Below(thorough ? 4 : 2);
    p.par["u1"] = r.Below(3) > 0;
    p.par["cplx"] = r.Below(2);
    p.par["mseed"] = r.Below(1 << 20);
    p.par["iseed"] = r.Below(1 << 20);
    p.par["init"] = r.Below(2);
    p.par["liter"] = 3 + r.Below(6);
    p.par["dmax"] = 3 + r.Below(4);
    p.par["invoc"] = 1 + r.Below(2);
    if (p.par["algo"] >= A_NUM) GenSchedule(r, p, thorough, 1);
    for (auto &f : p.faults) f.inc = -1, f.at = r.Below(4000);
    int nf = r.Below(3);
    for (int k = 0; k < nf; ++k) {
      Fault f;
      bool sig = p.par["algo"] == A_DMRG && r.Chance(0.6);
      static const int sg[] = {SIGINT, SIGTERM, SIGUSR1, SIGUSR2};
      f.kind = sig ? "signal" : r.Chance(0.5) ? "short" : "eintr";
      f.cls = sig ? "any" : r.Chance(0.5) ? "read" : "write";
      f.inc = 1;
      f.at = sig ? r.Below(4000) : r.Below(400);
      f.a = sig ? sg[r.Below(4)] : r.Below(1000);
      p.faults.push_back(f);
    }
  }
  static size_t Files(const std::string &d) {
    size_t k = 0;
    if (DIR *p = opendir(d.c_str())) {
      while (dirent *e = readdir(p)) if (e->d_name[0] != '.') ++k;
      closedir(p);
    }
    return k;
  }
  template<typename E> static void Mpi(const Model &m, int algo, const AlgoPar &a, const TdvpPar &t) {
    const MPI_Comm comm = MPI_COMM_WORLD;
    if (algo == M_TDVP) return RunTdvp<E, qlmps::MPITDVPSweepParams<QNT>>(m, a, t, comm);
    qlmps::FiniteMPS<E, QNT> mps(Sites<E>(m));
    auto s = a.Sweep();
    if (algo == M_DMRG) {
      auto mpo = Generator<E>(m).GenMatReprMPO();
      BeforeCall()();
      qlmps::FiniteDMRG(mps, mpo, s, comm);
      AfterCall()();
    } else {
      auto mpo = Generator<E>(m).Gen();
      BeforeCall()();
      qlmps::TwoSiteFiniteVMPS(mps, mpo, s, comm);
      AfterCall()();
    }
  }
  static bool FaultsStopped(const Outcome &o) {
    for (auto &v : o.vec) if (v.first.compare(0, 6, "signal") == 0) return true;
    return false;
  }
  std::string Rule() override { return "a run whose event-log hash is new; every run compares four or five simulated executions"; }
  std::vector<std::string> RealComponents() override { return {"all serial and distributed sweep algorithms of qlmps", "libstdc++ streams"}; }
  std::vector<std::string> StubComponents() override { return {"TensorToolkit (dense block-checked stand-in, counts live tensors)", "MPI", "LAPACK", "signals, disk and clock (interposed)"}; }
  void Run(Ctx &c) override {
    Plan &p = *c.plan;
    int algo = p.P("algo");
    bool tdvp = algo == A_TDVP || algo == M_TDVP, dmrg = algo == A_DMRG || algo == M_DMRG, mpi = algo >= A_NUM;
    bool real = !tdvp && !p.P("cplx");
    int ranks = mpi ? std::max<int>(2, p.P("ranks1", 2)) : 1;
    auto one = [&](const std::string &nm, int n, int sweeps, int inc, bool again) {
      Model m = MakeModel(n, p.P("u1"), p.P("mseed"), !real, 0, 0);
      auto lab = Labels(m, Mix(p.P("iseed"), 5));
      int charge = ChargeOf(m, lab);
      AlgoPar a;
      a.mps = c.Dir("d/mps");
      a.temp = c.Dir("d/tmp");
      a.sweeps = sweeps;
      a.dmax = p.P("dmax", 4);
      a.dmin = 1;
      a.trunc = 1e-16;
      a.liter = p.P("liter", 4);
      if (algo == A_SINGLE || algo == A_NOISE || algo == M_NOISE) a.noises = {0.01};
      TdvpPar t;
      t.step = sweeps;
      t.init = c.Dir("d/init"); t.meas = c.Dir("d/meas"); t.file = c.Dir("d/dyn");
      t.op0 = again ? 3 : 0; t.op1 = 4;
      if (!again) {
        RmTree(c.Dir("d"));
        MkDir(c.Dir("d"));
        auto o = c.Process("init" + nm, -2, false, [&] { InitState(m, real, p.P("init") ? 2 : 0, p.P("iseed"), a.mps, charge, lab); });
        if (!o.Ok()) Violate("work.init-failed", o.msg);
      }
      auto o = c.Process(nm, inc, true, [&] {
        static long base, lo, hi, mhi, files, files0, peak;
        if (CurrentRank() == 0) base = mhi = hi = files = peak = 0, lo = 1 << 30, files0 = -1;
        BeforeCall() = [&] {
          if (mpi) MPI_Barrier(MPI_COMM_WORLD);
          if (CurrentRank() == 0) {
            base = qlten::stub::LiveTensors();
            OnEvent([&](int cls, const char *path) {
              long now = qlten::stub::LiveTensors() - base;
              if (cls == C_OPENR && !strncmp(path, a.mps.c_str(), a.mps.size())) mhi = std::max(mhi, now);
              if (cls == C_OPENR && !strncmp(path, a.temp.c_str(), a.temp.size())) {
                lo = std::min(lo, now);
                hi = std::max(hi, now);
                if (files0 < 0) files0 = long(Files(a.temp));
              }
              if (cls == C_OPENW) files = std::max(files, long(Files(a.temp)));
            });
          }
          if (mpi) MPI_Barrier(MPI_COMM_WORLD);
        };
        AfterCall() = [&] {
          if (mpi) MPI_Barrier(MPI_COMM_WORLD);
          if (CurrentRank() == 0) {
            OnEvent(nullptr);
            Put("end", qlten::stub::LiveTensors() - base);
          }
          if (mpi) MPI_Barrier(MPI_COMM_WORLD);
        };
        if (!mpi) RunSerial(m, real, algo, a, t);
        else real ? Mpi<double>(m, algo, a, t) : Mpi<Zc>(m, algo, a, t);
        if (CurrentRank() == 0) {
          Put("spread", lo <= hi ? hi - lo : 0); Put("mhi", mhi); Put("files", files); Put("files0", files0);
          Put("left", Files(a.temp)); Put("meas", Files(t.meas));
        }
      }, ranks);
      if (o.kind == SIGNAL) return o;      // delivered before the handler was installed
      if (o.kind == FAIL) Violate(o.cls, o.msg);
      if (!o.Ok()) Violate("work.run-failed", std::string(KindName(o.kind)) + " " + o.msg);
      return o;
    };
    int n = p.P("n"), n2 = n + p.P("more"), s = p.P("sweeps"), s2 = s + p.P("moresweeps");
    std::vector<std::pair<std::string, Outcome>> all;
    auto add = [&](const std::string &nm, Outcome o) { all.push_back({nm, o}); return o; };
    Outcome a = add("short chain", one("a", n, s, 0, false)), b = add("more sweeps", one("b", n, s2, 0, false)), d = add("long chain", one("c", n2, s, 0, false));
    auto e = add("with faults", one("d", n2, s2, 1, false));
    if (e.kind != SIGNAL && p.P("invoc", 1) > 1) add("second call", one("e", n2, s2, 0, true));
    auto &A = a.num, &B = b.num, &D = d.num;
    for (auto &x : all) {
      auto &N = x.second.num;
      if (x.second.kind == SIGNAL) { Probe("signal_before_run"); continue; }
      if (N["end"] != 0) Violate("work.still-loaded", x.first + ": " + F(N["end"]) + " tensors are still held after the call returned");
      double start = x.first == "second call" ? std::max(N["files0"], D["files0"]) : N["files0"];
      if (x.first == "second call" && dmrg) start += 6;   // block operator groups have up to this many files, some more than others
      if (N["files"] > start + 2 || N["left"] > start + 2)
        Violate("work.files-accumulate", x.first + ": " + F(N["files"]) + " files in the temporary directory (" + F(N["left"]) + " at the end), " + F(start) + " when the sweeps began");
      if (N["meas"] > A["meas"] + 1) Violate("work.files-accumulate", x.first + ": " + F(N["meas"]) + " files left in the measurement directory");
      if (mpi) continue;
      if (N["spread"] > A["spread"] + (dmrg ? 2 : 1))
        Violate("work.grows", x.first + ": the sweeps hold up to " + F(N["spread"]) + " tensors more than at the start, " + F(A["spread"]) + " on the short chain");
      if (algo <= A_NOISE && N["mhi"] > A["mhi"] + 1)
        Violate("work.grows", x.first + ": up to " + F(N["mhi"]) + " tensors are held while site tensors are read, " + F(A["mhi"]) + " on the short chain");
    }
    if (!mpi && B["spread"] > A["spread"]) Violate("work.grows-with-sweeps", "the working set grows from " + F(A["spread"]) + " to " + F(B["spread"]) + " tensors with the number of sweeps");
    for (auto &x : all) if (FaultsStopped(x.second)) Probe("stopped_by_signal");
    c.nontrivial = 1;
  }
};
}
sim::Harness *sim::MakeHarness() { return new H; }
