// Stop signals during serial DMRG: shared workload of C07 (graceful) and C08 (emergency).
#ifndef VERIF_SIG_H
#define VERIF_SIG_H
#define VH_DMRG
#include "algo.h"
#include <signal.h>
#include <cstring>
namespace vh {
struct SigHarness : Harness {
  bool emergency = false;
  std::map<std::string, long> Minimum() override {
    return {{"n", 4}, {"u1", 0}, {"cplx", 0}, {"kind", 0}, {"warm", 0}, {"sweeps", 1}, {"dmode", 0}, {"few", 0}};
  }
  void Generate(Rng &r, Plan &p, bool thorough) override {
    p.par["n"] = 4 + r.Below(thorough ? 5 : 4);
    p.par["u1"] = r.Below(3) > 0;
    if (r.Chance(0.06)) {                    // a long chain in a sector of few raised sites
      p.par["few"] = 1 + r.Below(2);
      p.par["n"] = 9 + r.Below(3);
      p.par["u1"] = 1;
    }
    p.par["cplx"] = r.Below(2);
    p.par["kind"] = p.par["few"] ? 2 * r.Below(2) : r.Below(5);
    p.par["mseed"] = r.Below(1 << 20);
    p.par["iseed"] = r.Below(1 << 20);
    p.par["dmode"] = r.Chance(0.3);
    p.par["sweeps"] = 1 + r.Below(4);
    p.par["warm"] = r.Chance(0.3);
    p.par["keep"] = r.Below(2);
    p.par["signo"] = emergency ? (r.Chance(0.5) ? SIGINT : SIGTERM) : (r.Chance(0.5) ? SIGUSR1 : SIGUSR2);
    static const char *cl[] = {"any", "any", "work", "closew", "clock", "io", "closew"};
    int nsig = 1 + (r.Chance(0.25) ? 1 : 0);
    for (int k = 0; k < nsig; ++k) {
      Fault f;
      f.kind = "signal";
      f.cls = cl[r.Below(7)];
      f.inc = 0;
      f.frac = r.Chance(0.15) ? 9000 + r.Below(1000) : r.Below(10000);
      f.a = p.par["signo"];
      if (k && r.Chance(0.5)) f.a = emergency ? SIGINT + SIGTERM - f.a : SIGUSR1 + SIGUSR2 - f.a;
      p.faults.push_back(f);
    }
    if (emergency && r.Chance(0.3)) {      // a graceful request on top
      Fault f = p.faults[0];
      f.a = r.Chance(0.5) ? SIGUSR1 : SIGUSR2;
      f.cls = cl[r.Below(7)];
      f.frac = r.Below(10000);
      p.faults.push_back(f);
    }
    if (r.Chance(0.2)) {
      Fault f;
      f.kind = r.Chance(0.5) ? "short" : "eintr";
      f.cls = r.Chance(0.5) ? "write" : "read";
      f.inc = 0;
      f.frac = r.Below(10000);
      f.a = r.Below(1000);
      p.faults.push_back(f);
    }
  }
  template<typename E> static void Dmrg(const Model &m, const AlgoPar &a) {
    auto mpo = Generator<E>(m).GenMatReprMPO();
    qlmps::FiniteMPS<E, QNT> mps(Sites<E>(m));
    Put("start", {double(EventCount(C_ANY)), double(EventCount(C_WORK))});
    auto sp = a.Sweep();
    // when the eigenvalue problems of the Lanczos solver are solved, and how many of them one update needs
    std::vector<double> solves;
    long since = 0, most = 0;
    std::vector<double> last(C_NUM, -1);   // event counts when the last block operator was about to be stored
    OnEvent([&](int cls, const char *what) {
      if (cls == C_OPENW && !strncmp(what, a.temp.c_str(), a.temp.size()))
        for (int k = 0; k < C_NUM; ++k) last[k] = double(EventCount(k));
      if (cls != C_WORK) return;
      if (!strcmp(what, "lapack.dstev")) solves.push_back(double(EventCount(C_WORK))), most = std::max(most, ++since);
      if (!strcmp(what, "tensor.svd")) since = 0;
    });
    double e = qlmps::FiniteDMRG(mps, mpo, sp);
    OnEvent(nullptr);
    Put("e", e);
    Put("solves", solves);
    Put("most", most);
    Put("last", last);
    if (!mps.empty()) Fail("stop.mps-loaded", "site tensors are still loaded in memory after the call returned");
  }
  static MpsReport Look(const std::string &d, const Model &m, int c, bool real) {
    return real ? Inspect<double>(d, m, c) : Inspect<Zc>(d, m, c);
  }
  void Run(Ctx &c) override {
    Plan &p = *c.plan;
    bool real = !p.P("cplx");
    Model m = MakeModel(ChainLength(p), p.P("u1") || p.P("few"), p.P("mseed"), !real, 0, p.P("kind"));
    m.few = int(p.P("few"));
    auto lab = Labels(m, Mix(p.P("iseed"), 5));
    int charge = ChargeOf(m, lab);
    Spectrum sp = Diag(m, charge);
    double scale = 1 + std::abs(sp.w.front()) + std::abs(sp.w.back());
    AlgoPar a;
    a.mps = c.Dir("d/mps");
    a.temp = c.Dir("d/tmp");
    size_t full = FullBond(m);
    a.dmax = p.P("dmode") ? std::max<size_t>(2, full / 2) : full * 2;
    a.trunc = 1e-16;
    MkDir(c.Dir("d"));
    auto body = [&] { real ? Dmrg<double>(m, a) : Dmrg<Zc>(m, a); };
    auto ini = c.Process("init", -1, false, [&] {
      real ? WriteMps(a.mps, MpsOf<double>(m, RandomState<double>(m, charge, Mix(p.P("iseed"), 77)), charge))
           : WriteMps(a.mps, MpsOf<Zc>(m, RandomState<Zc>(m, charge, Mix(p.P("iseed"), 77)), charge));
    });
    if (!ini.Ok()) Violate("stop.init-failed", ini.msg);
    if (p.P("warm")) {
      a.sweeps = 1;
      auto w = c.Process("warm", -1, false, body);
      if (!w.Ok()) Violate("stop.plain-run-failed", w.msg);
    }
    CopyTree(c.Dir("d"), c.Dir("save"));
    auto before = Look(a.mps, m, charge, real);
    // undisturbed runs of 1..S sweeps
    int S = int(p.P("sweeps", 1));
    std::vector<Outcome> ref(S + 1);
    std::vector<MpsReport> st(S + 1);
    for (int k = 1; k <= S; ++k) {
      a.sweeps = k;
      ref[k] = c.Process("plain" + std::to_string(k), -1, false, body);
      if (ref[k].kind == FAIL) Violate(ref[k].cls, ref[k].msg);
      if (!ref[k].Ok()) Violate("stop.plain-run-failed", ref[k].msg);
      st[k] = Look(a.mps, m, charge, real);
      if (!st[k].err.empty()) Violate("stop.plain-run-mps", st[k].err);
      RmTree(c.Dir("d"));
      CopyTree(c.Dir("save"), c.Dir("d"));
    }
    c.Resolve(0, ref[S]);
    c.nontrivial = 1;
    a.sweeps = S;
    std::string mps0 = TreeDigest(a.mps);
    auto o = c.Process("signalled", 0, true, body);
    if (o.kind == FAIL) Violate(o.cls, o.msg);
    if (o.kind == SIGNAL) {
      // delivered before the executor existed: the default action ended the process before it touched anything
      if (TreeDigest(a.mps) == mps0 && TreeDigest(c.Dir("d")) == TreeDigest(c.Dir("save"))) {
        Probe("signal_before_run");
        return;
      }
      Violate("stop.killed-by-signal", "the signal killed the run: " + o.msg);
    }
    if (!o.Ok()) Violate("stop.run-failed", std::string("the signalled run ended by ") + KindName(o.kind) + " " + o.msg);
    auto r = Look(a.mps, m, charge, real);
    if (!r.err.empty()) Violate("stop.mps-incomplete", "MPS after the signal: " + r.err);
    double e = o.num["e"];
    // norm, sector and energy of what is left
    if (r.norm > 1 + 5e-4 || r.norm < (p.P("dmode") ? 0.5 : 1 - 5e-4)) Violate("stop.norm", "stored MPS after the signal has norm " + F(r.norm));
    if (r.leak > 1e-8) Violate("stop.sector", "stored MPS after the signal left the symmetry sector");
    if (!(e >= sp.w[0] - 1e-7 * scale)) Violate("stop.below-ground", "returned energy is below the ground energy");
    if (e > r.energy + 1e-6 * scale || (!p.P("dmode") && e < r.energy - 1e-6 * scale))
      Violate("stop.energy-mismatch", "returned energy " + F(e) + " but the stored MPS has energy " + F(r.energy));
    Judge(p, o, ref, r, st, before, scale);
    // later run from that directory
    if (!p.P("keep")) RmTree(a.temp);
    a.sweeps = 4;
    if (p.P("dmode")) a.dmax = full * 2;
    auto q = c.Process("resumed", -1, false, body);
    if (q.kind == FAIL) Violate(q.cls, q.msg);
    if (!q.Ok()) Violate("stop.resume-failed", std::string("resuming after the signal: ") + KindName(q.kind) + " " + q.msg);
    auto rq = Look(a.mps, m, charge, real);
    if (!rq.err.empty()) Violate("stop.resume-mps", rq.err);
    double eq = q.num["e"];
    if (std::abs(eq - rq.energy) > 1e-6 * scale) Violate("stop.resume-mismatch", "resumed run returned " + F(eq) + " but its MPS has energy " + F(rq.energy));
    if (CentreErr(rq, 0) > 1e-7) Violate("stop.resume-centre", "MPS of the resumed run is not centred at site 0");
    if (rq.leak > 1e-8) Violate("stop.resume-sector", "resumed run left the symmetry sector");
    bool gap = sp.w.size() < 2 || sp.w[1] - sp.w[0] > 0.04 * scale;
    if (!p.P("dmode") && !p.P("few") && gap) {
      Probe("strict_ground_state");
      if (eq > sp.w[0] + 1e-4 * scale) Violate("stop.resume-not-converged", "resumed run reached " + F(eq) + " but the ground energy is " + F(sp.w[0]));
    }
  }
  virtual void Judge(Plan &p, const Outcome &o, const std::vector<Outcome> &ref, const MpsReport &r, const std::vector<MpsReport> &st,
                     const MpsReport &before, double scale) = 0;
  std::vector<std::string> RealComponents() override { return {"qlmps DMRG executor including its signal handler", "libstdc++ streams"}; }
  std::vector<std::string> StubComponents() override { return {"TensorToolkit (dense block-checked stand-in)", "LAPACK", "signal delivery, disk and clock (interposed)"}; }
};
}
#endif
