// C20: the process is killed at an arbitrary event (also in the middle of a write) and started again with the same
// parameters and directories, possibly killed several times.
#include "serial.h"
namespace {
using namespace vh;
struct H : Harness {
  std::string Id() override { return "C20"; }
  std::map<std::string, long> Minimum() override {
    return {{"n", 4}, {"u1", 0}, {"cplx", 0}, {"kind", 0}, {"init", 0}, {"warm", 0}, {"sweeps", 1}, {"dmode", 0}, {"step", 1}, {"nz", 0}, {"few", 0}, {"kills", 1}};
  }
  void Generate(Rng &r, Plan &p, bool thorough) override {
    p.par["algo"] = r.Below(A_NUM);
    p.par["n"] = 4 + r.Below(thorough ? 5 : 4);
    p.par["u1"] = r.Below(3) > 0;
    if (r.Chance(0.06)) {                    // a long chain in a sector of few raised sites
      p.par["few"] = 1 + r.Below(2);
      p.par["n"] = 9 + r.Below(3);
      p.par["u1"] = 1;
    }
    p.par["cplx"] = p.par["algo"] == A_TDVP ? 1 : r.Below(2);
    p.par["kind"] = p.par["few"] ? 2 * r.Below(2) : r.Below(5);
    p.par["mseed"] = r.Below(1 << 20);
    p.par["iseed"] = r.Below(1 << 20);
    p.par["init"] = r.Below(3);
    p.par["dmode"] = r.Below(2);
    p.par["sweeps"] = 1 + r.Below(4);
    p.par["warm"] = r.Below(3);
    p.par["nz"] = r.Below(3);
    p.par["step"] = 1 + r.Below(2);
    p.par["site0"] = r.Below(4);
    p.par["string"] = r.Below(2);
    p.par["kills"] = r.Chance(0.75) ? 1 : 2 + r.Below(2);
    p.par["grow"] = r.Below(2);          // the restarted run may use a larger bond dimension
    static const char *cl[] = {"any", "io", "write", "work", "closew", "unlink", "openw", "openr", "mkdir"};
    for (int k = 0; k < p.par["kills"]; ++k) {
      Fault f;
      f.kind = "kill";
      f.cls = cl[r.Below(9)];
      f.inc = k;
      f.frac = r.Chance(0.3) ? r.Below(1500) : r.Below(10000);
      f.a = r.Below(1000);
      p.faults.push_back(f);
    }
  }
  void Run(Ctx &c) override {
    Plan &p = *c.plan;
    int algo = p.P("algo");
    bool real = !p.P("cplx") && algo != A_TDVP;
    Model m = MakeModel(ChainLength(p), p.P("u1") || p.P("few"), p.P("mseed"), !real, 0, p.P("kind"));
    m.few = int(p.P("few"));
    auto lab = Labels(m, Mix(p.P("iseed"), 5));
    int charge = ChargeOf(m, lab);
    Spectrum sp = Diag(m, charge);
    double scale = 1 + std::abs(sp.w.front()) + std::abs(sp.w.back());
    AlgoPar a;
    a.mps = c.Dir("d/mps");
    a.temp = c.Dir("d/tmp");
    a.sweeps = p.P("sweeps", 1);
    size_t full = FullBond(m);
    a.dmax = p.P("dmode") ? std::max<size_t>(2, full / 2) : full * 2;
    a.trunc = 1e-16;
    if (algo == A_SINGLE || algo == A_NOISE) for (int k = 0; k < p.P("nz"); ++k) a.noises.push_back(1e-4 / (k + 1));
    TdvpPar t;
    t.step = p.P("step", 1);
    t.site0 = std::min<long>(p.P("site0"), m.n - 1);
    t.op0 = 4;
    t.op1 = 0;
    t.string = p.P("string");
    t.init = c.Dir("d/init");
    t.meas = c.Dir("d/meas");
    t.file = c.Dir("d/dyn");
    MkDir(c.Dir("d"));
    std::string an = AlgoName(algo);
    auto body = [&] { RunSerial(m, real, algo, a, t); };
    auto ini = c.Process("init", -1, false, [&] { InitState(m, real, p.P("init"), p.P("iseed"), a.mps, charge, lab); });
    if (!ini.Ok()) Violate("restart.init-failed", ini.msg);
    auto psi0 = Look(a.mps, m, charge, real).x;
    std::string mps0 = TreeDigest(a.mps);
    if (p.P("warm") && algo != A_TDVP) {
      AlgoPar b = a;
      a.sweeps = 1;
      auto w = c.Process("warm", -1, false, body);
      if (!w.Ok()) Violate("restart.plain-run-failed", w.msg);
      a = b;
      if (p.P("warm") == 2) RmTree(a.temp);
      mps0 = TreeDigest(a.mps);
    }
    c.nontrivial = 1;
    for (int k = 0; k < p.P("kills", 1); ++k) {
      bool need = false;
      for (auto &f : p.faults) if (f.inc == k && f.at < 0) need = true;
      if (need) {
        CopyTree(c.Dir("d"), c.Dir("save"));
        auto ref = c.Process("count", -1, false, body);
        if (ref.kind == FAIL) Violate(ref.cls, ref.msg);
        c.Resolve(k, ref);
        RmTree(c.Dir("d"));
        CopyTree(c.Dir("save"), c.Dir("d"));
        RmTree(c.Dir("save"));
      }
      auto o = c.Process("killed" + std::to_string(k + 1), k, true, body);
      if (o.kind == FAIL) Violate(o.cls, o.msg);
      if (o.kind == KILLED) Probe("killed");
    }
    std::string mps1 = TreeDigest(a.mps);
    // a further start without faults
    if (p.P("grow") && p.P("dmode")) a.dmax = full * 2;
    auto o = c.Process("restart", -1, false, body);
    if (o.kind == FAIL) Violate(o.cls, o.msg);
    if (o.LoudFailure()) {
      Probe("restart_loud");
      return;
    }
    // mismatched bonds of the killed run make the tensor library stop; the library's raw owning pointers may turn that
    // exception into a crash: loud either way
    if (o.kind == SIGNAL) {
      Probe("restart_crash");
      return;
    }
    if (!o.Ok()) Violate("restart.crash", an + ": the restarted run ended by " + KindName(o.kind) + " " + o.msg + " instead of a result or a reported failure");
    Probe("restart_completed");
    auto r = Look(a.mps, m, algo == A_TDVP ? charge : charge, real);
    if (!r.err.empty()) Violate("restart.bad-mps", an + " completed after the kill but the stored MPS is bad: " + r.err);
    if (algo == A_TDVP) {
      std::string sub = mps1 == mps0 ? "" : "-after-mps-was-modified";
      auto ref = TdvpReference(m, psi0, psi0, t, charge);
      auto &v = o.vec["r"];
      if (v.size() != 2 * ref.size()) Violate("restart.tdvp-size" + sub, "wrong number of measured values");
      double T = t.step * t.tau, tol = 1e-6 + 0.4 * T * scale;
      if (p.P("init") == 0) tol = 1e-8 * scale + 5e-4 * T * scale;
      for (size_t i = 0; i < ref.size() && p.P("dmode") == 0; ++i)
        if (!(std::abs(Zc(v[2 * i], v[2 * i + 1]) - ref[i]) <= tol))
          Violate("restart.tdvp-wrong" + sub, "TDVP completed after the kill with a wrong correlator (" + F(std::abs(Zc(v[2 * i], v[2 * i + 1]) - ref[i])) + " off)");
      return;
    }
    double e = o.num["e"];
    if (r.norm > 1 + 5e-4 || r.norm < (p.P("dmode") ? 0.5 : 1 - 5e-4)) Violate("restart.norm", an + " completed after the kill but the stored MPS has norm " + F(r.norm));
    if (r.leak > 1e-8) Violate("restart.sector", an + " completed after the kill in another symmetry sector");
    if (!(e >= sp.w[0] - 1e-7 * scale)) Violate("restart.below-ground", an + " completed after the kill with energy " + F(e) + " below the ground energy " + F(sp.w[0]));
    if (e > r.energy + 1e-6 * scale || (a.dmax >= full && e < r.energy - 1e-6 * scale))
      Violate("restart.energy-mismatch", an + " returned energy " + F(e) + " after the kill but the stored MPS has energy " + F(r.energy));
    bool gap = sp.w.size() < 2 || sp.w[1] - sp.w[0] > 0.04 * scale;
    if (p.P("init") == 0 && p.P("dmode") == 0 && a.sweeps >= 4 && gap && a.noises.empty()) {
      Probe("strict_ground_state");
      if (e > sp.w[0] + 1e-4 * scale) Violate("restart.not-converged", an + " returned energy " + F(e) + " after the kill but the ground energy is " + F(sp.w[0]));
    }
  }
  std::vector<std::string> RealComponents() override { return {"qlmps serial VMPS (3 kinds), DMRG and TDVP", "libstdc++ streams", "the file system (tmpfs) between incarnations"}; }
  std::vector<std::string> StubComponents() override { return {"TensorToolkit (dense block-checked stand-in)", "LAPACK", "process kill and clock"}; }
};
}
sim::Harness *sim::MakeHarness() { return new H; }
