// C09: disk errors during the serial sweep algorithms. Every faulted run is compared with the fault-free run of the
// same plan: it must fail loudly, or return the same numbers and leave an equally correct MPS.
#include "serial.h"
namespace {
using namespace vh;
struct H : Harness {
  std::string Id() override { return "C09"; }
  std::map<std::string, long> Minimum() override {
    return {{"n", 4}, {"u1", 0}, {"kind", 0}, {"init", 0}, {"warm", 0}, {"sweeps", 1}, {"dmode", 0}, {"step", 1}, {"nz", 0}, {"few", 0}};
  }
  void Generate(Rng &r, Plan &p, bool thorough) override {
    p.par["algo"] = r.Below(A_NUM);
    p.par["n"] = 4 + r.Below(thorough ? 4 : 3);
    p.par["u1"] = r.Below(3) > 0;
    if (r.Chance(0.06)) {                    // a long chain in a sector of few raised sites
      p.par["few"] = 1 + r.Below(2);
      p.par["n"] = 9 + r.Below(3);
      p.par["u1"] = 1;
    }
    p.par["cplx"] = p.par["algo"] == A_TDVP ? 1 : r.Below(2);
    p.par["kind"] = p.par["few"] ? 2 * r.Below(2) : r.Below(5);
    p.par["mseed"] = r.Below(1 << 20);
    p.par["iseed"] = r.Below(1 << 20);
    p.par["init"] = r.Below(3);
    p.par["dmode"] = r.Below(2);
    p.par["sweeps"] = 1 + r.Below(2);
    p.par["warm"] = p.par["algo"] == A_TDVP ? 0 : r.Below(3);   // 1: earlier run, directories kept; 2: temporaries removed
    p.par["nz"] = r.Below(3);
    p.par["step"] = 1 + r.Below(2);
    p.par["site0"] = r.Below(4);
    p.par["string"] = r.Below(2);
    int nf = 1 + (r.Chance(0.4) ? r.Below(3) : 0);
    static const char *k[] = {"open_fail", "open_fail", "enospc", "eio", "eio", "close_fail", "close_fail", "eof", "unlink_fail", "mkdir_fail", "short", "eintr", "short", "eintr", "clock.jump"};
    static const char *cl[] = {"openr", "openw", "write", "write", "read", "closew", "closew", "read", "unlink", "mkdir", "write", "write", "read", "read", "any"};
    for (int i = 0; i < nf; ++i) {
      Fault f;
      int w = r.Below(15);
      f.kind = k[w];
      f.cls = cl[w];
      f.inc = 0;
      f.frac = r.Below(10000);
      f.a = w <= 1 ? (r.Chance(0.5) ? 13 : r.Chance(0.5) ? 24 : 28) : r.Below(1000);
      if (f.kind == "enospc" || f.kind == "eio") f.b = f.cls == "read" ? r.Below(3) : r.Chance(0.4) ? -1 : r.Below(4);
      if (f.kind == "close_fail" && r.Chance(0.4)) f.a = 0;
      if (f.kind == "clock.jump") f.a = r.Below(200000) - 100000;
      p.faults.push_back(f);
    }
  }
  void Run(Ctx &c) override {
    Plan &p = *c.plan;
    int algo = p.P("algo");
    bool real = !p.P("cplx") && algo != A_TDVP;
    Model m = MakeModel(ChainLength(p), p.P("u1") || p.P("few"), p.P("mseed"), !real, 0, p.P("kind"));
    m.few = int(p.P("few"));
    auto lab = Labels(m, Mix(p.P("iseed"), 5));
    int charge = ChargeOf(m, lab);
    double scale = 1;
    for (auto &t : m.terms) scale += std::abs(t.c);
    AlgoPar a;
    a.mps = c.Dir("d/mps");
    a.temp = c.Dir("d/tmp");
    a.sweeps = p.P("sweeps", 1);
    size_t full = FullBond(m);
    a.dmax = p.P("dmode") ? std::max<size_t>(2, full / 2) : full * 2;
    a.trunc = 1e-16;
    if (algo == A_SINGLE || algo == A_NOISE) for (int k = 0; k < p.P("nz"); ++k) a.noises.push_back(1e-4 / (k + 1));
    TdvpPar t;
    t.step = p.P("step", 1);
    t.site0 = std::min<long>(p.P("site0"), m.n - 1);
    t.op0 = 4;
    t.op1 = 0;
    t.string = p.P("string");
    t.init = c.Dir("d/init");
    t.meas = c.Dir("d/meas");
    t.file = c.Dir("d/dyn");
    MkDir(c.Dir("d"));
    auto body = [&] { RunSerial(m, real, algo, a, t); };
    auto ini = c.Process("init", -1, false, [&] { InitState(m, real, p.P("init"), p.P("iseed"), a.mps, charge, lab); });
    if (!ini.Ok()) Violate("io.init-failed", ini.msg);
    if (p.P("warm") && algo != A_TDVP) {
      auto w = c.Process("warm", -1, false, body);
      if (!w.Ok()) Violate("io.plain-run-failed", w.msg);
      if (p.P("warm") == 2) RmTree(a.temp);
    }
    CopyTree(c.Dir("d"), c.Dir("save"));
    auto ref = c.Process("reference", -1, false, body);
    if (ref.kind == FAIL) Violate(ref.cls, ref.msg);
    if (!ref.Ok()) Violate("io.plain-run-failed", std::string(KindName(ref.kind)) + " " + ref.msg);
    auto rr = Look(a.mps, m, charge, real);
    if (!rr.err.empty()) Violate("io.plain-run-mps", rr.err);
    std::string table = algo == A_TDVP ? Slurp(t.file + ".json") : "";
    c.Resolve(0, ref);
    RmTree(c.Dir("d"));
    CopyTree(c.Dir("save"), c.Dir("d"));
    c.nontrivial = 1;
    auto o = c.Process("faulted", 0, true, body);
    if (o.kind == FAIL) Violate(o.cls, o.msg);
    std::string an = AlgoName(algo);
    if (o.LoudFailure()) {
      Probe("loud_failure");
      return;
    }
    if (!o.Ok()) Violate("io.crash", an + ": a disk error ended the run by " + KindName(o.kind) + " " + o.msg + " instead of a reported failure");
    Probe("survived");
    for (auto &k : ref.num) {
      double x = o.num[k.first];
      if (!(std::abs(x - k.second) <= 1e-7 * scale)) Violate("io.wrong-result", an + " reported success with energy " + F(x) + " instead of " + F(k.second));
    }
    for (auto &k : ref.vec) {
      auto &x = o.vec[k.first];
      if (x.size() != k.second.size()) Violate("io.wrong-result", an + " reported success with a result of different size");
      for (size_t i = 0; i < x.size(); ++i)
        if (!(std::abs(x[i] - k.second[i]) <= 1e-7 * scale)) Violate("io.wrong-result", an + " reported success with a wrong correlator");
    }
    auto r = Look(a.mps, m, charge, real);
    if (!r.err.empty()) Violate("io.bad-mps", an + " reported success but the stored MPS is bad: " + r.err);
    if (!(std::abs(r.norm - rr.norm) < 1e-6)) Violate("io.bad-mps", an + " reported success but the stored MPS has norm " + F(r.norm) + " instead of " + F(rr.norm));
    if (!(std::abs(r.energy - rr.energy) <= 1e-7 * scale)) Violate("io.bad-mps", an + " reported success but the stored MPS has energy " + F(r.energy) + " instead of " + F(rr.energy));
    if (algo == A_TDVP) {
      auto b = Look(t.init, m, charge, real);
      if (!b.err.empty()) Violate("io.bad-mps", "TDVP reported success but the saved initial MPS is bad: " + b.err);
      if (Slurp(t.file + ".json") != table) Violate("io.bad-table", "TDVP reported success but its result table is incomplete");
    }
  }
  std::vector<std::string> RealComponents() override { return {"qlmps serial VMPS (3 kinds), DMRG and TDVP", "libstdc++ streams"}; }
  std::vector<std::string> StubComponents() override { return {"TensorToolkit (dense block-checked stand-in)", "LAPACK", "disk and clock (interposed)"}; }
};
}
sim::Harness *sim::MakeHarness() { return new H; }
