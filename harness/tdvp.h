// Time evolution against the exact one: workload and oracle shared by the serial and the distributed algorithm.
#ifndef VERIF_TDVP_H
#define VERIF_TDVP_H
#include "serial.h"
namespace vh {
struct TdvpHarness : Harness {
  virtual void Extra(Rng &, Plan &, bool) {}
  virtual bool Normalises(const Plan &, int) { return false; }         // the stored state is normalised, the norm goes into the measured values
  virtual int Ranks(const Plan &, int) { return 1; }
  virtual void Algo(const Model &m, const AlgoPar &a, const TdvpPar &t) { RunSerial(m, false, A_TDVP, a, t); }
  std::map<std::string, long> Minimum() override {
    return {{"n", 3}, {"u1", 0}, {"kind", 0}, {"init", 0}, {"invoc", 1}, {"step", 0}, {"op0", 0}, {"op1", 0}, {"string", 0}, {"site0", 0}, {"few", 0}};
  }
  void Generate(Rng &r, Plan &p, bool thorough) override {
    p.par["n"] = 3 + r.Below(thorough ? 5 : 4);
    p.par["u1"] = r.Below(3) > 0;
    if (r.Chance(0.06)) {                    // a long chain in a sector of few raised sites
      p.par["few"] = 1 + r.Below(2);
      p.par["n"] = 9 + r.Below(3);
      p.par["u1"] = 1;
    }
    p.par["kind"] = p.par["few"] ? 2 * r.Below(2) : r.Below(5);
    p.par["mseed"] = r.Below(1 << 20);
    p.par["iseed"] = r.Below(1 << 20);
    p.par["init"] = r.Chance(0.75) ? 0 : 1 + r.Below(2);
    p.par["invoc"] = 1 + r.Below(2);
    p.par["restore2"] = r.Below(2);       // second invocation from the saved initial state (else it continues)
    p.par["keep2"] = r.Below(2);
    p.par["tau"] = 1 + r.Below(8);        // in 1/100
    p.par["step"] = r.Below(thorough ? 6 : 4);
    p.par["site0"] = r.Below(p.par["n"]);
    p.par["string"] = r.Below(2);
    int pair = r.Below(5);
    p.par["op0"] = pair == 0 ? 0 : pair == 1 ? 1 : pair == 2 ? 2 : pair == 3 ? 4 : 3;
    p.par["op1"] = pair == 0 ? 4 : pair == 1 ? 2 : pair == 2 ? 1 : pair == 3 ? 0 : 4;
    p.par["e0"] = r.Below(5) - 2;
    Extra(r, p, thorough);
    int nf = r.Below(3);
    for (int k = 0; k < nf; ++k) {
      Fault f;
      int w = r.Below(3);
      f.kind = w == 0 ? "short" : w == 1 ? "eintr" : "clock.jump";
      f.cls = w == 2 ? "any" : r.Chance(0.5) ? "read" : "write";
      f.inc = r.Below(p.par["invoc"]);
      f.at = r.Below(300);
      f.a = w == 2 ? r.Below(200000) - 100000 : r.Below(1000);
      p.faults.push_back(f);
    }
  }
  void Run(Ctx &c) override {
    Plan &p = *c.plan;
    Model m = MakeModel(ChainLength(p), p.P("u1") || p.P("few"), p.P("mseed"), true, 0, p.P("kind"));
    m.few = int(p.P("few"));
    auto lab = Labels(m, Mix(p.P("iseed"), 5));
    int charge = ChargeOf(m, lab);
    AlgoPar a;
    a.mps = c.Dir("mps");
    a.temp = c.Dir("tmp");
    a.dmin = 1;
    a.dmax = FullBond(m) * 2;
    a.trunc = 1e-18;
    TdvpPar t;
    t.tau = p.P("tau") / 100.0;
    t.step = p.P("step");
    t.site0 = std::min<long>(p.P("site0"), m.n - 1);
    t.string = p.P("string");
    t.op0 = p.P("op0");
    t.op1 = p.P("op1");
    t.e0 = p.P("e0") * 0.7;
    t.init = c.Dir("init");
    t.meas = c.Dir("meas");
    t.file = c.Dir("dyn");
    auto ini = c.Process("init", -1, false, [&] { InitState(m, false, p.P("init"), p.P("iseed"), a.mps, charge, lab); });
    if (!ini.Ok()) Violate("tdvp.init-failed", ini.msg);
    std::vector<Zc> psi0 = Look(a.mps, m, charge, false).x, start = psi0;
    auto scale = [&](const Spectrum &s) { return s.w.empty() ? 1.0 : 1 + std::max(std::abs(s.w.front()), std::abs(s.w.back())); };
    double sc = scale(Diag(m, charge));
    c.nontrivial = 1;
    int ch = charge;
    for (int k = 1; k <= p.P("invoc", 1); ++k) {
      if (k > 1) {
        if (!p.P("keep2")) {
          RmTree(a.temp);
          RmTree(t.meas);
        }
        if (p.P("restore2")) {
          RmTree(a.mps);
          CopyTree(t.init, a.mps);
          start = psi0;
          ch = charge;
        } else {
          // continues from the evolved state: only an operator of zero charge keeps the sector of the bra
          if (TdvpCharge(m, t.op0) != 0) break;
          start = Look(a.mps, m, ch, false).x;
          t.op0 = 3;
          if (t.site0 == 0) t.site0 = 1;     // the stored state is centred at site 1: the operator has to act there or to the right
          t.string = t.string && false;
        }
      }
      // the state the operator makes must not vanish
      double n0 = Norm(WithString(m, start, int(t.site0), TdvpOp(t.op0, m.d[t.site0]), t.string));
      if (n0 < 0.05) return;
      auto o = c.Process("tdvp" + std::to_string(k), k - 1, true, [&] { Algo(m, a, t); }, Ranks(p, k));
      if (o.kind == FAIL) Violate(o.cls, o.msg);
      if (!o.Ok()) Violate("tdvp.run-failed", "invocation " + std::to_string(k) + ": " + KindName(o.kind) + " " + o.msg);
      std::vector<std::vector<Zc>> st;
      auto ref = TdvpReference(m, psi0, start, t, ch, &st);
      auto &r = o.vec["r"];
      auto &meta = o.vec["meta"];
      if (r.size() != 2 * ref.size()) Violate("tdvp.size", "wrong number of measured values");
      int c1 = ch + TdvpCharge(m, t.op0);
      auto rep = Look(a.mps, m, c1, false);
      if (!rep.err.empty()) Violate("tdvp.mps-incomplete", rep.err);
      double T = t.step * t.tau;
      // The projector-splitting integrator is exact when the bond space is complete; states of lower rank pay the
      // splitting error of a second-order scheme, and for long-range couplings also a projection error.
      bool complete = p.P("init") == 0 && t.op0 != 1 && t.op0 != 2 && k == 1 + (p.P("restore2") ? k - 1 : 0);
      if (k > 1 && !p.P("restore2") && p.P("init") == 0 && p.P("op0") != 1 && p.P("op0") != 2) complete = true;
      bool nn = p.P("kind") == 0 || p.P("kind") == 2;
      double tol = complete ? 1e-9 * sc + (p.P("u1") ? 5e-4 * T * sc : 0) : nn ? 1e-6 + 2.0 * t.tau * t.tau * T * sc * sc * sc : 1e-6 + 0.4 * T * sc;
      if (complete) Probe("exact_integrator_regime");
      double want = Normalises(p, k) ? 1 : n0;
      if (std::abs(rep.norm - want) > 1e-7) Violate("tdvp.norm", "norm is " + F(rep.norm) + " instead of " + F(want));
      if (rep.leak > 1e-9) Violate("tdvp.sector", "evolved state left its symmetry sector");
      double ei = Dot(st[0], Apply(m, st[0])).real() / (n0 * n0);
      if (std::abs(rep.energy - ei) > 1e-6 * sc) Violate("tdvp.energy", "energy changed from " + F(ei) + " to " + F(rep.energy));
      double dist = 0;
      for (size_t i = 0; i < rep.x.size(); ++i) dist += std::norm(rep.x[i] - st.back()[i] * (want / n0));
      dist = std::sqrt(dist);
      if (dist > tol) Violate("tdvp.state", "evolved state is " + F(dist) + " away from the exact one after time " + F(T) + " with step " + F(t.tau));
      for (size_t i = 0; i < ref.size(); ++i) {
        size_t step = i / m.n;
        if (std::abs(meta[2 * i] - step * t.tau) > 1e-12 || meta[2 * i + 1] != t.site0 * 1000.0 + i % m.n)
          Violate("tdvp.label", "measured value " + std::to_string(i) + " carries the wrong time or sites");
        if (std::abs(Zc(r[2 * i], r[2 * i + 1]) - ref[i]) > tol)
          Violate("tdvp.correlator", "correlator at site " + std::to_string(i % m.n) + " step " + std::to_string(step) + " is off by " +
                  F(std::abs(Zc(r[2 * i], r[2 * i + 1]) - ref[i])));
      }
      auto back = Look(t.init, m, charge, false);
      if (!back.err.empty()) Violate("tdvp.initial-lost", "saved initial MPS: " + back.err);
      double df = 0;
      for (size_t i = 0; i < psi0.size(); ++i) df += std::norm(back.x[i] - psi0[i]);
      if (df > 1e-20) Violate("tdvp.initial-changed", "the saved initial MPS is not the initial state");
      // the dumped table holds the same numbers
      std::string js = Slurp(t.file + ".json");
      std::vector<double> num;
      std::string shape = JsonShape(js, num), wshape = "[";
      for (size_t i = 0; i < ref.size(); ++i) wshape += std::string(i ? "," : "") + "[[n,n],[n,n],[n,n]]";
      if (shape != wshape + "]") Violate("tdvp.table", "the dumped table is not a list of " + std::to_string(ref.size()) + " rows of sites, times and value");
      if (num.size() != 6 * ref.size()) Violate("tdvp.table", "the dumped table does not hold six numbers per row");
      for (size_t i = 0; i < ref.size(); ++i) {
        const double *v = &num[6 * i];
        if (v[0] != t.site0 || v[1] != double(i % m.n)) Violate("tdvp.table", "row " + std::to_string(i) + " of the dumped table carries the wrong sites");
        if (v[2] != 0 || std::abs(v[3] - meta[2 * i]) > 1e-5 * (1 + std::abs(meta[2 * i]))) Violate("tdvp.table", "row " + std::to_string(i) + " of the dumped table carries the wrong times");
        if (std::abs(v[4] - r[2 * i]) > 1e-10 * (1 + std::abs(r[2 * i])) || std::abs(v[5] - r[2 * i + 1]) > 1e-10 * (1 + std::abs(r[2 * i + 1])))
          Violate("tdvp.table", "row " + std::to_string(i) + " of the dumped table differs from the returned value");
      }
      ch = c1;
    }
  }
  std::vector<std::string> RealComponents() override { return {"qlmps TDVP, environments, measurement and MPS code", "libstdc++ streams"}; }
  std::vector<std::string> StubComponents() override { return {"TensorToolkit (dense block-checked stand-in)", "LAPACK", "disk and clock (interposed)"}; }
};
}
#endif
