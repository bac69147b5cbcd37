// Ground-state search harness: one workload and oracle for every serial ground-state algorithm.
// History: 1..3 invocations in the same directories (same or changed parameters, temporary directory kept or
// removed between them), with benign environment events (short transfers, interrupted calls, clock jumps).
#ifndef VERIF_GS_H
#define VERIF_GS_H
#include "algo.h"
namespace vh {
struct GsHarness : Harness {
  virtual double RunAlgo(const Model &m, const AlgoPar &a, Plan &p, bool real) = 0;
  virtual int Centre(const Model &) = 0;              // documented centre of the stored MPS; -1: unchecked, -2: canonical about some site
  virtual bool StrictAllowed(const Plan &) { return true; }
  virtual void Extra(Rng &, Plan &, bool) {}
  virtual int Ranks(const Plan &, int) { return 1; }   // ranks of invocation k
  virtual double SerialEnergy(const Model &, const AlgoPar &, Plan &, bool) { return 0; }
  virtual bool CompareSerial(const Plan &) { return false; }
  virtual AlgoPar Tweak(AlgoPar a, const Plan &, int) { return a; }
  virtual bool RebuildsLost(const Plan &) { return false; }        // a missing right environment is noticed and all are rebuilt
  virtual bool CanRestart(const Plan &) { return false; }          // a new start state in the old directories, environments built anew
  virtual void BuildEnvs(const Model &, const AlgoPar &, Plan &, bool) {}
  virtual bool Noisy(const AlgoPar &a) {
    for (double x : a.noises) if (x != 0) return true;
    return false;
  }
  std::map<std::string, long> Minimum() override {
    return {{"n", 4}, {"u1", 0}, {"cplx", 0}, {"spin1", 0}, {"kind", 0}, {"init", 0}, {"invoc", 1}, {"sweeps1", 1}, {"dmode", 0}, {"dcut", 0}, {"lost2", 0}, {"lost3", 0}, {"anew2", 0}, {"anew3", 0}, {"lit", 0}, {"lerr", 0}, {"few", 0}, {"esc", 0}};
  }
  template<typename Mps>
  static void CheckEmpty(const Mps &mps) {
    if (!mps.empty()) Fail("gs.mps-loaded", "site tensors are still loaded in memory after the call returned");
  }
  void Generate(Rng &r, Plan &p, bool thorough) override {
    p.par["n"] = 4 + r.Below(thorough ? 4 : 3) + (r.Chance(0.15) ? 1 : 0);
    p.par["u1"] = r.Below(3) > 0;
    p.par["cplx"] = r.Below(2);
    p.par["spin1"] = p.par["n"] <= 5 && r.Chance(0.3) ? 1 + r.Below(2) : 0;
    p.par["kind"] = r.Below(5);
    p.par["mseed"] = r.Below(1 << 20);
    p.par["init"] = r.Below(3);          // 0 random full-rank, 1 product state, 2 sum of product states
    p.par["iseed"] = r.Below(1 << 20);
    p.par["dmode"] = r.Below(3);         // 0 exact, 1 truncated, 2 truncated by error
    p.par["invoc"] = 1 + r.Below(3);
    p.par["sweeps1"] = 1 + r.Below(3);
    for (int k = 2; k <= 3; ++k) {
      p.par["sweeps" + std::to_string(k)] = 1 + r.Below(2);
      p.par["keep" + std::to_string(k)] = r.Below(2);        // temporary directory kept
      p.par["dmode" + std::to_string(k)] = r.Below(3);
    }
    p.par["wseed"] = r.Below(1 << 20);
    p.par["dcut"] = r.Below(3);          // how far the truncated bond dimension lies below the exact one
    for (int k = 2; k <= 3; ++k) {
      p.par["lost" + std::to_string(k)] = r.Chance(0.3) ? 1 + r.Below(1000) : 0;   // one file of the kept directory is lost
      p.par["anew" + std::to_string(k)] = r.Chance(0.25);                          // a new start state in the same directories
    }
    p.par["lit"] = r.Chance(0.25) ? 2 + r.Below(5) : 0;      // Lanczos is cut off after a few iterations
    p.par["lerr"] = r.Chance(0.2);                           // or stops early
    Extra(r, p, thorough);
    if (r.Chance(0.06)) {                  // a long chain in a sector of few raised sites
      p.par["few"] = 1 + r.Below(2);
      p.par["n"] = 9 + r.Below(3);
      p.par["kind"] = 2 * r.Below(2);
      p.par["u1"] = 1;
      p.par["spin1"] = 0;
    }
    if (!p.P("few") && CanEscape(p) && r.Chance(0.1)) {         // a product state which only the noise can change
      p.par["esc"] = 1;
      p.par["n"] = 5 + r.Below(2);
      p.par["kind"] = 5;
      p.par["u1"] = 1;
      p.par["spin1"] = p.par["lit"] = p.par["lerr"] = p.par["dmode"] = 0;
      p.par["init"] = p.par["invoc"] = 1;
      p.par["sweeps1"] = 5;
    }
    if (!p.P("few") && !p.P("esc") && r.Chance(0.02)) p.par["sweeps1"] = 0;
    int nf = r.Below(4);
    for (int k = 0; k < nf; ++k) {
      Fault f;
      int w = r.Below(5);
      f.kind = w == 0 ? "short" : w == 1 ? "eintr" : w == 2 ? "clock.jump" : w == 3 ? "short" : "eintr";
      f.cls = w == 0 || w == 4 ? "write" : w == 2 ? "any" : "read";
      f.inc = r.Below(p.par["invoc"]);
      f.frac = r.Below(10000);
      f.a = w == 2 ? r.Below(200000) - 100000 : r.Below(1000);
      p.faults.push_back(f);
    }
  }
  void Init(const Model &m, const Plan &p, bool real, const std::string &dir, int charge, const std::vector<size_t> &lab) {
    real ? InitT<double>(m, p, dir, charge, lab) : InitT<Zc>(m, p, dir, charge, lab);
  }
  template<typename E>
  void InitT(const Model &m, const Plan &p, const std::string &dir, int charge, const std::vector<size_t> &lab) {
    if (p.P("init") == 0) {
      WriteMps(dir, MpsOf<E>(m, RandomState<E>(m, charge, Mix(p.P("iseed"), 77)), charge));
      return;
    }
    NoFaults nf;
    qlmps::FiniteMPS<E, QNT> mps(Sites<E>(m));
    if (p.P("init") == 1) {
      qlmps::DirectStateInitMps(mps, lab);
    } else {
      std::vector<std::vector<size_t>> set{lab};
      for (int k = 0; k < 60 && set.size() < 3; ++k) {
        Rng r(Mix(p.P("iseed"), 1000 + k));
        std::vector<size_t> l;
        for (int i = 0; i < m.n; ++i) l.push_back(r.Below(m.d[i]));
        if (ChargeOf(m, l) == charge) set.push_back(l);
      }
      qlmps::ExtendDirectRandomInitMps(mps, set, 2);
      mps.Centralize(0);
    }
    MkDir(dir);
    mps.Dump(dir, true);
  }
  // the serial two-site code expects the centre of the input MPS on site 0 or 1
  template<typename E>
  void MoveCentreT(const Model &m, const std::string &dir) {
    NoFaults nf;
    qlmps::FiniteMPS<E, QNT> mps(Sites<E>(m));
    mps.Load(dir);
    mps.Centralize(0);
    mps.Dump(dir, true);
    CheckEmpty(mps);
  }
  virtual bool MoveCentre(const Plan &, int) { return false; }
  static MpsReport Look(const std::string &d, const Model &m, int c, bool real) {
    return real ? Inspect<double>(d, m, c) : Inspect<Zc>(d, m, c);
  }
  // invariants of a stored result; returns the report
  MpsReport CheckStored(const std::string &dir, const Model &m, int charge, bool real, const Spectrum &sp,
                        const char *what, int dm) {
    auto r = Look(dir, m, charge, real);
    if (!r.err.empty()) Violate("gs.mps-incomplete", std::string(what) + ": " + r.err);
    // the last update discards at most the truncated weight
    if (r.norm > 1 + 5e-4 || r.norm < (dm == 0 ? 1 - 5e-4 : dm == 2 ? 1 - 1e-3 : 0.2)) Violate("gs.norm", std::string(what) + ": stored MPS has norm " + F(r.norm));
    if (r.leak > 1e-8) Violate("gs.sector", std::string(what) + ": stored MPS left the symmetry sector by " + F(r.leak));
    double scale = 1 + std::abs(sp.w.front()) + std::abs(sp.w.back());
    if (r.energy < sp.w[0] - 1e-8 * scale) Violate("gs.reference", "oracle inconsistency");
    return r;
  }
  void Run(Ctx &c) override {
    Plan &p = *c.plan;
    bool real = !p.P("cplx");
    Model m = MakeModel(ChainLength(p), p.P("u1") || p.P("few"), p.P("mseed"), !real, p.P("spin1"), p.P("kind"));
    m.few = int(p.P("few"));
    auto lab = Labels(m, Mix(p.P("iseed"), 5));
    int charge = ChargeOf(m, lab);
    Spectrum sp = Diag(m, charge);
    double scale = 1 + std::abs(sp.w.front()) + std::abs(sp.w.back());
    std::string mpsd = c.Dir("mps"), tmpd = c.Dir("tmp");
    auto init = c.Process("init", -1, false, [&] { Init(m, p, real, mpsd, charge, lab); });
    if (!init.Ok()) Violate("gs.init-failed", "preparing the start state failed: " + init.msg);
    size_t full = FullBond(m);
    size_t exact_sweeps = 0;
    bool exact_so_far = p.P("init") == 0;
    if (sp.basis.size() > 1) ++c.nontrivial;
    for (int k = 1; k <= p.P("invoc", 1); ++k) {
      std::string ks = std::to_string(k);
      if (k > 1 && !p.P("keep" + ks)) RmTree(tmpd);
      bool kept = k > 1 && p.P("keep" + ks);
      AlgoPar a;
      a.sweeps = p.P("sweeps" + ks, 1);
      a.mps = mpsd;
      a.temp = tmpd;
      int dm = k == 1 ? p.P("dmode") : p.P("dmode" + ks);
      a.dmax = dm == 1 ? std::max<size_t>(2, full >> (1 + p.P("dcut"))) : full * 2;
      a.dmin = dm == 1 ? a.dmax / 2 : 1;
      a.trunc = dm == 2 ? 1e-5 : 1e-16;
      if (p.P("lit")) a.liter = p.P("lit");
      if (p.P("lerr")) a.lerr = 1e-4;
      a = Tweak(a, p, k);
      if (p.P("esc")) { a.noises = {1e-2, 1e-2, 1e-3, 1e-4, 0}; a.sweeps = 5; }
      if (kept && p.P("lost" + ks) && RebuildsLost(p)) {
        auto fs = ListDir(tmpd);
        if (!fs.empty()) {
          auto f = fs[p.P("lost" + ks) % fs.size()];
          if (unlink((tmpd + "/" + f).c_str()) == 0) Probe("lost_file");
        }
      } else if (k > 1 && p.P("anew" + ks) && CanRestart(p)) {
        Probe("new_start_state");
        RmTree(mpsd);
        auto o = c.Process("init" + ks, -1, false, [&] { Init(m, p, real, mpsd, charge, lab); });
        if (!o.Ok()) Violate("gs.init-failed", "preparing the start state failed: " + o.msg);
        if (kept) {
          o = c.Process("envs" + ks, -1, false, [&] { BuildEnvs(m, a, p, real); });
          if (!o.Ok()) Violate("gs.envs-failed", "building the environments failed: " + o.msg);
        }
        exact_so_far = p.P("init") == 0;
        exact_sweeps = a.sweeps;
      }
      if (k > 1 && MoveCentre(p, k)) {
        auto o = c.Process("centre" + ks, -1, false, [&] { real ? MoveCentreT<double>(m, mpsd) : MoveCentreT<Zc>(m, mpsd); });
        if (!o.Ok()) Violate("gs.centre-failed", "moving the centre of the stored MPS to site 0 failed: " + o.msg);
      }
      bool strict = exact_so_far && dm == 0 && StrictAllowed(p) && !p.P("lit") && !p.P("lerr") && !p.P("few");
      if (dm != 0) exact_so_far = false;
      exact_sweeps += a.sweeps;
      // a Lanczos run can stall on a plateau next to a nearly degenerate level: ask for two sweeps and a gap
      strict = strict && exact_sweeps >= 3 && (sp.w.size() < 2 || sp.w[1] - sp.w[0] > 0.04 * scale);
      double before = Look(mpsd, m, charge, real).energy;
      auto body = [&] {
        double e = RunAlgo(m, a, p, real);
        if (CurrentRank() == 0) Put("e", e);
      };
      int ranks = Ranks(p, k);
      Outcome ser;
      bool cmp = CompareSerial(p) && dm == 0;
      Outcome ref;
      bool need_ref = false;
      for (auto &f : p.faults) if (f.inc == k - 1 && f.at < 0) need_ref = true;
      if (need_ref || cmp) {
        CopyTree(mpsd, c.Dir("save_mps"));
        if (Exists(tmpd)) CopyTree(tmpd, c.Dir("save_tmp"));
        if (cmp) RmTree(tmpd);
        if (cmp) ser = c.Process("serial" + ks, -1, false, [&] { Put("e", SerialEnergy(m, a, p, real)); });
        if (cmp && need_ref) {
          RmTree(mpsd);
          RmTree(tmpd);
          CopyTree(c.Dir("save_mps"), mpsd);
          if (Exists(c.Dir("save_tmp"))) CopyTree(c.Dir("save_tmp"), tmpd);
        }
        if (need_ref) {
          ref = c.Process("ref" + ks, k - 1, false, body, ranks);
          c.Resolve(k - 1, ref);
        }
        RmTree(mpsd);
        RmTree(tmpd);
        CopyTree(c.Dir("save_mps"), mpsd);
        if (Exists(c.Dir("save_tmp"))) CopyTree(c.Dir("save_tmp"), tmpd);
        RmTree(c.Dir("save_mps"));
        RmTree(c.Dir("save_tmp"));
      }
      auto o = c.Process("run" + ks, k - 1, true, body, ranks);
      if (o.kind == FAIL) Violate(o.cls, o.msg);
      if (!o.Ok()) Violate("gs.run-failed", "invocation " + ks + " did not return: " + std::string(KindName(o.kind)) + " " + o.msg);
      double e = o.num["e"];
      auto r = CheckStored(mpsd, m, charge, real, sp, ("after invocation " + ks).c_str(), dm);
      if (a.sweeps == 0) {                   // nothing to do: the state stays what it was
        Probe("zero_sweeps");
        if (std::abs(r.energy - before) > 1e-7 * scale || std::abs(r.norm - 1) > 1e-7)
          Violate("gs.zero-sweeps", "a call without sweeps changed the energy of the stored MPS from " + F(before) + " to " + F(r.energy));
        continue;
      }
      if (std::isnan(e)) Violate("gs.energy-nan", "returned energy is not a number");
      if (e < sp.w[0] - 1e-7 * scale) Violate("gs.below-ground", "returned energy " + F(e) + " is below the exact ground energy " + F(sp.w[0]));
      // the stored state is the last eigenvector up to the weight discarded by the last truncation
      // cutting the bond of a vector that is not an eigenvector can lower its energy
      bool rough = p.P("lit") || p.P("lerr");
      double eps = std::max(0.0, 1 - r.norm * r.norm);
      // in a small space the Lanczos bases lose orthogonality, which can hide a truncation of 1e-7 in the norm
      if (p.P("few") && dm != 0) eps = std::max(eps, 1e-6);
      double tol = (1e-7 + (eps > 1e-9 ? 4 * std::sqrt(eps) : 0)) * scale;
      if (Noisy(a)) tol = std::max(tol, (dm == 0 ? 1e-7 : dm == 2 ? 2e-3 : 1e9) * scale);
      if (e > r.energy + (Noisy(a) && !rough ? 1e-7 * scale : tol)) Violate("gs.energy-mismatch", "returned energy " + F(e) + " is above the energy of the stored MPS " + F(r.energy) + " (truncated weight " + F(eps) + ")");
      if (e < r.energy - tol)
        Violate("gs.energy-mismatch", "returned energy " + F(e) + " is below the energy of the stored MPS " + F(r.energy) + " (truncated weight " + F(eps) + ")");
      if (dm == 0 && e > before + 1e-7 * scale && StrictAllowed(p))
        Violate("gs.not-variational", "energy rose from " + F(before) + " to " + F(e));
      int ce = Centre(m);
      if (ce >= 0 && CentreErr(r, ce) > 1e-7)
        Violate("gs.centre", "stored MPS is not canonical about site " + std::to_string(ce) + " (deviation " + F(CentreErr(r, ce)) + ")");
      if (ce == -2) {
        double best = 1e9;
        for (int x = 0; x < m.n; ++x) best = std::min(best, CentreErr(r, x));
        if (best > 1e-7) Violate("gs.centre", "stored MPS is not canonical about any site (deviation " + F(best) + ")");
      }
      if (dm != 0 && r.bond > std::max(a.dmax, size_t(2)) && BondLimited())
        Violate("gs.bond", "stored MPS has bond dimension " + std::to_string(r.bond) + " > Dmax " + std::to_string(a.dmax));
      if (cmp && ser.Ok() && (strict || SameSweep()) && (sp.w.size() < 2 || sp.w[1] - sp.w[0] > 0.04 * scale)) {
        Probe("compared_with_serial");
        if (std::abs(e - ser.num["e"]) > SerialTol() * scale)
          Violate("gs.differs-from-serial", "energy " + F(e) + " on " + std::to_string(ranks) + " ranks, " + F(ser.num["e"]) + " from the serial run started in the same state");
      }
      if (p.P("esc") && m.n >= 5 && m.u1 && p.P("kind") == 5 && p.P("init") == 1 && k == 1 && dm == 0 && !rough && !p.P("spin1") && before > sp.w[0] + 0.2 * scale) {
        Probe("escape_by_noise");
        if (e > sp.w[0] + 0.1 * (before - sp.w[0]))
          Violate("gs.noise-without-effect", "energy " + F(before) + " of a product state became " + F(e) + " under noise, the exact ground energy is " + F(sp.w[0]));
      }
      if (strict) {
        Probe("strict_ground_state");
        if (e > sp.w[0] + 1e-4 * scale)
          Violate("gs.not-converged", "returned energy " + F(e) + " but the exact ground energy is " + F(sp.w[0]));
      }
    }
  }
  virtual bool CanEscape(const Plan &) { return false; }
  virtual bool SameSweep() { return true; }           // the serial code updates the same bonds in the same order
  virtual double SerialTol() { return 1e-5; }
  virtual bool BondLimited() { return true; }
  std::vector<std::string> RealComponents() override { return {"qlmps (all headers used by the algorithm)", "libstdc++ streams"}; }
  std::vector<std::string> StubComponents() override { return {"TensorToolkit (dense block-checked stand-in)", "LAPACK", "disk errors and clock (interposed)"}; }
};
}
#endif
