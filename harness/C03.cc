// C03: histories of FiniteMPS operations on several objects and directories, with failing disk operations, against the
// dense state vector.
#include "algo.h"
namespace {
using namespace vh;
using V = std::vector<Zc>;
const int kOps = 15;
struct H : Harness {
  std::string Id() override { return "C03"; }
  std::map<std::string, long> Minimum() override {
    std::map<std::string, long> m{{"n", 3}, {"u1", 0}, {"cplx", 0}, {"spin1", 0}, {"nops", 1}, {"init", 0}};
    for (int k = 0; k < 16; ++k) m["c" + std::to_string(k)] = 0;
    return m;
  }
  std::string Rule() override { return "non-trivial: at least two operations changed or moved a tensor of an object"; }
  void Generate(Rng &r, Plan &p, bool thorough) override {
    p.par["n"] = 3 + r.Below(thorough ? 4 : 3);
    p.par["u1"] = r.Below(3) > 0;
    p.par["cplx"] = r.Below(2);
    p.par["spin1"] = p.par["n"] <= 4 ? r.Below(2) : 0;
    if (r.Chance(0.06)) {                    // a long chain in a sector of few raised sites
      p.par["few"] = 1 + r.Below(2);
      p.par["n"] = 9 + r.Below(3);
      p.par["kind"] = 2 * r.Below(2);
      p.par["u1"] = 1;
      p.par["spin1"] = 0;
    }
    p.par["mseed"] = r.Below(1 << 20);
    p.par["iseed"] = r.Below(1 << 20);
    p.par["init"] = r.Below(3);
    p.par["nops"] = 1 + r.Below(thorough ? 16 : 12);
    for (int k = 0; k < p.par["nops"]; ++k) {
      p.par["c" + std::to_string(k)] = r.Chance(0.25) ? 7 + r.Below(3) : 1 + r.Below(kOps);
      p.par["a" + std::to_string(k)] = r.Below(1 << 20);
    }
    int nf = r.Chance(0.5) ? 0 : 1 + r.Below(3);
    static const char *cls[] = {"openw", "openr", "write", "read", "closew", "write", "read", "mkdir", "read"};
    static const char *kind[] = {"open_fail", "open_fail", "enospc", "eio", "close_fail", "short", "short", "mkdir_fail", "eof"};
    for (int k = 0; k < nf; ++k) {
      Fault f;
      int w = r.Below(9);
      f.kind = kind[w];
      f.cls = cls[w];
      f.inc = 0;
      f.at = r.Below(w == 7 ? 3 : 60);
      f.a = r.Below(1000);
      p.faults.push_back(f);
    }
  }
  template<typename E> using Mps = qlmps::FiniteMPS<E, QNT>;
  template<typename E> struct Obj {
    std::unique_ptr<Mps<E>> p;
    V ref;
  };
  template<typename E> static V State(const Mps<E> &x, const Model &m) {
    Stored<E> s;
    for (int i = 0; i < m.n; ++i) s.t.push_back(x[i]);
    return Dense(s, m);
  }
  static double Dist(const V &a, const V &b) {
    if (a.size() != b.size()) return 1e300;
    double s = 0;
    for (size_t i = 0; i < a.size(); ++i) s += std::norm(a[i] - b[i]);
    return std::sqrt(s);
  }
  template<typename E> static void Check(const Obj<E> &o, const Model &m, const std::string &after) {
    const Mps<E> &x = *o.p;
    for (int i = 0; i < m.n; ++i) if (x(i) == nullptr) Fail("mps.lost-tensor", "after " + after + " site " + std::to_string(i) + " is not in memory");
    double d = Dist(State(x, m), o.ref);
    if (!(d < 1e-8 * (1 + Norm(o.ref)))) Fail("mps.state", "after " + after + " the represented state is off by " + F(d));
    Labels(x, m, after);
  }
  template<typename E> static void Labels(const Mps<E> &x, const Model &m, const std::string &after) {
    int c = x.GetCenter();
    for (int i = 0; i < m.n; ++i) {
      if (x(i) == nullptr || x[i].IsDefault()) continue;
      auto t = x.GetTenCanoType(i);
      bool left = t == qlmps::LEFT || (c >= 0 && i < c), right = t == qlmps::RIGHT || (c >= 0 && i > c);
      if (left && IsoErr(x[i], true) > 1e-8) Fail("mps.label", "after " + after + " site " + std::to_string(i) + " is reported left-canonical (centre " + std::to_string(c) + ") but is not");
      if (right && IsoErr(x[i], false) > 1e-8) Fail("mps.label", "after " + after + " site " + std::to_string(i) + " is reported right-canonical (centre " + std::to_string(c) + ") but is not");
    }
  }
  template<typename E> void Body(const Model &m, const Plan &p, Ctx &c, int charge, const std::vector<size_t> &lab) {
    Obj<E> ob[2];
    V dref[3];                        // state stored in each directory; empty: unknown
    std::string dir[3];
    for (int k = 0; k < 3; ++k) dir[k] = c.Dir("d" + std::to_string(k));
    auto fresh = [&](uint64_t seed, int kind) {
      NoFaults nf;
      Obj<E> o;
      o.p = std::make_unique<Mps<E>>(Sites<E>(m));
      if (kind == 0) {
        auto t = MpsOf<E>(m, RandomState<E>(m, charge, seed), charge);
        for (int i = 0; i < m.n; ++i) (*o.p)(i) = new Ten<E>(t[i]);
      } else if (kind == 1) {
        bool zero = seed % 2;
        zero ? qlmps::DirectStateInitZeroDivMps(*o.p, lab) : qlmps::DirectStateInitMps(*o.p, lab);
        V x = State(*o.p, m);
        long at = 0;
        for (int i = 0; i < m.n; ++i) at = at * m.d[i] + long(lab[i]);
        for (long i = 0; i < long(x.size()); ++i)
          if (std::abs(std::abs(x[i]) - (i == at)) > 1e-12) Fail("mps.init", "a direct product state has amplitude " + F(std::abs(x[i])) + " on basis state " + std::to_string(i));
        if (o.p->GetCenter() != 0) Fail("mps.init", "a direct product state is not centred at site 0");
        Probe(zero ? "init.zero_div" : "init.direct");
      } else {
        std::vector<std::vector<size_t>> set{lab};
        for (int k = 0; k < 40 && set.size() < 3; ++k) {
          Rng r(Mix(seed, 1000 + k));
          std::vector<size_t> l;
          for (int i = 0; i < m.n; ++i) l.push_back(r.Below(m.d[i]));
          if (ChargeOf(m, l) == charge) set.push_back(l);
        }
        size_t en = 1 + seed % 3;
        qlmps::ExtendDirectRandomInitMps(*o.p, set, en);
        V x = State(*o.p, m);
        if (std::abs(Norm(x) - 1) > 1e-9) Fail("mps.init", "a random extended product state has norm " + F(Norm(x)));
        for (long i = 0; i < long(x.size()); ++i)
          if (std::abs(x[i]) > 1e-12 && m.Charge(i) != charge) Fail("mps.init", "a random extended product state leaves its symmetry sector");
        if (MaxB(*o.p) > set.size() * en) Fail("mps.init", "a random extended product state has bond dimension " + std::to_string(MaxB(*o.p)) + " instead of at most " + std::to_string(set.size() * en));
        Probe("init.extended");
      }
      o.ref = State(*o.p, m);
      return o;
    };
    ob[0] = fresh(Mix(p.P("iseed"), 1), int(p.P("init")));
    ob[1] = fresh(Mix(p.P("iseed"), 2), 0);
    long moved = 0;
    auto nonzero = [&](const V &v) { return Norm(v) > 1e-6; };
    for (int k = 0; k < p.P("nops", 1); ++k) {
      int op = int(p.P("c" + std::to_string(k)));
      Rng r(Mix(p.P("a" + std::to_string(k)), 99));
      int w = r.Below(2);
      auto &o = ob[w];
      std::string nm;
      auto before = FiredInProcess();
      auto io = [&](auto &&f) -> bool {     // runs an I/O operation; a throw without a fault is a violation
        long b = FiredInProcess();
        try {
          f();
          return true;
        } catch (const SimError &) {
          throw;
        } catch (const std::exception &e) {
          if (FiredInProcess() == b) Fail("mps.spurious-failure", nm + " failed without a disk error: " + e.what());
          Probe("failed_io");
          return false;
        }
      };
      (void) before;
      switch (op) {
        case 1: case 2: {
          int ce = r.Below(m.n);
          nm = "Centralize(" + std::to_string(ce) + ")";
          o.p->Centralize(ce);
          if (o.p->GetCenter() != ce) Fail("mps.centre", nm + " left the centre at " + std::to_string(o.p->GetCenter()));
          ++moved;
          break;
        }
        case 3: {
          int s = r.Below(m.n - 1);
          if (r.Chance(0.5)) {
            nm = "LeftCanonicalize(" + std::to_string(s) + ")";
            o.p->LeftCanonicalize(s);
            for (int i = 0; i <= s; ++i) if (IsoErr(std::as_const(*o.p)[i], true) > 1e-8) Fail("mps.canonicalise", nm + " left site " + std::to_string(i) + " not left-canonical");
          } else {
            ++s;
            nm = "RightCanonicalize(" + std::to_string(s) + ")";
            o.p->RightCanonicalize(s);
            for (int i = s; i < m.n; ++i) if (IsoErr(std::as_const(*o.p)[i], false) > 1e-8) Fail("mps.canonicalise", nm + " left site " + std::to_string(i) + " not right-canonical");
          }
          ++moved;
          break;
        }
        case 4: {
          int s = r.Below(m.n - 1);
          int how = r.Below(3);
          nm = how == 0 ? "LeftCanonicalizeTen(" + std::to_string(s) + ")" : std::string("RightCanonicalizeTen(") + std::to_string(s + 1) + (how == 2 ? ", svd)" : ")");
          if (how == 0) o.p->LeftCanonicalizeTen(s);
          else o.p->RightCanonicalizeTen(s + 1, how == 2);
          ++moved;
          break;
        }
        case 5: case 6: {            // per-site dump and load, in any order
          int d = r.Below(3);
          nm = "per-site dump and load";
          if (!Exists(dir[d])) MkDir(dir[d]);
          std::vector<int> gone;
          int cnt = 1 + r.Below(m.n);
          dref[d].clear();
          for (int q = 0; q < cnt; ++q) {
            int i = r.Below(m.n);
            bool rel = r.Chance(0.6);
            auto &x = *o.p;
            if (std::as_const(x)(i) == nullptr) continue;
            Ten<E> copy = std::as_const(x)[i];
            bool ok = io([&] { !rel && r.Chance(0.5) ? x.DumpTen(i, TenName(dir[d], i)) : x.DumpTen(i, TenName(dir[d], i), rel); });
            if (ok) {
              NoFaults nf;
              Ten<E> back;
              std::ifstream f(TenName(dir[d], i), std::ios::binary);
              bool good = true;
              try {
                f >> back;
              } catch (const std::exception &) { good = false; }
              if (!good || !f || !(back == copy)) Fail("mps.dump-lost", "DumpTen reported success but the file does not hold the tensor");
              if ((std::as_const(x)(i) == nullptr) != rel) Fail("mps.dump-release", "DumpTen with release=" + std::to_string(rel) + " left the slot " + (rel ? "occupied" : "empty"));
              if (rel) gone.push_back(i);
              else if (r.Chance(0.4)) gone.push_back(i);      // loaded again over the resident copy
            } else {
              if (std::as_const(x)(i) == nullptr || !(std::as_const(x)[i] == copy)) Fail("mps.dump-lost", "a failed DumpTen lost the tensor in memory");
              gone.erase(std::remove(gone.begin(), gone.end(), i), gone.end());      // the file may be torn now
            }
          }
          while (!gone.empty()) {
            int q = r.Below(gone.size()), i = gone[q];
            gone.erase(gone.begin() + q);
            if (!io([&] { o.p->LoadTen(i, TenName(dir[d], i)); })) {
              Labels(*o.p, m, "a failed LoadTen");
              NoFaults nf;
              o.p->LoadTen(i, TenName(dir[d], i));
            }
            ++moved;
          }
          break;
        }
        case 7: {                    // whole-object dump
          int d = r.Below(3);
          bool rel = r.Chance(0.5), con = r.Chance(0.25);
          if (con) rel = false;
          nm = "Dump";
          if (!dref[d].empty() && r.Chance(0.35)) {      // one file is missing in the directory that is dumped over
            NoFaults nf;
            ::remove(TenName(dir[d], int(r.Below(m.n))).c_str());
          }
          dref[d].clear();
          bool ok = io([&] {
            if (con) std::as_const(*o.p).Dump(dir[d]);
            else if (!rel && r.Chance(0.5)) o.p->Dump(dir[d]);
            else o.p->Dump(dir[d], rel);
          });
          if (ok) dref[d] = o.ref;
          for (int i = 0; i < m.n; ++i) {
            bool in = std::as_const(*o.p)(i) != nullptr;
            if (ok && in == rel) Fail("mps.dump-release", "Dump(release=" + std::to_string(rel) + ") left site " + std::to_string(i) + (in ? " in memory" : " released"));
            if (!in) {
              NoFaults nf;
              o.p->LoadTen(i, TenName(dir[d], i));
            }
          }
          ++moved;
          break;
        }
        case 8: case 9: {            // whole-object load, also of another state
          int d = r.Below(3);
          nm = "Load";
          if (dref[d].empty()) break;
          if (r.Chance(0.4)) for (int i = 0; i < m.n; ++i) if (r.Chance(0.7)) o.p->dealloc(i);      // loaded into empty slots
          int how = r.Below(3);
          std::vector<int> ord(m.n);
          for (int i = 0; i < m.n; ++i) ord[i] = i;
          for (int i = m.n - 1; i > 0; --i) std::swap(ord[i], ord[r.Below(i + 1)]);
          if (io([&] {
            if (how == 0) o.p->Load(dir[d]);
            else for (int i : ord) {
              if (how == 1) o.p->LoadTen(dir[d], i);
              else o.p->LoadTen(i, TenName(dir[d], i));
            }
          })) {
            o.ref = dref[d];
            if (r.Chance(0.3)) {       // the base class reads the same files
              qlmps::MPS<E, QNT> b(Sites<E>(m));
              if (io([&] { b.Load(dir[d]); }))
                for (int i = 0; i < m.n; ++i) {
                  const Ten<E> *q = std::as_const(b)(i);
                  if (!q || !(*q == std::as_const(*o.p)[i])) Fail("mps.base-load", "MPS::Load of a directory gives another tensor at site " + std::to_string(i) + " than FiniteMPS::Load");
                }
            }
          } else {
            Labels(*o.p, m, "a failed Load");
            NoFaults nf;
            o.p->Load(dir[d]);
            o.ref = dref[d];
          }
          ++moved;
          break;
        }
        case 10: {                   // copies and moves
          int how = r.Below(6);
          nm = how == 0 ? "copy construction" : how == 1 ? "copy assignment" : how == 2 ? "move construction" : how == 3 ? "move assignment" : how == 4 ? "self-assignment" : "swap";
          if (how == 0) {
            auto q = std::make_unique<Mps<E>>(*o.p);
            ob[1 - w].p = std::move(q);
            ob[1 - w].ref = o.ref;
          } else if (how == 1) {
            *ob[1 - w].p = *o.p;
            ob[1 - w].ref = o.ref;
          } else if (how == 2) {
            auto q = std::make_unique<Mps<E>>(std::move(*o.p));
            o.p = std::move(q);
          } else if (how == 3) {
            auto q = std::make_unique<Mps<E>>(Sites<E>(m));
            *q = std::move(*o.p);
            o.p = std::move(q);
          } else if (how == 4) {
            auto &self = *o.p;
            *o.p = self;
          } else {
            std::swap(*ob[0].p, *ob[1].p);
            std::swap(ob[0].ref, ob[1].ref);
          }
          Check(ob[1 - w], m, nm);
          ++moved;
          break;
        }
        case 11: {                   // direct tensor access
          int i = r.Below(m.n);
          double f = 0.5 + r.Unit();
          nm = "scaling site " + std::to_string(i);
          (*o.p)[i] *= E(f);
          for (auto &v : o.ref) v *= f;
          ++moved;
          break;
        }
        case 12: {                   // sum and inner product
          nm = "FiniteMPSAdd";
          if (MaxB(*o.p) > 24 || MaxB(*ob[1 - w].p) > 24) break;
          Zc ip = qlmps::FiniteMPSInnerProd(*ob[0].p, *ob[1].p), want = Dot(ob[1].ref, ob[0].ref);
          if (std::abs(ip - want) > 1e-8 * (1 + Norm(ob[0].ref) * Norm(ob[1].ref))) Fail("mps.inner-product", "FiniteMPSInnerProd is off by " + F(std::abs(ip - want)));
          V sum = ob[0].ref;
          for (size_t i = 0; i < sum.size(); ++i) sum[i] += ob[1].ref[i];
          if (!nonzero(sum)) break;
          bool same = true;                                  // the sum is defined bond by bond: directions must agree
          for (int i = 0; i + 1 < m.n; ++i) same = same && std::as_const(*ob[0].p)[i].GetIndexes()[2].GetDir() == std::as_const(*ob[1].p)[i].GetIndexes()[2].GetDir();
          for (int i = 0; i < m.n; ++i) same = same && qlten::Div(std::as_const(*ob[0].p)[i]) == qlten::Div(std::as_const(*ob[1].p)[i]);
          if (!same) break;
          Probe("sum");
          Obj<E> q;
          q.p = std::make_unique<Mps<E>>(Sites<E>(m));
          qlmps::FiniteMPSAdd(*ob[0].p, *ob[1].p, *q.p);
          q.ref = sum;
          Check(ob[1 - w], m, nm);
          ob[w] = std::move(q);
          ++moved;
          break;
        }
        case 13: {                   // entanglement entropy
          int q = 1 + r.Below(5);
          nm = "GetEntanglementEntropy(" + std::to_string(q) + ")";
          double nn = Norm(o.ref);
          auto ee = o.p->GetEntanglementEntropy(q);
          for (auto &v : o.ref) v /= nn;
          if (int(ee.size()) != m.n - 1) Fail("mps.entropy", "wrong number of entropies");
          long l = 1;
          for (int i = 0; i + 1 < m.n; ++i) {
            l *= m.d[i];
            std::vector<Zc> u, vt;
            std::vector<double> s;
            sim::Svd(l, m.Dim() / l, o.ref.data(), u, s, vt);
            double e = 0, z = 0;
            for (double x : s) {
              if (x * x < 1e-14) continue;
              if (q == 1) e -= x * x * std::log(x * x);
              else z += std::pow(x * x, q);
            }
            if (q > 1) e = -std::log(z) / (q - 1);
            if (!(std::abs(ee[i] - e) < 1e-7)) Fail("mps.entropy", "order-" + std::to_string(q) + " entropy of bond " + std::to_string(i) + " is " + F(ee[i]) + " instead of " + F(e));
          }
          Probe("entropy");
          ++moved;
          break;
        }
        case 14: {
          nm = "TruncateMPS";
          double nn = Norm(o.ref);
          bool cut = r.Chance(0.4);
          size_t D = cut ? 2 + r.Below(2) : 4096;
          {
            NoFaults nf;
            qlmps::TruncateMPS(*o.p, 0.0, 1, D);
          }
          for (auto &v : o.ref) v /= nn;
          if (cut) {
            if (MaxB(*o.p) > D) Fail("mps.truncate", "bond dimension above the requested maximum");
            V x = State(*o.p, m);
            if (std::abs(Norm(x) - 1) > 1e-7) Fail("mps.truncate", "truncated MPS has norm " + F(Norm(x)));
            // the infidelity is at most the sum of the weights cut at the single bonds
            double bound = 0;
            long l = 1;
            for (int i = 0; i + 1 < m.n; ++i) {
              l *= m.d[i];
              std::vector<Zc> u, vt;
              std::vector<double> s;
              sim::Svd(l, m.Dim() / l, o.ref.data(), u, s, vt);
              std::sort(s.rbegin(), s.rend());
              for (size_t z = D; z < s.size(); ++z) bound += s[z] * s[z];
            }
            double inf = 1 - std::norm(Dot(o.ref, x));
            if (inf > bound * (1 + 1e-6) + 1e-10) Fail("mps.truncate", "the truncated MPS has infidelity " + F(inf) + " although the discarded weights sum to " + F(bound));
            o.ref = x;
          }
          ++moved;
          break;
        }
        case 15: {                   // mirrored and back
          bool same = true;
          for (int i = 0; i < m.n; ++i) same = same && m.d[i] == m.d[0];
          if (!same) break;
          nm = "Reverse";
          o.p->Reverse();
          V x = State(*o.p, m), y(x.size());
          for (size_t q = 0; q < x.size(); ++q) {
            size_t t = q, z = 0;
            for (int i = 0; i < m.n; ++i) {
              z = z * m.d[0] + t % m.d[0];
              t /= m.d[0];
            }
            y[z] = x[q];
          }
          if (!(Dist(y, o.ref) < 1e-8 * (1 + Norm(o.ref)))) Fail("mps.reverse", "the reversed MPS is not the mirrored state");
          Labels(*o.p, m, nm);
          o.p->Reverse();
          ++moved;
          break;
        }
        default:break;
      }
      if (op) {
        Check(ob[0], m, nm.empty() ? "nothing" : nm);
        Check(ob[1], m, nm.empty() ? "nothing" : nm);
      }
    }
    Put("moved", double(moved));
  }
  template<typename E> static size_t MaxB(const Mps<E> &x) {
    size_t b = 1;
    for (size_t i = 0; i < x.size(); ++i) b = std::max(b, std::as_const(x)[i].GetShape()[2]);
    return b;
  }
  void Run(Ctx &c) override {
    Plan &p = *c.plan;
    Model m = MakeModel(ChainLength(p), p.P("u1") || p.P("few"), p.P("mseed"), true, p.P("spin1"), 0);
    m.few = int(p.P("few"));
    auto lab = vh::Labels(m, Mix(p.P("iseed"), 5));
    int charge = ChargeOf(m, lab);
    auto o = c.Process("history", 0, true, [&] { p.P("cplx") ? Body<Zc>(m, p, c, charge, lab) : Body<double>(m, p, c, charge, lab); });
    if (o.kind == FAIL) Violate(o.cls, o.msg);
    bool mk = false;
    for (auto &f : p.faults) if (f.kind == "mkdir_fail") mk = true;
    if (o.LoudFailure() && o.kind == EXIT && mk) return;      // CreatPath ends the process when mkdir fails
    if (!o.Ok()) Violate("mps.run-failed", std::string(KindName(o.kind)) + " " + o.msg);
    if (o.num["moved"] >= 2) c.nontrivial = 1;
  }
  std::vector<std::string> RealComponents() override { return {"qlmps FiniteMPS, TenVec, DuoVector, MPS initialisers and operations", "libstdc++ streams"}; }
  std::vector<std::string> StubComponents() override { return {"TensorToolkit (dense block-checked stand-in)", "LAPACK", "disk (interposed)"}; }
};
}
sim::Harness *sim::MakeHarness() { return new H; }
