// C16: histories of disk-based and in-memory measurements on changing states, with read and write errors and damaged site
// files, against dense expectation values.
#include "algo.h"
namespace {
using namespace vh;
using V = std::vector<Zc>;
using Mat = std::vector<double>;
struct H : Harness {
  std::string Id() override { return "C16"; }
  std::map<std::string, long> Minimum() override {
    std::map<std::string, long> m{{"n", 3}, {"u1", 0}, {"cplx", 0}, {"spin1", 0}, {"nops", 1}, {"init", 0}};
    for (int k = 0; k < 12; ++k) m["c" + std::to_string(k)] = 0;
    return m;
  }
  std::string Rule() override { return "non-trivial: at least one measurement returned values or reported a failure"; }
  void Generate(Rng &r, Plan &p, bool thorough) override {
    p.par["n"] = 3 + r.Below(thorough ? 5 : 4);
    p.par["u1"] = r.Below(3) > 0;
    p.par["cplx"] = r.Below(2);
    p.par["spin1"] = r.Chance(0.75) ? 0 : r.Chance(0.5) ? 1 : 99;      // 99: every site spin 1
    if (p.par["spin1"] == 99) p.par["n"] = 3 + r.Below(2);
    if (r.Chance(0.06)) {                    // a long chain in a sector of few raised sites
      p.par["few"] = 1 + r.Below(2);
      p.par["n"] = 9 + r.Below(3);
      p.par["kind"] = 2 * r.Below(2);
      p.par["u1"] = 1;
      p.par["spin1"] = 0;
    }
    p.par["mseed"] = r.Below(1 << 20);
    p.par["iseed"] = r.Below(1 << 20);
    p.par["nops"] = 1 + r.Below(thorough ? 12 : 8);
    for (int k = 0; k < p.par["nops"]; ++k) {
      p.par["c" + std::to_string(k)] = 1 + r.Below(12);
      p.par["a" + std::to_string(k)] = r.Below(1 << 24);
    }
    int nf = r.Chance(0.45) ? 0 : 1 + r.Below(2);
    static const char *cls[] = {"openr", "read", "read", "read", "read", "openw", "write", "closew", "write"};
    static const char *kind[] = {"open_fail", "eio", "eof", "short", "eintr", "open_fail", "enospc", "close_fail", "short"};
    for (int k = 0; k < nf; ++k) {
      Fault f;
      int w = r.Below(9);
      f.kind = kind[w];
      f.cls = cls[w];
      f.inc = 0;
      f.at = r.Below(w < 5 ? 60 : 8);
      f.a = r.Below(1000);
      p.faults.push_back(f);
    }
  }
  struct OpS { int site; Mat m; };
  static Zc Expect(const Model &m, const V &x, const std::vector<OpS> &ops) {
    V y = x;
    std::vector<long> st(m.n, 1);
    for (int i = m.n - 2; i >= 0; --i) st[i] = st[i + 1] * m.d[i + 1];
    for (auto &o : ops) {
      int d = m.d[o.site];
      V z(y.size(), 0);
      for (long k = 0; k < long(y.size()); ++k) {
        if (y[k] == Zc(0)) continue;
        int g = (k / st[o.site]) % d;
        for (int q = 0; q < d; ++q) if (o.m[q * d + g] != 0) z[k + (q - g) * st[o.site]] += o.m[q * d + g] * y[k];
      }
      y.swap(z);
    }
    return Dot(x, y);
  }
  static Mat Id(int d) {
    Mat m(d * d, 0);
    for (int i = 0; i < d; ++i) m[i * d + i] = 1;
    return m;
  }
  // kind 0 diagonal-like, 1 raising, 2 lowering; without symmetry any matrix
  static Mat Op(const Model &m, int d, int kind, Rng &r) {
    if (!m.u1 && r.Chance(0.5)) {
      Mat x(d * d);
      for (auto &v : x) v = r.Normal();
      return x;
    }
    if (kind == 1) return OpUp(d);
    if (kind == 2) return OpDn(d);
    int k = r.Below(5);
    if (k == 0) return OpParity(d);
    if (k == 1) return Id(d);
    if (k == 2) return MatMul(OpUp(d), OpDn(d), d);
    return OpSz(d);
  }
  template<typename E> static E Num(Zc z) { return Scalar<E>::Make(z.real(), z.imag()); }
  template<typename E> void Body(Ctx &c, const Plan &p, const Model &m, int charge) {
    using M = qlmps::FiniteMPS<E, QNT>;
    auto sites = Sites<E>(m);
    int n = m.n;
    bool uni = true;
    for (int d : m.d) if (d != m.d[0]) uni = false;
    int d0 = m.d[0];
    std::string dir = c.Dir("mps"), res = c.Dir("res");
    MkDir(res);
    M disk(sites);
    std::unique_ptr<M> mem;
    V xd, xm;                        // the state on disk and the one in memory
    auto state = [&](uint64_t seed) {
      NoFaults nf;
      Rng r(seed);
      auto x = RandomState<E>(m, charge, r.Next());
      auto t = MpsOf<E>(m, x, charge, r.Chance(0.3) ? 2 + r.Below(2) : 4096);
      if (r.Chance(0.3)) t[0] *= E(0.3 + r.Unit());
      return t;
    };
    auto todisk = [&](uint64_t seed) {
      auto t = state(seed);
      NoFaults nf;
      RmTree(dir);
      WriteMps<E>(dir, t);
      Stored<E> s;
      s.t = t;
      xd = Dense(s, m);
    };
    auto tomem = [&](uint64_t seed) {
      auto t = state(seed);
      NoFaults nf;
      bool keep = mem && seed % 2;
      if (!keep) mem = std::make_unique<M>(sites);
      for (int i = 0; i < n; ++i) {
        if (keep) (*mem)[i] = t[i];
        else (*mem)(i) = new Ten<E>(t[i]);
      }
      Stored<E> s;
      s.t = t;
      xm = Dense(s, m);
    };
    todisk(Mix(p.P("iseed"), 1));
    tomem(Mix(p.P("iseed"), 2));
    long n_ok = 0, n_loud = 0;
    bool damaged = false;
    std::string digest;
    auto mark = [&] {
      NoFaults nf;
      digest = TreeDigest(dir);
    };
    mark();
    struct Want { std::vector<size_t> s; Zc v; };
    int filec = 0;
    auto newfile = [&] { return res + "/r" + std::to_string(filec++ % 3); };
    auto checkfile = [&](const std::string &nm, const std::string &base, const std::vector<Want> &w) {
      NoFaults nf;
      if (!Exists(base + ".json")) Fail("measure.file", nm + " returned but wrote no result file");
      std::string s = Slurp(base + ".json");
      std::vector<double> num;
      std::string shape = JsonShape(s, num), wshape = "[";
      for (auto &x : w) wshape += std::string(wshape.size() > 1 ? "," : "") + "[" + JsonVec(x.s.size()) + "," + (std::is_same_v<E, Zc> ? "[n,n]" : "n") + "]";
      std::vector<double> want;
      for (auto &x : w) {
        for (size_t k : x.s) want.push_back(double(k));
        want.push_back(x.v.real());
        if (std::is_same_v<E, Zc>) want.push_back(x.v.imag());
      }
      if (num.size() != want.size()) Fail("measure.file", nm + " wrote " + std::to_string(num.size()) + " numbers, expected " + std::to_string(want.size()));
      for (size_t i = 0; i < num.size(); ++i) if (!(std::abs(num[i] - want[i]) < 1e-8)) Fail("measure.file", nm + " wrote " + F(num[i]) + " instead of " + F(want[i]));
      if (shape != wshape + "]") Fail("measure.file", nm + " wrote a result file that is not the list of its results");
    };
    auto check = [&](const std::string &nm, const qlmps::MeasuRes<E> &got, std::vector<Want> w, bool sorted = false) {
      if (got.size() != w.size()) Fail("measure.count", nm + " returned " + std::to_string(got.size()) + " results, expected " + std::to_string(w.size()));
      std::vector<Want> g;
      for (auto &x : got) g.push_back({x.sites, Zc(x.avg)});
      auto less = [](const Want &a, const Want &b) { return a.s < b.s; };
      if (sorted) {
        std::stable_sort(g.begin(), g.end(), less);
        std::stable_sort(w.begin(), w.end(), less);
      }
      for (size_t i = 0; i < w.size(); ++i) {
        if (g[i].s != w[i].s) Fail("measure.sites", nm + " attributed a result to the wrong sites");
        if (!(std::abs(g[i].v - w[i].v) < 1e-8 * (1 + std::abs(w[i].v)))) {
          std::string s;
          for (auto k : w[i].s) s += " " + std::to_string(k);
          Fail("measure.value", nm + " at sites" + s + " is off by " + F(std::abs(g[i].v - w[i].v)));
        }
      }
    };
    for (int k = 0; k < p.P("nops", 1); ++k) {
      int op = int(p.P("c" + std::to_string(k)));
      Rng r(Mix(p.P("a" + std::to_string(k)), 99));
      std::string nm;
      long b0 = FiredInProcess();
      bool ok = true, isdisk = op <= 5;
      auto run = [&](auto &&f) {
        try {
          f();
        } catch (const SimError &) {
          throw;
        } catch (const std::exception &e) {
          ok = false;
          if (FiredInProcess() == b0 && !(isdisk && damaged)) Fail("measure.spurious-failure", nm + " failed although the disk worked: " + e.what());
        }
        ok ? ++n_ok : ++n_loud;
      };
      auto pick = [&](int lo, int hi, int cnt) {       // cnt ascending distinct numbers
        std::set<size_t> s;
        while (int(s.size()) < cnt) s.insert(lo + r.Below(hi - lo + 1));
        return std::vector<size_t>(s.begin(), s.end());
      };
      if (op <= 8 && op != 8 && !uni) op = op <= 5 ? 4 : 9;
      if (op == 4 && !uni) op = 9;
      isdisk = op <= 5;
      auto &m_ = *mem;
      switch (op) {
        case 1: {
          nm = "MeasureOneSiteOp(disk)";
          Mat o = Op(m, d0, 0, r);
          std::string f = newfile();
          qlmps::MeasuRes<E> g;
          run([&] { g = qlmps::MeasureOneSiteOp(disk, dir, LocalOp<E>(m, 0, o), f); });
          if (!ok) break;
          std::vector<Want> w;
          for (int i = 0; i < n; ++i) w.push_back({{size_t(i)}, Expect(m, xd, {{i, o}})});
          check(nm, g, w);
          checkfile(nm, f, w);
          break;
        }
        case 2: case 3: {
          nm = op == 2 ? "MeasureOneSiteOp(disk, sites)" : "MeasureOneSiteOp(disk, operators)";
          int cnt = 1 + r.Below(3);
          std::vector<Mat> o;
          std::vector<Ten<E>> ot;
          std::vector<std::string> f;
          for (int q = 0; q < cnt; ++q) {
            o.push_back(Op(m, d0, 0, r));
            ot.push_back(LocalOp<E>(m, 0, o.back()));
            f.push_back(res + "/s" + std::to_string(q));
          }
          auto ss = op == 2 ? pick(0, n - 1, 1 + r.Below(n)) : pick(0, n - 1, n);
          qlmps::MeasuResSet<E> g;
          run([&] { g = op == 2 ? qlmps::MeasureOneSiteOp(disk, dir, ot, ss, f) : qlmps::MeasureOneSiteOp(disk, dir, ot, f); });
          if (!ok) break;
          if (g.size() != size_t(cnt)) Fail("measure.count", nm + " returned the wrong number of result sets");
          for (int q = 0; q < cnt; ++q) {
            std::vector<Want> w;
            for (auto s : ss) w.push_back({{s}, Expect(m, xd, {{int(s), o[q]}})});
            check(nm, g[q], w);
            checkfile(nm, f[q], w);
          }
          break;
        }
        case 4: {
          nm = "MeasureTwoSiteOpGroup";
          int kd = r.Below(3);
          Mat a = Op(m, d0, kd, r), b = Op(m, d0, kd == 0 ? 0 : 3 - kd, r), in = r.Chance(0.5) ? Mat() : Op(m, d0, 0, r);
          int s1 = r.Below(n - 1), how = r.Below(3);
          std::vector<size_t> ss = pick(s1 + 1, n - 1, 1 + r.Below(n - 1 - s1));
          if (how) ss = pick(s1 + 1, n - 1, n - 1 - s1);
          Ten<E> A = LocalOp<E>(m, 0, a), B = LocalOp<E>(m, 0, b), I;
          if (!in.empty()) I = LocalOp<E>(m, 0, in);
          if (how == 2 && in.empty()) how = 1;
          std::string f = newfile();
          qlmps::MeasuRes<E> g;
          run([&] {
            if (how == 0) g = in.empty() ? qlmps::MeasureTwoSiteOpGroup(disk, dir, A, B, s1, ss) : qlmps::MeasureTwoSiteOpGroup(disk, dir, A, B, s1, ss, I);
            else if (how == 1) g = in.empty() ? qlmps::MeasureTwoSiteOpGroup(disk, dir, A, B, size_t(s1)) : qlmps::MeasureTwoSiteOpGroup(disk, dir, A, B, size_t(s1), I);
            else g = qlmps::MeasureTwoSiteOpGroup(disk, dir, A, B, size_t(s1), I, f);
          });
          if (!ok) break;
          std::vector<Want> w;
          for (auto s : ss) {
            std::vector<OpS> o{{s1, a}, {int(s), b}};
            if (!in.empty()) for (int q = s1 + 1; q < int(s); ++q) o.push_back({q, in});
            w.push_back({{size_t(s1), s}, Expect(m, xd, o)});
          }
          check(nm, g, w);
          if (how == 2) checkfile(nm, f, w);
          break;
        }
        case 5: {
          nm = "MeasureFourSiteOpGroup";
          if (n < 4) break;
          static const int kinds[5][4] = {{1, 2, 1, 2}, {1, 1, 2, 2}, {0, 0, 0, 0}, {1, 2, 0, 0}, {2, 0, 1, 0}};
          auto kd = kinds[r.Below(5)];
          std::vector<Mat> o;
          for (int q = 0; q < 4; ++q) o.push_back(Op(m, d0, kd[q], r));
          Mat in = r.Chance(0.5) ? Mat() : Op(m, d0, 0, r);
          auto ref = pick(0, n - 3, 2);
          std::vector<std::array<size_t, 2>> tg;
          int cnt = 1 + r.Below(3);
          for (int q = 0; q < cnt; ++q) {
            auto t = pick(ref[1] + 1, n - 1, 2);
            tg.push_back({t[0], t[1]});
          }
          std::array<Ten<E>, 4> po{LocalOp<E>(m, 0, o[0]), LocalOp<E>(m, 0, o[1]), LocalOp<E>(m, 0, o[2]), LocalOp<E>(m, 0, o[3])};
          qlmps::MeasuRes<E> g;
          run([&] { g = in.empty() ? qlmps::MeasureFourSiteOpGroup(disk, dir, po, {ref[0], ref[1]}, tg) : qlmps::MeasureFourSiteOpGroup(disk, dir, po, {ref[0], ref[1]}, tg, LocalOp<E>(m, 0, in)); });
          if (!ok) break;
          // the insertion acts between the two reference sites and between the two target sites
          std::vector<Want> w;
          for (auto &t : tg) {
            std::vector<OpS> x{{int(ref[0]), o[0]}, {int(ref[1]), o[1]}, {int(t[0]), o[2]}, {int(t[1]), o[3]}};
            if (!in.empty()) {
              for (size_t q = ref[0] + 1; q < ref[1]; ++q) x.push_back({int(q), in});
              for (size_t q = t[0] + 1; q < t[1]; ++q) x.push_back({int(q), in});
            }
            w.push_back({{ref[0], ref[1], t[0], t[1]}, Expect(m, xd, x)});
          }
          check(nm, g, w, true);
          break;
        }
        case 6: case 7: {
          nm = op == 6 ? "MeasureOneSiteOp(memory)" : "MeasureOneSiteOp(memory, operators)";
          std::vector<Mat> o{Op(m, d0, 0, r), Op(m, d0, 0, r)};
          std::vector<Ten<E>> ot{LocalOp<E>(m, 0, o[0]), LocalOp<E>(m, 0, o[1])};
          std::vector<std::string> f{res + "/m0", res + "/m1"};
          qlmps::MeasuResSet<E> g;
          run([&] {
            if (op == 6) g.push_back(qlmps::MeasureOneSiteOp(m_, ot[0], f[0]));
            else g = qlmps::MeasureOneSiteOp(m_, ot, f);
          });
          if (!ok) break;
          for (size_t q = 0; q < (op == 6 ? 1 : 2); ++q) {
            std::vector<Want> w;
            for (int i = 0; i < n; ++i) w.push_back({{size_t(i)}, Expect(m, xm, {{i, o[q]}})});
            check(nm, g.at(q), w);
            checkfile(nm, f[q], w);
          }
          break;
        }
        case 8: case 9: {                    // two- and many-site operators in memory, also with tail strings
          int ev = 1 + r.Below(3), how = r.Below(op == 8 ? 2 : 3);
          if (!uni) how = op == 8 ? 0 : 2;
          nm = op == 8 ? "MeasureTwoSiteOp(memory)" : "MeasureMultiSiteOp(memory)";
          std::vector<std::vector<size_t>> ss;
          std::vector<std::vector<Ten<E>>> ph, in1;
          std::vector<std::vector<std::vector<Ten<E>>>> in2;
          std::vector<Want> w;
          std::string f = newfile();
          Mat fixa, fixb, fixi = Op(m, d0, 0, r);
          int kd2 = r.Below(3);
          if (op == 8) {
            if (!uni) break;
            fixa = Op(m, d0, kd2, r);
            fixb = Op(m, d0, kd2 == 0 ? 0 : 3 - kd2, r);
          }
          for (int e = 0; e < ev; ++e) {
            int cnt = op == 8 ? 2 : 2 + r.Below(std::min(3, n - 1));
            auto s = pick(0, n - 1, cnt);
            std::vector<OpS> x;
            std::vector<Ten<E>> po, i1;
            std::vector<std::vector<Ten<E>>> i2;
            int kd = r.Below(3);
            for (int q = 0; q < cnt; ++q) {
              int si = s[q];
              Mat o = op == 8 ? (q ? fixb : fixa) : Op(m, m.d[si], q == 0 ? kd : q == cnt - 1 && kd ? 3 - kd : 0, r);
              x.push_back({si, o});
              po.push_back(LocalOp<E>(m, si, o));
              if (q + 1 == cnt) break;
              Mat same = op == 8 ? fixi : Op(m, d0, 0, r);
              std::vector<Ten<E>> seg;
              for (int t = si + 1; t < int(s[q + 1]); ++t) {
                Mat io = how == 2 || (op == 8 && how == 0) ? Op(m, m.d[t], 0, r) : same;
                x.push_back({t, io});
                seg.push_back(LocalOp<E>(m, t, io));
              }
              i2.push_back(seg);
              i1.push_back(LocalOp<E>(m, 0, same));
            }
            if (op == 9 && how == 2 && int(s.back()) + 1 < n && r.Chance(0.4)) {
              std::vector<Ten<E>> tail;
              int to = s.back() + 1 + r.Below(n - 1 - s.back());
              for (int t = s.back() + 1; t <= to; ++t) {
                Mat io = Op(m, m.d[t], 0, r);
                x.push_back({t, io});
                tail.push_back(LocalOp<E>(m, t, io));
              }
              i2.push_back(tail);
            }
            ss.push_back(s);
            ph.push_back(po);
            in1.push_back(i1);
            in2.push_back(i2);
            w.push_back({s, Expect(m, xm, x)});
          }
          qlmps::MeasuRes<E> g;
          run([&] {
            if (op == 8) {
              if (how == 1) g = qlmps::MeasureTwoSiteOp(m_, ph[0], LocalOp<E>(m, 0, fixi), ss, f);
              else {
                std::vector<std::vector<Ten<E>>> in;
                for (auto &q : in2) in.push_back(q[0]);
                g = qlmps::MeasureTwoSiteOp(m_, ph[0], in, ss, f);
              }
            } else if (how == 2) g = qlmps::MeasureMultiSiteOp(m_, ph, in2, ss, f);
            else g = qlmps::MeasureMultiSiteOp(m_, ph, in1, ss, f);
          });
          if (!ok) break;
          check(nm, g, w);
          checkfile(nm, f, w);
          break;
        }
        case 10:
          if (r.Chance(0.6)) {
            todisk(p.P("a" + std::to_string(k)));
            damaged = false;
            mark();
          } else tomem(p.P("a" + std::to_string(k)));
          break;
        case 11: {
          if (!r.Chance(0.5)) break;
          NoFaults nf;
          std::string f = TenName(dir, r.Below(n));
          if (!Exists(f)) break;
          std::string s = Slurp(f);
          if (r.Chance(0.4)) ::remove(f.c_str());
          else Spit(f, s.substr(0, r.Below(s.size())));
          damaged = true;
          mark();
          break;
        }
        case 12: {                            // the in-memory object is moved about between measurements
          m_.Centralize(r.Below(n));
          break;
        }
        default:break;
      }
      if (op == 0) continue;
      {
        NoFaults nf;
        if (TreeDigest(dir) != digest) Fail("measure.touched", nm + " changed the stored MPS");
      }
      if (isdisk && !nm.empty()) {
        if (ok) {
          const M &cd = disk;
          for (int i = 0; i < n; ++i) if (cd(i) != nullptr) Fail("measure.left-loaded", nm + " left site " + std::to_string(i) + " loaded");
        } else {
          disk = M(sites);
          Probe("loud");
        }
      } else if (op >= 6 && op <= 9 && ok) {
        Stored<E> s;
        for (int i = 0; i < n; ++i) {
          if (!std::as_const(*mem)(i)) Fail("measure.lost", nm + " lost site " + std::to_string(i));
          s.t.push_back(std::as_const(*mem)[i]);
        }
        auto x = Dense(s, m);
        for (size_t i = 0; i < x.size(); ++i) x[i] -= xm[i];
        if (Norm(x) > 1e-8) Fail("measure.state", nm + " changed the state by " + F(Norm(x)));
      }
    }
    Put("ok", double(n_ok));
    Put("loud", double(n_loud));
  }
  void Run(Ctx &c) override {
    Plan &p = *c.plan;
    Model m = MakeModel(ChainLength(p), p.P("u1") || p.P("few"), p.P("mseed"), true, p.P("spin1") == 99 ? 0 : p.P("spin1"), 0);
    if (p.P("spin1") == 99)
      for (int i = 0; i < m.n; ++i) {
        m.d[i] = 3;
        m.q[i].clear();
        for (int s = 0; s < 3; ++s) m.q[i].push_back(m.u1 ? 2 - 2 * s : 0);
      }
    m.few = int(p.P("few"));
    auto lab = Labels(m, Mix(p.P("iseed"), 5));
    int charge = ChargeOf(m, lab);
    auto o = c.Process("measure", 0, true, [&] { p.P("cplx") ? Body<Zc>(c, p, m, charge) : Body<double>(c, p, m, charge); });
    if (o.kind == FAIL) Violate(o.cls, o.msg);
    if (!o.Ok()) Violate("measure.run-failed", std::string(KindName(o.kind)) + " " + o.msg);
    if (o.num["ok"] + o.num["loud"] >= 1) c.nontrivial = 1;
  }
  std::vector<std::string> RealComponents() override { return {"qlmps disk and in-memory measurements, FiniteMPS, TenVec", "libstdc++ streams"}; }
  std::vector<std::string> StubComponents() override { return {"TensorToolkit (dense block-checked stand-in)", "LAPACK", "disk (interposed)"}; }
};
}
sim::Harness *sim::MakeHarness() { return new H; }
