// C21: histories of FiniteMPO operations (canonicalisation, sums, products, truncation, disk), with failing disk
// operations, against dense operators.
#define VH_VMPS
#include "algo.h"
#include "qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h"
#include "qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h"
#include "qlmps/one_dim_tn/mpo/finite_mpo/exp_finite_mpo.h"
namespace {
using namespace vh;
using V = std::vector<Zc>;
const int kOps = 16;
struct H : Harness {
  std::string Id() override { return "C21"; }
  double QuickSecs() override { return 40; }
  std::map<std::string, long> Minimum() override {
    std::map<std::string, long> m{{"n", 3}, {"u1", 0}, {"cplx", 0}, {"kind", 0}, {"nops", 1}};
    for (int k = 0; k < 16; ++k) m["c" + std::to_string(k)] = 0;
    return m;
  }
  std::string Rule() override { return "non-trivial: at least two operations changed an operator"; }
  void Generate(Rng &r, Plan &p, bool thorough) override {
    p.par["n"] = 3 + r.Below(thorough ? 3 : 2);
    p.par["u1"] = r.Below(3) > 0;
    p.par["cplx"] = r.Below(2);
    p.par["kind"] = r.Below(5);
    p.par["mseed"] = r.Below(1 << 20);
    p.par["nops"] = 1 + r.Below(thorough ? 12 : 8);
    for (int k = 0; k < p.par["nops"]; ++k) {
      p.par["c" + std::to_string(k)] = 1 + r.Below(kOps);
      p.par["a" + std::to_string(k)] = r.Below(1 << 20);
    }
    p.par["exp"] = r.Chance(0.25);
    if (p.par["exp"]) {
      p.par["nops"] = 1;
      p.par["tau"] = 1 + r.Below(60);
      p.par["invoc"] = 1 + r.Below(2);
      p.par["big"] = r.Chance(0.5) ? 1 : 8;
    }
    int nf = r.Chance(0.5) ? 0 : 1 + r.Below(2);
    static const char *cls[] = {"openw", "openr", "write", "read", "closew", "write", "read", "mkdir", "read", "unlink"};
    static const char *kind[] = {"open_fail", "open_fail", "enospc", "eio", "close_fail", "short", "short", "mkdir_fail", "eof", "unlink_fail"};
    for (int k = 0; k < nf; ++k) {
      Fault f;
      int w = r.Below(10);
      f.kind = kind[w];
      f.cls = cls[w];
      f.inc = 0;
      f.at = r.Below(w == 7 ? 3 : 60);
      f.a = r.Below(1000);
      p.faults.push_back(f);
    }
  }
  template<typename E> using Mpo = qlmps::FiniteMPO<E, QNT>;
  template<typename E> struct Obj {
    std::unique_ptr<Mpo<E>> p;
    V ref;              // row (output) major
  };
  // dense operator; index 1 of a site tensor meets the ket, index 2 is the output
  template<typename E> static V Matrix(const Mpo<E> &x, const Model &m) {
    size_t D = 1, b = 1;
    std::vector<V> cur{V{1}};      // one D x D matrix per right bond state
    for (int i = 0; i < m.n; ++i) {
      const Ten<E> &t = x[i];
      auto sh = t.GetShape();
      if (sh.size() != 4 || sh[0] != b || int(sh[1]) != m.d[i] || int(sh[2]) != m.d[i]) Fail("mpo.shape", "site tensor " + std::to_string(i) + " has a wrong shape");
      size_t d = m.d[i], D2 = D * d, nb = sh[3];
      std::vector<V> nx(nb, V(D2 * D2, 0));
      for (size_t a = 0; a < b; ++a)
        for (size_t in = 0; in < d; ++in)
          for (size_t out = 0; out < d; ++out)
            for (size_t c = 0; c < nb; ++c) {
              Zc w = t({a, in, out, c});
              if (w == Zc(0)) continue;
              for (size_t r = 0; r < D; ++r)
                for (size_t s = 0; s < D; ++s) nx[c][(r * d + out) * D2 + s * d + in] += w * cur[a][r * D + s];
            }
      cur.swap(nx);
      D = D2;
      b = nb;
    }
    if (b != 1) Fail("mpo.shape", "the last bond is not trivial");
    return cur[0];
  }
  static V Mul(const V &a, const V &b) {
    size_t n = size_t(std::llround(std::sqrt(double(a.size()))));
    V c(n * n, 0);
    for (size_t i = 0; i < n; ++i)
      for (size_t k = 0; k < n; ++k) {
        Zc x = a[i * n + k];
        if (x == Zc(0)) continue;
        for (size_t j = 0; j < n; ++j) c[i * n + j] += x * b[k * n + j];
      }
    return c;
  }
  static double Dist(const V &a, const V &b) {
    if (a.size() != b.size()) return 1e300;
    double s = 0;
    for (size_t i = 0; i < a.size(); ++i) s += std::norm(a[i] - b[i]);
    return std::sqrt(s);
  }
  template<typename E> static double Iso(const Ten<E> &t, bool left) {
    auto sh = t.GetShape();
    size_t n = left ? sh[3] : sh[0], k = sh[0] * sh[1] * sh[2] * sh[3] / n;
    V x(n * k);
    size_t p = 0;
    std::vector<size_t> c(4);
    for (size_t a = 0; a < sh[0]; ++a)
      for (size_t i = 0; i < sh[1]; ++i)
        for (size_t j = 0; j < sh[2]; ++j)
          for (size_t b = 0; b < sh[3]; ++b) {
            size_t row = left ? b : a, col = left ? (a * sh[1] + i) * sh[2] + j : (i * sh[2] + j) * sh[3] + b;
            x[row * k + col] = t({a, i, j, b});
            ++p;
          }
    double e = 0;
    for (size_t r = 0; r < n; ++r)
      for (size_t s = 0; s < n; ++s) {
        Zc v = 0;
        for (size_t q = 0; q < k; ++q) v += std::conj(x[r * k + q]) * x[s * k + q];
        e = std::max(e, std::abs(v - Zc(r == s)));
      }
    return e;
  }
  template<typename E> static void Labels(const Mpo<E> &x, const Model &m, const std::string &after) {
    int c = x.GetCenter();
    for (int i = 0; i < m.n; ++i) {
      if (x(i) == nullptr || x[i].IsDefault()) continue;
      auto t = x.GetTenCanoType(i);
      bool left = t == qlmps::LEFT || (c >= 0 && i < c), right = t == qlmps::RIGHT || (c >= 0 && i > c);
      if (left && Iso(x[i], true) > 1e-8) Fail("mpo.label", "after " + after + " site " + std::to_string(i) + " is reported left-canonical (centre " + std::to_string(c) + ") but is off by " + F(Iso(x[i], true)));
      if (right && Iso(x[i], false) > 1e-8) Fail("mpo.label", "after " + after + " site " + std::to_string(i) + " is reported right-canonical (centre " + std::to_string(c) + ") but is off by " + F(Iso(x[i], false)));
    }
  }
  template<typename E> static void Check(const Obj<E> &o, const Model &m, const std::string &after, double tol = 1e-8) {
    const Mpo<E> &x = *o.p;
    for (int i = 0; i < m.n; ++i) if (x(i) == nullptr) Fail("mpo.lost-tensor", "after " + after + " site " + std::to_string(i) + " is not in memory");
    double d = Dist(Matrix(x, m), o.ref);
    if (!(d < tol * (1e-3 + Norm(o.ref)))) Fail("mpo.operator", "after " + after + " the represented operator is off by " + F(d) + " (norm " + F(Norm(o.ref)) + ")");
    Labels(x, m, after);
  }
  template<typename E> static size_t MaxB(const Mpo<E> &x) {
    size_t b = 1;
    for (size_t i = 0; i < x.size(); ++i) b = std::max(b, std::as_const(x)[i].GetShape()[3]);
    return b;
  }
  template<typename E> void Body(const Model &m, const Model &m2, const Plan &p, Ctx &c) {
    Obj<E> ob[2];
    V dref[2];
    std::string dir[2] = {c.Dir("d0"), c.Dir("d1")}, tmp = c.Dir("tmp");
    auto fresh = [&](const Model &mm) {
      NoFaults nf;
      Obj<E> o;
      o.p = std::make_unique<Mpo<E>>(Generator<E>(mm).Gen());
      o.ref = Matrix(*o.p, mm);
      // the generated operator itself, column by column
      size_t N = size_t(mm.Dim());
      for (size_t j = 0; j < N; ++j) {
        V x(N, 0);
        x[j] = 1;
        V y = Apply(mm, x);
        for (size_t i = 0; i < N; ++i) if (std::abs(y[i] - o.ref[i * N + j]) > 1e-9) Fail("mpo.harness", "dense operator mismatch");
      }
      return o;
    };
    ob[0] = fresh(m);
    ob[1] = fresh(m2);
    size_t full = FullB(m);
    long moved = 0;
    for (int k = 0; k < p.P("nops", 1); ++k) {
      int op = int(p.P("c" + std::to_string(k)));
      Rng r(Mix(p.P("a" + std::to_string(k)), 99));
      int w = r.Below(2);
      auto &o = ob[w];
      auto &q = ob[1 - w];
      std::string nm;
      double tol = 1e-8;
      auto io = [&](auto &&f) -> bool {
        long b = FiredInProcess();
        try {
          f();
          return true;
        } catch (const SimError &) {
          throw;
        } catch (const std::exception &e) {
          if (FiredInProcess() == b) Fail("mpo.spurious-failure", nm + " failed without a disk error: " + e.what());
          Probe("failed_io");
          return false;
        }
      };
      // keep numbers in range
      for (auto &x : ob) {
        double nn = Norm(x.ref);
        if (nn > 1e4) {
          x.p->Scale(E(1 / nn));
          for (auto &v : x.ref) v /= nn;
        }
      }
      switch (op) {
        case 1: case 2: {
          int ce = r.Below(m.n);
          nm = "Centralize(" + std::to_string(ce) + ")";
          o.p->Centralize(ce);
          if (o.p->GetCenter() != ce) Fail("mpo.centre", nm + " left the centre at " + std::to_string(o.p->GetCenter()));
          ++moved;
          break;
        }
        case 3: {
          int s = r.Below(m.n - 1);
          if (r.Chance(0.5)) {
            nm = "LeftCanonicalize(" + std::to_string(s) + ")";
            o.p->LeftCanonicalize(s);
            for (int i = 0; i <= s; ++i) if (Iso(std::as_const(*o.p)[i], true) > 1e-8) Fail("mpo.canonicalise", nm + " left site " + std::to_string(i) + " not left-canonical");
          } else {
            ++s;
            nm = "RightCanonicalize(" + std::to_string(s) + ")";
            o.p->RightCanonicalize(s);
            for (int i = s; i < m.n; ++i) if (Iso(std::as_const(*o.p)[i], false) > 1e-8) Fail("mpo.canonicalise", nm + " left site " + std::to_string(i) + " not right-canonical");
          }
          ++moved;
          break;
        }
        case 4: {
          double f = 0.3 + 1.5 * r.Unit();
          if (r.Chance(0.3)) f = -f;
          bool st = r.Chance(0.5);
          nm = "scaling";
          if (st) o.p->Scale(E(f)); else *o.p *= E(f);
          for (auto &v : o.ref) v *= f;
          ++moved;
          break;
        }
        case 5: {
          nm = "sum";
          if (MaxB(*o.p) + MaxB(*q.p) > 40) break;
          bool same = true;
          for (int i = 0; i + 1 < m.n; ++i) same = same && std::as_const(*o.p)[i].GetIndexes()[3].GetDir() == std::as_const(*q.p)[i].GetIndexes()[3].GetDir();
          if (!same) break;
          V sum = o.ref;
          for (size_t i = 0; i < sum.size(); ++i) sum[i] += q.ref[i];
          if (r.Chance(0.5)) {
            *o.p += *q.p;
          } else {
            auto s = std::as_const(*o.p) + *q.p;
            Check(o, m, "operator+");
            *o.p = s;
          }
          o.ref = sum;
          Probe("sum");
          ++moved;
          break;
        }
        case 6: {
          nm = "product";
          if (MaxB(*o.p) * MaxB(*q.p) > 60) break;
          Mpo<E> out(m.n);
          if (r.Chance(0.4)) out = *q.p;              // replaces what the output held
          qlmps::MpoProduct(*o.p, *q.p, out);
          V pr = Mul(o.ref, q.ref);
          Check(o, m, nm);
          *o.p = std::move(out);
          o.ref = pr;
          Probe("product");
          ++moved;
          break;
        }
        case 7: case 8: case 9: {                     // variational product with the bond dimension of the exact one
          bool square = op == 9 && r.Chance(0.5);
          nm = square ? "Square" : "variational product";
          auto &b = square ? o : q;
          if (MaxB(*o.p) * MaxB(*b.p) > 60) break;
          V pr = Mul(o.ref, b.ref);
          if (Norm(pr) < 1e-3 * Norm(o.ref) * Norm(b.ref)) break;
          // initial guess: the exact product, disturbed
          Mpo<E> out(m.n);
          qlmps::MpoProduct(*o.p, *b.p, out);
          out.Truncate(1e-20, 1, full);
          for (int i = 0; i < m.n; ++i) out[i] *= E(0.5 + r.Unit());
          int ce = r.Below(m.n + 1);
          if (ce < m.n) out.Centralize(ce);
          auto cp = out;
          bool ok;
          if (square) {
            std::string ini = c.Dir("guess");
            {
              NoFaults nf;
              out.Dump(ini);
            }
            ok = io([&] { o.p->Square(qlmps::MpoVOptimizeParams(ini, 1, full, 1e-18, 6, 1e-12, tmp)); });
          } else {
            ok = io([&] { qlmps::MpoProduct(*o.p, *b.p, out, 1, full, 1e-18, 6, 1e-12, tmp); });
          }
          if (!ok) {
            if (!square) Labels(out, m, "a failed " + nm);
            break;                                    // the operands are untouched: checked below
          }
          Probe("variational");
          if (!square) {
            Check(o, m, nm);
            *o.p = std::move(out);
          }
          o.ref = pr;
          tol = 1e-6;
          if (o.p->GetCenter() != 1) Fail("mpo.centre", nm + " does not leave the centre at site 1");
          ++moved;
          break;
        }
        case 10: {
          nm = "Truncate";
          double tn = Norm(o.ref);
          bool cut = r.Chance(0.3);
          tol = 1e-6;                                 // the decomposition drops weights below 1e-15 per bond
          size_t D = cut ? 2 + r.Below(3) : full;
          o.p->Truncate(1e-22, 1, D);
          if (MaxB(*o.p) > D) Fail("mpo.truncate", "bond dimension above the requested maximum");
          if (cut) {
            // the error is at most the sum of the weights cut at the single bonds
            double bound = 0;
            long l = 1;
            for (int i = 0; i + 1 < m.n; ++i) {
              l *= m.d[i];
              long N = m.Dim(), R = N / l;
              V x(N * N);
              for (long a = 0; a < l; ++a) for (long a2 = 0; a2 < l; ++a2) for (long e = 0; e < R; ++e) for (long e2 = 0; e2 < R; ++e2)
                x[(a * l + a2) * R * R + e * R + e2] = o.ref[(a * R + e) * N + a2 * R + e2];
              V u, vt;
              std::vector<double> s;
              sim::Svd(l * l, R * R, x.data(), u, s, vt);
              std::sort(s.rbegin(), s.rend());
              for (size_t z = D; z < s.size(); ++z) bound += s[z] * s[z];
            }
            V x = Matrix(*o.p, m);
            double e = Dist(x, o.ref);
            if (e * e > bound * (1 + 1e-6) + 1e-12 * tn * tn) Fail("mpo.truncate", "the truncation error " + F(e) + " exceeds the discarded weight " + F(std::sqrt(bound)));
            o.ref = x;
          }
          ++moved;
          break;
        }
        case 11: {
          nm = "Trace";
          Zc t = o.p->Trace(), want = 0;
          size_t N = size_t(m.Dim());
          for (size_t i = 0; i < N; ++i) want += o.ref[i * N + i];
          if (std::abs(t - want) > 1e-8 * (1 + Norm(o.ref)) * std::sqrt(double(N))) Fail("mpo.trace", "Trace is off by " + F(std::abs(t - want)));
          break;
        }
        case 12: {
          int d = r.Below(2);
          nm = "Dump";
          dref[d].clear();
          if (io([&] { std::as_const(*o.p).Dump(dir[d]); })) dref[d] = o.ref;
          break;
        }
        case 13: case 14: {
          int d = r.Below(2);
          nm = "Load";
          if (dref[d].empty()) {
            if (!Exists(dir[d]) && o.p->Load(dir[d])) Fail("mpo.load-missing", "Load of a directory that does not exist reported success");
            break;
          }
          bool back = true;
          if (r.Chance(0.3)) {
            for (int i = 0; i < m.n; ++i) if (r.Chance(0.7)) o.p->dealloc(i);
          }
          if (!io([&] { back = o.p->Load(dir[d]); })) {
            Labels(*o.p, m, "a failed Load");
            NoFaults nf;
            back = o.p->Load(dir[d]);
          }
          if (!back) Fail("mpo.load", "Load reported that there is nothing to load");
          o.ref = dref[d];
          ++moved;
          break;
        }
        case 15: {
          int how = r.Below(4);
          nm = how == 0 ? "copy construction" : how == 1 ? "copy assignment" : how == 2 ? "move assignment" : "self-assignment";
          if (how == 0) {
            q.p = std::make_unique<Mpo<E>>(*o.p);
            q.ref = o.ref;
          } else if (how == 1) {
            *q.p = *o.p;
            q.ref = o.ref;
          } else if (how == 2) {
            auto x = std::make_unique<Mpo<E>>(m.n);
            *x = std::move(*o.p);
            o.p = std::move(x);
          } else {
            auto &self = *o.p;
            *o.p = self;
          }
          ++moved;
          break;
        }
        case 16: {
          int how = r.Below(3);
          if (how == 0) {                             // gauge move by direct access
            int i = r.Below(m.n), j = r.Below(m.n);
            double f = 0.5 + r.Unit();
            nm = "direct access";
            (*o.p)[i] *= E(f);
            (*o.p)[j] *= E(1 / f);
          } else if (how == 1) {
            nm = "Normalize";
            if (o.p->GetCenter() < 0) o.p->Centralize(r.Below(m.n));
            double nn = Norm(o.ref), got = o.p->Normalize();
            if (std::abs(got - nn) > 1e-8 * nn) Fail("mpo.norm", "Normalize returned " + F(got) + " for an operator of norm " + F(nn));
            for (auto &v : o.ref) v /= nn;
          } else {
            nm = "identity";
            auto id = qlmps::GenerateIdentityMPO(*o.p);
            V e(o.ref.size(), 0);
            for (size_t i = 0; i < size_t(m.Dim()); ++i) e[i * m.Dim() + i] = 1;
            Check(o, m, nm);
            if (Dist(Matrix(id, m), e) > 1e-12) Fail("mpo.identity", "GenerateIdentityMPO is not the identity");
            if (r.Chance(0.3)) {
              *o.p = id;
              o.ref = e;
            }
          }
          ++moved;
          break;
        }
        default:break;
      }
      if (op) {
        Check(ob[0], m, nm, tol);
        Check(ob[1], m, nm, tol);
        if (tol > 1e-7) o.ref = Matrix(*o.p, m);
      }
    }
    Put("moved", double(moved));
  }
  // exp(-tau H) by its Taylor series, one or two calls with the same directories
  template<typename E> void Exponential(const Model &m, const Plan &p, Ctx &c) {
    Mpo<E> h(Generator<E>(m).Gen());
    V H = Matrix(h, m), want(H.size(), 0), term;
    size_t N = size_t(m.Dim());
    double tau = p.P("tau", 1) / 100.0 / (1 + Norm(H) / std::sqrt(double(N)));
    for (size_t i = 0; i < N; ++i) want[i * N + i] = 1;
    term = want;
    for (int k = 1; k < 40; ++k) {
      term = Mul(term, H);
      for (auto &v : term) v *= -tau / k;
      for (size_t i = 0; i < want.size(); ++i) want[i] += term[i];
    }
    double nn = Norm(want);
    long b = FiredInProcess();   // a half-written term of a call that failed may also stop the next one
    for (int k = 0; k < p.P("invoc", 1); ++k) {
      try {
        auto r = qlmps::ExpFiniteMPO(h, tau, 40, 1e-15, 1e-20, 1, FullB(m) * p.P("big", 1), 8, 1e-13, c.Dir("e"), c.Dir("tmp"));
        V x = Matrix(r.second, m);
        for (auto &v : x) v *= nn;
        double err = Dist(x, want);
        if (std::getenv("SIM_VERBOSE")) fprintf(stderr, "exp err %g norm %g want %g\n", err / nn, r.first, nn);
        if (std::abs(r.first - nn) > 1e-6 * nn) Fail("mpo.exp-norm", "ExpFiniteMPO returned norm " + F(r.first) + ", exp(-tau H) has " + F(nn));
        if (!(err < 1e-6 * nn)) Fail("mpo.exp", "ExpFiniteMPO is off by " + F(err / nn) + " (relative)");
        Labels(r.second, m, "ExpFiniteMPO");
        if (Dist(Matrix(h, m), H) != 0) Fail("mpo.exp-input", "ExpFiniteMPO changed the Hamiltonian");
        Probe("exponential");
      } catch (const SimError &) {
        throw;
      } catch (const std::exception &e) {
        if (FiredInProcess() == b) Fail("mpo.spurious-failure", std::string("ExpFiniteMPO failed without a disk error: ") + e.what());
        Probe("failed_io");
      }
    }
    Put("moved", 2);
  }
  static size_t FullB(const Model &m) {
    size_t full = 1, l = 1;
    for (int i = 0; i + 1 < m.n; ++i) {
      l *= m.d[i] * m.d[i];
      size_t r = size_t(m.Dim()) * size_t(m.Dim()) / l;
      full = std::max(full, std::min(l, r));
    }
    return full;
  }
  void Run(Ctx &c) override {
    Plan &p = *c.plan;
    bool cx = p.P("cplx");
    Model m = MakeModel(p.P("n"), p.P("u1"), p.P("mseed"), cx, 0, p.P("kind")), m2 = MakeModel(p.P("n"), p.P("u1"), p.P("mseed") + 7, cx, 0, 0);
    auto o = c.Process("history", 0, true, [&] {
      if (p.P("exp")) cx ? Exponential<Zc>(m, p, c) : Exponential<double>(m, p, c);
      else cx ? Body<Zc>(m, m2, p, c) : Body<double>(m, m2, p, c);
    });
    if (o.kind == FAIL) Violate(o.cls, o.msg);
    bool mk = false;
    for (auto &f : p.faults) if (f.kind == "mkdir_fail") mk = true;
    if (o.LoudFailure() && o.kind == EXIT && mk) return;
    if (!o.Ok()) Violate("mpo.run-failed", std::string(KindName(o.kind)) + " " + o.msg);
    if (o.num["moved"] >= 2) c.nontrivial = 1;
  }
  std::vector<std::string> RealComponents() override { return {"qlmps FiniteMPO, product, sum, truncation, generator, TenVec", "libstdc++ streams"}; }
  std::vector<std::string> StubComponents() override { return {"TensorToolkit (dense block-checked stand-in)", "LAPACK", "disk (interposed)"}; }
};
}
sim::Harness *sim::MakeHarness() { return new H; }
