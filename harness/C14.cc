// C14: the distributed kernels (matrix-vector product inside Lanczos ground-state solver and exponential solver,
// environment growth) on several simulated ranks, one after another on the same communicator, against dense linear
// algebra.
#define VH_VMPS
#define VH_TDVP
#define VH_DMRG
#include "mpi_gs.h"
#include "qlmps/algo_mpi/vmps/two_site_update_finite_vmps_mpi.h"
#include "qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi.h"
namespace {
using namespace vh;
using V = std::vector<Zc>;
struct Arr {
  std::vector<size_t> s;
  V v;
  Zc &operator()(size_t a, size_t b, size_t c) { return v[(a * s[1] + b) * s[2] + c]; }
};
template<typename E> Arr DenseOf(const Ten<E> &t) {
  Arr r;
  for (size_t x : t.GetShape()) r.s.push_back(x);
  size_t n = 1;
  for (size_t x : r.s) n *= x;
  r.v.resize(n);
  std::vector<size_t> c(r.s.size(), 0);
  for (size_t k = 0; k < n; ++k) {
    size_t q = k;
    for (int i = int(c.size()) - 1; i >= 0; --i) {
      c[i] = q % r.s[i];
      q /= r.s[i];
    }
    r.v[k] = Zc(t.GetElem(c));
  }
  return r;
}
template<typename E> void Fill(Ten<E> &t, Arr &a) {
  std::vector<size_t> c(a.s.size());
  for (size_t k = 0; k < a.v.size(); ++k) {
    if (std::abs(a.v[k]) < 1e-14) continue;
    size_t q = k;
    for (int i = int(c.size()) - 1; i >= 0; --i) {
      c[i] = q % a.s[i];
      q /= a.s[i];
    }
    t.SetElem(c, Scalar<E>::Make(a.v[k].real(), a.v[k].imag()));
  }
}
// L'[a',x,b'] = conj A[a,p,a'] L[a,w,b] W[w,q,p,x] A[b,q,b']
Arr GrowL(Arr &L, Arr &W, Arr &A) {
  size_t D = A.s[0], d = A.s[1], R = A.s[2], w = W.s[0], x = W.s[3];
  V t1(D * w * d * R, 0);                                   // [a][w][q][b']
  for (size_t a = 0; a < D; ++a) for (size_t k = 0; k < w; ++k) for (size_t b = 0; b < D; ++b) {
        Zc l = L(a, k, b);
        if (l == Zc(0)) continue;
        for (size_t q = 0; q < d; ++q) for (size_t r = 0; r < R; ++r) t1[((a * w + k) * d + q) * R + r] += l * A(b, q, r);
      }
  V t2(D * d * x * R, 0);                                   // [a][p][x][b']
  for (size_t k = 0; k < w; ++k) for (size_t q = 0; q < d; ++q) for (size_t p = 0; p < d; ++p) for (size_t y = 0; y < x; ++y) {
          Zc m = W.v[((k * d + q) * d + p) * x + y];
          if (m == Zc(0)) continue;
          for (size_t a = 0; a < D; ++a) for (size_t r = 0; r < R; ++r) t2[((a * d + p) * x + y) * R + r] += m * t1[((a * w + k) * d + q) * R + r];
        }
  Arr o{{R, x, R}, V(R * x * R, 0)};
  for (size_t a = 0; a < D; ++a) for (size_t p = 0; p < d; ++p) for (size_t e = 0; e < R; ++e) {
        Zc c = std::conj(A(a, p, e));
        if (c == Zc(0)) continue;
        for (size_t y = 0; y < x; ++y) for (size_t r = 0; r < R; ++r) o(e, y, r) += c * t2[((a * d + p) * x + y) * R + r];
      }
  return o;
}
Arr GrowR(Arr &Rn, Arr &W, Arr &A) {
  size_t D = A.s[0], d = A.s[1], R = A.s[2], w = W.s[0], x = W.s[3];
  V t1(R * x * d * D, 0);                                   // [a'][x][q][b]
  for (size_t a = 0; a < R; ++a) for (size_t k = 0; k < x; ++k) for (size_t b = 0; b < R; ++b) {
        Zc l = Rn(a, k, b);
        if (l == Zc(0)) continue;
        for (size_t q = 0; q < d; ++q) for (size_t r = 0; r < D; ++r) t1[((a * x + k) * d + q) * D + r] += l * A(r, q, b);
      }
  V t2(R * d * w * D, 0);
  for (size_t k = 0; k < w; ++k) for (size_t q = 0; q < d; ++q) for (size_t p = 0; p < d; ++p) for (size_t y = 0; y < x; ++y) {
          Zc m = W.v[((k * d + q) * d + p) * x + y];
          if (m == Zc(0)) continue;
          for (size_t a = 0; a < R; ++a) for (size_t r = 0; r < D; ++r) t2[((a * d + p) * w + k) * D + r] += m * t1[((a * x + y) * d + q) * D + r];
        }
  Arr o{{D, w, D}, V(D * w * D, 0)};
  for (size_t a = 0; a < R; ++a) for (size_t p = 0; p < d; ++p) for (size_t e = 0; e < D; ++e) {
        Zc c = std::conj(A(e, p, a));
        if (c == Zc(0)) continue;
        for (size_t k = 0; k < w; ++k) for (size_t r = 0; r < D; ++r) o(e, k, r) += c * t2[((a * d + p) * w + k) * D + r];
      }
  return o;
}
double Dist(const V &a, const V &b) {
  if (a.size() != b.size()) return 1e300;
  double s = 0;
  for (size_t i = 0; i < a.size(); ++i) s += std::norm(a[i] - b[i]);
  return std::sqrt(s);
}
struct Eff {
  Arr L, W1, W2, R;
  V Mul(const V &t) const {                                // t[b][q1][q2][c]
    size_t D = L.s[0], w = L.s[1], d1 = W1.s[1], x = W1.s[3], d2 = W2.s[1], y = W2.s[3], E = R.s[0];
    V a(D * w * d1 * d2 * E, 0), b(D * d1 * x * d2 * E, 0), c(D * d1 * d2 * y * E, 0), o(D * d1 * d2 * E, 0);
    size_t m = d1 * d2 * E;
    for (size_t i = 0; i < D * w; ++i) for (size_t k = 0; k < D; ++k) {
        Zc l = L.v[i * D + k];
        if (l != Zc(0)) for (size_t z = 0; z < m; ++z) a[i * m + z] += l * t[k * m + z];
      }
    for (size_t k = 0; k < w; ++k) for (size_t q = 0; q < d1; ++q) for (size_t p = 0; p < d1; ++p) for (size_t z = 0; z < x; ++z) {
            Zc h = W1.v[((k * d1 + q) * d1 + p) * x + z];
            if (h != Zc(0)) for (size_t i = 0; i < D; ++i) for (size_t u = 0; u < d2 * E; ++u)
                b[((i * d1 + p) * x + z) * d2 * E + u] += h * a[((i * w + k) * d1 + q) * d2 * E + u];
          }
    for (size_t k = 0; k < x; ++k) for (size_t q = 0; q < d2; ++q) for (size_t p = 0; p < d2; ++p) for (size_t z = 0; z < y; ++z) {
            Zc h = W2.v[((k * d2 + q) * d2 + p) * y + z];
            if (h != Zc(0)) for (size_t i = 0; i < D * d1; ++i) for (size_t u = 0; u < E; ++u)
                c[((i * d2 + p) * y + z) * E + u] += h * b[((i * x + k) * d2 + q) * E + u];
          }
    for (size_t f = 0; f < E; ++f) for (size_t z = 0; z < y; ++z) for (size_t g = 0; g < E; ++g) {
          Zc h = R.v[(f * y + z) * E + g];
          if (h != Zc(0)) for (size_t i = 0; i < D * d1 * d2; ++i) o[i * E + f] += h * c[(i * y + z) * E + g];
        }
    return o;
  }
};
struct H : Harness {
  std::string Id() override { return "C14"; }
  std::map<std::string, long> Minimum() override {
    return {{"n", 4}, {"u1", 0}, {"cplx", 0}, {"kind", 0}, {"nops", 1}, {"ranks1", 2}, {"preempt", 0}, {"policy", 0}, {"delay", 0}, {"syncbcast", 0}, {"site", 0}, {"iter", 200}};
  }
  std::string Rule() override { return "non-trivial: the effective Hamiltonian acts on more than one state"; }
  void Generate(Rng &r, Plan &p, bool thorough) override {
    p.par["u1"] = r.Chance(0.8);
    p.par["n"] = 4 + r.Below(p.par["u1"] ? (thorough ? 5 : 4) : 2);
    p.par["cplx"] = r.Below(2);
    p.par["kind"] = r.Below(5);
    p.par["mseed"] = r.Below(1 << 20);
    p.par["iseed"] = r.Below(1 << 20);
    p.par["site"] = r.Below(p.par["n"] - 1);
    p.par["nops"] = 1 + r.Below(4);
    for (int k = 0; k < 4; ++k) p.par["op" + std::to_string(k)] = r.Below(4);
    p.par["iter"] = r.Chance(0.4) ? 2 + r.Below(8) : 200;
    p.par["tau"] = 1 + r.Below(40);
    GenSchedule(r, p, thorough, 1);
    p.par["ranks1"] = 2 + r.Below(thorough ? 9 : 6);
    for (auto &f : p.faults) {
      f.at = r.Below(400);
      f.a = r.Below(p.par["ranks1"]);
    }
  }
  template<typename E> void Body(const Model &m, const Plan &p, int charge) {
    const MPI_Comm comm = MPI_COMM_WORLD;
    bool master = CurrentRank() == 0;
    int s = int(std::min<long>(p.P("site"), m.n - 2));
    auto mpo = Generator<E>(m).Gen();
    std::vector<Ten<E>> A;
    Ten<E> lenv, renv;
    std::vector<Arr> La, Ra;
    std::vector<Arr> Ad, Wd;
    Ten<E> theta;
    Eff eff;
    std::vector<size_t> allowed;
    if (master) {
      NoFaults nf;
      A = MpsOf<E>(m, RandomState<E>(m, charge, Mix(p.P("iseed"), 77)), charge);
      for (int i = 0; i < m.n; ++i) {
        Ad.push_back(DenseOf(A[i]));
        Wd.push_back(DenseOf(mpo[i]));
      }
      La.push_back(Arr{{1, 1, 1}, {1}});
      for (int i = 0; i < s; ++i) La.push_back(GrowL(La.back(), Wd[i], Ad[i]));
      Ra.push_back(Arr{{1, 1, 1}, {1}});
      for (int i = m.n - 1; i > s + 1; --i) Ra.push_back(GrowR(Ra.back(), Wd[i], Ad[i]));
      auto inv = [](const IdxT &x) { return qlten::InverseIndex(x); };
      auto l2 = inv(A[s].GetIndexes()[0]);
      lenv = Ten<E>({inv(l2), inv(mpo[s].GetIndexes()[0]), l2});
      Fill(lenv, La.back());
      auto r2 = inv(A[s + 1].GetIndexes()[2]);
      renv = Ten<E>({inv(r2), inv(mpo[s + 1].GetIndexes()[3]), r2});
      Fill(renv, Ra.back());
      qlten::Contract(&A[s], &A[s + 1], {{2}, {0}}, &theta);
      eff = Eff{La.back(), Wd[s], Wd[s + 1], Ra.back()};
      // coordinates the symmetry allows
      std::vector<std::vector<int>> q;
      for (auto &ix : theta.GetIndexes()) {
        std::vector<int> v;
        for (auto &sc : ix.GetQNScts()) for (size_t k = 0; k < sc.GetDegeneracy(); ++k) v.push_back(QnVal(sc.GetQn()) * (ix.GetDir() == qlten::TenIndexDirType::IN ? -1 : 1));
        q.push_back(v);
      }
      auto td = DenseOf(theta);
      int want = 1 << 20;
      for (int pass = 0; pass < 2; ++pass)
        for (size_t k = 0; k < td.v.size(); ++k) {
          size_t z = k;
          int c = 0;
          for (int i = 3; i >= 0; --i) {
            c += q[i][z % td.s[i]];
            z /= td.s[i];
          }
          if (pass == 0 && std::abs(td.v[k]) > 1e-12) want = c;
          if (pass == 1 && c == want) allowed.push_back(k);
        }
    }
    double scale = 1;
    if (master) {
      V e(theta.size(), 0);
      for (size_t k : allowed) {
        e[k] = 1;
        scale = std::max(scale, Norm(eff.Mul(e)));
        e[k] = 0;
      }
      scale += 1;
    }
    for (int k = 0; k < p.P("nops", 1); ++k) {
      int op = int(p.P("op" + std::to_string(k)));
      Zc tau = p.P("tau") / 100.0;
      if (op == 3 && !std::is_same_v<E, Zc>) op = 0;
      if (op == 0 || op == 3) {                             // eigensolver / exponential
        std::vector<Ten<E> *> h{nullptr, const_cast<Ten<E> *>(&mpo[s]), const_cast<Ten<E> *>(&mpo[s + 1]), nullptr};
        if (!master) {
          Ten<E> l, r;
          h[0] = &l;
          h[3] = &r;
          qlmps::SlaveLanczosSolver<Ten<E>>(h, comm);
          continue;
        }
        h[0] = &lenv;
        h[3] = &renv;
        V t0 = DenseOf(theta).v;
        double nn = Norm(t0);
        for (auto &x : t0) x /= nn;
        auto start = new Ten<E>(theta);
        size_t iter = size_t(p.P("iter", 200));
        if (op == 0) {
          auto res = qlmps::MasterLanczosSolver(h, start, qlmps::LanczosParams(1e-12, iter), comm);
          // Ritz value of the Krylov space of that many vectors, with full reorthogonalisation
          std::vector<V> kb;
          V v = t0;
          while (kb.size() < std::min(iter, allowed.size())) {
            for (int rep = 0; rep < 2; ++rep) for (auto &b : kb) {
                Zc d = Dot(b, v);
                for (size_t i = 0; i < v.size(); ++i) v[i] -= d * b[i];
              }
            double n = Norm(v);
            if (n < 1e-9 * scale) break;
            for (auto &x : v) x /= n;
            kb.push_back(v);
            v = eff.Mul(v);
          }
          size_t K = kb.size();
          V hm(K * K);
          for (size_t j = 0; j < K; ++j) {
            V y = eff.Mul(kb[j]);
            for (size_t i = 0; i < K; ++i) hm[i * K + j] = Dot(kb[i], y);
          }
          std::vector<double> w;
          V ev;
          sim::Eigh(K, hm.data(), w, ev);
          V x = DenseOf(*res.gs_vec).v;
          delete res.gs_vec;
          if (x.size() != t0.size()) Fail("kernel.shape", "the eigenvector has the wrong shape");
          double n = Norm(x);
          double ex = Dot(x, eff.Mul(x)).real();
          if (!(std::abs(n - 1) < 1e-7)) Fail("kernel.eigvec", "the eigenvector has norm " + F(n));
          if (!(std::abs(ex - res.gs_eng) < 1e-6 * scale)) Fail("kernel.eigvec", "the eigenvalue " + F(res.gs_eng) + " is not that of the eigenvector, " + F(ex));
          if (!(std::abs(res.gs_eng - w[0]) < 1e-5 * scale))
            Fail("kernel.eigval", "ground-state solver with " + std::to_string(iter) + " iterations returned " + F(res.gs_eng) + " instead of " + F(w[0]));
          if (iter == 200) Probe("converged_lanczos");
          else Probe("truncated_lanczos");
        } else {
          if constexpr (std::is_same_v<E, Zc>) {
            auto res = qlmps::MasterLanczosExpmvSolver(h, start, tau.real(), qlmps::LanczosParams(1e-12, 200), comm);
            V x = DenseOf(*res.expmv).v;
            delete res.expmv;
            size_t K = allowed.size();
            V hm(K * K), e(t0.size(), 0);
            for (size_t j = 0; j < K; ++j) {
              e[allowed[j]] = 1;
              V y = eff.Mul(e);
              e[allowed[j]] = 0;
              for (size_t i = 0; i < K; ++i) hm[i * K + j] = y[allowed[i]];
            }
            std::vector<double> w;
            V ev, ref(t0.size(), 0);
            sim::Eigh(K, hm.data(), w, ev);
            for (size_t c = 0; c < K; ++c) {
              Zc a = 0;
              for (size_t i = 0; i < K; ++i) a += std::conj(ev[i * K + c]) * t0[allowed[i]];
              a *= std::exp(Zc(0, -w[c] * tau.real()));
              for (size_t i = 0; i < K; ++i) ref[allowed[i]] += ev[i * K + c] * a;
            }
            double d = Dist(x, ref);
            if (!(d < 1e-6)) Fail("kernel.expmv", "the exponential solver is off by " + F(d));
            Probe("expmv");
          }
        }
      } else if (op == 1) {                                  // left environment
        if (!master) {
          qlmps::SlaveGrowLeftEnvironmentInit<E, QNT>(comm);
          continue;
        }
        auto g = qlmps::MasterGrowLeftEnvironmentInit(lenv, const_cast<Ten<E> &>(mpo[s]), A[s], comm);
        auto d = DenseOf(*g);
        delete g;
        auto ref = GrowL(La.back(), Wd[s], Ad[s]);
        if (d.s != ref.s || !(Dist(d.v, ref.v) < 1e-10 * (1 + Norm(ref.v)))) Fail("kernel.left-env", "the grown left environment differs from the exact one by " + F(Dist(d.v, ref.v)));
        Probe("left_env");
      } else {
        if (!master) {
          qlmps::SlaveGrowRightEnvironmentInit<E, QNT>(comm);
          continue;
        }
        auto g = qlmps::MasterGrowRightEnvironmentInit(renv, const_cast<Ten<E> &>(mpo[s + 1]), A[s + 1], comm);
        auto d = DenseOf(*g);
        delete g;
        auto ref = GrowR(Ra.back(), Wd[s + 1], Ad[s + 1]);
        if (d.s != ref.s || !(Dist(d.v, ref.v) < 1e-10 * (1 + Norm(ref.v)))) Fail("kernel.right-env", "the grown right environment differs from the exact one by " + F(Dist(d.v, ref.v)));
        Probe("right_env");
      }
    }
  }
  void Run(Ctx &c) override {
    Plan &p = *c.plan;
    bool real = !p.P("cplx");
    Model m = MakeModel(p.P("n"), p.P("u1"), p.P("mseed"), !real, 0, p.P("kind"));
    auto lab = Labels(m, Mix(p.P("iseed"), 5));
    int charge = ChargeOf(m, lab);
    if (m.Sector(charge).size() > 1) c.nontrivial = 1;
    auto o = c.Process("kernels", 0, true, [&] { real ? Body<double>(m, p, charge) : Body<Zc>(m, p, charge); }, int(p.P("ranks1", 2)));
    if (o.kind == FAIL) Violate(o.cls, o.msg);
    if (!o.Ok()) Violate("kernel.run-failed", std::string(KindName(o.kind)) + " " + o.msg);
  }
  std::vector<std::string> RealComponents() override { return {"qlmps distributed Lanczos, exponential and environment kernels, MPO generator"}; }
  std::vector<std::string> StubComponents() override { return {"TensorToolkit (dense block-checked stand-in)", "MPI (simulated ranks, channels and collectives)", "LAPACK"}; }
};
}
sim::Harness *sim::MakeHarness() { return new H; }
