// C30: histories of MPO generation (AddTerm in every form, copies, repeated Gen in every mode) with failing
// allocations, against the dense sum of the terms added so far.
#include "algo.h"
#include "qlmps/one_dim_tn/mpo/mat_repr_mpo.h"
namespace {
using namespace vh;
using V = std::vector<Zc>;
struct H : Harness {
  std::string Id() override { return "C30"; }
  double QuickSecs() override { return 40; }
  std::map<std::string, long> Minimum() override {
    std::map<std::string, long> m{{"n", 2}, {"u1", 0}, {"cplx", 0}, {"nops", 1}, {"spin1", 0}};
    for (int k = 0; k < 24; ++k) m["c" + std::to_string(k)] = 0;
    return m;
  }
  std::string Rule() override { return "non-trivial: an MPO was generated from at least two terms"; }
  void Generate(Rng &r, Plan &p, bool thorough) override {
    p.par["n"] = 2 + r.Below(thorough ? 6 : 5);
    p.par["u1"] = r.Below(2);
    p.par["cplx"] = r.Below(2);
    p.par["spin1"] = r.Chance(0.7) ? 0 : 1 + r.Below(2);
    p.par["mseed"] = r.Below(1 << 20);
    p.par["nops"] = 1 + r.Below(thorough ? 24 : 16);
    for (int k = 0; k < p.par["nops"]; ++k) {
      p.par["c" + std::to_string(k)] = r.Chance(0.12) ? 13 : 1 + r.Below(12);
      p.par["a" + std::to_string(k)] = r.Below(1 << 20);
    }
    if (r.Chance(0.4)) {
      int nf = 1 + r.Below(3);
      for (int k = 0; k < nf; ++k) {
        Fault f;
        f.kind = f.cls = "alloc";
        f.frac = r.Below(10000);
        p.faults.push_back(f);
      }
    }
  }
  // a term of the reference: a matrix for every site it touches
  template<typename E> struct T {
    E c;
    std::vector<size_t> st;
    std::vector<std::vector<E>> op;    // op[out * d + in]
  };
  template<typename E> struct G {
    std::unique_ptr<qlmps::MPOGenerator<E, QNT>> g;
    std::vector<T<E>> ts;
  };
  template<typename E> static V Dense(const std::vector<T<E>> &ts, const Model &m) {
    size_t N = m.Dim();
    V x(N * N, 0);
    for (auto &t : ts) {
      std::vector<int> at(m.n, -1);
      for (size_t k = 0; k < t.st.size(); ++k) at[t.st[k]] = int(k);
      // sparse product of the local matrices
      struct P { size_t o, i; Zc w; };
      std::vector<P> cur{{0, 0, Zc(t.c)}};
      for (int i = 0; i < m.n; ++i) {
        std::vector<P> nx;
        size_t d = m.d[i];
        for (auto &q : cur)
          for (size_t o = 0; o < d; ++o)
            for (size_t in = 0; in < d; ++in) {
              Zc w = at[i] < 0 ? Zc(o == in) : Zc(t.op[at[i]][o * d + in]);
              if (w != Zc(0)) nx.push_back({q.o * d + o, q.i * d + in, q.w * w});
            }
        cur.swap(nx);
      }
      for (auto &q : cur) x[q.o * N + q.i] += q.w;
    }
    return x;
  }
  // contraction of one site matrix of operators w(a, c, out, in) into the running product
  template<typename F> static V Product(const Model &m, const std::vector<size_t> &bond, F w) {
    size_t D = 1;
    std::vector<V> cur{V{1}};
    for (int i = 0; i < m.n; ++i) {
      size_t d = m.d[i], D2 = D * d, b = bond[i], nb = bond[i + 1];
      std::vector<V> nx(nb, V(D2 * D2, 0));
      for (size_t a = 0; a < b; ++a)
        for (size_t c = 0; c < nb; ++c)
          for (size_t in = 0; in < d; ++in)
            for (size_t out = 0; out < d; ++out) {
              Zc x = w(i, a, c, out, in);
              if (x == Zc(0)) continue;
              for (size_t r = 0; r < D; ++r)
                for (size_t s = 0; s < D; ++s) nx[c][(r * d + out) * D2 + s * d + in] += x * cur[a][r * D + s];
            }
      cur.swap(nx);
      D = D2;
    }
    return cur[0];
  }
  template<typename E> static V FromMpo(const qlmps::MPO<Ten<E>> &x, const Model &m) {
    std::vector<size_t> bond{1};
    if (int(x.size()) != m.n) Fail("gen.shape", "the generated MPO has the wrong number of sites");
    for (int i = 0; i < m.n; ++i) {
      auto sh = x[i].GetShape();
      if (sh.size() != 4 || sh[0] != bond.back() || int(sh[1]) != m.d[i] || int(sh[2]) != m.d[i]) Fail("gen.shape", "MPO tensor " + std::to_string(i) + " does not fit its neighbours");
      if (i && !(x[i].GetIndex(0) == qlten::InverseIndex(x[i - 1].GetIndex(3)))) Fail("gen.index", "the bond between MPO tensors " + std::to_string(i - 1) + " and " + std::to_string(i) + " does not match");
      if (!(x[i].GetIndex(2) == SiteIndex(m, i)) || !(x[i].GetIndex(1) == qlten::InverseIndex(SiteIndex(m, i)))) Fail("gen.index", "MPO tensor " + std::to_string(i) + " has wrong physical indexes");
      for (size_t a = 0; a < sh[0]; ++a)           // every element conserves the quantum number
        for (size_t c = 0; c < sh[3]; ++c)
          for (size_t in = 0; in < sh[1]; ++in)
            for (size_t out = 0; out < sh[2]; ++out)
              if (x[i]({a, in, out, c}) != E(0)) {
                QNT q;
                size_t at[] = {a, in, out, c};
                for (size_t k = 0; k < 4; ++k) q += qlten::stub::Signed(x[i].GetIndex(k), x[i].GetIndex(k).GetQNSctFromActualCoor(at[k]).GetQn());
                if (!(q == QNT())) Fail("gen.sector", "MPO tensor " + std::to_string(i) + " has an element outside its symmetry sector");
              }
      bond.push_back(sh[3]);
    }
    if (bond.back() != 1) Fail("gen.shape", "the last bond is not trivial");
    return Product(m, bond, [&](int i, size_t a, size_t c, size_t o, size_t in) { return Zc(x[i]({a, in, o, c})); });
  }
  template<typename E> static V FromMat(const qlmps::MatReprMPO<Ten<E>> &x, const Model &m) {
    std::vector<size_t> bond{1};
    if (int(x.size()) != m.n) Fail("gen.shape", "the matrix representation has the wrong number of sites");
    for (int i = 0; i < m.n; ++i) {
      if (x[i].rows != bond.back()) Fail("gen.shape", "matrix " + std::to_string(i) + " of the matrix representation does not fit its neighbour");
      bond.push_back(x[i].cols);
    }
    if (bond.back() != 1) Fail("gen.shape", "the last bond is not trivial");
    return Product(m, bond, [&](int i, size_t a, size_t c, size_t o, size_t in) { return x[i].IsNull(a, c) ? Zc(0) : Zc(x[i](a, c)({in, o})); });
  }
  template<typename E> static Ten<E> Op(const Model &m, size_t site, const std::vector<E> &mat) {
    auto out = SiteIndex(m, int(site));
    Ten<E> t({qlten::InverseIndex(out), out});
    int d = m.d[site];
    for (int i = 0; i < d; ++i)
      for (int o = 0; o < d; ++o) if (mat[o * d + i] != E(0)) t({size_t(i), size_t(o)}) = mat[o * d + i];
    return t;
  }
  // pool of local operators: kind 0 Sz, 1 up, 2 down, 3 identity, 4 parity, 5 projector, 6/7 dense or diagonal
  template<typename E> static std::vector<E> Local(const Model &m, size_t site, int kind, long seed, bool neg) {
    int d = m.d[site];
    std::vector<double> x(d * d, 0);
    switch (kind) {
      case 0: x = OpSz(d); break;
      case 1: x = OpUp(d); break;
      case 2: x = OpDn(d); break;
      case 3: for (int i = 0; i < d; ++i) x[i * d + i] = 1; break;
      case 4: x = OpParity(d); break;
      case 5: x[0] = 1; break;
      default: {
        Rng q(Mix(uint64_t(seed), uint64_t(kind)));
        for (int i = 0; i < d; ++i)
          for (int j = 0; j < d; ++j) if (i == j || !m.u1) x[i * d + j] = q.Unit() - 0.5;
      }
    }
    std::vector<E> r;
    for (double v : x) r.push_back(Scalar<E>::Make(neg ? -v : v, 0));
    if (std::is_same<E, Zc>::value && seed % 5 == 0 && kind > 5) for (auto &v : r) v *= Scalar<E>::Make(0.6, 0.8);
    return r;
  }
  static int Charge(int kind) { return kind == 1 ? 1 : kind == 2 ? -1 : 0; }
  static double Norm(const V &a) {
    double s = 0;
    for (auto &x : a) s += std::norm(x);
    return std::sqrt(s);
  }
  struct Win {                        // allocations may fail inside
    Win() { AllocFaults(true); }
    ~Win() { AllocFaults(false); }
  };
  template<typename E> static void Check(G<E> &g, const Model &m, int how) {
    V want = Dense(g.ts, m), got;
    double scale = 1e-3;
    for (auto &t : g.ts) scale += std::abs(Zc(t.c));
    const char *nm;
    if (how == 2) {
      nm = "GenMatReprMPO";
      qlmps::MatReprMPO<Ten<E>> x;
      {
        Win w;
        x = g.g->GenMatReprMPO();
      }
      got = FromMat<E>(x, m);
    } else {
      nm = how ? "Gen(uncompressed)" : "Gen";
      std::unique_ptr<qlmps::MPO<Ten<E>>> x;
      {
        Win w;
        x = std::make_unique<qlmps::MPO<Ten<E>>>(g.g->Gen(!how));
      }
      got = FromMpo<E>(*x, m);
    }
    for (size_t i = 0; i < want.size(); ++i) got[i] -= want[i];
    double e = Norm(got);
    if (!(e < 1e-11 * scale * std::sqrt(double(want.size())))) Fail("gen.operator", std::string(nm) + " of " + std::to_string(g.ts.size()) + " terms is off by " + F(e) + " (norm " + F(Norm(want)) + ")");
    Put("terms", double(g.ts.size()));
  }
  template<typename E> static std::unique_ptr<qlmps::MPOGenerator<E, QNT>> Fresh(const Model &m, bool two) {
    auto s = Sites<E>(m);
    return two ? std::make_unique<qlmps::MPOGenerator<E, QNT>>(s) : std::make_unique<qlmps::MPOGenerator<E, QNT>>(s, Qn(0));
  }
  template<typename E> static void Body(const Model &m, const Plan &p) {
    std::vector<G<E>> gs(1);
    auto fresh = [&](G<E> &g) {
      g.g = Fresh<E>(m, p.P("mseed") % 2);
      for (auto &t : g.ts) {
        std::vector<Ten<E>> o;
        for (size_t k = 0; k < t.st.size(); ++k) o.push_back(Op<E>(m, t.st[k], t.op[k]));
        g.g->AddTerm(t.c, o, t.st);
      }
    };
    fresh(gs[0]);
    static const double cf[] = {1, 1, -1, 0.5, -0.5, 2, 0.3, 1.7, -0.25, 0.1};
    auto guarded = [&](G<E> &g, const std::function<void()> &f) {
      long b = FiredInProcess("alloc");
      bool threw = false;
      try { f(); } catch (const std::bad_alloc &) { threw = true; }
      if (threw) {
        if (FiredInProcess("alloc") == b) Fail("gen.spurious", "bad_alloc without an injected failure");
        Probe("gen.alloc_failure_reported");
        fresh(g);                                   // the generator that failed is thrown away
      }
      return !threw;
    };
    for (int k = 0; k < p.P("nops"); ++k) {
      long op = p.P("c" + std::to_string(k));
      if (op == 0) continue;
      Rng r(Mix(uint64_t(p.P("a" + std::to_string(k))), uint64_t(op)));
      size_t gi = r.Below(gs.size());
      G<E> &g = gs[gi];
      if (op == 13) {                                 // a family of related terms, as a lattice model has them
        static const int prs[][2] = {{1, 2}, {2, 1}, {0, 0}, {5, 0}, {6, 7}, {4, 0}, {0, 5}};
        int type = r.Below(3), nf = 1 + r.Below(2), left = 4 + r.Below(20);
        for (int f = 0; f < nf; ++f) {
          auto &pr = prs[r.Below(7)];
          int mid = r.Below(3) ? 3 : 4;                // string between the two: identity or parity
          int third = r.Below(2) ? 0 : 5;
          size_t cut = 1 + r.Below(m.n - 1);
          std::vector<double> cs;
          int nc = 1 + r.Below(3);
          for (int i = 0; i < nc; ++i) cs.push_back(cf[r.Below(10)]);
          double drop = r.Chance(0.5) ? 0 : 0.2;
          for (size_t i = 0; i < size_t(m.n); ++i)
            for (size_t j = i + 1; j < size_t(m.n); ++j) {
              if (left <= 0 || r.Chance(drop)) continue;
              if (type == 1 && !(i < cut && j >= cut)) continue;
              T<E> t;
              double a = type == 1 ? cs[i % nc] * (r.Chance(0.15) ? 3 : 1) : cs[r.Below(nc)];
              t.c = Scalar<E>::Make(a, 0);
              t.st.push_back(i);
              t.op.push_back(Local<E>(m, i, pr[0], 1, false));
              if (mid == 4) for (size_t q = i + 1; q < j; ++q) {
                t.st.push_back(q);
                t.op.push_back(Local<E>(m, q, 4, 0, false));
              }
              t.st.push_back(j);
              t.op.push_back(Local<E>(m, j, pr[1], 1, false));
              if (type == 2 && j + 1 < size_t(m.n)) {
                size_t q = j + 1 + r.Below(m.n - j - 1);
                t.st.push_back(q);
                t.op.push_back(Local<E>(m, q, third, 0, false));
              }
              std::vector<Ten<E>> o;
              for (size_t q = 0; q < t.st.size(); ++q) o.push_back(Op<E>(m, t.st[q], t.op[q]));
              --left;
              if (guarded(g, [&] { Win w; g.g->AddTerm(t.c, o, t.st); })) g.ts.push_back(t);
            }
        }
        continue;
      }
      if (op >= 11 || (op == 10 && gs.size() >= 2)) {
        if (g.ts.empty()) continue;
        int how = r.Below(3);
        guarded(g, [&] { Check(g, m, how); });
        continue;
      }
      if (op == 10) {
        G<E> c;
        bool ok = guarded(g, [&] { Win w; c.g = std::make_unique<qlmps::MPOGenerator<E, QNT>>(*g.g); });
        if (ok) {
          c.ts = g.ts;
          gs.push_back(std::move(c));
        }
        continue;
      }
      // ---- a new term
      T<E> t;
      double a = cf[r.Below(10)];
      t.c = Scalar<E>::Make(a, std::is_same<E, Zc>::value && r.Chance(0.4) ? cf[r.Below(10)] : 0);
      int body = op <= 3 ? 1 : op <= 7 ? 2 : 2 + r.Below(3);
      body = std::min(body, m.n);
      std::vector<size_t> all;
      for (int i = 0; i < m.n; ++i) all.push_back(i);
      for (int i = m.n - 1; i > 0; --i) std::swap(all[i], all[r.Below(i + 1)]);
      std::vector<size_t> st(all.begin(), all.begin() + body);
      std::sort(st.begin(), st.end());
      std::vector<int> kinds;
      bool neg = false;
      if (!g.ts.empty() && r.Chance(0.12)) {        // the same term once more
        auto &q = g.ts[r.Below(g.ts.size())];
        t = q;
        if (r.Chance(0.4)) t.c = Scalar<E>::Make(a, 0);
        for (size_t i = 0; i < t.st.size(); ++i)
          for (size_t j = i + 1; j < t.st.size(); ++j)
            if (t.st[j] < t.st[i]) {
              std::swap(t.st[i], t.st[j]);
              std::swap(t.op[i], t.op[j]);
            }
        st = t.st;
        kinds.assign(st.size(), 9);
      } else {
        int tot = 0;
        for (int i = 0; i < body; ++i) {
          int kd = r.Below(8);
          if (m.u1 && i == body - 1) kd = tot > 0 ? 2 : tot < 0 ? 1 : (Charge(kd) ? 0 : kd);
          else if (m.u1 && std::abs(tot + Charge(kd)) > 1) kd = 0;
          tot += Charge(kd);
          kinds.push_back(kd);
          neg = r.Chance(0.2);
          t.op.push_back(Local<E>(m, st[i], kd, r.Below(7), neg));
        }
        t.st = st;
      }
      std::vector<Ten<E>> o;
      for (size_t i = 0; i < st.size(); ++i) o.push_back(Op<E>(m, st[i], t.op[i]));
      int form = r.Below(6);
      auto ins = [&](size_t lo, size_t hi, int kd, long seed) -> Ten<E> {      // the same string operator on sites lo .. hi-1
        auto x = Local<E>(m, lo, kd, seed, false);
        for (size_t i = lo; i < hi; ++i) {
          t.st.push_back(i);
          t.op.push_back(x);
        }
        return Op<E>(m, lo, x);
      };
      auto same = [&](size_t lo, size_t hi) {
        for (size_t i = lo; i < hi; ++i) if (m.d[i] != m.d[lo]) return false;
        return true;
      };
      bool ok;
      if (st.size() == 1 && form < 3) {
        ok = guarded(g, [&] { Win w; g.g->AddTerm(t.c, o[0], st[0]); });
      } else if (st.size() == 2 && form < 2 && t.st.size() == 2) {
        bool rev = form == 1 && st[0] != 0;         // the second index must not be zero
        ok = guarded(g, [&] { Win w; rev ? g.g->AddTerm(t.c, o[1], st[1], o[0], st[0]) : g.g->AddTerm(t.c, o[0], st[0], o[1], st[1]); });
      } else if (st.size() == 2 && form == 2 && t.st.size() == 2 && st[1] > st[0] + 1 && same(st[0] + 1, st[1])) {
        std::vector<size_t> idx;
        Ten<E> in;
        bool list = r.Chance(0.4);
        long seed = r.Below(7);
        int kd = r.Chance(0.6) ? 4 : 6;
        {
          if (list) {                               // an explicit contiguous part of the string
            size_t lo = st[0] + 1 + r.Below(st[1] - st[0] - 1), hi = lo + 1 + r.Below(st[1] - lo);
            in = ins(lo, hi, kd, seed);
            for (size_t i = lo; i < hi; ++i) idx.push_back(i);
          } else in = ins(st[0] + 1, st[1], kd, seed);
        }
        ok = guarded(g, [&] { Win w; g.g->AddTerm(t.c, o[0], st[0], o[1], st[1], in, idx); });
      } else if (st.size() >= 2 && form == 3 && t.st.size() == st.size()) {
        bool can = true;
        for (size_t i = 0; i + 1 < st.size(); ++i) if (st[i + 1] > st[i] + 1 && !same(st[i] + 1, st[i + 1])) can = false;
        bool tail = r.Chance(0.4) && st.back() + 1 < size_t(m.n) && same(st.back() + 1, m.n);
        bool list = r.Chance(0.4);
        std::vector<Ten<E>> in;
        std::vector<std::vector<size_t>> sets;
        if (can) {
          for (size_t i = 0; i + 1 < st.size() + (tail ? 1 : 0); ++i) {
            size_t lo = st[i] + 1, hi = i + 1 < st.size() ? st[i + 1] : size_t(m.n);
            int kd = r.Chance(0.6) ? 4 : 6;
            long seed = r.Below(7);
            std::vector<size_t> s;
            if (lo < hi) {
              if (list) {
                hi = lo + r.Below(hi - lo + 1);
                if (hi > lo) in.push_back(ins(lo, hi, kd, seed));
                else in.push_back(Op<E>(m, lo, Local<E>(m, lo, kd, seed, false)));
              } else in.push_back(ins(lo, hi, kd, seed));
              for (size_t q = lo; q < hi; ++q) s.push_back(q);
            } else in.push_back(Op<E>(m, st[i], Local<E>(m, st[i], 3, 0, false)));   // no site in between: never used
            sets.push_back(s);
          }
        }
        // the default (empty) list of insertion sites means "every site in between"
        if (can) ok = guarded(g, [&] { Win w; list ? g.g->AddTerm(t.c, o, st, in, sets) : g.g->AddTerm(t.c, o, st, in); });
        else ok = guarded(g, [&] { Win w; g.g->AddTerm(t.c, o, st); });
      } else {
        std::vector<size_t> so = st;
        if (form == 4) {
          for (size_t i = so.size() - 1; i > 0; --i) {
            size_t j = r.Below(i + 1);
            std::swap(so[i], so[j]);
            std::swap(o[i], o[j]);
          }
        }
        ok = guarded(g, [&] { Win w; g.g->AddTerm(t.c, o, so); });
      }
      if (std::getenv("SIM_VERBOSE")) {
        fprintf(stderr, "term form %d c (%g,%g)", form, Zc(t.c).real(), Zc(t.c).imag());
        for (size_t i = 0; i < t.st.size(); ++i) {
          fprintf(stderr, " site %zu [", t.st[i]);
          for (auto &x : t.op[i]) fprintf(stderr, " (%g,%g)", Zc(x).real(), Zc(x).imag());
          fprintf(stderr, " ]");
        }
        fprintf(stderr, "\n");
      }
      if (ok) g.ts.push_back(t);
    }
    for (auto &g : gs)
      if (!g.ts.empty())
        for (int how = 0; how < 3; ++how) guarded(g, [&] { Check(g, m, how); });
  }
  void Run(Ctx &c) override {
    Plan &p = *c.plan;
    bool cx = p.P("cplx");
    Model m = MakeModel(p.P("n"), p.P("u1"), p.P("mseed"), false, p.P("spin1"), 0);
    auto body = [&] { cx ? Body<Zc>(m, p) : Body<double>(m, p); };
    Outcome o = c.Process("fault-free", 0, false, body);
    if (o.kind == FAIL) Violate(o.cls, o.msg);
    if (!o.Ok()) Violate("gen.run-failed", std::string(KindName(o.kind)) + " " + o.msg);
    if (o.num["terms"] >= 2) c.nontrivial = 1;
    if (p.faults.empty()) return;
    c.Resolve(0, o);
    Outcome f = c.Process("with failing allocations", 0, true, body);
    if (f.kind == FAIL) Violate(f.cls, "with failing allocations: " + f.msg);
    if (!f.Ok()) Violate("gen.alloc-crash", std::string("with failing allocations: ") + KindName(f.kind) + " " + f.msg);
  }
  std::vector<std::string> RealComponents() override { return {"qlmps MPOGenerator, FSM, symbolic operator algebra, SparMat"}; }
  std::vector<std::string> StubComponents() override { return {"TensorToolkit (dense block-checked stand-in)", "operator new (seeded failures)"}; }
};
}
sim::Harness *sim::MakeHarness() { return new H; }
