// Shared by the algorithm harnesses: seeded spin-chain models, dense reference, stored-MPS inspection.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include "qlten/qlten.h"
#include "sim.h"
#include <cmath>
#include <fstream>
#include <complex>
#include <set>
namespace vh {
using namespace sim;
using Zc = std::complex<double>;
using QNT = qlten::special_qn::U1QN;
using IdxT = qlten::Index<QNT>;
using qlten::QNSector;

inline QNT Qn(int v) { return QNT({qlten::QNCard("Sz", qlten::U1QNVal(v))}); }
inline int QnVal(const QNT &q) {
  for (int v = -64; v <= 64; ++v) if (q == Qn(v)) return v;
  return 1000;
}

template<typename E> struct Scalar;
template<> struct Scalar<double> {
  static double Make(double a, double) { return a; }
};
template<> struct Scalar<Zc> {
  static Zc Make(double a, double b) { return Zc(a, b); }
};

// ------------------------------------------------------------------ models
// Local operator as a dense matrix m[out * d + in]; the tensor's axis 0 (IN) is contracted with the ket.
struct Term {
  Zc c;
  std::vector<int> site;
  std::vector<std::vector<double>> op;   // real local matrices
  std::vector<double> jw;                // diagonal string operator between the first two sites; empty: none
  bool has_jw = false;
};
struct Model {
  int n = 0;
  bool u1 = false;
  int few = 0;                           // if positive: only sectors of about this many raised sites are used
  std::vector<int> d;                    // local dimensions
  std::vector<std::vector<int>> q;       // quantum number of each local state
  std::vector<Term> terms;
  long Dim() const {
    long r = 1;
    for (int x : d) r *= x;
    return r;
  }
  std::vector<int> Digits(long k) const {
    std::vector<int> r(n);
    for (int i = n - 1; i >= 0; --i) {
      r[i] = k % d[i];
      k /= d[i];
    }
    return r;
  }
  int Charge(long k) const {
    auto g = Digits(k);
    int s = 0;
    for (int i = 0; i < n; ++i) s += q[i][g[i]];
    return s;
  }
  std::vector<long> Sector(int charge) const {
    std::vector<long> r;
    for (long k = 0; k < Dim(); ++k) if (Charge(k) == charge) r.push_back(k);
    return r;
  }
};
// spin operators of local dimension d
inline std::vector<double> OpSz(int d) {
  std::vector<double> m(d * d, 0);
  for (int i = 0; i < d; ++i) m[i * d + i] = (d - 1) / 2.0 - i;
  return m;
}
inline std::vector<double> OpUp(int d) {   // raises: |i-1><i|
  std::vector<double> m(d * d, 0);
  double s = (d - 1) / 2.0;
  for (int i = 1; i < d; ++i) {
    double mz = s - i;
    m[(i - 1) * d + i] = std::sqrt(s * (s + 1) - mz * (mz + 1));
  }
  return m;
}
inline std::vector<double> OpDn(int d) {
  auto u = OpUp(d);
  std::vector<double> m(d * d);
  for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) m[i * d + j] = u[j * d + i];
  return m;
}
inline std::vector<double> MatMul(const std::vector<double> &a, const std::vector<double> &b, int d) {
  std::vector<double> m(d * d, 0);
  for (int i = 0; i < d; ++i) for (int k = 0; k < d; ++k) for (int j = 0; j < d; ++j) m[i * d + j] += a[i * d + k] * b[k * d + j];
  return m;
}
inline std::vector<double> OpParity(int d) {
  std::vector<double> m(d * d, 0);
  for (int i = 0; i < d; ++i) m[i * d + i] = (i % 2) ? -1 : 1;
  return m;
}

// The structure of a JSON text of nested arrays of numbers: blanks removed, every number an 'n'. Values go to num.
inline std::string JsonShape(const std::string &s, std::vector<double> &num) {
  std::string sh;
  for (size_t i = 0; i < s.size();) {
    if (isspace((unsigned char) s[i])) { ++i; continue; }
    if (isdigit((unsigned char) s[i]) || s[i] == '-' || s[i] == 'n' || s[i] == 'i') {
      char *e;
      double v = strtod(s.c_str() + i, &e);
      if (e != s.c_str() + i) {
        num.push_back(v);
        sh += 'n';
        i = e - s.c_str();
        continue;
      }
    }
    sh += s[i++];
  }
  return sh;
}
inline std::string JsonVec(size_t k) {
  std::string r = "[";
  for (size_t i = 0; i < k; ++i) r += i ? ",n" : "n";
  return r + "]";
}

// chains beyond 8 sites only in sectors of few raised sites
inline int ChainLength(const Plan &p) { return int(p.P("few") ? p.P("n") : std::min<long>(p.P("n"), 8)); }
// par: n (sites), u1 (0/1), mseed, cplx (complex couplings), spin1 (number of spin-1 sites allowed), kind
inline Model MakeModel(int n, bool u1, long mseed, bool cplx, int spin1, int kind) {
  Model m;
  m.n = n;
  m.u1 = u1;
  Rng r(Mix(uint64_t(mseed), 0x4d6f));
  m.d.assign(n, 2);
  for (int k = 0; k < spin1; ++k) m.d[r.Below(n)] = 3;
  m.q.resize(n);
  for (int i = 0; i < n; ++i)
    for (int s = 0; s < m.d[i]; ++s) m.q[i].push_back(u1 ? (m.d[i] - 1 - 2 * s) : 0);
  auto add = [&](Zc c, std::vector<int> st, std::vector<std::vector<double>> ops, bool herm_conj, bool jw) {
    Term t;
    t.c = c;
    t.site = st;
    t.op = ops;
    t.has_jw = jw;
    m.terms.push_back(t);
    if (herm_conj) {
      Term h = t;
      h.c = std::conj(c);
      for (size_t k = 0; k < st.size(); ++k) {
        int d = m.d[st[k]];
        for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) h.op[k][i * d + j] = t.op[k][j * d + i];
      }
      m.terms.push_back(h);
    }
  };
  auto pair = [&](int i, int j, double jz, double jp, double ph, bool jw) {
    int a = m.d[i], b = m.d[j];
    if (jz != 0) add(jz, {i, j}, {OpSz(a), OpSz(b)}, false, false);
    if (jp != 0) add(cplx ? std::polar(0.5 * jp, ph) : Zc(0.5 * jp), {i, j}, {OpUp(a), OpDn(b)}, true, jw);
  };
  // kind 0: random nearest neighbour, 1: long range, 2: uniform Heisenberg, 3: fermion-like strings, 4: with 3-body
  // 5: hops over two and three sites only, which no two-site or single-site update of a product state can make
  if (kind == 5)
    for (int i = 0; i < n; ++i)
      for (int h = 2; h <= 3; ++h)
        if (i + h < n) pair(i, i + h, 0, 0.7 + 0.6 * r.Unit(), r.Unit() * 6.28, false);
  if (kind != 5) for (int i = 0; i + 1 < n; ++i) {
    double jz = kind == 2 ? 1 : 0.4 + r.Unit(), jp = kind == 2 ? 1 : 0.5 + r.Unit();
    if (kind != 2 && r.Chance(0.5)) jz = -jz;
    pair(i, i + 1, jz, jp, r.Unit() * 6.28, kind == 3 && r.Chance(0.6));
  }
  if (kind == 1 || kind == 3 || kind == 4)
    for (int i = 0; i < n; ++i)
      for (int j = i + 2; j < n; ++j)
        if (r.Chance(kind == 1 ? 0.5 : 0.3))
          pair(i, j, r.Chance(0.5) ? r.Unit() - 0.5 : 0, r.Chance(0.7) ? r.Unit() - 0.5 : 0, r.Unit() * 6.28, kind == 3);
  if (kind == 4)
    for (int i = 0; i + 2 < n; ++i)
      if (r.Chance(0.6)) {
        int k = i + 2 + r.Below(n - i - 2);
        int j = i + 1 + r.Below(k - i - 1);
        add(0.8 * (r.Unit() - 0.5), {i, j, k}, {OpSz(m.d[i]), OpSz(m.d[j]), OpSz(m.d[k])}, false, false);
        if (r.Chance(0.5)) add(0.5 * (r.Unit() - 0.5), {i, j, k}, {OpUp(m.d[i]), OpSz(m.d[j]), OpDn(m.d[k])}, true, false);
      }
  if (kind != 2 || r.Chance(0.5))
    for (int i = 0; i < n; ++i) {
      add(0.3 * (r.Unit() - 0.5), {i}, {OpSz(m.d[i])}, false, false);
      if (!u1 && r.Chance(0.6)) {
        add(0.4 * (r.Unit() - 0.5), {i}, {OpUp(m.d[i])}, true, false);
      }
    }
  if (!u1) for (int i = 0; i + 1 < n; ++i)
      if (r.Chance(0.4)) add(0.4 * (r.Unit() - 0.5), {i, i + 1}, {OpUp(m.d[i]), OpUp(m.d[i + 1])}, true, false);
  return m;
}

// y += H x
inline std::vector<Zc> Apply(const Model &m, const std::vector<Zc> &x) {
  std::vector<Zc> y(x.size(), 0);
  std::vector<long> stride(m.n, 1);
  for (int i = m.n - 2; i >= 0; --i) stride[i] = stride[i + 1] * m.d[i + 1];
  for (auto &t : m.terms) {
    for (long k = 0; k < long(x.size()); ++k) {
      if (x[k] == Zc(0)) continue;
      auto g = m.Digits(k);
      double sgn = 1;
      if (t.has_jw)
        for (int i = t.site.front() + 1; i < t.site.back(); ++i) sgn *= (g[i] % 2) ? -1 : 1;
      // product of local operators: enumerate outputs
      std::vector<std::pair<long, double>> o{{k, sgn}};
      for (size_t a = 0; a < t.site.size(); ++a) {
        int s = t.site[a], d = m.d[s];
        std::vector<std::pair<long, double>> no;
        for (auto &e : o)
          for (int p = 0; p < d; ++p) {
            double v = t.op[a][p * d + g[s]];
            if (v != 0) no.push_back({e.first + (p - g[s]) * stride[s], e.second * v});
          }
        o.swap(no);
      }
      for (auto &e : o) y[e.first] += t.c * e.second * x[k];
    }
  }
  return y;
}
inline double Norm(const std::vector<Zc> &x) {
  double s = 0;
  for (auto &v : x) s += std::norm(v);
  return std::sqrt(s);
}
inline Zc Dot(const std::vector<Zc> &a, const std::vector<Zc> &b) {
  Zc s = 0;
  for (size_t i = 0; i < a.size(); ++i) s += std::conj(a[i]) * b[i];
  return s;
}
struct Spectrum {
  std::vector<long> basis;
  std::vector<double> w;
  std::vector<Zc> v;          // columns
  std::vector<Zc> Vec(const Model &m, int k) const {
    std::vector<Zc> x(m.Dim(), 0);
    for (size_t i = 0; i < basis.size(); ++i) x[basis[i]] = v[i * basis.size() + k];
    return x;
  }
};
inline Spectrum Diag(const Model &m, int charge) {
  Spectrum s;
  s.basis = m.Sector(charge);
  size_t n = s.basis.size();
  std::vector<Zc> h(n * n, 0), x(m.Dim(), 0);
  for (size_t j = 0; j < n; ++j) {
    x[s.basis[j]] = 1;
    auto y = Apply(m, x);
    x[s.basis[j]] = 0;
    for (size_t i = 0; i < n; ++i) h[i * n + j] = y[s.basis[i]];
  }
  sim::Eigh(n, h.data(), s.w, s.v);
  return s;
}

// ------------------------------------------------------------------ library objects
template<typename E> using Ten = qlten::QLTensor<E, QNT>;
inline IdxT SiteIndex(const Model &m, int i) {
  if (!m.u1) return IdxT({QNSector<QNT>(Qn(0), m.d[i])}, qlten::TenIndexDirType::OUT);
  std::vector<QNSector<QNT>> v;
  for (int s = 0; s < m.d[i]; ++s) v.push_back(QNSector<QNT>(Qn(m.q[i][s]), 1));
  return IdxT(v, qlten::TenIndexDirType::OUT);
}
template<typename E>
Ten<E> LocalOp(const Model &m, int site, const std::vector<double> &mat) {
  auto out = SiteIndex(m, site);
  Ten<E> t({qlten::InverseIndex(out), out});
  int d = m.d[site];
  for (int i = 0; i < d; ++i)
    for (int o = 0; o < d; ++o)
      if (mat[o * d + i] != 0) t(size_t(i), size_t(o)) = E(mat[o * d + i]);
  return t;
}
inline std::string TenName(const std::string &dir, int i) { return dir + "/mps_ten" + std::to_string(i) + ".qlten"; }

// ------------------------------------------------------------------ stored MPS
template<typename E>
struct Stored {
  std::vector<Ten<E>> t;
  std::string err;
  bool ok() const { return err.empty(); }
};
template<typename E>
Stored<E> LoadStored(const std::string &dir, int n) {
  Stored<E> s;
  s.t.resize(n);
  for (int i = 0; i < n; ++i) {
    std::ifstream f(TenName(dir, i), std::ios::binary);
    if (!f.good()) {
      s.err = "site file " + std::to_string(i) + " is missing";
      return s;
    }
    try {
      f >> s.t[i];
    } catch (const std::exception &e) {
      s.err = "site file " + std::to_string(i) + " is unreadable: " + e.what();
      return s;
    }
    if (f.fail() || s.t[i].IsDefault() || s.t[i].Rank() != 3) {
      s.err = "site file " + std::to_string(i) + " is truncated or not a site tensor";
      return s;
    }
    f.peek();
    if (!f.eof()) {
      s.err = "site file " + std::to_string(i) + " has trailing data";
      return s;
    }
  }
  return s;
}
template<typename E>
std::string ShapeErr(const Stored<E> &s, const Model &m) {
  for (int i = 0; i < m.n; ++i) {
    auto &sh = s.t[i].GetShape();
    if (int(sh[1]) != m.d[i]) return "site " + std::to_string(i) + " has the wrong physical dimension";
    if (i == 0 && sh[0] != 1) return "left boundary bond is not 1";
    if (i == m.n - 1 && sh[2] != 1) return "right boundary bond is not 1";
    if (i > 0 && (s.t[i - 1].GetShape()[2] != sh[0] ||
        !(s.t[i - 1].GetIndexes()[2] == qlten::InverseIndex(s.t[i].GetIndexes()[0]))))
      return "bond " + std::to_string(i - 1) + "-" + std::to_string(i) + " does not match";
  }
  return "";
}
template<typename E>
std::vector<Zc> Dense(const Stored<E> &s, const Model &m) {
  std::vector<Zc> cur{1};     // [left basis][bond]
  size_t D = 1;
  for (int i = 0; i < m.n; ++i) {
    auto &t = s.t[i];
    size_t d = t.GetShape()[1], R = t.GetShape()[2], L = cur.size() / D;
    std::vector<Zc> mat(D * d * R), nx(L * d * R, 0);
    for (size_t a = 0; a < D; ++a)
      for (size_t p = 0; p < d; ++p)
        for (size_t b = 0; b < R; ++b) mat[(a * d + p) * R + b] = t.GetElem({a, p, b});
    sim::Gemm(L, d * R, D, cur.data(), mat.data(), nx.data());
    cur.swap(nx);
    D = R;
  }
  return cur;
}
// deviation from left / right isometry
template<typename E>
double IsoErr(const Ten<E> &t, bool left) {
  auto &s = t.GetShape();
  size_t n = left ? s[2] : s[0];
  double worst = 0;
  for (size_t a = 0; a < n; ++a)
    for (size_t b = 0; b < n; ++b) {
      Zc x = 0;
      if (left) {
        for (size_t i = 0; i < s[0]; ++i) for (size_t p = 0; p < s[1]; ++p) x += std::conj(Zc(t.GetElem({i, p, a}))) * Zc(t.GetElem({i, p, b}));
      } else {
        for (size_t i = 0; i < s[2]; ++i) for (size_t p = 0; p < s[1]; ++p) x += std::conj(Zc(t.GetElem({a, p, i}))) * Zc(t.GetElem({b, p, i}));
      }
      worst = std::max(worst, std::abs(x - Zc(a == b ? 1 : 0)));
    }
  return worst;
}
template<typename E>
size_t MaxBond(const Stored<E> &s) {
  size_t r = 1;
  for (auto &t : s.t) r = std::max(r, t.GetShape()[2]);
  return r;
}
// writes the state x (in sector charge) as a right-canonical MPS with centre 0
template<typename E>
std::vector<Ten<E>> MpsOf(const Model &m, const std::vector<Zc> &x, int charge, size_t Dmax = 4096, double cut = 0) {
  using namespace qlten;
  std::vector<IdxT> idx;
  idx.push_back(IdxT({QNSector<QNT>(Qn(0), 1)}, TenIndexDirType::IN));
  for (int i = 0; i < m.n; ++i) idx.push_back(SiteIndex(m, i));
  idx.push_back(IdxT({QNSector<QNT>(Qn(0), 1)}, TenIndexDirType::OUT));
  Ten<E> psi(idx);
  for (long k = 0; k < m.Dim(); ++k) {
    if (x[k] == Zc(0)) continue;
    auto g = m.Digits(k);
    std::vector<size_t> c(m.n + 2, 0);
    for (int i = 0; i < m.n; ++i) c[i + 1] = g[i];
    psi.SetElem(c, Scalar<E>::Make(x[k].real(), x[k].imag()));
  }
  std::vector<Ten<E>> r(m.n);
  for (int i = m.n - 1; i > 0; --i) {
    Ten<E> u, vt, us;
    QLTensor<double, QNT> s;
    double te;
    size_t D;
    SVD(&psi, i + 1, Qn(charge), cut, 1, Dmax, &u, &s, &vt, &te, &D);
    r[i] = vt;
    Contract(&u, &s, {{size_t(i + 1)}, {0}}, &us);
    psi = std::move(us);
  }
  r[0] = psi;
  r[0].Normalize();
  return r;
}
template<typename E>
void WriteMps(const std::string &dir, const std::vector<Ten<E>> &t) {
  NoFaults nf;
  MkDir(dir);
  for (size_t i = 0; i < t.size(); ++i) {
    std::ofstream f(TenName(dir, i), std::ios::binary);
    f << t[i];
  }
}
// random state of a sector; real if E is real
template<typename E>
std::vector<Zc> RandomState(const Model &m, int charge, uint64_t seed) {
  Rng r(seed);
  std::vector<Zc> x(m.Dim(), 0);
  for (long k : m.Sector(charge)) x[k] = Zc(r.Normal(), std::is_same_v<E, double> ? 0 : r.Normal());
  double n = Norm(x);
  for (auto &v : x) v /= n;
  return x;
}
// seeded basis state labels and their charge (a sector of moderate size)
inline std::vector<size_t> Labels(const Model &m, uint64_t seed) {
  Rng r(seed);
  if (m.few) {             // a long chain with a few raised sites
    std::vector<size_t> l(m.n, 0);
    for (int k = 0; k < m.few;) {
      auto &x = l[r.Below(m.n)];
      if (!x) x = 1, ++k;
    }
    return l;
  }
  std::vector<size_t> best;
  size_t size = 0;
  for (int k = 0; k < 4; ++k) {
    std::vector<size_t> l;
    int c = 0;
    for (int i = 0; i < m.n; ++i) {
      l.push_back(k == 0 ? i % 2 : r.Below(m.d[i]));
      c += m.q[i][l.back()];
    }
    size_t s = m.Sector(c).size();
    if (best.empty() || (s >= 6 && r.Chance(0.5))) {
      best = l;
      size = s;
    }
  }
  (void) size;
  return best;
}
inline int ChargeOf(const Model &m, const std::vector<size_t> &l) {
  int c = 0;
  for (int i = 0; i < m.n; ++i) c += m.q[i][l[i]];
  return c;
}
// largest bond dimension the chain can need
inline size_t FullBond(const Model &m) {
  if (m.few) return m.few == 1 ? 2 : 8;
  long l = 1, best = 1;
  for (int i = 0; i + 1 < m.n; ++i) {
    l *= m.d[i];
    best = std::max(best, std::min(l, m.Dim() / l));
  }
  return size_t(best);
}
struct MpsReport {
  std::string err;      // empty: complete and loadable
  double norm = 0, energy = 0, leak = 0;
  std::vector<double> left, right;
  size_t bond = 0;
  std::vector<Zc> x;
};
template<typename E>
MpsReport Inspect(const std::string &dir, const Model &m, int charge) {
  MpsReport r;
  auto s = LoadStored<E>(dir, m.n);
  r.err = s.err;
  if (!s.ok()) return r;
  r.err = ShapeErr(s, m);
  if (!r.err.empty()) return r;
  r.x = Dense(s, m);
  r.norm = Norm(r.x);
  if (!(r.norm > 0) || std::isnan(r.norm) || std::isinf(r.norm)) {
    r.err = "the stored state has no finite norm";
    return r;
  }
  r.energy = Dot(r.x, Apply(m, r.x)).real() / (r.norm * r.norm);
  double in = 0;
  for (long k : m.Sector(charge)) in += std::norm(r.x[k]);
  r.leak = std::abs(1 - in / (r.norm * r.norm));
  for (auto &t : s.t) {
    r.left.push_back(IsoErr(t, true));
    r.right.push_back(IsoErr(t, false));
  }
  r.bond = MaxBond(s);
  return r;
}
inline double CentreErr(const MpsReport &r, int c) {
  double w = 0;
  for (int i = 0; i < int(r.left.size()); ++i) {
    if (i < c) w = std::max(w, r.left[i]);
    if (i > c) w = std::max(w, r.right[i]);
  }
  return w;
}
inline std::string F(double x) {
  char b[40];
  snprintf(b, sizeof b, "%.10g", x);
  return b;
}
}
#endif
