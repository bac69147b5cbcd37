// Small dense linear algebra for the tensor stand-in and the dense references (no external library).
#include "sim/linalg.h"
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <limits>
#include <numeric>
#include "mkl.h"
namespace sim { void Work(const char *what); }
namespace sim {
typedef std::complex<double> C;
static inline double Cj(double x) { return x; }
static inline C Cj(const C &x) { return C(x.real(), -x.imag()); }
static inline double N2(double x) { return x * x; }
static inline double N2(const C &x) { return x.real() * x.real() + x.imag() * x.imag(); }

// one-sided Jacobi on the columns of a (r >= c): a = u * s * vt
template<typename T>
static void JacobiTall(size_t r, size_t c, const T *a, std::vector<T> &u, std::vector<double> &s, std::vector<T> &v) {
  std::vector<std::vector<T>> w(c, std::vector<T>(r)), V(c, std::vector<T>(c, T(0)));   // stored by column
  for (size_t j = 0; j < c; ++j) {
    for (size_t i = 0; i < r; ++i) w[j][i] = a[i * c + j];
    V[j][j] = T(1);
  }
  double fro = 0;
  for (auto &col : w) for (auto &x : col) fro += N2(x);
  for (int sweep = 0; sweep < 60; ++sweep) {
    bool rot = false;
    for (size_t p = 0; p + 1 < c; ++p)
      for (size_t q = p + 1; q < c; ++q) {
        double al = 0, be = 0;
        T g(0);
        for (size_t i = 0; i < r; ++i) {
          al += N2(w[p][i]);
          be += N2(w[q][i]);
          g += Cj(w[p][i]) * w[q][i];
        }
        double ag = std::abs(g);
        if (ag <= 1e-15 * std::sqrt(al * be) || ag <= 1e-32 * fro || ag == 0) continue;
        rot = true;
        T ph = g / ag;
        double z = (be - al) / (2 * ag);
        double t = (z >= 0 ? 1.0 : -1.0) / (std::abs(z) + std::sqrt(1 + z * z));
        double cs = 1 / std::sqrt(1 + t * t), sn = cs * t;
        for (size_t i = 0; i < r; ++i) {
          T x = w[p][i], y = Cj(ph) * w[q][i];
          w[p][i] = cs * x - sn * y;
          w[q][i] = sn * x + cs * y;
        }
        for (size_t i = 0; i < c; ++i) {
          T x = V[p][i], y = Cj(ph) * V[q][i];
          V[p][i] = cs * x - sn * y;
          V[q][i] = sn * x + cs * y;
        }
      }
    if (!rot) break;
  }
  std::vector<double> nn(c);
  for (size_t j = 0; j < c; ++j) {
    double t = 0;
    for (auto &x : w[j]) t += N2(x);
    nn[j] = std::sqrt(t);
  }
  std::vector<size_t> o(c);
  std::iota(o.begin(), o.end(), 0);
  std::stable_sort(o.begin(), o.end(), [&](size_t x, size_t y) { return nn[x] > nn[y]; });
  u.assign(r * c, T(0));
  v.assign(c * c, T(0));
  s.assign(c, 0);
  std::vector<std::vector<T>> cols;
  for (size_t k = 0; k < c; ++k) {
    size_t j = o[k];
    s[k] = nn[j];
    std::vector<T> col(r, T(0));
    bool ok = nn[j] > 1e-150 && nn[j] > 1e-14 * nn[o[0]];
    if (ok) {
      for (size_t i = 0; i < r; ++i) col[i] = w[j][i] / nn[j];
      if (nn[j] < 1e-8 * nn[o[0]]) {   // tiny singular values: make the vector orthonormal as LAPACK would
        for (int rep = 0; rep < 2 && ok; ++rep) {
          for (auto &p : cols) {
            T d(0);
            for (size_t i = 0; i < r; ++i) d += Cj(p[i]) * col[i];
            for (size_t i = 0; i < r; ++i) col[i] -= d * p[i];
          }
          double n = 0;
          for (auto &x : col) n += N2(x);
          n = std::sqrt(n);
          if (n < 0.5) ok = false;
          else for (auto &x : col) x /= n;
        }
      }
    }
    if (!ok) {   // any unit vector orthogonal to the previous ones
      for (size_t e = 0; e < r; ++e) {
        std::fill(col.begin(), col.end(), T(0));
        col[e] = T(1);
        for (int rep = 0; rep < 2; ++rep)
          for (auto &p : cols) {
            T d(0);
            for (size_t i = 0; i < r; ++i) d += Cj(p[i]) * col[i];
            for (size_t i = 0; i < r; ++i) col[i] -= d * p[i];
          }
        double n = 0;
        for (auto &x : col) n += N2(x);
        if (n > 0.5 / r) {
          n = std::sqrt(n);
          for (auto &x : col) x /= n;
          break;
        }
      }
    }
    for (size_t i = 0; i < r; ++i) u[i * c + k] = col[i];
    cols.push_back(col);
    for (size_t i = 0; i < c; ++i) v[k * c + i] = Cj(V[j][i]);
  }
}
template<typename T>
static void SvdT(size_t r, size_t c, const T *a, std::vector<T> &u, std::vector<double> &s, std::vector<T> &vt) {
  if (r >= c) {
    JacobiTall(r, c, a, u, s, vt);
    return;
  }
  std::vector<T> ad(r * c), u2, v2;
  for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) ad[j * r + i] = Cj(a[i * c + j]);
  JacobiTall(c, r, ad.data(), u2, s, v2);     // a^+ = u2 s v2  ->  a = v2^+ s u2^+
  u.assign(r * r, T(0));
  vt.assign(r * c, T(0));
  for (size_t i = 0; i < r; ++i) for (size_t k = 0; k < r; ++k) u[i * r + k] = Cj(v2[k * r + i]);
  for (size_t k = 0; k < r; ++k) for (size_t j = 0; j < c; ++j) vt[k * c + j] = Cj(u2[j * r + k]);
}
void Svd(size_t r, size_t c, const double *a, std::vector<double> &u, std::vector<double> &s, std::vector<double> &vt) { SvdT(r, c, a, u, s, vt); }
void Svd(size_t r, size_t c, const C *a, std::vector<C> &u, std::vector<double> &s, std::vector<C> &vt) { SvdT(r, c, a, u, s, vt); }

// Householder QR, thin: q (r x k), rr (k x c), k = min(r, c)
template<typename T>
static void QrT(size_t r, size_t c, const T *a, std::vector<T> &q, std::vector<T> &rr) {
  size_t k = std::min(r, c);
  std::vector<T> m(a, a + r * c);
  std::vector<std::vector<T>> hv(k);
  for (size_t j = 0; j < k; ++j) {
    double nx = 0;
    for (size_t i = j; i < r; ++i) nx += N2(m[i * c + j]);
    nx = std::sqrt(nx);
    std::vector<T> v(r, T(0));
    if (nx > 0) {
      T x0 = m[j * c + j];
      T ph = std::abs(x0) > 0 ? x0 / std::abs(x0) : T(1);
      for (size_t i = j; i < r; ++i) v[i] = m[i * c + j];
      v[j] += ph * nx;
      double nv = 0;
      for (auto &x : v) nv += N2(x);
      nv = std::sqrt(nv);
      for (auto &x : v) x /= nv;
      for (size_t l = j; l < c; ++l) {
        T d(0);
        for (size_t i = j; i < r; ++i) d += Cj(v[i]) * m[i * c + l];
        for (size_t i = j; i < r; ++i) m[i * c + l] -= 2.0 * d * v[i];
      }
    }
    hv[j] = v;
  }
  rr.assign(k * c, T(0));
  for (size_t i = 0; i < k; ++i) for (size_t j = i; j < c; ++j) rr[i * c + j] = m[i * c + j];
  q.assign(r * k, T(0));
  for (size_t i = 0; i < k; ++i) q[i * k + i] = T(1);
  for (size_t j = k; j-- > 0;)
    for (size_t l = 0; l < k; ++l) {
      T d(0);
      for (size_t i = j; i < r; ++i) d += Cj(hv[j][i]) * q[i * k + l];
      for (size_t i = j; i < r; ++i) q[i * k + l] -= 2.0 * d * hv[j][i];
    }
}
void Qr(size_t r, size_t c, const double *a, std::vector<double> &q, std::vector<double> &rr) { QrT(r, c, a, q, rr); }
void Qr(size_t r, size_t c, const C *a, std::vector<C> &q, std::vector<C> &rr) { QrT(r, c, a, q, rr); }

// implicit QL on a real symmetric tridiagonal matrix; z: nz rows, columns rotated along
template<typename T>
static bool Tql(size_t n, std::vector<double> &d, std::vector<double> &e, T *z, size_t nz, size_t ldz) {
  e.resize(n, 0);
  for (size_t l = 0; l < n; ++l) {
    int it = 0;
    while (true) {
      size_t m = l;
      for (; m + 1 < n; ++m) {
        double dd = std::abs(d[m]) + std::abs(d[m + 1]);
        if (std::abs(e[m]) <= std::numeric_limits<double>::epsilon() * dd) break;
      }
      if (m == l) break;
      if (it++ == 200) return false;
      double g = (d[l + 1] - d[l]) / (2 * e[l]), r = std::hypot(g, 1.0);
      g = d[m] - d[l] + e[l] / (g + (g >= 0 ? std::abs(r) : -std::abs(r)));
      double s = 1, c = 1, p = 0;
      bool brk = false;
      for (size_t i = m; i-- > l;) {
        double f = s * e[i], b = c * e[i];
        r = std::hypot(f, g);
        e[i + 1] = r;
        if (r == 0) {
          d[i + 1] -= p;
          e[m] = 0;
          brk = true;
          break;
        }
        s = f / r;
        c = g / r;
        g = d[i + 1] - p;
        r = (d[i] - g) * s + 2 * c * b;
        p = s * r;
        d[i + 1] = g + p;
        g = c * r - b;
        for (size_t k = 0; k < nz; ++k) {
          T f2 = z[k * ldz + i + 1];
          z[k * ldz + i + 1] = s * z[k * ldz + i] + c * f2;
          z[k * ldz + i] = c * z[k * ldz + i] - s * f2;
        }
      }
      if (brk) continue;
      d[l] -= p;
      e[l] = g;
      e[m] = 0;
    }
  }
  return true;
}
template<typename T>
static void SortEig(size_t n, std::vector<double> &d, T *z, size_t nz, size_t ldz) {
  std::vector<size_t> o(n);
  std::iota(o.begin(), o.end(), 0);
  std::stable_sort(o.begin(), o.end(), [&](size_t x, size_t y) { return d[x] < d[y]; });
  std::vector<double> dd(n);
  for (size_t k = 0; k < n; ++k) dd[k] = d[o[k]];
  d = dd;
  std::vector<T> row(n);
  for (size_t i = 0; i < nz; ++i) {
    for (size_t k = 0; k < n; ++k) row[k] = z[i * ldz + o[k]];
    for (size_t k = 0; k < n; ++k) z[i * ldz + k] = row[k];
  }
}
void Eigh(size_t n, const C *a0, std::vector<double> &w, std::vector<C> &v) {
  std::vector<C> a(a0, a0 + n * n);
  v.assign(n * n, C(0));
  for (size_t i = 0; i < n; ++i) v[i * n + i] = C(1);
  std::vector<C> x(n), p(n);
  for (size_t k = 0; k + 2 < n; ++k) {
    double nx = 0;
    for (size_t i = k + 1; i < n; ++i) nx += N2(a[i * n + k]);
    nx = std::sqrt(nx);
    double tail = 0;
    for (size_t i = k + 2; i < n; ++i) tail += N2(a[i * n + k]);
    if (tail == 0) continue;
    C x0 = a[(k + 1) * n + k];
    C ph = std::abs(x0) > 0 ? x0 / std::abs(x0) : C(1);
    std::fill(x.begin(), x.end(), C(0));
    for (size_t i = k + 1; i < n; ++i) x[i] = a[i * n + k];
    x[k + 1] += ph * nx;
    double nv = 0;
    for (auto &t : x) nv += N2(t);
    nv = std::sqrt(nv);
    for (auto &t : x) t /= nv;
    // A <- H A H, H = 1 - 2 x x^+
    C kk(0);
    for (size_t i = 0; i < n; ++i) {
      C s(0);
      for (size_t j = k + 1; j < n; ++j) s += a[i * n + j] * x[j];
      p[i] = s;
    }
    for (size_t i = k + 1; i < n; ++i) kk += Cj(x[i]) * p[i];
    for (size_t i = 0; i < n; ++i) p[i] = 2.0 * (p[i] - kk * x[i]);   // w = 2(Ax - (x^+Ax)x)
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j) {
        if (x[j] != C(0)) a[i * n + j] -= p[i] * Cj(x[j]);
        if (x[i] != C(0)) a[i * n + j] -= x[i] * Cj(p[j]);
      }
    for (size_t i = 0; i < n; ++i) {
      C s(0);
      for (size_t j = k + 1; j < n; ++j) s += v[i * n + j] * x[j];
      s *= 2.0;
      for (size_t j = k + 1; j < n; ++j) v[i * n + j] -= s * Cj(x[j]);
    }
  }
  w.assign(n, 0);
  std::vector<double> e(n, 0);
  std::vector<C> phs(n, C(1));
  for (size_t i = 0; i < n; ++i) w[i] = a[i * n + i].real();
  for (size_t i = 0; i + 1 < n; ++i) {
    C t = a[(i + 1) * n + i];
    e[i] = std::abs(t);
    phs[i + 1] = phs[i] * (e[i] > 0 ? t / e[i] : C(1));
  }
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) v[i * n + j] *= phs[j];
  Tql(n, w, e, v.data(), n, n);
  SortEig(n, w, v.data(), n, n);
}
} // sim

extern "C" lapack_int LAPACKE_dstev(int layout, char jobz, lapack_int n, double *d, double *e, double *z, lapack_int ldz) {
  sim::Work("lapack.dstev");
  if (n < 0) return -3;
  if (n == 0) return 0;
  bool vec = jobz == 'V' || jobz == 'v';
  for (int i = 0; i < n; ++i) if (!std::isfinite(d[i])) return -4;
  for (int i = 0; i + 1 < n; ++i) if (!std::isfinite(e[i])) return -5;
  std::vector<double> dd(d, d + n), ee(e, e + (n > 1 ? n - 1 : 0)), zz(size_t(n) * n, 0.0);
  for (int i = 0; i < n; ++i) zz[size_t(i) * n + i] = 1;
  if (!sim::Tql<double>(n, dd, ee, zz.data(), vec ? n : 0, n)) return 1;
  sim::SortEig(n, dd, zz.data(), vec ? n : 0, n);
  std::copy(dd.begin(), dd.end(), d);
  if (vec)
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) {
        if (layout == LAPACK_ROW_MAJOR) z[size_t(i) * ldz + j] = zz[size_t(i) * n + j];
        else z[size_t(j) * ldz + i] = zz[size_t(i) * n + j];
      }
  return 0;
}
