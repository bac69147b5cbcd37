#ifndef VERIF_SIM_LINALG_H
#define VERIF_SIM_LINALG_H
#include <complex>
#include <cstddef>
#include <vector>
namespace sim {
// c (m x n, row major) = a (m x k) * b (k x n)
template<typename A, typename B, typename C>
void Gemm(size_t m, size_t n, size_t k, const A *a, const B *b, C *c) {
  for (size_t i = 0; i < m; ++i) {
    C *ci = c + i * n;
    for (size_t l = 0; l < k; ++l) {
      const A x = a[i * k + l];
      if (x == A(0)) continue;
      const B *bl = b + l * n;
      for (size_t j = 0; j < n; ++j) ci[j] += x * bl[j];
    }
  }
}
void Svd(size_t r, size_t c, const double *a, std::vector<double> &u, std::vector<double> &s, std::vector<double> &vt);
void Svd(size_t r, size_t c, const std::complex<double> *a, std::vector<std::complex<double>> &u,
         std::vector<double> &s, std::vector<std::complex<double>> &vt);
void Qr(size_t r, size_t c, const double *a, std::vector<double> &q, std::vector<double> &rr);
void Qr(size_t r, size_t c, const std::complex<double> *a, std::vector<std::complex<double>> &q,
        std::vector<std::complex<double>> &rr);
// eigenvalues ascending, eigenvectors in columns (row major n x n) of a Hermitian matrix
void Eigh(size_t n, const std::complex<double> *a, std::vector<double> &w, std::vector<std::complex<double>> &v);
}
#endif
