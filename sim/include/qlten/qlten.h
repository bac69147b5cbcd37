// Stand-in for TensorToolkit (qlten), which is not available offline.
//
// QLTensor here is a dense, QN-labelled tensor with the same observable contract UltraDMRG relies on:
// quantum-number checked contraction, block-wise SVD/QR, expansion, fusing, binary streaming and MPI transfer.
// Everything UltraDMRG itself does (sweeps, environments, protocols, files, threads) is real code on top of it.
// Calls into sim::* are the seams: every tensor operation is a scheduling / fault point.
#ifndef VERIF_STUB_QLTEN_H
#define VERIF_STUB_QLTEN_H

#include <cassert>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <array>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#include "mpi.h"
#include "sim/hooks.h"
#include "sim/linalg.h"
#include "qlten/utility/timer.h"

#ifndef OUT
#endif

namespace qlten {

using QLTEN_Double = double;
using QLTEN_Complex = std::complex<double>;
using QLTEN_Float = float;
using GQTEN_Double = double;
using GQTEN_Complex = std::complex<double>;

using ShapeT = std::vector<size_t>;
using CoorsT = std::vector<size_t>;
using GQTensorStreamableNull = int;

const std::string kQLTenFileSuffix = "qlten";
constexpr int kMPIMasterRank = 0;
constexpr double kDoubleEpsilon = 1.0E-15;

#ifndef HANDLE_MPI_ERROR
#define HANDLE_MPI_ERROR(err) ::qlten::HandleMPIError((err))
#endif
inline void HandleMPIError(int err) {
  if (err != MPI_SUCCESS) { throw std::runtime_error("MPI error"); }
}

// ------------------------------------------------------------------ misuse of the tensor API (caller bug)
struct TensorMisuse : public std::logic_error {
  explicit TensorMisuse(const std::string &m) : std::logic_error("tensor API misuse: " + m) {}
};

// ------------------------------------------------------------------ scalars
inline double abs(double x) { return std::abs(x); }
inline double abs(const QLTEN_Complex &x) { return std::abs(x); }
inline double norm(double x) { return x * x; }
inline double norm(const QLTEN_Complex &x) { return std::norm(x); }
inline double conj(double x) { return x; }
inline QLTEN_Complex conj(const QLTEN_Complex &x) { return std::conj(x); }
inline double sqrt(double x) { return std::sqrt(x); }
inline QLTEN_Complex sqrt(const QLTEN_Complex &x) { return std::sqrt(x); }
inline double sqrt(int x) { return std::sqrt(double(x)); }
inline double real(double x) { return x; }
inline double real(const QLTEN_Complex &x) { return x.real(); }
inline double imag(double) { return 0; }
inline double imag(const QLTEN_Complex &x) { return x.imag(); }
inline QLTEN_Complex ToComplex(double x) { return QLTEN_Complex(x, 0); }
inline QLTEN_Complex ToComplex(const QLTEN_Complex &x) { return x; }
inline std::string IndentPrinter(size_t n) { return std::string(n, ' '); }
template<typename T> T CalcConj(const T &x) { return conj(x); }
inline size_t flop = 0;
inline std::vector<CoorsT> GenAllCoors(const ShapeT &s) {
  std::vector<CoorsT> r(1);
  for (size_t d : s) {
    std::vector<CoorsT> n;
    for (auto &c : r)
      for (size_t i = 0; i < d; ++i) {
        n.push_back(c);
        n.back().push_back(i);
      }
    r.swap(n);
  }
  return r;
}

template<typename T>
std::istream &bfread(std::istream &is, T *p, size_t n = 1) { return is.read((char *) p, sizeof(T) * n); }
template<typename T>
std::ostream &bfwrite(std::ostream &os, const T *p, size_t n = 1) { return os.write((const char *) p, sizeof(T) * n); }

class Streamable {};
class Hashable {};

// ------------------------------------------------------------------ quantum numbers
class U1QNVal {
 public:
  U1QNVal(int v = 0) : v_(v) {}
  int GetVal() const { return v_; }
  size_t Hash() const { return std::hash<int>()(v_); }
 private:
  int v_;
};
using QNCardVal = U1QNVal;
class QNCard {
 public:
  QNCard(const std::string &name, const U1QNVal &v) : name_(name), v_(v) {}
  std::string GetName() const { return name_; }
  int GetVal() const { return v_.GetVal(); }
 private:
  std::string name_;
  U1QNVal v_;
};
using QNCardVec = std::vector<QNCard>;

namespace special_qn {
template<size_t M>
class U1Vec {
 public:
  U1Vec() { v_.fill(0); }
  explicit U1Vec(int a) {
    v_.fill(0);
    static_assert(M >= 1, "");
    v_[0] = a;
  }
  U1Vec(int a, int b) {
    v_.fill(0);
    v_[0] = a;
    if (M > 1) v_[M - 1] = b;
  }
  U1Vec(const QNCardVec &c) {
    v_.fill(0);
    for (size_t i = 0; i < c.size() && i < M; ++i) v_[i] = c[i].GetVal();
  }
  U1Vec operator+(const U1Vec &r) const {
    U1Vec o(*this);
    o += r;
    return o;
  }
  U1Vec &operator+=(const U1Vec &r) {
    for (size_t i = 0; i < M; ++i) v_[i] += r.v_[i];
    return *this;
  }
  U1Vec operator-() const {
    U1Vec o;
    for (size_t i = 0; i < M; ++i) o.v_[i] = -v_[i];
    return o;
  }
  U1Vec operator-(const U1Vec &r) const { return (*this) + (-r); }
  U1Vec &operator-=(const U1Vec &r) { return (*this) += (-r); }
  bool operator==(const U1Vec &r) const { return v_ == r.v_; }
  bool operator!=(const U1Vec &r) const { return v_ != r.v_; }
  bool operator<(const U1Vec &r) const { return v_ < r.v_; }
  size_t Hash() const {
    size_t h = 1469598103934665603ull;
    for (int x : v_) h = (h ^ size_t(x + 7919)) * 1099511628211ull;
    return h;
  }
  int GetVal(size_t i = 0) const { return v_[i]; }
  static constexpr bool IsFermionic() { return false; }
  bool IsFermionParityOdd() const { return false; }
  void StreamWrite(std::ostream &os) const { for (int x : v_) os << x << " "; }
  void StreamRead(std::istream &is) { for (int &x : v_) is >> x; }
  friend std::ostream &operator<<(std::ostream &os, const U1Vec &q) {
    q.StreamWrite(os);
    return os;
  }
  friend std::istream &operator>>(std::istream &is, U1Vec &q) {
    q.StreamRead(is);
    return is;
  }
 private:
  std::array<int, M> v_;
};
using U1QN = U1Vec<1>;
class U1U1QN : public U1Vec<2> {
 public:
  U1U1QN() = default;
  U1U1QN(const QNCardVec &c) : U1Vec<2>(c) {}
  U1U1QN(int a, int b) : U1Vec<2>(a, b) {}
  U1U1QN(const U1Vec<2> &r) : U1Vec<2>(r) {}
  U1U1QN operator-() const { return U1U1QN(U1Vec<2>::operator-()); }
  U1U1QN operator+(const U1U1QN &r) const { return U1U1QN(U1Vec<2>::operator+(r)); }
  U1U1QN operator-(const U1U1QN &r) const { return U1U1QN(U1Vec<2>::operator-(r)); }
};
class TrivialRepQN {
 public:
  TrivialRepQN() = default;
  TrivialRepQN(const QNCardVec &) {}
  TrivialRepQN operator+(const TrivialRepQN &) const { return {}; }
  TrivialRepQN operator-(const TrivialRepQN &) const { return {}; }
  TrivialRepQN operator-() const { return {}; }
  TrivialRepQN &operator+=(const TrivialRepQN &) { return *this; }
  TrivialRepQN &operator-=(const TrivialRepQN &) { return *this; }
  bool operator==(const TrivialRepQN &) const { return true; }
  bool operator!=(const TrivialRepQN &) const { return false; }
  bool operator<(const TrivialRepQN &) const { return false; }
  size_t Hash() const { return 0; }
  static constexpr bool IsFermionic() { return false; }
  void StreamWrite(std::ostream &) const {}
  void StreamRead(std::istream &) {}
  friend std::ostream &operator<<(std::ostream &os, const TrivialRepQN &) { return os; }
  friend std::istream &operator>>(std::istream &is, TrivialRepQN &) { return is; }
};
} // special_qn
template<typename... Ts> using QN = special_qn::U1Vec<sizeof...(Ts)>;

template<typename QNT>
class QNSector {
 public:
  QNSector() : dgnc_(0) {}
  QNSector(const QNT &qn, size_t dgnc) : qn_(qn), dgnc_(dgnc) {}
  const QNT &GetQn() const { return qn_; }
  size_t GetDegeneracy() const { return dgnc_; }
  size_t dim() const { return dgnc_; }
  size_t Hash() const { return qn_.Hash() * 31 + dgnc_; }
  bool operator==(const QNSector &r) const { return qn_ == r.qn_ && dgnc_ == r.dgnc_; }
  bool operator!=(const QNSector &r) const { return !(*this == r); }
 private:
  QNT qn_;
  size_t dgnc_;
};
template<typename QNT> using QNSectorVec = std::vector<QNSector<QNT>>;

enum TenIndexDirType { IN, OUT, NDIR };

template<typename QNT>
class Index {
 public:
  Index() : dir_(NDIR), dim_(0) {}
  Index(const QNSectorVec<QNT> &s, TenIndexDirType dir) : s_(s), dir_(dir), dim_(0) {
    for (auto &x : s_) dim_ += x.GetDegeneracy();
  }
  TenIndexDirType GetDir() const { return dir_; }
  size_t dim() const { return dim_; }
  size_t GetQNSctNum() const { return s_.size(); }
  const QNSectorVec<QNT> &GetQNScts() const { return s_; }
  const QNSector<QNT> &GetQNSct(size_t i) const { return s_.at(i); }
  QNSector<QNT> GetQNSctFromActualCoor(size_t c) const {
    for (auto &x : s_) {
      if (c < x.GetDegeneracy()) return x;
      c -= x.GetDegeneracy();
    }
    throw TensorMisuse("Index coordinate out of range");
  }
  std::pair<size_t, size_t> CoorToBlkCoorDataCoor(size_t c) const {
    for (size_t i = 0; i < s_.size(); ++i) {
      if (c < s_[i].GetDegeneracy()) return {i, c};
      c -= s_[i].GetDegeneracy();
    }
    throw TensorMisuse("Index coordinate out of range");
  }
  void Inverse() {
    if (dir_ == IN) dir_ = OUT;
    else if (dir_ == OUT) dir_ = IN;
  }
  bool operator==(const Index &r) const { return dir_ == r.dir_ && s_ == r.s_; }
  bool operator!=(const Index &r) const { return !(*this == r); }
  size_t Hash() const {
    size_t h = dir_;
    for (auto &x : s_) h = h * 1099511628211ull ^ x.Hash();
    return h;
  }
  void Show(size_t = 0) const {}
 private:
  QNSectorVec<QNT> s_;
  TenIndexDirType dir_;
  size_t dim_;
};
template<typename QNT> using IndexVec = std::vector<Index<QNT>>;
template<typename QNT>
Index<QNT> InverseIndex(const Index<QNT> &i) {
  Index<QNT> o(i);
  o.Inverse();
  return o;
}

namespace stub {
inline long &LiveTensors() { static long n = 0; return n; }     // tensors owning data
inline long &PeakTensors() { static long n = 0; return n; }
inline long &LiveElems() { static long n = 0; return n; }
inline long &PeakElems() { static long n = 0; return n; }
inline void Account(long dt, long de) {
  LiveTensors() += dt;
  LiveElems() += de;
  if (LiveTensors() > PeakTensors()) PeakTensors() = LiveTensors();
  if (LiveElems() > PeakElems()) PeakElems() = LiveElems();
}
template<typename QNT>
QNT Signed(const Index<QNT> &idx, const QNT &q) { return idx.GetDir() == IN ? -q : q; }
template<typename QNT>
std::vector<QNT> FlatQN(const Index<QNT> &idx) {   // signed qn of every coordinate
  std::vector<QNT> v;
  v.reserve(idx.dim());
  for (auto &s : idx.GetQNScts()) {
    QNT q = Signed(idx, s.GetQn());
    for (size_t k = 0; k < s.GetDegeneracy(); ++k) v.push_back(q);
  }
  return v;
}
} // stub

template<typename ElemT, typename QNT> class QLTensor;

template<typename ElemT, typename QNT>
class BlockSparseDataTensor {   // view on the data part of one tensor
 public:
  explicit BlockSparseDataTensor(QLTensor<ElemT, QNT> *t) : t_(t) {}
  void Clear();
  void MPI_Send(const MPI_Comm &comm, const int dest, const int tag);
  MPI_Status MPI_Recv(const MPI_Comm &comm, const int src, const int tag);
  size_t GetActualRawDataSize() const;
 private:
  template<typename, typename> friend class QLTensor;
  QLTensor<ElemT, QNT> *t_;
};

template<typename ElemT, typename QNT>
class QLTensor {
  using Self = QLTensor;
 public:
  using ElemType = ElemT;
  QLTensor() : bsdt_(this) {}
  QLTensor(const IndexVec<QNT> &idx) : bsdt_(this) { SetShape_(idx); Fill_(); }
  QLTensor(IndexVec<QNT> &&idx) : bsdt_(this) { SetShape_(idx); Fill_(); }
  QLTensor(const std::initializer_list<Index<QNT>> &il) : QLTensor(IndexVec<QNT>(il)) {}
  QLTensor(const QLTensor &r) : bsdt_(this) { CopyFrom_(r); }
  QLTensor(QLTensor &&r) noexcept : bsdt_(this) { MoveFrom_(r); }
  QLTensor &operator=(const QLTensor &r) {
    if (this != &r) {
      QLTensor tmp(r);
      Drop_();
      MoveFrom_(tmp);
    }
    return *this;
  }
  QLTensor &operator=(QLTensor &&r) noexcept {
    if (this != &r) {
      Drop_();
      MoveFrom_(r);
    }
    return *this;
  }
  ~QLTensor() { Drop_(); }

  // --- info
  size_t Rank() const { return idx_.size(); }
  size_t size() const { return size_; }
  const ShapeT &GetShape() const { return shape_; }
  const ShapeT &shape() const { return shape_; }
  const IndexVec<QNT> &GetIndexes() const { return idx_; }
  const Index<QNT> &GetIndex(size_t i) const { return idx_.at(i); }
  bool IsDefault() const { return def_; }
  bool IsScalar() const { return !def_ && idx_.empty(); }
  static constexpr bool IsFermionic() { return false; }
  size_t GetActualDataSize() const { return d_.size(); }
  size_t GetQNBlkNum() const { return d_.empty() ? 0 : 1; }
  double GetRawDataMemUsage() const { return double(d_.size() * sizeof(ElemT)) / 1024.0 / 1024.0 / 1024.0; }
  void ActFermionPOps() {}
  void Show(size_t = 0) const {}
  void ConciseShow(size_t = 0) const {}

  // --- element access
  template<typename... Ts>
  std::enable_if_t<(sizeof...(Ts) >= 1) && std::conjunction_v<std::is_integral<Ts>...>, ElemT &>
  operator()(const Ts... c) { return Ref_({size_t(c)...}); }
  template<typename... Ts>
  std::enable_if_t<(sizeof...(Ts) >= 1) && std::conjunction_v<std::is_integral<Ts>...>, ElemT>
  operator()(const Ts... c) const { return const_cast<Self *>(this)->Ref_({size_t(c)...}); }
  ElemT &operator()(const std::vector<size_t> &c) { return Ref_(c); }
  ElemT operator()(const std::vector<size_t> &c) const { return const_cast<Self *>(this)->Ref_(c); }
  ElemT &operator()(const std::initializer_list<size_t> &c) { return Ref_(std::vector<size_t>(c)); }
  ElemT operator()(const std::initializer_list<size_t> &c) const {
    return const_cast<Self *>(this)->Ref_(std::vector<size_t>(c));
  }
  ElemT &operator()() {
    if (!IsScalar()) throw TensorMisuse("operator()() on a non scalar tensor of rank " + std::to_string(Rank()));
    Need_("operator()()");
    return d_[0];
  }
  ElemT operator()() const { return const_cast<Self *>(this)->operator()(); }
  ElemT GetElem(const std::vector<size_t> &c) const { return const_cast<Self *>(this)->Ref_(c); }
  void SetElem(const std::vector<size_t> &c, const ElemT v) { Ref_(c) = v; }
  ElemT GetFirstNonZeroElement() const {
    for (auto &x : d_) if (x != ElemT(0)) return x;
    return ElemT(0);
  }
  ElemT GetMaxAbs() const {
    double m = 0;
    for (auto &x : d_) m = std::max(m, std::abs(x));
    return m;
  }

  // --- divergence
  QNT Div() const {
    QNT q;
    if (!DivOpt(q)) return QNT();
    return q;
  }
  bool DivOpt(QNT &q) const {
    if (has_div_) {
      q = div_;
      return true;
    }
    for (size_t k = 0; k < d_.size(); ++k)
      if (d_[k] != ElemT(0)) {
        q = QNT();
        auto c = Coors_(k);
        for (size_t i = 0; i < c.size(); ++i) q += stub::Signed(idx_[i], idx_[i].GetQNSctFromActualCoor(c[i]).GetQn());
        return true;
      }
    return false;
  }

  // --- manipulation
  void Random(const QNT &div) {
    sim::Work("tensor.random");
    if (def_) throw TensorMisuse("Random on default tensor");
    if (IsScalar()) {
      Fill_();
      d_[0] = RandElem_();
      return;
    }
    Fill_();
    std::vector<std::vector<QNT>> fq;
    for (auto &i : idx_) fq.push_back(stub::FlatQN(i));
    for (size_t k = 0; k < d_.size(); ++k) {
      auto c = Coors_(k);
      QNT q;
      for (size_t i = 0; i < c.size(); ++i) q += fq[i][c[i]];
      d_[k] = (q == div) ? RandElem_() : ElemT(0);
    }
    has_div_ = true;
    div_ = div;
  }
  void Fill(const QNT &div, const ElemT v) {
    Random(div);
    for (auto &x : d_) if (x != ElemT(0)) x = v;
  }
  void Transpose(const std::vector<size_t> &p) {
    if (def_) throw TensorMisuse("Transpose on default tensor");
    if (p.size() != Rank()) throw TensorMisuse("Transpose: wrong number of axes");
    CheckPerm_(p);
    IndexVec<QNT> ni;
    for (auto a : p) ni.push_back(idx_[a]);
    std::vector<ElemT> nd;
    if (!d_.empty()) nd = Permuted(p);
    idx_ = ni;
    ShapeFromIdx_();
    if (!nd.empty()) d_.swap(nd);
  }
  double Get2Norm() const {
    double s = 0;
    for (auto &x : d_) s += std::norm(x);
    return std::sqrt(s);
  }
  double GetQuasi2Norm() const { return Get2Norm(); }
  double Normalize() {
    double n = Get2Norm();
    if (n > 0) for (auto &x : d_) x /= n;
    return n;
  }
  double QuasiNormalize() { return Normalize(); }
  void MultiplyByScalar(const ElemT s) { *this *= s; }
  void Dag() {
    for (auto &i : idx_) i.Inverse();
    for (auto &x : d_) x = qlten::conj(x);
    if (has_div_) div_ = -div_;
  }
  void FuseIndex(size_t i, size_t j);
  template<typename T>
  QLTensor &operator*=(const T &s) {
    for (auto &x : d_) x *= s;
    return *this;
  }
  QLTensor &operator+=(const QLTensor &r) {
    if (def_) { return *this = r; }
    if (r.def_) throw TensorMisuse("operator+= with a default tensor");
    CheckSameIdx_(r, "operator+=");
    Fill0IfCleared_();
    for (size_t k = 0; k < d_.size() && k < r.d_.size(); ++k) d_[k] += r.d_[k];
    has_div_ = false;
    return *this;
  }
  QLTensor &operator-=(const QLTensor &r) {
    QLTensor m = r * ElemT(-1);
    return *this += m;
  }
  QLTensor operator+(const QLTensor &r) const {
    QLTensor o(*this);
    o += r;
    return o;
  }
  QLTensor operator-(const QLTensor &r) const {
    QLTensor o(*this);
    o -= r;
    return o;
  }
  QLTensor operator-() const { return (*this) * ElemT(-1); }
  template<typename T, typename = std::enable_if_t<std::is_arithmetic_v<T> || std::is_same_v<T, QLTEN_Complex>>>
  QLTensor operator*(const T s) const {
    QLTensor o(*this);
    o *= ElemT(s);
    return o;
  }
  bool operator==(const QLTensor &r) const {
    if (def_ || r.def_) return def_ == r.def_;
    if (idx_ != r.idx_) return false;
    size_t n = std::max(d_.size(), r.d_.size());
    for (size_t k = 0; k < n; ++k) {
      ElemT a = d_.empty() ? ElemT(0) : d_[k], b = r.d_.empty() ? ElemT(0) : r.d_[k];
      if (std::abs(a - b) > kDoubleEpsilon * std::max({1.0, std::abs(a), std::abs(b)})) return false;
    }
    return true;
  }
  bool operator!=(const QLTensor &r) const { return !(*this == r); }
  size_t Hash() const {
    size_t h = 17;
    for (auto &i : idx_) h = h * 31 + i.Hash();
    return h;
  }

  // --- data
  BlockSparseDataTensor<ElemT, QNT> &GetBlkSparDataTen() { return bsdt_; }
  const BlockSparseDataTensor<ElemT, QNT> &GetBlkSparDataTen() const { return bsdt_; }
  BlockSparseDataTensor<ElemT, QNT> *GetBlkSparDataTenPtr() { return &bsdt_; }
  const std::vector<ElemT> &Raw() const { return d_; }
  std::vector<ElemT> &RawMut() { Fill0IfCleared_(); return d_; }
  void ClearData() {
    if (!d_.empty()) {
      stub::Account(-1, -(long) d_.size());
      std::vector<ElemT>().swap(d_);
    }
  }
  bool Cleared() const { return !def_ && d_.empty() && size_ > 0; }

  std::vector<ElemT> Permuted(const std::vector<size_t> &p) const {
    size_t r = p.size();
    std::vector<ElemT> o(d_.size());
    if (d_.empty()) return o;
    if (r == 0) return d_;
    std::vector<size_t> st(r), nsh(r), ns(r), c(r, 0);
    size_t acc = 1;
    for (size_t i = r; i-- > 0;) {
      st[i] = acc;
      acc *= shape_[i];
    }
    for (size_t i = 0; i < r; ++i) {
      nsh[i] = shape_[p[i]];
      ns[i] = st[p[i]];
    }
    size_t src = 0;
    for (size_t k = 0; k < o.size(); ++k) {
      o[k] = d_[src];
      for (size_t i = r; i-- > 0;) {
        if (++c[i] < nsh[i]) {
          src += ns[i];
          break;
        }
        src -= ns[i] * (nsh[i] - 1);
        c[i] = 0;
      }
    }
    return o;
  }
  // builds from parts
  void Assign(const IndexVec<QNT> &idx, std::vector<ElemT> &&data) {
    Drop_();
    SetShape_(idx);
    d_ = std::move(data);
    if (d_.size() != size_) throw TensorMisuse("internal: Assign size");
    if (!d_.empty()) stub::Account(1, d_.size());
  }
  void SetDiv(const QNT &q) { has_div_ = true; div_ = q; }
  void Need_(const char *who) const {
    if (def_) throw TensorMisuse(std::string(who) + " on a default tensor");
    if (Cleared()) throw TensorMisuse(std::string(who) + " on a tensor whose data was cleared");
  }

  // --- stream
  void StreamWrite(std::ostream &os) const {
    if (def_) throw TensorMisuse("writing a default tensor to a stream");
    os << "QLT " << sizeof(ElemT) << " " << idx_.size() << " ";
    for (auto &i : idx_) {
      os << int(i.GetDir()) << " " << i.GetQNSctNum() << " ";
      for (auto &s : i.GetQNScts()) {
        s.GetQn().StreamWrite(os);
        os << " " << s.GetDegeneracy() << " ";
      }
    }
    os << (has_div_ ? 1 : 0) << " ";
    if (has_div_) div_.StreamWrite(os);
    os << " " << d_.size() << "\n";
    os.write((const char *) d_.data(), d_.size() * sizeof(ElemT));
    os << "\n";
  }
  void StreamRead(std::istream &is) {
    std::string magic;
    size_t es = 0, r = 0, n = 0;
    is >> magic >> es >> r;
    if (!is || magic != "QLT" || es != sizeof(ElemT) || r > 16) {
      is.setstate(std::ios::failbit);
      return;
    }
    IndexVec<QNT> idx;
    for (size_t i = 0; i < r; ++i) {
      int dir;
      size_t ns;
      is >> dir >> ns;
      if (!is || ns > 100000) {
        is.setstate(std::ios::failbit);
        return;
      }
      QNSectorVec<QNT> ss;
      for (size_t k = 0; k < ns; ++k) {
        QNT q;
        size_t dg;
        q.StreamRead(is);
        is >> dg;
        ss.emplace_back(q, dg);
      }
      idx.emplace_back(ss, TenIndexDirType(dir));
    }
    int hd = 0;
    is >> hd;
    QNT q;
    if (hd) q.StreamRead(is);
    is >> n;
    char nl = 0;
    is.get(nl);
    size_t expect = 1;
    for (auto &i : idx) expect *= i.dim();
    if (!is || nl != '\n' || (n != expect && n != 0)) {
      is.setstate(std::ios::failbit);
      return;
    }
    std::vector<ElemT> data(n);
    is.read((char *) data.data(), n * sizeof(ElemT));
    bool ok = bool(is);
    char e = 0;
    if (ok) is.get(e);
    if (!is || e != '\n') is.setstate(std::ios::failbit);
    Drop_();
    SetShape_(idx);
    d_ = std::move(data);
    if (!d_.empty()) stub::Account(1, d_.size());
    if (hd) SetDiv(q);
  }

  // --- MPI
  void MPI_Send(int dest, int tag, const MPI_Comm &comm) const {
    std::ostringstream os;
    if (!def_) StreamWrite(os);
    std::string s = def_ ? "DEF" : os.str();   // an empty tensor may be sent and arrives as an empty tensor
    sim::MpiSendString(s, dest, tag, comm);
  }
  MPI_Status MPI_Recv(int src, int tag, const MPI_Comm &comm) {
    std::string s;
    MPI_Status st = sim::MpiRecvString(s, src, tag, comm);
    std::istringstream is(s);
    if (!def_) { *this = QLTensor(); }
    if (s == "DEF") return st;
    StreamRead(is);
    if (is.fail()) throw TensorMisuse("received message is not a tensor (protocol mismatch)");
    return st;
  }
  void MPI_Bcast(const int root, const MPI_Comm &comm) {
    int rank;
    ::MPI_Comm_rank(comm, &rank);
    std::string s;
    if (rank == root) {
      std::ostringstream os;
      StreamWrite(os);
      s = os.str();
    }
    sim::MpiBcastString(s, root, comm);
    if (rank != root) {
      std::istringstream is(s);
      if (!def_) { *this = QLTensor(); }
      StreamRead(is);
      if (is.fail()) throw TensorMisuse("broadcast message is not a tensor (protocol mismatch)");
    }
  }

 private:
  template<typename, typename> friend class BlockSparseDataTensor;
  void SetShape_(const IndexVec<QNT> &idx) {
    idx_ = idx;
    def_ = false;
    ShapeFromIdx_();
  }
  void ShapeFromIdx_() {
    shape_.clear();
    size_ = 1;
    for (auto &i : idx_) {
      shape_.push_back(i.dim());
      size_ *= i.dim();
    }
  }
  void Fill_() {
    ClearData();
    d_.assign(size_, ElemT(0));
    if (!d_.empty()) stub::Account(1, d_.size());
  }
  void Fill0IfCleared_() { if (Cleared()) Fill_(); }
  void Drop_() {
    ClearData();
    idx_.clear();
    shape_.clear();
    size_ = 0;
    def_ = true;
    has_div_ = false;
  }
  void CopyFrom_(const QLTensor &r) {
    std::vector<ElemT> c(r.d_);
    idx_ = r.idx_;
    shape_ = r.shape_;
    size_ = r.size_;
    def_ = r.def_;
    has_div_ = r.has_div_;
    div_ = r.div_;
    d_ = std::move(c);
    if (!d_.empty()) stub::Account(1, d_.size());
  }
  void MoveFrom_(QLTensor &r) noexcept {
    idx_.swap(r.idx_);
    shape_.swap(r.shape_);
    d_.swap(r.d_);
    std::swap(size_, r.size_);
    std::swap(def_, r.def_);
    std::swap(has_div_, r.has_div_);
    std::swap(div_, r.div_);
  }
  std::vector<size_t> Coors_(size_t k) const {
    std::vector<size_t> c(shape_.size());
    for (size_t i = shape_.size(); i-- > 0;) {
      c[i] = k % shape_[i];
      k /= shape_[i];
    }
    return c;
  }
  ElemT &Ref_(const std::vector<size_t> &c) {
    if (def_) throw TensorMisuse("element access on a default tensor");
    if (c.size() != Rank()) throw TensorMisuse("element access with wrong number of coordinates");
    Fill0IfCleared_();
    size_t k = 0;
    for (size_t i = 0; i < c.size(); ++i) {
      if (c[i] >= shape_[i]) throw TensorMisuse("element access out of range");
      k = k * shape_[i] + c[i];
    }
    return d_[k];
  }
  void CheckPerm_(const std::vector<size_t> &p) const {
    std::vector<char> seen(p.size(), 0);
    for (auto a : p) {
      if (a >= p.size() || seen[a]) throw TensorMisuse("Transpose: not a permutation");
      seen[a] = 1;
    }
  }
  void CheckSameIdx_(const QLTensor &r, const char *who) const {
    if (shape_ != r.shape_) throw TensorMisuse(std::string(who) + ": shapes differ");
    for (size_t i = 0; i < idx_.size(); ++i)
      if (idx_[i] != r.idx_[i]) throw TensorMisuse(std::string(who) + ": indexes differ");
  }
  static ElemT RandElem_() {
    if constexpr (std::is_same_v<ElemT, QLTEN_Complex>) {
      double a = sim::RandDouble(), b = sim::RandDouble();
      return ElemT(2 * a - 1, 2 * b - 1);
    } else {
      return ElemT(2 * sim::RandDouble() - 1);
    }
  }
  IndexVec<QNT> idx_;
  ShapeT shape_;
  size_t size_ = 0;
  std::vector<ElemT> d_;
  bool def_ = true;
  bool has_div_ = false;
  QNT div_;
  BlockSparseDataTensor<ElemT, QNT> bsdt_;
};

template<typename ElemT, typename QNT>
void BlockSparseDataTensor<ElemT, QNT>::Clear() { t_->ClearData(); }
template<typename ElemT, typename QNT>
size_t BlockSparseDataTensor<ElemT, QNT>::GetActualRawDataSize() const { return t_->d_.size(); }
template<typename ElemT, typename QNT>
void BlockSparseDataTensor<ElemT, QNT>::MPI_Send(const MPI_Comm &comm, const int dest, const int tag) {
  t_->Need_("BlockSparseDataTensor::MPI_Send");
  std::string s((const char *) t_->d_.data(), t_->d_.size() * sizeof(ElemT));
  std::ostringstream hd;
  hd << "BSDT " << t_->d_.size();
  for (auto x : t_->shape_) hd << " " << x;
  hd << "\n";
  sim::MpiSendString(hd.str() + s, dest, tag, comm);
}
template<typename ElemT, typename QNT>
MPI_Status BlockSparseDataTensor<ElemT, QNT>::MPI_Recv(const MPI_Comm &comm, const int src, const int tag) {
  if (t_->def_) throw TensorMisuse("BlockSparseDataTensor::MPI_Recv into a default tensor");
  std::string s;
  MPI_Status st = sim::MpiRecvString(s, src, tag, comm);
  size_t p = s.find('\n');
  std::ostringstream hd;
  hd << "BSDT " << t_->size_;
  for (auto x : t_->shape_) hd << " " << x;
  if (p == std::string::npos || s.substr(0, p) != hd.str())
    throw TensorMisuse("received block data does not fit the receiving tensor (protocol mismatch): got '"
                           + s.substr(0, std::min<size_t>(p, 60)) + "' want '" + hd.str() + "'");
  std::vector<ElemT> d(t_->size_);
  if (s.size() - p - 1 != d.size() * sizeof(ElemT)) throw TensorMisuse("received block data has wrong length");
  memcpy(d.data(), s.data() + p + 1, d.size() * sizeof(ElemT));
  t_->ClearData();
  t_->d_ = std::move(d);
  if (!t_->d_.empty()) stub::Account(1, t_->d_.size());
  t_->has_div_ = false;
  return st;
}

template<typename E, typename Q>
std::ostream &operator<<(std::ostream &os, const QLTensor<E, Q> &t) {
  sim::Work("tensor.write");
  t.StreamWrite(os);
  return os;
}
template<typename E, typename Q>
std::istream &operator>>(std::istream &is, QLTensor<E, Q> &t) {
  sim::Work("tensor.read");
  t.StreamRead(is);
  return is;
}

template<typename E, typename Q>
void MPI_Bcast(QLTensor<E, Q> &t, const int root, const MPI_Comm &comm) { t.MPI_Bcast(root, comm); }
template<typename E, typename Q>
void MPI_Send(const QLTensor<E, Q> &t, int dest, int tag, const MPI_Comm &comm) { t.MPI_Send(dest, tag, comm); }
template<typename E, typename Q>
MPI_Status MPI_Recv(QLTensor<E, Q> &t, int src, int tag, const MPI_Comm &comm) { return t.MPI_Recv(src, tag, comm); }
// keep the C functions visible next to the overloads above
using ::MPI_Bcast;
using ::MPI_Send;
using ::MPI_Recv;

template<typename T, typename E, typename Q,
    typename = std::enable_if_t<std::is_arithmetic_v<T> || std::is_same_v<T, QLTEN_Complex>>>
QLTensor<E, Q> operator*(const T s, const QLTensor<E, Q> &t) { return t * s; }

template<typename E, typename Q>
QLTensor<E, Q> Dag(const QLTensor<E, Q> &t) {
  sim::Work("tensor.dag");
  t.Need_("Dag");
  QLTensor<E, Q> o(t);
  o.Dag();
  return o;
}
template<typename E, typename Q>
Q Div(const QLTensor<E, Q> &t) { return t.Div(); }

template<typename Q>
QLTensor<QLTEN_Complex, Q> ToComplex(const QLTensor<QLTEN_Double, Q> &t) {
  QLTensor<QLTEN_Complex, Q> o;
  o.Assign(t.GetIndexes(), std::vector<QLTEN_Complex>(t.Raw().begin(), t.Raw().end()));
  Q q;
  if (t.DivOpt(q)) o.SetDiv(q);
  return o;
}

// ------------------------------------------------------------------ contraction
namespace stub {
template<typename E> struct Mat;
template<typename TA, typename TB, typename TC, typename Q>
void ContractImpl(const QLTensor<TA, Q> &a, const std::vector<size_t> &ax, const QLTensor<TB, Q> &b,
                  const std::vector<size_t> &bx, const std::vector<size_t> &arem, const std::vector<size_t> &brem,
                  QLTensor<TC, Q> &c) {
  sim::Work("tensor.contract");
  a.Need_("Contract");
  b.Need_("Contract");
  if (ax.size() != bx.size()) throw TensorMisuse("Contract: axis lists differ in length");
  for (size_t i = 0; i < ax.size(); ++i) {
    if (ax[i] >= a.Rank() || bx[i] >= b.Rank()) throw TensorMisuse("Contract: axis out of range");
    auto &ia = a.GetIndex(ax[i]);
    auto &ib = b.GetIndex(bx[i]);
    if (ia.dim() != ib.dim())
      throw TensorMisuse("Contract: dimension mismatch " + std::to_string(ia.dim()) + " vs " + std::to_string(ib.dim()));
    if (!(ia == InverseIndex(ib))) throw TensorMisuse("Contract: contracted indexes are not inverse of each other");
  }
  std::vector<size_t> pa(arem), pb(bx);
  pa.insert(pa.end(), ax.begin(), ax.end());
  pb.insert(pb.end(), brem.begin(), brem.end());
  size_t m = 1, k = 1, n = 1;
  IndexVec<Q> ci;
  for (auto i : arem) {
    m *= a.GetShape()[i];
    ci.push_back(a.GetIndex(i));
  }
  for (auto i : ax) k *= a.GetShape()[i];
  for (auto i : brem) {
    n *= b.GetShape()[i];
    ci.push_back(b.GetIndex(i));
  }
  std::vector<TA> da = a.Permuted(pa);
  std::vector<TB> db = b.Permuted(pb);
  std::vector<TC> dc(m * n, TC(0));
  sim::Gemm(m, n, k, da.data(), db.data(), dc.data());
  Q qa, qb;
  bool hd = a.DivOpt(qa) && b.DivOpt(qb);
  c.Assign(ci, std::move(dc));
  if (hd) c.SetDiv(qa + qb);
}
template<typename T>
std::vector<size_t> Rest(size_t rank, const std::vector<T> &ax) {
  std::vector<char> used(rank, 0);
  for (auto a : ax) {
    if (a >= rank) throw TensorMisuse("axis out of range");
    if (used[a]) throw TensorMisuse("axis repeated");
    used[a] = 1;
  }
  std::vector<size_t> r;
  for (size_t i = 0; i < rank; ++i) if (!used[i]) r.push_back(i);
  return r;
}
} // stub

template<typename TA, typename TB, typename TC, typename Q>
void Contract(const QLTensor<TA, Q> *a, const std::vector<size_t> &ax, const QLTensor<TB, Q> *b,
              const std::vector<size_t> &bx, QLTensor<TC, Q> *c) {
  QLTensor<TC, Q> t;
  stub::ContractImpl(*a, ax, *b, bx, stub::Rest(a->Rank(), ax), stub::Rest(b->Rank(), bx), t);
  *c = std::move(t);
}
template<typename TA, typename TB, typename TC, typename Q>
void Contract(const QLTensor<TA, Q> *a, const QLTensor<TB, Q> *b, const std::vector<std::vector<size_t>> &axes,
              QLTensor<TC, Q> *c) {
  if (axes.size() != 2) throw TensorMisuse("Contract: need two axis lists");
  Contract(a, axes[0], b, axes[1], c);
}
template<typename T, typename Q>
void InplaceContract(QLTensor<T, Q> *a, const QLTensor<T, Q> *b, const std::vector<std::vector<size_t>> &axes) {
  QLTensor<T, Q> t;
  Contract(a, b, axes, &t);
  *a = std::move(t);
}
template<typename ElemT, typename QNT, bool a_ctrct_tail = true, bool b_ctrct_head = true>
void Contract(const QLTensor<ElemT, QNT> &a, const QLTensor<ElemT, QNT> &b, const size_t as, const size_t bs,
              const size_t n, QLTensor<ElemT, QNT> &c) {
  std::vector<size_t> ax, bx, ar, br;
  for (size_t i = 0; i < n; ++i) {
    ax.push_back((as + i) % a.Rank());
    bx.push_back((bs + i) % b.Rank());
  }
  for (size_t i = n; i < a.Rank(); ++i) ar.push_back((as + i) % a.Rank());
  for (size_t i = n; i < b.Rank(); ++i) br.push_back((bs + i) % b.Rank());
  QLTensor<ElemT, QNT> t;
  stub::ContractImpl(a, ax, b, bx, ar, br, t);
  c = std::move(t);
}

class Executor {
 public:
  enum { dummy_ };
  Executor() = default;
  virtual ~Executor() = default;
  virtual void Execute() = 0;
  int GetStatus() const { return st_; }
 protected:
  void SetStatus(int s) { st_ = s; }
 private:
  int st_ = 0;
};
enum ExecutorStatus { INITED = 0, EXEING, FINISH };

template<typename ElemT, typename QNT>
class TensorContraction1SectorExecutor : public Executor {
 public:
  using TenT = QLTensor<ElemT, QNT>;
  TensorContraction1SectorExecutor(const TenT *a, const size_t split, const size_t sct, const TenT *b,
                                   const std::vector<std::vector<size_t>> &axes, TenT *c)
      : a_(a), b_(b), c_(c), split_(split), sct_(sct), axes_(axes) { SetStatus(INITED); }
  void SetSelectedQNSect(const size_t s) {
    sct_ = s;
    SetStatus(INITED);
  }
  void Execute() override {
    SetStatus(EXEING);
    a_->Need_("TensorContraction1Sector");
    const auto &idx = a_->GetIndex(split_);
    if (sct_ >= idx.GetQNSctNum()) throw TensorMisuse("TensorContraction1Sector: sector out of range");
    for (auto x : axes_[0]) if (x == split_) throw TensorMisuse("TensorContraction1Sector: split axis is contracted");
    size_t lo = 0;
    for (size_t i = 0; i < sct_; ++i) lo += idx.GetQNSct(i).GetDegeneracy();
    size_t hi = lo + idx.GetQNSct(sct_).GetDegeneracy();
    TenT part(*a_);
    size_t in = 1;
    for (size_t i = split_ + 1; i < a_->Rank(); ++i) in *= a_->GetShape()[i];
    auto &d = part.RawMut();
    size_t dim = a_->GetShape()[split_];
    for (size_t k = 0; k < d.size(); ++k) {
      size_t c = (k / in) % dim;
      if (c < lo || c >= hi) d[k] = ElemT(0);
    }
    TenT r;
    Contract(&part, axes_[0], b_, axes_[1], &r);
    *c_ = std::move(r);
    SetStatus(FINISH);
  }
 private:
  const TenT *a_;
  const TenT *b_;
  TenT *c_;
  size_t split_, sct_;
  std::vector<std::vector<size_t>> axes_;
};

// ------------------------------------------------------------------ linear combination
template<typename CT, typename E, typename Q>
void LinearCombineImpl(const size_t n, const CT *coefs, const std::vector<QLTensor<E, Q> *> &ts, const E beta,
                       QLTensor<E, Q> *res) {
  sim::Work("tensor.lincomb");
  QLTensor<E, Q> acc;
  if (!res->IsDefault() && beta != E(0)) {
    acc = *res;
    acc *= beta;
  }
  for (size_t i = 0; i < n; ++i) {
    ts[i]->Need_("LinearCombine");
    QLTensor<E, Q> t(*ts[i]);
    t *= coefs[i];
    acc += t;
  }
  Q q;
  bool h = false;
  if (n > 0) h = ts[0]->DivOpt(q);
  if (h) acc.SetDiv(q);
  *res = std::move(acc);
}
template<typename CT, typename E, typename Q, typename BT>
void LinearCombine(const std::vector<CT> &coefs, const std::vector<QLTensor<E, Q> *> &ts, const BT beta,
                   QLTensor<E, Q> *res) {
  if (coefs.size() > ts.size()) throw TensorMisuse("LinearCombine: more coefficients than tensors");
  LinearCombineImpl(coefs.size(), coefs.data(), ts, E(beta), res);
}
template<typename E, typename Q, typename BT>
void LinearCombine(const std::initializer_list<E> &coefs, const std::initializer_list<QLTensor<E, Q> *> &ts,
                   const BT beta, QLTensor<E, Q> *res) {
  LinearCombine(std::vector<E>(coefs), std::vector<QLTensor<E, Q> *>(ts), beta, res);
}
template<typename Q, typename BT>
void LinearCombine(const std::initializer_list<double> &coefs,
                   const std::initializer_list<QLTensor<QLTEN_Complex, Q> *> &ts,
                   const BT beta, QLTensor<QLTEN_Complex, Q> *res) {
  LinearCombine(std::vector<double>(coefs), std::vector<QLTensor<QLTEN_Complex, Q> *>(ts), beta, res);
}
template<typename CT, typename E, typename Q, typename BT>
void LinearCombine(const size_t n, const CT *coefs, const std::vector<QLTensor<E, Q> *> &ts, const BT beta,
                   QLTensor<E, Q> *res) {
  if (n > ts.size()) throw TensorMisuse("LinearCombine: more terms than tensors");
  LinearCombineImpl(n, coefs, ts, E(beta), res);
}
template<typename E, typename Q>
void CollectiveLinearCombine(const std::vector<QLTensor<E, Q>> &ts, QLTensor<E, Q> &res) {
  sim::Work("tensor.collective_lincomb");
  QLTensor<E, Q> acc;
  for (auto &t : ts) {
    t.Need_("CollectiveLinearCombine");
    acc += t;
  }
  res = std::move(acc);
}
template<typename E, typename Q>
void CollectiveLinearCombine(const std::vector<QLTensor<E, Q> *> &ts, QLTensor<E, Q> &res) {
  QLTensor<E, Q> acc;
  for (auto t : ts) {
    t->Need_("CollectiveLinearCombine");
    acc += *t;
  }
  res = std::move(acc);
}

// ------------------------------------------------------------------ index algebra
struct QNSctsOffsetInfo {
  size_t blk_idx1, blk_idx2, new_blk_idx, offset;
  QNSctsOffsetInfo(size_t a, size_t b, size_t c, size_t o) : blk_idx1(a), blk_idx2(b), new_blk_idx(c), offset(o) {}
};
template<typename Q>
Index<Q> FuseTwoIndexAndRecordInfo(const Index<Q> &i1, const Index<Q> &i2, std::vector<QNSctsOffsetInfo> &info) {
  const bool flip = i1.GetDir() != i2.GetDir();   // the fused index takes the direction of the first one
  std::vector<Q> qs;
  std::vector<size_t> dg;
  info.clear();
  for (size_t a = 0; a < i1.GetQNSctNum(); ++a)
    for (size_t b = 0; b < i2.GetQNSctNum(); ++b) {
      Q q = flip ? i1.GetQNSct(a).GetQn() - i2.GetQNSct(b).GetQn() : i1.GetQNSct(a).GetQn() + i2.GetQNSct(b).GetQn();
      size_t d = i1.GetQNSct(a).GetDegeneracy() * i2.GetQNSct(b).GetDegeneracy();
      size_t k = 0;
      while (k < qs.size() && !(qs[k] == q)) ++k;
      if (k == qs.size()) {
        qs.push_back(q);
        dg.push_back(0);
      }
      info.emplace_back(a, b, k, dg[k]);
      dg[k] += d;
    }
  QNSectorVec<Q> s;
  for (size_t k = 0; k < qs.size(); ++k) s.emplace_back(qs[k], dg[k]);
  return Index<Q>(s, i1.GetDir());
}
template<typename Q>
Index<Q> FuseTwoIndex(const Index<Q> &a, const Index<Q> &b) {
  std::vector<QNSctsOffsetInfo> i;
  return FuseTwoIndexAndRecordInfo(a, b, i);
}
namespace stub {
// position in the fused index of the pair of coordinates (x, y)
template<typename Q>
std::vector<size_t> FuseMap(const Index<Q> &i1, const Index<Q> &i2, const Index<Q> &f,
                            const std::vector<QNSctsOffsetInfo> &info) {
  std::vector<size_t> o1(1, 0), o2(1, 0), of(1, 0);
  for (auto &s : i1.GetQNScts()) o1.push_back(o1.back() + s.GetDegeneracy());
  for (auto &s : i2.GetQNScts()) o2.push_back(o2.back() + s.GetDegeneracy());
  for (auto &s : f.GetQNScts()) of.push_back(of.back() + s.GetDegeneracy());
  std::vector<size_t> m(i1.dim() * i2.dim());
  for (auto &e : info) {
    size_t d1 = i1.GetQNSct(e.blk_idx1).GetDegeneracy(), d2 = i2.GetQNSct(e.blk_idx2).GetDegeneracy();
    for (size_t x = 0; x < d1; ++x)
      for (size_t y = 0; y < d2; ++y)
        m[(o1[e.blk_idx1] + x) * i2.dim() + o2[e.blk_idx2] + y] = of[e.new_blk_idx] + e.offset + x * d2 + y;
  }
  return m;
}
} // stub
template<typename E, typename Q>
void QLTensor<E, Q>::FuseIndex(size_t i, size_t j) {
  sim::Work("tensor.fuse");
  Need_("FuseIndex");
  if (i >= Rank() || j >= Rank() || i == j) throw TensorMisuse("FuseIndex: axis out of range");
  std::vector<QNSctsOffsetInfo> info;
  Index<Q> f = FuseTwoIndexAndRecordInfo(idx_[i], idx_[j], info);
  auto map = stub::FuseMap(idx_[i], idx_[j], f, info);
  std::vector<size_t> p{i, j};
  IndexVec<Q> ni{f};
  size_t rest = 1;
  for (size_t k = 0; k < Rank(); ++k)
    if (k != i && k != j) {
      p.push_back(k);
      ni.push_back(idx_[k]);
      rest *= shape_[k];
    }
  auto d = Permuted(p);
  std::vector<E> nd(d.size());
  for (size_t k = 0; k < map.size(); ++k)
    std::copy(d.begin() + k * rest, d.begin() + (k + 1) * rest, nd.begin() + map[k] * rest);
  Q q;
  bool h = DivOpt(q);
  Assign(ni, std::move(nd));
  if (h) SetDiv(q);
}

// isometry (idx1, idx2, new) with zero divergence
template<typename E, typename Q>
QLTensor<E, Q> IndexCombine(const Index<Q> &i1, const Index<Q> &i2, const TenIndexDirType &dir) {
  sim::Work("tensor.index_combine");
  std::vector<Q> qs;
  std::vector<size_t> dg;
  auto f1 = stub::FlatQN(i1), f2 = stub::FlatQN(i2);
  for (auto &a : f1)
    for (auto &b : f2) {
      Q t = a + b;
      Q q = dir == IN ? t : -t;
      size_t k = 0;
      while (k < qs.size() && !(qs[k] == q)) ++k;
      if (k == qs.size()) {
        qs.push_back(q);
        dg.push_back(0);
      }
      dg[k]++;
    }
  QNSectorVec<Q> s;
  std::vector<size_t> off(1, 0);
  for (size_t k = 0; k < qs.size(); ++k) {
    s.emplace_back(qs[k], dg[k]);
    off.push_back(off.back() + dg[k]);
  }
  QLTensor<E, Q> t({i1, i2, Index<Q>(s, dir)});
  std::vector<size_t> used(qs.size(), 0);
  for (size_t x = 0; x < f1.size(); ++x)
    for (size_t y = 0; y < f2.size(); ++y) {
      Q tt = f1[x] + f2[y];
      Q q = dir == IN ? tt : -tt;
      size_t k = 0;
      while (!(qs[k] == q)) ++k;
      t({x, y, off[k] + used[k]++}) = E(1);
    }
  t.SetDiv(Q());
  return t;
}

// ------------------------------------------------------------------ expansion
namespace stub {
template<typename E, typename Q>
void Place(const QLTensor<E, Q> &src, const std::vector<std::vector<long>> &maps, std::vector<E> &dst,
           const std::vector<size_t> &dsh) {
  auto &d = src.Raw();
  auto &sh = src.GetShape();
  std::vector<size_t> c(sh.size(), 0);
  for (size_t k = 0; k < d.size(); ++k) {
    size_t t = k;
    for (size_t i = sh.size(); i-- > 0;) {
      c[i] = t % sh[i];
      t /= sh[i];
    }
    size_t o = 0;
    bool ok = true;
    for (size_t i = 0; i < sh.size(); ++i) {
      long m = maps[i].empty() ? (long) c[i] : maps[i][c[i]];
      if (m < 0) {
        ok = false;
        break;
      }
      o = o * dsh[i] + m;
    }
    if (ok) dst[o] = d[k];
  }
}
} // stub
// direct sum along `axes`
template<typename E, typename Q>
void Expand(const QLTensor<E, Q> *pa, const QLTensor<E, Q> *pb, const std::vector<size_t> &axes, QLTensor<E, Q> *pc) {
  sim::Work("tensor.expand");
  pa->Need_("Expand");
  pb->Need_("Expand");
  if (pa->Rank() != pb->Rank()) throw TensorMisuse("Expand: ranks differ");
  size_t r = pa->Rank();
  IndexVec<Q> ci;
  std::vector<std::vector<long>> ma(r), mb(r);
  std::vector<size_t> sh;
  for (size_t i = 0; i < r; ++i) {
    auto &ia = pa->GetIndex(i);
    auto &ib = pb->GetIndex(i);
    if (std::find(axes.begin(), axes.end(), i) != axes.end()) {
      if (ia.GetDir() != ib.GetDir()) throw TensorMisuse("Expand: directions differ");
      QNSectorVec<Q> s = ia.GetQNScts();
      for (auto &x : ib.GetQNScts()) s.push_back(x);
      ci.emplace_back(s, ia.GetDir());
      for (size_t k = 0; k < ib.dim(); ++k) mb[i].push_back(ia.dim() + k);
    } else {
      if (!(ia == ib)) throw TensorMisuse("Expand: unexpanded indexes differ");
      ci.push_back(ia);
    }
    sh.push_back(ci.back().dim());
  }
  size_t n = 1;
  for (auto x : sh) n *= x;
  std::vector<E> d(n, E(0));
  stub::Place(*pa, ma, d, sh);
  // overlap between a and b happens only when axes is empty
  stub::Place(*pb, mb, d, sh);
  Q q;
  bool h = pa->DivOpt(q) || pb->DivOpt(q);
  QLTensor<E, Q> c;
  c.Assign(ci, std::move(d));
  if (h) c.SetDiv(q);
  *pc = std::move(c);
}
// only quantum-number sectors of b that a does not have are appended (map value -1: dropped)
template<typename Q>
Index<Q> ExpandIndexMCAndRecordInfo(const Index<Q> &a, const Index<Q> &b, std::map<size_t, int> &m) {
  if (a.GetDir() != b.GetDir()) throw TensorMisuse("ExpandIndexMC: directions differ");
  QNSectorVec<Q> s = a.GetQNScts();
  m.clear();
  for (size_t k = 0; k < b.GetQNSctNum(); ++k) {
    bool has = false;
    for (auto &x : a.GetQNScts()) if (x.GetQn() == b.GetQNSct(k).GetQn()) has = true;
    if (has) m[k] = -1;
    else {
      s.push_back(b.GetQNSct(k));
      m[k] = int(s.size()) - 1;
    }
  }
  return Index<Q>(s, a.GetDir());
}
template<typename E, typename Q>
void ExpandQNBlocks(const QLTensor<E, Q> *pa, const QLTensor<E, Q> *pb, const std::vector<size_t> &axes,
                    QLTensor<E, Q> *pc) {
  sim::Work("tensor.expand_qn");
  pa->Need_("ExpandQNBlocks");
  pb->Need_("ExpandQNBlocks");
  if (pa->Rank() != pb->Rank()) throw TensorMisuse("ExpandQNBlocks: ranks differ");
  size_t r = pa->Rank();
  IndexVec<Q> ci;
  std::vector<std::vector<long>> ma(r), mb(r);
  std::vector<size_t> sh;
  for (size_t i = 0; i < r; ++i) {
    auto &ia = pa->GetIndex(i);
    auto &ib = pb->GetIndex(i);
    if (std::find(axes.begin(), axes.end(), i) != axes.end()) {
      std::map<size_t, int> m;
      ci.push_back(ExpandIndexMCAndRecordInfo(ia, ib, m));
      std::vector<size_t> off(1, 0);
      for (auto &s : ci.back().GetQNScts()) off.push_back(off.back() + s.GetDegeneracy());
      for (size_t k = 0; k < ib.GetQNSctNum(); ++k)
        for (size_t x = 0; x < ib.GetQNSct(k).GetDegeneracy(); ++x)
          mb[i].push_back(m[k] < 0 ? -1 : long(off[m[k]] + x));
    } else {
      if (ia.dim() != ib.dim() || ia.GetQNScts() != ib.GetQNScts())
        throw TensorMisuse("ExpandQNBlocks: unexpanded indexes differ");
      ci.push_back(ia);
    }
    sh.push_back(ci.back().dim());
  }
  size_t n = 1;
  for (auto x : sh) n *= x;
  std::vector<E> d(n, E(0));
  stub::Place(*pa, ma, d, sh);
  stub::Place(*pb, mb, d, sh);
  Q q;
  bool h = pa->DivOpt(q) || pb->DivOpt(q);
  QLTensor<E, Q> c;
  c.Assign(ci, std::move(d));
  if (h) c.SetDiv(q);
  *pc = std::move(c);
}

// ------------------------------------------------------------------ decompositions
namespace stub {
template<typename E, typename Q>
struct Blocks {
  size_t m = 1, n = 1;
  std::vector<E> d;                 // m x n
  std::vector<Q> qs;                // quantum number of the middle index (OUT on the left factor)
  std::vector<std::vector<size_t>> rows, cols;
  IndexVec<Q> li, ri;
};
template<typename E, typename Q>
Blocks<E, Q> Split(const QLTensor<E, Q> &t, size_t ldims, const Q &lq) {
  t.Need_("SVD/QR");
  if (ldims == 0 || ldims >= t.Rank()) throw TensorMisuse("SVD/QR: bad ldims");
  Blocks<E, Q> b;
  std::vector<Q> lqn(1), rqn(1);
  for (size_t i = 0; i < t.Rank(); ++i) {
    auto f = FlatQN(t.GetIndex(i));
    auto &v = i < ldims ? lqn : rqn;
    std::vector<Q> nv;
    nv.reserve(v.size() * f.size());
    for (auto &x : v) for (auto &y : f) nv.push_back(x + y);
    v.swap(nv);
    (i < ldims ? b.li : b.ri).push_back(t.GetIndex(i));
  }
  b.m = lqn.size();
  b.n = rqn.size();
  b.d = t.Raw();
  Q div;
  bool has = t.DivOpt(div);
  if (!has) div = lq;
  std::vector<double> w;
  for (size_t r = 0; r < b.m; ++r) {
    Q mq = lq - lqn[r];
    size_t k = 0;
    while (k < b.qs.size() && !(b.qs[k] == mq)) ++k;
    if (k == b.qs.size()) {
      b.qs.push_back(mq);
      b.rows.emplace_back();
      b.cols.emplace_back();
      w.push_back(0);
      for (size_t c = 0; c < b.n; ++c) if (lqn[r] + rqn[c] == div) b.cols.back().push_back(c);
    }
    b.rows[k].push_back(r);
    double s = 0;
    for (size_t c = 0; c < b.n; ++c) s += std::norm(b.d[r * b.n + c]);
    double sb = 0;
    for (auto c : b.cols[k]) sb += std::norm(b.d[r * b.n + c]);
    if (s - sb > 1e-20 + 1e-12 * s) throw TensorMisuse("SVD/QR: tensor mixes quantum number sectors");
    w[k] += sb;
  }
  double tot = 0;
  for (auto x : w) tot += x;
  Blocks<E, Q> o;
  o.m = b.m;
  o.n = b.n;
  o.li = b.li;
  o.ri = b.ri;
  o.d = std::move(b.d);
  for (size_t k = 0; k < b.qs.size(); ++k) {
    if (b.cols[k].empty()) continue;
    if (w[k] == 0 && tot > 0) continue;        // no such block
    o.qs.push_back(b.qs[k]);
    o.rows.push_back(b.rows[k]);
    o.cols.push_back(b.cols[k]);
  }
  if (o.qs.empty()) throw TensorMisuse("SVD/QR of a tensor without any block");
  return o;
}
} // stub

template<typename E, typename Q>
void SVD(const QLTensor<E, Q> *pt, const size_t ldims, const Q &lqndiv, const QLTEN_Double trunc_err,
         const size_t Dmin, const size_t Dmax, QLTensor<E, Q> *pu, QLTensor<QLTEN_Double, Q> *ps,
         QLTensor<E, Q> *pvt, QLTEN_Double *pact, size_t *pD) {
  sim::Work("tensor.svd");
  auto b = stub::Split(*pt, ldims, lqndiv);
  size_t nb = b.qs.size();
  std::vector<std::vector<E>> U(nb), V(nb);
  std::vector<std::vector<double>> S(nb);
  struct Item { double s; size_t blk; size_t pos; };
  std::vector<Item> all;
  double total = 0;
  for (size_t k = 0; k < nb; ++k) {
    size_t r = b.rows[k].size(), c = b.cols[k].size();
    std::vector<E> a(r * c);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) a[i * c + j] = b.d[b.rows[k][i] * b.n + b.cols[k][j]];
    sim::Svd(r, c, a.data(), U[k], S[k], V[k]);
    for (size_t i = 0; i < S[k].size(); ++i) {
      all.push_back({S[k][i], k, i});
      total += S[k][i] * S[k][i];
    }
  }
  std::stable_sort(all.begin(), all.end(), [](const Item &x, const Item &y) { return x.s > y.s; });
  size_t D = 0;
  double kept = 0;
  while (D < all.size() && D < Dmax) {
    double err = total > 0 ? 1 - kept / total : 0;
    if (D >= 1 && D >= Dmin && err <= std::max(trunc_err, 1e-15)) break;
    if (D >= 1 && D >= Dmin && all[D].s <= 1e-14 * all[0].s) break;
    if (D >= 1 && all[D].s == 0) break;
    kept += all[D].s * all[D].s;
    ++D;
  }
  std::vector<size_t> keep(nb, 0);
  for (size_t i = 0; i < D; ++i) keep[all[i].blk]++;
  QNSectorVec<Q> ms;
  for (size_t k = 0; k < nb; ++k) if (keep[k]) ms.emplace_back(b.qs[k], keep[k]);
  Index<Q> mo(ms, OUT), mi(ms, IN);
  std::vector<E> du(b.m * D, E(0)), dv(D * b.n, E(0));
  std::vector<double> ds(D * D, 0.0);
  size_t off = 0;
  for (size_t k = 0; k < nb; ++k) {
    size_t r = b.rows[k].size(), c = b.cols[k].size(), q = S[k].size();
    for (size_t x = 0; x < keep[k]; ++x) {
      for (size_t i = 0; i < r; ++i) du[b.rows[k][i] * D + off + x] = U[k][i * q + x];
      for (size_t j = 0; j < c; ++j) dv[(off + x) * b.n + b.cols[k][j]] = V[k][x * c + j];
      ds[(off + x) * D + off + x] = S[k][x];
    }
    off += keep[k];
  }
  Q div;
  bool has = pt->DivOpt(div);
  IndexVec<Q> ui = b.li, vi{mi};
  ui.push_back(mo);
  for (auto &x : b.ri) vi.push_back(x);
  QLTensor<E, Q> u, v;
  QLTensor<QLTEN_Double, Q> s;
  u.Assign(ui, std::move(du));
  v.Assign(vi, std::move(dv));
  s.Assign({mi, mo}, std::move(ds));
  u.SetDiv(lqndiv);
  s.SetDiv(Q());
  if (has) v.SetDiv(div - lqndiv);
  *pu = std::move(u);
  *ps = std::move(s);
  *pvt = std::move(v);
  *pact = total > 0 ? std::max(0.0, 1 - kept / total) : 0;
  *pD = D;
}

template<typename E, typename Q>
void QR(const QLTensor<E, Q> *pt, const size_t ldims, const Q &lqndiv, QLTensor<E, Q> *pq, QLTensor<E, Q> *pr) {
  sim::Work("tensor.qr");
  auto b = stub::Split(*pt, ldims, lqndiv);
  size_t nb = b.qs.size(), D = 0;
  std::vector<std::vector<E>> QQ(nb), R(nb);
  std::vector<size_t> kk(nb);
  QNSectorVec<Q> ms;
  for (size_t k = 0; k < nb; ++k) {
    size_t r = b.rows[k].size(), c = b.cols[k].size();
    std::vector<E> a(r * c);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) a[i * c + j] = b.d[b.rows[k][i] * b.n + b.cols[k][j]];
    kk[k] = std::min(r, c);
    sim::Qr(r, c, a.data(), QQ[k], R[k]);
    ms.emplace_back(b.qs[k], kk[k]);
    D += kk[k];
  }
  Index<Q> mo(ms, OUT), mi(ms, IN);
  std::vector<E> dq(b.m * D, E(0)), dr(D * b.n, E(0));
  size_t off = 0;
  for (size_t k = 0; k < nb; ++k) {
    size_t r = b.rows[k].size(), c = b.cols[k].size();
    for (size_t x = 0; x < kk[k]; ++x) {
      for (size_t i = 0; i < r; ++i) dq[b.rows[k][i] * D + off + x] = QQ[k][i * kk[k] + x];
      for (size_t j = 0; j < c; ++j) dr[(off + x) * b.n + b.cols[k][j]] = R[k][x * c + j];
    }
    off += kk[k];
  }
  Q div;
  bool has = pt->DivOpt(div);
  IndexVec<Q> qi = b.li, ri{mi};
  qi.push_back(mo);
  for (auto &x : b.ri) ri.push_back(x);
  QLTensor<E, Q> q, r;
  q.Assign(qi, std::move(dq));
  r.Assign(ri, std::move(dr));
  q.SetDiv(lqndiv);
  if (has) r.SetDiv(div - lqndiv);
  *pq = std::move(q);
  *pr = std::move(r);
}

// distributed SVD: the master hands out one token per slave and collects the acknowledgements in any order
template<typename E, typename Q>
void MPISVDMaster(const QLTensor<E, Q> *pt, const size_t ldims, const Q &lqndiv, const QLTEN_Double trunc_err,
                  const size_t Dmin, const size_t Dmax, QLTensor<E, Q> *pu, QLTensor<QLTEN_Double, Q> *ps,
                  QLTensor<E, Q> *pvt, QLTEN_Double *pact, size_t *pD, const MPI_Comm &comm) {
  int n;
  ::MPI_Comm_size(comm, &n);
  unsigned long long tok = 0x5bd;
  ::MPI_Bcast(&tok, 1, MPI_UNSIGNED_LONG_LONG, kMPIMasterRank, comm);
  SVD(pt, ldims, lqndiv, trunc_err, Dmin, Dmax, pu, ps, pvt, pact, pD);
  for (int i = 1; i < n; ++i) {
    unsigned long long a = 0;
    MPI_Status st;
    ::MPI_Recv(&a, 1, MPI_UNSIGNED_LONG_LONG, MPI_ANY_SOURCE, 77001, comm, &st);
    if (a != tok) throw TensorMisuse("MPISVD protocol mismatch");
  }
}
template<typename E>
void MPISVDSlave(const MPI_Comm &comm) {
  unsigned long long tok = 0;
  ::MPI_Bcast(&tok, 1, MPI_UNSIGNED_LONG_LONG, kMPIMasterRank, comm);
  if (tok != 0x5bd) throw TensorMisuse("MPISVD protocol mismatch");
  sim::Work("tensor.svd_slave");
  ::MPI_Send(&tok, 1, MPI_UNSIGNED_LONG_LONG, kMPIMasterRank, 77001, comm);
}

// ------------------------------------------------------------------ hp_numeric
namespace hp_numeric {
inline unsigned tensor_manipulation_num_threads = 1;
inline void SetTensorManipulationThreads(unsigned n) { tensor_manipulation_num_threads = n; }
inline unsigned GetTensorManipulationThreads() { return tensor_manipulation_num_threads; }
inline void SetTensorTransposeNumThreads(unsigned) {}
inline unsigned GetTensorTransposeNumThreads() { return 1; }
template<typename T>
void VectorScale(T *x, size_t n, const T s) { for (size_t i = 0; i < n; ++i) x[i] *= s; }
inline void VectorScale(QLTEN_Complex *x, size_t n, const double s) { for (size_t i = 0; i < n; ++i) x[i] *= s; }
template<typename T, typename C>
void VectorAddTo(const T *x, size_t n, T *y, const C a) { for (size_t i = 0; i < n; ++i) y[i] += T(a) * x[i]; }
template<typename T>
double Vector2Norm(const T *x, size_t n) {
  double s = 0;
  for (size_t i = 0; i < n; ++i) s += std::norm(x[i]);
  return std::sqrt(s);
}
inline void MPI_Send(const size_t n, int dest, int tag, const MPI_Comm &comm) {
  unsigned long long v = n;
  ::MPI_Send(&v, 1, MPI_UNSIGNED_LONG_LONG, dest, tag, comm);
}
inline MPI_Status MPI_Recv(size_t &n, int src, int tag, const MPI_Comm &comm) {
  unsigned long long v = 0;
  MPI_Status st;
  ::MPI_Recv(&v, 1, MPI_UNSIGNED_LONG_LONG, src, tag, comm, &st);
  n = v;
  return st;
}
template<typename T>
void MPI_Send(const T *p, size_t n, int dest, int tag, const MPI_Comm &comm) {
  sim::MpiSendString(std::string((const char *) p, n * sizeof(T)), dest, tag, comm);
}
template<typename T>
MPI_Status MPI_Recv(T *p, size_t n, int src, int tag, const MPI_Comm &comm) {
  std::string s;
  MPI_Status st = sim::MpiRecvString(s, src, tag, comm);
  if (s.size() != n * sizeof(T)) throw TensorMisuse("received raw data has wrong length");
  memcpy(p, s.data(), s.size());
  return st;
}
template<typename T>
void MPI_Bcast(T *p, size_t n, int root, const MPI_Comm &comm) {
  ::MPI_Bcast(p, int(n * sizeof(T)), MPI_BYTE, root, comm);
}
} // hp_numeric
} // qlten
#endif
