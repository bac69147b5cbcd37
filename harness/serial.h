// Every serial sweep algorithm behind one call, with a dense reference for the time evolution.
#ifndef VERIF_SERIAL_H
#define VERIF_SERIAL_H
#ifndef VH_VMPS
#define VH_VMPS
#endif
#ifndef VH_DMRG
#define VH_DMRG
#endif
#ifndef VH_TDVP
#define VH_TDVP
#endif
#include "algo.h"
#include "qlmps/algorithm/vmps/single_site_update_finite_vmps_impl.h"
#include "qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h"
namespace vh {
enum { A_TWO = 0, A_SINGLE, A_NOISE, A_DMRG, A_TDVP, A_NUM };
inline const char *AlgoName(int a) {
  static const char *n[] = {"two-site VMPS", "single-site VMPS", "noised VMPS", "DMRG", "TDVP"};
  return n[a];
}
struct TdvpPar {
  double tau = 0.05;
  size_t step = 2, site0 = 2;
  int op0 = 0, op1 = 0;       // 0 Sz-like, 1 raise, 2 lower, 3 identity, 4 Sz+0.7
  bool string = false;
  double e0 = 0;
  std::string init, meas, file;
};
inline std::vector<double> TdvpOp(int k, int d) {
  if (k == 1) return OpUp(d);
  if (k == 2) return OpDn(d);
  std::vector<double> m(d * d, 0);
  if (k == 3 || k == 4) for (int i = 0; i < d; ++i) m[i * d + i] = 1;
  if (k == 3) return m;
  auto z = OpSz(d);
  for (int i = 0; i < d * d; ++i) m[i] = z[i] + (k == 4 ? 0.7 * m[i] : 0);
  return m;
}
inline int TdvpCharge(const Model &m, int k) { return !m.u1 ? 0 : k == 1 ? 2 : k == 2 ? -2 : 0; }
// applies a local matrix at site s, in place
inline std::vector<Zc> ApplyLocal(const Model &m, const std::vector<Zc> &x, int s, const std::vector<double> &op) {
  long st = 1;
  for (int i = s + 1; i < m.n; ++i) st *= m.d[i];
  int d = m.d[s];
  std::vector<Zc> y(x.size(), 0);
  for (long k = 0; k < long(x.size()); ++k) {
    if (x[k] == Zc(0)) continue;
    int g = (k / st) % d;
    for (int o = 0; o < d; ++o) if (op[o * d + g] != 0) y[k + (o - g) * st] += op[o * d + g] * x[k];
  }
  return y;
}
inline std::vector<Zc> WithString(const Model &m, std::vector<Zc> x, int s, const std::vector<double> &op, bool str) {
  x = ApplyLocal(m, x, s, op);
  if (str) for (int i = 0; i < s; ++i) x = ApplyLocal(m, x, i, OpParity(m.d[i]));
  return x;
}
// exp(-iHt) x inside the charge sector
inline std::vector<Zc> Evolve(const Model &m, const Spectrum &s, const std::vector<Zc> &x, double t) {
  size_t n = s.basis.size();
  std::vector<Zc> c(n, 0), y(x.size(), 0);
  for (size_t k = 0; k < n; ++k) {
    for (size_t i = 0; i < n; ++i) c[k] += std::conj(s.v[i * n + k]) * x[s.basis[i]];
    c[k] *= std::exp(Zc(0, -s.w[k] * t));
  }
  for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k) y[s.basis[i]] += s.v[i * n + k] * c[k];
  return y;
}
// the correlators the library documents: rows (step+1) x N
inline std::vector<Zc> TdvpReference(const Model &m, const std::vector<Zc> &psi0, const std::vector<Zc> &start, const TdvpPar &t,
                                     int charge, std::vector<std::vector<Zc>> *states = nullptr) {
  auto phi = WithString(m, start, int(t.site0), TdvpOp(t.op0, m.d[t.site0]), t.string);
  Spectrum sp = Diag(m, charge + TdvpCharge(m, t.op0));
  std::vector<Zc> r;
  for (size_t k = 0; k <= t.step; ++k) {
    double tm = k * t.tau;
    auto x = Evolve(m, sp, phi, tm);
    if (states) states->push_back(x);
    for (int i = 0; i < m.n; ++i) r.push_back(Dot(psi0, WithString(m, x, i, TdvpOp(t.op1, m.d[i]), t.string)) * std::exp(Zc(0, t.e0 * tm)));
  }
  return r;
}
inline std::function<void()> &BeforeCall() { static std::function<void()> f; return f; }   // the model is built, the call follows
inline std::function<void()> &AfterCall() { static std::function<void()> f; return f; }
template<typename E, typename Params = qlmps::TDVPEvolveParams<QNT>, typename... Comm>
void RunTdvp(const Model &m, const AlgoPar &a, const TdvpPar &t, const Comm &...comm) {
  if constexpr (std::is_same_v<E, Zc>) {
    auto mpo = Generator<E>(m).Gen();
    qlmps::FiniteMPS<E, QNT> mps(Sites<E>(m));
    auto op = [&](int k) { return LocalOp<E>(m, int(t.site0), TdvpOp(k, m.d[t.site0])); };
    Ten<E> inst = t.string ? LocalOp<E>(m, int(t.site0), OpParity(m.d[t.site0])) : Ten<E>();
    Params p(t.tau, t.step, t.site0, op(t.op0), inst, op(t.op1), inst, t.e0, a.dmin, a.dmax, a.trunc,
                                   qlmps::LanczosParams(1e-12, 60), a.mps, t.init, a.temp, t.meas);
    if (BeforeCall()) BeforeCall()();
    auto r = qlmps::TwoSiteFiniteTDVP(mps, mpo, p, t.file, comm...);
    if (AfterCall()) AfterCall()();
    if (CurrentRank() != 0) return;
    std::vector<double> v, meta;
    for (auto &x : r) {
      v.push_back(x.avg.real());
      v.push_back(x.avg.imag());
      meta.push_back(x.times.size() == 2 ? x.times[1] : -1);
      meta.push_back(x.sites.size() == 2 ? x.sites[0] * 1000.0 + x.sites[1] : -1);
    }
    Put("r", v);
    Put("meta", meta);
    if (!mps.empty()) Fail("tdvp.mps-loaded", "site tensors are still loaded in memory after the call returned");
  }
}
template<typename E>
void RunSerialT(const Model &m, int algo, const AlgoPar &a, const TdvpPar &t) {
  if (algo == A_TDVP) {
    RunTdvp<E>(m, a, t);
    return;
  }
  qlmps::FiniteMPS<E, QNT> mps(Sites<E>(m));
  auto sp = a.Sweep();
  double e;
  if (algo == A_DMRG) {
    auto mpo = Generator<E>(m).GenMatReprMPO();
    if (BeforeCall()) BeforeCall()();
    e = qlmps::FiniteDMRG(mps, mpo, sp);
    if (AfterCall()) AfterCall()();
  } else {
    auto mpo = Generator<E>(m).Gen();
    if (BeforeCall()) BeforeCall()();
    e = algo == A_TWO ? qlmps::TwoSiteFiniteVMPS(mps, mpo, sp) : algo == A_SINGLE ? qlmps::SingleSiteFiniteVMPS(mps, mpo, sp)
      : qlmps::TwoSiteFiniteVMPSWithNoise(mps, mpo, sp);
    if (AfterCall()) AfterCall()();
  }
  Put("e", e);
  if (!mps.empty()) Fail("run.mps-loaded", "site tensors are still loaded in memory after the call returned");
}
inline void RunSerial(const Model &m, bool real, int algo, const AlgoPar &a, const TdvpPar &t) {
  real ? RunSerialT<double>(m, algo, a, t) : RunSerialT<Zc>(m, algo, a, t);
}
inline MpsReport Look(const std::string &d, const Model &m, int c, bool real) {
  return real ? Inspect<double>(d, m, c) : Inspect<Zc>(d, m, c);
}
// start state in `dir`
template<typename E>
void InitStateT(const Model &m, int kind, long iseed, const std::string &dir, int charge, const std::vector<size_t> &lab) {
  NoFaults nf;
  if (kind == 0) {
    WriteMps(dir, MpsOf<E>(m, RandomState<E>(m, charge, Mix(iseed, 77)), charge));
    return;
  }
  qlmps::FiniteMPS<E, QNT> mps(Sites<E>(m));
  if (kind == 1) {
    qlmps::DirectStateInitMps(mps, lab);
  } else {
    std::vector<std::vector<size_t>> set{lab};
    for (int k = 0; k < 60 && set.size() < 3; ++k) {
      Rng r(Mix(iseed, 1000 + k));
      std::vector<size_t> l;
      for (int i = 0; i < m.n; ++i) l.push_back(r.Below(m.d[i]));
      if (ChargeOf(m, l) == charge) set.push_back(l);
    }
    qlmps::ExtendDirectRandomInitMps(mps, set, 2);
    mps.Centralize(0);
  }
  MkDir(dir);
  mps.Dump(dir, true);
}
inline void InitState(const Model &m, bool real, int kind, long iseed, const std::string &dir, int charge, const std::vector<size_t> &lab) {
  real ? InitStateT<double>(m, kind, iseed, dir, charge, lab) : InitStateT<Zc>(m, kind, iseed, dir, charge, lab);
}
}
#endif
