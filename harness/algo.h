// Serial algorithms behind one call. Define VH_* before including to choose what gets compiled.
#ifndef VERIF_ALGO_H
#define VERIF_ALGO_H
#include "qlmps/one_dim_tn/mps_all.h"
#include "qlmps/one_dim_tn/mpo/mpogen/mpogen.h"
#include "qlmps/algorithm/finite_vmps_sweep_params.h"
#ifdef VH_VMPS
#include "qlmps/algorithm/vmps/vmps_all.h"
#endif
#ifdef VH_DMRG
#include "qlmps/algorithm/dmrg/dmrg.h"
#endif
#ifdef VH_TDVP
#include "qlmps/algorithm/tdvp/tdvp_evolve_params.h"
#include "qlmps/algorithm/tdvp/two_site_update_finite_tdvp_impl.h"
#endif
#include "common.h"
namespace vh {
template<typename E>
qlmps::SiteVec<E, QNT> Sites(const Model &m) {
  qlten::IndexVec<QNT> v;
  for (int i = 0; i < m.n; ++i) v.push_back(SiteIndex(m, i));
  return qlmps::SiteVec<E, QNT>(v);
}
template<typename E>
qlmps::MPOGenerator<E, QNT> Generator(const Model &m) {
  qlmps::MPOGenerator<E, QNT> g(Sites<E>(m), Qn(0));
  for (auto &t : m.terms) {
    E c = Scalar<E>::Make(t.c.real(), t.c.imag());
    std::vector<Ten<E>> ops;
    std::vector<size_t> st;
    for (size_t k = 0; k < t.site.size(); ++k) {
      ops.push_back(LocalOp<E>(m, t.site[k], t.op[k]));
      st.push_back(t.site[k]);
    }
    if (t.has_jw && t.site.size() == 2 && t.site[1] > t.site[0] + 1) {
      std::vector<size_t> in;
      for (int i = t.site[0] + 1; i < t.site[1]; ++i) in.push_back(i);
      // one string operator per site; sites may differ in dimension
      std::vector<Ten<E>> all{ops[0]};
      std::vector<size_t> as{st[0]};
      for (size_t i : in) {
        all.push_back(LocalOp<E>(m, i, OpParity(m.d[i])));
        as.push_back(i);
      }
      all.push_back(ops[1]);
      as.push_back(st[1]);
      g.AddTerm(c, all, as);
    } else {
      g.AddTerm(c, ops, st);
    }
  }
  return g;
}
struct AlgoPar {
  size_t sweeps = 3, dmin = 1, dmax = 64;
  double trunc = 1e-14, lerr = 1e-10;
  size_t liter = 200;
  std::string mps, temp;
  std::vector<double> noises;
  qlmps::FiniteVMPSSweepParams Sweep() const {
    qlmps::LanczosParams l(lerr, liter);
    qlmps::FiniteVMPSSweepParams s(sweeps, dmin, dmax, trunc, l, mps, temp);
    if (!noises.empty()) {
      s.noises = noises;
      s.noise_valid = true;
      s.max_noise = 1;
      s.noise_increase = 1.02;
      s.noise_decrease = 0.95;
      s.alpha = 0.3;
    }
    return s;
  }
};
}
#endif
