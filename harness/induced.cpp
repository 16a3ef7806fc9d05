// C12: induced maps on homology are the maps of homology classes, hence functorial, for every basis flag
#include "hom.hpp"
using namespace bats;
template <class M> DM gens(const ReducedChainComplex<M>& R, size_t k, size_t n) { DM G(n, 0); for (size_t j = 0; j < R.hdim(k); j++) { DV v = dvec(R.get_preferred_representative(j, k), n); DM g(n, 1); for (size_t i = 0; i < n; i++) g(i, 0) = v[i]; G = dhcat(G, g); } return G; }
template <class M> ReducedChainComplex<M> red(const ChainComplex<M>& C, int alg) { if (alg == 1) return ReducedChainComplex<M>(C, extra_reduction_flag(), compute_basis_flag()); if (alg == 2) return ReducedChainComplex<M>(C, standard_reduction_flag(), clearing_flag(), compute_basis_flag()); if (alg == 3) return ReducedChainComplex<M>(C, standard_reduction_flag(), compression_flag(), compute_basis_flag()); if (alg == 4) { ReducedChainComplex<M> R(C); R.sparsify_basis(); R.remove_extra_cycles(); return R; } return ReducedChainComplex<M>(C); }
template <int P> void ind(const vector<size_t>& n, const vector<size_t>& m, int alg) { typedef CM<P> M; vector<DM> B = symcomplex(n, P, "b"), D = symcomplex(m, P, "d"); vector<DM> F = symmap(B, D, P, "f"); auto RB = red(complexof<M>(B), alg), RD = red(complexof<M>(D), alg); vector<M> fm; for (auto& f : F) fm.push_back(matof<M>(f)); ChainMap<M> CF(fm);
  for (size_t k = 0; k < n.size(); k++) { M H = induced_map(CF, RB, RD, k); REQUIRE_MSG(wfm(H) && H.nrow() == RD.hdim(k) && H.ncol() == RB.hdim(k), "shape"); DM G = gens(RB, k, n[k]), E = gens(RD, k, m[k]); DM bd = k + 1 < m.size() ? D[k + 1] : DM(m[k], 0); DM diff = dadd(dmul(F[k], G, P), dmul(E, dense(H), P), -1, P); REQUIRE_MSG(drank(dhcat(bd, diff), P) == drank(bd, P), "induced map carries each class to the class of its image"); obsm(dense(H)); } END(); }
template <int P> void func(const vector<size_t>& n, int alg) { typedef CM<P> M; vector<DM> B = symcomplex(n, P, "b"); vector<DM> F = symmap(B, B, P, "f"), G = symmap(B, B, P, "g"); auto R = red(complexof<M>(B), alg); vector<M> fm, gm, hm, id; for (size_t k = 0; k < n.size(); k++) { fm.push_back(matof<M>(F[k])); gm.push_back(matof<M>(G[k])); hm.push_back(gm[k] * fm[k]); id.push_back(M::identity(n[k])); } ChainMap<M> CF(fm), CG(gm), CH(hm), CI(id);
  for (size_t k = 0; k < n.size(); k++) { M a = induced_map(CF, R, R, k), b = induced_map(CG, R, R, k), c = induced_map(CH, R, R, k), i = induced_map(CI, R, R, k); REQUIRE_MSG(b * a == c, "composition"); REQUIRE_MSG(deq(dense(i), deye(R.hdim(k))), "identity"); obsm(dense(c)); } END(); }
#define IP(a) BSX_ENTRY(i2_##a) { ind<2>({2, 2, 1}, {2, 2, 1}, a); } BSX_ENTRY(i2b_##a) { ind<2>({1, 2, 2}, {1, 2, 1}, a); } BSX_ENTRY(i3_##a) { ind<3>({1, 2}, {2, 1}, a); } BSX_ENTRY(f2_##a) { func<2>({1, 2}, a); }
IP(0) IP(1) IP(2) IP(3) IP(4)
// targets with several generators above and below boundary pivots
#define IW(a) BSX_ENTRY(w2_##a) { ind<2>({1}, {3, 1}, a); } BSX_ENTRY(w2b_##a) { ind<2>({1, 1}, {3, 2}, a); } BSX_ENTRY(w3_##a) { ind<3>({1}, {3, 1}, a); }
IW(0) IW(1) IW(2) IW(3) IW(4)
BSX_ENTRY(w4_0) { ind<2>({1}, {4, 1}, 0); } BSX_ENTRY(w4_2) { ind<2>({1}, {4, 2}, 2); }
BSX_ENTRY(f22_0) { func<2>({2, 2}, 0); }
BSX_ENTRY(f22_2) { func<2>({2, 2}, 2); }
#define I5(a) BSX_ENTRY(i5_##a) { ind<5>({1, 2}, {1, 2}, a); } BSX_ENTRY(i5b_##a) { ind<5>({2, 1}, {2, 1}, a); }
I5(0) I5(1) I5(2) I5(3) I5(4)
#define IS(a) SKEL(k2_##a, 6, 1, ind<2>({4, 5, 3}, {3, 5, 2}, a)) SKEL(k3_##a, 6, 1, ind<3>({3, 4, 2}, {4, 4, 2}, a)) SKEL(kf2_##a, 4, 1, func<2>({4, 5, 2}, a)) SKEL(kf3_##a, 4, 1, func<3>({3, 4}, a))
IS(0) IS(1) IS(2) IS(3) IS(4)
#if BSX_TIER
#define IT(a) BSX_ENTRY(ti2_##a) { ind<2>({2, 3, 1}, {2, 2, 1}, a); } BSX_ENTRY(ti2b_##a) { ind<2>({2, 2, 1}, {2, 3, 2}, a); } BSX_ENTRY(ti3_##a) { ind<3>({1, 2, 1}, {1, 2, 1}, a); } BSX_ENTRY(tf22_##a) { func<2>({2, 2}, a); } BSX_ENTRY(tf2_##a) { func<2>({1, 2, 2}, a); } BSX_ENTRY(tf3_##a) { func<3>({1, 2}, a); }
IT(0) IT(1) IT(2) IT(3) IT(4)
#endif
