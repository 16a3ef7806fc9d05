// C09: homology representatives: change of basis is invertible, preferred representatives are canonical and homologous to the input
#include "hom.hpp"
using namespace bats;
inline DM colof(const DV& v) { DM c(v.size(), 1); for (size_t i = 0; i < v.size(); i++) c(i, 0) = v[i]; return c; }
template <int P> void reps(const vector<size_t>& n, size_t k, int alg) { typedef CM<P> M; typedef typename M::col_type V; vector<DM> B = symcomplex(n, P); ChainComplex<M> C = complexof<M>(B);
  auto go = [&](const ReducedChainComplex<M>& R, const char* what) { DV c(n[k]); if (sk().seeds) c = skvals("c", n[k], P); else for (auto& x : c) x = bsx::sym("c", 0, P - 1); V v = vecof<V>(c); DM bd = k + 1 < n.size() ? B[k + 1] : DM(n[k], 0); size_t rb = drank(bd, P);
    V h = R.to_hom_basis(v, k); REQUIRE_MSG(wf(h, n[k]), what); REQUIRE_MSG(dvec(R.from_hom_basis(h, k), n[k]) == c, "change of basis round trip");
    DM G(n[k], 0); for (size_t j = 0; j < R.hdim(k); j++) { DM g = colof(dvec(R.get_preferred_representative(j, k), n[k])); REQUIRE_MSG(dzero(dmul(B[k], g, P)), "representative is a cycle"); G = dhcat(G, g); } REQUIRE_MSG(drank(dhcat(bd, G), P) == rb + G.n, "representatives independent modulo boundaries");
    V r = R.chain_preferred_representative(v, k); REQUIRE_MSG(wf(r, n[k]), what); DM dr = colof(dvec(r, n[k])), diff = dadd(colof(c), dr, -1, P); REQUIRE_MSG(drank(dhcat(bd, diff), P) == rb, "preferred representative is homologous to the chain");
    if (dzero(dmul(B[k], colof(c), P))) { REQUIRE_MSG(drank(dhcat(G, dr), P) == G.n, "preferred representative of a cycle is a combination of the generators"); bool bnd = drank(dhcat(bd, colof(c)), P) == rb; REQUIRE_MSG(!bnd || r.nnz() == 0, "preferred representative of a boundary is zero"); }
    V again = R.chain_preferred_representative(r, k); REQUIRE_MSG(again == r, "preferred representative is idempotent"); obsm(dr); };
  if (alg == 0) go(ReducedChainComplex<M>(C), "default"); if (alg == 1) go(ReducedChainComplex<M>(C, extra_reduction_flag(), compute_basis_flag()), "extra"); if (alg == 2) go(ReducedChainComplex<M>(C, standard_reduction_flag(), clearing_flag(), compute_basis_flag()), "clearing"); if (alg == 3) go(ReducedChainComplex<M>(C, standard_reduction_flag(), compression_flag(), compute_basis_flag()), "compression"); 
  if (alg == 4) { ReducedChainComplex<M> R(C); R.sparsify_basis(); R.remove_extra_cycles(); go(R, "sparsified"); } if (alg == 5) go(ReducedChainComplex<M>(C, divide_conquer_flag(), compute_basis_flag()), "divide and conquer"); END(); }
#define RP(a) BSX_ENTRY(r2_1_##a) { reps<2>({2, 3, 2}, 1, a); } BSX_ENTRY(r2_0_##a) { reps<2>({3, 3}, 0, a); } BSX_ENTRY(r2_2_##a) { reps<2>({2, 2, 2}, 2, a); } BSX_ENTRY(r3_1_##a) { reps<3>({2, 2, 2}, 1, a); }
RP(0) RP(1) RP(2) RP(3) RP(4) RP(5)
#define R5(a) BSX_ENTRY(r5_##a) { reps<5>({1, 2, 1}, 1, a); } BSX_ENTRY(r5b_##a) { reps<5>({2, 2}, 0, a); }
R5(0) R5(1) R5(2) R5(3) R5(4) R5(5)
#define RS(a) SKEL(k2_##a, 6, 2, reps<2>({5, 8, 4}, 1, a)) SKEL(k3_##a, 6, 2, reps<3>({4, 6, 4}, 1, a)) SKEL(k0_##a, 6, 2, reps<3>({6, 5}, 0, a))
RS(0) RS(1) RS(2) RS(3) RS(4) RS(5)
#if BSX_TIER
#define RT(a) BSX_ENTRY(t2_1_##a) { reps<2>({3, 3, 3}, 1, a); } BSX_ENTRY(t2_1b_##a) { reps<2>({2, 4, 2}, 1, a); } BSX_ENTRY(t3_1_##a) { reps<3>({2, 3, 2}, 1, a); } BSX_ENTRY(t5_1_##a) { reps<5>({1, 2, 2}, 1, a); } BSX_ENTRY(t3_0_##a) { reps<3>({3, 3}, 0, a); }
RT(0) RT(1) RT(2) RT(3) RT(4)
#endif
