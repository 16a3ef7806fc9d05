// C14: updating a filtration in place gives the same persistence as recomputing from scratch
#include "filt.hpp"
using namespace bats;
// boundary matrices of a chain complex in filtration order, from the original ones and the stored order
inline bool sameorder(const vector<vector<size_t>>& perm, const IV& v) { for (size_t k = 0; k < v.size(); k++) { if (perm[k].size() != v[k].size()) return false; for (size_t i = 0; i + 1 < perm[k].size(); i++) if (v[k][perm[k][i]] > v[k][perm[k][i + 1]]) return false; } return true; }
inline DM reorder(const vector<DM>& B, const vector<vector<size_t>>& perm, size_t k) { DM b(B[k].m, B[k].n); for (size_t i = 0; i < b.m; i++) for (size_t j = 0; j < b.n; j++) b(i, j) = B[k](k ? perm[k - 1][i] : i, perm[k][j]); return b; }
template <class M> void consistent(const ReducedChainComplex<M>& R, const vector<DM>& B, const vector<vector<size_t>>& perm, int P, const char* what) {
  for (size_t k = 0; k < B.size(); k++) { DM b = reorder(B, perm, k), u = dense(R.U[k]), r = dense(R.R[k]); REQUIRE_MSG(wfm(R.U[k]) && wfm(R.R[k]), what); REQUIRE_MSG(dupperinv(u), what); REQUIRE_MSG(r.m == b.m && r.n == b.n && deq(dmul(b, u, P), r), what); REQUIRE_MSG(dreduced(r), what); REQUIRE_MSG(R.betti(k) == dbetti(B, k, P), what); }
}
template <class F> void apply(F& r, const vector<vector<double>>& v, int alg) { r.update_filtration(v); }
template <int P> void revalue(const vector<size_t>& n, int V, int w) {
  typedef CM<P> M; AnyCpx X{symcomplex(n, P)}; IV v = symvals(X.B, V, "t"), nv = symvals(X.B, V, "u"); Filtration<double, AnyCpx> F(X, todouble(v)); FilteredChainComplex<double, M> C(F); typedef ReducedFilteredChainComplex<double, M> R;
  R r = w == 1 ? R(C, extra_reduction_flag(), compute_basis_flag()) : w == 2 ? R(C, standard_reduction_flag(), clearing_flag(), compute_basis_flag()) : w == 3 ? R(C, standard_reduction_flag(), compression_flag(), compute_basis_flag()) : R(C);
  r.update_filtration(todouble(nv)); REQUIRE(sameorder(r.perm, nv)); consistent(r.RC, X.B, r.perm, P, "updated reduction"); check_pairs(allpairs(r), X.B, nv, V, P, "barcode after update");
  FilteredChainComplex<double, M> D(C); D.update_filtration(todouble(nv)); REQUIRE(sameorder(D.perm, nv)); for (size_t k = 0; k < n.size(); k++) REQUIRE_MSG(wfm(D.C[k]) && deq(dense(D.C[k]), reorder(X.B, D.perm, k)), "updated filtered complex");
  for (size_t k = 0; k < n.size(); k++) for (auto& x : r.persistence_pairs(k)) { bsx::obs(x.birth_ind); bsx::obs(x.death_ind); }
  // and back again: a second update starts from an updated state
  if (w == 0) { r.update_filtration(todouble(v)); consistent(r.RC, X.B, r.perm, P, "second update"); check_pairs(allpairs(r), X.B, v, V, P, "barcode after second update"); }
  END();
}
// general update between different simplicial complexes (F2)
inline void general(size_t nv, const vector<vector<size_t>>& cand, int V, int w, bool symv = false) {
  typedef CM<2> M; SimplicialComplex X = symsimp(nv, cand, "x", 2, symv), Y = symsimp(nv, cand, "y", 2, symv); vector<DM> B = bdense(X, 2), D = bdense(Y, 2); ASSUME(B.size() == D.size()); IV v = symvals(B, V, "t"), u = symvals(D, V, "u"); typedef Filtration<double, SimplicialComplex> FT; FT F(X, todouble(v)), G(Y, todouble(u)); typedef ReducedFilteredChainComplex<double, M> R; FilteredChainComplex<double, M> C(F); R r = w == 1 ? R(C, standard_reduction_flag(), clearing_flag(), compute_basis_flag()) : R(C);
  Update_info<FT> I(F, G); r.update_filtration_general(I); REQUIRE(sameorder(r.perm, u)); consistent(r.RC, D, r.perm, 2, "generally updated reduction"); check_pairs(allpairs(r), D, u, V, 2, "barcode after general update");
  C.update_filtration_general(I); for (size_t k = 0; k < D.size(); k++) REQUIRE_MSG(wfm(C.C[k]) && deq(dense(C.C[k]), reorder(D, C.perm, k)), "generally updated filtered complex");
  for (size_t k = 0; k < D.size(); k++) for (auto& x : r.persistence_pairs(k)) { bsx::obs(x.birth_ind); bsx::obs(x.death_ind); } END();
}
#define RV(w) BSX_ENTRY(a2_##w) { revalue<2>({2, 2, 1}, 1, w); } BSX_ENTRY(b2_##w) { revalue<2>({2, 3}, 1, w); } BSX_ENTRY(a3_##w) { revalue<3>({2, 2}, 1, w); } BSX_ENTRY(c_##w) { revalue<2>({3}, 1, w); }
RV(0)
#define RW(w) BSX_ENTRY(a2_##w) { revalue<2>({2, 2, 1}, 1, w); } BSX_ENTRY(a3_##w) { revalue<3>({2, 2}, 1, w); }
RW(1) RW(2) RW(3)
#define R5(w) BSX_ENTRY(a5_##w) { revalue<5>({1, 2}, 1, w); }
R5(0) R5(1) R5(2) R5(3)
#define E4 {{0, 1}, {0, 2}, {1, 2}, {0, 1, 2}}
BSX_ENTRY(g0) { general(3, E4, 1, 0); }
BSX_ENTRY(g1) { general(3, E4, 1, 1); }
BSX_ENTRY(g2) { general(3, {{0, 1}, {1, 2}}, 1, 0, true); }
BSX_ENTRY(g3) { general(3, {{0, 1}, {1, 2}}, 1, 1, true); }
BSX_ENTRY(gv) { general(3, {}, 1, 0, true); }
#define RS(w) SKEL(k2_##w, 6, 1, revalue<2>({5, 6, 3}, 2, w)) SKEL(k3_##w, 3, 1, revalue<3>({4, 4, 3}, 2, w))
RS(0) RS(1) RS(2) RS(3)
#define E12 {{0, 1}, {0, 2}, {1, 2}, {0, 1, 2}, {2, 3}, {1, 3}, {3, 4}, {2, 4}, {1, 2, 3}, {0, 4}, {2, 3, 4}, {0, 3}}
SKEL(kg0, 8, 2, general(5, E12, 2, 0)) SKEL(kg1, 8, 2, general(5, E12, 2, 1))
#if BSX_TIER
#define RT(w) BSX_ENTRY(t2_##w) { revalue<2>({2, 3}, 1, w); } BSX_ENTRY(t2b_##w) { revalue<2>({2, 2, 2}, 1, w); } BSX_ENTRY(t3_##w) { revalue<3>({2, 2, 1}, 1, w); }
RT(0) RT(1) RT(2) RT(3)
BSX_ENTRY(tg0) { general(3, E4, 2, 0); }
BSX_ENTRY(tg1) { general(3, E4, 1, 0, true); }
BSX_ENTRY(tg2) { general(4, {{0, 1}, {1, 2}, {2, 3}, {0, 2}, {0, 1, 2}}, 1, 0); }
#endif
