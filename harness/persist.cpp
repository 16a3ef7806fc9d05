// C13: persistence pairs of a filtered complex are the barcode (all flags), with valid representatives
#include "filt.hpp"
using namespace bats;
template <class T, class M> void reps(const ReducedFilteredChainComplex<T, M>& R, const vector<DM>& B, const IV& v, int P, const char* what) {
  for (size_t k = 0; k < B.size(); k++) for (auto& x : R.persistence_pairs(k)) {
    auto c = R.representative(x); REQUIRE_MSG(wf(c, B[k].n), what); DV d = dvec(c, B[k].n); DM col(B[k].n, 1); for (size_t i = 0; i < d.size(); i++) col(i, 0) = d[i];
    REQUIRE_MSG(dzero(dmul(B[k], col, P)), "representative is a cycle"); REQUIRE_MSG(d[x.birth_ind] != 0, "representative uses its birth cell"); for (size_t i = 0; i < d.size(); i++) if (d[i]) REQUIRE_MSG((T)v[k][i] <= x.birth, "representative exists at birth");
  }
}
template <int P, class R> void one(const R& r, const vector<DM>& B, const IV& v, int V, const char* what, bool basis) { check_pairs(allpairs(r), B, v, V, P, what); if (basis) reps(r, B, v, P, what); }
// pairs in filtration order name the same cells
template <class T, class M> void permuted(const ReducedFilteredChainComplex<T, M>& R, const vector<DM>& B) {
  for (size_t k = 0; k < B.size(); k++) { auto a = R.persistence_pairs(k), b = R.persistence_pairs(k, true); REQUIRE(a.size() == b.size()); auto vec = R.persistence_pairs_vec(k); REQUIRE(std::get<0>(vec).size() == 2 * a.size() && std::get<1>(vec).size() == 2 * a.size());
    for (size_t i = 0; i < a.size(); i++) { REQUIRE(R.perm[k][b[i].birth_ind] == a[i].birth_ind && b[i].birth == a[i].birth && b[i].death == a[i].death); if (a[i].death_ind == bats::NO_IND) REQUIRE(b[i].death_ind == bats::NO_IND); else REQUIRE(R.perm[k + 1][b[i].death_ind] == a[i].death_ind);
      REQUIRE(std::get<0>(vec)[2 * i] == a[i].birth && std::get<0>(vec)[2 * i + 1] == a[i].death && std::get<1>(vec)[2 * i] == a[i].birth_ind && std::get<1>(vec)[2 * i + 1] == a[i].death_ind); auto c = R.representative(b[i], true); REQUIRE(c.nnz() > 0 && c.lastnz().ind == b[i].birth_ind); } }
}
template <int P> void any(const vector<size_t>& n, int V, int lo, int hi) {
  typedef CM<P> M; AnyCpx X{symcomplex(n, P)}; IV v = symvals(X.B, V); Filtration<double, AnyCpx> F(X, todouble(v)); FilteredChainComplex<double, M> C(F); int w = lo == hi ? lo : bsx::pick("flag", lo, hi); typedef ReducedFilteredChainComplex<double, M> R;
  if (w == 0) { R r(C); one<P>(r, X.B, v, V, "default", true); permuted(r, X.B); for (size_t k = 0; k < n.size(); k++) for (auto& x : r.persistence_pairs(k)) { bsx::obs(x.birth_ind); bsx::obs(x.death_ind); } }
  if (w == 1) { one<P>(R(C, standard_reduction_flag()), X.B, v, V, "standard", false); one<P>(R(C, extra_reduction_flag(), compute_basis_flag()), X.B, v, V, "extra with basis", true); }
  if (w == 2) { one<P>(R(C, standard_reduction_flag(), clearing_flag()), X.B, v, V, "clearing", false); one<P>(R(C, standard_reduction_flag(), clearing_flag(), compute_basis_flag()), X.B, v, V, "clearing with basis", true); }
  if (w == 3) { one<P>(R(C, standard_reduction_flag(), compression_flag()), X.B, v, V, "compression", false); one<P>(R(C, standard_reduction_flag(), compression_flag(), compute_basis_flag()), X.B, v, V, "compression with basis", true); }
  if (w == 4) { R r(C); r.sparsify_basis(); one<P>(r, X.B, v, V, "sparsified", true); r.remove_extra_cycles(); one<P>(r, X.B, v, V, "extra cycles removed", true); }
  END();
}
// public entry points on real simplicial filtrations
template <int P> void simp(size_t nv, const vector<vector<size_t>>& cand, int V) {
  SimplicialComplex X = symsimp(nv, cand, "has", 2); vector<DM> B = bdense(X, P); IV v = symvals(B, V); Filtration<double, SimplicialComplex> F(X, todouble(v)); auto R = Reduce(F, ModP<int, P>()); one<P>(R, B, v, V, "Reduce(F)", true);
  auto R2 = Reduce(F, ModP<int, P>(), standard_reduction_flag(), clearing_flag()); one<P>(R2, B, v, V, "Reduce(F, clearing)", false); auto R3 = Reduce(Chain(F, ModP<int, P>())); one<P>(R3, B, v, V, "Reduce(Chain(F))", false);
  // sublevel sets are the complexes the barcode describes
  int a = bsx::sym("a", 0, V); SimplicialComplex Y = F.sublevelset((double)a); for (size_t k = 0; k < B.size(); k++) { size_t c = 0; for (int t : v[k]) c += t <= a; REQUIRE_MSG(c == (k <= Y.maxdim() ? Y.ncells(k) : 0), "sublevel set"); bsx::obs(c); } END();
}
#define AN(w) BSX_ENTRY(a2_##w) { any<2>({2, 2, 1}, 2, w, w); } BSX_ENTRY(b2_##w) { any<2>({3, 2, 1}, 1, w, w); } BSX_ENTRY(d2_##w) { any<2>({2, 3, 1}, 1, w, w); } BSX_ENTRY(c2_##w) { any<2>({1, 2, 2}, 1, w, w); } BSX_ENTRY(a3_##w) { any<3>({2, 2, 1}, 1, w, w); }
AN(0) AN(1) AN(2) AN(3) AN(4)
BSX_ENTRY(s2) { simp<2>(3, {{0, 1}, {0, 2}, {1, 2}, {0, 1, 2}}, 1); }
BSX_ENTRY(s3) { simp<3>(3, {{0, 1}, {1, 2}, {0, 2}, {0, 1, 2}}, 1); }
// filtrations with integral values: bars that never die reach the largest value
template <int P, class T> void integral(const vector<size_t>& n, int V) {
  typedef CM<P> M; AnyCpx X{symcomplex(n, P)}; IV v = symvals(X.B, V); vector<vector<T>> iv; for (auto& l : v) iv.emplace_back(l.begin(), l.end()); Filtration<T, AnyCpx> F(X, iv); FilteredChainComplex<T, M> C(F); Filtration<double, AnyCpx> G(X, todouble(v)); FilteredChainComplex<double, M> D(G); ReducedFilteredChainComplex<T, M> R(C); ReducedFilteredChainComplex<double, M> S(D);
  for (size_t k = 0; k < n.size(); k++) for (int permuted = 0; permuted < 2; permuted++) { auto a = R.persistence_pairs(k, permuted == 1); auto b = S.persistence_pairs(k, permuted == 1); REQUIRE_MSG(a.size() == b.size(), "as many bars"); for (size_t i = 0; i < a.size(); i++) { REQUIRE(a[i].birth_ind == b[i].birth_ind && a[i].death_ind == b[i].death_ind && (double)a[i].birth == b[i].birth); if (a[i].death_ind == bats::NO_IND) REQUIRE_MSG(a[i].death == std::numeric_limits<T>::max(), "bars that never die"); else REQUIRE((double)a[i].death == b[i].death); REQUIRE(a[i].birth <= a[i].death); bsx::obs(a[i].birth_ind); } } END();
}
BSX_ENTRY(int2) { integral<2, int>({2, 2, 1}, 1); } BSX_ENTRY(int3) { integral<3, size_t>({2, 2}, 2); }
#define A5(w) BSX_ENTRY(a5_##w) { any<5>({2, 2}, 1, w, w); } BSX_ENTRY(b5_##w) { any<5>({1, 2, 1}, 1, w, w); }
A5(0) A5(1) A5(2) A5(3) A5(4)
#define AS(w) SKEL(k2_##w, 6, 1, any<2>({5, 7, 4}, 3, w, w)) SKEL(k3_##w, 4, 1, any<3>({4, 5, 4}, 3, w, w))
AS(0) AS(1) AS(2) AS(3) AS(4)
SKEL(ks, 4, 2, simp<3>(5, {{0, 1}, {0, 2}, {1, 2}, {0, 1, 2}, {2, 3}, {1, 3}, {3, 4}, {2, 4}, {1, 2, 3}, {0, 4}, {2, 3, 4}, {0, 3}}, 3))
#if BSX_TIER
#define AT(w) BSX_ENTRY(t2_##w) { any<2>({2, 3, 2}, 1, w, w); } BSX_ENTRY(t2c_##w) { any<2>({3, 3, 1}, 1, w, w); } BSX_ENTRY(t2b_##w) { any<2>({2, 2, 2, 1}, 1, w, w); } BSX_ENTRY(t3_##w) { any<3>({2, 2, 2}, 1, w, w); }
AT(0) AT(1) AT(2) AT(3) AT(4)
BSX_ENTRY(ts2) { simp<2>(3, {{0, 1}, {0, 2}, {1, 2}, {0, 1, 2}}, 3); }
BSX_ENTRY(ts4) { simp<2>(4, {{0, 1}, {0, 2}, {1, 2}, {0, 1, 2}, {2, 3}}, 1); }
#endif
