// C36: cochain complexes: coboundaries are transposed boundaries, cohomology in every degree, representatives, induced maps, permutations
#include "simp.hpp"
using namespace bats;
inline DM colof(const DV& v) { DM c(v.size(), 1); for (size_t i = 0; i < v.size(); i++) c(i, 0) = v[i]; return c; }
inline DM cob(const vector<DM>& B, size_t k) { return k == 0 ? DM(B[0].n, 1) : k < B.size() ? dT(B[k]) : DM(0, B.back().n); }
template <class M> CochainComplex<M> cochainof(const vector<DM>& B) { vector<size_t> d; vector<M> m; for (size_t k = 0; k < B.size(); k++) { d.push_back(B[k].n); m.push_back(matof<M>(cob(B, k))); } return CochainComplex<M>(d, m); }
inline size_t cbetti(const vector<DM>& B, size_t k, int P) { return B[k].n - drank(B[k], P) - (k + 1 < B.size() ? drank(B[k + 1], P) : 0); }
template <class M> void dims(const ReducedCochainComplex<M>& R, const vector<DM>& B, int P, const char* what) { REQUIRE_MSG(R.maxdim() + 1 == B.size(), what); for (size_t k = 0; k < B.size(); k++) { REQUIRE_MSG(R.hdim(k) == cbetti(B, k, P), what); bsx::obs(R.hdim(k)); } }
template <class M> DM gens(const ReducedCochainComplex<M>& R, size_t k, size_t n) { DM G(n, 0); for (size_t j = 0; j < R.hdim(k); j++) G = dhcat(G, colof(dvec(R.get_preferred_representative(j, k), n))); return G; }
template <int P> void basis(const ReducedCochainComplex<CM<P>>& R, const vector<DM>& B, bool chain) { typedef typename CM<P>::col_type V; dims(R, B, P, "with basis");
  for (size_t k = 0; k < B.size(); k++) { size_t n = B[k].n; DM G = gens(R, k, n), im = cob(B, k), d = cob(B, k + 1); REQUIRE_MSG(dzero(dmul(d, G, P)), "representatives are cocycles"); size_t r = drank(im, P); REQUIRE_MSG(drank(dhcat(im, G), P) == r + G.n, "representatives independent modulo coboundaries");
    if (!chain) continue; DV c(n); if (sk().seeds) c = skvals("c", n, P); else for (auto& x : c) x = bsx::sym("c", 0, P - 1); V v = vecof<V>(c); V h = R.to_hom_basis(v, k); REQUIRE(dvec(R.from_hom_basis(h, k), n) == c); V x = R.chain_preferred_representative(v, k); REQUIRE(wf(x, n)); DM dx = colof(dvec(x, n)); REQUIRE_MSG(drank(dhcat(im, dadd(colof(c), dx, -1, P)), P) == r, "preferred representative is cohomologous"); if (dzero(dmul(d, colof(c), P))) REQUIRE_MSG(drank(dhcat(G, dx), P) == G.n, "preferred representative is a combination of generators"); V again = R.chain_preferred_representative(x, k); REQUIRE(again == x); obsm(dx); } }
template <int P> void cflags(const vector<size_t>& n, int lo, int hi, bool chain) { typedef CM<P> M; vector<DM> B = symcomplex(n, P); CochainComplex<M> C = cochainof<M>(B); int w = lo == hi ? lo : bsx::pick("flag", lo, hi); REQUIRE(C.maxdim() + 1 == n.size());
  if (w == 0) basis<P>(ReducedCochainComplex<M>(C), B, chain);
  if (w == 1) { dims(ReducedCochainComplex<M>(C, standard_reduction_flag()), B, P, "standard"); dims(ReducedCochainComplex<M>(C, extra_reduction_flag()), B, P, "extra"); }
  if (w == 2) basis<P>(ReducedCochainComplex<M>(C, extra_reduction_flag(), compute_basis_flag()), B, chain);
  if (w == 3) { dims(ReducedCochainComplex<M>(C, standard_reduction_flag(), clearing_flag()), B, P, "clearing"); dims(ReducedCochainComplex<M>(C, extra_reduction_flag(), clearing_flag()), B, P, "extra clearing"); }
  if (w == 4) { dims(ReducedCochainComplex<M>(C, standard_reduction_flag(), compression_flag()), B, P, "compression"); dims(ReducedCochainComplex<M>(C, extra_reduction_flag(), compression_flag()), B, P, "extra compression"); }
  END(); }
BSX_ENTRY(c2) { cflags<2>({2, 3, 2}, 0, 4, false); }
BSX_ENTRY(c2b) { cflags<2>({3, 3}, 0, 4, false); }
BSX_ENTRY(c3) { cflags<3>({2, 2, 2}, 0, 4, false); }
BSX_ENTRY(c1) { cflags<3>({2}, 0, 4, true); }
BSX_ENTRY(r2) { cflags<2>({2, 2, 2}, 0, 0, true); }
BSX_ENTRY(r2e) { cflags<2>({2, 2, 1}, 2, 2, true); }
BSX_ENTRY(r3) { cflags<3>({2, 2}, 0, 2, true); }
// the map induced in cohomology by a chain map B -> D goes from classes of D to classes of B
template <int P> void cind(const vector<size_t>& n, const vector<size_t>& m, bool ex) { typedef CM<P> M; vector<DM> B = symcomplex(n, P, "b"), D = symcomplex(m, P, "d"), F = symmap(B, D, P, "f"); auto red = [&](const vector<DM>& X) { return ex ? ReducedCochainComplex<M>(cochainof<M>(X), extra_reduction_flag(), compute_basis_flag()) : ReducedCochainComplex<M>(cochainof<M>(X)); }; auto RB = red(B), RD = red(D); vector<M> fm; for (auto& f : F) fm.push_back(matof<M>(f)); ChainMap<M> CF(fm);
  for (size_t k = 0; k < n.size(); k++) { M H = induced_map(CF, RB, RD, k); REQUIRE_MSG(wfm(H) && H.nrow() == RB.hdim(k) && H.ncol() == RD.hdim(k), "shape"); DM im = cob(B, k), diff = dadd(dmul(dT(F[k]), gens(RD, k, m[k]), P), dmul(gens(RB, k, n[k]), dense(H), P), -1, P); REQUIRE_MSG(drank(dhcat(im, diff), P) == drank(im, P), "class of the pulled back cocycle"); obsm(dense(H)); } END(); }
BSX_ENTRY(i2) { cind<2>({2, 2, 1}, {2, 2, 1}, false); }
BSX_ENTRY(i2b) { cind<2>({1, 2, 2}, {1, 2, 1}, true); }
BSX_ENTRY(i3) { cind<3>({1, 2}, {2, 1}, false); }
// complexes: entries, permutations, helper functions
template <int P> void cpx(int nv, size_t d) { typedef CM<P> M; typedef ModP<int, P> F; SimplicialComplex X = symsimp(nv, cands(nv, d), "x", d); CochainComplex<M> C(X); ChainComplex<M> K(X); vector<DM> B; for (size_t k = 0; k <= X.maxdim(); k++) { B.push_back(k ? dense(K[k]) : DM(1, X.ncells(0))); REQUIRE(C.dim[k] == X.ncells(k)); REQUIRE_MSG(wfm(C[k]) && deq(dense(C[k]), cob(B, k)), "coboundary"); }
  dims(bats::__ReducedCochainComplex(X, F(), standard_reduction_flag(), clearing_flag()), B, P, "of a complex"); CochainComplex<M> C2 = bats::__CochainComplex(X, F()); vector<vector<size_t>> p; for (size_t k = 0; k <= X.maxdim(); k++) p.push_back(symperm("p", X.ncells(k))); C2.permute_basis(p);
  for (size_t k = 0; k <= X.maxdim(); k++) { DM c = cob(B, k), e = dense(C2[k]); for (size_t i = 0; i < c.m; i++) for (size_t j = 0; j < c.n; j++) REQUIRE_MSG(e(p[k][i], k ? p[k - 1][j] : j) == c(i, j), "permuted basis"); bsx::obs(C2[k].nnz()); } dims(ReducedCochainComplex<M>(C2), B, P, "after a permutation"); for (size_t k = 0; k <= X.maxdim(); k++) C2.ipermute_basis(k, p[k]); for (size_t k = 0; k <= X.maxdim(); k++) REQUIRE_MSG(deq(dense(C2[k]), cob(B, k)), "permutation undone"); END(); }
BSX_ENTRY(x3) { cpx<3>(3, 2); }
BSX_ENTRY(x2) { cpx<2>(2, 1); }
BSX_ENTRY(x1) { cpx<2>(3, 0); }
BSX_ENTRY(c5) { cflags<5>({1, 2, 1}, 0, 4, false); }
BSX_ENTRY(r5) { cflags<5>({1, 2}, 0, 2, true); }
BSX_ENTRY(i5) { cind<5>({1, 2}, {1, 2}, false); }
SKEL(kc2, 6, 2, cflags<2>({4, 6, 4}, 0, 4, false)) SKEL(kc3, 6, 1, cflags<3>({3, 5, 4, 2}, 0, 4, false)) SKEL(kr2, 6, 1, cflags<2>({4, 5, 3}, 0, 2, true)) SKEL(ki2, 6, 1, cind<2>({4, 5, 3}, {3, 5, 2}, false)) SKEL(ki2e, 6, 1, cind<2>({3, 5, 2}, {4, 5, 3}, true)) SKEL(ki3, 6, 1, cind<3>({3, 4, 2}, {4, 4, 2}, false))
#if BSX_TIER
BSX_ENTRY(tc2) { cflags<2>({3, 3, 2}, 0, 4, false); }
BSX_ENTRY(tc3) { cflags<3>({2, 3, 2}, 0, 4, false); }
BSX_ENTRY(tc4) { cflags<2>({2, 2, 2, 2}, 0, 4, false); }
BSX_ENTRY(tr) { cflags<2>({2, 3, 2}, 0, 2, true); }
BSX_ENTRY(ti) { cind<2>({2, 3, 1}, {2, 2, 1}, true); }
BSX_ENTRY(ti3) { cind<3>({2, 2}, {2, 1}, false); }
#endif
