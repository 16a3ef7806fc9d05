// C11: chain complex operations: change of basis order, sub / relative complexes, tensor products, in-place updates of reductions
#include "filt.hpp"
using namespace bats;
inline vector<vector<size_t>> symperms(const vector<size_t>& n) { vector<vector<size_t>> p; for (size_t x : n) p.push_back(symperm("p", x)); return p; }
template <class M> void same(const ChainComplex<M>& C, const vector<DM>& B, const char* what) { REQUIRE_MSG(C.maxdim() + 1 == B.size(), what); for (size_t k = 0; k < B.size(); k++) { REQUIRE_MSG(wfm(C[k]) && deq(dense(C[k]), B[k]), what); REQUIRE_MSG(C.dim(k) == B[k].n, what); } }
// cell i of dimension k becomes cell p[k][i]
template <int P> void perm(const vector<size_t>& n) {
  typedef CM<P> M; vector<DM> B = symcomplex(n, P), E = B; auto p = symperms(n); for (size_t k = 0; k < n.size(); k++) for (size_t i = 0; i < B[k].m; i++) for (size_t j = 0; j < B[k].n; j++) E[k](k ? p[k - 1][i] : i, p[k][j]) = B[k](i, j);
  ChainComplex<M> C = complexof<M>(B); C.permute_basis(p); same(C, E, "permuted"); REQUIRE(C.is_valid_complex()); C.ipermute_basis(p); same(C, B, "permuted back"); ChainComplex<M> D = complexof<M>(E); D.ipermute_basis(p); same(D, B, "inverse permutation"); for (auto& e : E) obsm(e);
  // reduction permuted in place: cell p[k][i] of the old order becomes cell i
  ReducedChainComplex<M> R(C); R.permute_basis(p); for (size_t k = 0; k < n.size(); k++) { DM b(B[k].m, B[k].n); for (size_t i = 0; i < b.m; i++) for (size_t j = 0; j < b.n; j++) b(i, j) = B[k](k ? p[k - 1][i] : i, p[k][j]); DM u = dense(R.U[k]), r = dense(R.R[k]); REQUIRE_MSG(wfm(R.U[k]) && wfm(R.R[k]) && dupperinv(u) && dreduced(r) && deq(dmul(b, u, P), r), "permuted reduction"); REQUIRE_MSG(R.hdim(k) == dbetti(B, k, P) && R.p2c[k] == dpairing(b, P), "permuted reduction homology"); }
  END();
}
// bases of the source and target of a chain map permuted along with the complexes
template <int P> void mapperm(const vector<size_t>& n, const vector<size_t>& m) {
  typedef CM<P> M; vector<DM> B = symcomplex(n, P, "a"), C = symcomplex(m, P, "b"), F; for (size_t k = 0; k < n.size(); k++) F.push_back(symdense("f", m[k], n[k], P)); for (size_t k = 1; k < n.size(); k++) ASSUME(deq(dmul(C[k], F[k], P), dmul(F[k - 1], B[k], P)));
  auto p = symperms(n), q = symperms(m); ChainComplex<M> X = complexof<M>(B), Y = complexof<M>(C); ChainMap<M> f; DGLinearMap<M> g; for (auto& d : F) { f.map.push_back(matof<M>(d)); g.map.push_back(matof<M>(d)); } X.permute_basis(p); Y.permute_basis(q); for (size_t k = 0; k < n.size(); k++) { f.permute_column_basis(k, p[k]); f.permute_row_basis(k, q[k]); g.permute_row_basis(k, q[k]); g.permute_column_basis(k, p[k]); DM e(F[k]); for (size_t i = 0; i < e.m; i++) for (size_t j = 0; j < e.n; j++) e(q[k][i], p[k][j]) = F[k](i, j); REQUIRE_MSG(wfm(f[k]) && deq(dense(f[k]), e) && wfm(g[k]) && deq(dense(g[k]), e), "permuted chain map"); obsm(e); }
  for (size_t k = 1; k < n.size(); k++) REQUIRE_MSG(deq(dmul(dense(Y[k]), dense(f[k]), P), dmul(dense(f[k - 1]), dense(X[k]), P)), "still a chain map"); END();
}
BSX_ENTRY(mp2) { mapperm<2>({2, 1}, {3, 1}); } BSX_ENTRY(mp2b) { mapperm<2>({3}, {3}); } BSX_ENTRY(mp3) { mapperm<3>({1, 2}, {1, 2}); } BSX_ENTRY(mp3b) { mapperm<3>({1}, {3}); }
// symbolic sub-complex: cells closed under boundary
inline vector<vector<size_t>> symsub(const vector<DM>& B) { vector<vector<size_t>> s; vector<vector<int>> in; for (size_t k = 0; k < B.size(); k++) { s.push_back({}); in.push_back({}); vector<int> o = sk().seeds ? skopen(B[k].n) : vector<int>(B[k].n, 1); for (size_t j = 0; j < B[k].n; j++) { int b; if (o[j]) b = bsx::symb("in"); else { b = skr(10) < 7; if (k) for (size_t i = 0; i < B[k].m; i++) if (B[k](i, j) && !in[k - 1][i]) b = 0; } if (b) { if (k) for (size_t i = 0; i < B[k].m; i++) if (B[k](i, j)) ASSUME(in[k - 1][i] == 1); s[k].push_back(j); } in[k].push_back(b); } } return s; }
template <int P> void sub(const vector<size_t>& n) {
  typedef CM<P> M; vector<DM> B = symcomplex(n, P); auto s = symsub(B); ChainComplex<M> C = complexof<M>(B); vector<DM> S, Q; vector<size_t> cs0, cq0; for (size_t k = 0; k < n.size(); k++) { vector<size_t> q; for (size_t j = 0, t = 0; j < n[k]; j++) if (t < s[k].size() && s[k][t] == j) t++; else q.push_back(j); if (k) { S.push_back(dT(dcols(dT(dcols(B[k], s[k])), cs0))); Q.push_back(dT(dcols(dT(dcols(B[k], q)), cq0))); } else { S.push_back(DM(1, s[0].size())); Q.push_back(DM(1, q.size())); } cs0 = s[k]; cq0 = q; }
  auto s1 = s, s2 = s; for (auto& x : s1) std::reverse(x.begin(), x.end()); auto A = C.subcomplex(s1), R = C.relative_complex(s2); same(A, S, "subcomplex"); same(R, Q, "relative complex"); REQUIRE(A.is_valid_complex() && R.is_valid_complex());
  // Euler characteristics of homology add up along the pair
  long e = 0; ReducedChainComplex<M> ra(A), rr(R), rc(C); for (size_t k = 0; k < n.size(); k++) { REQUIRE(ra.hdim(k) == dbetti(S, k, P) && rr.hdim(k) == dbetti(Q, k, P)); e += (k % 2 ? -1 : 1) * ((long)rc.hdim(k) - (long)ra.hdim(k) - (long)rr.hdim(k)); bsx::obs(rr.hdim(k)); } REQUIRE_MSG(e == 0, "Euler characteristic of the pair"); END();
}
template <int P> void tensor(const vector<size_t>& n, const vector<size_t>& m) {
  typedef CM<P> M; vector<DM> A = symcomplex(n, P, "a"), B = symcomplex(m, P, "b"); auto T = tensor_product(complexof<M>(A), complexof<M>(B)); REQUIRE(T.maxdim() == n.size() + m.size() - 2); REQUIRE_MSG(T.is_valid_complex(), "product is a complex"); vector<DM> D;
  for (size_t k = 0; k <= T.maxdim(); k++) { size_t c = 0; for (size_t i = 0; i <= k; i++) if (i < n.size() && k - i < m.size()) c += n[i] * m[k - i]; REQUIRE_MSG(wfm(T[k]) && T.dim(k) == c, "cells of the product"); D.push_back(dense(T[k])); if (k) REQUIRE(D[k].m == D[k - 1].n); }
  for (size_t k = 0; k <= T.maxdim(); k++) { size_t h = 0; for (size_t i = 0; i <= k; i++) if (i < n.size() && k - i < m.size()) h += dbetti(A, i, P) * dbetti(B, k - i, P); REQUIRE_MSG(dbetti(D, k, P) == h, "Kunneth"); bsx::obs(h); } END();
}
BSX_ENTRY(p2) { perm<2>({2, 3, 1}); }
BSX_ENTRY(p2b) { perm<2>({3, 2}); }
BSX_ENTRY(p3) { perm<3>({2, 2, 1}); }
BSX_ENTRY(p0) { perm<2>({3}); }
BSX_ENTRY(s2) { sub<2>({3, 2, 1}); }
BSX_ENTRY(s3) { sub<3>({2, 2, 1}); }
BSX_ENTRY(t2) { tensor<2>({2, 2}, {2, 1}); }
BSX_ENTRY(t3) { tensor<3>({2, 1}, {1, 2}); }
BSX_ENTRY(t3b) { tensor<3>({1, 2, 1}, {1, 1}); }
BSX_ENTRY(t0) { tensor<3>({2}, {1, 1, 1}); }
BSX_ENTRY(tp3) { perm<3>({2, 2, 2}); }
BSX_ENTRY(tt3) { tensor<3>({1, 2, 1}, {1, 2, 1}); }
BSX_ENTRY(tt2) { tensor<2>({2, 2, 1}, {2, 2, 1}); }
SKEL(kp2, 8, 3, perm<2>({4, 6, 4})) SKEL(kp3, 8, 2, perm<3>({4, 5, 3})) SKEL(ks2, 6, 2, sub<2>({4, 6, 4})) SKEL(kt3, 6, 2, tensor<3>({2, 3, 2}, {3, 3, 1})) SKEL(kt2, 6, 3, tensor<2>({3, 3, 2}, {2, 3, 2}))
#if BSX_TIER
BSX_ENTRY(tp2) { perm<2>({2, 2, 2, 2}); }
BSX_ENTRY(tp2b) { perm<2>({3, 3, 1}); }
BSX_ENTRY(ts2b) { sub<2>({3, 3, 1}); }
BSX_ENTRY(ts2) { sub<2>({3, 3, 2}); }
#endif
