// Symbolic chain complexes and dense homology oracles shared by the homology harnesses.
#pragma once
#include "common.hpp"
template <int P> using CM = ColumnMatrix<SparseVector<ModP<int, P>, size_t>>;
// basis of the kernel, as columns (reduced echelon form, plain ints)
inline DM dker(const DM& A0, int p) { DM A = A0; size_t r = 0; vector<int> piv(A.n, -1); for (size_t j = 0; j < A.n && r < A.m; j++) { size_t q = r; while (q < A.m && A(q, j) == 0) q++; if (q == A.m) continue; for (size_t k = 0; k < A.n; k++) std::swap(A(q, k), A(r, k)); int v = minv(A(r, j), p); for (size_t k = 0; k < A.n; k++) A(r, k) = md(A(r, k) * v, p); for (size_t i = 0; i < A.m; i++) if (i != r && A(i, j)) { int c = A(i, j); for (size_t k = 0; k < A.n; k++) A(i, k) = md(A(i, k) - c * A(r, k), p); } piv[j] = (int)r; r++; }
  DM K(A.n, A.n - r); size_t c = 0; for (size_t j = 0; j < A.n; j++) if (piv[j] < 0) { K(j, c) = 1; for (size_t k = 0; k < A.n; k++) if (piv[k] >= 0) K(k, c) = md(-A(piv[k], j), p); c++; } return K; }
inline DM dcols(const DM& A, const vector<size_t>& js) { DM B(A.m, js.size()); for (size_t i = 0; i < A.m; i++) for (size_t c = 0; c < js.size(); c++) B(i, c) = A(i, js[c]); return B; }
inline DM dhcat(const DM& A, const DM& B) { DM C(A.m, A.n + B.n); for (size_t i = 0; i < A.m; i++) { for (size_t j = 0; j < A.n; j++) C(i, j) = A(i, j); for (size_t j = 0; j < B.n; j++) C(i, A.n + j) = B(i, j); } return C; }
inline DM dcol(const DM& A, size_t j) { DM B(A.m, 1); for (size_t i = 0; i < A.m; i++) B(i, 0) = A(i, j); return B; }
inline DM dadd(const DM& A, const DM& B, int c, int p) { DM C(A.m, A.n); for (size_t i = 0; i < A.a.size(); i++) C.a[i] = md(A.a[i] + c * B.a[i], p); return C; }
inline bool dzero(const DM& A) { bool r = true; for (int x : A.a) r &= x == 0; return r; }
// boundary matrices of an arbitrary complex with the given cell counts: B0 = 0 (1 x n0), B1 arbitrary, Bk = ker(Bk-1) * arbitrary
inline vector<DM> symcomplex(const vector<size_t>& n, int p, const char* nm = "b") { sk().conc = true; vector<DM> B; for (size_t k = 0; k < n.size(); k++) { if (k == 0) B.push_back(DM(1, n[0])); else if (k == 1) B.push_back(symdense(nm, n[0], n[1], p)); else { DM K = dker(B[k - 1], p); B.push_back(dmul(K, symdense(nm, K.n, n[k], p), p)); } } return B; }
template <class M> bats::ChainComplex<M> complexof(const vector<DM>& B) { vector<M> m; for (auto& b : B) m.push_back(matof<M>(b)); return bats::ChainComplex<M>(m); }
inline size_t dbetti(const vector<DM>& B, size_t k, int p) { return B[k].n - drank(B[k], p) - (k + 1 < B.size() ? drank(B[k + 1], p) : 0); }
inline int dlow(const DM& A, size_t j) { int l = -1; for (size_t i = 0; i < A.m; i++) if (A(i, j)) l = (int)i; return l; }
// the pivot pairing, which every left-to-right reduction shares: (i,j) is a pair iff the ranks of lower-left blocks say so
inline size_t dllrank(const DM& A, size_t i, size_t j, int p) { DM B(A.m - i, j); for (size_t r = i; r < A.m; r++) for (size_t c = 0; c < j; c++) B(r - i, c) = A(r, c); return drank(B, p); }
inline vector<size_t> dpairing(const DM& A, int p) { vector<size_t> r(A.m, bats::NO_IND); for (size_t i = 0; i < A.m; i++) for (size_t j = 0; j < A.n; j++) { int v = (int)dllrank(A, i, j + 1, p) - (int)dllrank(A, i + 1, j + 1, p) - (int)dllrank(A, i, j, p) + (int)dllrank(A, i + 1, j, p); if (v == 1) r[i] = j; } return r; }
inline bool dreduced(const DM& A) { for (size_t j = 0; j < A.n; j++) for (size_t k = 0; k < j; k++) if (dlow(A, j) >= 0 && dlow(A, j) == dlow(A, k)) return false; return true; }
inline bool dunitupper(const DM& U) { if (U.m != U.n) return false; for (size_t i = 0; i < U.m; i++) { if (U(i, i) != 1) return false; for (size_t j = 0; j < i; j++) if (U(i, j)) return false; } return true; }
inline bool dupperinv(const DM& U) { if (U.m != U.n) return false; for (size_t i = 0; i < U.m; i++) { if (U(i, i) == 0) return false; for (size_t j = 0; j < i; j++) if (U(i, j)) return false; } return true; }
// an arbitrary chain map between two complexes (in skeleton mode, a combination of a basis of the space of chain maps)
inline vector<DM> symmap(const vector<DM>& B, const vector<DM>& D, int P, const char* nm) { vector<DM> F;
  if (!sk().seeds) { for (size_t k = 0; k < B.size(); k++) { F.push_back(symdense(nm, D[k].n, B[k].n, P)); if (k) ASSUME(deq(dmul(D[k], F[k], P), dmul(F[k - 1], B[k], P))); } return F; }
  vector<size_t> off{0}; size_t eqs = 0; for (size_t k = 0; k < B.size(); k++) { off.push_back(off[k] + D[k].n * B[k].n); if (k) eqs += D[k].m * B[k].n; } DM A(eqs, off.back()); size_t e = 0;
  for (size_t k = 1; k < B.size(); k++) for (size_t i = 0; i < D[k].m; i++) for (size_t j = 0; j < B[k].n; j++, e++) { for (size_t t = 0; t < D[k].n; t++) A(e, off[k] + t * B[k].n + j) = D[k](i, t); for (size_t t = 0; t < B[k].m; t++) A(e, off[k - 1] + i * B[k - 1].n + t) = md(-B[k](t, j), P); }
  DM K = dker(A, P); DV c = skvals(nm, K.n, P); for (size_t k = 0; k < B.size(); k++) { DM f(D[k].n, B[k].n); for (size_t q = 0; q < f.a.size(); q++) { int x = 0; for (size_t t = 0; t < K.n; t++) if (c[t]) x = md(x + c[t] * K(off[k] + q, t), P); f.a[q] = x; } F.push_back(f); } return F; }
