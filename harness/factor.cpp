// C05: triangular solves and pivoted factorizations reproduce the matrix with factors of the promised shape
#include "common.hpp"
template <int P> using CM = ColumnMatrix<SparseVector<ModP<int, P>, size_t>>;
template <class M> bool unitlower(const M& A) { DM d = dense(A); if (d.m != d.n || !wfm(A)) return false; bool ok = true; for (size_t i = 0; i < d.m; i++) for (size_t j = 0; j < d.n; j++) { if (i == j && d(i, j) != 1) ok = false; if (i < j && d(i, j)) ok = false; } return ok; }
template <class M> bool invlower(const M& A) { DM d = dense(A); if (d.m != d.n || !wfm(A)) return false; bool ok = true; for (size_t i = 0; i < d.m; i++) for (size_t j = 0; j < d.n; j++) { if (i == j && d(i, j) == 0) ok = false; if (i < j && d(i, j)) ok = false; } return ok; }
template <class M> bool isperm(const M& A) { DM d = dense(A); if (d.m != d.n || !wfm(A)) return false; for (size_t i = 0; i < d.m; i++) { int r = 0, c = 0; for (size_t j = 0; j < d.n; j++) { if (d(i, j) && d(i, j) != 1) return false; r += d(i, j); c += d(j, i); } if (r != 1 || c != 1) return false; } return true; }
inline bool el(const DM& d) { int last = -1; bool done = false; for (size_t j = 0; j < d.n; j++) { int c = 0, p = -1; for (size_t i = 0; i < d.m; i++) if (d(i, j)) { c++; p = i; } if (c > 1) return false; if (!c) { done = true; continue; } if (done || p <= last) return false; last = p; } return true; }
inline bool pivotm(const DM& d) { for (size_t j = 0; j < d.n; j++) { int c = 0; for (size_t i = 0; i < d.m; i++) c += d(i, j) != 0; if (c > 1) return false; } for (size_t i = 0; i < d.m; i++) { int c = 0; for (size_t j = 0; j < d.n; j++) c += d(i, j) != 0; if (c > 1) return false; } return true; }
inline DM JJ(const DM& d) { DM r(d.m, d.n); for (size_t i = 0; i < d.m; i++) for (size_t j = 0; j < d.n; j++) r(d.m - 1 - i, d.n - 1 - j) = d(i, j); return r; }
template <int P> void solves(size_t n, size_t k) { typedef CM<P> M; DM u(n, n), l(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { int x = sk().seeds ? (i == j ? 1 + skr(P - 1) : skr(P)) : bsx::sym("u", i == j ? 1 : 0, P - 1); if (i <= j) u(i, j) = x; if (i >= j) l(i, j) = x; } DM y = symdense("y", n, k, P); M U = matof<M>(u), L = matof<M>(l), Y = matof<M>(y);
  M X = u_solve(U, Y); REQUIRE(wfm(X)); REQUIRE_MSG(deq(dmul(u, dense(X), P), y), "U * u_solve(U, Y) == Y"); M Z = l_solve(L, Y); REQUIRE(wfm(Z)); REQUIRE_MSG(deq(dmul(l, dense(Z), P), y), "L * l_solve(L, Y) == Y"); obsm(dense(X)); obsm(dense(Z)); END(); }
template <int P> void invs(size_t n) { typedef CM<P> M; DM u(n, n), l(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { int x = sk().seeds ? (i == j ? 1 + skr(P - 1) : skr(P)) : bsx::sym("u", i == j ? 1 : 0, P - 1); if (i <= j) u(i, j) = x; if (i >= j) l(i, j) = x; } M U = matof<M>(u), L = matof<M>(l); REQUIRE(deq(dmul(u, dense(u_inv(U)), P), deye(n))); REQUIRE(deq(dmul(l, dense(l_inv(L)), P), deye(n))); obsm(dense(u_inv(U))); END(); }
template <int P> void leup(size_t m, size_t n, int which) { typedef CM<P> M; DM a = symdense("a", m, n, P); M A = matof<M>(a); size_t r = drank(a, P); auto nz = [](const DM& d) { size_t c = 0; for (int x : d.a) c += x != 0; return c; };
  if (which == 0) { auto F = LEUP(A); DM E = dense(F.E); REQUIRE_MSG(deq(dmul(dmul(dense(F.L), E, P), dmul(dense(F.U), dense(F.P), P), P), a), "LEUP product"); REQUIRE_MSG(unitlower(F.L) && unitlower(F.U.T()) && isperm(F.P) && wfm(F.E) && el(E) && nz(E) == r, "LEUP shapes"); REQUIRE(F.LEUP_prod() == A); obsm(E); }
  if (which == 1) { auto F = PLEU(A); DM E = dense(F.E); REQUIRE_MSG(deq(dmul(dmul(dense(F.P), dense(F.L), P), dmul(E, dense(F.U), P), P), a), "PLEU product"); REQUIRE_MSG(unitlower(F.L) && unitlower(F.U.T()) && isperm(F.P) && wfm(F.E) && el(dT(E)) && nz(E) == r, "PLEU shapes"); REQUIRE(F.PLEU_prod() == A); obsm(E); }
  if (which == 2) { auto F = UELP(A); DM E = dense(F.E); REQUIRE_MSG(deq(dmul(dmul(dense(F.U), E, P), dmul(dense(F.L), dense(F.P), P), P), a), "UELP product"); REQUIRE_MSG(unitlower(F.L) && unitlower(F.U.T()) && isperm(F.P) && wfm(F.E) && el(JJ(E)) && nz(E) == r, "UELP shapes"); REQUIRE(F.UELP_prod() == A); obsm(E); }
  if (which == 3) { auto F = PUEL(A); DM E = dense(F.E); REQUIRE_MSG(deq(dmul(dmul(dense(F.P), dense(F.U), P), dmul(E, dense(F.L), P), P), a), "PUEL product"); REQUIRE_MSG(unitlower(F.L) && unitlower(F.U.T()) && isperm(F.P) && wfm(F.E) && el(dT(JJ(E))) && nz(E) == r, "PUEL shapes"); REQUIRE(F.PUEL_prod() == A); obsm(E); }
  if (which == 4) { auto F = LQU(A); DM E = dense(F.E); REQUIRE_MSG(deq(dmul(dmul(dense(F.L), E, P), dense(F.U), P), a), "LQU product"); REQUIRE_MSG(invlower(F.L) && invlower(F.U.T()) && wfm(F.E) && pivotm(E) && nz(E) == r, "LQU shapes"); REQUIRE(F.LQU_prod() == A); obsm(E); }
  if (which == 5) { auto F = UQL(A); DM E = dense(F.E); REQUIRE_MSG(deq(dmul(dmul(dense(F.U), E, P), dense(F.L), P), a), "UQL product"); REQUIRE_MSG(invlower(F.L) && invlower(F.U.T()) && wfm(F.E) && pivotm(E) && nz(E) == r, "UQL shapes"); REQUIRE(F.UQL_prod() == A); obsm(E); }
  if (which == 6) { ASSUME(m == n && r == n); M I = inv(A); REQUIRE(wfm(I)); REQUIRE_MSG(deq(dmul(a, dense(I), P), deye(n)), "A * inv(A) == I"); obsm(dense(I)); }
  END(); }
template <int P> void inplace(size_t m, size_t n) { typedef CM<P> M; DM a = symdense("a", m, n, P); M A = matof<M>(a); int w = bsx::pick("w", 0, 3); SparseFact<typename M::col_type> F; F.L = M::identity(w == 0 || w == 3 ? m : w == 1 ? n : m); F.U = M::identity(n); F.P = M::identity(n); F.E = A;
  if (w == 0) { LEUP_inplace(F); REQUIRE(F.LEUP_prod() == A); }
  if (w == 1) { F.L = M::identity(n); F.U = M::identity(m); F.P = M::identity(m); PLEU_inplace(F); REQUIRE(F.PLEU_prod() == A); REQUIRE(unitlower(F.L) && unitlower(F.U.T()) && isperm(F.P) && el(dT(dense(F.E)))); }
  if (w == 2) { F.L = M::identity(m); F.U = M::identity(n); F.P = M::identity(n); UELP_inplace(F); REQUIRE(F.UELP_prod() == A); REQUIRE(unitlower(F.L) && unitlower(F.U.T()) && isperm(F.P) && el(JJ(dense(F.E)))); }
  if (w == 3) { F.L = M::identity(n); F.U = M::identity(m); F.P = M::identity(m); PUEL_inplace(F); REQUIRE(F.PUEL_prod() == A); REQUIRE(unitlower(F.L) && unitlower(F.U.T()) && isperm(F.P) && el(dT(JJ(dense(F.E))))); }
  END(); }
template <int P> void commute(size_t m, size_t n) { // shape commutation relations used by the quiver algorithm
  typedef CM<P> M; DM e(m, n); size_t r = bsx::pick("r", 0, (int)(m < n ? m : n)); size_t at = 0; for (size_t j = 0; j < r; j++) { size_t i = at + (sk().seeds ? (size_t)skr((int)(m - r + j - at) + 1) : (size_t)bsx::pick("row", 0, (int)(m - r + j - at))); e(i, j) = sk().seeds ? 1 + skr(P - 1) : bsx::sym("e", 1, P - 1); at = i + 1; }
  DM l(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j <= i; j++) l(i, j) = sk().seeds ? (i == j ? 1 + skr(P - 1) : skr(P)) : bsx::sym("l", i == j ? 1 : 0, P - 1); M E = matof<M>(e), L = matof<M>(l); 
  { M Lt = EL_L_commute(E, L); REQUIRE_MSG(deq(dmul(dense(Lt), e, P), dmul(e, l, P)), "E L == Ltilde E"); REQUIRE(invlower(Lt)); }
  { DM eu = dT(e), u = dT(l); M EU = matof<M>(eu), U = matof<M>(u); M Ut = U_EU_commute(U, EU); REQUIRE_MSG(deq(dmul(u, eu, P), dmul(eu, dense(Ut), P)), "U E == E Utilde"); REQUIRE(invlower(Ut.T())); }
  { DM eh = dT(JJ(e)), lh = dT(JJ(l)); M EH = matof<M>(eh), LH = matof<M>(lh); M Lt = L_EL_commute(LH, EH); REQUIRE_MSG(deq(dmul(lh, eh, P), dmul(eh, dense(Lt), P)), "L Ehat == Ehat Ltilde"); REQUIRE(invlower(Lt)); }
  { DM eh = JJ(e), uh = JJ(l); M EH = matof<M>(eh), UH = matof<M>(uh); M Ut = EU_U_commute(EH, UH); REQUIRE_MSG(deq(dmul(eh, uh, P), dmul(dense(Ut), eh, P)), "Ehat U == Utilde Ehat"); REQUIRE(invlower(Ut.T())); } END(); }
BSX_ENTRY(solves2) { solves<2>(4, 1); } BSX_ENTRY(solves3) { solves<3>(3, 1); } BSX_ENTRY(solves5) { solves<5>(2, 2); } BSX_ENTRY(invs2) { invs<2>(4); } BSX_ENTRY(invs3) { invs<3>(3); }
#define FACT(w, nm) BSX_ENTRY(nm##2) { leup<2>(3, 3, w); } BSX_ENTRY(nm##2t) { leup<2>(4, 2, w); } BSX_ENTRY(nm##2w) { leup<2>(2, 4, w); } BSX_ENTRY(nm##3) { leup<3>(2, 3, w); } BSX_ENTRY(nm##3t) { leup<3>(3, 2, w); } BSX_ENTRY(nm##5) { leup<5>(2, 2, w); }
FACT(0, leup) FACT(1, pleu) FACT(2, uelp) FACT(3, puel) FACT(4, lqu) FACT(5, uql)
BSX_ENTRY(inv2) { leup<2>(3, 3, 6); } BSX_ENTRY(inv3) { leup<3>(2, 2, 6); } BSX_ENTRY(inv5) { leup<5>(2, 2, 6); } BSX_ENTRY(inplace2) { inplace<2>(3, 3); } BSX_ENTRY(inplace3) { inplace<3>(2, 3); } BSX_ENTRY(commute2) { commute<2>(3, 3); } BSX_ENTRY(commute3) { commute<3>(3, 2); } BSX_ENTRY(commute3w) { commute<3>(2, 3); }
#define FK(w, nm) SKEL(k##nm##2, 10, 3, leup<2>(5, 6, w)) SKEL(k##nm##2t, 10, 3, leup<2>(7, 4, w)) SKEL(k##nm##3, 10, 2, leup<3>(5, 5, w)) SKEL(k##nm##3w, 10, 2, leup<3>(4, 6, w))
FK(0, leup) FK(1, pleu) FK(2, uelp) FK(3, puel) FK(4, lqu) FK(5, uql)
SKEL(kinv3, 20, 3, leup<3>(4, 4, 6)) SKEL(kinplace3, 8, 2, inplace<3>(5, 4)) SKEL(kinplace2, 8, 3, inplace<2>(4, 6)) SKEL(kcommute3, 10, 1, commute<3>(5, 6)) SKEL(kcommute5, 10, 1, commute<5>(6, 4)) SKEL(ksolves3, 20, 3, solves<3>(6, 2)) SKEL(kinvs3, 20, 3, invs<3>(6))
#if BSX_TIER
#define FACTT(w, nm) BSX_ENTRY(nm##2b) { leup<2>(3, 4, w); } BSX_ENTRY(nm##2c) { leup<2>(4, 3, w); } BSX_ENTRY(nm##3b) { leup<3>(3, 3, w); }
FACTT(0, leup) FACTT(1, pleu) FACTT(2, uelp) FACTT(3, puel) FACTT(4, lqu) FACTT(5, uql)
BSX_ENTRY(inv2b) { leup<2>(4, 4, 6); } BSX_ENTRY(inv3b) { leup<3>(3, 3, 6); } BSX_ENTRY(solves2b) { solves<2>(5, 1); } BSX_ENTRY(solves3b) { solves<3>(4, 1); } BSX_ENTRY(commute5) { commute<5>(3, 3); } BSX_ENTRY(commute2b) { commute<2>(4, 4); }
#endif
