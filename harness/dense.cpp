// C29: dense matrices in all four layouts: element access, views, products, triangular solves, factorizations and commutations
#include "common.hpp"
#include <tuple>
template <int P> using Fp = ModP<int, P>;
template <class F, class Acc> A<Dense<F, Acc>> mk(const DM& D) { A<Dense<F, Acc>> M(D.m, D.n); for (size_t i = 0; i < D.m; i++) for (size_t j = 0; j < D.n; j++) M((int)i, (int)j) = F(D(i, j)); return M; }
template <class F, template <class> class S, class Acc> S<Dense<F, Acc>> mks(const DM& D) { S<Dense<F, Acc>> M(D.m, D.n); for (size_t i = 0; i < D.m; i++) for (size_t j = 0; j < D.n; j++) M((int)i, (int)j) = F(D(i, j)); return M; }
template <class M> DM rd(M& A_, int = 0) { DM D(A_.nrow(), A_.ncol()); for (size_t i = 0; i < D.m; i++) for (size_t j = 0; j < D.n; j++) D(i, j) = toint(A_((int)i, (int)j)); return D; }
inline DM dJ(const DM& A_) { DM C(A_.m, A_.n); for (size_t i = 0; i < A_.m; i++) for (size_t j = 0; j < A_.n; j++) C(i, j) = A_(A_.m - 1 - i, A_.n - 1 - j); return C; }
// element access, row and column views, transposes and rotations as views, copies
template <int P, class Acc> void layout(size_t m, size_t n) {
  typedef Fp<P> F; DM D = symdense("a", m, n, P); auto M = mk<F, Acc>(D); REQUIRE(M.nrow() == m && M.ncol() == n && M.size() == m * n); REQUIRE_MSG(deq(rd(M), D), "element access");
  for (size_t i = 0; i < m; i++) { auto v = M.r(i); REQUIRE_MSG(v.size() == n, "row view"); size_t c = 0; for (auto it = v.begin(); it != v.end(); ++it) { REQUIRE_MSG(toint(*it) == D(i, c), "row view"); c++; } REQUIRE(c == n); for (size_t j = 0; j < n; j++) REQUIRE_MSG(toint(v[j]) == D(i, j) && toint(v(j)) == D(i, j), "row view"); }
  for (size_t j = 0; j < n; j++) { auto v = M[j]; REQUIRE_MSG(v.size() == m, "column view"); for (size_t i = 0; i < m; i++) REQUIRE_MSG(toint(v[i]) == D(i, j), "column view"); }
  auto T1 = M.Trp(); REQUIRE_MSG(deq(rd(T1), dT(D)), "transpose"); auto J = M.JConj(); REQUIRE_MSG(deq(rd(J), dJ(D)), "rotation"); auto TJ = M.TJConj(); REQUIRE_MSG(deq(rd(TJ), dT(dJ(D))), "transposed rotation"); auto TT = T1.Trp(); REQUIRE(TT == M); auto C = M.copy(); REQUIRE(C == M); size_t i0 = (size_t)bsx::pick("i", 0, (int)m - 1), j0 = (size_t)bsx::pick("j", 0, (int)n - 1); int v = bsx::sym("v", 0, P - 1); M((int)i0, (int)j0) = F(v); REQUIRE_MSG(deq(rd(C), D), "copies are independent"); D(i0, j0) = v; REQUIRE_MSG(deq(rd(M), D) && deq(rd(T1), dT(D)) && deq(rd(TJ), dT(dJ(D))), "views share the entries");
  size_t i1 = (size_t)bsx::pick("k", 0, (int)m - 1); int c = bsx::sym("c", 0, P - 1); C = M.copy(); M.swap_rows(i0, i1); DM E = D; for (size_t j = 0; j < n; j++) std::swap(E(i0, j), E(i1, j)); REQUIRE_MSG(deq(rd(M), E), "swap rows"); if (i0 != i1) { M.add_row_to(i0, i1, F(c)); for (size_t j = 0; j < n; j++) E(i0, j) = md(E(i0, j) + c * E(i1, j), P); REQUIRE_MSG(deq(rd(M), E), "add row"); } size_t j1 = n - 1 - j0; M.swap_cols(j0, j1); for (size_t i = 0; i < m; i++) std::swap(E(i, j0), E(i, j1)); REQUIRE_MSG(deq(rd(M), E), "swap columns"); if (j0 != j1) { M.add_col_to(j0, j1, F(c)); for (size_t i = 0; i < m; i++) E(i, j0) = md(E(i, j0) + c * E(i, j1), P); REQUIRE_MSG(deq(rd(M), E), "add column"); } obsm(rd(M)); C.free(); M.free(); END();
}
// arithmetic of row and column views: sums, quotients, copies, norms, iterators
template <class Acc> void views(size_t m, size_t n, int V) {
  typedef A<Dense<double, Acc>> M; M a(m, n), b(n, m); vector<vector<int>> x(m, vector<int>(n)), y(n, vector<int>(m)); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) { x[i][j] = bsx::sym("x", -V, V); a((int)i, (int)j) = (double)x[i][j]; y[j][i] = bsx::sym("y", -V, V); b((int)j, (int)i) = (double)y[j][i]; }
  int c = bsx::pick("c", -2, 2); size_t i0 = (size_t)bsx::pick("i", 0, (int)m - 1); auto v = a.r((int)i0); v.axpy((double)c, b[(int)i0]); for (size_t j = 0; j < n; j++) x[i0][j] += c * y[j][i0]; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) REQUIRE_MSG(a((int)i, (int)j) == (double)x[i][j], "adding a multiple of a view");
  if (c) { auto w = b.r(0); for (size_t i = 0; i < m; i++) { y[0][i] *= c; w[i] *= (double)c; } w /= (double)c; for (size_t i = 0; i < m; i++) { y[0][i] /= c; REQUIRE_MSG(b(0, (int)i) == (double)y[0][i], "dividing a view"); } for (size_t j = 1; j < n; j++) for (size_t i = 0; i < m; i++) REQUIRE(b((int)j, (int)i) == (double)y[j][i]); }
  auto it = v.begin(), e = v.end(); REQUIRE(e - it == n); for (size_t k = 0; k < n; k++) { REQUIRE(*(v.begin() + k) == (double)x[i0][k]); REQUIRE((v.begin() + k) - v.begin() == k); auto old = it++; REQUIRE(*old == (double)x[i0][k]); } REQUIRE(!(it != e)); size_t j0 = (size_t)bsx::pick("j", 0, (int)m - 1); a.r((int)j0) = v; for (size_t j = 0; j < n; j++) x[j0][j] = x[i0][j]; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) REQUIRE_MSG(a((int)i, (int)j) == (double)x[i][j], "copying a view");
  int s = bsx::pick("s", 0, 3); for (size_t j = 0; j < n; j++) a(0, (int)j) = 0.0; a(0, 0) = 3.0 * s; a(0, (int)n - 1) = n > 1 ? -4.0 * s : 3.0 * s; REQUIRE_MSG(norm(a.r(0)) == (n > 1 ? 5.0 : 3.0) * s && a.r(0).norm() == (n > 1 ? 5.0 : 3.0) * s, "length of a view"); bsx::obs(c); a.free(); b.free(); END();
}
template <int P, class A1, class A2> void prods(size_t m, size_t k, size_t n) {
  typedef Fp<P> F; DM X = symdense("x", m, k, P), Y = symdense("y", k, n, P); auto a = mk<F, A1>(X); auto b = mk<F, A2>(Y); auto c = matmul(a, b); REQUIRE_MSG(deq(rd(c), dmul(X, Y, P)), "product"); if (m == k) { auto b2 = b.copy(); auto d = apply_matmul_on_left(a, b2); REQUIRE_MSG(deq(rd(d), dmul(X, Y, P)), "product in place on the left"); } if (k == n) { auto a2 = a.copy(); auto d = apply_matmul_on_right(a2, b); REQUIRE_MSG(deq(rd(a2), dmul(X, Y, P)) && deq(rd(d), dmul(X, Y, P)), "product in place on the right"); } auto I = A<Dense<F, A1>>::identity(k); REQUIRE(deq(rd(I), deye(k))); obsm(rd(c)); END();
}
inline bool perm(const DM& Q) { if (Q.m != Q.n) return false; for (size_t i = 0; i < Q.m; i++) { int r = 0, c = 0; for (size_t j = 0; j < Q.m; j++) { if (Q(i, j) != 0 && Q(i, j) != 1) return false; r += Q(i, j); c += Q(j, i); } if (r != 1 || c != 1) return false; } return true; }
inline bool tri(const DM& L_, bool lower, bool unit) { if (L_.m != L_.n) return false; for (size_t i = 0; i < L_.m; i++) { if (unit ? L_(i, i) != 1 : L_(i, i) == 0) return false; for (size_t j = 0; j < L_.m; j++) if ((lower ? j > i : j < i) && L_(i, j)) return false; } return true; }
// at most one 1 per row and column, the pivots running down and to the right
inline bool ech(const DM& E_) { long last = -1; for (size_t i = 0; i < E_.m; i++) { int c = 0; for (size_t j = 0; j < E_.n; j++) if (E_(i, j)) { if (E_(i, j) != 1) return false; c++; if ((long)j <= last) return false; last = (long)j; } if (c > 1) return false; } return true; }
template <int P, class Acc> void fact(size_t m, size_t n, int kind) {
  typedef Fp<P> F; DM D = symdense("a", m, n, P); auto M = mk<F, Acc>(D);
  auto chk = [&](const DM& a, const DM& b, const DM& c, const DM& d) { REQUIRE_MSG(deq(dmul(dmul(a, b, P), dmul(c, d, P), P), D), "product of the factors"); }; DM E;
  if (kind == 0) { auto [l, e, u, p] = LEUP_fact(M); E = rd(e); REQUIRE_MSG(tri(rd(l), true, true) && tri(rd(u), false, false) && perm(rd(p)) && ech(E), "shape of the factors"); chk(rd(l), E, rd(u), rd(p)); }
  if (kind == 1) { auto [p, l, e, u] = PLEU_fact(M); E = rd(e); REQUIRE_MSG(tri(rd(l), true, false) && tri(rd(u), false, true) && perm(rd(p)) && ech(E), "shape of the factors"); chk(rd(p), rd(l), E, rd(u)); }
  if (kind == 2) { auto [u, e, l, p] = UELP_fact(M); E = rd(e); REQUIRE_MSG(tri(rd(l), true, false) && tri(rd(u), false, true) && perm(rd(p)) && ech(E), "shape of the factors"); chk(rd(u), E, rd(l), rd(p)); }
  if (kind == 3) { auto [p, u, e, l] = PUEL_fact(M); E = rd(e); REQUIRE_MSG(tri(rd(l), true, true) && tri(rd(u), false, false) && perm(rd(p)) && ech(E), "shape of the factors"); chk(rd(p), rd(u), E, rd(l)); }
  REQUIRE_MSG(deq(rd(M), D), "argument unchanged"); REQUIRE_MSG(drank(E, P) == drank(D, P), "rank"); END();
}
inline DM symtri(const char* nm, size_t n, bool lower, int P) { DM L_(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i == j) L_(i, j) = bsx::sym(nm, 1, P - 1); else if (lower ? j < i : j > i) L_(i, j) = bsx::sym(nm, 0, P - 1); return L_; }
// symbolic echelon matrix with its pivots in the first columns (rows)
inline DM symech(size_t m, size_t n) { DM E(m, n); size_t j = 0; for (size_t i = 0; i < m && j < n; i++) if (bsx::symb("piv")) E(i, j++) = 1; return E; }
template <int P, class Acc> void comm(size_t m, size_t n, int kind) {
  typedef Fp<P> F; DM E = symech(m, n), X; 
  if (kind == 0) { X = symtri("l", n, true, P); auto e = mks<F, EL, Acc>(E); auto l = mks<F, L, Acc>(X); auto r = commute(e, l); REQUIRE_MSG(tri(rd(r), true, false), "triangular"); REQUIRE_MSG(deq(dmul(rd(r), E, P), dmul(E, X, P)), "L past EL"); }
  if (kind == 1) { DM G = dT(dJ(E)); X = symtri("l", n, true, P); auto e = mks<F, ELH, Acc>(G); auto l = mks<F, L, Acc>(X); auto r = commute(l, e); REQUIRE_MSG(tri(rd(r), true, false), "triangular"); REQUIRE_MSG(deq(dmul(G, rd(r), P), dmul(X, G, P)), "L past ELH"); }
  if (kind == 2) { DM G = dJ(E); X = symtri("u", n, false, P); auto e = mks<F, EUH, Acc>(G); auto u = mks<F, U, Acc>(X); auto r = commute(e, u); REQUIRE_MSG(tri(rd(r), false, false), "triangular"); REQUIRE_MSG(deq(dmul(rd(r), G, P), dmul(G, X, P)), "U past EUH"); }
  if (kind == 3) { DM G = dT(E); X = symtri("u", n, false, P); auto e = mks<F, EU, Acc>(G); auto u = mks<F, U, Acc>(X); auto r = commute(u, e); REQUIRE_MSG(tri(rd(r), false, false), "triangular"); REQUIRE_MSG(deq(dmul(G, rd(r), P), dmul(X, G, P)), "U past EU"); }
  END();
}
template <int P, class A1, class A2> void solves(size_t n, size_t k) {
  typedef Fp<P> F; int side = bsx::pick("side", 0, 3); bool low = side % 2 == 0; DM X = symtri("t", n, low, P), Y = side < 2 ? symdense("y", n, k, P) : symdense("y", k, n, P); auto y = mk<F, A2>(Y); DM Z; if (low) { auto l = mks<F, L, A1>(X); if (side < 2) { auto z = apply_inverse_on_left(l, y); Z = rd(z); } else { auto z = apply_inverse_on_right(y, l); Z = rd(z); } } else { auto u = mks<F, U, A1>(X); if (side < 2) { auto z = apply_inverse_on_left(u, y); Z = rd(z); } else { auto z = apply_inverse_on_right(y, u); Z = rd(z); } }
  REQUIRE_MSG(deq(side < 2 ? dmul(X, Z, P) : dmul(Z, X, P), Y), "triangular solve"); obsm(Z); END();
}
#define LP(a, Acc) BSX_ENTRY(view_##a) { views<Acc>(2, 2, 3); } BSX_ENTRY(lay_##a) { layout<3, Acc>(2, 3); } BSX_ENTRY(fac0_##a) { fact<2, Acc>(3, 3, 0); } BSX_ENTRY(fac1_##a) { fact<2, Acc>(2, 3, 1); } BSX_ENTRY(fac2_##a) { fact<2, Acc>(3, 2, 2); } BSX_ENTRY(fac3_##a) { fact<3, Acc>(2, 2, 3); } BSX_ENTRY(com0_##a) { comm<2, Acc>(2, 3, 0); } BSX_ENTRY(com1_##a) { comm<2, Acc>(3, 2, 1); } BSX_ENTRY(com2_##a) { comm<3, Acc>(2, 2, 2); } BSX_ENTRY(com3_##a) { comm<2, Acc>(2, 3, 3); }
LP(r, RowMaj) LP(c, ColMaj) LP(rr, RevRowMaj) LP(rc, RevColMaj)
BSX_ENTRY(f23) { fact<2, RowMaj>(2, 3, 2); }
BSX_ENTRY(f32) { fact<2, ColMaj>(3, 2, 3); }
BSX_ENTRY(f3) { fact<3, RowMaj>(2, 2, 0); }
BSX_ENTRY(f31) { fact<3, ColMaj>(2, 2, 1); }
BSX_ENTRY(p1) { prods<3, RowMaj, ColMaj>(2, 2, 2); }
BSX_ENTRY(p2) { prods<3, ColMaj, RevRowMaj>(1, 2, 2); }
BSX_ENTRY(p3) { prods<2, RevColMaj, RowMaj>(2, 2, 3); }
BSX_ENTRY(s1) { solves<3, RowMaj, ColMaj>(3, 1); }
BSX_ENTRY(s2) { solves<3, ColMaj, RowMaj>(2, 2); }
BSX_ENTRY(s3) { solves<5, RevRowMaj, RevColMaj>(2, 1); }
#if BSX_TIER
#define LT(a, Acc) BSX_ENTRY(tf0_##a) { fact<2, Acc>(3, 4, 0); } BSX_ENTRY(tf1_##a) { fact<2, Acc>(3, 3, 1); } BSX_ENTRY(tf2_##a) { fact<2, Acc>(3, 3, 2); } BSX_ENTRY(tf3_##a) { fact<2, Acc>(3, 3, 3); } BSX_ENTRY(tg0_##a) { fact<3, Acc>(2, 3, 0); } BSX_ENTRY(tg3_##a) { fact<3, Acc>(3, 2, 3); } BSX_ENTRY(tc0_##a) { comm<3, Acc>(3, 3, 0); } BSX_ENTRY(tc2_##a) { comm<3, Acc>(2, 3, 2); }
LT(r, RowMaj) LT(c, ColMaj) LT(rr, RevRowMaj) LT(rc, RevColMaj)
#endif
