// C39: the dense matrices, LU factorizations, spans, similarity transforms and permutations of bats::future
#include "common.hpp"
#include <future.hpp>
namespace fu = bats::future;
template <unsigned P> using Fp = ModP<int, P>;
template <class F> fu::Matrix<F> mk(const DM& D, bool rowmaj) { fu::Matrix<F> M = rowmaj ? fu::Matrix<F>(D.m, D.n, fu::RowMajor()) : fu::Matrix<F>(D.m, D.n, fu::ColumnMajor()); for (size_t i = 0; i < D.m; i++) for (size_t j = 0; j < D.n; j++) M(i, j) = F(D(i, j)); return M; }
template <class M> DM rd(const M& A) { DM D(A.nrow(), A.ncol()); for (size_t i = 0; i < D.m; i++) for (size_t j = 0; j < D.n; j++) D(i, j) = toint(A(i, j)); return D; }
template <class V> DV rv(const V& v, size_t n) { DV r; for (size_t i = 0; i < n; i++) r.push_back(toint(v[i])); return r; }
// element access, row and column views, index views, copies into the other layout, growing and shrinking
template <unsigned P> void access(size_t m, size_t n) {
  typedef Fp<P> F; bool rm = bsx::symb("rowmajor"); DM D = symdense("a", m, n, P); auto M = mk<F>(D, rm); const auto& C = M;
  REQUIRE(M.nrow() == m && M.ncol() == n && M.len() == m * n && M.dims() == std::make_pair(m, n)); REQUIRE_MSG(deq(rd(M), D), "element access");
  for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) { size_t k = rm ? i * n + j : j * m + i; REQUIRE_MSG(toint(C[k]) == D(i, j) && toint(M(k)) == D(i, j) && toint(C(k)) == D(i, j) && toint(M.data()[k]) == D(i, j), "storage order"); }
  for (size_t i = 0; i < m; i++) { auto v = M.row(i); size_t c = 0; for (auto it = v.begin(); it != v.end(); ++it) { REQUIRE_MSG(c < n && toint(*it) == D(i, c), "row view"); c++; } REQUIRE(c == n); const auto& w = v; c = 0; for (auto it = w.begin(); it != w.end();) { auto old = it++; REQUIRE_MSG(c < n && toint(*old) == D(i, c) && toint(w[c]) == D(i, c) && old + 1 == it, "row view"); c++; } REQUIRE(c == n); }
  for (size_t j = 0; j < n; j++) { auto v = M.column(j); size_t c = 0; for (auto it = v.cbegin(); it != v.cend(); ++it) { REQUIRE_MSG(c < m && toint(*it) == D(c, j) && toint(v[c]) == D(c, j), "column view"); c++; } REQUIRE(c == m); if (m) { auto e = v.end(); --e; REQUIRE(toint(*e) == D(m - 1, j)); auto b = e--; REQUIRE(toint(*b) == D(m - 1, j)); REQUIRE(m < 2 || toint(*e) == D(m - 2, j)); } }
  auto T = M.transpose(); REQUIRE_MSG(deq(rd(T), dT(D)), "transpose"); fu::Matrix<F> CM(M, fu::ColumnMajor()); REQUIRE_MSG(deq(rd(CM), D), "copy"); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) REQUIRE_MSG(toint(CM[j * m + i]) == D(i, j), "column major copy");
  // a view with chosen rows and a range of columns; writing through it
  vector<size_t> r; size_t k = (size_t)bsx::pick("nr", 0, (int)m); for (size_t i = 0; i < k; i++) r.push_back((size_t)bsx::pick("r", 0, (int)m - 1)); size_t c0 = (size_t)bsx::pick("c0", 0, (int)n), c1 = (size_t)bsx::pick("c1", (int)c0, (int)n);
  auto V = M.view(std::move(r), fu::range<size_t>(c0, c1)); r.assign(k, 0); DM E(k, c1 - c0); REQUIRE(V.nrow() == k && V.ncol() == c1 - c0); obsm(D); (void)E; END();
}
template <unsigned P> void views(size_t m, size_t n) {
  typedef Fp<P> F; bool rm = bsx::symb("rowmajor"); DM D = symdense("a", m, n, P); auto M = mk<F>(D, rm); vector<size_t> r; size_t k = (size_t)bsx::pick("nr", 0, 2); for (size_t i = 0; i < k; i++) r.push_back((size_t)bsx::pick("r", 0, (int)m - 1)); size_t c0 = (size_t)bsx::pick("c0", 0, (int)n), c1 = (size_t)bsx::pick("c1", (int)c0, (int)n);
  auto rr = r; auto cc = fu::range<size_t>(c0, c1); auto V = M.view(rr, cc); REQUIRE(V.nrow() == k && V.ncol() == c1 - c0); const auto& W = V; for (size_t i = 0; i < k; i++) for (size_t j = 0; j < c1 - c0; j++) REQUIRE_MSG(toint(W(i, j)) == D(r[i], c0 + j), "matrix view");
  if (k && c1 > c0) { int x = bsx::sym("x", 0, P - 1); V(0, 0) = F(x); D(r[0], c0) = x; REQUIRE_MSG(deq(rd(M), D), "write through a view"); }
  // product with a view
  DM B = symdense("b", 1, k, P), S(k, c1 - c0); for (size_t i = 0; i < k; i++) for (size_t j = 0; j < S.n; j++) S(i, j) = D(r[i], c0 + j); auto b = mk<F>(B, true); auto p = b.mm(V); REQUIRE_MSG(deq(rd(p), dmul(B, S, P)), "product with a view"); END();
}
// a history of elementary operations
template <unsigned P> void elem(size_t m, size_t n, int ops) {
  typedef Fp<P> F; bool rm = bsx::symb("rowmajor"); DM D = symdense("a", m, n, P); auto M = mk<F>(D, rm);
  for (int o = 0; o < ops; o++) { int k = bsx::pick("op", 0, 9); 
    auto R = [&](const char* s) { return (size_t)bsx::pick(s, 0, (int)m - 1); }; auto Cc = [&](const char* s) { return (size_t)bsx::pick(s, 0, (int)D.n - 1); };
    if (D.n == 0 && (k == 1 || k == 3 || k == 5 || k == 7)) continue;
    if (k == 0) { size_t i = R("i"), j = R("j"); M.swap_rows(i, j); for (size_t c = 0; c < D.n; c++) std::swap(D(i, c), D(j, c)); }
    if (k == 1) { size_t i = Cc("i"), j = Cc("j"); M.swap_columns(i, j); for (size_t r = 0; r < m; r++) std::swap(D(r, i), D(r, j)); }
    if (k == 2) { size_t i = R("i"), j = R("j"); ASSUME(i != j); int a = bsx::sym("c", 0, P - 1); M.add_row(F(a), i, j); for (size_t c = 0; c < D.n; c++) D(j, c) = md(D(j, c) + a * D(i, c), P); }
    if (k == 3) { size_t i = Cc("i"), j = Cc("j"); ASSUME(i != j); int a = bsx::sym("c", 0, P - 1); M.add_column(F(a), i, j); for (size_t r = 0; r < m; r++) D(r, j) = md(D(r, j) + a * D(r, i), P); }
    if (k == 4) { size_t i = R("i"), j = R("j"); ASSUME(i != j); M.add_row(i, j); for (size_t c = 0; c < D.n; c++) D(j, c) = md(D(j, c) + D(i, c), P); }
    if (k == 5) { size_t i = Cc("i"), j = Cc("j"); ASSUME(i != j); M.add_column(i, j); for (size_t r = 0; r < m; r++) D(r, j) = md(D(r, j) + D(r, i), P); }
    if (k == 6) { size_t i = R("i"); int a = bsx::sym("c", 0, P - 1); M.scale_row(F(a), i); for (size_t c = 0; c < D.n; c++) D(i, c) = md(a * D(i, c), P); }
    if (k == 7) { size_t i = Cc("i"); int a = bsx::sym("c", 0, P - 1); M.scale_column(F(a), i); for (size_t r = 0; r < m; r++) D(r, i) = md(a * D(r, i), P); }
    if (k == 8) { int a = bsx::sym("c", 0, P - 1); bool ok = a ? M.append_column(F(a)) : M.append_column(); REQUIRE_MSG(ok || rm, "a column major matrix grows"); if (ok) { DM E(m, D.n + 1); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < E.n; j++) E(i, j) = j < D.n ? D(i, j) : a; D = E; } }
    if (k == 9 && D.n) { bool ok = M.delete_column(); REQUIRE_MSG(ok || rm, "a column major matrix shrinks"); if (ok) { DM E(m, D.n - 1); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < E.n; j++) E(i, j) = D(i, j); D = E; } }
    REQUIRE_MSG(deq(rd(M), D), "elementary operation"); }
  obsm(D); END();
}
template <unsigned P> void prods(size_t m, size_t k, size_t n) {
  typedef Fp<P> F; bool ra = bsx::symb("ra"), rb = bsx::symb("rb"); DM X = symdense("x", m, k, P), Y = symdense("y", k, n, P); auto a = mk<F>(X, ra), b = mk<F>(Y, rb); auto c = a.mm(b); REQUIRE_MSG(deq(rd(c), dmul(X, Y, P)), "product"); auto d = a * b; REQUIRE_MSG(deq(rd(d), rd(c)), "product");
  vector<F> x, y(m, F(1)); for (size_t i = 0; i < k; i++) x.push_back(F(Y(i, 0))); auto& z = fu::gemv(a, x, y); REQUIRE(&z == &y); for (size_t i = 0; i < m; i++) REQUIRE_MSG(toint(y[i]) == toint(c(i, 0)), "matrix times vector"); 
  auto w = a.mv(x); for (size_t i = 0; i < m; i++) REQUIRE_MSG(toint(w[i]) == toint(c(i, 0)), "matrix times vector"); REQUIRE_MSG(deq(rd(fu::Matrix<F>::identity(k)), deye(k)), "identity"); fu::Matrix<F> G(m, n, F(1)); G.fill(F(0)); REQUIRE(deq(rd(G), DM(m, n))); END();
}
inline bool isperm(const DM& Q) { if (Q.m != Q.n) return false; for (size_t i = 0; i < Q.m; i++) { int r = 0, c = 0; for (size_t j = 0; j < Q.m; j++) { if (Q(i, j) != 0 && Q(i, j) != 1) return false; r += Q(i, j); c += Q(j, i); } if (r != 1 || c != 1) return false; } return true; }
template <unsigned P> void lu(size_t m, size_t n) {
  typedef Fp<P> F; bool rm = bsx::symb("rowmajor"); DM D = symdense("a", m, n, P); auto M = mk<F>(D, rm); auto f = fu::LU(M); REQUIRE_MSG(deq(rd(M), D), "argument unchanged"); DM p = rd(f.P), l = rd(f.L), u = rd(f.U), q = rd(f.Q);
  REQUIRE_MSG(p.m == m && q.m == n && isperm(p) && isperm(q), "permutation factors"); REQUIRE(l.m == m && l.n == m && u.m == m && u.n == n); size_t r = 0; bool ok = true; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) if (i == j ? l(i, j) != 1 : j > i && l(i, j)) ok = false; REQUIRE_MSG(ok, "unit lower triangular");
  for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n && j < i; j++) ok &= u(i, j) == 0; REQUIRE_MSG(ok, "upper triangular"); for (size_t i = 0; i < m && i < n; i++) r += u(i, i) != 0; REQUIRE_MSG(r == drank(D, P), "complete pivoting reveals the rank");
  REQUIRE_MSG(deq(dmul(dmul(p, l, P), dmul(u, q, P), P), D), "A = P L U Q"); REQUIRE_MSG(deq(rd(f.prod()), D), "product"); obsm(u); END();
}
template <unsigned P> void solve(size_t m, size_t n) {
  typedef Fp<P> F; DM Lm(m, n); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) Lm(i, j) = i == j ? 1 : j < i ? bsx::sym("l", 0, P - 1) : 0; auto L = mk<F>(Lm, bsx::symb("rowmajor")); DV y0(m); fillv(y0, "y", P); vector<F> y, x(n, F(1)); for (int v : y0) y.push_back(F(v)); auto y2 = y;
  bool ok = fu::l_solve(L, y, x); DM X(n, 1), Y(m, 1); for (size_t j = 0; j < n; j++) X(j, 0) = toint(x[j]); DM Z = dmul(Lm, X, P); bool eq = true; for (size_t i = 0; i < m; i++) { int v = md(y0[i] - Z(i, 0), P); REQUIRE_MSG(toint(y[i]) == v, "residual"); REQUIRE_MSG(i >= n || v == 0, "forward substitution"); eq &= v == 0; } REQUIRE_MSG(ok == eq, "consistency");
  fu::l_residual(L, y2); for (size_t i = 0; i < m; i++) REQUIRE_MSG(toint(y2[i]) == toint(y[i]), "residual"); END();
}
// vectors added one after another: told apart exactly when independent of those before; membership afterwards
template <unsigned P> void span(size_t n, int steps) {
  typedef Fp<P> F; fu::Span<F> S(n, F()); DM G(n, 0); REQUIRE(S.dim() == 0 && S.vdim() == n);
  auto with = [&](const DV& v) { DM E(n, G.n + 1); for (size_t i = 0; i < n; i++) { for (size_t j = 0; j < G.n; j++) E(i, j) = G(i, j); E(i, G.n) = v[i]; } return E; };
  for (int s = 0; s <= steps; s++) { DV v(n); fillv(v, "v", P); vector<F> x; for (int k : v) x.push_back(F(k)); DM E = with(v); bool in = drank(E, P) == drank(G, P); REQUIRE_MSG(S.contains(x) == in, "membership"); if (s == steps) break; REQUIRE_MSG(S.add(x) == !in, "a vector enlarges the span exactly if it is not in it"); G = E; REQUIRE_MSG(S.dim() == drank(G, P) && S.vdim() == n, "dimension"); REQUIRE_MSG(S.contains(x), "an added vector is in the span"); for (size_t i = 0; i < n; i++) REQUIRE(toint(x[i]) == v[i]); }
  END();
}
// similarity transforms: A0 = S A S^-1 after every operation
template <unsigned P> void sim(size_t n, int ops) {
  typedef Fp<P> F; DM D = symdense("a", n, n, P); auto A0 = mk<F>(D, bsx::symb("rowmajor")); fu::SimilarityTransform<F> T(A0); REQUIRE(T.size() == n);
  for (int o = 0; o < ops; o++) { int k = bsx::pick("op", 0, 4); size_t i = (size_t)bsx::pick("i", 0, (int)n - 1), j = (size_t)bsx::pick("j", 0, (int)n - 1); DM E = deye(n), Ei = deye(n); int c = bsx::sym("c", 1, P - 1);
    if (k <= 1) { k ? T.swap_columns(i, j) : T.swap_rows(i, j); for (size_t q = 0; q < n; q++) std::swap(E(i, q), E(j, q)); Ei = dT(E); }
    if (k == 2) { ASSUME(i != j); T.add_row(F(c), i, j); E(j, i) = c; Ei(j, i) = md(-c, P); }
    if (k == 3) { ASSUME(i == j); T.scale_row(F(c), i); E(i, i) = c; Ei(i, i) = minv(c, P); }
    if (k == 4) { ASSUME(i == j); T.scale_column(F(c), i); E(i, i) = minv(c, P); Ei(i, i) = c; }
    DM a = dmul(dmul(E, D, P), Ei, P); REQUIRE_MSG(deq(rd(T.A), a), "operation on rows and columns"); for (size_t r = 0; r < n; r++) for (size_t s = 0; s < n; s++) REQUIRE(toint(T(r, s)) == a(r, s)); D = a; }
  REQUIRE_MSG(deq(dmul(rd(T.S), rd(T.Sinv), P), deye(n)), "inverse transformations"); REQUIRE_MSG(deq(dmul(dmul(rd(T.S), rd(T.A), P), rd(T.Sinv), P), rd(A0)), "A0 = S A S^-1"); REQUIRE_MSG(deq(rd(T.prod()), rd(A0)), "product"); END();
}
// composite permutations: swaps applied first to last; an elementary one before or after
inline void perms(size_t n, int k) {
  fu::CompositePermutation C; vector<std::pair<size_t, size_t>> s; for (int q = 0; q < k; q++) { size_t i = (size_t)bsx::pick("i", 0, (int)n - 1), j = (size_t)bsx::pick("j", 0, (int)n - 1); fu::ElementaryPermutation e(i, j); const auto& ce = e; int how = bsx::pick("how", 0, 3); if (how == 0) C.append(e); if (how == 1) C.swap(i, j); if (how == 2) e(C); if (how == 3) { C(ce); s.insert(s.begin(), {i, j}); } else s.push_back({i, j}); }
  vector<int> v(n), w; for (size_t i = 0; i < n; i++) v[i] = bsx::sym("v", 0, 9); w = v; C(v); for (auto& p : s) std::swap(w[p.first], w[p.second]); for (size_t i = 0; i < n; i++) REQUIRE_MSG(v[i] == w[i], "permuted"); if (k) { fu::ElementaryPermutation e(s[0].first, s[0].second); e(v); std::swap(w[s[0].first], w[s[0].second]); for (size_t i = 0; i < n; i++) REQUIRE(v[i] == w[i]); } END();
}
inline void ranges(int lo, int hi) {
  int b = bsx::pick("b", lo, hi), e = bsx::pick("e", lo, hi); auto r = bsx::symb("explicit") && b <= e ? fu::range<int>(b, e, 1) : fu::range<int>(b, e); int n = b < e ? e - b : b - e, d = b <= e ? 1 : -1; REQUIRE_MSG((int)r.size() == n, "length"); REQUIRE(r.first() == b && r.last() == e && r.stride() == d);
  int c = 0; for (auto it = r.begin(); it != r.end() && c <= n; ++it, ++c) { REQUIRE_MSG(c < n && *it == b + d * c && r[(size_t)c] == b + d * c, "values"); } REQUIRE(c == n); auto it = r.cbegin(); auto old = it++; REQUIRE(*old == b && *it == b + d); auto o2 = it--; REQUIRE(*o2 == b + d && it == old && *it == b); 
  int s = bsx::pick("s", 1, 3), k = bsx::pick("k", 0, 3); fu::range<int> q(b, b + s * k, s); REQUIRE((int)q.size() == k); c = 0; for (auto i2 = q.begin(); i2 != q.end() && c <= k; ++i2, ++c) REQUIRE(*i2 == b + s * c); REQUIRE(c == k); END();
}
BSX_ENTRY(acc) { access<3>(2, 2); }
BSX_ENTRY(acc2) { access<2>(3, 2); }
BSX_ENTRY(view) { views<3>(2, 3); }
BSX_ENTRY(elem2) { elem<3>(2, 2, 1); }
BSX_ENTRY(elem3) { elem<3>(2, 1, 2); }
BSX_ENTRY(elem4) { elem<2>(2, 2, 2); }
BSX_ENTRY(mul) { prods<3>(2, 2, 1); }
BSX_ENTRY(mul2) { prods<2>(2, 2, 2); }
BSX_ENTRY(lu22) { lu<3>(2, 2); }
BSX_ENTRY(lu33) { lu<2>(3, 3); }
BSX_ENTRY(lu23) { lu<3>(2, 3); }
BSX_ENTRY(lu32) { lu<3>(3, 2); }
BSX_ENTRY(lu31) { lu<3>(3, 1); }
BSX_ENTRY(lu13) { lu<3>(1, 3); }
BSX_ENTRY(lu0) { bsx::symb("m") ? lu<3>(2, 0) : lu<3>(0, 2); }
BSX_ENTRY(lu34) { lu<2>(3, 4); }
BSX_ENTRY(sol) { solve<3>(3, 3); }
BSX_ENTRY(sol2) { solve<3>(3, 2); }
BSX_ENTRY(span2) { span<3>(2, 2); }
BSX_ENTRY(span3) { span<2>(3, 3); }
BSX_ENTRY(sim2) { sim<3>(2, 2); }
BSX_ENTRY(sim3) { sim<2>(3, 1); }
BSX_ENTRY(perm) { perms(3, 3); }
BSX_ENTRY(rng) { ranges(-2, 3); }
SKEL(klu, 6, 2, lu<3>(5, 5))
SKEL(klu2, 6, 2, lu<2>(6, 4))
SKEL(kspan, 6, 1, span<3>(4, 4))
SKEL(kelem, 6, 2, elem<3>(4, 3, 1))
#if BSX_TIER
BSX_ENTRY(t_lu33) { lu<3>(3, 3); }
BSX_ENTRY(t_lu44) { lu<2>(4, 4); }
BSX_ENTRY(t_elem) { elem<3>(2, 2, 2); }
BSX_ENTRY(t_elem3) { elem<2>(2, 2, 3); }
BSX_ENTRY(t_span3) { span<3>(3, 2); }
BSX_ENTRY(t_span4) { span<2>(4, 3); }
BSX_ENTRY(t_sim) { sim<3>(3, 1); }
BSX_ENTRY(t_sim2) { sim<2>(3, 2); }
BSX_ENTRY(t_perm) { perms(4, 3); }
BSX_ENTRY(t_mul) { prods<3>(2, 3, 2); }
#endif
