// C30: polynomials over prime fields, extended Euclid, Smith normal forms over Z and over polynomial rings, rational canonical bases
#include "common.hpp"
template <int P> using Fp = ModP<int, P>;
// reference ring elements: integers and polynomials modulo P as plain coefficient lists
template <int P> struct Po { vector<int> c; Po() {} Po(int k) { if (md(k, P)) c.push_back(md(k, P)); } explicit Po(vector<int> v) : c(v) { for (auto& x : c) x = md(x, P); tr(); } void tr() { while (!c.empty() && c.back() == 0) c.pop_back(); }
  Po operator+(const Po& o) const { vector<int> r(std::max(c.size(), o.c.size()), 0); for (size_t i = 0; i < c.size(); i++) r[i] += c[i]; for (size_t i = 0; i < o.c.size(); i++) r[i] += o.c[i]; return Po(r); }
  Po operator*(const Po& o) const { if (c.empty() || o.c.empty()) return Po(); vector<int> r(c.size() + o.c.size() - 1, 0); for (size_t i = 0; i < c.size(); i++) for (size_t j = 0; j < o.c.size(); j++) r[i + j] += c[i] * o.c[j]; return Po(r); }
  Po operator-() const { vector<int> r(c); for (auto& x : r) x = -x; return Po(r); } Po operator-(const Po& o) const { return *this + (-o); } bool operator==(const Po& o) const { return c == o.c; } bool zero() const { return c.empty(); } int deg() const { return (int)c.size() - 1; } };
inline bool zero(int a) { return a == 0; } template <int P> bool zero(const Po<P>& a) { return a.zero(); }
inline bool unit(int a) { return a == 1 || a == -1; } template <int P> bool unit(const Po<P>& a) { return a.deg() == 0; }
template <int P> Po<P> prem(Po<P> a, const Po<P>& b) { int v = minv(b.c.back(), P); while (a.deg() >= b.deg()) { int k = a.deg() - b.deg(), q = md(a.c.back() * v, P); for (size_t i = 0; i < b.c.size(); i++) a.c[i + k] = md(a.c[i + k] - q * b.c[i], P); a.tr(); } return a; }
template <int P> bool divides(const Po<P>& a, const Po<P>& b) { return a.zero() ? b.zero() : prem(b, a).zero(); }
inline bool divides(int a, int b) { return a == 0 ? b == 0 : b % a == 0; }
template <unsigned P> Po<(int)P> rd(const UnivariatePolynomial<ModP<int, P>>& p) { vector<int> c; for (size_t i = 0; i < p.size(); i++) c.push_back(toint(p[i])); return Po<(int)P>(c); }
inline int rd(int a) { return a; }
// coefficients are reduced and the last one is not zero
template <unsigned P> bool wfp(const UnivariatePolynomial<ModP<int, P>>& p) { if (p.size() && toint(p[p.size() - 1]) == 0) return false; for (size_t i = 0; i < p.size(); i++) { int v = toint(p[i]); if (v < 0 || v >= (int)P) return false; } return true; }
inline bool wfp(int) { return true; }
template <int P> UnivariatePolynomial<Fp<P>> sympoly(const char* nm, int deg, bool one = false) { vector<Fp<P>> c; for (int i = 0; i <= deg; i++) c.push_back(Fp<P>(one ? bsx::pick(nm, 0, P - 1) : bsx::sym(nm, 0, P - 1))); return UnivariatePolynomial<Fp<P>>(c); }
template <class R> struct RM { size_t m, n; vector<R> a; RM(size_t m, size_t n) : m(m), n(n), a(m * n, R(0)) {} R& operator()(size_t i, size_t j) { return a[i * n + j]; } const R& operator()(size_t i, size_t j) const { return a[i * n + j]; } bool operator==(const RM& o) const { return m == o.m && n == o.n && a == o.a; } };
template <class R> RM<R> operator*(const RM<R>& x, const RM<R>& y) { RM<R> z(x.m, y.n); for (size_t i = 0; i < x.m; i++) for (size_t j = 0; j < y.n; j++) for (size_t k = 0; k < x.n; k++) z(i, j) = z(i, j) + x(i, k) * y(k, j); return z; }
template <class R> R det(const RM<R>& x) { if (x.n == 0) return R(1); if (x.n == 1) return x(0, 0); R d(0); for (size_t j = 0; j < x.n; j++) { RM<R> y(x.n - 1, x.n - 1); for (size_t i = 1; i < x.n; i++) { size_t c = 0; for (size_t k = 0; k < x.n; k++) if (k != j) y(i - 1, c++) = x(i, k); } R t = x(0, j) * det(y); d = j % 2 ? d - t : d + t; } return d; }
template <class R> RM<R> adj(const RM<R>& x) { size_t n = x.n; RM<R> z(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { RM<R> y(n - 1, n - 1); size_t r = 0; for (size_t a = 0; a < n; a++) if (a != i) { size_t c = 0; for (size_t b = 0; b < n; b++) if (b != j) y(r, c++) = x(a, b); r++; } R d = det(y); z(j, i) = (i + j) % 2 ? -d : d; } return z; }
template <class M> auto rdm(const M& A) { typedef decltype(rd(A[0].nzbegin()->val)) R; RM<R> D(A.nrow(), A.ncol()); for (size_t j = 0; j < A.ncol(); j++) { bool first = true; size_t last = 0; for (auto it = A[j].nzbegin(); it != A[j].nzend(); ++it) { REQUIRE_MSG(it->ind < A.nrow() && (first || last < it->ind), "row indices"); REQUIRE_MSG(wfp(it->val), "normal form of the entries"); first = false; last = it->ind; D(it->ind, j) = rd(it->val); } } return D; }
template <class R> bool assoc(const R& a, const R& b) { return divides(a, b) && divides(b, a); }
// diagonal, each entry dividing the next (everything divides zero)
template <class R> void snf(const RM<R>& S) { bool ok = true; for (size_t i = 0; i < S.m; i++) for (size_t j = 0; j < S.n; j++) if (i != j) ok &= zero(S(i, j)); REQUIRE_MSG(ok, "Smith form is diagonal"); for (size_t i = 0; i + 1 < S.m && i + 1 < S.n; i++) REQUIRE_MSG(zero(S(i + 1, i + 1)) || divides(S(i, i), S(i + 1, i + 1)), "divisibility of the diagonal"); }
template <class MatT> void smith(const MatT& A, bool rows, bool nf) {
  auto D = rdm(A); auto F = smith_factorization(A); auto R_ = rdm(F.R), S = rdm(F.S), C = rdm(F.C); REQUIRE_MSG(R_ * S * C == D, "product of the Smith factorization"); REQUIRE_MSG(rdm(F.prod()) == D, "prod"); REQUIRE_MSG(unit(det(R_)) && unit(det(C)), "factors are unimodular"); snf(S); REQUIRE(rdm(A) == D);
  if (nf) { MatT B(A); smith_normal_form(B); auto N = rdm(B); snf(N); for (size_t i = 0; i < D.m && i < D.n; i++) REQUIRE_MSG(assoc(N(i, i), S(i, i)), "invariant factors"); }
  if (rows) { auto [R2, S2] = smith_rows(A); auto N = rdm(S2), Q = rdm(R2); snf(N); for (size_t i = 0; i < D.m && i < D.n; i++) REQUIRE_MSG(assoc(N(i, i), S(i, i)), "invariant factors with row operations"); REQUIRE_MSG(unit(det(Q)), "row operations are unimodular"); auto X = adj(Q) * D; for (size_t i = 0; i < D.m; i++) for (size_t j = 0; j < D.n; j++) REQUIRE_MSG(i < D.n ? divides(N(i, i), X(i, j)) : zero(X(i, j)), "row operations produce the Smith form"); }
}
void zsmith(size_t m, size_t n, int lim, bool rows, bool nf, int symb = 0) { typedef SparseVector<int, size_t> V; vector<V> cols; for (size_t j = 0; j < n; j++) { vector<size_t> ind; vector<int> val; for (size_t i = 0; i < m; i++) { int v = symb ? bsx::sym("a", -lim, lim) : bsx::pick("a", -lim, lim); if (v) { ind.push_back(i); val.push_back(v); } } cols.push_back(V(ind, val)); } smith(ColumnMatrix<V>(m, n, cols), rows, nf); END(); }
template <int P> void psmith(size_t m, size_t n, int deg, bool rows, bool nf) { typedef SparseVector<UnivariatePolynomial<Fp<P>>, size_t> V; vector<V> cols; for (size_t j = 0; j < n; j++) { vector<size_t> ind; vector<UnivariatePolynomial<Fp<P>>> val; for (size_t i = 0; i < m; i++) { auto v = sympoly<P>("a", deg, true); if (!v.is_zero()) { ind.push_back(i); val.push_back(v); } } cols.push_back(V(ind, val)); } auto A = ColumnMatrix<V>(m, n, cols); smith(A, rows, nf); END(); }
template <class R> void bezout(const R& a, const R& b, const R& x, const R& y, const R& g, const R& w, const R& z) { REQUIRE_MSG(x * a + y * b == g, "Bezout identity"); if (zero(a) && zero(b)) { REQUIRE_MSG(zero(g), "gcd of zeros"); return; } REQUIRE_MSG(!zero(g) && w * g == a && z * g == b, "cofactors"); REQUIRE_MSG(x * w + y * z == R(1), "unimodular"); }
void zeuclid(int lim, bool one = false) { int a = one ? bsx::pick("a", -lim, lim) : bsx::sym("a", -lim, lim), b = one ? bsx::pick("b", -lim, lim) : bsx::sym("b", -lim, lim); auto [x, y, g, w, z] = extended_euclidean(a, b); bezout(a, b, x, y, g, w, z); bsx::obs(g); END(); }
template <int P> void peuclid(int d1, int d2) { auto a = sympoly<P>("a", d1), b = sympoly<P>("b", d2); auto [x, y, g, w, z] = extended_euclidean(a, b); for (auto& t : {x, y, g, w, z}) REQUIRE_MSG(wfp(t), "normal form"); bezout(rd(a), rd(b), rd(x), rd(y), rd(g), rd(w), rd(z)); auto h = a.gcd(b); REQUIRE_MSG(assoc(rd(h), rd(g)), "gcd"); END(); }
template <int P> int pev(const Po<P>& p, int v) { int s = 0; for (size_t i = p.c.size(); i-- > 0;) s = md(s * v + p.c[i], P); return s; }
template <int P> void poly(int d1, int d2) {
  typedef UnivariatePolynomial<Fp<P>> U_; auto a = sympoly<P>("a", d1), b = sympoly<P>("b", d2); auto X = rd(a), Y = rd(b); REQUIRE(wfp(a) && wfp(b)); REQUIRE(a.is_zero() == X.zero()); if (!X.zero()) REQUIRE((int)a.degree() == X.deg() && (int)a.dim() == X.deg() && toint(a.leading_coeff()) == X.c.back() && a.is_monic() == (X.c.back() == 1));
  auto eq = [&](const U_& p, const Po<P>& q, const char* w) { REQUIRE_MSG(wfp(p) && rd(p) == q, w); }; eq(a + b, X + Y, "sum"); eq(a - b, X - Y, "difference"); eq(a * b, X * Y, "product"); eq(-a, -X, "negation"); auto c = a; c += b; eq(c, X + Y, "sum in place"); c = a; c -= b; eq(c, X - Y, "difference in place"); REQUIRE((a == b) == (X == Y) && (a != b) == !(X == Y)); REQUIRE((a == 0) == X.zero() && (a != 0) == !X.zero() && (a == 1) == (X == Po<P>(1)) && (a != 1) == !(X == Po<P>(1)));
  if (!Y.zero()) { auto [q, r] = a.divrem(b); REQUIRE_MSG(wfp(q) && wfp(r) && rd(r).deg() < Y.deg() && rd(q) * Y + rd(r) == X, "division with remainder"); eq(a / b, rd(q), "quotient"); eq(a.remainder(b), rd(r), "remainder"); }
  int v = bsx::sym("v", 0, P - 1); REQUIRE_MSG(toint(a(Fp<P>(v))) == pev(X, v), "evaluation"); int s = bsx::sym("s", 0, P - 1); size_t k = (size_t)bsx::pick("k", 0, 2); vector<int> mc(k + 1, 0); mc[k] = s; eq(U_::monomial(k, Fp<P>(s)), Po<P>(mc), "monomial"); eq(U_::identity(), Po<P>(1), "one"); eq(U_::zero(), Po<P>(), "zero"); eq(U_(Fp<P>(s)), Po<P>(s), "constant"); END();
}
template <int P> DM peval(const Po<P>& p, const DM& A_) { DM S(A_.m, A_.m), Q = deye(A_.m); for (int c : p.c) { for (size_t i = 0; i < S.a.size(); i++) S.a[i] = md(S.a[i] + c * Q.a[i], P); Q = dmul(Q, A_, P); } return S; }
template <int P> void matpoly(size_t n, int deg) { typedef SparseVector<Fp<P>, size_t> V; DM D = symdense("m", n, n, P); auto A_ = matof<ColumnMatrix<V>>(D); auto p = sympoly<P>("a", deg, true); DM w = symdense("v", n, 1, P); DV wv(w.a); auto r = p(A_, vecof<V>(wv)); DM e = dmul(peval(rd(p), D), w, P); REQUIRE_MSG(dvec(r, n) == e.a, "polynomial of a matrix"); auto X = characteristic_matrix(A_); auto x = rdm(X); REQUIRE(x.m == n && x.n == n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) REQUIRE_MSG(x(i, j) == (i == j ? Po<P>(vector<int>{-D(i, j), 1}) : Po<P>(-D(i, j))), "characteristic matrix"); END(); }
template <int P> DM companion(const Po<P>& p) { size_t n = (size_t)p.deg(); DM C(n, n); for (size_t j = 0; j + 1 < n; j++) C(j + 1, j) = 1; for (size_t i = 0; i < n; i++) C(i, n - 1) = md(-p.c[i], P); return C; }
template <int P> void comp(int deg) { auto p = sympoly<P>("a", deg); auto X = rd(p); bool thrown = false; if (X.deg() < 1) return; try { auto C = p.companion_matrix(); REQUIRE_MSG(X.c.back() == 1, "only monic polynomials have companion matrices"); DM D = dense(C); REQUIRE_MSG(deq(D, companion(X)), "companion matrix"); REQUIRE(deq(peval(X, D), DM(D.m, D.m))); } catch (const std::exception&) { thrown = true; } REQUIRE_MSG(thrown == (X.c.back() != 1), "refusal"); END(); }
// rational canonical form: in the computed basis the matrix is the block sum of companion matrices of its invariant factors
template <int P> void rcf(size_t n, int symb = 0) { typedef SparseVector<Fp<P>, size_t> V; DM D = symdense("m", n, n, P); auto A_ = matof<ColumnMatrix<V>>(D); auto [R_, S] = smith_rows(characteristic_matrix(A_)); auto B = generating_basis(R_, A_); auto s = rdm(S); size_t tot = 0; for (size_t i = 0; i < n; i++) { REQUIRE_MSG(!s(i, i).zero() && s(i, i).c.back() == 1, "monic invariant factors"); tot += (size_t)s(i, i).deg(); if (s(i, i).deg() == 0) REQUIRE_MSG(dvec(B[i], n) == DV(n, 0), "trivial generators vanish"); } REQUIRE_MSG(tot == n, "degrees"); auto X = RCF_basis(S, A_, B); REQUIRE_MSG(X.ncol() == n && X.nrow() == n && X.cols().size() == n, "number of basis vectors"); DM Q = dense(X); REQUIRE_MSG(drank(Q, P) == n, "rational canonical basis is a basis"); DM C(n, n); size_t o = 0; for (size_t i = 0; i < n; i++) if (s(i, i).deg() > 0) { DM c = companion(s(i, i)); for (size_t a = 0; a < c.m; a++) for (size_t b = 0; b < c.m; b++) C(o + a, o + b) = c(a, b); o += c.m; } REQUIRE_MSG(deq(dmul(D, Q, P), dmul(Q, C, P)), "rational canonical form"); END(); }
BSX_ENTRY(ze) { zeuclid(7); }
BSX_ENTRY(pe2) { peuclid<2>(2, 2); }
BSX_ENTRY(pe3) { peuclid<3>(1, 2); }
BSX_ENTRY(po2) { poly<2>(2, 2); }
BSX_ENTRY(po3) { poly<3>(1, 1); }
BSX_ENTRY(mp2) { matpoly<2>(2, 2); }
BSX_ENTRY(co3) { comp<3>(3); }
BSX_ENTRY(zs22) { zsmith(2, 2, 2, true, true); }
BSX_ENTRY(zs13) { zsmith(1, 3, 2, true, true); }
BSX_ENTRY(zs31) { zsmith(3, 1, 2, true, true); }
BSX_ENTRY(zs23) { zsmith(2, 3, 1, false, true); }
BSX_ENTRY(ps22) { psmith<2>(2, 2, 1, true, true); }
BSX_ENTRY(rc2) { rcf<2>(2); }
BSX_ENTRY(rc3) { rcf<3>(2); }
BSX_ENTRY(rc23) { rcf<2>(3); }
#if BSX_TIER
BSX_ENTRY(tze) { zeuclid(25, true); }
BSX_ENTRY(tzs) { zsmith(2, 2, 4, true, true); }
BSX_ENTRY(tzs32) { zsmith(3, 2, 1, true, true); }
BSX_ENTRY(tzs33) { zsmith(3, 3, 1, false, false); }
BSX_ENTRY(tps3) { psmith<3>(2, 2, 1, true, true); }
BSX_ENTRY(tpe) { peuclid<2>(3, 3); }
BSX_ENTRY(tpe3) { peuclid<3>(2, 2); }
BSX_ENTRY(tpo) { poly<3>(2, 2); }
BSX_ENTRY(trc5) { rcf<5>(2); }
#endif
