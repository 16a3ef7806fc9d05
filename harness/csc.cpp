// C04: compressed sparse column matrices: exact selection, products and sums with sorted columns
#include "common.hpp"
using namespace bats;
template <class F> struct Mod { static constexpr int p = 0; }; template <class I, unsigned P> struct Mod<ModP<I, P>> { static constexpr int p = (int)P; };
template <class F> int red(int v) { return Mod<F>::p ? md(v, Mod<F>::p) : v; }
template <class F> DM symd(const char* nm, size_t m, size_t n, int V) { DM D(m, n); if (sk().seeds) { if (Mod<F>::p) return symdense(nm, m, n, Mod<F>::p); auto o = skopen(m * n); for (size_t i = 0; i < m * n; i++) { int z = skr(3), x = skr(2 * V + 1) - V; D.a[i] = o[i] ? bsx::pick(nm, -V, V) : z ? x : 0; } return D; } for (auto& x : D.a) x = Mod<F>::p ? bsx::sym(nm, 0, Mod<F>::p - 1) : bsx::sym(nm, -V, V); return D; }
// columns in increasing or decreasing or rotated row order
template <class F> CSCMatrix<F, size_t> cscof(const DM& D, int how) { vector<size_t> cp{0}, ri; vector<F> v; for (size_t j = 0; j < D.n; j++) { for (size_t q = 0; q < D.m; q++) { size_t i = how == 0 ? q : how == 1 ? D.m - 1 - q : (q + 1) % D.m; if (D(i, j)) { ri.push_back(i); v.push_back(F(D(i, j))); } } cp.push_back(ri.size()); } return CSCMatrix<F, size_t>(D.m, D.n, cp, ri, v); }
template <class F> void is(const CSCMatrix<F, size_t>& A, const DM& D, const char* what, bool nozero = true) {
  REQUIRE_MSG(A.nrow() == D.m && A.ncol() == D.n, what); auto& cp = A.get_colptr(); auto& ri = A.get_rowind(); auto& v = A.get_val(); REQUIRE_MSG(cp.size() == D.n + 1 && cp[0] == 0 && cp[D.n] == ri.size() && ri.size() == v.size(), what);
  for (size_t j = 0; j < D.n; j++) { DV c(D.m, 0); REQUIRE_MSG(cp[j] <= cp[j + 1], what); for (size_t k = cp[j]; k < cp[j + 1]; k++) { REQUIRE_MSG(ri[k] < D.m, what); if (k > cp[j]) REQUIRE_MSG(ri[k - 1] < ri[k], "row indices of a column are strictly increasing"); if (nozero) REQUIRE_MSG(toint(v[k]) != 0, "no stored zeros"); c[ri[k]] = toint(v[k]); } for (size_t i = 0; i < D.m; i++) { REQUIRE_MSG(c[i] == red<F>(D(i, j)), what); REQUIRE_MSG(toint(A.getval(i, j)) == red<F>(D(i, j)), "getval"); } }
}
inline DM dsub(const DM& D, const vector<size_t>& r, const vector<size_t>& c) { DM S(r.size(), c.size()); for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < c.size(); j++) S(i, j) = D(r[i], c[j]); return S; }
inline vector<size_t> symsubset(const char* nm, size_t n) { auto p = symperm(nm, n); p.resize(sk().seeds ? (size_t)skr((int)n + 1) : (size_t)bsx::pick("len", 0, (int)n)); return p; }
template <class F> void select(size_t m, size_t n, int V) {
  DM D = symd<F>("a", m, n, V); auto A = cscof<F>(D, bsx::pick("how", 0, 2)); is(A, D, "constructor"); { CSCMatrix<F, size_t> Q(A.get_colptr(), A.get_rowind(), A.get_val()); REQUIRE(Q.ncol() == n && Q.nrow() <= m); DM T0(Q.nrow(), n); for (size_t i = 0; i < Q.nrow(); i++) for (size_t j = 0; j < n; j++) T0(i, j) = D(i, j); is(Q, T0, "constructor without row count"); for (size_t i = Q.nrow(); i < m; i++) for (size_t j = 0; j < n; j++) REQUIRE(D(i, j) == 0); } auto r = symsubset("r", m), c = symsubset("c", n); auto S = A.submatrix(r, c); is(S, dsub(D, r, c), "submatrix");
  CSCMatrix<F, size_t> Bk; auto pr = bats::util::partial_perm(r, m); block_select(A, c, pr, r.size(), Bk); is(Bk, dsub(D, r, c), "block_select"); 
  // two complementary row blocks at once
  vector<size_t> r2; for (size_t i = 0; i < m; i++) if (std::find(r.begin(), r.end(), i) == r.end()) r2.push_back(i); auto pr2 = bats::util::partial_perm(r2, m); CSCMatrix<F, size_t> B1, B2; 
  { const std::vector<size_t>* ps[2] = {&pr, &pr2}; size_t ms[2] = {r.size(), r2.size()}; CSCMatrix<F, size_t>* bs[2] = {&B1, &B2}; block_select(A, c, std::move(ps), std::move(ms), std::move(bs)); } is(B1, dsub(D, r, c), "first row block"); is(B2, dsub(D, r2, c), "second row block"); bsx::obs(S.get_val().size()); END();
}
template <class F> void prod(size_t m, size_t k, size_t n, int V) {
  DM D = symd<F>("a", m, k, V), E = symd<F>("b", k, n, V); auto A = cscof<F>(D, 0), B = cscof<F>(E, 1); DM P(m, n); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) for (size_t l = 0; l < k; l++) P(i, j) += D(i, l) * E(l, j); auto C = A * B; is(C, P, "product"); CSCMatrix<F, size_t> G = A; gemm(A, B, G); is(G, P, "gemm into a used matrix"); for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++) bsx::obs(toint(C.getval(i, j))); END();
}
template <class F> void sums(size_t m, size_t n, int V) {
  DM D = symd<F>("a", m, n, V), E = symd<F>("b", m, n, V); auto A = cscof<F>(D, 2), B = cscof<F>(E, 0); CSCMatrix<F, size_t> C, G; sum(A, B, C); DM S(m, n), Q(m, n); int al = sk().seeds ? bsx::pick("al", Mod<F>::p ? 0 : -2, Mod<F>::p ? Mod<F>::p - 1 : 2) : Mod<F>::p ? bsx::sym("al", 0, Mod<F>::p - 1) : bsx::sym("al", -2, 2); for (size_t i = 0; i < D.a.size(); i++) { S.a[i] = D.a[i] + E.a[i]; Q.a[i] = al * D.a[i] + E.a[i]; } is(C, S, "sum"); sum(F(al), A, B, G); is(G, Q, "scaled sum"); bsx::obs(C.get_val().size()); END();
}
// conversion to and from column matrices
template <int P> void conv(size_t m, size_t n, int V) {
  typedef ModP<int, P> F; typedef ColumnMatrix<SparseVector<F, size_t>> M; DM D = symd<int>("a", m, n, V); auto A = cscof<int>(D, bsx::pick("how", 0, 2)); M B(A); DM R(m, n); for (size_t i = 0; i < D.a.size(); i++) R.a[i] = md(D.a[i], P); REQUIRE(wfm(B) && deq(dense(B), R)); auto r = symperm("r", m), c = symperm("c", n); M Z(A.submatrix(r, c)); REQUIRE_MSG(wfm(Z) && deq(dense(Z), dsub(R, r, c)), "submatrix then conversion"); bsx::obs(dense(B).a[0]); END();
}
typedef ModP<int, 3> F3; typedef ModP<int, 2> F2;
BSX_ENTRY(sel3) { select<F2>(3, 2, 1); }
BSX_ENTRY(sel2) { select<int>(2, 2, 3); }
BSX_ENTRY(sel3b) { select<F3>(2, 3, 1); }
BSX_ENTRY(prod2) { prod<int>(2, 2, 2, 3); }
BSX_ENTRY(prod3) { prod<F3>(2, 2, 2, 0); }
BSX_ENTRY(prod23) { prod<F2>(2, 3, 2, 0); }
BSX_ENTRY(sum2) { sums<int>(2, 2, 3); }
BSX_ENTRY(sum3) { sums<F3>(3, 1, 0); }
BSX_ENTRY(sum0) { sums<F3>(0, 2, 0); }
BSX_ENTRY(conv2) { conv<2>(3, 1, 2); }
BSX_ENTRY(conv3) { conv<3>(2, 2, 3); }
SKEL(ksel3, 12, 2, select<F3>(6, 5, 1)) SKEL(kseli, 12, 1, select<int>(5, 6, 3)) SKEL(kprod3, 8, 2, prod<F3>(5, 6, 4, 0)) SKEL(kprodi, 8, 1, prod<int>(4, 5, 5, 2)) SKEL(ksum3, 8, 2, sums<F3>(6, 4, 0)) SKEL(ksumi, 8, 1, sums<int>(6, 4, 2)) SKEL(kconv3, 8, 1, conv<3>(5, 5, 3))
#if BSX_TIER
BSX_ENTRY(tsel) { select<F2>(3, 3, 1); }
BSX_ENTRY(tprod) { prod<F2>(3, 3, 2, 0); }
BSX_ENTRY(tprodi) { prod<int>(2, 3, 2, 2); }
BSX_ENTRY(tsum) { sums<F3>(3, 2, 0); }
#endif
