// C06: every matrix reduction variant ends in a reduced matrix R = B U with U upper triangular and invertible, and p2c its pivots
#include "hom.hpp"
using namespace bats;
// full contract of a reduction result (U optional)
template <class M> void contract(const M& R, const M* U, const p2c_type& p2c, const DM& b, int P, bool unit, const char* what) { DM r = dense(R); REQUIRE_MSG(wfm(R) && r.m == b.m && r.n == b.n, what); REQUIRE_MSG(dreduced(r), what);
  if (U) { DM u = dense(*U); REQUIRE_MSG(wfm(*U), what); REQUIRE_MSG(deq(dmul(b, u, P), r), what); REQUIRE_MSG(unit ? dunitupper(u) : dupperinv(u), what); obsm(u); }
  vector<size_t> pr = dpairing(b, P); REQUIRE_MSG(p2c.size() == b.m, what); for (size_t i = 0; i < b.m; i++) REQUIRE_MSG(p2c[i] == pr[i], what);
  size_t nz = 0; for (size_t j = 0; j < r.n; j++) { int l = dlow(r, j); if (l >= 0) { nz++; REQUIRE_MSG(pr[l] == j, what); } } REQUIRE_MSG(nz == drank(b, P), what); 
  // R's columns stay in the flag of column spans: span(R[0..j]) == span(B[0..j])
  for (size_t j = 0; j < r.n; j++) { vector<size_t> js; for (size_t t = 0; t <= j; t++) js.push_back(t); DM bj = dcols(b, js); REQUIRE_MSG(drank(dhcat(bj, dcols(r, js)), P) == drank(bj, P), what); } }
template <class M> void extrareduced(const M& R, const p2c_type& p2c, const char* what) { DM r = dense(R); for (size_t j = 0; j < r.n; j++) for (size_t i = 0; i < r.m; i++) if (r(i, j) && p2c[i] != bats::NO_IND) REQUIRE_MSG(p2c[i] >= j, what); }
template <int P> void plain(size_t m, size_t n) { typedef CM<P> M; DM b = symdense("b", m, n, P); M B = matof<M>(b); M I = M::identity(n);
  { M R(B), U(I); auto p = reduce_matrix(R, U); contract(R, &U, p, b, P, true, "default reduction with basis"); M R2(B); auto p2 = reduce_matrix(R2); contract(R2, (M*)nullptr, p2, b, P, true, "default reduction"); REQUIRE(R2 == R); M R3(B); reduce_matrix(R3, standard_reduction_flag()); REQUIRE(R3 == R); M R4(B), U4(I); reduce_matrix(R4, U4, standard_reduction_flag()); REQUIRE(R4 == R && U4 == U); }
  { M R(B), U(I); auto p = reduce_matrix(R, U, extra_reduction_flag()); contract(R, &U, p, b, P, true, "extra reduction with basis"); extrareduced(R, p, "extra reduction leaves entries above earlier pivots"); M R2(B); auto p2 = reduce_matrix(R2, extra_reduction_flag()); contract(R2, (M*)nullptr, p2, b, P, true, "extra reduction"); REQUIRE_MSG(R2 == R, "extra reduction with and without basis"); }
  { M R(B); std::map<ModP<int, P>, size_t> coeff; typename SparseVector<ModP<int, P>, size_t>::tmp_type tmp; p2c_type p(m, bats::NO_IND); for (size_t j = 0; j < n; j++) reduce_column_sparsify(R, j, p, coeff, tmp); contract(R, (M*)nullptr, p, b, P, true, "sparsifying reduction"); }
  END(); }
template <int P> void post(size_t m, size_t n) { typedef CM<P> M; DM b = symdense("b", m, n, P); M B = matof<M>(b); M R(B), U(M::identity(n)); auto p = reduce_matrix(R, U);
  { M R1(R), U1(U); sparsify_basis(R1, U1); contract(R1, &U1, p, b, P, true, "sparsify_basis"); }
  { M U1(U); remove_extra_cycles(R, U1); contract(R, &U1, p, b, P, true, "remove_extra_cycles"); DM u = dense(U1), r = dense(R); for (size_t j = 0; j < n; j++) for (size_t k = 0; k < j; k++) if (dlow(r, k) < 0) REQUIRE_MSG(u(k, j) == 0, "remove_extra_cycles leaves an earlier cycle"); } END(); }
// clearing and compression on an arbitrary pair of composable boundary maps
template <int P> void cc(size_t a, size_t b, size_t c) { typedef CM<P> M; vector<DM> B = symcomplex({a, b, c}, P); M B1 = matof<M>(B[1]), B2 = matof<M>(B[2]); int ex = bsx::pick("alg", 0, 1);
  auto go = [&](auto alg) { typedef decltype(alg) A;
    M R2(B2), U2(M::identity(c)); auto p2 = reduce_matrix(R2, U2, A()); contract(R2, &U2, p2, B[2], P, true, "upper dimension");
    { M R1(B1); auto q = reduce_matrix_clearing(R1, get_clearing_inds(p2), A()); contract(R1, (M*)nullptr, q, B[1], P, true, "clearing"); }
    { M R1(B1), U1(M::identity(b)); auto q = reduce_matrix_clearing(R1, U1, R2, p2, A()); contract(R1, &U1, q, B[1], P, false, "clearing with basis"); M V(U1); remove_extra_cycles(R1, V); contract(R1, &V, q, B[1], P, false, "remove_extra_cycles after clearing"); DM u = dense(V), r = dense(R1); for (size_t j = 0; j < b; j++) for (size_t k = 0; k < j; k++) if (dlow(r, k) < 0) REQUIRE_MSG(u(k, j) == 0, "remove_extra_cycles leaves an earlier cycle"); M S(R1), W(U1); sparsify_basis(S, W); contract(S, &W, q, B[1], P, false, "sparsify_basis after clearing"); }
    M R1(B1); auto q1 = reduce_matrix(R1, A()); { M R(B2); auto q = reduce_matrix_compression(R, get_compression_inds(R1), A()); vector<size_t> pr = dpairing(B[2], P); REQUIRE(q == pr); REQUIRE(dreduced(dense(R)) && wfm(R)); REQUIRE(dpairing(dense(R), P) == pr); for (size_t j = 0; j < c; j++) REQUIRE(dlow(dense(R), j) == dlow(dense(R2), j)); }
  }; if (ex) go(extra_reduction_flag()); else go(standard_reduction_flag()); END(); }
BSX_ENTRY(plain2) { plain<2>(3, 4); } BSX_ENTRY(plain2t) { plain<2>(4, 3); } BSX_ENTRY(plain3) { plain<3>(2, 3); } BSX_ENTRY(plain3t) { plain<3>(3, 2); } BSX_ENTRY(plain5) { plain<5>(2, 2); } BSX_ENTRY(post2) { post<2>(3, 4); } BSX_ENTRY(post2w) { post<2>(2, 5); } BSX_ENTRY(post3) { post<3>(2, 3); } BSX_ENTRY(cc2) { cc<2>(3, 3, 2); } BSX_ENTRY(cc2b) { cc<2>(2, 3, 3); } BSX_ENTRY(cc3) { cc<3>(2, 2, 2); }
SKEL(kplain2, 8, 4, plain<2>(6, 8)) SKEL(kplain3, 8, 3, plain<3>(5, 6)) SKEL(kplain5, 4, 2, plain<5>(4, 5)) SKEL(kpost2, 8, 4, post<2>(6, 8)) SKEL(kpost3, 8, 3, post<3>(5, 6)) SKEL(kcc2, 8, 2, cc<2>(5, 7, 6)) SKEL(kcc3, 6, 2, cc<3>(4, 6, 5))
#if BSX_TIER
BSX_ENTRY(plain2b) { plain<2>(4, 4); } BSX_ENTRY(plain2c) { plain<2>(3, 5); } BSX_ENTRY(plain3b) { plain<3>(3, 3); } BSX_ENTRY(plain5b) { plain<5>(2, 3); } BSX_ENTRY(post2b) { post<2>(4, 4); } BSX_ENTRY(post3b) { post<3>(2, 4); } BSX_ENTRY(post3c) { post<3>(3, 3); } BSX_ENTRY(cc2c) { cc<2>(3, 3, 3); } BSX_ENTRY(cc2d) { cc<2>(2, 4, 2); } BSX_ENTRY(cc3b) { cc<3>(2, 3, 2); }
#endif
