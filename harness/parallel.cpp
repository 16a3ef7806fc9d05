// C08: divide-and-conquer / task-parallel reduction equals sequential reduction, without data races
#include "hom.hpp"
using namespace bats;
template <class M> void same(const M& R, const M& S, const std::unordered_map<size_t, size_t>& p2c, const vector<size_t>& nz, const p2c_type& q, const char* what) { REQUIRE_MSG(wfm(R) && R.ncol() == S.ncol() && R.nrow() == S.nrow(), what); DM r = dense(R); REQUIRE_MSG(dreduced(r), what); size_t c = 0; for (size_t i = 0; i < q.size(); i++) { auto it = p2c.find(i); if (q[i] == bats::NO_IND) REQUIRE_MSG(it == p2c.end(), what); else { c++; REQUIRE_MSG(it != p2c.end() && it->second == q[i], what); } } REQUIRE_MSG(p2c.size() == c, what);
  vector<size_t> e; for (size_t j = 0; j < S.ncol(); j++) { REQUIRE_MSG((R[j].nnz() > 0) == (S[j].nnz() > 0), what); if (S[j].nnz() > 0) { REQUIRE_MSG(R[j].lastnz().ind == S[j].lastnz().ind, what); e.push_back(j); } } REQUIRE_MSG(nz == e, what); obsm(r); }
template <int P> void dq(size_t m, size_t n, size_t bs) { typedef CM<P> M; bsx_threads(bsx::pick("threads", 1, 3)); DM b = symdense("b", m, n, P); M B = matof<M>(b); M S(B), SU(M::identity(n)); auto q = reduce_matrix(S, SU);
  { M R(B), U(M::identity(n)); auto t = reduce_block_dq(R, U, 0, n, bs); same(R, S, std::get<0>(t), std::get<1>(t), q, "divide and conquer with basis"); REQUIRE_MSG(deq(dmul(b, dense(U), P), dense(R)), "B U == R"); REQUIRE_MSG(dunitupper(dense(U)), "U unit upper triangular"); }
  for (size_t depth = 0; depth <= 2; depth++) { M R(B); std::unordered_map<size_t, size_t> p; vector<size_t> nz;
    #pragma omp parallel default(none) shared(p, nz, R, n, bs, depth)
    {
      #pragma omp single nowait
      { std::tie(p, nz) = reduce_block_dq(R, 0, n, bs, 0, depth); }
    }
    same(R, S, p, nz, q, "parallel divide and conquer"); }
  END(); }
template <int P> void api(size_t m, size_t n) { typedef CM<P> M; bsx_threads(bsx::pick("threads", 1, 3)); DM b = symdense("b", m, n, P); M B = matof<M>(b); M S(B), SU(M::identity(n)); auto q = reduce_matrix(S, SU); { M R(B), U(M::identity(n)); auto p = reduce_matrix(R, U, divide_conquer_flag()); REQUIRE(p == q && deq(dmul(b, dense(U), P), dense(R)) && dreduced(dense(R)) && dunitupper(dense(U))); } { M R(B); auto p = reduce_matrix(R, divide_conquer_flag()); REQUIRE(p == q && dreduced(dense(R))); } END(); }
template <int P> void partial(size_t m, size_t n, size_t bs) { typedef CM<P> M; bsx_threads(bsx::pick("threads", 1, 3)); DM b = symdense("b", m, n, P); M B = matof<M>(b); M R(B), U(M::identity(n)); partial_reduce_parallel(R, U, bs); REQUIRE(deq(dmul(b, dense(U), P), dense(R)) && dunitupper(dense(U)) && wfm(R)); M R2(B); partial_reduce_parallel(R2, bs); REQUIRE(R2 == R); auto p = reduce_matrix(R, U); REQUIRE(p == dpairing(b, P)); REQUIRE(deq(dmul(b, dense(U), P), dense(R)) && dreduced(dense(R))); END(); }
BSX_ENTRY(dq2) { dq<2>(3, 4, 2); } BSX_ENTRY(dq2b) { dq<2>(2, 5, 3); } BSX_ENTRY(dq3) { dq<3>(2, 3, 2); } BSX_ENTRY(dq5) { dq<5>(2, 2, 2); } BSX_ENTRY(part5) { partial<5>(1, 3, 1); } BSX_ENTRY(api5) { api<5>(2, 2); } BSX_ENTRY(api2) { api<2>(3, 3); } BSX_ENTRY(api3) { api<3>(2, 2); } BSX_ENTRY(part2) { partial<2>(2, 4, 2); } BSX_ENTRY(part2s) { partial<2>(2, 2, 3); } BSX_ENTRY(part2e) { partial<2>(2, 3, 2); } BSX_ENTRY(part3) { partial<3>(2, 3, 1); }
SKEL(kdq2, 6, 3, dq<2>(6, 11, 2)) SKEL(kdq3, 6, 2, dq<3>(5, 9, 3)) SKEL(kpart2, 6, 3, partial<2>(6, 11, 3)) SKEL(kpart3, 6, 2, partial<3>(5, 9, 2)) SKEL(kapi2, 4, 3, api<2>(6, 8))
#if BSX_TIER
BSX_ENTRY(dq2c) { dq<2>(3, 5, 2); } BSX_ENTRY(dq3b) { dq<3>(2, 4, 2); } BSX_ENTRY(part2f) { partial<2>(3, 5, 2); } BSX_ENTRY(part3b) { partial<3>(2, 4, 2); }
#endif
