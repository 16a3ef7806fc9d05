// C07: every algorithm / optimization flag gives the true Betti numbers, generators and (where kept) a valid basis
#include "hom.hpp"
using namespace bats;
template <class M> void indices(const ReducedChainComplex<M>& R, const vector<DM>& B, int P, const char* what) { REQUIRE_MSG(R.maxdim() + 1 == B.size(), what);
  for (size_t k = 0; k < B.size(); k++) { REQUIRE_MSG(R.betti(k) == dbetti(B, k, P) && R.hdim(k) == R.betti(k), what); REQUIRE_MSG(R.dim(k) == B[k].n, what); DM r = dense(R.R[k]); REQUIRE_MSG(wfm(R.R[k]) && dreduced(r) && r.m == B[k].m, what);
    vector<size_t> pr = dpairing(B[k], P); REQUIRE_MSG(R.p2c[k] == pr, what); vector<size_t> expect; vector<size_t> up; if (k + 1 < B.size()) up = dpairing(B[k + 1], P); for (size_t j = 0; j < B[k].n; j++) { bool neg = false; for (size_t i = 0; i < B[k].m; i++) if (pr[i] == j) neg = true; if (!neg && (up.empty() || up[j] == bats::NO_IND)) expect.push_back(j); } REQUIRE_MSG(R.I[k] == expect, what); for (size_t x : expect) bsx::obs(x); } }
template <class M> void basis(const ReducedChainComplex<M>& R, const vector<DM>& B, int P, bool unit, const char* what) { for (size_t k = 0; k < B.size(); k++) { DM u = dense(R.U[k]); REQUIRE_MSG(wfm(R.U[k]), what); REQUIRE_MSG(unit ? dunitupper(u) : dupperinv(u), what); REQUIRE_MSG(deq(dmul(B[k], u, P), dense(R.R[k])), what);
    // generators: cycles, independent modulo boundaries
    DM g = B[k + 1 < B.size() ? k + 1 : k]; DM bd = k + 1 < B.size() ? B[k + 1] : DM(B[k].n, 0); DM gens(B[k].n, 0); for (size_t j = 0; j < R.I[k].size(); j++) { auto c = R.get_preferred_representative(j, k); DV v = dvec(c, B[k].n); DM col(B[k].n, 1); for (size_t i = 0; i < v.size(); i++) col(i, 0) = v[i]; REQUIRE_MSG(dzero(dmul(B[k], col, P)), what); gens = dhcat(gens, col); } REQUIRE_MSG(drank(dhcat(bd, gens), P) == drank(bd, P) + gens.n, what); } }
template <int P> void hflags(const vector<size_t>& n, int lo, int hi) { typedef CM<P> M; vector<DM> B = symcomplex(n, P); ChainComplex<M> C = complexof<M>(B); REQUIRE(C.is_valid_complex()); int w = lo == hi ? lo : bsx::pick("flag", lo, hi);
  if (w == 0) { ReducedChainComplex<M> R(C); indices(R, B, P, "default"); basis(R, B, P, true, "default basis"); }
  if (w == 1) { auto R = ReducedChainComplex<M>(C, standard_reduction_flag()); indices(R, B, P, "standard"); auto R2 = ReducedChainComplex<M>(C, extra_reduction_flag()); indices(R2, B, P, "extra"); }
  if (w == 2) { auto R = ReducedChainComplex<M>(C, standard_reduction_flag(), compute_basis_flag()); indices(R, B, P, "standard with basis"); basis(R, B, P, true, "standard basis"); auto R2 = ReducedChainComplex<M>(C, extra_reduction_flag(), compute_basis_flag()); indices(R2, B, P, "extra with basis"); basis(R2, B, P, true, "extra basis"); }
  if (w == 3) { auto R = ReducedChainComplex<M>(C, standard_reduction_flag(), clearing_flag()); indices(R, B, P, "clearing"); auto R2 = ReducedChainComplex<M>(C, extra_reduction_flag(), clearing_flag()); indices(R2, B, P, "extra clearing"); }
  if (w == 4) { auto R = ReducedChainComplex<M>(C, standard_reduction_flag(), clearing_flag(), compute_basis_flag()); indices(R, B, P, "clearing with basis"); basis(R, B, P, false, "clearing basis"); auto R2 = ReducedChainComplex<M>(C, extra_reduction_flag(), clearing_flag(), compute_basis_flag()); indices(R2, B, P, "extra clearing with basis"); basis(R2, B, P, false, "extra clearing basis"); }
  if (w == 5) { auto R = ReducedChainComplex<M>(C, standard_reduction_flag(), compression_flag()); indices(R, B, P, "compression"); auto R2 = ReducedChainComplex<M>(C, extra_reduction_flag(), compression_flag()); indices(R2, B, P, "extra compression"); }
  if (w == 6) { auto R = ReducedChainComplex<M>(C, standard_reduction_flag(), compression_flag(), compute_basis_flag()); indices(R, B, P, "compression with basis"); basis(R, B, P, true, "compression basis"); auto R2 = ReducedChainComplex<M>(C, extra_reduction_flag(), compression_flag(), compute_basis_flag()); indices(R2, B, P, "extra compression with basis"); basis(R2, B, P, true, "extra compression basis"); }
  if (w == 7) { ReducedChainComplex<M> R(C); R.sparsify_basis(); indices(R, B, P, "sparsified"); basis(R, B, P, true, "sparsified basis"); ReducedChainComplex<M> R2(C); R2.remove_extra_cycles(); indices(R2, B, P, "extra cycles removed"); basis(R2, B, P, true, "extra cycles removed basis"); }
  if (w == 8) { ChainComplex<M> C2(C); C2.clear_compress_apparent_pairs(); auto R = ReducedChainComplex<M>(C2, standard_reduction_flag()); indices(R, B, P, "apparent pairs preprocessing"); auto R2 = ReducedChainComplex<M>(C2, standard_reduction_flag(), clearing_flag()); indices(R2, B, P, "apparent pairs then clearing"); }
  END(); }
#define FL(w) BSX_ENTRY(f2_##w) { hflags<2>({3, 3, 2}, w, w); } BSX_ENTRY(f2b_##w) { hflags<2>({2, 3, 3}, w, w); } BSX_ENTRY(f3_##w) { hflags<3>({2, 2, 2}, w, w); }
FL(0) FL(1) FL(2) FL(3) FL(4) FL(5) FL(6) FL(7) FL(8)
BSX_ENTRY(f2four) { hflags<2>({2, 2, 2, 2}, 0, 8); }
BSX_ENTRY(f2one) { hflags<2>({3}, 0, 8); }
BSX_ENTRY(f5) { hflags<5>({1, 2, 2}, 0, 8); }
BSX_ENTRY(f5b) { hflags<5>({2, 2}, 0, 8); }
#define FS(w) SKEL(k2_##w, 6, 3, hflags<2>({5, 8, 5}, w, w)) SKEL(k3_##w, 6, 2, hflags<3>({4, 6, 5, 3}, w, w))
FS(0) FS(1) FS(2) FS(3) FS(4) FS(5) FS(6) FS(7) FS(8)
#if BSX_TIER
#define FLT(w) BSX_ENTRY(t2_##w) { hflags<2>({3, 4, 2}, w, w); } BSX_ENTRY(t2b_##w) { hflags<2>({3, 3, 3}, w, w); } BSX_ENTRY(t3_##w) { hflags<3>({2, 3, 2}, w, w); }
FLT(0) FLT(1) FLT(2) FLT(3) FLT(4) FLT(5) FLT(6) FLT(7) FLT(8)
BSX_ENTRY(t2four) { hflags<2>({2, 3, 3, 2}, 0, 8); }
#endif
