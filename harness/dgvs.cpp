// C10: differential graded vector spaces (homology and cohomology type, augmented or not): reduction, persistence, updates
#include "filt.hpp"
using namespace bats;
// complex with the given cell counts; augmented: boundary of edges has augmentation zero. B[0] is the augmentation (ones) or zero row
inline vector<DM> augcomplex(const vector<size_t>& n, bool aug, int p, const char* nm = "b") { if (!aug) return symcomplex(n, p, nm); sk().conc = true; vector<DM> B; for (size_t k = 0; k < n.size(); k++) { if (k == 0) { DM o(1, n[0]); for (auto& x : o.a) x = 1; B.push_back(o); } else { DM K = dker(B[k - 1], p); B.push_back(dmul(K, symdense(nm, K.n, n[k], p), p)); } } return B; }
inline DM zrows(const DM& A, bool aug) { if (aug) return A; return DM(0, A.n); }
// expected differentials in storage order, cells listed by perm (original indices)
inline vector<DM> expected(const vector<DM>& B, int deg, bool aug, const vector<vector<size_t>>& perm) {
  vector<DM> D; size_t N = B.size(); for (size_t k = 0; k <= N; k++) { DM b; if (k == N) b = DM(B[N - 1].n, 0); else if (k == 0) b = zrows(B[0], aug); else { b = DM(B[k].m, B[k].n); for (size_t i = 0; i < b.m; i++) for (size_t j = 0; j < b.n; j++) b(i, j) = B[k](perm[k - 1][i], perm[k][j]); } D.push_back(deg == -1 ? b : dT(b)); } return D;
}
inline vector<vector<size_t>> idperms(const vector<DM>& B) { vector<vector<size_t>> r; for (auto& b : B) { vector<size_t> p; for (size_t i = 0; i < b.n; i++) p.push_back(i); r.push_back(p); } return r; }
// Betti numbers (reduced when augmented): of the cells only
inline size_t hd(const vector<DM>& B, size_t k, int p) { return dbetti(B, k, p); }
template <class M> void spaceis(const DGVectorSpace<M>& C, const vector<DM>& D, const char* what) { REQUIRE_MSG(C.differential.size() == D.size() && C.maxdim() == (ssize_t)D.size() - 2, what); for (size_t k = 0; k < D.size(); k++) REQUIRE_MSG(wfm(C.differential[k]) && deq(dense(C.differential[k]), D[k]), what); }
// factorisation, reducedness, pivots, homology dimensions
template <class M> void reduced(const ReducedDGVectorSpace<M>& R, const vector<DM>& D, const vector<DM>& B, int P, bool basis, bool exact, const char* what) {
  REQUIRE_MSG(R.R.size() == D.size(), what); if (basis) REQUIRE_MSG(R.U.size() == D.size(), what);
  for (size_t k = 0; k < D.size(); k++) { DM r = dense(R.R[k]); REQUIRE_MSG(wfm(R.R[k]) && r.m == D[k].m && r.n == D[k].n && dreduced(r), what); if (basis) { DM u = dense(R.U[k]); REQUIRE_MSG(wfm(R.U[k]) && dupperinv(u) && u.n == r.n, what); REQUIRE_MSG(deq(dmul(D[k], u, P), r), what); }
    if (exact && r.m) { REQUIRE_MSG(R.p2c[k].size() >= r.m, what); for (size_t i = 0; i < r.m; i++) { size_t e = bats::NO_IND; for (size_t j = 0; j < r.n; j++) if (dlow(r, j) == (int)i) e = j; REQUIRE_MSG(R.p2c[k][i] == e, what); } } }
  REQUIRE(R.maxdim() + 1 == B.size()); for (size_t k = 0; k < B.size(); k++) { REQUIRE_MSG(R.dim(k) == B[k].n, what); REQUIRE_MSG(R.hdim(k) == hd(B, k, P) && R.betti(k) == R.hdim(k), what); }
}
template <class M> void hbasis(const ReducedDGVectorSpace<M>& R, const vector<DM>& D, const vector<DM>& B, int deg, int P, const char* what) {
  for (size_t k = 0; k < B.size(); k++) { size_t h = R.hdim(k); const DM& out = deg == -1 ? D[k] : D[k + 1]; const DM& in = deg == -1 ? D[k + 1] : D[k]; DM acc = in; size_t r0 = drank(in, P);
    for (size_t j = 0; j < h; j++) { auto c = R.get_preferred_representative(j, k); REQUIRE_MSG(wf(c, B[k].n), what); DV d = dvec(c, B[k].n); DM col(B[k].n, 1); for (size_t i = 0; i < d.size(); i++) col(i, 0) = d[i]; REQUIRE_MSG(dzero(dmul(out, col, P)), "representative is a cycle"); acc = dhcat(acc, col); }
    REQUIRE_MSG(drank(acc, P) == r0 + h, "representatives span"); }
}
// the preferred representative is homologous to the chain, and the same for homologous chains
template <class M> void pref(const ReducedDGVectorSpace<M>& R, const vector<DM>& D, size_t k, size_t n, int deg, int P, const char* what) {
  typedef typename M::col_type V; const DM& in = deg == -1 ? D[k + 1] : D[k]; DM c = symdense("c", n, 1, P), y = symdense("y", in.n, 1, P), e = dadd(c, dmul(in, y, P), 1, P); DV cv(n), ev(n); for (size_t i = 0; i < n; i++) { cv[i] = c(i, 0); ev[i] = e(i, 0); }
  auto r = R.chain_preferred_representative(vecof<V>(cv), k), s = R.chain_preferred_representative(vecof<V>(ev), k); REQUIRE_MSG(wf(r, n) && wf(s, n), what); DV rv = dvec(r, n), sv = dvec(s, n); DM d(n, 1); for (size_t i = 0; i < n; i++) { d(i, 0) = md(rv[i] - cv[i], P); REQUIRE_MSG(rv[i] == sv[i], "homologous chains have the same preferred representative"); } REQUIRE_MSG(drank(dhcat(in, d), P) == drank(in, P), "preferred representative is homologous to the chain");
  auto hb = R.to_hom_basis(vecof<V>(cv), k); auto back = R.from_hom_basis(hb, k); REQUIRE_MSG(wf(back, n), what); DV bv = dvec(back, n); for (size_t i = 0; i < n; i++) REQUIRE_MSG(bv[i] == cv[i], "change of basis and back"); for (size_t i = 0; i < n; i++) bsx::obs(rv[i]);
}
template <int P> void plain(const vector<size_t>& n, int deg, bool aug, int lo, int hi, int pk) {
  typedef CM<P> M; AnyCpx X{augcomplex(n, aug, P)}; auto D = expected(X.B, deg, aug, idperms(X.B)); DGVectorSpace<M> C(X, deg, aug); spaceis(C, D, "differential"); for (size_t k = 0; k < n.size(); k++) { REQUIRE(C.dim((ssize_t)k) == n[k]); REQUIRE(C.is_differential(deg == -1 ? k + 1 : k)); } typedef ReducedDGVectorSpace<M> R; int w = bsx::pick("alg", lo, hi);
  if (w == 0) { R r(C); reduced(r, D, X.B, P, true, true, "default"); hbasis(r, D, X.B, deg, P, "default"); if (pk >= 0) pref(r, D, (size_t)pk, n[pk], deg, P, "default"); }
  if (w == 1) { reduced(R(C, standard_reduction_flag()), D, X.B, P, false, true, "standard"); reduced(R(C, extra_reduction_flag()), D, X.B, P, false, true, "extra"); }
  if (w == 2) { R r(C, extra_reduction_flag(), compute_basis_flag()); reduced(r, D, X.B, P, true, true, "extra with basis"); hbasis(r, D, X.B, deg, P, "extra with basis"); if (pk >= 0) pref(r, D, (size_t)pk, n[pk], deg, P, "extra"); }
  if (w == 3) { R r(C, standard_reduction_flag(), clearing_flag()); reduced(r, D, X.B, P, false, true, "clearing"); }
  if (w == 4) { R r(C, standard_reduction_flag(), clearing_flag(), compute_basis_flag()); reduced(r, D, X.B, P, true, true, "clearing with basis"); hbasis(r, D, X.B, deg, P, "clearing with basis"); if (pk >= 0) pref(r, D, (size_t)pk, n[pk], deg, P, "clearing"); }
  if (w == 5) { R r(C, standard_reduction_flag(), compression_flag()); reduced(r, D, X.B, P, false, true, "compression"); }
  if (w == 6) { auto p = vector<vector<size_t>>(); for (size_t k = 0; k < n.size(); k++) p.push_back(symperm("p", n[k])); DGVectorSpace<M> E(C); E.ipermute_basis(p); spaceis(E, expected(X.B, deg, aug, p), "ipermuted space"); E.permute_basis(p); spaceis(E, D, "permuted back"); R r(C); r.permute_basis(p); DGVectorSpace<M> G(C); G.ipermute_basis(p); reduced(r, expected(X.B, deg, aug, p), X.B, P, true, true, "permuted reduction"); R z; z.initialize(C); REQUIRE(z.degree == deg && z.R.size() == D.size()); for (size_t k = 0; k < D.size(); k++) REQUIRE_MSG(deq(dense(z.R[k]), D[k]) && deq(dense(z.U[k]), deye(D[k].n)), "initialised"); }
  END();
}
// persistence: pairs against persistent Betti numbers; every cell is born, kills, or (augmented) pairs with the empty cell
template <class T, class M> void barcode(const ReducedFilteredDGVectorSpace<T, M>& R, const vector<DM>& B, const IV& v, int V, bool aug, int p, const char* what) {
  vector<vector<int>> used; for (auto& b : B) used.push_back(vector<int>(b.n, 0)); vector<vector<PersistencePair<T>>> ps; REQUIRE_MSG(R.maxdim() + 1 == B.size(), what); for (size_t k = 0; k < B.size(); k++) ps.push_back(R.persistence_pairs(k));
  for (size_t k = 0; k < B.size(); k++) { for (auto& x : ps[k]) { REQUIRE_MSG(x.dim == k && x.birth_ind < B[k].n, what); REQUIRE_MSG(x.birth == (T)v[k][x.birth_ind], what); used[k][x.birth_ind]++; if (x.death_ind == bats::NO_IND) REQUIRE_MSG(x.death > (T)V, what); else { REQUIRE_MSG(k + 1 < B.size() && x.death_ind < B[k + 1].n && x.death == (T)v[k + 1][x.death_ind] && x.birth <= x.death, what); used[k + 1][x.death_ind]++; } }
    for (int s = 0; s <= V; s++) for (int t = s; t <= V; t++) { size_t c = 0; for (auto& x : ps[k]) if (x.birth <= (T)s && x.death > (T)t) c++; REQUIRE_MSG(c == pbetti(B, v, k, s, t, p), what); }
    auto vec = R.persistence_pairs_vec(k); REQUIRE(std::get<0>(vec).size() == 2 * ps[k].size()); for (size_t i = 0; i < ps[k].size(); i++) REQUIRE(std::get<0>(vec)[2 * i] == ps[k][i].birth && std::get<0>(vec)[2 * i + 1] == ps[k][i].death && std::get<1>(vec)[2 * i] == ps[k][i].birth_ind && std::get<1>(vec)[2 * i + 1] == ps[k][i].death_ind); }
  size_t un = 0; for (size_t k = 0; k < used.size(); k++) for (int x : used[k]) { if (k == 0 && x == 0) un++; else REQUIRE_MSG(x == 1, what); } REQUIRE_MSG(un == (aug && B[0].n ? 1u : 0u), what);
}
inline void ordered(const vector<vector<size_t>>& perm, const IV& v, int deg) { REQUIRE(perm.size() == v.size()); for (size_t k = 0; k < v.size(); k++) { REQUIRE(perm[k].size() == v[k].size()); for (size_t i = 0; i + 1 < perm[k].size(); i++) REQUIRE(deg == -1 ? v[k][perm[k][i]] <= v[k][perm[k][i + 1]] : v[k][perm[k][i]] >= v[k][perm[k][i + 1]]); } }
template <int P> void persist(const vector<size_t>& n, int V, int deg, bool aug, int lo, int hi) {
  typedef CM<P> M; AnyCpx X{augcomplex(n, aug, P)}; IV v = symvals(X.B, V); if (aug) {} Filtration<double, AnyCpx> F(X, todouble(v)); FilteredDGVectorSpace<double, M> C(F, deg, aug); ordered(C.perm, v, deg); spaceis(C.complex(), expected(X.B, deg, aug, C.perm), "filtered space"); typedef ReducedFilteredDGVectorSpace<double, M> R; int w = bsx::pick("alg", lo, hi);
  auto go = [&](const R& r, bool basis, const char* what) { barcode(r, X.B, v, V, aug, P, what); reduced(r.RC, expected(X.B, deg, aug, r.perm), X.B, P, basis, true, what); };
  if (w == 0) go(R(C), true, "default"); if (w == 1) go(R(C, extra_reduction_flag(), compute_basis_flag()), true, "extra"); if (w == 2) go(R(C, standard_reduction_flag(), clearing_flag()), false, "clearing"); if (w == 3) go(R(C, standard_reduction_flag(), clearing_flag(), compute_basis_flag()), true, "clearing with basis"); if (w == 4) go(R(C, standard_reduction_flag(), compression_flag()), false, "compression");
  { R r(C); for (auto& x : r.persistence_pairs(0)) bsx::obs(x.birth_ind); } END();
}
template <int P> void revalue(const vector<size_t>& n, int V, int deg, bool aug, bool clear) {
  typedef CM<P> M; AnyCpx X{augcomplex(n, aug, P)}; IV v = symvals(X.B, V, "t"), u = symvals(X.B, V, "u"); Filtration<double, AnyCpx> F(X, todouble(v)); FilteredDGVectorSpace<double, M> C(F, deg, aug); typedef ReducedFilteredDGVectorSpace<double, M> R; R r = clear ? R(C, standard_reduction_flag(), clearing_flag(), compute_basis_flag()) : R(C);
  r.update_filtration(todouble(u)); ordered(r.perm, u, deg); reduced(r.RC, expected(X.B, deg, aug, r.perm), X.B, P, true, true, "updated"); barcode(r, X.B, u, V, aug, P, "barcode after update");
  C.update_filtration(todouble(u)); ordered(C.perm, u, deg); spaceis(C.complex(), expected(X.B, deg, aug, C.perm), "updated filtered space"); for (auto& x : r.persistence_pairs(0)) bsx::obs(x.birth_ind);
  if (!clear) { r.update_filtration(todouble(v)); reduced(r.RC, expected(X.B, deg, aug, r.perm), X.B, P, true, true, "second update"); barcode(r, X.B, v, V, aug, P, "barcode after second update"); } END();
}
// updates between two filtrations of different complexes. how: 0 UpdateInfo2 (any field), 1 general (F2), 2 general with clearing (F2)
template <int P> void between(size_t nv, const vector<vector<size_t>>& cand, int V, int deg, bool aug, int how, bool symv = false, int clear = 0) {
  typedef CM<P> M; SimplicialComplex X = symsimp(nv, cand, "x", 2, symv), Y = symsimp(nv, cand, "y", 2, symv); vector<DM> B = bdense(X, P), D = bdense(Y, P); ASSUME(B.size() == D.size() && B[0].n > 0 && D[0].n > 0); if (aug) for (auto* b : {&B, &D}) for (auto& x : (*b)[0].a) x = 1; IV v = symvals(B, V, "t"), u = symvals(D, V, "u"); typedef Filtration<double, SimplicialComplex> FT; FT F(X, todouble(v)), G(Y, todouble(u)); typedef ReducedFilteredDGVectorSpace<double, M> R; FilteredDGVectorSpace<double, M> C(F, deg, aug); R r = clear ? R(C, standard_reduction_flag(), clearing_flag(), compute_basis_flag()) : R(C);
  FilteredDGVectorSpace<double, M> E(G, deg, aug); 
  if (how == 0) { UpdateInfo2 I(F, G); r.update_basis(I); } else { Update_info<FT> I(F, G); if (how == 1) r.update_filtration_general(I, standard_reduction_flag()); else r.update_filtration_general_clearing(I, standard_reduction_flag()); }
  ordered(r.perm, u, deg); vector<DM> Ex; for (size_t k = 0; k < E.complex().differential.size(); k++) Ex.push_back(dense(E.complex().differential[k])); REQUIRE(r.perm == E.perm); reduced(r.RC, Ex, D, P, true, true, "updated to another complex"); barcode(r, D, u, V, aug, P, "barcode after update to another complex"); for (auto& x : r.persistence_pairs(0)) bsx::obs(x.birth_ind); END();
}
#define PL(nm, P, n, aug) BSX_ENTRY(nm##h) { plain<P>(n, -1, aug, 0, 6, -1); } BSX_ENTRY(nm##c) { plain<P>(n, 1, aug, 0, 6, -1); }
#define L(...) vector<size_t>{__VA_ARGS__}
PL(pa, 2, L(2, 2, 2), false)
PL(pb, 2, L(3, 2, 1), true)
PL(pc, 3, L(2, 2, 1), false)
PL(pd, 3, L(2, 2), true)
PL(pe, 2, L(3), true)
#define PR(nm, P, n, aug, k) BSX_ENTRY(nm##h) { plain<P>(n, -1, aug, 0, 0, k); } BSX_ENTRY(nm##c) { plain<P>(n, 1, aug, 0, 0, k); } BSX_ENTRY(nm##x) { plain<P>(n, 1, aug, 4, 4, k); }
PR(ra, 2, L(2, 2, 2), false, 1)
PR(rb, 3, L(2, 2), false, 0)
PR(rc, 2, L(2, 3), true, 1)
PR(rd, 2, L(3, 1), true, 0)
#define PS(nm, P, n, V, aug) BSX_ENTRY(nm##h) { persist<P>(n, V, -1, aug, 0, 4); } BSX_ENTRY(nm##c) { persist<P>(n, V, 1, aug, 0, 4); }
PS(sa, 2, L(2, 2, 1), 1, false)
PS(sb, 3, L(2, 2), 1, true)
PS(sc, 2, L(1, 2, 2), 1, false)
#define RV(nm, P, n, V, aug) BSX_ENTRY(nm##h) { revalue<P>(n, V, -1, aug, false); } BSX_ENTRY(nm##c) { revalue<P>(n, V, 1, aug, false); } BSX_ENTRY(nm##x) { revalue<P>(n, V, 1, aug, true); }
RV(ua, 2, L(2, 2, 1), 1, false)
RV(ub, 3, L(2, 2), 1, true)
RV(uc, 2, L(3), 2, false)
RV(ud, 2, L(3, 1), 1, true)
PL(pf, 5, L(2, 2), false)
PL(pg, 5, L(1, 2, 1), false)
PR(re, 5, L(1, 2, 1), false, 1)
PS(sd, 5, L(1, 2), 1, false)
RV(ue, 5, L(1, 2), 1, false)
#define E4 {{0, 1}, {0, 2}, {1, 2}, {0, 1, 2}}
#define E2 {{0, 1}, {1, 2}}
BSX_ENTRY(n0h) { between<3>(3, E4, 1, -1, false, 0); }
BSX_ENTRY(n0c) { between<3>(3, E4, 1, 1, false, 0); }
BSX_ENTRY(n0vh) { between<3>(3, E2, 1, -1, false, 0, true, 1); }
BSX_ENTRY(n0vc) { between<3>(3, E2, 1, 1, false, 0, true, 1); }
BSX_ENTRY(n0ah) { between<3>(3, E2, 1, -1, true, 0, true); }
BSX_ENTRY(n0ac) { between<3>(3, E2, 1, 1, true, 0, true); }
BSX_ENTRY(n1h) { between<2>(3, E4, 1, -1, false, 1); }
BSX_ENTRY(n1c) { between<2>(3, E4, 1, 1, false, 1); }
BSX_ENTRY(n1vh) { between<2>(3, E2, 1, -1, false, 1, true); }
BSX_ENTRY(n1vc) { between<2>(3, E2, 1, 1, false, 1, true); }
BSX_ENTRY(n1ah) { between<2>(3, E2, 1, -1, true, 1, true); }
BSX_ENTRY(n1ac) { between<2>(3, E2, 1, 1, true, 1, true); }
BSX_ENTRY(n2ah) { between<2>(3, E2, 1, -1, true, 2, true); }
BSX_ENTRY(n2ac) { between<2>(3, E2, 1, 1, true, 2, true); }
BSX_ENTRY(n2h) { between<2>(3, E4, 1, -1, false, 2); }
BSX_ENTRY(n2c) { between<2>(3, E4, 1, 1, false, 2); }
BSX_ENTRY(n2vh) { between<2>(3, E2, 1, -1, false, 2, true); }
BSX_ENTRY(n2vc) { between<2>(3, E2, 1, 1, false, 2, true); }
#define KS(nm, P, n, m, aug, deg) SKEL(kp##nm, 4, 1, plain<P>(n, deg, aug, 0, 6, 1)) SKEL(kf##nm, 4, 1, persist<P>(n, 2, deg, aug, 0, 4)) SKEL(ku##nm, 4, 1, revalue<P>(m, 2, deg, aug, false)) SKEL(kv##nm, 4, 1, revalue<P>(m, 2, deg, aug, true))
#define NS(nm, P, ...) KS(nm##h, P, __VA_ARGS__, false, -1) KS(nm##c, P, __VA_ARGS__, false, 1) KS(nm##ah, P, __VA_ARGS__, true, -1) KS(nm##ac, P, __VA_ARGS__, true, 1)
static const vector<size_t> N463{4, 6, 3};
static const vector<size_t> N453{4, 5, 3};
static const vector<size_t> N353{3, 5, 3};
static const vector<size_t> N342{3, 4, 2};
NS(2, 2, N463, N453) NS(3, 3, N353, N342)
#if BSX_TIER
RV(ta, 2, L(2, 3), 1, false)
RV(tb, 3, L(2, 2, 1), 1, false)
RV(tc, 2, L(2, 2, 1), 1, true)
PL(td, 2, L(3, 3, 1), true)
PL(te, 3, L(2, 3, 1), false)
PS(tf, 2, L(2, 3, 1), 1, true)
PS(tg, 3, L(2, 2, 1), 1, false)
PR(th, 2, L(2, 3, 2), false, 1)
PR(ti, 3, L(2, 2, 1), true, 1)
BSX_ENTRY(tn0h) { between<3>(3, E4, 1, -1, true, 0, true); }
BSX_ENTRY(tn0c) { between<3>(3, E4, 1, 1, true, 0, true, 1); }
BSX_ENTRY(tn1h) { between<2>(3, E4, 1, -1, true, 1, true); }
BSX_ENTRY(tn1c) { between<2>(3, E4, 1, 1, true, 1, true); }
BSX_ENTRY(tn2h) { between<2>(3, E4, 1, -1, true, 2, true); }
BSX_ENTRY(tn2c) { between<2>(3, E4, 1, 1, true, 2, true); }
#endif
