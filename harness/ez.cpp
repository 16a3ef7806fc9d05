// C28: Eilenberg-Zilber maps from tensor products of chain complexes to triangulated products, Kronecker products of chains and classes, relative versions
#include "simp.hpp"
#include <topology/eilenberg_zilber.hpp>
using namespace bats;
typedef LightSimplicialComplex<size_t> LC;
template <class M> vector<DM> bnd(const ChainComplex<M>& C) { vector<DM> B; for (size_t k = 0; k <= C.maxdim(); k++) { REQUIRE_MSG(wfm(C[k]), "well formed boundary"); B.push_back(dense(C[k])); if (k) REQUIRE_MSG(B[k].m == B[k - 1].n, "boundary shapes"); } return B; }
// position of x (x) y in the tensor product
inline size_t off(const vector<size_t>& a, const vector<size_t>& b, size_t p, size_t q) { size_t s = 0; for (size_t k = 0; k < p; k++) { size_t l = p + q - k; if (k < a.size() && l < b.size()) s += a[k] * b[l]; } return s; }
inline size_t nat(const vector<size_t>& v, size_t k) { return k < v.size() ? v[k] : 0; }
template <class C> vector<size_t> counts(const C& X) { vector<size_t> r; for (size_t k = 0; k <= X.maxdim(); k++) r.push_back(X.ncells(k)); return r; }
template <class M> vector<size_t> dims(const ChainComplex<M>& X) { vector<size_t> r; for (size_t k = 0; k <= X.maxdim(); k++) r.push_back(X.dim(k)); return r; }
// dense tensor product of two complexes up to a dimension
inline vector<DM> dtensor(const vector<DM>& A, const vector<DM>& B, size_t d, int P) { vector<size_t> a, b; for (auto& x : A) a.push_back(x.n); for (auto& x : B) b.push_back(x.n); auto dim = [&](size_t k) { size_t s = 0; for (size_t p = 0; p <= k; p++) s += nat(a, p) * nat(b, k - p); return s; }; vector<DM> R; R.push_back(DM(1, dim(0)));
  for (size_t k = 1; k <= d; k++) { DM T_(dim(k - 1), dim(k)); for (size_t p = 0; p <= k; p++) { size_t q = k - p; if (p >= a.size() || q >= b.size()) continue; for (size_t i = 0; i < a[p]; i++) for (size_t j = 0; j < b[q]; j++) { size_t c = off(a, b, p, q) + i * b[q] + j; if (p) for (size_t r = 0; r < a[p - 1]; r++) { int& t = T_(off(a, b, p - 1, q) + r * b[q] + j, c); t = md(t + A[p](r, i), P); } if (q) for (size_t r = 0; r < b[q - 1]; r++) { int& t = T_(off(a, b, p, q - 1) + i * b[q - 1] + r, c); t = md(t + (p % 2 ? -1 : 1) * B[q](r, j), P); } } } R.push_back(T_); } return R; }
// simplices of the triangulated product of two simplices: strictly increasing chains of pairs with the projections onto all of both
inline void paths(const ZV& s, const ZV& t, size_t n, vector<ZV>& out) { size_t p = s.size() - 1, q = t.size() - 1; for (int m = 0; m < (1 << (p + q)); m++) { size_t i = 0, j = 0; ZV v{s[0] + n * t[0]}; bool ok = true; for (size_t k = 0; k < p + q && ok; k++) { if (m >> k & 1) i++; else j++; if (i > p || j > q) { ok = false; break; } v.push_back(s[i] + n * t[j]); } if (ok) out.push_back(v); } }
template <int P, class Cpx> void ez(const Cpx& X, const Cpx& Y, size_t d) {
  typedef CM<P> M; typedef ModP<int, P> F; size_t n = X.ncells(0); auto [T_, f, XY] = EilenbergZilber(X, Y, d, F()); ChainComplex<M> CX(X), CY(Y); vector<DM> A_, B_; for (size_t k = 0; k <= CX.maxdim(); k++) A_.push_back(dense(CX[k])); for (size_t k = 0; k <= CY.maxdim(); k++) B_.push_back(dense(CY[k]));
  auto D = dtensor(A_, B_, d, P); REQUIRE(T_.maxdim() == d); for (size_t k = 0; k <= d; k++) REQUIRE_MSG(wfm(T_[k]) && (k == 0 ? T_[0].ncol() == D[0].n : deq(dense(T_[k]), D[k])), "tensor product complex"); REQUIRE_MSG(T_.is_valid_complex(), "tensor product is a complex");
  // the product complex holds the products of simplices up to the dimension
  std::set<ZV> want; vector<size_t> a = counts(X), b = counts(Y); for (size_t p = 0; p < a.size(); p++) for (size_t q = 0; q < b.size() && p + q <= d; q++) for (size_t i = 0; i < a[p]; i++) for (size_t j = 0; j < b[q]; j++) { vector<ZV> ps; auto sx = X.get_simplex(p, i), sy = Y.get_simplex(q, j); paths(ZV(sx.begin(), sx.end()), ZV(sy.begin(), sy.end()), n, ps); for (auto& v : ps) for (int m = 1; m < (1 << v.size()); m++) { ZV w; for (size_t k = 0; k < v.size(); k++) if (m >> k & 1) w.push_back(v[k]); want.insert(w); } }
  REQUIRE_MSG(XY.ncells() == want.size(), "simplices of the product"); for (auto& w : want) REQUIRE_MSG(XY.find_idx(w) < XY.ncells(w.size() - 1), "simplices of the product");
  ChainComplex<M> C(XY); REQUIRE_MSG(f.maxdim() == d, "dimensions of the map"); vector<DM> Fd; for (size_t k = 0; k <= d; k++) { REQUIRE_MSG(wfm(f[k]), "well formed map"); Fd.push_back(dense(f[k])); REQUIRE_MSG(Fd[k].m == XY.ncells(k) && Fd[k].n == D[k].n, "shape of the map"); }
  for (size_t p = 0; p < a.size(); p++) for (size_t q = 0; q < b.size() && p + q <= d; q++) for (size_t i = 0; i < a[p]; i++) for (size_t j = 0; j < b[q]; j++) { vector<ZV> ps; auto sx = X.get_simplex(p, i), sy = Y.get_simplex(q, j); paths(ZV(sx.begin(), sx.end()), ZV(sy.begin(), sy.end()), n, ps); size_t c = off(a, b, p, q) + i * b[q] + j; size_t nz = 0; for (size_t r = 0; r < Fd[p + q].m; r++) nz += Fd[p + q](r, c) != 0; REQUIRE_MSG(nz == ps.size(), "image of a product of simplices"); for (auto& v : ps) { int e = Fd[p + q](XY.find_idx(v), c); REQUIRE_MSG(e == 1 || (e == P - 1 && p && q), "image of a product of simplices"); } }
  for (size_t k = 1; k <= d; k++) REQUIRE_MSG(deq(dmul(dense(C[k]), Fd[k], P), dmul(Fd[k - 1], D[k], P)), "Eilenberg-Zilber map commutes with boundaries");
  bsx::obs(XY.ncells()); END();
}
template <int P> void ezs(size_t nx, size_t dx, size_t ny, size_t dy, size_t d) { auto X = reorder(symsimp(nx, cands(nx, dx), "x", dx), "ox"), Y = symsimp(ny, cands(ny, dy), "y", dy); ez<P>(X, Y, d); }
template <int P> void ezl(size_t nx, size_t dx, size_t ny, size_t dy, size_t d) { auto X = symsimp(nx, cands(nx, dx), "x", dx), Y = symsimp(ny, cands(ny, dy), "y", dy); LC LX(nx, dx), LY(ny, dy); for (auto& v : X.get_simplices()) LX.add(v); for (auto& v : Y.get_simplices()) LY.add(v); ez<P>(LX, LY, d); }
// Kronecker products of chains and of homology classes
template <class V> DM cv(const V& v, size_t m) { DM c(m, 1); for (auto it = v.nzbegin(); it != v.nzend(); ++it) { REQUIRE_MSG(it->ind < m, "index of a chain"); c(it->ind, 0) = toint(it->val); } return c; }
template <int P> void kron(size_t nx, size_t dx, size_t ny, size_t dy) {
  typedef CM<P> M; typedef ModP<int, P> F; auto X = symsimp(nx, cands(nx, dx), "x", dx), Y = symsimp(ny, cands(ny, dy), "y", dy); ChainComplex<M> CX(X), CY(Y); auto T_ = tensor_product(CX, CY); ReducedChainComplex<M> RX(CX), RY(CY), R(T_); vector<size_t> a = dims(CX), b = dims(CY); vector<DM> D; for (size_t k = 0; k <= T_.maxdim(); k++) D.push_back(dense(T_[k]));
  for (size_t k = 0; k <= T_.maxdim(); k++) { size_t tot = 0; vector<DM> blocks; for (size_t p = 0; p <= k; p++) { size_t q = k - p; if (p >= a.size() || q >= b.size()) continue; REQUIRE(kron_chain_shift(p, CX, q, CY) == off(a, b, p, q)); auto K = kron_homology(p, RX, q, RY, R); DM Kd = dense(K); REQUIRE_MSG(wfm(K) && Kd.m == R.hdim(k) && Kd.n == RX.hdim(p) * RY.hdim(q), "shape of the map on homology"); tot += Kd.n; blocks.push_back(Kd);
      for (size_t i = 0; i < RX.hdim(p); i++) for (size_t j = 0; j < RY.hdim(q); j++) { DM x = cv(RX.get_preferred_representative(i, p), a[p]), y = cv(RY.get_preferred_representative(j, q), b[q]); DM z(D[k].n, 1); for (size_t u = 0; u < a[p]; u++) for (size_t v = 0; v < b[q]; v++) z(off(a, b, p, q) + u * b[q] + v, 0) = md(x(u, 0) * y(v, 0), P); auto kc = kron_chains(RX.get_preferred_representative(i, p), p, CX, RY.get_preferred_representative(j, q), q, CY); REQUIRE_MSG(deq(cv(kc, D[k].n), z), "Kronecker product of chains"); if (k) REQUIRE_MSG(dzero(dmul(D[k], z, P)), "products of cycles are cycles");
        DM w(z); for (size_t h = 0; h < R.hdim(k); h++) w = dadd(w, cv(R.get_preferred_representative(h, k), D[k].n), md(-Kd(h, i * RY.hdim(q) + j), P), P); bool bd = k < T_.maxdim() ? drank(dhcat(D[k + 1], w), P) == drank(D[k + 1], P) : dzero(w); REQUIRE_MSG(bd, "class of the product of classes"); } }
    REQUIRE_MSG(tot == R.hdim(k), "Kunneth"); DM all(R.hdim(k), 0); for (auto& B : blocks) all = dhcat(all, B); REQUIRE_MSG(drank(all, P) == R.hdim(k), "products of classes are a basis"); }
  (void)F(); END();
}
// relative version: X with subcomplex A_, Y with subcomplex B_
inline SimplicialComplex symsub(const SimplicialComplex& X, const char* nm) { SimplicialComplex A_(X.maxdim()); for (auto s : X.get_simplices()) { bool ok = true; for (auto& f : SM::faces(s)) if (f.size() && A_.find_idx(f) == NO_IND) ok = false; if (ok && bsx::symb(nm)) A_.add(s); } return A_; }
template <int P> void rel(size_t nx, size_t dx, size_t ny, size_t dy) {
  typedef CM<P> M; typedef ModP<int, P> F; auto X = symsimp(nx, cands(nx, dx), "x", dx), Y = symsimp(ny, cands(ny, dy), "y", dy); auto A_ = symsub(X, "a"), B_ = symsub(Y, "b"); size_t d = dx + dy; auto [T_, f, C] = EilenbergZilber(X, A_, Y, B_, d, F());
  vector<size_t> a = counts(X), b = counts(Y); vector<DM> DT, DC, Fd; REQUIRE(T_.maxdim() == d && C.maxdim() == d && f.maxdim() == d); for (size_t k = 0; k <= d; k++) { REQUIRE_MSG(wfm(T_[k]) && wfm(C[k]) && wfm(f[k]), "well formed"); DT.push_back(dense(T_[k])); DC.push_back(dense(C[k])); Fd.push_back(dense(f[k])); REQUIRE_MSG(Fd[k].m == DC[k].n && Fd[k].n == DT[k].n, "shapes"); size_t want = 0; for (size_t p = 0; p <= k; p++) if (p < a.size() && k - p < b.size()) want += (a[p] - A_.ncells(p)) * (b[k - p] - B_.ncells(k - p)); REQUIRE_MSG(DT[k].n == want, "cells of the relative tensor product"); }
  REQUIRE_MSG(T_.is_valid_complex() && C.is_valid_complex(), "relative complexes"); for (size_t k = 1; k <= d; k++) REQUIRE_MSG(deq(dmul(DC[k], Fd[k], P), dmul(Fd[k - 1], DT[k], P)), "relative map commutes with boundaries");
  for (size_t k = 0; k <= d; k++) { size_t bt = dbetti(DT, k, P); REQUIRE_MSG(bt == dbetti(DC, k, P), "relative homology of the product"); DM K = k ? dker(DT[k], P) : deye(DT[0].n); DM im = dmul(Fd[k], K, P); DM bd = k < d ? DC[k + 1] : DM(DC[k].n, 0); REQUIRE_MSG(drank(dhcat(bd, im), P) - drank(bd, P) == bt, "isomorphism on relative homology"); }
  (void)sizeof(M); END();
}
BSX_ENTRY(e2) { ezs<2>(3, 1, 2, 1, 2); }
BSX_ENTRY(e3) { ezs<3>(3, 1, 3, 1, 2); }
BSX_ENTRY(e32) { ezs<3>(3, 2, 2, 1, 3); }
BSX_ENTRY(e3a) { ezs<3>(2, 1, 3, 2, 2); }
BSX_ENTRY(e1) { ezs<3>(2, 1, 3, 1, 1); }
BSX_ENTRY(l3) { ezl<3>(3, 1, 2, 1, 2); }
BSX_ENTRY(l32) { ezl<3>(2, 1, 3, 2, 3); }
BSX_ENTRY(k3) { kron<3>(3, 1, 3, 1); }
BSX_ENTRY(k2) { kron<2>(3, 2, 2, 1); }
BSX_ENTRY(r3) { rel<3>(2, 1, 2, 1); }
BSX_ENTRY(r2) { rel<2>(3, 1, 2, 1); }
#if BSX_TIER
BSX_ENTRY(te3) { ezs<3>(3, 2, 3, 2, 4); }
BSX_ENTRY(te5) { ezs<5>(4, 1, 3, 1, 2); }
BSX_ENTRY(tl3) { ezl<3>(3, 2, 3, 2, 4); }
BSX_ENTRY(tk3) { kron<3>(4, 1, 3, 2); }
BSX_ENTRY(tr3) { rel<3>(3, 2, 2, 1); }
BSX_ENTRY(tr33) { rel<3>(3, 1, 3, 1); }
#endif
