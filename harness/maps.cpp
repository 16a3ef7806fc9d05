// C19: maps of complexes: chain maps of simplicial maps and inclusions, composition, relative maps
#include "simp.hpp"
using namespace bats;
inline ZV symfun(const char* nm, size_t n, size_t m) { ZV f; for (size_t i = 0; i < n; i++) f.push_back((size_t)bsx::pick(nm, 0, (int)m - 1)); return f; }
inline DM denseint(const ColumnMatrix<SparseVector<int, size_t>>& A) { return dense(A); }
// expected image: matrix of the simplicial chain map over the integers
inline DM image(const SM& x, const SM& y, size_t k, const ZV& f, bool& ok) { DM D(k < y.s.size() ? y.s[k].size() : 0, k < x.s.size() ? x.s[k].size() : 0); for (size_t j = 0; j < D.n; j++) { ZV v; for (size_t a : x.s[k][j]) v.push_back(f[a]); int sg = 1; for (size_t a = 0; a < v.size(); a++) for (size_t b = a + 1; b < v.size(); b++) { if (v[a] == v[b]) sg = 0; else if (v[a] > v[b]) sg = -sg; } if (!sg) continue; std::sort(v.begin(), v.end()); size_t i = y.find(v); if (i == NO_IND) { ok = false; continue; } D(i, j) = sg; } return D; }
template <class Cpx> Cpx conv(const SimplicialComplex& X, size_t nv);
template <> SimplicialComplex conv<SimplicialComplex>(const SimplicialComplex& X, size_t) { return X; }
template <> LightSimplicialComplex<size_t> conv<LightSimplicialComplex<size_t>>(const SimplicialComplex& X, size_t nv) { LightSimplicialComplex<size_t> L(nv, X.maxdim()); for (auto& s : X.get_simplices()) L.add(s); return L; }
template <int P> void chainmap(const ChainMap<CM<P>>& F, const ChainComplex<CM<P>>& C, const ChainComplex<CM<P>>& D, const char* what) { for (size_t k = 1; k <= F.maxdim() && k <= D.maxdim(); k++) REQUIRE_MSG(deq(dmul(dense(D[k]), dense(F[k]), P), dmul(dense(F[k - 1]), dense(C[k]), P)), what); for (size_t k = 0; k <= F.maxdim(); k++) REQUIRE_MSG(wfm(F[k]), what); }
template <int P, class Cpx> void vertexmap(int nx, size_t dx, int ny, size_t dy) {
  typedef CM<P> M; SimplicialComplex X0 = symsimp(nx, cands(nx, dx), "x", dx), Y0 = reorder(symsimp(ny, cands(ny, dy), "y", dy), "order"); Cpx X = conv<Cpx>(X0, nx), Y = conv<Cpx>(Y0, ny); SM x = smof(X0), y = smof(Y0); ZV f0 = symfun("f", nx, ny); bool ok = true; vector<DM> E; for (size_t k = 0; k <= dx; k++) E.push_back(image(x, y, k, f0, ok));
  bool threw = false; CellularMap f; try { f = SimplicialMap(X, Y, f0); } catch (const std::out_of_range&) { threw = true; } REQUIRE_MSG(threw == !ok, "images outside the target are refused"); if (threw) { END(); return; }
  for (size_t k = 0; k <= dx; k++) { REQUIRE_MSG(wfm(f[k]) && deq(denseint(f[k]), E[k]), "simplicial chain map"); } ChainMap<M> F(f); chainmap<P>(F, ChainComplex<M>(X), ChainComplex<M>(Y), "commutes with the boundary"); bsx::obs(E.back().a.size()); for (auto& e : E) obsm(e); END();
}
// g after f equals the product of the cell maps; identity maps; inclusions
template <int P> void compose(int n, size_t d, const vector<ZV>& cy) {
  SimplicialComplex X = symsimp(n, cands(n, d), "x", d), Y = symsimp(n, cy, "y", d), Z(n, d); for (int t = 1; t < (1 << n); t++) if (maskset(t).size() <= d + 1) { } for (size_t k = 1; k <= d + 1; k++) for (int t = 1; t < (1 << n); t++) if (maskset(t).size() == k) Z.add(maskset(t));
  ZV f = symfun("f", n, n), g = symfun("g", n, n), h; for (size_t i = 0; i < (size_t)n; i++) h.push_back(g[f[i]]); bool ok = true; SM x = smof(X), y = smof(Y); for (size_t k = 0; k <= d; k++) image(x, y, k, f, ok); ASSUME(ok); CellularMap a = SimplicialMap(X, Y, f), b = SimplicialMap(Y, Z, g), c = SimplicialMap(X, Z, h); for (size_t k = 0; k <= d; k++) { REQUIRE_MSG(deq(denseint(b[k] * a[k]), denseint(c[k])), "composition of simplicial maps"); }
  CellularMap i = SimplicialMap(X, Z), e = CellularMap::identity(X); for (size_t k = 0; k <= d; k++) { DM D = denseint(i[k]), I = denseint(e[k]); REQUIRE(deq(I, deye(X.ncells(k)))); for (size_t r = 0; r < D.m; r++) for (size_t j = 0; j < D.n; j++) REQUIRE_MSG(D(r, j) == (Z.get_simplex(k, r) == X.get_simplex(k, j)), "inclusion"); obsm(D); } END();
}
// inclusions of sub-complexes are chain maps, also between relative complexes; inclusion into a complex lacking a cell is refused
template <int P> void incl(int n, size_t d, const vector<ZV>& cand) {
  typedef CM<P> M; SimplicialComplex Y = reorder(symsimp(n, cand, "y", d), "order"), X0 = symsimp(n, cand, "x", d), B0 = symsimp(n, {}, "b", d, true), X = intersection(X0, Y); bool sub = true; for (auto& s : X0.get_simplices()) if (Y.find_idx(s) == NO_IND) sub = false; bool threw = false; try { CellularMap(X0, Y); } catch (const std::out_of_range&) { threw = true; } REQUIRE_MSG(threw == !sub, "inclusion of a non sub-complex is refused");
  // pairs (X, A) in (Y, B) with B the full sub-complex of Y on the vertices of B0
  SimplicialComplex B(Y.maxdim()), A(X.maxdim()); auto in = [&](const ZV& s) { for (size_t v : s) if (B0.find_idx(ZV{v}) == NO_IND) return false; return true; }; for (auto s : Y.get_simplices()) if (in(s)) B.add(s); for (auto s : X.get_simplices()) if (in(s)) A.add(s);
  CellularMap f(X, Y); ChainMap<M> F(f), R(f, X, A, Y, B); ChainComplex<M> cx(X), cy(Y), rx(X, A), ry(Y, B); chainmap<P>(F, cx, cy, "inclusion commutes with the boundary"); for (size_t k = 0; k <= R.maxdim(); k++) REQUIRE_MSG(R[k].nrow() == ry.dim(k) && R[k].ncol() == rx.dim(k), "shape of relative map"); chainmap<P>(R, rx, ry, "relative inclusion commutes with the boundary"); auto ia = X.get_indices(A), ib = Y.get_indices(B); auto R2 = F.relative_map(ib, ia); for (size_t k = 0; k <= R.maxdim(); k++) { REQUIRE(deq(dense(R2[k]), dense(R[k]))); obsm(dense(R[k])); } END();
}
// maps filled dimension by dimension
BSX_ENTRY(grow) { typedef ColumnMatrix<SparseVector<int, size_t>> M; CellularMap f; size_t n = (size_t)bsx::pick("n", 1, 3); for (size_t k = 0; k < n; k++) f[k] = M::identity(k + 1); REQUIRE(f.maxdim() == n - 1); for (size_t k = 0; k < n; k++) REQUIRE(deq(denseint(f[k]), deye(k + 1))); END(); }
BSX_ENTRY(vm1) { vertexmap<3, SimplicialComplex>(3, 2, 3, 2); }
BSX_ENTRY(vm2) { vertexmap<3, SimplicialComplex>(3, 1, 3, 2); }
BSX_ENTRY(vm3) { vertexmap<3, SimplicialComplex>(3, 2, 2, 1); }
BSX_ENTRY(vm4) { vertexmap<3, LightSimplicialComplex<size_t>>(3, 2, 3, 2); }
BSX_ENTRY(comp) { compose<3>(3, 1, cands(3, 1)); }
BSX_ENTRY(comp2) { compose<3>(3, 2, {{0, 1}, {0, 2}, {1, 2}, {0, 1, 2}}); }
BSX_ENTRY(incl3) { incl<3>(3, 2, cands(3, 2)); }
BSX_ENTRY(incl4) { incl<2>(4, 1, {{0, 1}, {1, 2}, {2, 3}, {0, 3}}); }
#if BSX_TIER
BSX_ENTRY(tincl4) { incl<2>(4, 1, cands(4, 1)); }
BSX_ENTRY(tincl4b) { incl<3>(4, 2, {{0, 1}, {0, 2}, {1, 2}, {2, 3}, {1, 3}, {0, 1, 2}, {1, 2, 3}}); }
BSX_ENTRY(tvm) { vertexmap<3, SimplicialComplex>(4, 2, 3, 2); }
BSX_ENTRY(tcomp) { compose<3>(4, 1, {{0, 1}, {0, 2}, {1, 2}, {2, 3}}); }
#endif
