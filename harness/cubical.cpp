// C17: cubical complexes: insertion, recursion, faces, boundaries, skeletons and inclusions
#include "filt.hpp"
using namespace bats;
typedef vector<size_t> ZV;
// every interval is degenerate or of unit length
inline size_t cdim(const ZV& c) { size_t d = 0; for (size_t i = 0; i < c.size(); i += 2) d += c[i + 1] - c[i]; return d; }
inline vector<ZV> cfaces(const ZV& c) { vector<ZV> r; for (size_t i = 0; i < c.size(); i += 2) if (c[i] != c[i + 1]) { ZV f = c; f[i] = c[i + 1]; r.push_back(f); f = c; f[i + 1] = c[i]; r.push_back(f); } return r; }
struct CMod { vector<vector<ZV>> s; CMod(size_t D) : s(D + 1) {} size_t find(const ZV& c) const { auto& l = s[cdim(c)]; for (size_t i = 0; i < l.size(); i++) if (l[i] == c) return i; return NO_IND; } size_t put(const ZV& c) { s[cdim(c)].push_back(c); return s[cdim(c)].size() - 1; } bool hasfaces(const ZV& c) const { for (auto& f : cfaces(c)) if (find(f) == NO_IND) return false; return true; } size_t total() const { size_t t = 0; for (auto& l : s) t += l.size(); return t; } };
inline void modelrec(CMod& m, const ZV& c, vector<ZV>& add) { if (m.find(c) != NO_IND) return; for (auto& f : cfaces(c)) modelrec(m, f, add); m.put(c); add.push_back(c); }
// all cubes of the grid with n vertices per direction in D directions, as index -> cube
inline ZV cubeof(size_t idx, size_t D, size_t n) { ZV c; for (size_t d = 0; d < D; d++) { size_t t = idx % (2 * n - 1); idx /= 2 * n - 1; c.push_back(t / 2); c.push_back(t / 2 + t % 2); } return c; }
inline size_t ipow(size_t b, size_t e) { size_t r = 1; while (e--) r *= b; return r; }
inline void agree(const CubicalComplex& X, const CMod& m, size_t D, size_t n, const char* what) {
  REQUIRE_MSG(X.maxdim() == D && X.ncells() == m.total(), what); for (size_t i = 0; i < ipow(2 * n - 1, D); i++) { ZV c = cubeof(i, D, n); REQUIRE_MSG(X.find_idx(c) == m.find(c), what); } size_t tot = 0; for (size_t k = 0; k <= D; k++) { REQUIRE_MSG(X.ncells(k) == m.s[k].size(), what); auto l = X.get_cubes(k); REQUIRE_MSG(l.size() == m.s[k].size(), what); for (size_t i = 0; i < l.size(); i++) REQUIRE_MSG(l[i] == m.s[k][i] && X.get_cube(k, i) == l[i], what); tot += l.size(); } REQUIRE(X.get_cubes().size() == tot);
  for (size_t k = 1; k <= D; k++) { auto B = X.boundary_csc(k); REQUIRE_MSG(B.nrow() == m.s[k - 1].size() && B.ncol() == m.s[k].size(), what); for (size_t j = 0; j < m.s[k].size(); j++) { auto fs = cfaces(m.s[k][j]); size_t nz = 0; for (size_t i = 0; i < B.nrow(); i++) { int v = B.getval(i, j); nz += v != 0; bool isf = false; for (auto& f : fs) isf |= f == m.s[k - 1][i]; REQUIRE_MSG((v == 1 || v == -1) == isf && (v == 0) == !isf, "boundary of a cube"); } REQUIRE(nz == 2 * k); for (size_t d = 0; d < k; d++) REQUIRE_MSG(B.getval(m.find(fs[2 * d]), j) == -B.getval(m.find(fs[2 * d + 1]), j), "opposite faces have opposite signs"); for (auto it = X.faces_begin(k, j); it != X.faces_end(k, j); ++it) REQUIRE(B.getval(*it, j) != 0); } }
  for (size_t k = 2; k <= D; k++) { auto A = X.boundary_csc(k - 1), B = X.boundary_csc(k); for (size_t j = 0; j < B.ncol(); j++) for (size_t i = 0; i < A.nrow(); i++) { int s = 0; for (size_t r = 0; r < B.nrow(); r++) s += A.getval(i, r) * B.getval(r, j); REQUIRE_MSG(s == 0, "boundary of a boundary"); } }
}
inline void ops(size_t D, size_t n, int steps) {
  CubicalComplex X(D); CMod m(D); for (int s = 0; s < steps; s++) { ZV c = cubeof((size_t)bsx::pick("cube", 0, (int)ipow(2 * n - 1, D) - 1), D, n); size_t f = m.find(c);
    if (bsx::symb("rec")) { auto cs = X.add_recursive(c); if (f != NO_IND) REQUIRE_MSG(cs.size() == 1 && cs[0].ind == f && cs[0].dim == cdim(c), "recursive add of a present cube"); else { vector<ZV> add; CMod t = m; modelrec(t, c, add); REQUIRE_MSG(cs.size() == add.size() && cs.back().dim == cdim(c), "cells reported"); for (auto& x : cs) { ZV y = X.get_cube(x.dim, x.ind); bool was = false; for (auto& z : add) was |= z == y; REQUIRE_MSG(was && m.hasfaces(y), "faces first"); REQUIRE(m.put(y) == x.ind); } REQUIRE(m.find(c) == cs.back().ind); } }
    else { auto r = X.add(c); if (f == NO_IND && m.hasfaces(c)) f = m.put(c); REQUIRE_MSG(r.dim == cdim(c) && r.ind == f, "index returned by add"); }
    agree(X, m, D, n, "after insertion"); }
  for (size_t k = 0; k <= D; k++) { auto S = X.skeleton(k); CMod t(D); for (size_t d = 0; d <= k; d++) t.s[d] = m.s[d]; agree(S, t, D, n, "skeleton"); auto f = CubicalMap(S, X); for (size_t d = 0; d <= k; d++) REQUIRE_MSG(deq(dense(f[d]), deye(S.ncells(d))), "inclusion of the skeleton"); }
  CubicalComplex Y(X); Y.add_recursive(cubeof(ipow(2 * n - 1, D) / 2, D, n)); agree(X, m, D, n, "copy is independent"); bsx::obs(m.total()); END();
}
// any input vector: exactly the valid cubes are accepted
inline void valid(size_t D) {
  CubicalComplex X(D); ZV c; size_t len = 2 * D + (size_t)bsx::pick("len", -1, 1); for (size_t i = 0; i < len; i++) c.push_back(bsx::symz("c", 0, 3)); bool ok = len == 2 * D; for (size_t i = 0; i + 1 < len; i += 2) ok &= c[i + 1] == c[i] || c[i + 1] == c[i] + 1; bool threw = false; try { X.add_recursive(c); } catch (const std::runtime_error&) { threw = true; } REQUIRE_MSG(threw == !ok, "invalid cubes are refused"); threw = false; try { ZV d = c; X.add(d); } catch (const std::runtime_error&) { threw = true; } REQUIRE(threw == !ok); if (ok) REQUIRE(X.ncells() == ipow(3, cdim(c))); else REQUIRE(X.ncells() == 0); END();
}
// symbolic set of cubes of the grid closed recursively: homology under the field, and filtrations of cubes
template <int P> void homol(size_t D, size_t n, const vector<ZV>& cand) {
  typedef CM<P> M; CubicalComplex X(D); CMod m(D); for (auto& c : cand) if (bsx::symb("in")) { X.add_recursive(c); vector<ZV> a; modelrec(m, c, a); } ChainComplex<M> C(X); REQUIRE(C.is_valid_complex()); vector<DM> B; for (size_t k = 0; k <= D; k++) { B.push_back(dense(C[k])); REQUIRE(wfm(C[k]) && C.dim(k) == m.s[k].size()); } ReducedChainComplex<M> R(C); long e = 0; for (size_t k = 0; k <= D; k++) { REQUIRE_MSG(R.hdim(k) == dbetti(B, k, P), "homology of a cubical complex"); e += (k % 2 ? -1 : 1) * ((long)R.hdim(k) - (long)m.s[k].size()); bsx::obs(R.hdim(k)); } REQUIRE(e == 0);
  // number of connected components by merging vertices
  auto& V = m.s[0]; vector<size_t> c; for (size_t i = 0; i < V.size(); i++) c.push_back(i); for (auto& ed : m.s[1]) { auto f = cfaces(ed); size_t a = c[m.find(f[0])], b = c[m.find(f[1])]; for (auto& x : c) if (x == a) x = b; } size_t comp = 0; for (size_t i = 0; i < c.size(); i++) { bool first = true; for (size_t j = 0; j < i; j++) if (c[j] == c[i]) first = false; comp += first; } REQUIRE_MSG(R.hdim(0) == comp, "connected components"); END();
}
inline void cube(size_t n) { auto X = CubicalComplex::generate_cube(n); CMod m(3); for (size_t i = 0; i < ipow(2 * n - 1, 3); i++) { ZV c = cubeof(i, 3, n); REQUIRE_MSG(X.find_idx(c) != NO_IND, "every cube of the grid is present"); } REQUIRE(X.ncells() == ipow(2 * n - 1, 3)); for (size_t k = 0; k <= 3; k++) for (auto& c : X.get_cubes(k)) m.put(c); agree(X, m, 3, n, "generated cube"); ChainComplex<CM<3>> C(X); ReducedChainComplex<CM<3>> R(C); for (size_t k = 0; k <= 3; k++) REQUIRE(R.hdim(k) == (k == 0)); END(); }
inline vector<ZV> squares(size_t n) { vector<ZV> r; for (size_t i = 0; i + 1 < n; i++) for (size_t j = 0; j + 1 < n; j++) r.push_back({i, i + 1, j, j + 1}); for (size_t i = 0; i < n; i++) for (size_t j = 0; j + 1 < n; j++) { if (i == 0 || i + 1 == n) r.push_back({i, i, j, j + 1}); } return r; }
BSX_ENTRY(ops1) { ops(1, 3, 3); }
BSX_ENTRY(ops2) { ops(2, 2, 3); }
BSX_ENTRY(ops3) { ops(3, 2, 2); }
BSX_ENTRY(val1) { valid(1); }
BSX_ENTRY(val2) { valid(2); }
BSX_ENTRY(hom2) { homol<3>(2, 3, squares(3)); }
BSX_ENTRY(hom3) { homol<2>(3, 2, {{0,1,0,1,0,0}, {0,1,0,1,1,1}, {0,1,0,0,0,1}, {0,1,1,1,0,1}, {0,0,0,1,0,1}, {1,1,0,1,0,1}, {0,1,0,1,0,1}}); }
BSX_ENTRY(gen2) { cube(2); }
#if BSX_TIER
BSX_ENTRY(ops2b) { ops(2, 3, 2); }
BSX_ENTRY(ops2c) { ops(2, 2, 4); }
BSX_ENTRY(val3) { valid(3); }
BSX_ENTRY(hom2b) { homol<3>(2, 4, squares(4)); }
BSX_ENTRY(gen3) { cube(3); }
#endif
