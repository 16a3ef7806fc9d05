// C16: light (keyed) simplicial complexes agree with the set of simplices inserted and with the trie based complex
#include "simp.hpp"
using namespace bats;
typedef LightSimplicialComplex<size_t> LC;
inline void modelrec(SM& m, const ZV& v, vector<ZV>& added) { if (m.find(v) != NO_IND) return; for (auto& f : SM::faces(v)) modelrec(m, f, added); m.put(v); added.push_back(v); }
// keys identify simplices: every sorted vertex list is recovered from its key, and distinct lists have distinct keys
inline void keys(size_t n, size_t k) {
  LC X(n, k); ZV s, t; for (size_t i = 0; i <= k; i++) { s.push_back(bsx::symz("s", 0, n - 1)); if (i) ASSUME(s[i - 1] < s[i]); } for (size_t i = 0; i <= k; i++) { t.push_back(bsx::symz("t", 0, n - 1)); if (i) ASSUME(t[i - 1] < t[i]); }
  size_t a = X.simplex_key(s), b = X.simplex_key(t); bool eq = true; for (size_t i = 0; i <= k; i++) eq &= s[i] == t[i]; REQUIRE_MSG((a == b) == eq, "keys are injective"); ZV r = X.key_to_simplex(k, a); REQUIRE(r.size() == k + 1); for (size_t i = 0; i <= k; i++) REQUIRE_MSG(r[i] == s[i], "simplex recovered from its key"); REQUIRE_MSG(X.max_vertex(a, k) == s[k], "largest vertex"); bsx::obs(a); END();
}
// boundary of a symbolic simplex through the face iterator
inline void facesof(size_t n, size_t k) {
  LC X(n, k); ZV s; for (size_t i = 0; i <= k; i++) { s.push_back((size_t)bsx::pick("s", 0, (int)n - 1)); if (i) ASSUME(s[i - 1] < s[i]); } auto ci = X.add_recursive(s); REQUIRE(ci.size() == ((size_t)1 << (k + 1)) - 1); size_t c = 0; for (auto it = X.simplex_begin(k, ci.back().ind); it != X.simplex_end(k, ci.back().ind); ++it) { ZV f; for (size_t e = 0; e <= k; e++) if (e != k - c) f.push_back(s[e]); REQUIRE_MSG(k == 0 || *it == X.simplex_key(f), "faces by iteration"); c++; } REQUIRE(c == k + 1);
  auto it = X.simplex_begin(k, ci.back().ind); size_t up = (size_t)bsx::pick("up", 1, (int)k + 1); for (size_t u = 0; u < up; u++) ++it; for (size_t u = up; u-- > 0;) { --it; ZV f; for (size_t e = 0; e <= k; e++) if (e != k - u) f.push_back(s[e]); REQUIRE_MSG(k == 0 || *it == X.simplex_key(f), "faces by backward iteration"); } for (size_t d = 0; d <= k; d++) REQUIRE(X.ncells(d) > 0); bsx::obs(c); END();
}
inline void ops(int nv, int steps, size_t maxd) {
  LC X(nv, maxd); SM m; for (int s = 0; s < steps; s++) { int t = bsx::pick("mask", 1, (1 << nv) - 1); ZV v = maskset(t); ASSUME(v.size() <= maxd + 1); size_t f = m.find(v);
    if (bsx::symb("rec")) { auto cs = X.add_recursive(v); if (f != NO_IND) REQUIRE_MSG(cs.empty(), "recursive add of a present simplex"); else { vector<ZV> add; SM n = m; modelrec(n, v, add); REQUIRE_MSG(cs.size() == add.size(), "cells reported by recursive add"); for (auto& c : cs) { ZV x = X.get_simplex(c.dim, c.ind); bool was = false; for (auto& y : add) if (y == x) was = true; REQUIRE_MSG(was && m.hasfaces(x), "faces are reported before their cofaces"); REQUIRE_MSG(m.put(x) == c.ind, "indices reported by recursive add"); } } }
    else { ASSUME(m.hasfaces(v)); auto c = f == NO_IND && bsx::symb("unsafe") ? X.add_unsafe(v) : X.add(v); if (f == NO_IND) f = m.put(v); REQUIRE(c.dim == v.size() - 1 && c.ind == f); }
    agreesm(X, m, nv, "after insertion"); }
  LC Y(X), Z; Z = X; vector<ZV> dummy; ZV full = maskset((1 << (maxd + 1)) - 1); Z.add_recursive(full); agreesm(X, m, nv, "copy is independent"); agreesm(Y, m, nv, "copy"); bsx::obs(m.total()); END();
}
// the same simplicial set in both representations has the same chain complex up to the sign of each dimension
template <int P> void same(int nv, const vector<ZV>& cand, size_t maxd) {
  typedef CM<P> M; SimplicialComplex X = symsimp(nv, cand, "x", maxd); LC L(nv, maxd); for (auto& v : X.get_simplices()) L.add(v); SM m = smof(X); agreesm(L, m, nv, "light copy"); auto all = L.get_simplices(); REQUIRE(all.size() == m.total()); size_t at = 0; for (auto& l : m.s) for (auto& v : l) { REQUIRE_MSG(all[at] == v, "list of all simplices"); at++; } for (size_t k = 0; k < m.s.size(); k++) for (size_t i = 0; i < m.s[k].size(); i++) { REQUIRE(L.get_cell(k, i) == m.s[k][i]); ZV t{9, 9, 9, 9, 9}; L.get_cell(k, i, t); REQUIRE_MSG(t == m.s[k][i], "cell read into a vector"); } ChainComplex<M> a(X), b(L); REQUIRE(b.is_valid_complex() && a.maxdim() == b.maxdim()); auto B = bdense(X, P); for (size_t k = 0; k <= maxd; k++) { DM c = dense(a[k]), d = dense(b[k]); REQUIRE_MSG(wfm(b[k]) && (deq(c, d) || deq(c, dadd(DM(d.m, d.n), d, -1, P))), "chain complexes of both representations"); }
  ReducedChainComplex<M> r(b); for (size_t k = 0; k <= maxd; k++) { REQUIRE(r.hdim(k) == dbetti(B, k, P)); bsx::obs(r.hdim(k)); } Filtration<double, LC> F; END();
}
inline void prod(int nx, int ny) {
  SimplicialComplex X = symsimp(nx, cands(nx, 1), "x", 1), Y = symsimp(ny, cands(ny, 1), "y", 1); LC LX(nx, 1), LY(ny, 1); for (auto& v : X.get_simplices()) LX.add(v); for (auto& v : Y.get_simplices()) LY.add(v); auto XY = TriangulatedProduct(X, Y); auto L = TriangulatedProduct(LX, LY); REQUIRE(L.ncells() == XY.ncells()); for (size_t k = 0; k <= XY.maxdim(); k++) { REQUIRE(L.ncells(k) == XY.ncells(k)); for (auto& v : XY.get_simplices(k)) REQUIRE_MSG(L.find_idx(v) != NO_IND, "product of light complexes"); } bsx::obs(L.ncells()); END();
}
BSX_ENTRY(key1) { keys(7, 1); }
BSX_ENTRY(key2) { keys(5, 2); }
BSX_ENTRY(faces0) { facesof(4, 0); }
BSX_ENTRY(faces2) { facesof(5, 2); }
BSX_ENTRY(faces3) { facesof(5, 3); }
BSX_ENTRY(ops3) { ops(3, 3, 2); }
BSX_ENTRY(ops4) { ops(4, 2, 3); }
BSX_ENTRY(same4) { same<3>(4, cands(4, 1), 1); }
BSX_ENTRY(same3) { same<3>(3, cands(3, 2), 2); }
BSX_ENTRY(same4b) { same<2>(4, {{0,1},{0,2},{0,3},{1,2},{1,3},{2,3},{0,1,2},{1,2,3}}, 2); }
BSX_ENTRY(prod) { prod(3, 2); }
#if BSX_TIER
BSX_ENTRY(key3) { keys(6, 3); }
BSX_ENTRY(key2b) { keys(30, 2); }
BSX_ENTRY(faces4) { facesof(7, 4); }
BSX_ENTRY(ops4b) { ops(4, 3, 2); }
BSX_ENTRY(same4c) { same<3>(4, cands(4, 3), 3); }
#endif
