// C15: simplicial complexes: insertion in any order, recursion, unions, intersections, indices, boundaries, relative complexes and products
#include "simp.hpp"
using namespace bats;
// all faces of v in the order-independent sense: insert missing faces first
inline void modelrec(SM& m, const ZV& v, vector<ZV>& added) { if (m.find(v) != NO_IND) return; for (auto& f : SM::faces(v)) modelrec(m, f, added); m.put(v); added.push_back(v); }
inline void ops(int nv, int steps, int kinds) {
  SimplicialComplex X; SM m; SimplicialComplex Y; for (int s = 0; s < steps; s++) {
    int t = bsx::pick("mask", 1, (1 << nv) - 1), k = bsx::pick("op", 0, kinds - 1); ZV v = maskset(t), w = v; if (bsx::symb("rev")) std::reverse(w.begin(), w.end());
    if (k == 0) { auto c = X.add(w); REQUIRE(c.dim == v.size() - 1); size_t f = m.find(v); if (f == NO_IND && m.hasfaces(v)) f = m.put(v); REQUIRE_MSG(c.ind == f, "index returned by add"); }
    else { size_t f = m.find(v); auto cs = k == 1 ? X.add_recursive(w) : (w = v, X.add_directed_recursive(w)); if (f != NO_IND) REQUIRE_MSG(cs.size() == 1 && cs[0].dim == v.size() - 1 && cs[0].ind == f, "recursive add of a present simplex"); else { size_t before = m.total(); vector<ZV> add; SM n = m; modelrec(n, v, add); REQUIRE_MSG(cs.size() == add.size(), "cells reported by recursive add"); REQUIRE(cs.back().dim == v.size() - 1);
        // indices are assigned per dimension in the order of reporting
        for (auto& c : cs) { ZV x = X.get_simplex(c.dim, c.ind); bool was = false; for (auto& y : add) if (y == x) was = true; REQUIRE_MSG(was && m.hasfaces(x), "faces are reported before their cofaces"); REQUIRE_MSG(m.put(x) == c.ind, "indices reported by recursive add"); } REQUIRE(m.total() == before + add.size()); REQUIRE(m.find(v) == cs.back().ind); } }
    agreesm(X, m, nv, "after insertion"); }
  // copies are independent of the original
  SimplicialComplex Z(X); Y = X; Z.add_recursive(maskset((1 << nv) - 1)); agreesm(X, m, nv, "copy is independent"); agreesm(Y, m, nv, "assigned copy"); REQUIRE(m.closed()); bsx::obs(m.total()); for (auto& l : m.s) bsx::obs(l.size()); END();
}
inline void setops(int nv, size_t dx, size_t dy) {
  SimplicialComplex X = symsimp(nv, cands(nv, dx), "x", dx, true), Y = reorder(symsimp(nv, cands(nv, dy), "y", dy, true), "order"); SM x = smof(X), y = smof(Y); agreesm(X, x, nv, "X"); agreesm(Y, y, nv, "Y");
  auto U = simplicial_union(X, Y); auto W = X; W.union_add(Y); auto I = intersection(X, Y); SM u, w, i; for (auto& l : x.s) for (auto& v : l) { u.put(v); if (y.find(v) != NO_IND) i.put(v); } w = u; for (auto& l : y.s) for (auto& v : l) if (u.find(v) == NO_IND) u.put(v); agreesm(U, u, nv, "union"); agreesm(W, u, nv, "union in place"); agreesm(I, i, nv, "intersection");
  auto g = X.get_indices(I); REQUIRE(g.size() == X.maxdim() + 1); for (size_t k = 0; k < i.s.size(); k++) { REQUIRE(g[k].size() == i.s[k].size()); for (size_t c = 0; c < i.s[k].size(); c++) REQUIRE_MSG(g[k][c] == x.find(i.s[k][c]), "indices of a sub-complex"); } auto q = Y.get_indices(X); for (size_t k = 0; k < q.size() && k < x.s.size(); k++) for (size_t c = 0; c < q[k].size(); c++) REQUIRE(q[k][c] == y.find(x.s[k][c]));
  // inclusion-exclusion
  for (size_t k = 0; k < 3; k++) { auto n = [&](const SM& m) { return k < m.s.size() ? (long)m.s[k].size() : 0; }; REQUIRE(n(u) + n(i) == n(x) + n(y)); } bsx::obs(u.total()); END();
}
template <int P> void chains(int nv, size_t d) {
  typedef CM<P> M; SimplicialComplex X = symsimp(nv, cands(nv, d), "x", d), A0 = symsimp(nv, cands(nv, d), "a", d, true), A = reorder(intersection(X, A0), "order"); auto B = bdense(X, P); ChainComplex<M> C(X); REQUIRE(C.is_valid_complex()); for (size_t k = 0; k <= X.maxdim(); k++) { DM c = dense(C[k]); REQUIRE_MSG(wfm(C[k]) && (deq(c, B[k]) || deq(c, dadd(DM(c.m, c.n), B[k], -1, P))), "chain complex of a simplicial complex"); }
  ChainComplex<M> R(X, A); REQUIRE(R.is_valid_complex() && R.maxdim() == X.maxdim()); auto in = X.get_indices(A); ZV pq; for (size_t k = 0; k <= X.maxdim(); k++) { ZV q; for (size_t j = 0; j < X.ncells(k); j++) { bool a = k < in.size() && std::find(in[k].begin(), in[k].end(), j) != in[k].end(); if (!a) q.push_back(j); } DM e = k ? dT(dcols(dT(dcols(dense(C[k]), q)), pq)) : DM(1, q.size()); REQUIRE_MSG(wfm(R[k]) && deq(dense(R[k]), e), "relative chain complex"); pq = q; }
  ReducedChainComplex<M> rc(C); for (size_t k = 0; k <= X.maxdim(); k++) { REQUIRE(rc.hdim(k) == dbetti(B, k, P)); bsx::obs(rc.hdim(k)); } END();
}
template <int P> void product(int nx, size_t dx, int ny, size_t dy) {
  typedef CM<P> M; SimplicialComplex X = symsimp(nx, cands(nx, dx), "x", dx), Y = symsimp(ny, cands(ny, dy), "y", dy); auto XY = TriangulatedProduct(X, Y); SM m = smof(XY); REQUIRE_MSG(m.closed(), "product is closed under faces"); REQUIRE(XY.ncells(0) == X.ncells(0) * Y.ncells(0)); agreesm(XY, m, 0, "product"); for (size_t d = 0; d <= dx + dy; d++) { auto S = TriangulatedProduct(X, Y, d); for (size_t k = 0; k <= dx + dy; k++) { size_t e = 0; if (k < m.s.size()) for (auto& v : m.s[k]) { std::set<size_t> a, b; for (size_t x : v) { a.insert(x % X.ncells(0)); b.insert(x / X.ncells(0)); } bool in = a.size() + b.size() - 2 <= d; e += in; REQUIRE_MSG((S.find_idx(v) != NO_IND) == in, "products of simplices up to a dimension"); } REQUIRE_MSG((k <= S.maxdim() ? S.ncells(k) : 0) == e, "product up to a dimension"); } } ChainComplex<M> C(XY); REQUIRE(C.is_valid_complex());
  // simplices of the product are exactly the chains whose projections are simplices
  for (auto& l : m.s) for (auto& v : l) { std::set<size_t> a, b; for (size_t x : v) { a.insert(x % X.ncells(0)); b.insert(x / X.ncells(0)); } REQUIRE_MSG(X.find_idx(ZV(a.begin(), a.end())) != NO_IND && Y.find_idx(ZV(b.begin(), b.end())) != NO_IND, "projections of product simplices"); }
  auto bx = bdense(X, P), by = bdense(Y, P), bp = bdense(XY, P); for (size_t k = 0; k < bp.size(); k++) { size_t h = 0; for (size_t i = 0; i <= k; i++) if (i < bx.size() && k - i < by.size()) h += dbetti(bx, i, P) * dbetti(by, k - i, P); REQUIRE_MSG(dbetti(bp, k, P) == h, "homology of the product"); bsx::obs(h); } END();
}
// directed simplices: vertex sequences, distinguished by their order; boundaries are alternating sums of sub-sequences
template <int P> void directed(int nv, int steps, size_t maxlen, bool degen) {
  typedef CM<P> M; SimplicialComplex X; vector<vector<ZV>> m(maxlen); auto find = [&](const ZV& v) { auto& l = m[v.size() - 1]; for (size_t i = 0; i < l.size(); i++) if (l[i] == v) return i; return bats::NO_IND; };
  auto has = [&](const ZV& v) { for (auto& f : SM::faces(v)) if (find(f) == NO_IND) return false; return true; };
  for (int s = 0; s < steps; s++) { size_t len = (size_t)bsx::pick("len", 1, (int)maxlen); ZV v; for (size_t i = 0; i < len; i++) { size_t x = (size_t)bsx::pick("v", 0, nv - 1); if (!degen) for (size_t y : v) ASSUME(x != y); v.push_back(x); }
    if (bsx::symb("rec")) { size_t f = find(v); auto cs = X.add_directed_recursive(v); if (f != NO_IND) REQUIRE_MSG(cs.size() == 1 && cs[0].ind == f, "recursive add of a present directed simplex"); else { for (auto& c : cs) { ZV x = X.get_simplex(c.dim, c.ind); REQUIRE_MSG(find(x) == NO_IND && has(x), "faces are reported before their cofaces"); m[c.dim].push_back(x); REQUIRE(m[c.dim].size() == c.ind + 1); } REQUIRE(find(v) == cs.back().ind); } }
    else { auto c = X.add_directed(v); size_t f = find(v); if (f == NO_IND && has(v)) { m[len - 1].push_back(v); f = m[len - 1].size() - 1; } REQUIRE_MSG(c.dim == len - 1 && c.ind == f, "index returned by add_directed"); } }
  for (size_t k = 0; k < maxlen; k++) { if (m[k].empty()) continue; REQUIRE(X.ncells(k) == m[k].size()); for (size_t i = 0; i < m[k].size(); i++) { REQUIRE(X.get_simplex(k, i) == m[k][i] && X.find_idx(m[k][i]) == i); if (k) { size_t c = 0; auto b = X.faces_begin(k, i), e = X.faces_end(cell_ind(k, i)); REQUIRE(b == X.faces_begin(cell_ind(k, i)) && e == X.faces_end(k, i)); vector<size_t> fs; for (; b != e; ++b) { fs.push_back(*b); c++; } REQUIRE(c == k + 1); vector<size_t> es; for (auto& f : SM::faces(m[k][i])) es.push_back(find(f)); std::sort(es.begin(), es.end()); REQUIRE_MSG(fs == es, "face indices in increasing order"); } } }
  ChainComplex<M> C(X); REQUIRE(C.is_valid_complex()); for (size_t k = 1; k <= X.maxdim(); k++) { DM b(m[k - 1].size(), m[k].size()); for (size_t j = 0; j < m[k].size(); j++) { auto fs = SM::faces(m[k][j]); for (size_t d = 0; d <= k; d++) { size_t f = find(fs[d]); b(f, j) = md(b(f, j) + (d % 2 ? -1 : 1), P); } } DM c = dense(C[k]); bool ws = true; for (size_t j = 0; j < C[k].ncol(); j++) ws &= wf(C[k][j], C[k].nrow()); REQUIRE_MSG(ws && (deq(c, b) || deq(c, dadd(DM(c.m, c.n), b, -1, P))), "boundary of directed simplices"); obsm(c); } END();
}
BSX_ENTRY(dir3) { directed<3>(3, 2, 3, false); }
BSX_ENTRY(dir2) { directed<3>(2, 3, 2, false); }
BSX_ENTRY(dirg) { directed<3>(2, 2, 3, true); }
BSX_ENTRY(ops3) { ops(3, 3, 2); }
BSX_ENTRY(ops4) { ops(4, 2, 3); }
BSX_ENTRY(set3) { setops(3, 2, 1); }
BSX_ENTRY(set3b) { setops(3, 2, 2); }
BSX_ENTRY(ch4) { chains<2>(4, 1); }
BSX_ENTRY(ch3) { chains<3>(3, 2); }
BSX_ENTRY(prod) { product<2>(3, 1, 2, 1); }
BSX_ENTRY(prod3) { product<3>(3, 2, 2, 1); }
#if BSX_TIER
BSX_ENTRY(dir3b) { directed<3>(3, 3, 3, false); }
BSX_ENTRY(ops4b) { ops(4, 3, 2); }
BSX_ENTRY(set4) { setops(4, 1, 2); }
BSX_ENTRY(ch4b) { chains<2>(4, 3); }
BSX_ENTRY(prod4) { product<2>(3, 2, 3, 1); }
#endif
