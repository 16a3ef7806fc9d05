// C20: flag and Rips complexes and filtrations hold exactly the cliques, with the value of their longest edge
#include "simp.hpp"
using namespace bats;
typedef LightSimplicialComplex<size_t> LC;
// a symbolic graph: its edges in some symbolic order and orientation
struct Gr { vector<ZV> e; vector<vector<int>> w; };
inline Gr symgraph(int n, const vector<ZV>& cand, int V, bool order) {
  Gr g; g.w.assign(n, vector<int>(n, -1)); for (auto c : cand) if (bsx::symb("has")) { int t = V ? bsx::sym("w", 0, V) : 0; g.w[c[0]][c[1]] = g.w[c[1]][c[0]] = t; g.e.push_back(c); }
  if (order) { auto p = symperm("order", g.e.size()); vector<ZV> f; for (size_t i : p) f.push_back(g.e[i]); g.e = f; }
  int fl = bsx::pick("flip", 0, 2); for (size_t i = 0; i < g.e.size(); i++) if (fl == 1 || (fl == 2 && i % 2)) std::swap(g.e[i][0], g.e[i][1]); return g;
}
inline bool clique(const ZV& v, const vector<vector<int>>& w) { for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) if (w[v[i]][v[j]] < 0) return false; return true; }
inline int wof(const ZV& v, const vector<vector<int>>& w) { int m = 0; for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) if (w[v[i]][v[j]] > m) m = w[v[i]][v[j]]; return m; }
// exactly the cliques, each once, with faces first and alternating boundary
template <class Cpx> void cliques(const Cpx& X, int n, size_t maxd, const vector<vector<int>>& w, const char* what) {
  SM m; for (size_t k = 0; k <= maxd && k <= X.maxdim(); k++) { m.s.push_back({}); for (size_t i = 0; i < X.ncells(k); i++) m.s[k].push_back(X.get_simplex(k, i)); }
  size_t tot = 0; for (int t = 1; t < (1 << n); t++) { ZV v = maskset(t); bool in = v.size() <= maxd + 1 && clique(v, w); tot += in; if (v.size() <= maxd + 1) REQUIRE_MSG((m.find(v) != NO_IND) == in, what); }
  REQUIRE_MSG(X.ncells() == tot, what); REQUIRE_MSG(m.total() == tot, what); agreesm(X, m, n, what); bsx::obs(tot);
}
template <class Cpx> void values(const Filtration<double, Cpx>& F, const vector<vector<int>>& w, int t0, const char* what) {
  auto& X = F.complex(); for (size_t k = 0; k <= X.maxdim(); k++) { if (k > F.maxdim()) { REQUIRE_MSG(X.ncells(k) == 0, what); continue; } REQUIRE_MSG(F.ncells(k) == X.ncells(k), what); for (size_t i = 0; i < X.ncells(k); i++) { double t = F.vals(k)[i]; ZV v = X.get_simplex(k, i); REQUIRE_MSG(t == (double)(k ? wof(v, w) : t0), what); } }
}
inline vector<ZV> alledges(int n) { vector<ZV> r; for (size_t i = 0; i < (size_t)n; i++) for (size_t j = i + 1; j < (size_t)n; j++) r.push_back({i, j}); return r; }
template <class Cpx> void flagc(int n, size_t maxd, const vector<ZV>& cand, bool order, bool dup = false) {
  Gr g = symgraph(n, cand, 0, order); vector<size_t> e; for (auto& c : g.e) { e.push_back(c[0]); e.push_back(c[1]); } if (dup && g.e.size()) { int d = bsx::pick("dup", 0, (int)g.e.size() - 1); e.push_back(g.e[d][1]); e.push_back(g.e[d][0]); }
  Cpx X = FlagComplex<Cpx>(e, n, maxd); cliques(X, n, maxd, g.w, "flag complex"); END();
}
// filtration; cells of each dimension are stored in filtration order
template <class Cpx> void flagf(int n, size_t maxd, const vector<ZV>& cand, int V) {
  Gr g = symgraph(n, cand, V, true); vector<filtered_edge<double>> e, e2; for (auto& c : g.e) e.push_back(filtered_edge<double>(c[0], c[1], (double)g.w[c[0]][c[1]])); e2 = e;
  auto F = FlagFiltration<Cpx>(e, n, maxd, -1.0); cliques(F.complex(), n, maxd, g.w, "flag filtration"); values(F, g.w, -1, "filtration value is the longest edge");
  for (size_t k = 0; k <= F.maxdim(); k++) for (size_t i = 0; i + 1 < F.ncells(k); i++) REQUIRE_MSG(F.vals(k)[i] <= F.vals(k)[i + 1], "cells in filtration order");
  auto [G, inds] = FlagFiltration_extension<Cpx>(e2, n, maxd, -1.0); cliques(G.complex(), n, maxd, g.w, "flag filtration with extension"); values(G, g.w, -1, "value in extension"); REQUIRE(inds.size() == maxd + 1);
  for (size_t k = 0; k <= maxd; k++) { REQUIRE(inds[k].size() == G.complex().ncells(k)); for (size_t i = 0; i < inds[k].size(); i++) { ZV v = G.complex().get_simplex(k, i); if (!k) { REQUIRE(inds[0][i] == v[0]); continue; } REQUIRE(inds[k][i] < e2.size()); auto& ed = e2[inds[k][i]]; REQUIRE_MSG(ed.r == (double)wof(v, g.w), "edge creating the simplex has its value"); bool s = false, t = false; for (size_t x : v) { s |= x == ed.s; t |= x == ed.t; } REQUIRE_MSG(s && t, "edge creating the simplex lies in it"); } } END();
}
inline Matrix<double> dmat(int n, const vector<vector<int>>& w) { Matrix<double> D(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) D(i, j) = i == j ? 0. : (double)w[i][j]; return D; }
// Rips complex and filtration of a symbolic distance matrix
template <class Cpx> void ripsm(int n, size_t maxd, int V) {
  vector<vector<int>> w(n, vector<int>(n, 0)), wr; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) w[i][j] = w[j][i] = bsx::sym("d", 0, V); int r = bsx::sym("r", 0, V); auto D = dmat(n, w); wr = w; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && w[i][j] > r) wr[i][j] = -1;
  auto X = RipsComplex<Cpx>(D, (double)r, maxd); cliques(X, n, maxd, wr, "Rips complex"); auto F = RipsFiltration<Cpx>(D, (double)r, maxd); cliques(F.complex(), n, maxd, wr, "Rips filtration"); values(F, wr, 0, "Rips value is the diameter");
  auto [G, inds] = RipsFiltration_extension<Cpx>(D, (double)r, maxd); cliques(G.complex(), n, maxd, wr, "Rips extension"); values(G, wr, 0, "Rips value"); END();
}
// Rips complexes of symbolic points on a grid, with a metric
template <class Met> void ripsp(int n, int dim, size_t maxd, int V, Met met, bool linf) {
  typedef SimplicialComplex Cpx; Matrix<double> P(n, dim); vector<vector<int>> x(n, vector<int>(dim)), w(n, vector<int>(n, 0)), wr; for (int i = 0; i < n; i++) for (int j = 0; j < dim; j++) { x[i][j] = bsx::sym("x", 0, V); P(i, j) = (double)x[i][j]; }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int s = 0; for (int k = 0; k < dim; k++) { int d = x[i][k] - x[j][k]; if (d < 0) d = -d; if (linf) { if (d > s) s = d; } else s += d; } w[i][j] = s; }
  int r = bsx::sym("r", 0, V); wr = w; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && w[i][j] > r) wr[i][j] = -1; DataSet<double> X(P); REQUIRE(X.size() == (size_t)n && X.dim() == (size_t)dim);
  cliques(RipsComplex<Cpx>(X, met, (double)r, maxd), n, maxd, wr, "Rips complex of points"); auto F = RipsFiltration<Cpx>(X, met, (double)r, maxd); cliques(F.complex(), n, maxd, wr, "Rips filtration of points"); values(F, wr, 0, "Rips value of points"); auto G = std::get<0>(RipsFiltration_extension<Cpx>(X, met, (double)r, maxd)); cliques(G.complex(), n, maxd, wr, "Rips extension of points"); values(G, wr, 0, "Rips value of points"); END();
}
// complete flag filtration: all edges present
inline void complete(int n, size_t maxd, int V) {
  vector<ZV> ed = alledges(n); auto p = symperm("order", ed.size()); vector<vector<int>> w(n, vector<int>(n, 0)); vector<size_t> e; vector<double> t; int prev = 0; for (size_t i : p) { int v = bsx::sym("w", 0, V); ASSUME(v >= prev); prev = v; w[ed[i][0]][ed[i][1]] = w[ed[i][1]][ed[i][0]] = v; e.push_back(ed[i][0]); e.push_back(ed[i][1]); t.push_back((double)v); }
  auto [X, F] = CompleteFlagFiltration(e, t, (size_t)n, maxd, 0.0); cliques(F.complex(), n, maxd, w, "complete flag filtration"); values(F, w, 0, "complete flag value"); cliques(X, n, maxd, w, "complex of the complete flag filtration"); END();
}
BSX_ENTRY(c3) { flagc<SimplicialComplex>(3, 2, alledges(3), true, true); }
BSX_ENTRY(c4) { flagc<SimplicialComplex>(4, 3, alledges(4), false); }
BSX_ENTRY(c4o) { flagc<SimplicialComplex>(4, 2, {{0, 1}, {1, 2}, {0, 2}, {2, 3}, {0, 3}}, true); }
BSX_ENTRY(c4m) { flagc<SimplicialComplex>(4, 1, alledges(4), false); }
BSX_ENTRY(l4) { flagc<LC>(4, 3, alledges(4), false); }
BSX_ENTRY(l3) { flagc<LC>(3, 2, alledges(3), true, true); }
BSX_ENTRY(c0) { flagc<SimplicialComplex>(3, 0, alledges(3), false); }
BSX_ENTRY(f3) { flagf<SimplicialComplex>(3, 2, alledges(3), 2); }
BSX_ENTRY(f3l) { flagf<LC>(3, 2, alledges(3), 2); }
BSX_ENTRY(f1) { flagf<SimplicialComplex>(3, 1, alledges(3), 1); }
BSX_ENTRY(f0) { flagf<SimplicialComplex>(2, 0, alledges(2), 1); }
BSX_ENTRY(f4) { flagf<SimplicialComplex>(4, 3, {{0, 1}, {1, 2}, {0, 2}, {2, 3}, {0, 3}}, 1); }
BSX_ENTRY(r3) { ripsm<SimplicialComplex>(3, 2, 3); }
BSX_ENTRY(r4) { ripsm<SimplicialComplex>(4, 3, 2); }
BSX_ENTRY(r3l) { ripsm<LC>(3, 2, 2); }
BSX_ENTRY(p1) { ripsp(3, 1, 2, 3, LInfDist(), true); }
BSX_ENTRY(p2) { ripsp(2, 2, 1, 2, L1Dist(), false); }
BSX_ENTRY(p3) { ripsp(3, 1, 2, 3, Euclidean(), true); }
BSX_ENTRY(k3) { complete(3, 2, 2); }
BSX_ENTRY(k31) { complete(3, 1, 2); }
BSX_ENTRY(k30) { complete(3, 0, 2); }
#if BSX_TIER
BSX_ENTRY(tc5) { flagc<SimplicialComplex>(5, 4, alledges(5), false); }
BSX_ENTRY(tl5) { flagc<LC>(5, 4, alledges(5), false); }
BSX_ENTRY(tc4) { flagc<SimplicialComplex>(4, 3, alledges(4), true); }
BSX_ENTRY(tf4) { flagf<LC>(4, 3, {{0, 1}, {1, 2}, {0, 2}, {2, 3}, {0, 3}, {1, 3}}, 1); }
BSX_ENTRY(tr4) { ripsm<LC>(4, 3, 4); }
BSX_ENTRY(tp4) { ripsp(4, 1, 3, 3, LInfDist(), true); }
BSX_ENTRY(tp2) { ripsp(3, 2, 2, 2, LInfDist(), true); }
BSX_ENTRY(tk4) { complete(4, 3, 1); }
#endif
