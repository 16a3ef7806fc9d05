// C32: functors on diagrams (nerve, Rips, chains, homology and cohomology) preserve the graph, act on every node and edge, and compose
#include "simp.hpp"
#include <stdexcept>
using namespace bats;
typedef SimplicialComplex SC; typedef Diagram<SC, CellularMap> SD; typedef vector<vector<int>> W; typedef vector<std::set<size_t>> Cov;
struct TabDist : AbstractMetric<TabDist> { const W* w; template <typename S> S dist(const VectorView<S>& x, const VectorView<S>& y) const { return (S)(*w)[(size_t)x(0)][(size_t)y(0)]; } };
inline DataSet<double> numbered(size_t n) { Matrix<double> P(n, 1); for (size_t i = 0; i < n; i++) P(i, 0) = (double)i; return DataSet<double>(P); }
// matrix of a vertex map between complexes, from vertex lists alone, with the boundaries of bdense
inline DM mapmat(const SC& X, const SC& Y, const vector<size_t>& f, size_t k, int p) {
  DM F(Y.ncells(k), X.ncells(k)); for (size_t j = 0; j < X.ncells(k); j++) { ZV s; for (size_t v : X.get_simplex(k, j)) s.push_back(f[v]); int sg = 1; for (size_t a = 0; a < s.size(); a++) for (size_t b = a + 1; b < s.size(); b++) { if (s[a] == s[b]) sg = 0; if (s[a] > s[b]) { std::swap(s[a], s[b]); sg = -sg; } } if (!sg) continue; for (size_t i = 0; i < Y.ncells(k); i++) if (Y.get_simplex(k, i) == s) F(i, j) = md(sg, p); } return F;
}
inline void legal(const SC& X, const SC& Y, const vector<size_t>& f) { for (size_t k = 1; k <= X.maxdim(); k++) for (size_t j = 0; j < X.ncells(k); j++) { std::set<size_t> s; for (size_t v : X.get_simplex(k, j)) s.insert(f[v]); ZV t(s.begin(), s.end()); ASSUME(Y.find_idx(t) != NO_IND); } }
// rank of the induced map on k-th homology
inline size_t hrank(const SC& X, const SC& Y, const DM& F, size_t k, int p) { auto B = bdense(X, p), D = bdense(Y, p); DM Z = k ? dker(B[k], p) : deye(X.ncells(0)); DM bd = k + 1 < D.size() ? D[k + 1] : DM(Y.ncells(k), 0); return drank(dhcat(bd, dmul(F, Z, p)), p) - drank(bd, p); }
inline size_t betti(const SC& X, size_t k, int p) { auto B = bdense(X, p); return X.ncells(k) - (k ? drank(B[k], p) : 0) - (k + 1 < B.size() ? drank(B[k + 1], p) : 0); }
inline vector<size_t> symvmap(size_t n, size_t m) { vector<size_t> f; for (size_t i = 0; i < n; i++) f.push_back((size_t)bsx::pick("f", 0, (int)m - 1)); return f; }
// nodes 0 -> 1 -> 2 and the composite 0 -> 2, edges stored in the order g, f, gf
struct Tri { vector<SC> X; vector<vector<size_t>> f; SD D; static constexpr int S[3] = {1, 0, 0}, T[3] = {2, 1, 2}; };
inline Tri tri(size_t n0, const vector<ZV>& c0, size_t n1, const vector<ZV>& c1, size_t n2, const vector<ZV>& c2, size_t maxd) {
  Tri t; t.X.push_back(symsimp(n0, c0, "x0", maxd)); t.X.push_back(symsimp(n1, c1, "x1", maxd)); t.X.push_back(symsimp(n2, c2, "x2", maxd)); auto f = symvmap(n0, n1), g = symvmap(n1, n2); legal(t.X[0], t.X[1], f); legal(t.X[1], t.X[2], g); vector<size_t> gf; for (size_t i : f) gf.push_back(g[i]); t.f = {g, f, gf};
  t.D = SD(3, 3); for (size_t i = 0; i < 3; i++) t.D.set_node(i, t.X[i]); for (size_t e = 0; e < 3; e++) t.D.set_edge(e, Tri::S[e], Tri::T[e], SimplicialMap(t.X[Tri::S[e]], t.X[Tri::T[e]], t.f[e])); return t;
}
template <class G> void graph(const G& D, const Tri& t, bool rev, const char* what) { REQUIRE_MSG(D.nnode() == 3 && D.nedge() == 3, what); for (size_t e = 0; e < 3; e++) { size_t s = Tri::S[e], q = Tri::T[e]; if (rev) std::swap(s, q); REQUIRE_MSG(D.edge_source(e) == s && D.edge_target(e) == q, what); } }
template <int P> void chains(const Tri& t, int th) {
  typedef CM<P> M; typedef ModP<int, P> F; bsx_threads(th); auto C = Chain(t.D, F()); graph(C, t, false, "chain functor"); auto C2 = ChainFunctor<M>(t.D); graph(C2, t, false, "chain functor");
  for (size_t i = 0; i < 3; i++) for (size_t k = 0; k <= t.X[i].maxdim(); k++) { DM b = dense(C.node_data(i)[k]); REQUIRE_MSG(deq(b, dense(C2.node_data(i)[k])), "chain complex of a node"); REQUIRE(b.n == t.X[i].ncells(k)); if (k) { DM c = bdense(t.X[i], P)[k]; REQUIRE_MSG(deq(b, c) || dzero(dadd(b, c, 1, P)), "chain complex of a node"); } }
  for (size_t e = 0; e < 3; e++) for (size_t k = 0; k <= t.X[Tri::S[e]].maxdim(); k++) REQUIRE_MSG(deq(dense(C.edge_data(e)[k]), mapmat(t.X[Tri::S[e]], t.X[Tri::T[e]], t.f[e], k, P)), "chain map of an edge");
  size_t maxd = t.X[0].maxdim(); auto H = Hom(C, true); graph(H, t, false, "homology functor");
  for (size_t k = 0; k <= maxd; k++) { auto h = Hom(C, k); graph(h, t, false, "homology functor in one dimension"); for (size_t i = 0; i < 3; i++) { REQUIRE_MSG(h.node_data(i).hdim(k) == betti(t.X[i], k, P), "homology of a node"); REQUIRE_MSG(H.node_data(i).hdim(k) == betti(t.X[i], k, P), "homology of a node"); }
    DM m[3]; for (size_t e = 0; e < 3; e++) { size_t s = Tri::S[e], q = Tri::T[e]; REQUIRE(H.edge_data(e).size() == maxd + 1); m[e] = dense(H.edge_data(e)[k]); REQUIRE_MSG(deq(m[e], dense(h.edge_data(e))), "one and all dimensions agree"); REQUIRE_MSG(m[e].m == betti(t.X[q], k, P) && m[e].n == betti(t.X[s], k, P), "shape"); REQUIRE_MSG(drank(m[e], P) == hrank(t.X[s], t.X[q], mapmat(t.X[s], t.X[q], t.f[e], k, P), k, P), "rank of the induced map"); } REQUIRE_MSG(deq(m[2], dmul(m[0], m[1], P)), "homology of a composition"); obsm(m[2]); } END();
}
template <int P> void dgs(const Tri& t, int degree, int th) {
  typedef CM<P> M; bsx_threads(th); auto C = DGLinearFunctor<M>(t.D, degree); graph(C, t, degree == 1, "graded functor"); for (size_t e = 0; e < 3; e++) for (size_t k = 0; k <= t.X[Tri::S[e]].maxdim(); k++) { DM f = mapmat(t.X[Tri::S[e]], t.X[Tri::T[e]], t.f[e], k, P); REQUIRE_MSG(deq(dense(C.edge_data(e)[k]), degree == 1 ? dT(f) : f), "graded map of an edge"); }
  size_t maxd = t.X[0].maxdim(); auto H = Hom(C, true); graph(H, t, degree == 1, "graded homology functor"); for (size_t k = 0; k <= maxd; k++) { auto h = Hom(C, k); graph(h, t, degree == 1, "graded homology functor in one dimension"); DM m[3]; for (size_t i = 0; i < 3; i++) REQUIRE_MSG(H.node_data(i).hdim(k) == betti(t.X[i], k, P), "homology of a node");
    for (size_t e = 0; e < 3; e++) { size_t s = Tri::S[e], q = Tri::T[e]; REQUIRE(H.edge_data(e).size() == maxd + 1); m[e] = dense(H.edge_data(e)[k]); REQUIRE_MSG(deq(m[e], dense(h.edge_data(e))), "one and all dimensions agree"); size_t bs = betti(t.X[s], k, P), bq = betti(t.X[q], k, P); REQUIRE_MSG(degree == 1 ? (m[e].m == bs && m[e].n == bq) : (m[e].m == bq && m[e].n == bs), "shape"); REQUIRE_MSG(drank(m[e], P) == hrank(t.X[s], t.X[q], mapmat(t.X[s], t.X[q], t.f[e], k, P), k, P), "rank of the induced map"); } REQUIRE_MSG(deq(m[2], degree == 1 ? dmul(m[1], m[0], P) : dmul(m[0], m[1], P)), "homology of a composition"); obsm(m[2]); } END();
}
static const vector<ZV> G2 = {{0, 1}}, G3 = {{0, 1}, {1, 2}, {0, 2}}, T3 = {{0, 1}, {1, 2}, {0, 2}, {0, 1, 2}}, C4 = {{0, 1}, {1, 2}, {2, 3}, {0, 3}};
// a full triangle boundary as fixed first node gives 1-dimensional classes
inline Tri small(int which) { if (which == 0) return tri(2, G2, 2, G2, 2, G2, 1); if (which == 1) return tri(3, G3, 3, G3, 1, {}, 1); return tri(3, T3, 3, T3, 2, G2, 2); }
inline Tri loop(size_t maxd, bool all) { Tri t; for (int i = 0; i < 3; i++) { SC X(3, maxd); for (auto s : vector<ZV>{{0}, {1}, {2}, {0, 1}, {1, 2}, {0, 2}}) X.add(s); if (maxd == 2 && bsx::symb("full")) X.add({0, 1, 2}); t.X.push_back(all || i == 1 ? reorder(X, "order") : X); } auto f = symvmap(3, 3), g = all ? symvmap(3, 3) : vector<vector<size_t>>{{1, 2, 0}, {0, 2, 1}, {0, 0, 2}}[bsx::pick("g", 0, 2)]; legal(t.X[0], t.X[1], f); legal(t.X[1], t.X[2], g); vector<size_t> gf; for (size_t i : f) gf.push_back(g[i]); t.f = {g, f, gf}; t.D = SD(3, 3); for (size_t i = 0; i < 3; i++) t.D.set_node(i, t.X[i]); for (size_t e = 0; e < 3; e++) t.D.set_edge(e, Tri::S[e], Tri::T[e], SimplicialMap(t.X[Tri::S[e]], t.X[Tri::T[e]], t.f[e])); return t; }
// diagrams of covers with refinement maps
inline Cov symcover(size_t ns, size_t np, const char* nm) { Cov c(ns); for (auto& s : c) { for (size_t i = 0; i < np; i++) if (bsx::symb(nm)) s.insert(i); ASSUME(!s.empty()); } return c; }
inline void nerves(size_t n0, size_t n1, size_t np, size_t maxd, int th) {
  Cov a = symcover(n0, np, "a"), b = symcover(n1, np, "b"); auto f = symvmap(n0, n1); for (size_t i = 0; i < n0; i++) for (size_t x : a[i]) ASSUME(b[f[i]].count(x)); Diagram<Cover, vector<size_t>> D(2, 1); D.set_node(0, b); D.set_node(1, a); D.set_edge(0, 1, 0, f); bsx_threads(th); auto N = Nerve(D, maxd); REQUIRE(N.nnode() == 2 && N.nedge() == 1 && N.edge_source(0) == 1 && N.edge_target(0) == 0);
  const Cov* cs[2] = {&b, &a}; for (int q = 0; q < 2; q++) { auto& c = *cs[q]; auto& X = N.node_data(q); size_t tot = 0; for (int m = 1; m < (1 << c.size()); m++) { ZV v = maskset(m); if (v.size() > maxd + 1) continue; bool any = v.size() == 1; for (size_t x = 0; x < np; x++) { bool all = true; for (size_t i : v) all = all && c[i].count(x); any = any || all; } REQUIRE_MSG((X.find_idx(v) != NO_IND) == any, "nerve of a node"); tot += any; } REQUIRE(X.ncells() == tot); }
  for (size_t k = 0; k <= maxd; k++) REQUIRE_MSG(deq(dense(N.edge_data(0)[k]), mapmat(N.node_data(1), N.node_data(0), f, k, 1 << 20).m ? [&] { DM F = mapmat(N.node_data(1), N.node_data(0), f, k, 1 << 20); for (auto& x : F.a) if (x == (1 << 20) - 1) x = -1; return F; }() : DM(N.node_data(0).ncells(k), N.node_data(1).ncells(k))), "map of nerves"); END();
}
// Rips complexes of subsets: induced maps between connected radii
inline vector<size_t> inclusion(const std::set<size_t>& a, const std::set<size_t>& b) { vector<size_t> f; for (size_t x : a) { size_t i = 0; for (size_t y : b) { if (y == x) f.push_back(i); i++; } } return f; }
inline void rips(size_t n, int V, size_t maxd, int mode, int th) {
  W w(n, vector<int>(n, 0)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) w[i][j] = w[j][i] = bsx::sym("d", 0, V); TabDist d; d.w = &w; auto X = numbered(n); std::set<size_t> a, b; for (size_t i = 0; i < n; i++) { bool ib = bsx::symb("b"); if (ib) { b.insert(i); if (bsx::symb("a")) a.insert(i); } } ASSUME(!a.empty()); bool iso = bsx::symb("isolated");
  typedef Diagram<std::set<size_t>, vector<size_t>> DS; size_t nn = iso ? 3 : 2; DS D(nn, 1); D.set_node(0, b); D.set_node(1, a); if (iso) D.set_node(2, b); D.set_edge(0, 1, 0, inclusion(a, b)); int r1 = bsx::sym("r", 0, V), r0 = r1; if (mode) { r0 = bsx::sym("r0", 0, V); } vector<double> r{(double)r0, (double)r1, (double)r0}; vector<int> ri{r0, r1, r0}; const std::set<size_t>* sets[3] = {&b, &a, &b}; bsx_threads(th);
  auto okcpx = [&](const SC& K, int q, size_t md_) { auto& s = *sets[q]; ZV v(s.begin(), s.end()); size_t tot = 0; for (int m = 1; m < (1 << v.size()); m++) { ZV u = maskset(m); if (u.size() > md_ + 1) continue; bool in = true; for (size_t x : u) for (size_t y : u) in = in && w[v[x]][v[y]] <= ri[q]; REQUIRE_MSG((K.find_idx(u) != NO_IND) == in, "Rips complex of a node"); tot += in; } REQUIRE(K.ncells() == tot); };
  auto cpx = [&](int q, size_t md_) { auto& s = *sets[q]; ZV v(s.begin(), s.end()); SC K(v.size(), md_); for (size_t sz = 1; sz <= md_ + 1; sz++) for (int m = 1; m < (1 << v.size()); m++) { ZV u = maskset(m); if (u.size() != sz) continue; bool in = true; for (size_t x : u) for (size_t y : u) in = in && w[v[x]][v[y]] <= ri[q]; if (in) K.add(u); } return K; };
  if (mode == 2) { bool threw = false; size_t h0 = 0, h1 = 0, rk = 0, h2 = 0; try { auto H = RipsHom(D, X, d, r, maxd, ModP<int, 2>()); REQUIRE(H.nnode() == nn && H.nedge() == 1 && H.edge_source(0) == 1 && H.edge_target(0) == 0); h0 = H.node_data(0); h1 = H.node_data(1); if (iso) h2 = H.node_data(2); rk = drank(dense(H.edge_data(0)), 2); } catch (const std::range_error&) { threw = true; } REQUIRE_MSG(threw == (r0 < r1), "decreasing radii are refused"); if (!threw) { SC A = cpx(1, maxd + 1), B = cpx(0, maxd + 1); REQUIRE_MSG(h0 == betti(B, maxd, 2) && h1 == betti(A, maxd, 2), "dimensions of homology"); if (iso) REQUIRE_MSG(h2 == h0, "dimension of a node without edges"); REQUIRE_MSG(rk == hrank(A, B, mapmat(A, B, inclusion(a, b), maxd, 2), maxd, 2), "rank of the map of Rips homology"); } END(); return; }
  SD R; bool threw = false; try { R = mode ? Rips(D, X, d, r, maxd) : Rips(D, X, d, (double)r1, maxd); } catch (const std::range_error&) { threw = true; } REQUIRE_MSG(threw == (r0 < r1), "decreasing radii are refused"); if (threw) { END(); return; } REQUIRE(R.nnode() == nn && R.nedge() == 1 && R.edge_source(0) == 1 && R.edge_target(0) == 0); for (size_t q = 0; q < nn; q++) okcpx(R.node_data(q), (int)q, maxd);
  for (size_t k = 0; k <= maxd; k++) { DM F = mapmat(R.node_data(1), R.node_data(0), inclusion(a, b), k, 2), E = dense(R.edge_data(0)[k]); for (auto& x : E.a) REQUIRE(x == 0 || x == 1); REQUIRE_MSG(deq(E, F), "inclusion of Rips complexes"); } END();
}
#define FP(nm, which) BSX_ENTRY(c2_##nm) { chains<2>(small(which), 2); } BSX_ENTRY(h2_##nm) { dgs<2>(small(which), -1, 2); } BSX_ENTRY(co2_##nm) { dgs<2>(small(which), 1, 2); }
FP(e, 0) FP(g, 1)
BSX_ENTRY(c3_l) { chains<3>(loop(1, false), 1); }
BSX_ENTRY(h3_l) { dgs<3>(loop(1, false), -1, 1); }
BSX_ENTRY(co3_l) { dgs<3>(loop(1, false), 1, 1); }
BSX_ENTRY(n22) { nerves(2, 2, 2, 1, 2); }
BSX_ENTRY(n32) { nerves(3, 2, 2, 2, 1); }
BSX_ENTRY(r0) { rips(3, 2, 2, 0, 2); }
BSX_ENTRY(r1) { rips(3, 2, 1, 1, 2); }
BSX_ENTRY(rh0) { rips(3, 2, 0, 2, 1); }
BSX_ENTRY(rh1) { rips(3, 1, 1, 2, 2); }
#if BSX_TIER
BSX_ENTRY(ta) { chains<3>(loop(1, true), 1); }
BSX_ENTRY(tah) { dgs<3>(loop(1, true), -1, 1); }
BSX_ENTRY(tac) { dgs<3>(loop(1, true), 1, 1); }
BSX_ENTRY(tc2) { chains<2>(small(2), 3); }
BSX_ENTRY(th2) { dgs<2>(small(2), -1, 3); }
BSX_ENTRY(tco2) { dgs<2>(small(2), 1, 3); }
BSX_ENTRY(tl2) { chains<3>(loop(2, false), 2); }
BSX_ENTRY(tlh2) { dgs<3>(loop(2, false), -1, 2); }
BSX_ENTRY(tlc2) { dgs<3>(loop(2, false), 1, 2); }
BSX_ENTRY(tn) { nerves(3, 3, 2, 2, 2); }
BSX_ENTRY(tr) { rips(4, 1, 2, 1, 2); }
BSX_ENTRY(trh) { rips(4, 1, 1, 2, 2); }
#endif
