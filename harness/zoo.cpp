// C37: zigzags of nested samples (discrete Morozov, oscillating), products and subdivisions of spaces
#include "simp.hpp"
#include <stdexcept>
using namespace bats;
typedef vector<vector<int>> W; typedef vector<size_t> VM; typedef Diagram<std::set<size_t>, VM> SetD;
struct TabDist : AbstractMetric<TabDist> { const W* w; template <typename S> S dist(const VectorView<S>& x, const VectorView<S>& y) const { return (S)(*w)[(size_t)x(0)][(size_t)y(0)]; } };
inline DataSet<double> numbered(size_t n) { Matrix<double> P(n, 1); for (size_t i = 0; i < n; i++) P(i, 0) = (double)i; return DataSet<double>(P); }
// solver-enumerated distances (all of them positive unless lo = 0)
inline W pickdist(size_t n, int lo, int V) { W w(n, vector<int>(n, 0)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) w[i][j] = w[j][i] = bsx::pick("d", lo, V); return w; }
inline int cover(const W& w, const std::set<size_t>& s) { int m = 0; for (size_t x = 0; x < w.size(); x++) { int b = 1 << 20; for (size_t i : s) if (w[i][x] < b) b = w[i][x]; if (b > m) m = b; } return m; }
inline int toset(const W& w, const std::set<size_t>& s, size_t x) { int m = 1 << 20; for (size_t i : s) if (w[i][x] < m) m = w[i][x]; return m; }
inline bool near(double a, double b) { double d = a - b; return d < 1e-9 && d > -1e-9; }
// the shape shared by both zigzags: S_0 -> S_1 <- S_1 -> S_2 <- ...; edges are inclusions; returns the nested sets
template <class D> void shape(const D& G, size_t nodes) { REQUIRE_MSG(nodes % 2 == 1 && G.nnode() == nodes && G.nedge() == nodes - 1, "shape of the zigzag"); for (size_t e = 0; e + 1 < nodes; e++) REQUIRE_MSG(G.edge_source(e) == (e % 2 ? e + 1 : e) && G.edge_target(e) == (e % 2 ? e : e + 1), "arrows point to odd nodes"); }
inline vector<std::set<size_t>> nested(const SetD& G) {
  shape(G, G.nnode()); vector<std::set<size_t>> S; for (size_t j = 0; j < G.nnode(); j += 2) S.push_back(G.node_data(j)); for (size_t j = 1; j < G.nnode(); j += 2) REQUIRE_MSG(G.node_data(j) == S[(j + 1) / 2], "an odd node holds the larger set");
  for (size_t e = 0; e < G.nedge(); e++) { auto& s = G.node_data(G.edge_source(e)); vector<size_t> t(G.node_data(G.edge_target(e)).begin(), G.node_data(G.edge_target(e)).end()); auto& f = G.edge_data(e); REQUIRE(f.size() == s.size()); size_t i = 0; for (size_t x : s) { REQUIRE_MSG(f[i] < t.size() && t[f[i]] == x, "edges are inclusions"); i++; } } return S;
}
// every prefix of a greedy (farthest point) ordering adds a point farthest from those before
inline bool greedystep(const W& w, const std::set<size_t>& a, const std::set<size_t>& b) { for (size_t i : a) if (!b.count(i)) return false; std::set<size_t> s = a; while (s.size() < b.size()) { // some order of the new points is greedy
    int far = cover(w, s); bool ok = false; for (size_t x : b) if (!s.count(x) && toset(w, s, x) == far) { s.insert(x); ok = true; break; } if (!ok) return false; } return true; }
inline void start(const W& w, const std::set<size_t>& s, const DataSet<double>& X, const TabDist& d) { REQUIRE_MSG(s.size() == 1 && *s.begin() == approx_center(X, d), "the first set is an approximate center"); (void)w; }
inline void oscillating(size_t n, int lo, int V) {
  W w = pickdist(n, lo, V); TabDist d; d.w = &w; auto X = numbered(n); int rho = bsx::pick("rho", 1, 3), eta = bsx::pick("eta", 1, 3);
  if (rho < eta) { bool threw = false; try { OscillatingRipsZigzagSets(X, d, (double)rho, (double)eta); } catch (const std::runtime_error&) { threw = true; } REQUIRE_MSG(threw, "eta larger than rho is refused"); END(); return; }
  auto [G, r] = OscillatingRipsZigzagSets(X, d, (double)rho, (double)eta); auto S = nested(G); REQUIRE_MSG(S.size() == n && r.size() == 2 * n - 1, "one set for every point"); start(w, S[0], X, d);
  for (size_t i = 0; i < n; i++) { REQUIRE(S[i].size() == i + 1); if (i) REQUIRE_MSG(greedystep(w, S[i - 1], S[i]), "farthest points first"); REQUIRE_MSG(r[2 * i] == (double)(eta * cover(w, S[i])), "radius at a set"); if (i + 1 < n) REQUIRE_MSG(r[2 * i + 1] == (double)(rho * cover(w, S[i])), "radius between sets"); }
  auto R = Rips(G, X, d, r, 1); for (size_t j = 0; j < G.nnode(); j++) { vector<size_t> v(G.node_data(j).begin(), G.node_data(j).end()); size_t e = 0; for (size_t a = 0; a < v.size(); a++) for (size_t b = a + 1; b < v.size(); b++) e += (double)w[v[a]][v[b]] <= r[j]; REQUIRE_MSG(R.node_data(j).ncells(0) == v.size() && R.node_data(j).ncells(1) == e, "Rips complex of a node"); bsx::obs(e); } END();
}
// prefixes are kept when the covering radius has dropped by the factor
inline void morozov(size_t n, int lo, int V, size_t dmax) {
  W w = pickdist(n, lo, V); TabDist d; d.w = &w; auto X = numbered(n); double rho = bsx::pick("rho", 1, 2) == 1 ? 1 : 10; double theta = std::sqrt(1.0 / 3.0), f = (3 * rho + 20) / (10 * theta * rho + 20);
  auto [G, r] = DiscreteMorozovZigzagSets(X, d, rho); auto S = nested(G); REQUIRE(r.size() == G.nnode()); start(w, S[0], X, d); REQUIRE_MSG(S.back().size() == n, "the last set holds every point");
  for (size_t i = 0; i < S.size(); i++) { double c = cover(w, S[i]); REQUIRE_MSG(near(r[2 * i], rho * c), "radius at a set"); if (i + 1 < S.size()) { REQUIRE_MSG(near(r[2 * i + 1], rho * c), "radius between sets is that of the smaller one"); REQUIRE_MSG(greedystep(w, S[i], S[i + 1]) && S[i].size() < S[i + 1].size(), "farthest points first");
      REQUIRE_MSG((double)cover(w, S[i + 1]) <= f * c + 1e-9, "the covering radius drops by the factor"); std::set<size_t> s = S[i]; while (s.size() + 1 < S[i + 1].size()) { int far = cover(w, s); for (size_t x : S[i + 1]) if (!s.count(x) && toset(w, s, x) == far) { s.insert(x); break; } REQUIRE_MSG((double)cover(w, s) > f * c - 1e-9, "no prefix before it has dropped by the factor"); } } }
  auto [R, r2] = DiscreteMorozovZigzag(X, d, rho, dmax); REQUIRE(r2 == r); shape(R, G.nnode());
  for (size_t j = 0; j < G.nnode(); j++) { vector<size_t> v(G.node_data(j).begin(), G.node_data(j).end()); for (int t = 1; t < (1 << v.size()); t++) { ZV s = maskset(t); if (s.size() > dmax + 1) continue; bool in = true; for (size_t a : s) for (size_t b : s) in = in && (a == b || (double)w[v[a]][v[b]] <= r[j]); REQUIRE_MSG((R.node_data(j).find_idx(s) != NO_IND) == in, "Rips complex of a node"); } bsx::obs(R.node_data(j).ncells()); }
  for (size_t e = 0; e < G.nedge(); e++) { auto& A0 = R.node_data(R.edge_source(e)); auto& B0 = R.node_data(R.edge_target(e)); auto& g = G.edge_data(e); for (size_t k = 0; k <= A0.maxdim() && k <= dmax; k++) { DM M = dense(ColumnMatrix<SparseVector<int>>(R.edge_data(e)[k])); REQUIRE(M.m == B0.ncells(k) && M.n == A0.ncells(k)); for (size_t j = 0; j < A0.ncells(k); j++) { ZV s; for (size_t x : A0.get_simplex(k, j)) s.push_back(g[x]); size_t t = B0.find_idx(s); for (size_t i = 0; i < M.m; i++) REQUIRE_MSG(M(i, j) == (i == t), "inclusion of complexes"); } } } END();
}
BSX_ENTRY(osc3) { oscillating(3, 0, 3); }
BSX_ENTRY(osc4) { oscillating(4, 1, 2); }
BSX_ENTRY(osc1) { oscillating(bsx::pick("n", 1, 2), 0, 2); }
BSX_ENTRY(dm1) { morozov(bsx::pick("n", 1, 2), 0, 3, 1); }
BSX_ENTRY(dm3) { morozov(3, 0, 4, 2); }
BSX_ENTRY(dm4) { morozov(4, 1, 3, 1); }
// products of point sets: every pair once, coordinates of the first before those of the second
inline void product(size_t nx, size_t dx, size_t ny, size_t dy) { Matrix<double> a(nx, dx), b(ny, dy); W u(nx, vector<int>(dx)), v(ny, vector<int>(dy)); for (size_t i = 0; i < nx; i++) for (size_t j = 0; j < dx; j++) a(i, j) = u[i][j] = bsx::sym("a", -9, 9); for (size_t i = 0; i < ny; i++) for (size_t j = 0; j < dy; j++) b(i, j) = v[i][j] = bsx::sym("b", -9, 9);
  auto Z = product_space(DataSet<double>(a), DataSet<double>(b)); REQUIRE_MSG(Z.size() == nx * ny && Z.dim() == dx + dy, "size of a product"); for (size_t i = 0; i < nx; i++) for (size_t j = 0; j < ny; j++) for (size_t k = 0; k < dx + dy; k++) REQUIRE_MSG(Z(i * ny + j, k) == (double)(k < dx ? u[i][k] : v[j][k - dx]), "coordinates of a product"); END(); }
BSX_ENTRY(prod1) { product(2, 1, 3, 2); }
BSX_ENTRY(prod2) { product(3, 2, 1, 1); }
BSX_ENTRY(prod3) { product(1, 3, 2, 1); }
// equally spaced points
BSX_ENTRY(ends) { int lo = bsx::pick("lo", -3, 3), n = bsx::pick("n", 1, 6), hi = bsx::pick("hi", -3, 5); auto X = interval((double)lo, (double)hi, (size_t)n); REQUIRE(X.size() == (size_t)n && X.dim() == 1); for (int i = 0; i < n; i++) REQUIRE_MSG(near(X(i, 0), n == 1 ? lo : lo + (hi - lo) * (double)i / (n - 1)), "equally spaced"); END(); }
// the Sierpinski subdivision: cell complexes with 3^i loops and subdivision maps, which are chain maps doubling no class
template <int P> void sierpinski(size_t k) {
  typedef CM<P> M; auto D = serpinski_diagram(k); REQUIRE(D.nnode() == k && D.nedge() == k - 1); size_t q = 1; typedef ColumnMatrix<SparseVector<int>> Z;
  auto bd = [](const CellComplex& X, size_t d) { return dense(Z(X.boundary_csc(d))); };
  for (size_t i = 0; i < k; i++, q *= 3) { auto& X = D.node_data(i); REQUIRE_MSG(X.ncells(0) == 3 * (q + 1) / 2 && X.ncells(1) == 3 * q && X.ncells(2) == (q - 1) / 2, "cells of a subdivision"); ChainComplex<M> C(X); REQUIRE(C.is_valid_complex()); vector<DM> B; for (size_t d = 0; d <= X.maxdim(); d++) { REQUIRE(wfm(C[d])); B.push_back(d ? dense(C[d]) : DM(1, X.ncells(0))); } size_t b[3]; for (size_t d = 0; d < 3; d++) b[d] = d < B.size() ? B[d].n - (d ? drank(B[d], P) : 0) - (d + 1 < B.size() ? drank(B[d + 1], P) : 0) : 0; REQUIRE_MSG(b[0] == 1 && b[1] == q && b[2] == 0, "one loop for every small triangle"); bsx::obs(b[1]);
    if (i + 1 < k) { REQUIRE(D.edge_source(i) == i && D.edge_target(i) == i + 1); auto& F = D.edge_data(i); auto& Y = D.node_data(i + 1); for (size_t d = 0; d <= 2; d++) { DM f = dense(Z(F[d])); REQUIRE_MSG(wfm(Z(F[d])) && f.m == Y.ncells(d) && f.n == X.ncells(d), "map of a subdivision"); if (!d || !f.n) continue; DM g = dense(Z(F[d - 1])), l = dmul(g, bd(X, d), 1 << 20), r = dmul(bd(Y, d), f, 1 << 20); REQUIRE_MSG(deq(l, r), "subdivision commutes with the boundary"); }
      ReducedChainComplex<M> RX(C), RY{ChainComplex<M>(Y)}; REQUIRE_MSG(drank(dense(induced_map(ChainMap<M>(F), RX, RY, 1)), P) == q, "loops stay independent"); } } END();
}
BSX_ENTRY(sier2) { sierpinski<2>((size_t)bsx::pick("k", 1, 3)); }
BSX_ENTRY(sier3) { sierpinski<3>((size_t)bsx::pick("k", 1, 3)); }
#if BSX_TIER
BSX_ENTRY(tosc) { oscillating(4, 0, 3); }
BSX_ENTRY(tdm) { morozov(4, 0, 4, 2); }
BSX_ENTRY(tdm5) { morozov(5, 1, 2, 1); }
BSX_ENTRY(tsier) { sierpinski<3>(4); }
#endif
