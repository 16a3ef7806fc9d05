// C24: union-find computes the 0-dimensional barcode
#include "filt.hpp"
using namespace bats;
typedef vector<size_t> ZV;
// 0-dimensional bars: births at every vertex, finite deaths counted by persistent Betti numbers
inline void dim0(const vector<PersistencePair<double>>& ps, vector<DM> B, IV v, int V, const char* what) { if (B.size() == 1) { B.push_back(DM(B[0].n, 0)); v.push_back({}); }
  REQUIRE_MSG(ps.size() == B[0].n, what); vector<int> used(B[0].n, 0), dead(B[1].n, 0);
  for (auto& x : ps) { REQUIRE_MSG(x.dim == 0 && x.birth_ind < B[0].n, what); REQUIRE_MSG(x.birth == (double)v[0][x.birth_ind], "birth value"); used[x.birth_ind]++; if (x.death_ind == NO_IND) REQUIRE_MSG(x.death > (double)V, "infinite bar"); else { REQUIRE_MSG(x.death_ind < B[1].n, what); REQUIRE_MSG(x.death == (double)v[1][x.death_ind], "death value"); REQUIRE_MSG(x.birth <= x.death, "birth before death"); dead[x.death_ind]++; } }
  for (int u : used) REQUIRE_MSG(u == 1, what); for (int u : dead) REQUIRE_MSG(u <= 1, what);
  for (int s = 0; s <= V; s++) for (int t = s; t <= V; t++) { size_t c = 0; for (auto& x : ps) if (x.birth <= (double)s && x.death > (double)t) c++; REQUIRE_MSG(c == pbetti(B, v, 0, s, t, 2), what); }
}
// any filtration of any graph; cells stored in any order
inline void graph(int nv, const vector<ZV>& cand, int V, size_t maxd, double off = 0) {
  SimplicialComplex X = symsimp(nv, cand, "has", maxd); vector<DM> B = bdense(X, 2); IV v = symvals(B, V); auto vd = todouble(v); if (off != 0) for (auto& x : vd) for (auto& y : x) y += off; Filtration<double, SimplicialComplex> F(X, vd); auto C = Chain(F, ModP<int, 2>()); auto ps = union_find_pairs(C); auto shifted = ps; if (off != 0) for (auto& x : shifted) { x.birth -= off; x.death -= off; } dim0(shifted, B, v, V, "union find"); auto C3 = Chain(F, ModP<int, 3>()); auto p3 = union_find_pairs(C3); REQUIRE(p3.size() == ps.size());
  // the same bars as the reduction algorithm, cell by cell
  auto R = Reduce(F, ModP<int, 2>()); auto rp = R.persistence_pairs(0); REQUIRE(rp.size() == ps.size()); for (auto& x : ps) { bool is = false; for (auto& y : rp) is |= x.birth_ind == y.birth_ind && x.death_ind == y.death_ind; REQUIRE_MSG(is, "same pair as the reduction"); bsx::obs(x.birth_ind); bsx::obs(x.death_ind); } for (size_t i = 0; i < ps.size(); i++) REQUIRE(p3[i].birth_ind == ps[i].birth_ind && p3[i].death_ind == ps[i].death_ind); END();
}
// every sequence of m distinct edges on n vertices, all at the same value: against component labels
inline void edges(int n, int m) {
  vector<std::pair<size_t, size_t>> all, es; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) all.push_back({i, j}); vector<int> used(all.size(), 0); SimplicialComplex X(n, 1); for (size_t i = 0; i < (size_t)n; i++) X.add({i});
  for (int k = 0; k < m; k++) { int q = bsx::pick("edge", 0, (int)all.size() - 1); ASSUME(!used[q]); used[q] = 1; es.push_back(all[q]); vector<size_t> s{all[q].first, all[q].second}; X.add(s); }
  vector<vector<double>> v{vector<double>(n, 0.), vector<double>(m, 1.)}; for (int k = 0; k < m; k++) v[1][k] = 1. + k; Filtration<double, SimplicialComplex> F(X, v); auto ps = union_find_pairs(Chain(F, ModP<int, 2>())); REQUIRE(ps.size() == (size_t)n);
  vector<int> c(n); vector<size_t> want(n, NO_IND); for (int i = 0; i < n; i++) c[i] = i; for (int k = 0; k < m; k++) { int a = c[es[k].first], b = c[es[k].second]; if (a == b) continue; int o = a < b ? b : a, w = a < b ? a : b; want[o] = k; for (int& x : c) if (x == o) x = w; }
  for (auto& x : ps) { REQUIRE_MSG(x.birth_ind < (size_t)n && x.death_ind == want[x.birth_ind], "the younger component dies at the merging edge"); REQUIRE(x.death_ind == NO_IND || x.death == 1. + x.death_ind); bsx::obs(x.death_ind); } END();
}
// squareform indices
inline void binom(size_t N) { size_t k = 0; for (size_t i = 0; i < N; i++) for (size_t j = i + 1; j < N; j++) { auto [a, b] = binom_to_inds(k, N); REQUIRE_MSG(a == i && b == j, "index pair"); k++; } bsx::obs(k); END(); }
// Rips: any distances, any order compatible with them
inline void rips(int n, int V) {
  vector<int> d; vector<double> val; vector<vector<int>> w(n, vector<int>(n, 0)); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { int x = bsx::sym("d", 0, V); w[i][j] = w[j][i] = x; d.push_back(x); val.push_back((double)x); }
  auto p = symperm("order", d.size()); for (size_t i = 0; i + 1 < p.size(); i++) ASSUME(d[p[i]] <= d[p[i + 1]]); auto ps = rips_union_find_pairs(p, val); REQUIRE(ps.size() == (size_t)n);
  // components of each threshold graph
  for (int t = 0; t <= V; t++) { vector<int> c(n); for (int i = 0; i < n; i++) c[i] = i; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (w[i][j] <= t && c[i] != c[j]) { int o = c[j], q = c[i]; for (int& x : c) if (x == o) x = q; } std::set<int> s(c.begin(), c.end()); size_t a = 0; for (auto& x : ps) { REQUIRE(x.birth == 0. && x.dim == 0); a += x.death > (double)t; } REQUIRE_MSG(a == s.size(), "bars alive at a threshold are the components"); }
  size_t inf = 0; for (auto& x : ps) inf += x.death_ind == NO_IND; REQUIRE(inf == 1); for (auto& x : ps) bsx::obs(x.death_ind); END();
}
BSX_ENTRY(g1) { graph(1, {}, 1, 1); }
BSX_ENTRY(g2) { graph(2, {{0, 1}}, 2, 1); }
BSX_ENTRY(g3) { graph(3, {{0, 1}, {1, 2}, {0, 2}}, 2, 1); }
BSX_ENTRY(g3t) { graph(3, {{0, 2}, {1, 2}, {0, 1}, {0, 1, 2}}, 1, 2); }
// values too close for single precision
BSX_ENTRY(g3c) { graph(3, {{0, 1}, {1, 2}}, 1, 1, 1073741824.); }
BSX_ENTRY(g0) { graph(2, {}, 1, 0); }
BSX_ENTRY(g4) { graph(4, {{0, 1}, {2, 3}, {1, 2}, {0, 3}}, 1, 1); }
BSX_ENTRY(e5) { edges(5, 4); }
BSX_ENTRY(bin) { size_t N = (size_t)bsx::pick("N", 2, 20); binom(N); }
BSX_ENTRY(r3) { rips(3, 3); }
BSX_ENTRY(r4) { rips(4, 1); }
#if BSX_TIER
BSX_ENTRY(te5) { edges(5, 5); }
BSX_ENTRY(te6) { edges(6, 4); }
BSX_ENTRY(tg4) { graph(4, {{0, 1}, {0, 2}, {2, 3}, {1, 2}, {0, 3}}, 2, 1); }
BSX_ENTRY(tbin) { size_t N = (size_t)bsx::pick("N", 21, 60); binom(N); }
BSX_ENTRY(tr4) { rips(4, 3); }
#endif
