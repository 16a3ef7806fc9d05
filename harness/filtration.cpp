// C35: filtrations record exactly the cells added with their values; sublevel sets, unions and lower-star extensions
#include "simp.hpp"
#include <filtration/extension.hpp>
using namespace bats;
typedef LightSimplicialComplex<size_t> LC;
// contents and values agree with a model map from cells to values
template <class Cpx> void agree(const Filtration<double, Cpx>& F, const SM& m, const vector<vector<int>>& v, const char* what) {
  const Cpx& X = F.complex(); REQUIRE_MSG(X.ncells() == m.total(), what); for (size_t k = 0; k < m.s.size(); k++) { if (m.s[k].empty()) { REQUIRE_MSG(k > F.maxdim() || F.ncells(k) == 0, what); continue; } REQUIRE_MSG(F.ncells(k) == m.s[k].size() && X.ncells(k) == m.s[k].size(), what); for (size_t i = 0; i < m.s[k].size(); i++) { REQUIRE_MSG(X.get_simplex(k, i) == m.s[k][i], what); REQUIRE_MSG(F.vals(k)[i] == (double)v[k][i], what); } }
  for (size_t k = m.s.size(); k <= F.maxdim(); k++) REQUIRE_MSG(F.ncells(k) == 0, what);
}
struct FM { SM m; vector<vector<int>> v; void set(const ZV& s, int t) { size_t i = m.find(s); if (i == NO_IND) { i = m.put(s); while (v.size() < m.s.size()) v.push_back({}); v[s.size() - 1].push_back(t); } else v[s.size() - 1][i] = t; } };
inline void subsets(const ZV& s, vector<ZV>& out) { for (int t = 1; t < (1 << s.size()); t++) { ZV f; for (size_t i = 0; i < s.size(); i++) if (t >> i & 1) f.push_back(s[i]); out.push_back(f); } }
// a sequence of additions with symbolic values (plain additions with missing faces are refused and change nothing)
template <class Cpx> void ops(int nv, int steps, size_t maxd) {
  Filtration<double, Cpx> F(nv, maxd); FM M; for (size_t k = 0; k <= maxd; k++) { M.m.s.push_back({}); M.v.push_back({}); }
  for (int st = 0; st < steps; st++) {
    int mask = bsx::pick("s", 1, (1 << nv) - 1), t = bsx::sym("t", 0, 3), rec = bsx::symb("rec"); ZV s = maskset(mask); ASSUME(s.size() <= maxd + 1); ZV arg = s;
    if (!rec) { bool ok = M.m.hasfaces(s); if (!std::is_same<Cpx, SimplicialComplex>::value) ASSUME(ok); cell_ind r = F.add((double)t, arg); if (ok) { M.set(s, t); REQUIRE_MSG(r.dim == s.size() - 1 && r.ind == M.m.find(s), "index of the added cell"); } else REQUIRE_MSG(r.ind == NO_IND, "refused"); }
    else { vector<ZV> fs; subsets(s, fs); vector<ZV> fresh; for (auto& f : fs) if (M.m.find(f) == NO_IND) fresh.push_back(f); bool had = M.m.find(s) != NO_IND; auto r = F.add_recursive((double)t, arg);
      // the order in which missing faces receive indices is free: read it back
      const Cpx& X = F.complex(); vector<vector<ZV>> byind(maxd + 1); for (auto& f : fresh) { size_t i = X.find_idx(f); REQUIRE_MSG(i != NO_IND && i < X.ncells(f.size() - 1), "face present after recursive addition"); } for (size_t k = 0; k <= maxd; k++) for (size_t i = M.m.s[k].size(); i < X.ncells(k); i++) { ZV f = X.get_simplex(k, i); bool is = false; for (auto& g : fresh) is |= g == f; REQUIRE_MSG(is, "only faces are added"); M.set(f, t); }
      if (had) { size_t i = M.m.find(s); double w = F.vals(s.size() - 1)[i]; REQUIRE_MSG(w == (double)M.v[s.size() - 1][i] || w == (double)t, "value of a cell that was present"); if (w != (double)M.v[s.size() - 1][i]) M.v[s.size() - 1][i] = t; } }
    agree(F, M.m, M.v, "after addition");
  }
  auto G = F; ZV full = maskset((1 << (maxd + 1)) - 1); G.add_recursive(9.0, full); agree(F, M.m, M.v, "copies are independent"); bsx::obs(M.m.total()); END();
}
// sublevel sets of a monotone filtration; sort permutations; union of filtrations; value updates
template <class Cpx> void levels(int nv, const vector<ZV>& cand, int V) {
  SimplicialComplex X0 = symsimp(nv, cand, "x", 2); SimplicialComplex X = reorder(X0, "ord"); vector<DM> B = bdense(X, 2); IV v = symvals(B, V); Cpx Y(nv, 2); for (size_t k = 0; k <= 2; k++) for (auto s : X.get_simplices(k)) Y.add(s);
  Filtration<double, Cpx> F(Y, todouble(v)); int a = bsx::sym("a", -1, V); Cpx L = F.sublevelset((double)a); size_t tot = 0; for (size_t k = 0; k <= 2; k++) for (size_t i = 0; i < X.ncells(k); i++) { auto s = X.get_simplex(k, i); bool in = L.find_idx(s) != NO_IND; REQUIRE_MSG(in == (v[k][i] <= a), "sublevel set"); tot += in; } REQUIRE(L.ncells() == tot);
  auto p = F.sortperm(); REQUIRE(p.size() == F.maxdim() + 1); for (size_t k = 0; k < p.size(); k++) { REQUIRE(p[k].size() == F.ncells(k)); auto q = F.sortperm(k); REQUIRE(q == p[k]); for (size_t i = 0; i + 1 < q.size(); i++) REQUIRE_MSG(v[k][q[i]] < v[k][q[i + 1]] || (v[k][q[i]] == v[k][q[i + 1]] && q[i] < q[i + 1]), "stable sort permutation"); auto ip = filtration_iperm(p); for (size_t i = 0; i < q.size(); i++) REQUIRE(ip[k][q[i]] == i); }
  IV v2 = symvals(B, 1, "u"); F.update_filtration(todouble(v2)); for (size_t k = 0; k <= 2; k++) for (size_t i = 0; i < X.ncells(k); i++) REQUIRE(F.vals(k)[i] == (double)v2[k][i] && F.vals()[k][i] == (double)v2[k][i]); bsx::obs(tot); END();
}
template <class Cpx> void unions(int nv, const vector<ZV>& cand) {
  SimplicialComplex A = symsimp(nv, cand, "a", 2, true), B = symsimp(nv, cand, "b", 2, true); FM M; Filtration<double, Cpx> F(nv, 2), G(nv, 2); for (auto s : A.get_simplices()) { F.add((double)s.size(), s); M.set(s, (int)s.size()); } for (auto s : B.get_simplices()) { G.add((double)(10 + s.size()), s); } F.union_add(G); for (auto s : B.get_simplices()) { M.set(s, 10 + (int)s.size()); }
  const Cpx& X = F.complex(); size_t tot = 0; for (int t = 1; t < (1 << nv); t++) { ZV s = maskset(t); if (s.size() > 3) continue; bool in = A.find_idx(s) != NO_IND || B.find_idx(s) != NO_IND; size_t i = X.find_idx(s); REQUIRE_MSG((i != NO_IND) == in, "union of filtrations"); if (in) REQUIRE_MSG(F.vals(s.size() - 1)[i] == (double)(B.find_idx(s) != NO_IND ? 10 + s.size() : s.size()), "value in the union"); tot += in; } REQUIRE(X.ncells() == tot); bsx::obs(tot); END();
}
// lower star filtrations: every simplex gets the largest value of its vertices, with the vertex attaining it
template <class Cpx> void lower(int nv, const vector<ZV>& cand, int V) {
  SimplicialComplex X0 = symsimp(nv, cand, "x", 2); SimplicialComplex X = reorder(X0, "ord"); Cpx Y(nv, 2); for (size_t k = 0; k <= 2; k++) for (auto s : X.get_simplices(k)) Y.add(s); vector<int> f; vector<double> fd; for (int i = 0; i < nv; i++) { f.push_back(bsx::sym("f", 0, V)); fd.push_back((double)f.back()); }
  auto [vals, inds] = lower_star_filtration(Y, fd); REQUIRE(vals.size() == Y.maxdim() + 1 && inds.size() == vals.size()); vector<int> w(nv, 0);
  for (size_t k = 0; k < vals.size(); k++) { REQUIRE(vals[k].size() == Y.ncells(k) && inds[k].size() == Y.ncells(k)); for (size_t i = 0; i < vals[k].size(); i++) { auto s = Y.get_simplex(k, i); int m = 0; bool in = false; for (size_t x : s) { if (f[x] > m) m = f[x]; in |= x == inds[k][i]; } REQUIRE_MSG(vals[k][i] == (double)m, "lower star value"); REQUIRE_MSG(in && f[inds[k][i]] == m, "vertex attaining the value"); } }
  // pulling back a gradient: each entry is added at the vertex of its cell
  if (Y.ncells(1)) { int b = bsx::pick("b", 0, (int)Y.ncells(0) - 1), d = bsx::pick("d", -1, (int)Y.ncells(1) - 1); vector<vector<double>> g{{1., 2.}}; vector<vector<int>> bd{{b, d}}; auto df = lower_star_backwards(g, bd, inds); REQUIRE(df.size() == (size_t)nv); for (int i = 0; i < nv; i++) { double e = 0; if ((int)inds[0][b] == i) e += 1; if (d >= 0 && (int)inds[1][d] == i) e += 2; REQUIRE_MSG(df[i] == e, "gradient"); } } END();
}
// cubical filtrations: sublevel sets and lower star in two dimensions
inline void cubes(int V) {
  CubicalComplex X(2); auto rec = [&](ZV c) { X.add_recursive(c); }; rec({0, 1, 0, 1}); if (bsx::symb("more")) rec({1, 2, 0, 1}); if (bsx::symb("e")) rec({1, 1, 1, 2}); vector<vector<double>> f(3, vector<double>(3)); vector<vector<int>> fi(3, vector<int>(3)); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { fi[i][j] = i == 2 || j == 2 ? 1 : bsx::sym("f", 0, V); f[i][j] = fi[i][j]; }
  auto vals = lower_star_filtration(X, f); REQUIRE(vals.size() == 3); for (size_t k = 0; k <= 2; k++) { REQUIRE(vals[k].size() == X.ncells(k)); for (size_t i = 0; i < X.ncells(k); i++) { ZV c = X.get_cube(k, i); int m = 0; for (size_t x : {c[0], c[1]}) for (size_t y : {c[2], c[3]}) if (fi[x][y] > m) m = fi[x][y]; REQUIRE_MSG(vals[k][i] == (double)m, "lower star value of a cube"); } }
  Filtration<double, CubicalComplex> F(X, vals); int a = bsx::sym("a", 0, V); auto L = F.sublevelset((double)a); size_t tot = 0; for (size_t k = 0; k <= 2; k++) for (size_t i = 0; i < X.ncells(k); i++) { bool in = L.find_idx(X.get_cube(k, i)) != NO_IND; REQUIRE_MSG(in == (vals[k][i] <= (double)a), "cubical sublevel set"); tot += in; } REQUIRE(L.ncells() == tot); bsx::obs(tot);
  vector<vector<vector<double>>> f3(2, vector<vector<double>>(2, vector<double>(2))); int g[2][2][2]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) { g[i][j][k] = (i + j + k) % 2 ? bsx::sym("g", 0, V) : 1; f3[i][j][k] = g[i][j][k]; } CubicalComplex Z(3); ZV c3{0, 1, 0, 1, 0, 1}; Z.add_recursive(c3); auto w = lower_star_filtration(Z, f3); REQUIRE(w.size() == 4); for (size_t k = 0; k <= 3; k++) { REQUIRE(w[k].size() == Z.ncells(k)); for (size_t i = 0; i < Z.ncells(k); i++) { ZV c = Z.get_cube(k, i); int m = 0; for (size_t x = c[0]; x <= c[1]; x++) for (size_t y = c[2]; y <= c[3]; y++) for (size_t z = c[4]; z <= c[5]; z++) if (g[x][y][z] > m) m = g[x][y][z]; REQUIRE_MSG(w[k][i] == (double)m, "lower star value of a 3d cube"); } } END();
}
BSX_ENTRY(ops3) { ops<SimplicialComplex>(3, 2, 2); }
BSX_ENTRY(ops3l) { ops<LC>(3, 2, 2); }
BSX_ENTRY(ops2) { ops<SimplicialComplex>(2, 3, 1); }
BSX_ENTRY(ops2l) { ops<LC>(2, 3, 1); }
BSX_ENTRY(lev) { levels<SimplicialComplex>(3, {{0, 1}, {1, 2}, {0, 2}, {0, 1, 2}}, 1); }
BSX_ENTRY(levl) { levels<LC>(3, {{0, 1}, {1, 2}, {0, 2}, {0, 1, 2}}, 1); }
BSX_ENTRY(un) { unions<SimplicialComplex>(3, {{0, 1}, {1, 2}, {0, 2}, {0, 1, 2}}); }
BSX_ENTRY(unl) { unions<LC>(3, {{0, 1}, {1, 2}, {0, 2}, {0, 1, 2}}); }
BSX_ENTRY(low) { lower<SimplicialComplex>(3, {{0, 1}, {1, 2}, {0, 2}, {0, 1, 2}}, 2); }
BSX_ENTRY(lowl) { lower<LC>(3, {{0, 1}, {1, 2}, {0, 2}, {0, 1, 2}}, 2); }
BSX_ENTRY(cub) { cubes(2); }
#if BSX_TIER
BSX_ENTRY(tops3) { ops<SimplicialComplex>(3, 3, 2); }
BSX_ENTRY(tops3l) { ops<LC>(3, 3, 2); }
BSX_ENTRY(tops4) { ops<SimplicialComplex>(4, 2, 3); }
BSX_ENTRY(tlev) { levels<SimplicialComplex>(4, {{0, 1}, {1, 2}, {0, 2}, {0, 1, 2}, {2, 3}}, 2); }
BSX_ENTRY(tlow) { lower<SimplicialComplex>(4, {{0, 1}, {1, 2}, {0, 2}, {0, 1, 2}, {2, 3}}, 3); }
#endif
