// C21: covers, nerves, Dowker and witness complexes, Rips complexes subordinate to a cover
#include "simp.hpp"
using namespace bats;
typedef vector<vector<int>> W;
typedef vector<std::set<size_t>> Cov;
// distances between numbered points given by a symbolic table
struct TabDist : AbstractMetric<TabDist> { const W* w; template <typename S> S dist(const VectorView<S>& x, const VectorView<S>& y) const { return (S)(*w)[(size_t)x(0)][(size_t)y(0)]; } };
inline DataSet<double> numbered(size_t lo, size_t n) { Matrix<double> P(n, 1); for (size_t i = 0; i < n; i++) P(i, 0) = (double)(lo + i); return DataSet<double>(P); }
inline W symtab(size_t m, size_t n, int V, const char* nm) { W w(m, vector<int>(n, 0)); for (auto& r : w) for (auto& x : r) x = bsx::sym(nm, 0, V); return w; }
inline W symdist(size_t n, int V) { W w(n, vector<int>(n, 0)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) w[i][j] = w[j][i] = bsx::sym("d", 0, V); return w; }
inline Matrix<double> dm(const W& w) { Matrix<double> D(w.size(), w[0].size()); for (size_t i = 0; i < w.size(); i++) for (size_t j = 0; j < w[0].size(); j++) D(i, j) = (double)w[i][j]; return D; }
inline Cov symcover(size_t ns, size_t np, const char* nm, bool nonempty) { Cov c(ns); for (auto& s : c) { for (size_t i = 0; i < np; i++) if (bsx::symb(nm)) s.insert(i); if (nonempty) ASSUME(!s.empty()); } return c; }
// simplices of X = exactly the vertex sets of size <= maxd + 1 satisfying the predicate
template <class Cpx, class Pred> void exactly(const Cpx& X, size_t n, size_t maxd, Pred in, const char* what) {
  SM m; for (size_t k = 0; k <= X.maxdim(); k++) { m.s.push_back({}); for (size_t i = 0; i < X.ncells(k); i++) m.s[k].push_back(X.get_simplex(k, i)); }
  size_t tot = 0; for (int t = 1; t < (1 << n); t++) { ZV v = maskset(t); if (v.size() > maxd + 1) continue; bool b = in(v); tot += b; REQUIRE_MSG((m.find(v) != NO_IND) == b, what); } REQUIRE_MSG(m.total() == tot, what); agreesm(X, m, n, what); bsx::obs(tot);
}
template <class F, class Val> void filtvals(const F& f, Val val, const char* what) { auto& X = f.complex(); for (size_t k = 0; k <= X.maxdim() && k <= f.maxdim(); k++) { REQUIRE_MSG(f.ncells(k) == X.ncells(k), what); for (size_t i = 0; i < X.ncells(k); i++) REQUIRE_MSG(f.vals(k)[i] == (double)val(X.get_simplex(k, i)), what); } }
// nerve: sets of cover elements with a common point
inline void nerve(size_t ns, size_t np, size_t maxd, bool nonempty) {
  Cov c = symcover(ns, np, "in", nonempty); auto N = Nerve(c, maxd); exactly(N, ns, maxd, [&](const ZV& v) { if (v.size() == 1) return true; bool any = false; for (size_t x = 0; x < np; x++) { bool all = true; for (size_t i : v) all = all && c[i].count(x); any = any || all; } return any; }, "nerve"); END();
}
// bivariate cover: the nonempty intersections with the two projections, in order
inline void bivariate(size_t n1, size_t n2, size_t np) {
  Cov a = symcover(n1, np, "a", false), b = symcover(n2, np, "b", false); auto [c, f1, f2] = bivariate_cover(a, b); REQUIRE(c.size() == f1.size() && c.size() == f2.size()); size_t k = 0;
  for (size_t i = 0; i < n1; i++) for (size_t j = 0; j < n2; j++) { size_t cnt = 0; for (size_t x = 0; x < np; x++) cnt += a[i].count(x) && b[j].count(x); if (!cnt) continue; bool found = false; for (size_t q = 0; q < c.size(); q++) if (f1[q] == i && f2[q] == j) { REQUIRE_MSG(!found, "intersection listed once"); found = true; REQUIRE(c[q].size() == cnt); for (size_t x = 0; x < np; x++) REQUIRE(c[q].count(x) == (a[i].count(x) && b[j].count(x))); } REQUIRE_MSG(found, "nonempty intersection listed"); k++; }
  REQUIRE_MSG(c.size() == k, "bivariate cover"); END();
}
// bivariate cover as a cospan of nerves: the two projections are simplicial maps
inline void bivnerve(size_t n1, size_t n2, size_t np, size_t maxd) {
  Cov a = symcover(n1, np, "a", true), b = symcover(n2, np, "b", true); auto [c, f1, f2] = bivariate_cover(a, b); if (c.empty()) { END(); return; } auto N = Nerve(c, maxd), N1 = Nerve(a, maxd), N2 = Nerve(b, maxd);
  for (int side = 0; side < 2; side++) { auto& f = side ? f2 : f1; auto& M = side ? N2 : N1; for (size_t k = 0; k <= N.maxdim(); k++) for (size_t i = 0; i < N.ncells(k); i++) { std::set<size_t> s; for (size_t v : N.get_simplex(k, i)) s.insert(f[v]); ZV t(s.begin(), s.end()); REQUIRE_MSG(M.find_idx(t) != NO_IND, "projection of a simplex of the nerve is a simplex"); } } END();
}
// Dowker filtration and its edge parameters
inline int dow(const W& w, size_t i, size_t j) { int r = 1 << 20; for (size_t k = 0; k < w[0].size(); k++) { int a = w[i][k] > w[j][k] ? w[i][k] : w[j][k]; if (a < r) r = a; } return r; }
template <class E> W flagw(size_t n, int r, E e) { W g(n, vector<int>(n, -1)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i != j) { int v = e(i, j); if (v < r) g[i][j] = v; } return g; }
inline bool clq(const W& g, const ZV& v) { for (size_t a = 0; a < v.size(); a++) for (size_t b = 0; b < a; b++) if (g[v[a]][v[b]] < 0) return false; return true; }
inline int mx(const W& g, const ZV& v) { int m = 0; for (size_t a = 0; a < v.size(); a++) for (size_t b = 0; b < a; b++) if (g[v[a]][v[b]] > m) m = g[v[a]][v[b]]; return m; }
template <class F> void flagfilt(const F& f, size_t n, size_t maxd, const W& g, const char* what) { exactly(f.complex(), n, maxd, [&](const ZV& v) { return clq(g, v); }, what); filtvals(f, [&](const ZV& v) { return mx(g, v); }, what); }
inline void dowker(size_t nl, size_t nx, int V, size_t maxd, bool cov) {
  W w = symtab(nl, nx, V, "d"); int r = bsx::sym("r", 0, V + 1); auto D = dm(w); auto R = dowker_edge_param(D); for (size_t i = 0; i < nl; i++) for (size_t j = 0; j < nl; j++) if (i != j) REQUIRE_MSG(R(i, j) == (double)dow(w, i, j), "Dowker parameter: least largest distance to a common witness");
  if (!cov) { auto F = DowkerFiltration(D, (double)r, maxd); flagfilt(F, nl, maxd, flagw(nl, r, [&](size_t i, size_t j) { return dow(w, i, j); }), "Dowker filtration"); W t(nl + nx, vector<int>(nl + nx, 0)); for (size_t i = 0; i < nl; i++) for (size_t j = 0; j < nx; j++) t[i][nl + j] = t[nl + j][i] = w[i][j]; TabDist d; d.w = &t; auto G = DowkerFiltration(numbered(0, nl), numbered(nl, nx), d, (double)r, maxd); flagfilt(G, nl, maxd, flagw(nl, r, [&](size_t i, size_t j) { return dow(w, i, j); }), "Dowker filtration of points"); }
  else { Cov c = symcover(2, nl, "in", false); auto F = DowkerFiltration(D, c, (double)r, maxd); flagfilt(F, nl, maxd, flagw(nl, r, [&](size_t i, size_t j) { for (auto& s : c) if (s.count(i) && s.count(j)) return dow(w, i, j); return 1 << 20; }), "Dowker filtration in a cover"); W t(nl + nx, vector<int>(nl + nx, 0)); for (size_t i = 0; i < nl; i++) for (size_t j = 0; j < nx; j++) t[i][nl + j] = t[nl + j][i] = w[i][j]; TabDist d; d.w = &t; auto G = DowkerFiltration(numbered(0, nl), numbered(nl, nx), d, c, (double)r, maxd); flagfilt(G, nl, maxd, flagw(nl, r, [&](size_t i, size_t j) { for (auto& s : c) if (s.count(i) && s.count(j)) return dow(w, i, j); return 1 << 20; }), "Dowker filtration of points in a cover"); }
  END();
}
// neighborhoods read off a rectangular distance matrix
inline void matnbrs(size_t nl, size_t nx, int V) { W w = symtab(nl, nx, V, "d"); int e = bsx::sym("eps", 0, V); auto D = dm(w); auto c = neighborhoods(D, (double)e); REQUIRE(c.size() == nl); for (size_t i = 0; i < nl; i++) { size_t k = 0; for (size_t j = 0; j < nx; j++) { REQUIRE_MSG(c[i].count(j) == (w[i][j] <= e), "neighborhoods of a distance matrix"); k += w[i][j] <= e; } REQUIRE(c[i].size() == k); } END(); }
struct LX { W w, t; TabDist d; DataSet<double> L, X; LX(size_t nl, size_t nx, int V) : w(symtab(nl, nx, V, "d")), t(nl + nx, vector<int>(nl + nx, 0)), L(numbered(0, nl)), X(numbered(nl, nx)) { for (size_t i = 0; i < nl; i++) for (size_t j = 0; j < nx; j++) t[i][nl + j] = t[nl + j][i] = w[i][j]; d.w = &t; } };
// edges of landmarks with a common witness within the radius; smallest entries above a level per column
inline void wedges(size_t nl, size_t nx, int V) {
  LX p(nl, nx, V); int r = bsx::sym("r", 0, V + 1); auto e = witness_edges(p.X, p.L, p.d, (double)r); vector<vector<int>> in(nl, vector<int>(nl, 0)); REQUIRE(e.size() % 2 == 0); for (size_t k = 0; k < e.size(); k += 2) { REQUIRE(e[k] < e[k + 1] && e[k + 1] < nl); in[e[k]][e[k + 1]]++; } for (size_t j = 0; j < nl; j++) for (size_t i = 0; i < j; i++) { bool w = false; for (size_t k = 0; k < nx; k++) w |= p.w[i][k] < r && p.w[j][k] < r; REQUIRE_MSG(in[i][j] == (w ? 1 : 0), "edges with a common witness"); }
  auto D = dm(p.w); vector<double> m(nx), m0; for (size_t k = 0; k < nx; k++) m[k] = (double)bsx::sym("m", -1, V); m0 = m; increment_m(D, m); for (size_t k = 0; k < nx; k++) { double b = std::numeric_limits<double>::max(); for (size_t i = 0; i < nl; i++) if ((double)p.w[i][k] > m0[k] && (double)p.w[i][k] < b) b = (double)p.w[i][k]; REQUIRE_MSG(m[k] == b, "next smallest entry of a column"); } bsx::obs(e.size()); END(); }
BSX_ENTRY(wedge) { wedges(3, 2, 2); } BSX_ENTRY(wedge2) { wedges(2, 3, 2); }
// lazy witness parameters: nu-th nearest landmark subtracted
inline void witness(size_t nl, size_t nx, int V, size_t nu, size_t maxd) {
  LX p(nl, nx, V); W q = p.w; for (size_t j = 0; j < nx; j++) { int m = 0; if (nu) { vector<int> c; for (size_t i = 0; i < nl; i++) c.push_back(p.w[i][j]); for (size_t a = 0; a < nl; a++) for (size_t b = a + 1; b < nl; b++) { int lo = c[a] < c[b] ? c[a] : c[b], hi = c[a] < c[b] ? c[b] : c[a]; c[a] = lo; c[b] = hi; } m = c[nu - 1]; } for (size_t i = 0; i < nl; i++) { q[i][j] = p.w[i][j] - m; if (q[i][j] < 0) q[i][j] = 0; } }
  auto R = witness_edge_param(p.X, p.L, p.d, nu); REQUIRE(R.nrow() == nl && R.ncol() == nl); for (size_t i = 0; i < nl; i++) for (size_t j = 0; j < nl; j++) if (i != j) REQUIRE_MSG(R(i, j) == (double)dow(q, i, j), "witness parameter");
  int r = bsx::sym("r", 0, V); auto K = WitnessComplex(p.X, p.L, p.d, nu, (double)r, maxd); auto g = flagw(nl, r + 1, [&](size_t i, size_t j) { return dow(q, i, j); }); exactly(K, nl, maxd, [&](const ZV& v) { return clq(g, v); }, "lazy witness complex");
  if (!nu) { auto F = WitnessFiltration(p.L, p.X, p.d, (double)r, maxd); flagfilt(F, nl, maxd, flagw(nl, r, [&](size_t i, size_t j) { return dow(q, i, j); }), "witness filtration"); }
  END();
}
// strong witnesses: X[i] witnesses the simplex of its dim+1 nearest landmarks; a simplex needs all its faces
inline void strong(size_t nl, size_t nx, int V, size_t maxd) {
  LX p(nl, nx, V); for (size_t j = 0; j < nx; j++) for (size_t a = 0; a < nl; a++) for (size_t b = 0; b < a; b++) ASSUME(p.w[a][j] != p.w[b][j]);
  auto K = WitnessComplex(p.X, p.L, p.d, maxd); vector<vector<bool>> in(1 << nl);
  vector<char> ok(1 << nl, 0); for (size_t sz = 1; sz <= maxd + 1; sz++) for (int m = 1; m < (1 << nl); m++) { ZV v = maskset(m); if (v.size() != sz) continue; if (sz == 1) { ok[m] = 1; continue; } bool faces = true; for (size_t x : v) faces = faces && ok[m & ~(1 << x)]; bool wit = false; for (size_t j = 0; j < nx; j++) { bool near = true; for (size_t a = 0; a < nl; a++) if (m >> a & 1) for (size_t b = 0; b < nl; b++) if (!(m >> b & 1)) near = near && p.w[a][j] < p.w[b][j]; wit = wit || near; } ok[m] = faces && wit; }
  exactly(K, nl, maxd, [&](const ZV& v) { int m = 0; for (size_t x : v) m |= 1 << x; return (bool)ok[m]; }, "strong witness complex"); END();
}
// landmark covers
inline void lcover(size_t nl, size_t nx, int V, size_t k) {
  LX p(nl, nx, V); auto c = landmark_cover(p.X, p.L, p.d, k); REQUIRE(c.size() == nl); for (size_t x = 0; x < nx; x++) { size_t n = 0; for (size_t i = 0; i < nl; i++) n += c[i].count(x); REQUIRE_MSG(n == (k < nl ? k : nl), "every point is in the sets of k landmarks"); for (size_t i = 0; i < nl; i++) for (size_t j = 0; j < nl; j++) if (c[i].count(x) && !c[j].count(x)) REQUIRE_MSG(p.w[i][x] <= p.w[j][x], "the k nearest landmarks"); } END();
}
inline void epscover(size_t nl, size_t nx, int V) { LX p(nl, nx, V); int e = bsx::sym("eps", 1, V); auto c = landmark_eps_cover(p.X, p.L, p.d, (double)e); REQUIRE(c.size() == nl); for (size_t x = 0; x < nx; x++) { int m = p.w[0][x]; for (size_t i = 1; i < nl; i++) if (p.w[i][x] < m) m = p.w[i][x]; for (size_t i = 0; i < nl; i++) REQUIRE_MSG(c[i].count(x) == (p.w[i][x] < m + e), "landmarks within eps of the nearest"); } END(); }
// cover of a coordinate by intervals
inline void intervals(size_t np, int V, size_t ns) {
  vector<double> x; vector<int> xi; for (size_t i = 0; i < np; i++) { xi.push_back(bsx::pick("x", -V, V)); x.push_back((double)xi.back()); } auto c = uniform_interval_cover(x, ns); REQUIRE(c.size() == ns);
  int lo = xi[0], hi = xi[0]; for (int v : xi) { if (v < lo) lo = v; if (v > hi) hi = v; } for (size_t b = 0; b < ns; b++) for (size_t i : c[b]) REQUIRE(i < np);
  for (size_t i = 0; i < np; i++) { size_t cnt = 0; for (size_t b = 0; b < ns; b++) { bool in = c[b].count(i); cnt += in; if (hi > lo) { int q = (xi[i] - lo) * (int)ns, len = hi - lo; /* interval b = [b, b+2) * len / ns */ REQUIRE_MSG(in == ((int)b * len <= q && q < ((int)b + 2) * len), "points of the interval"); } } if (hi > lo || ns < 3) REQUIRE_MSG(cnt > 0, "every point is covered"); } END();
}
// Rips filtrations subordinate to a cover: flag of the edges inside cover sets, or only the simplices inside cover sets
inline void ripscover(size_t n, int V, size_t ns, size_t maxd, bool strict) {
  W w = symdist(n, V); TabDist d; d.w = &w; auto X = numbered(0, n); Cov c = symcover(ns, n, "in", false); int r = bsx::sym("r", 0, V + 1); auto share = [&](const ZV& v) { for (auto& s : c) { bool all = true; for (size_t x : v) all = all && s.count(x); if (all) return true; } return false; };
  if (!strict) { auto F = RipsFiltration(X, c, d, (double)r, maxd); flagfilt(F, n, maxd, flagw(n, r, [&](size_t i, size_t j) { return share({i, j}) ? w[i][j] : 1 << 20; }), "Rips filtration in a cover"); }
  else { auto F = StrictRipsCoverFiltration<double, SimplicialComplex>(X, c, d, (double)r, maxd); auto g = flagw(n, r, [&](size_t i, size_t j) { return w[i][j]; }); exactly(F.complex(), n, maxd, [&](const ZV& v) { return v.size() == 1 || (clq(g, v) && share(v)); }, "strict Rips cover filtration"); filtvals(F, [&](const ZV& v) { return mx(g, v); }, "strict Rips cover value"); }
  END();
}
// subsets and coordinates of data
inline void subset(size_t n, size_t dim) { Matrix<double> P(n, dim); vector<vector<int>> x(n, vector<int>(dim)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < dim; j++) { x[i][j] = bsx::sym("x", -9, 9); P(i, j) = (double)x[i][j]; } DataSet<double> X(P); std::set<size_t> s; for (size_t i = 0; i < n; i++) if (bsx::symb("in")) s.insert(i); ASSUME(!s.empty()); auto Y = get_subset(X, s), Z = X[s]; REQUIRE(Y.size() == s.size() && Z.size() == s.size() && Y.dim() == dim && Z.dim() == dim); size_t k = 0; for (size_t i : s) { for (size_t j = 0; j < dim; j++) { REQUIRE_MSG(Y(k, j) == (double)x[i][j], "subset of data"); REQUIRE_MSG(Z(k, j) == (double)x[i][j], "subset of data by index"); } k++; } for (size_t j = 0; j < dim; j++) { auto c = coordinate_projection(X, j); REQUIRE(c.size() == n); for (size_t i = 0; i < n; i++) REQUIRE_MSG(c[i] == (double)x[i][j], "coordinate"); } END(); }
BSX_ENTRY(n33) { nerve(3, 3, 2, false); }
BSX_ENTRY(n42) { nerve(4, 2, 3, true); }
BSX_ENTRY(n31) { nerve(3, 2, 1, true); }
BSX_ENTRY(n30) { nerve(3, 2, 0, true); }
BSX_ENTRY(b22) { bivariate(2, 2, 2); }
BSX_ENTRY(b12) { bivariate(1, 2, 3); }
BSX_ENTRY(bn) { bivnerve(2, 2, 2, 2); }
BSX_ENTRY(d33) { dowker(3, 2, 2, 2, false); }
BSX_ENTRY(d32) { dowker(3, 1, 2, 2, true); }
BSX_ENTRY(mn) { matnbrs(3, 3, 3); }
BSX_ENTRY(mn2) { matnbrs(2, 4, 3); }
BSX_ENTRY(w0) { witness(3, 2, 2, 0, 2); }
BSX_ENTRY(w1) { witness(3, 2, 2, 1, 2); }
BSX_ENTRY(w2) { witness(2, 3, 2, 2, 1); }
BSX_ENTRY(s32) { strong(3, 2, 2, 2); }
BSX_ENTRY(s33) { strong(3, 3, 2, 1); }
BSX_ENTRY(s23) { strong(2, 2, 1, 2); }
BSX_ENTRY(lc1) { lcover(3, 2, 2, 1); }
BSX_ENTRY(lc2) { lcover(3, 2, 2, 2); }
BSX_ENTRY(lc4) { lcover(2, 2, 2, 3); }
BSX_ENTRY(ec) { epscover(3, 2, 3); }
BSX_ENTRY(i2) { intervals(3, 2, 2); }
BSX_ENTRY(i3) { intervals(3, 2, 3); }
BSX_ENTRY(i4) { intervals(3, 2, 4); }
BSX_ENTRY(i1) { intervals(2, 2, 1); }
BSX_ENTRY(rc) { ripscover(3, 2, 2, 2, false); }
BSX_ENTRY(rcs) { ripscover(3, 2, 2, 2, true); }
BSX_ENTRY(sub) { subset(4, 2); }
#if BSX_TIER
BSX_ENTRY(tn43) { nerve(4, 3, 3, true); }
BSX_ENTRY(tn52) { nerve(5, 2, 4, true); }
BSX_ENTRY(td) { dowker(3, 3, 2, 2, false); }
BSX_ENTRY(td4) { dowker(4, 2, 2, 3, false); }
BSX_ENTRY(tw) { witness(3, 3, 2, 1, 2); }
BSX_ENTRY(tw2) { witness(3, 2, 3, 2, 2); }
BSX_ENTRY(ts) { strong(4, 3, 3, 3); }
BSX_ENTRY(trc) { ripscover(4, 2, 2, 3, true); }
BSX_ENTRY(ti) { intervals(3, 4, 5); }
#endif
