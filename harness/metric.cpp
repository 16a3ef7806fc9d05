// C33: metrics, neighbourhoods, densities and landmarks of point sets
#include "common.hpp"
#include <cmath>
using namespace bats;
typedef vector<vector<int>> W;
// distances between numbered points given by a symbolic table
struct TabDist : AbstractMetric<TabDist> { const W* w; template <typename S> S dist(const VectorView<S>& x, const VectorView<S>& y) const { return (S)(*w)[(size_t)x(0)][(size_t)y(0)]; } };
inline DataSet<double> numbered(size_t lo, size_t n) { Matrix<double> P(n, 1); for (size_t i = 0; i < n; i++) P(i, 0) = (double)(lo + i); return DataSet<double>(P); }
inline W symdist(size_t n, int lo, int V) { W w(n, vector<int>(n, 0)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) w[i][j] = w[j][i] = bsx::sym("d", lo, V); return w; }
inline DataSet<double> pts(const W& x) { Matrix<double> P(x.size(), x[0].size()); for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < x[0].size(); j++) P(i, j) = (double)x[i][j]; return DataSet<double>(P); }
inline bool near(double a, double b) { double d = a - b; return d < 1e-6 && d > -1e-6; } // false for NaN
// every interface of a metric against one function of the integer coordinates
template <class M, class F> void faces(const M& met, const DataSet<double>& X, const DataSet<double>& Y, F f, const char* what) {
  auto D = met(X, Y), DX = met(X); REQUIRE_MSG(D.nrow() == X.size() && D.ncol() == Y.size() && DX.nrow() == X.size() && DX.ncol() == X.size(), what);
  for (size_t i = 0; i < X.size(); i++) { auto v = met(X[i], Y); REQUIRE_MSG(v.size() == Y.size(), what); for (size_t j = 0; j < Y.size(); j++) { REQUIRE_MSG(f(met.dist(X[i], Y[j]), false, i, j), what); REQUIRE_MSG(f(met(X[i], Y[j]), false, i, j), what); REQUIRE_MSG(f(v[j], false, i, j), what); REQUIRE_MSG(f(D(i, j), false, i, j), what); } for (size_t j = 0; j < X.size(); j++) REQUIRE_MSG(f(DX(i, j), true, i, j), what); }
}
inline int idist(const vector<int>& a, const vector<int>& b, bool linf) { int s = 0; for (size_t k = 0; k < a.size(); k++) { int d = a[k] - b[k]; if (d < 0) d = -d; if (linf) { if (d > s) s = d; } else s += d; } return s; }
template <class M> void grid(M met, bool linf, size_t n, size_t m, size_t dim, int V) {
  W x(n, vector<int>(dim)), y(m, vector<int>(dim)); for (auto* w : {&x, &y}) for (auto& r : *w) for (auto& c : r) c = bsx::sym("x", -V, V); auto X = pts(x), Y = pts(y);
  faces(met, X, Y, [&](double d, bool xx, size_t i, size_t j) { return d == (double)idist(x[i], xx ? x[j] : y[j], linf); }, "distance"); auto D = met(X); double r = enclosing_radius(D), best = 1e9; for (size_t i = 0; i < n; i++) { double row = 0; for (size_t j = 0; j < n; j++) if (D(i, j) > row) row = D(i, j); if (row < best) best = row; } REQUIRE_MSG(r == best, "enclosing radius"); END();
}
inline double dotd(const vector<int>& a, const vector<int>& b) { double s = 0; for (size_t k = 0; k < a.size(); k++) s += (double)a[k] * b[k]; return s; }
// metrics with square roots: solver-enumerated integer points
inline void euclid(size_t dim, int V) { W x(1, vector<int>(dim)), y(1, vector<int>(dim)); for (auto* w : {&x, &y}) for (auto& c : (*w)[0]) c = bsx::pick("x", -V, V); auto X = pts(x), Y = pts(y); faces(Euclidean(), X, Y, [&](double d, bool xx, size_t, size_t) { auto& o = xx ? x[0] : y[0]; double s = 0; for (size_t k = 0; k < dim; k++) s += (double)(x[0][k] - o[k]) * (x[0][k] - o[k]); return d >= 0 && near(d * d, s); }, "Euclidean distance"); END(); }
template <class M> void angles(M met, int kind, size_t dim, int V) {
  W x(1, vector<int>(dim)), y(1, vector<int>(dim)); for (auto* w : {&x, &y}) { bool nz = false; for (auto& c : (*w)[0]) { c = bsx::pick("x", -V, V); nz = nz || c; } ASSUME(nz); } auto X = pts(x), Y = pts(y);
  faces(met, X, Y, [&](double d, bool xx, size_t, size_t) { auto& o = xx ? x[0] : y[0]; double c = dotd(x[0], o) / std::sqrt(dotd(x[0], x[0]) * dotd(o, o)); if (kind == 1 || kind == 3) c = c < 0 ? -c : c; if (c > 1) c = 1; if (c < -1) c = -1; if (kind <= 1) return near(d, 1 - c); return d >= 0 && d < 3.1416 && near(std::cos(d), c); }, kind == 0 ? "cosine distance" : kind == 1 ? "projective cosine distance" : kind == 2 ? "angle" : "projective angle"); END();
}
// neighbourhoods of points
inline void nbrs(size_t nx, size_t ny, int V, int th) {
  W w(nx, vector<int>(ny)); W t(nx + ny, vector<int>(nx + ny, 0)); for (size_t i = 0; i < nx; i++) for (size_t j = 0; j < ny; j++) t[i][nx + j] = t[nx + j][i] = w[i][j] = bsx::sym("d", 0, V); TabDist d; d.w = &t; auto X = numbered(0, nx), Y = numbered(nx, ny); int r = bsx::sym("r", 0, V + 1); bsx_threads(th);
  auto N = neighborhoods(X, Y, d, (double)r); REQUIRE_MSG(N.size() == nx, "one neighborhood for every point"); for (size_t i = 0; i < nx; i++) { auto M = neighborhood(X[i], Y, d, (double)r); REQUIRE(M == N[i]); size_t k = 0; for (size_t j = 0; j < ny; j++) { bool in = false; for (size_t v : N[i]) in = in || v == j; REQUIRE_MSG(in == (w[i][j] < r), "points within the radius"); k += in; } REQUIRE(N[i].size() == k); } END();
}
inline void knn(size_t nx, size_t ny, int V, size_t k, int th) {
  W w(nx, vector<int>(ny)); W t(nx + ny, vector<int>(nx + ny, 0)); for (size_t i = 0; i < nx; i++) for (size_t j = 0; j < ny; j++) t[i][nx + j] = t[nx + j][i] = w[i][j] = bsx::sym("d", 0, V); TabDist d; d.w = &t; auto X = numbered(0, nx), Y = numbered(nx, ny); bsx_threads(th); auto N = neighborhoods(X, Y, d, k); REQUIRE(N.size() == nx);
  for (size_t i = 0; i < nx; i++) { REQUIRE(N[i].size() == (k < ny ? k : ny)); std::set<size_t> s(N[i].begin(), N[i].end()); REQUIRE_MSG(s.size() == N[i].size(), "distinct neighbors"); for (size_t a = 0; a + 1 < N[i].size(); a++) REQUIRE_MSG(w[i][N[i][a]] <= w[i][N[i][a + 1]], "nearest first"); for (size_t j = 0; j < ny; j++) if (!s.count(j)) for (size_t v : s) REQUIRE_MSG(w[i][v] <= w[i][j], "the nearest points"); } END();
}
// distance to the k-th nearest neighbour (the point itself being the 0-th)
inline void density(size_t n, int V, size_t k) { W w = symdist(n, 0, V); TabDist d; d.w = &w; auto X = numbered(0, n); auto r = kdist(X, d, k); REQUIRE(r.size() == n); for (size_t i = 0; i < n; i++) { size_t lt = 0, le = 0; for (size_t j = 0; j < n; j++) { lt += (double)w[i][j] < r[i]; le += (double)w[i][j] <= r[i]; } REQUIRE_MSG(lt <= k && k < le, "distance to the k-th nearest neighbour"); } END(); }
inline int toset(const W& w, const vector<size_t>& s, size_t x) { int m = 1 << 20; for (size_t i : s) if (w[i][x] < m) m = w[i][x]; return m; }
inline int hausd(const W& w, const vector<size_t>& s) { int m = 0; for (size_t x = 0; x < w.size(); x++) { int t = toset(w, s, x); if (t > m) m = t; } return m; }
// greedy landmarks: every landmark is new and farthest from the ones before; Hausdorff distances of the prefixes
inline void prefixes(const W& w, const vector<size_t>& L, const vector<double>& h, size_t i0, size_t k) {
  REQUIRE(L.size() == k && h.size() == k); REQUIRE(L[0] == i0); vector<size_t> s; for (size_t a = 0; a < k; a++) { for (size_t b : s) REQUIRE_MSG(b != L[a], "landmarks are distinct"); if (a) for (size_t x = 0; x < w.size(); x++) REQUIRE_MSG(toset(w, s, x) <= toset(w, s, L[a]), "the next landmark is farthest"); s.push_back(L[a]); REQUIRE_MSG(h[a] == (double)hausd(w, s), "Hausdorff distance"); }
}
inline void greedy(size_t n, int lo, int V, int mode) {
  W w = symdist(n, lo, V); TabDist d; d.w = &w; auto X = numbered(0, n); size_t i0 = (size_t)bsx::pick("i0", 0, (int)n - 1), k = (size_t)bsx::pick("k", 1, (int)n);
  if (mode == 0) { auto [L, h] = greedy_landmarks_hausdorff(X, d, i0); prefixes(w, L, h, i0, n); }
  if (mode == 1) { auto [L, h] = greedy_landmarks_hausdorff(X, d, i0, k); prefixes(w, L, h, i0, k); }
  if (mode == 2) { Matrix<double> D(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) D(i, j) = (double)w[i][j]; auto [L, h] = greedy_landmarks_hausdorff(D, i0); prefixes(w, L, h, i0, n); }
  if (mode == 3) { auto L = greedy_landmarks(X, k, d, i0); REQUIRE(L.size() == k); vector<size_t> s; for (size_t i = 0; i < k; i++) s.push_back((size_t)L(i, 0)); bool seed = false; for (size_t i : s) seed = seed || i == i0; REQUIRE_MSG(seed, "seed is a landmark"); /* a greedy order of the set exists */ bool any = false; vector<size_t> p = s; std::sort(p.begin(), p.end()); for (size_t i = 0; i + 1 < k; i++) REQUIRE_MSG(p[i] != p[i + 1], "landmarks are distinct"); do { if (p[0] != i0) continue; bool ok = true; vector<size_t> q; for (size_t a = 0; a < k; a++) { if (a) for (size_t x = 0; x < n; x++) ok = ok && toset(w, q, x) <= toset(w, q, p[a]); q.push_back(p[a]); } any = any || ok; } while (std::next_permutation(p.begin(), p.end())); REQUIRE_MSG(any, "landmarks are chosen greedily"); }
  if (mode == 4) { int r = bsx::sym("r", 0, V); auto L = hausdorff_landmarks(X, (double)r, d, i0); vector<size_t> s; for (size_t i = 0; i < L.size(); i++) s.push_back((size_t)L(i, 0)); bool seed = false; for (size_t i : s) seed = seed || i == i0; REQUIRE(seed); REQUIRE_MSG(hausd(w, s) <= r, "every point within r of a landmark"); for (size_t a = 0; a < s.size(); a++) for (size_t b = 0; b < a; b++) REQUIRE_MSG(w[s[a]][s[b]] > r, "landmarks are more than r apart"); }
  if (mode == 5) { size_t c = approx_center(X, d, k, i0); /* least largest distance to a greedy sequence of landmarks */ vector<size_t> s{i0}; for (size_t a = 0; a < k; a++) { size_t b = 0; for (size_t x = 1; x < n; x++) if (toset(w, s, x) > toset(w, s, b)) b = x; s.push_back(b); } auto far = [&](size_t x) { int m = 0; for (size_t i : s) if (w[i][x] > m) m = w[i][x]; return m; }; REQUIRE(c < n); for (size_t x = 0; x < n; x++) REQUIRE_MSG(far(c) <= far(x), "least largest distance to the landmarks"); }
  END();
}
inline void randoml(size_t n, size_t k) { int o = bsx::sym("o", -5, 5); Matrix<double> P(n, 1); for (size_t i = 0; i < n; i++) P(i, 0) = (double)(o + 10 * (int)i); auto L = random_landmarks(DataSet<double>(P), k); REQUIRE(L.size() == k); for (size_t i = 0; i < k; i++) { bool in = false; for (size_t j = 0; j < n; j++) in = in || L(i, 0) == (double)(o + 10 * (int)j); REQUIRE(in); for (size_t j = 0; j < i; j++) REQUIRE(L(i, 0) != L(j, 0)); } END(); }
BSX_ENTRY(l1) { grid(L1Dist(), false, 2, 2, 2, 20); }
BSX_ENTRY(l13) { grid(L1Dist(), false, 3, 1, 1, 20); }
BSX_ENTRY(li) { grid(LInfDist(), true, 2, 2, 2, 20); }
BSX_ENTRY(li3) { grid(LInfDist(), true, 3, 1, 1, 20); }
BSX_ENTRY(eu) { euclid(2, 2); }
BSX_ENTRY(co) { angles(CosineDist(), 0, 3, 1); }
BSX_ENTRY(rpc) { angles(RPCosineDist(), 1, 3, 1); }
BSX_ENTRY(an) { angles(AngleDist(), 2, 3, 1); }
BSX_ENTRY(rpa) { angles(RPAngleDist(), 3, 3, 1); }
BSX_ENTRY(nb) { nbrs(3, 2, 3, 2); }
BSX_ENTRY(nb2) { nbrs(2, 3, 3, 3); }
BSX_ENTRY(kn) { knn(2, 3, 2, 2, 2); }
BSX_ENTRY(kn4) { knn(2, 2, 2, 3, 1); }
BSX_ENTRY(kd) { density(3, 3, 1); }
BSX_ENTRY(kd2) { density(3, 3, 2); }
BSX_ENTRY(gh) { greedy(3, 0, 3, 0); }
BSX_ENTRY(ghk) { greedy(3, 0, 3, 1); }
BSX_ENTRY(ghm) { greedy(4, 0, 2, 2); }
BSX_ENTRY(gl) { greedy(3, 0, 3, 3); }
BSX_ENTRY(hl) { greedy(4, 0, 2, 4); }
BSX_ENTRY(ac) { greedy(3, 0, 3, 5); }
BSX_ENTRY(rl) { randoml(5, 3); }
#if BSX_TIER
BSX_ENTRY(tl) { grid(L1Dist(), false, 3, 2, 2, 30); }
BSX_ENTRY(tgh) { greedy(4, 0, 4, 0); }
BSX_ENTRY(tgl) { greedy(4, 0, 3, 3); }
BSX_ENTRY(tac) { greedy(4, 0, 3, 5); }
BSX_ENTRY(tan) { angles(AngleDist(), 2, 2, 4); }
BSX_ENTRY(trpa) { angles(RPAngleDist(), 3, 2, 4); }
BSX_ENTRY(tnb) { nbrs(4, 3, 4, 3); }
BSX_ENTRY(tkd) { density(4, 3, 2); }
#endif
