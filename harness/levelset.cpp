// C34: level set zigzags of images, inclusion diagrams of sets, Mayer-Vietoris boundary, grids and their triangulations
#include "simp.hpp"
using namespace bats;
typedef LightSimplicialComplex<size_t> LC;
// interval of every cube = smallest to largest value of the pixels whose closed cube contains it; level sets and their diagram
inline void toplex(int a, int b, int c, int V, bool diag) {
  vector<vector<vector<double>>> img(a, vector<vector<double>>(b, vector<double>(c))); int g[3][3][3]; for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < c; k++) { g[i][j][k] = bsx::sym("g", -V, V); img[i][j][k] = (double)g[i][j][k]; }
  auto F = zigzag_toplex(img); const auto& X = F.complex(); int n[3] = {a + 1, b + 1, c + 1}; size_t cnt[4] = {0, 0, 0, 0}; vector<vector<std::pair<int, int>>> iv(4); for (size_t k = 0; k <= 3; k++) iv[k].resize(X.ncells(k));
  for (int i = 0; i < n[0]; i++) for (int di = 0; di < 2 && i + di < n[0]; di++) for (int j = 0; j < n[1]; j++) for (int dj = 0; dj < 2 && j + dj < n[1]; dj++) for (int k = 0; k < n[2]; k++) for (int dk = 0; dk < 2 && k + dk < n[2]; dk++) {
    int d = di + dj + dk, lo = 99, hi = -99; cnt[d]++; ZV q{(size_t)i, (size_t)(i + di), (size_t)j, (size_t)(j + dj), (size_t)k, (size_t)(k + dk)}; size_t id = X.find_idx(q); REQUIRE_MSG(id != NO_IND, "every cube of the grid is present");
    for (int p = 0; p < a; p++) for (int r = 0; r < b; r++) for (int s = 0; s < c; s++) if (p <= i && i + di <= p + 1 && r <= j && j + dj <= r + 1 && s <= k && k + dk <= s + 1) { int v = g[p][r][s]; lo = v < lo ? v : lo; hi = v > hi ? v : hi; }
    REQUIRE_MSG(F.vals(d)[id].size() == 1 && F.vals(d)[id][0].first == (double)lo && F.vals(d)[id][0].second == (double)hi, "interval of a cube"); iv[d][id] = {lo, hi}; }
  for (size_t d = 0; d <= 3; d++) REQUIRE(X.ncells(d) == cnt[d]);
  if (diag) { int eps = bsx::pick("eps", 1, 2), t0 = bsx::pick("t0", -V, 0), t1 = bsx::pick("t1", 0, V); auto D = zigzag_levelsets(F, (double)eps, (double)t0, (double)t1); size_t steps = 0; for (int s = t0; s < t1 - eps; s += eps) steps++; REQUIRE_MSG(D.nnode() == 2 * steps + 1 && D.nedge() == 2 * steps, "shape of the diagram");
    for (size_t i = 0; i < D.nnode(); i++) { int s0 = t0 + eps * (int)(i / 2), s1 = s0 + (i % 2 ? 2 * eps : eps); size_t tot = 0; for (size_t d = 0; d <= 3; d++) for (size_t q = 0; q < X.ncells(d); q++) { bool in = iv[d][q].first <= s1 && s0 <= iv[d][q].second; REQUIRE_MSG((D.node_data(i).find_idx(X.get_cube(d, q)) != NO_IND) == in, "level set of a window"); tot += in; } REQUIRE(D.node_data(i).ncells() == tot); }
    for (size_t e = 0; e < D.nedge(); e++) { size_t s = D.edge_source(e), t = D.edge_target(e); REQUIRE_MSG(s == (e % 2 ? e + 1 : e) && t == (e % 2 ? e : e + 1), "arrows of the zigzag"); auto& A = D.node_data(s); auto& B = D.node_data(t); for (size_t d = 0; d <= 3; d++) { auto& M = D.edge_data(e)[d]; REQUIRE(M.nrow() == B.ncells(d) && M.ncol() == A.ncells(d)); for (size_t q = 0; q < A.ncells(d); q++) { size_t w = B.find_idx(A.get_cube(d, q)); REQUIRE_MSG(M[q].nnz() == 1 && M[q].nzbegin()->ind == w && M[q].nzbegin()->val == 1, "inclusion of level sets"); } } } }
  END();
}
template <class C> C setof(int m) { C s; for (size_t i = 0; i < 8; i++) if (m >> i & 1) s.insert(s.end(), i); return s; }
inline bool isincl(const vector<size_t>& f, int s, int t) { vector<size_t> st, ss; for (size_t i = 0; i < 8; i++) { if (t >> i & 1) st.push_back(i); if (s >> i & 1) ss.push_back(i); } if (f.size() != ss.size()) return false; for (size_t i = 0; i < f.size(); i++) if (!(f[i] < st.size()) || st[f[i]] != ss[i]) return false; return true; }
inline void incl(int nv, int len) {
  int t = bsx::pick("t", 0, (1 << nv) - 1), s = bsx::pick("s", 0, (1 << nv) - 1); if ((s & t) == s) { REQUIRE_MSG(isincl(vertex_inclusion_map(setof<std::set<size_t>>(s), setof<std::set<size_t>>(t)), s, t), "inclusion map"); REQUIRE_MSG(isincl(vertex_inclusion_map(setof<vector<size_t>>(s), setof<vector<size_t>>(t)), s, t), "inclusion map of lists"); }
  vector<int> m{s, t}; for (int i = 2; i < len; i++) m.push_back(bsx::pick("m", 0, (1 << nv) - 1)); vector<std::set<size_t>> sub; for (int x : m) sub.push_back(setof<std::set<size_t>>(x));
  auto U = linear_subset_union_diagram(sub), I = linear_cover_intersection_diagram(sub); REQUIRE(U.nnode() == 2 * m.size() - 1 && I.nnode() == U.nnode() && U.nedge() == U.nnode() - 1 && I.nedge() == U.nedge());
  auto at = [&](size_t i, bool un) { return i % 2 ? (un ? m[i / 2] | m[i / 2 + 1] : m[i / 2] & m[i / 2 + 1]) : m[i / 2]; };
  for (size_t i = 0; i < U.nnode(); i++) { REQUIRE_MSG(U.node_data(i) == setof<std::set<size_t>>(at(i, true)), "union diagram sets"); REQUIRE_MSG(I.node_data(i) == setof<std::set<size_t>>(at(i, false)), "intersection diagram sets"); }
  vector<int> su(U.nedge(), 0), si(U.nedge(), 0);
  for (size_t e = 0; e < U.nedge(); e++) { size_t a = U.edge_source(e), b = U.edge_target(e); REQUIRE_MSG(a % 2 == 0 && (b == a + 1 || b + 1 == a) && b < U.nnode(), "arrows into the unions"); REQUIRE_MSG(isincl(U.edge_data(e), at(a, true), at(b, true)), "inclusions into unions"); su[a < b ? a : b]++;
    a = I.edge_source(e); b = I.edge_target(e); REQUIRE_MSG(a % 2 == 1 && (b == a + 1 || b + 1 == a) && b < I.nnode(), "arrows out of the intersections"); REQUIRE_MSG(isincl(I.edge_data(e), at(a, false), at(b, false)), "inclusions of intersections"); si[a < b ? a : b]++; }
  for (size_t e = 0; e < su.size(); e++) REQUIRE_MSG(su[e] == 1 && si[e] == 1, "one arrow between neighbours"); bsx::obs(s & t); END();
}
// connecting map: boundary in the union of a chain of A, restricted to the intersection
template <class Cpx> void mv(size_t nv, const vector<vector<size_t>>& cand) {
  SimplicialComplex A0 = symsimp(nv, cand, "a", 2, true), B0 = symsimp(nv, cand, "b", 2, true); auto conv = [&](const SimplicialComplex& Z) { Cpx W(nv, 2); for (size_t k = 0; k <= 2; k++) for (auto s : Z.get_simplices(k)) W.add(s); return W; };
  SimplicialComplex X0(2), Y0(2); for (size_t k = 0; k <= 2; k++) { for (auto s : A0.get_simplices(k)) { X0.add(s); if (B0.find_idx(s) != NO_IND) Y0.add(s); } for (auto s : B0.get_simplices(k)) if (A0.find_idx(s) == NO_IND) X0.add(s); }
  SimplicialComplex X1 = reorder(X0, "ox"), Y1 = reorder(Y0, "oy"); Cpx A = conv(A0), X = conv(X1), Y = conv(Y1);
  for (size_t k = 0; k < 2; k++) { auto D = mayer_vietoris_boundary(A, X, Y, k); REQUIRE(D.nrow() == Y.ncells(k) && D.ncol() == X.ncells(k + 1)); REQUIRE_MSG(wfm(D), "sorted columns"); auto C = X.boundary_csc(k + 1); int e = 0;
    for (size_t j = 0; j < D.ncol(); j++) { DV col = dvec(D[j], D.nrow()); auto s = X.get_simplex(k + 1, j); bool inA = A0.find_idx(s) != NO_IND; for (size_t i = 0; i < D.nrow(); i++) { int w = inA ? C.getval(X.find_idx(Y.get_simplex(k, i)), j) : 0; if (!e && w) e = col[i] == w ? 1 : -1; REQUIRE_MSG(col[i] == e * w, "boundary of the part in A, restricted to the intersection"); } } }
  bsx::obs(X.ncells()); END();
}
// simplices of the triangulated grid: chains of the componentwise order inside one unit cube
struct Grid { size_t n1, n2, n3; ZV pt(size_t v) const { return {v / (n2 * n3), (v / n3) % n2, v % n3}; } };
template <class Cpx, class P> void checktri(const Cpx& X, const Grid& G, size_t maxd, P inside, const char* what) {
  size_t N = G.n1 * G.n2 * G.n3; size_t tot = 0; ZV st; std::function<void(size_t)> rec = [&](size_t from) { for (size_t v = from; v < N; v++) { st.push_back(v); ZV p0 = G.pt(st[0]); bool chain = true; for (size_t q = 0; q < st.size(); q++) { ZV p = G.pt(st[q]); for (int c = 0; c < 3; c++) { if (p[c] < p0[c] || p[c] > p0[c] + 1) chain = false; if (q && p[c] < G.pt(st[q - 1])[c]) chain = false; } } bool want = chain && inside(G.pt(st[0]), G.pt(st.back())); REQUIRE_MSG((X.find_idx(st) != NO_IND) == want, what); tot += want; if (chain && st.size() <= maxd) rec(v + 1); st.pop_back(); } };
  rec(0); REQUIRE_MSG(X.ncells() == tot, what);
}
template <class Cpx> void grids(size_t hi) {
  size_t a = bsx::pick("a", 2, hi), b = bsx::pick("b", 2, hi), c = bsx::pick("c", 2, hi); auto all = [](const ZV&, const ZV&) { return true; };
  Grid G2{1, a, b}; checktri(Freudenthal<Cpx>(a, b), G2, 2, all, "triangulation of a plane grid"); Grid G{a, b, c}; if (a * b * c <= 12 || BSX_TIER) checktri(Freudenthal<Cpx>(a, b, c), G, 3, all, "triangulation of a grid");
  auto Q = Cube(a, b, c); size_t tot = 0; for (size_t d = 0; d <= 3; d++) for (size_t i = 0; i < Q.ncells(d); i++) { ZV q = Q.get_cube(d, i); REQUIRE(q[1] < a && q[3] < b && q[5] < c && q[1] <= q[0] + 1 && q[3] <= q[2] + 1 && q[5] <= q[4] + 1); tot++; } REQUIRE_MSG(tot == (2 * a - 1) * (2 * b - 1) * (2 * c - 1), "all cubes of the grid"); auto Q2 = Cube(a, b); REQUIRE(Q2.ncells() == (2 * a - 1) * (2 * b - 1)); END();
}
template <class Cpx> void ranges(size_t a, size_t b, size_t c) {
  size_t r[6]; size_t n[3] = {a, b, c}; int flat = 0; for (int d = 0; d < 3; d++) { r[2 * d] = bsx::pick("lo", 0, (int)n[d] - 1); r[2 * d + 1] = bsx::pick("hi", (int)r[2 * d] + 1, (int)n[d]); flat += r[2 * d + 1] == r[2 * d] + 1; } ASSUME(flat <= 1);
  auto in = [&](const ZV& p, const ZV& q) { for (int d = 0; d < 3; d++) if (p[d] < r[2 * d] || q[d] >= r[2 * d + 1]) return false; return true; };
  checktri(Freudenthal<Cpx>(a, b, c, r[0], r[1], r[2], r[3], r[4], r[5]), Grid{a, b, c}, 3, in, "triangulation of a part of the grid"); auto Q = Cube(a, b, c, r[0], r[1], r[2], r[3], r[4], r[5]); size_t want = 1; for (int d = 0; d < 3; d++) want *= 2 * (r[2 * d + 1] - r[2 * d]) - 1; REQUIRE_MSG(Q.ncells() == want, "cubes of a part of the grid"); for (size_t d = 0; d <= 3; d++) for (size_t i = 0; i < Q.ncells(d); i++) { ZV q = Q.get_cube(d, i); for (int e = 0; e < 3; e++) REQUIRE_MSG(r[2 * e] <= q[2 * e] && q[2 * e + 1] < r[2 * e + 1], "cube inside the part"); } END();
}
template <class Cpx> void ofcubes(size_t a, size_t b, size_t c, int steps) {
  CubicalComplex Q(3); size_t n[3] = {a, b, c}; for (int s = 0; s < steps; s++) { ZV q; for (int d = 0; d < 3; d++) { size_t lo = bsx::pick("lo", 0, (int)n[d] - 1), l = bsx::pick("l", 0, (int)(n[d] - 1 - lo > 0)); q.push_back(lo); q.push_back(lo + l); } Q.add_recursive(q); }
  auto in = [&](const ZV& p, const ZV& q) { ZV w{p[0], q[0], p[1], q[1], p[2], q[2]}; return Q.find_idx(w) != NO_IND; }; checktri(Freudenthal<Cpx>(Q, a, b, c), Grid{a, b, c}, 3, in, "triangulation of a cubical complex"); END();
}
const vector<vector<size_t>> TRI{{0, 1}, {1, 2}, {0, 2}, {0, 1, 2}};
BSX_ENTRY(top221) { toplex(2, 2, 1, 2, false); }
BSX_ENTRY(top122) { toplex(1, 2, 2, 2, false); }
BSX_ENTRY(top212) { toplex(2, 1, 2, 2, false); }
BSX_ENTRY(top222) { toplex(2, 2, 2, 2, false); }
BSX_ENTRY(topd) { toplex(2, 1, 1, 2, true); }
BSX_ENTRY(incl) { incl(3, 3); }
BSX_ENTRY(mv) { mv<SimplicialComplex>(3, TRI); }
BSX_ENTRY(mvl) { mv<LC>(3, {{0, 1}, {1, 2}, {0, 2}}); }
BSX_ENTRY(grids) { grids<SimplicialComplex>(3); }
BSX_ENTRY(gridsl) { grids<LC>(3); }
BSX_ENTRY(ranges) { ranges<SimplicialComplex>(3, 2, 2); }
BSX_ENTRY(rangesl) { ranges<LC>(2, 2, 3); }
BSX_ENTRY(ofc) { ofcubes<SimplicialComplex>(2, 2, 3, 1); }
BSX_ENTRY(ofcl) { ofcubes<LC>(2, 2, 2, 2); }
#if BSX_TIER
BSX_ENTRY(ttopd) { toplex(2, 2, 1, 2, true); }
BSX_ENTRY(tincl) { incl(4, 3); }
BSX_ENTRY(tmv) { mv<SimplicialComplex>(4, {{0, 1}, {1, 2}, {0, 2}, {2, 3}, {0, 1, 2}}); }
BSX_ENTRY(tranges) { ranges<SimplicialComplex>(3, 3, 2); }
BSX_ENTRY(tofc) { ofcubes<SimplicialComplex>(2, 3, 2, 2); }
#endif
