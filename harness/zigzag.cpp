// C22: zigzag barcodes of complexes whose cells enter and leave, against the interval ranks of the zigzag of homology groups
#include "simp.hpp"
#include <zigzag/extension.hpp>
using namespace bats;
typedef vector<vector<vector<std::pair<int, int>>>> IVS;            // [dim][cell] -> disjoint closed intervals, in increasing order
typedef uint64_t W;
// --- F2 oracle on bit rows
struct Span { vector<W> r; bool add(W v) { for (W b : r) { W h = b; h |= h >> 1; h |= h >> 2; h |= h >> 4; h |= h >> 8; h |= h >> 16; h |= h >> 32; h ^= h >> 1; if (v & h) v ^= b; } if (!v) return false; r.push_back(v); return true; } };
// kernel of the map taking generator g to img[g] (generators are given as masks gen[g])
inline vector<W> kern(const vector<W>& img, const vector<W>& gen) { vector<W> k; vector<std::pair<W, W>> e; for (size_t g = 0; g < img.size(); g++) { W v = img[g], c = gen[g]; for (auto& b : e) { W h = b.first; h |= h >> 1; h |= h >> 2; h |= h >> 4; h |= h >> 8; h |= h >> 16; h |= h >> 32; h ^= h >> 1; if (v & h) { v ^= b.first; c ^= b.second; } } if (v) e.push_back({v, c}); else k.push_back(c); } return k; }
struct ZZ {
  vector<vector<W>> col; vector<size_t> n; vector<vector<W>> on;   // boundary columns as masks, cell counts, presence [dim][position]
  size_t np;
  vector<W> cycles(size_t k, size_t p) const { vector<W> img, gen; for (size_t j = 0; j < n[k]; j++) if (on[k][p] >> j & 1) { img.push_back(k ? col[k][j] : 0); gen.push_back((W)1 << j); } return kern(img, gen); }
  vector<W> bounds(size_t k, size_t p) const { vector<W> r; if (k + 1 < n.size()) for (size_t j = 0; j < n[k + 1]; j++) if (on[k + 1][p] >> j & 1) r.push_back(col[k + 1][j]); return r; }
  // number of summands of H_k of the zigzag containing positions s..t: rank of limit -> colimit (odd positions include into their even neighbours' unions: every map is an inclusion, the smaller complex into the larger)
  size_t count(size_t k, size_t s, size_t t) const {
    size_t L = t - s + 1, w = n[k]; vector<W> gen, img; vector<W> rel; Span sp;
    // unknowns: a cycle at every position and, for every adjacent pair, a boundary (in the larger complex) relating them
    for (size_t p = s; p <= t; p++) for (W z : cycles(k, p)) { W im = 0; if (p > s) im ^= z << ((p - s - 1) * w); if (p < t) im ^= z << ((p - s) * w); img.push_back(im); gen.push_back(z << ((p - s) * w)); }
    for (size_t p = s; p < t; p++) { size_t q = p % 2 ? p + 1 : p; for (W b : bounds(k, q)) { img.push_back(b << ((p - s) * w)); gen.push_back(0); } }
    vector<W> lim = kern(img, gen);
    for (size_t p = s; p <= t; p++) for (W b : bounds(k, p)) sp.add(b << ((p - s) * w));
    for (size_t p = s; p < t; p++) { size_t q = p % 2 ? p : p + 1; for (W z : cycles(k, q)) sp.add((z << ((p - s) * w)) ^ (z << ((p - s + 1) * w))); }
    size_t r = 0; W m = (((W)1 << w) - 1); for (W v : lim) if (sp.add(v & m)) r++; (void)L; return r;
  }
};
struct Ranks { vector<int> v; void put(int x) { size_t i = 0; while (i < v.size() && v[i] < x) i++; if (i < v.size() && v[i] == x) return; v.insert(v.begin() + i, x); } size_t of(int x) const { size_t i = 0; while (i < v.size() && v[i] != x) i++; return i; } };
inline ZZ oracle(const vector<DM>& B, const IVS& iv, Ranks& R) {
  ZZ z; for (auto& d : iv) for (auto& c : d) for (auto& i : c) { R.put(i.first); R.put(i.second); } z.np = 2 * R.v.size() - 1;
  for (size_t k = 0; k < B.size(); k++) { z.n.push_back(B[k].n); vector<W> c; for (size_t j = 0; j < B[k].n; j++) { W m = 0; if (k) for (size_t i = 0; i < B[k].m; i++) if (B[k](i, j) != 0) m |= (W)1 << i; c.push_back(m); } z.col.push_back(c);
    vector<W> on(z.np, 0); for (size_t j = 0; j < B[k].n; j++) for (auto& i : iv[k][j]) { size_t a = 2 * R.of(i.first), b = 2 * R.of(i.second); for (size_t p = a; p <= b; p++) on[p] |= (W)1 << j; } z.on.push_back(on); }
  return z;
}
template <class T> void check_bars(const vector<vector<zigzag::ZigzagPair<T>>>& bars, const ZZ& z, const Ranks& R, size_t top, const char* what) {
  REQUIRE_MSG(bars.size() == top + 1, "one list of bars per dimension");
  for (size_t k = 0; k <= top; k++) { vector<std::pair<int, int>> se; for (auto& b : bars[k]) { REQUIRE_MSG(b.get_dim() == k, "dimension of a bar"); size_t rb = R.v.size(), rd = R.v.size(); for (size_t i = 0; i < R.v.size(); i++) { if ((T)R.v[i] == b.get_birth()) rb = i; if ((T)R.v[i] == b.get_death()) rd = i; } REQUIRE_MSG(rb < R.v.size() && rd < R.v.size(), "bars begin and end at entry or removal values"); se.push_back({b.birth_is_entry ? 2 * (int)rb : 2 * (int)rb + 1, b.death_is_entry ? 2 * (int)rd - 1 : 2 * (int)rd}); }
    for (size_t s = 0; s < z.np; s++) for (size_t t = s; t < z.np; t++) { size_t c = 0; for (auto& x : se) if (x.first <= (int)s && x.second >= (int)t) c++; REQUIRE_MSG(c == z.count(k, s, t), what); } }
}
// the critical cell of each end of a bar has an interval starting (ending) there
template <class T> void check_cells(const vector<vector<zigzag::ZigzagPair<T>>>& bars, const IVS& iv) {
  for (auto& l : bars) for (auto& b : l) for (int e = 0; e < 2; e++) { bool entry = e ? b.death_is_entry : b.birth_is_entry; size_t d = b.get_dim() + ((e ? entry : !entry) ? 1 : 0); size_t ci = e ? b.get_death_ind() : b.get_birth_ind(); T v = e ? b.get_death() : b.get_birth(); REQUIRE_MSG(d < iv.size(), "critical cell dimension"); if (ci < iv[d].size()) { bool ok = false; for (auto& i : iv[d][ci]) ok |= (T)(entry ? i.first : i.second) == v; REQUIRE_MSG(ok, "critical cell of a bar"); } }
}
inline vector<vector<vector<std::pair<double, double>>>> dbl(const IVS& iv) { vector<vector<vector<std::pair<double, double>>>> r; for (auto& a : iv) { vector<vector<std::pair<double, double>>> x; for (auto& b : a) { vector<std::pair<double, double>> y; for (auto& i : b) y.push_back({(double)i.first, (double)i.second}); x.push_back(y); } r.push_back(x); } return r; }
// symbolic intervals: each cell has up to mult[k] disjoint intervals inside those of its faces; cells of dimension < fixed are always present
// (skeleton mode: from the top down, each cell gets an interval around those of its cofaces, and possibly a second one; one cell per dimension stays undetermined)
inline IVS symiv(const vector<DM>& B, int V, size_t fixed, const vector<int>& mult) {
  if (sk().seeds) { IVS iv(B.size()); for (size_t q = 0; q < B.size(); q++) { size_t k = B.size() - 1 - q; int open = B[k].n ? skr((int)B[k].n) : 0; for (size_t j = 0; j < B[k].n; j++) { vector<std::pair<int, int>> need, c; if (k + 1 < B.size()) for (size_t t = 0; t < B[k + 1].n; t++) if (B[k + 1](j, t)) for (auto& x : iv[k + 1][t]) need.push_back(x);
      int r1 = skr(V + 1), r2 = skr(V + 1), r3 = skr(V + 1), r4 = skr(V + 1), lo = r1 < r2 ? r1 : r2, hi = r1 < r2 ? r2 : r1; bool split = mult[k] > 1 && skr(2); if (need.size()) { lo = V; hi = 0; for (auto& x : need) { if (x.first < lo) lo = x.first; if (x.second > hi) hi = x.second; } if (r3 > lo) r3 = lo; lo = r3; if (r4 < hi) r4 = hi; hi = r4; }
      if ((int)j == open) { lo = need.size() ? bsx::pick("a", 0, lo) : bsx::pick("a", 0, V); hi = need.size() ? bsx::pick("b", hi, V) : bsx::pick("b", lo, V); }
      // split the hull where no coface needs it, or append a separate interval
      bool did = false; if (split) for (int m = lo; m < hi && !did; m++) { bool ok = true; for (auto& x : need) if (x.first <= m && m < x.second) ok = false; if (ok) { c.push_back({lo, m}); c.push_back({m + 1, hi}); did = true; } } if (!did) { if (split && lo > 1) c.push_back({0, lo - 2}); c.push_back({lo, hi}); } iv[k].push_back(c); } } return iv; }
  IVS iv; for (size_t k = 0; k < B.size(); k++) { vector<vector<std::pair<int, int>>> l; for (size_t j = 0; j < B[k].n; j++) { vector<std::pair<int, int>> c; if (k < fixed) c.push_back({0, V}); else { int m = mult[k] > 1 ? bsx::pick("m", 1, mult[k]) : 1, last = -1; for (int q = 0; q < m; q++) { int a = bsx::sym("a", 0, V), b = bsx::sym("b", 0, V); ASSUME(a <= b && last < a); last = b;
      if (k) for (size_t i = 0; i < B[k].m; i++) if (B[k](i, j)) { bool in = false; for (auto& f : iv[k - 1][i]) if (f.first <= a && b <= f.second) in = true; ASSUME(in); } c.push_back({a, b}); } } l.push_back(c); } iv.push_back(l); }
  return iv;
}
template <class FT, class RF, class Cpx> void run(const Cpx& X, const vector<DM>& B, int V, size_t fixed, vector<int> mult, int maxdim, RF rf) {
  IVS iv = symiv(B, V, fixed, mult); Ranks R; ZZ z = oracle(B, iv, R); zigzag::ZigzagFiltration<Cpx, double> F(X, dbl(iv));
  auto bars = zigzag::barcode(F, maxdim, FT(), no_optimization_flag(), rf); size_t top = maxdim < 0 ? B.size() - 2 : (size_t)maxdim;
  check_bars(bars, z, R, top, "zigzag barcode"); check_cells(bars, iv); for (auto& l : bars) bsx::obs(l.size()); END();
}
template <int P, class RF> void simp(size_t nv, const vector<vector<size_t>>& cand, size_t maxd, int V, size_t fixed, vector<int> mult, int maxdim, RF rf) {
  SimplicialComplex X0 = symsimp(nv, cand, "x", maxd), X = reorder(X0, "ord"); run<ModP<int, P>>(X, bdense(X, P), V, fixed, mult, maxdim, rf);
}
// cells in the general preparation (not simplicial): arbitrary chain complexes over F2
template <class RF> void gen(const vector<size_t>& n, int V, size_t fixed, vector<int> mult, int maxdim, RF rf) {
  AnyCpx X; X.B = symcomplex(n, 2); run<ModP<int, 2>>(X, X.B, V, fixed, mult, maxdim, rf);
}
const standard_reduction_flag SR; const extra_reduction_flag ER;
const vector<vector<size_t>> TRI{{0, 1}, {1, 2}, {0, 2}, {0, 1, 2}};
BSX_ENTRY(edge) { simp<2>(2, {{0, 1}}, 1, 5, 0, {1, 1}, 0, SR); }
BSX_ENTRY(edgex) { simp<3>(2, {{0, 1}}, 1, 5, 0, {1, 1}, -1, ER); }
// additions (some refused), level sets and the recorded intervals
inline void build(int steps) {
  zigzag::ZigzagFiltration<SimplicialComplex, double> F(3, 2); SM M; M.s.resize(3); IVS iv(3);
  auto rec = [&](const ZV& s, int a, int b) { size_t i = M.find(s); if (i == NO_IND) { i = M.put(s); iv[s.size() - 1].push_back({}); } iv[s.size() - 1][i].push_back({a, b}); };
  for (int st = 0; st < steps; st++) { ZV s = maskset(bsx::pick("s", 1, 7)); int a = bsx::sym("a", 0, 3), b = bsx::sym("b", 0, 3); ASSUME(a <= b); bool r = bsx::symb("rec"); ZV arg = s; bool fresh = true; for (size_t i : {M.find(s)}) if (i != NO_IND) for (auto& x : iv[s.size() - 1][i]) fresh &= x.second < a; ASSUME(fresh);
    if (r) { bool had = M.find(s) != NO_IND; auto ret = F.add_recursive((double)a, (double)b, arg); for (auto& c : ret) { ZV f = F.complex().get_simplex(c.dim, c.ind); if (had && f == s) { if (F.vals(c.dim)[c.ind].size() == iv[c.dim][c.ind].size()) continue; } rec(f, a, b); } }
    else { bool ok = M.hasfaces(s); auto c = F.add((double)a, (double)b, arg); if (ok) { rec(s, a, b); REQUIRE_MSG(c.dim == s.size() - 1 && c.ind == M.find(s), "index of the added cell"); } else REQUIRE_MSG(c.ind == NO_IND, "refused"); } }
  agreesm(F.complex(), M, 3, "complex of the zigzag filtration"); for (size_t k = 0; k < 3; k++) { size_t n = M.s[k].size(); if (k >= F.vals().size()) { REQUIRE(n == 0); continue; } REQUIRE(F.ncells(k) == n); for (size_t i = 0; i < n; i++) { auto& l = F.vals(k)[i]; REQUIRE_MSG(l.size() == iv[k][i].size(), "intervals recorded"); for (size_t q = 0; q < l.size(); q++) REQUIRE_MSG(l[q].first == (double)iv[k][i][q].first && l[q].second == (double)iv[k][i][q].second, "interval recorded"); } } END();
}
inline void levels(size_t nv, const vector<vector<size_t>>& cand, int V) {
  SimplicialComplex X0 = symsimp(nv, cand, "x", 2), X = reorder(X0, "ord"); vector<DM> B = bdense(X, 2); IVS iv = symiv(B, V, 0, {2, 1, 1}); zigzag::ZigzagFiltration<SimplicialComplex, double> F(X, dbl(iv));
  int a = bsx::sym("s0", 0, V), b = bsx::sym("s1", 0, V); ASSUME(a <= b); auto L = F.levelset((double)a, (double)b); size_t tot = 0;
  for (size_t k = 0; k <= 2; k++) for (size_t i = 0; i < X.ncells(k); i++) { bool in = false; for (auto& x : iv[k][i]) if (x.first <= b && a <= x.second) in = true; REQUIRE_MSG((L.find_idx(X.get_simplex(k, i)) != NO_IND) == in, "level set"); tot += in; } REQUIRE(L.ncells() == tot); bsx::obs(tot); END();
}
// extension of vertex functions: entry = largest vertex value - eps, removal = smallest + eps; then the barcode
inline void ext(size_t nv, const vector<vector<size_t>>& cand, int V) {
  SimplicialComplex X0 = symsimp(nv, cand, "x", 2), X = reorder(X0, "ord"); vector<DM> B = bdense(X, 2); vector<double> f; vector<int> fi; for (size_t i = 0; i < nv; i++) { fi.push_back(bsx::sym("f", -V, V)); f.push_back((double)fi.back()); } int eps = bsx::sym("eps", 0, V);
  IVS iv(3); bool ok = true; for (size_t k = 0; k <= 2; k++) for (size_t i = 0; i < X.ncells(k); i++) { int hi = -99, lo = 99; for (size_t v : X.get_simplex(k, i)) { if (fi[v] > hi) hi = fi[v]; if (fi[v] < lo) lo = fi[v]; } if (hi - eps > lo + eps) ok = false; iv[k].push_back({{hi - eps, lo + eps}}); } ASSUME(ok);
  auto F = zigzag::extend_zigzag_filtration(f, X, (double)eps); REQUIRE(F.maxdim() == 2); for (size_t k = 0; k <= 2; k++) { REQUIRE(F.ncells(k) == X.ncells(k)); for (size_t i = 0; i < X.ncells(k); i++) REQUIRE_MSG(F.vals(k)[i].size() == 1 && F.vals(k)[i][0].first == (double)iv[k][i][0].first && F.vals(k)[i][0].second == (double)iv[k][i][0].second, "extended interval"); } END();
}
inline void extcube(int V) {
  CubicalComplex X(3); ZV c{0, 1, 0, 1, 0, 1}; X.add_recursive(c); vector<double> f; vector<int> fi; for (int i = 0; i < 8; i++) { fi.push_back(i % 3 ? bsx::sym("f", -V, V) : -1); f.push_back((double)fi.back()); } int eps = bsx::pick("eps", 0, 1);
  auto ex = [&](size_t k, size_t i) { ZV q = X.get_cube(k, i); int hi = -99, lo = 99; for (size_t x : {q[0], q[1]}) for (size_t y : {q[2], q[3]}) for (size_t z : {q[4], q[5]}) { int v = fi[z + 2 * (y + 2 * x)]; if (v > hi) hi = v; if (v < lo) lo = v; } return std::make_pair(hi - eps, lo + eps); };
  auto F = zigzag::extend_zigzag_filtration(f, X, (double)eps, 2); bool all = true;
  for (size_t k = 0; k <= 3; k++) { size_t tot = 0; for (size_t i = 0; i < X.ncells(k); i++) { auto e = ex(k, i); size_t j = F.complex().find_idx(X.get_cube(k, i)); bool in = e.first <= e.second; all &= in; REQUIRE_MSG((j != NO_IND) == in, "cubes whose interval is not empty"); if (in) { tot++; REQUIRE_MSG(F.vals(k)[j].size() == 1 && F.vals(k)[j][0].first == (double)e.first && F.vals(k)[j][0].second == (double)e.second, "extended interval of a cube"); } } REQUIRE(F.complex().ncells(k) == tot); }
  if (all) { auto v = zigzag::extend_levelset(f, X, (double)eps, 2); REQUIRE(v.size() == 4); for (size_t k = 0; k <= 3; k++) { REQUIRE(v[k].size() == X.ncells(k)); for (size_t i = 0; i < X.ncells(k); i++) { auto e = ex(k, i); REQUIRE_MSG(v[k][i].size() == 1 && v[k][i][0].first == (double)e.first && v[k][i][0].second == (double)e.second, "extended levelset interval"); } } } END();
}
// cubical zigzag filtrations of two squares
inline void cubz(int V) {
  CubicalComplex X(2); ZV c{0, 1, 0, 1}; X.add_recursive(c); vector<DM> B; for (size_t k = 0; k <= 2; k++) { if (!k) { B.push_back(DM(1, X.ncells(0))); continue; } DM b(X.ncells(k - 1), X.ncells(k)); auto C = X.boundary_csc(k); for (size_t i = 0; i < b.m; i++) for (size_t j = 0; j < b.n; j++) b(i, j) = C.getval(i, j) != 0; B.push_back(b); } run<ModP<int, 2>>(X, B, V, 1, {1, 1, 1}, 1, SR);
}
SKEL(kgen, 8, 1, gen({4, 6, 3}, 3, 0, {1, 1, 1}, 1, SR)) SKEL(kgenx, 8, 1, gen({4, 6, 3}, 2, 0, {2, 2, 1}, 1, ER)) SKEL(kgenm, 8, 1, gen({3, 4, 3, 2}, 2, 0, {2, 1, 2, 1}, 2, SR))
BSX_ENTRY(build) { build(2); }
BSX_ENTRY(lev) { levels(3, {{0, 1}, {1, 2}}, 2); }
BSX_ENTRY(ext) { ext(3, TRI, 2); }
BSX_ENTRY(extcube) { extcube(1); }
BSX_ENTRY(cubz) { cubz(1); }
BSX_ENTRY(tri) { simp<2>(3, TRI, 2, 2, 1, {1, 1, 1}, 1, SR); }
BSX_ENTRY(trix) { simp<2>(3, TRI, 2, 2, 1, {1, 1, 1}, 2, ER); }
BSX_ENTRY(path) { simp<3>(3, {{0, 1}, {1, 2}}, 1, 2, 0, {1, 1}, 0, SR); }
BSX_ENTRY(mult) { simp<2>(2, {{0, 1}}, 1, 2, 0, {2, 2}, 1, SR); }
BSX_ENTRY(multv) { simp<2>(3, {{0, 1}, {1, 2}}, 1, 3, 1, {1, 2}, 1, SR); }
BSX_ENTRY(gen12) { gen({2, 2}, 2, 1, {1, 1}, 0, SR); }
BSX_ENTRY(gen121) { gen({1, 1, 2}, 2, 1, {1, 1, 1}, 1, ER); }
#if BSX_TIER
BSX_ENTRY(ttri) { simp<2>(3, TRI, 2, 4, 1, {1, 1, 1}, 1, SR); }
BSX_ENTRY(ttri0) { simp<2>(3, TRI, 2, 1, 0, {1, 1, 1}, 1, ER); }
BSX_ENTRY(tpath) { simp<3>(3, {{0, 1}, {1, 2}}, 1, 3, 0, {1, 1}, 0, SR); }
BSX_ENTRY(tcyc) { simp<2>(4, {{0, 1}, {1, 2}, {2, 3}, {0, 3}}, 1, 2, 1, {1, 1}, 1, SR); }
BSX_ENTRY(tmult) { simp<2>(3, {{0, 1}, {1, 2}, {0, 2}}, 1, 4, 1, {1, 2}, 1, SR); }
BSX_ENTRY(tmult2) { simp<2>(2, {{0, 1}}, 1, 4, 0, {2, 2}, 1, ER); }
BSX_ENTRY(tgen22) { gen({2, 2}, 5, 1, {1, 1}, 1, ER); }
BSX_ENTRY(tgen122) { gen({1, 2, 2}, 3, 1, {1, 1, 1}, 1, SR); }
BSX_ENTRY(tcubz) { cubz(2); }
BSX_ENTRY(tbuild) { build(3); }
#endif
