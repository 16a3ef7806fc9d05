// C23: barcodes of type-A quiver representations (sequences of linear maps in any directions)
#include "hom.hpp"
using namespace bats;
struct Rep { vector<size_t> d; vector<int> left; vector<DM> A; }; // edge i between nodes i and i+1; left: map from i+1 to i
inline size_t off(const Rep& R, size_t s, size_t i) { size_t o = 0; for (size_t k = s; k < i; k++) o += R.d[k]; return o; }
// number of intervals containing [s,t]: rank of limit -> colimit of the restriction
inline size_t span(const Rep& R, size_t s, size_t t, int p) {
  size_t N = off(R, s, t + 1), E = 0; for (size_t e = s; e < t; e++) E += R.left[e] ? R.d[e] : R.d[e + 1];
  DM C(E, N); size_t r = 0; for (size_t e = s; e < t; e++) { size_t src = R.left[e] ? e + 1 : e, tg = R.left[e] ? e : e + 1; for (size_t i = 0; i < R.d[tg]; i++) { C(r, off(R, s, tg) + i) = md(-1, p); for (size_t j = 0; j < R.d[src]; j++) C(r, off(R, s, src) + j) = R.A[e](i, j); r++; } }
  DM L = dker(C, p); DM in(N, L.n); for (size_t j = 0; j < L.n; j++) for (size_t i = 0; i < R.d[s]; i++) in(i, j) = L(i, j);
  size_t W = 0; for (size_t e = s; e < t; e++) W += R.left[e] ? R.d[e + 1] : R.d[e]; DM rel(N, W); size_t c = 0; for (size_t e = s; e < t; e++) { size_t src = R.left[e] ? e + 1 : e, tg = R.left[e] ? e : e + 1; for (size_t j = 0; j < R.d[src]; j++) { rel(off(R, s, src) + j, c) = 1; for (size_t i = 0; i < R.d[tg]; i++) rel(off(R, s, tg) + i, c) = md(-R.A[e](i, j), p); c++; } }
  return drank(dhcat(in, rel), p) - drank(rel, p);
}
inline void check(const vector<PersistencePair<size_t>>& b, const Rep& R, const vector<vector<size_t>>& want, size_t dim, const char* what) {
  for (auto& x : b) { REQUIRE_MSG(x.dim == dim && x.birth <= x.death && x.death < R.d.size() && x.birth_ind < R.d[x.birth] && x.death_ind < R.d[x.death], what); }
  for (size_t i = 0; i < b.size(); i++) for (size_t j = 0; j < i; j++) { REQUIRE_MSG(!(b[i].birth == b[j].birth && b[i].birth_ind == b[j].birth_ind), "each bar starts at its own basis vector"); REQUIRE_MSG(!(b[i].death == b[j].death && b[i].death_ind == b[j].death_ind), "each bar ends at its own basis vector"); }
  for (size_t s = 0; s < R.d.size(); s++) for (size_t t = s; t < R.d.size(); t++) { size_t c = 0; for (auto& x : b) if (x.birth <= s && x.death >= t) c++; REQUIRE_MSG(c == want[s][t], what); }
}
// the barcode form: every matrix has at most one nonzero, a unit, in every row and column
template <class M> void pivots(const vector<M>& m, const Rep& R, int p, const char* what) { REQUIRE_MSG(m.size() == R.A.size(), what); for (size_t e = 0; e < m.size(); e++) { DM D = dense(m[e]); REQUIRE_MSG(D.m == R.A[e].m && D.n == R.A[e].n, what); for (size_t i = 0; i < D.m; i++) { int c = 0; for (size_t j = 0; j < D.n; j++) c += D(i, j) != 0; REQUIRE_MSG(c <= 1, what); } for (size_t j = 0; j < D.n; j++) { int c = 0; for (size_t i = 0; i < D.m; i++) c += D(i, j) != 0; REQUIRE_MSG(c <= 1, what); } } }
template <int P> Diagram<int, CM<P>> diagram(const Rep& R) { Diagram<int, CM<P>> D(R.d.size(), R.A.size()); for (size_t e = 0; e < R.A.size(); e++) D.set_edge(e, R.left[e] ? e + 1 : e, R.left[e] ? e : e + 1, matof<CM<P>>(R.A[e])); return D; }
// dirs: bit e set = left arrow; -1 = symbolic
template <int P> Rep symrep(const vector<size_t>& d, int dirs) { Rep R; R.d = d; for (size_t e = 0; e + 1 < d.size(); e++) { int l = dirs < 0 ? bsx::pick("left", 0, 1) : dirs >> e & 1; R.left.push_back(l); R.A.push_back(l ? symdense("m", d[e], d[e + 1], P) : symdense("m", d[e + 1], d[e], P)); } return R; }
inline vector<vector<size_t>> spans(const Rep& R, int p) { vector<vector<size_t>> w; for (size_t s = 0; s < R.d.size(); s++) { w.push_back(vector<size_t>(R.d.size(), 0)); for (size_t t = s; t < R.d.size(); t++) w[s][t] = span(R, s, t, p); } return w; }
template <int P> void rep(const vector<size_t>& d, int dirs, int threads = 1) {
  bsx_threads(threads); Rep R = symrep<P>(d, dirs); auto D = diagram<P>(R); auto w = spans(R, P);
  check(barcode(D, 1, bats::flags::rightward()), R, w, 1, "barcode, sweep to the right"); check(barcode(D, 0, bats::flags::leftward()), R, w, 0, "barcode, sweep to the left"); auto b = barcode(D, 2); check(b, R, w, 2, "barcode"); if (threads > 1) check(barcode(D, 2, bats::flags::divide_conquer()), R, w, 2, "barcode, divide and conquer");
  pivots(barcode_form_leftright(D), R, P, "barcode form"); pivots(barcode_form_rightleft(D), R, P, "barcode form"); bsx::obs(b.size()); END();
}
template <int P> void dq(const vector<size_t>& d, int dirs, int threads) { bsx_threads(threads); Rep R = symrep<P>(d, dirs); auto D = diagram<P>(R); auto b = barcode(D, 2); check(b, R, spans(R, P), 2, "barcode, divide and conquer"); pivots(barcode_form_divide_conquer(D), R, P, "barcode form"); bsx::obs(b.size()); END(); }
// long diagrams over F2 (nested recursion): the maps of the edges in mask are arbitrary, the others are [I 0; 0 0]
inline size_t span2(const Rep& R, size_t s, size_t t) {
  typedef uint64_t W; auto low = [](W v) { return v & (~v + 1); }; vector<size_t> o; size_t N = 0, E = 0; for (size_t k = s; k <= t; k++) { o.push_back(N); N += R.d[k]; } vector<size_t> eo; for (size_t e = s; e < t; e++) { eo.push_back(E); E += R.left[e] ? R.d[e] : R.d[e + 1]; }
  // constraints of the limit as images of the unit vectors
  vector<W> img(N, 0), gen(N, 0); for (size_t i = 0; i < N; i++) gen[i] = (W)1 << i; vector<W> rel; for (size_t e = s; e < t; e++) { size_t src = R.left[e] ? e + 1 : e, tg = R.left[e] ? e : e + 1; for (size_t i = 0; i < R.d[tg]; i++) img[o[tg - s] + i] ^= (W)1 << (eo[e - s] + i); for (size_t j = 0; j < R.d[src]; j++) { W r = (W)1 << (o[src - s] + j); for (size_t i = 0; i < R.d[tg]; i++) if (R.A[e](i, j)) { img[o[src - s] + j] ^= (W)1 << (eo[e - s] + i); r ^= (W)1 << (o[tg - s] + i); } rel.push_back(r); } }
  vector<W> ker; vector<std::pair<W, W>> el; for (size_t i = 0; i < N; i++) { W v = img[i], c = gen[i]; for (auto& b : el) if (v & low(b.first)) { v ^= b.first; c ^= b.second; } if (v) el.push_back({v, c}); else ker.push_back(c); }
  vector<W> sp; auto add = [&](W v) { for (W b : sp) if (v & low(b)) v ^= b; if (v) sp.push_back(v); return v != 0; }; for (W r : rel) add(r); size_t n = 0; W m = ((W)1 << R.d[s]) - 1; for (W k : ker) n += add(k & m); return n;
}
inline void longdq(const vector<size_t>& d, int dirs, int mask) {
  bsx_threads(4); Rep R; R.d = d; for (size_t e = 0; e + 1 < d.size(); e++) { int l = dirs >> e & 1; size_t m = l ? d[e] : d[e + 1], n = l ? d[e + 1] : d[e]; DM A(m, n); if (mask >> e & 1) { int b = bsx::pick("map", 0, (1 << (m * n)) - 1); for (size_t i = 0; i < m * n; i++) A.a[i] = b >> i & 1; } else for (size_t i = 0; i < m && i < n; i++) A(i, i) = 1; R.left.push_back(l); R.A.push_back(A); }
  auto D = diagram<2>(R); auto b = barcode(D, 2); vector<vector<size_t>> w; for (size_t s = 0; s < d.size(); s++) { w.push_back(vector<size_t>(d.size(), 0)); for (size_t t = s; t < d.size(); t++) w[s][t] = span2(R, s, t); } check(b, R, w, 2, "barcode, nested divide and conquer"); pivots(barcode_form_divide_conquer(D), R, 2, "barcode form"); bsx::obs(b.size()); END();
}
// spaces of dimension 3: a permutation on edge c between maps of low rank, all directions of the three edges
inline void cycle(int c, int dirs, int flip) {
  bsx_threads(4); Rep R; R.d = vector<size_t>(12, 1); for (int e = c - 1; e <= c + 2; e++) R.d[e] = 3; static const int perm[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}};
  for (int e = 0; e < 11; e++) { int l = e >= c - 1 && e <= c + 1 && (flip >> (e - c + 1) & 1) ? bsx::pick("left", 0, 1) : dirs >> e & 1; size_t m = R.d[l ? e : e + 1], n = R.d[l ? e + 1 : e]; DM A(m, n);
    if (e == c) { int q = bsx::pick("perm", 0, 5); for (size_t j = 0; j < 3; j++) A(perm[q][j], j) = 1; } else if (e == c - 1 || e == c + 1) { int q = bsx::pick("low", 0, 6); if (q < 3) A(q, q) = 1; else if (q < 6) { A(q - 3, q - 3) = A((q - 2) % 3, (q - 2) % 3) = 1; } else { A(0, 1) = A(1, 2) = 1; } } else for (size_t i = 0; i < m && i < n; i++) A(i, i) = 1; R.left.push_back(l); R.A.push_back(A); }
  auto D = diagram<2>(R); auto b = barcode(D, 2); vector<vector<size_t>> w; for (size_t s = 0; s < 12; s++) { w.push_back(vector<size_t>(12, 0)); for (size_t t = s; t < 12; t++) w[s][t] = span2(R, s, t); } check(b, R, w, 2, "barcode, permutations of a space of dimension 3"); check(barcode(D, 1, bats::flags::rightward()), R, w, 1, "sweep to the right, dimension 3"); check(barcode(D, 0, bats::flags::leftward()), R, w, 0, "sweep to the left, dimension 3"); bsx::obs(b.size()); END();
}
// several dimensions at once
template <int P> void stacked(const vector<size_t>& d0, const vector<size_t>& d1) {
  bsx_threads(bsx::pick("threads", 1, 2)); Rep R = symrep<P>(d0, -1), S; S.d = d1; S.left = R.left; for (size_t e = 0; e + 1 < d1.size(); e++) S.A.push_back(R.left[e] ? symdense("n", d1[e], d1[e + 1], P) : symdense("n", d1[e + 1], d1[e], P));
  Diagram<int, vector<CM<P>>> D(d0.size(), R.A.size()); for (size_t e = 0; e < R.A.size(); e++) { vector<CM<P>> v{matof<CM<P>>(R.A[e]), matof<CM<P>>(S.A[e])}; D.set_edge(e, R.left[e] ? e + 1 : e, R.left[e] ? e : e + 1, v); }
  auto b = barcode(D); vector<PersistencePair<size_t>> b0, b1; for (auto& x : b) { REQUIRE(x.dim < 2); (x.dim ? b1 : b0).push_back(x); } check(b0, R, spans(R, P), 0, "bars of dimension 0"); check(b1, S, spans(S, P), 1, "bars of dimension 1"); auto c = barcode(D, bats::flags::leftward()); REQUIRE(c.size() == b.size()); END();
}
BSX_ENTRY(r1) { rep<2>({2, 2}, -1); }
BSX_ENTRY(r1t) { rep<3>({2, 2}, -1); }
BSX_ENTRY(r2) { rep<2>({2, 2, 2}, -1); }
BSX_ENTRY(r2a) { rep<2>({2, 1, 2}, -1); }
BSX_ENTRY(r2t) { rep<3>({1, 2, 1}, -1); }
BSX_ENTRY(r3) { rep<2>({1, 2, 2, 1}, -1); }
BSX_ENTRY(r4) { rep<3>({1, 1, 1, 1, 1}, -1); }
BSX_ENTRY(dq5) { dq<2>({1, 1, 1, 1, 1, 1}, -1, 4); }
BSX_ENTRY(dq5z) { dq<2>({1, 1, 2, 2, 1, 1}, 0x0a, 4); }
BSX_ENTRY(dq5y) { dq<2>({1, 1, 2, 2, 1, 1}, 0x05, 4); }
BSX_ENTRY(st) { stacked<2>({1, 2, 1}, {1, 1, 2}); }
BSX_ENTRY(zero) { rep<2>({1, 0, 2, 1}, -1); }
BSX_ENTRY(zero2) { rep<3>({0, 1, 1, 0}, -1); }
BSX_ENTRY(zdq) { dq<2>({0, 1, 2, 0, 1, 1}, 0x0d, 4); }
BSX_ENTRY(dq6) { dq<2>({1, 1, 1, 2, 1, 1, 1}, 0x26, 4); }
BSX_ENTRY(r5) { rep<5>({1, 2}, -1); }
BSX_ENTRY(r5b) { rep<5>({1, 1, 1}, -1); }
BSX_ENTRY(r5c) { rep<5>({2, 2}, 0); }
#define D12 {2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2}
BSX_ENTRY(nl) { longdq(D12, 0x000, 0x030); }
BSX_ENTRY(nr) { longdq(D12, 0x000, 0x060); }
BSX_ENTRY(nla) { longdq(D12, 0x7ff, 0x030); }
BSX_ENTRY(nra) { longdq(D12, 0x7ff, 0x060); }
BSX_ENTRY(nlm) { longdq(D12, 0x333, 0x018); }
BSX_ENTRY(nrm) { longdq(D12, 0x4cd, 0x0c0); }
BSX_ENTRY(c2) { cycle(2, 0x555, 7); }
BSX_ENTRY(c8) { cycle(8, 0x2aa, 7); }
#if BSX_TIER
BSX_ENTRY(c3) { cycle(3, 0x000, 7); }
BSX_ENTRY(c7) { cycle(7, 0x000, 7); }
BSX_ENTRY(c5) { cycle(5, 0x0f3, 7); }
BSX_ENTRY(tnl) { longdq(D12, 0x555, 0x034); }
BSX_ENTRY(tnr) { longdq(D12, 0x2aa, 0x160); }
BSX_ENTRY(tnl2) { longdq(D12, 0x2d3, 0x00e); }
BSX_ENTRY(tnr2) { longdq(D12, 0x72c, 0x380); }
BSX_ENTRY(dq5f) { dq<5>({1, 1, 1, 1, 1, 1}, 0x15, 4); }
BSX_ENTRY(t3) { rep<2>({2, 2, 2, 1}, -1); }
BSX_ENTRY(t3t) { rep<3>({1, 2, 1, 1}, -1); }
BSX_ENTRY(t33) { rep<2>({3, 2, 3}, 0x1); }
BSX_ENTRY(tdq5) { dq<2>({1, 1, 2, 2, 1, 1}, -1, 4); }
BSX_ENTRY(tdq3) { dq<3>({1, 1, 1, 1, 1, 1}, 0x15, 4); }
BSX_ENTRY(tdq11) { dq<2>({1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, 0x555, 4); }
BSX_ENTRY(tdq11b) { dq<2>({1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, 0x2c6, 4); }
BSX_ENTRY(tdq11c) { dq<2>({1, 1, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1}, 0x2aa, 4); }
BSX_ENTRY(tdq11d) { dq<2>({1, 1, 1, 1, 1, 1, 1, 1, 2, 1, 1, 1}, 0x000, 8); }
#endif
