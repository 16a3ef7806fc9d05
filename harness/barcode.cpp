// C38: barcodes as values: equality as multisets, lengths and midpoints, extraction from reduced matrices, comparison of reductions
#include "filt.hpp"
#include <persistence/extract.hpp>
using namespace bats;
typedef PersistencePair<double> PP; typedef zigzag::ZigzagPair<double> ZP;
struct Row { int d, b, e; bool inf; };
inline Row symrow(int D, int V) { Row r; r.d = bsx::pick("dim", 0, D); r.b = bsx::sym("birth", 0, V); r.inf = bsx::symb("inf"); r.e = r.inf ? 0 : bsx::sym("death", 0, V); if (!r.inf) ASSUME(r.b <= r.e); return r; }
inline bool same(const Row& a, const Row& b) { return a.d == b.d && a.b == b.b && a.inf == b.inf && a.e == b.e; }
inline double dd(const Row& r) { return r.inf ? std::numeric_limits<double>::infinity() : (double)r.e; }
inline void equality(size_t n, size_t m, int D, int V) {
  vector<Row> x, y; vector<PP> p, q; size_t id = 0; for (size_t i = 0; i < n; i++) { x.push_back(symrow(D, V)); p.emplace_back((size_t)x[i].d, id, id + 1, (double)x[i].b, dd(x[i])); id++; } for (size_t i = 0; i < m; i++) { y.push_back(symrow(D, V)); q.emplace_back((size_t)y[i].d, id, id + 1, (double)y[i].b, dd(y[i])); id++; }
  bool eq = n == m; for (auto& r : x) { size_t a = 0, b = 0; for (auto& s : x) a += same(r, s); for (auto& s : y) b += same(r, s); if (a != b) eq = false; }
  REQUIRE_MSG(barcode_equality(p, q) == eq, "barcodes are equal exactly if they have the same bars with the same multiplicities"); REQUIRE_MSG(barcode_equality(q, p) == eq, "equality is symmetric"); REQUIRE(barcode_equality(p, p));
  if (n && m) { REQUIRE((p[0] == q[0]) == same(x[0], y[0]) && (p[0] != q[0]) == !same(x[0], y[0])); } bsx::obs(eq); END();
}
// one bar: accessors, length, midpoint; zigzag bars compare the same way
inline void one(int V) {
  Row r = symrow(3, V), s = symrow(3, V); size_t bi = bsx::symz("bi", 0, 100), di = bsx::symz("di", 0, 100); PP p((size_t)r.d, bi, di, (double)r.b, dd(r)); REQUIRE(p.get_dim() == (size_t)r.d && p.get_birth_ind() == bi && p.get_death_ind() == di && p.get_birth() == (double)r.b && p.get_death() == dd(r)); bool be = bsx::symb("be"), de = bsx::symb("de");
  ZP z((size_t)r.d, bi, di, (double)r.b, dd(r), be, de), w((size_t)s.d, di, bi, (double)s.b, dd(s), de, be); REQUIRE(z.get_dim() == (size_t)r.d && z.get_birth_ind() == bi && z.get_death_ind() == di && z.get_birth() == (double)r.b && z.get_death() == dd(r) && z.birth_is_entry == be && z.death_is_entry == de); REQUIRE((z == w) == same(r, s)); REQUIRE((z != w) == !same(r, s));
  if (!r.inf) { REQUIRE_MSG(p.length() == (double)(r.e - r.b) && z.length() == (double)(r.e - r.b), "length"); double m2 = p.mid() * 2.0, k2 = z.mid() * 2.0; REQUIRE_MSG(m2 == (double)(r.e + r.b) && k2 == m2, "midpoint"); } END();
}
// extraction of the pairs of one dimension from reduced matrices in filtration order
template <int P> void extraction(const vector<size_t>& n, int V) {
  typedef CM<P> M; vector<DM> B = symcomplex(n, P); IV v; if (sk().seeds) for (size_t k = 0; k < n.size(); k++) { vector<int> x; int last = 0, open = (int)n[k] / 2; for (int j = 0; j < (int)n[k]; j++) { int t = last; if (k) for (size_t i = 0; i < B[k].m; i++) if (B[k](i, (size_t)j) && v[k - 1][i] > t) t = v[k - 1][i]; int r = t + skr(4) / 3; t = j == open ? bsx::pick("t", t, V) : r < V ? r : V; last = t; x.push_back(t); } v.push_back(x); } else for (size_t k = 0; k < n.size(); k++) { vector<int> x; int last = 0; for (size_t j = 0; j < n[k]; j++) { int t = bsx::sym("t", 0, V); ASSUME(last <= t); last = t; if (k) for (size_t i = 0; i < B[k].m; i++) if (B[k](i, j)) ASSUME(v[k - 1][i] <= t); x.push_back(t); } v.push_back(x); }
  auto dv = todouble(v); for (size_t k = 0; k + 1 < n.size(); k++) { M R = matof<M>(B[k]), S = matof<M>(B[k + 1]); reduce_matrix(R, standard_reduction_flag()); auto p2c = reduce_matrix(S, standard_reduction_flag()); auto ps = extract_pairs(R, p2c, dv[k], dv[k + 1], k); vector<size_t> e = dpairing(B[k + 1], P);
    // every positive cell appears once, paired with the cell of the next dimension that kills it
    size_t z = B[k].n - drank(B[k], P); REQUIRE_MSG(ps.size() == z, "one bar for every positive cell"); vector<int> seen(B[k].n, 0); for (auto& x : ps) { REQUIRE(x.dim == k && x.birth_ind < B[k].n && !seen[x.birth_ind]); seen[x.birth_ind] = 1; REQUIRE(x.birth == dv[k][x.birth_ind]); REQUIRE_MSG(x.death_ind == e[x.birth_ind], "the pairing"); if (e[x.birth_ind] == NO_IND) REQUIRE(x.death == std::numeric_limits<double>::infinity()); else REQUIRE(x.death == dv[k + 1][x.death_ind]); bsx::obs(x.birth_ind); bsx::obs(x.death_ind); }
    for (int s = 0; s <= V; s++) for (int t = s; t <= V; t++) { size_t c = 0; for (auto& x : ps) c += x.birth <= (double)s && x.death > (double)t; REQUIRE_MSG(c == pbetti(B, v, k, s, t, P), "persistent Betti numbers"); } }
  auto dflt = extract_pairs(matof<M>(B[0]), vector<size_t>(n[0], NO_IND), dv[0], dv[0]); for (auto& x : dflt) REQUIRE(x.dim == 0); END();
}
// two reductions are reported as the same iff the ordered boundary matrices and the barcodes below the top dimension agree
template <int P> void compare(const vector<size_t>& n, int V) {
  typedef CM<P> M; AnyCpx X{symcomplex(n, P)}; IV v = symvals(X.B, V), w = symvals(X.B, V, "u"); Filtration<double, AnyCpx> F(X, todouble(v)), G(X, todouble(w)); FilteredChainComplex<double, M> C(F), D(G); typedef ReducedFilteredChainComplex<double, M> R; R a(C, standard_reduction_flag(), compute_basis_flag()), b(C, extra_reduction_flag(), compute_basis_flag()), c(D);
  REQUIRE_MSG(test_reduce_result(a, b), "reductions of one complex agree"); REQUIRE(test_reduce_result(a, a));
  bool eq = true; for (size_t k = 0; k < a.maxdim(); k++) { if (!deq(dense(C.complex()[k]), dense(D.complex()[k]))) eq = false; for (int s = 0; s <= V; s++) for (int t = s; t <= V + 1; t++) { auto count = [&](const R& r) { size_t q = 0; for (auto& x : r.persistence_pairs(k)) q += x.birth == (double)s && (t > V ? x.death > (double)V : x.death == (double)t); return q; }; if (count(a) != count(c)) eq = false; } }
  REQUIRE_MSG(test_reduce_result(a, c) == eq, "reductions are equal exactly if factorizations and barcodes are"); auto nu = a.get_nnz_U(), nr = a.get_nnz_R(); REQUIRE(nu.size() == n.size() && nr.size() == n.size()); for (size_t k = 0; k < n.size(); k++) { size_t x = 0, y = 0; for (int e : dense(a.RC.U[k]).a) x += e != 0; for (int e : dense(a.RC.R[k]).a) y += e != 0; REQUIRE_MSG(nu[k] == x && nr[k] == y, "numbers of nonzeros"); } for (size_t k = 0; k < n.size(); k++) { REQUIRE(a.dim(k) == n[k] && a.hdim(k) == dbetti(X.B, k, P)); } bsx::obs(eq); END();
}
BSX_ENTRY(eq33) { equality(3, 3, 0, 1); }
BSX_ENTRY(eq22) { equality(2, 2, 1, 2); }
BSX_ENTRY(eq23) { equality(2, 3, 0, 1); }
BSX_ENTRY(eq01) { equality(0, 1, 0, 1); equality(0, 0, 0, 1); }
BSX_ENTRY(one) { one(50); }
BSX_ENTRY(ext2) { extraction<2>({2, 3, 1}, 1); }
BSX_ENTRY(ext2b) { extraction<2>({2, 2, 2}, 1); }
BSX_ENTRY(ext3) { extraction<3>({2, 2, 1}, 1); }
BSX_ENTRY(cmp2) { compare<2>({2, 2, 1}, 1); }
BSX_ENTRY(cmp3) { compare<3>({2, 2}, 1); }
SKEL(kext2, 8, 1, extraction<2>({4, 6, 4}, 3)) SKEL(kext3, 6, 1, extraction<3>({4, 5, 3}, 3)) SKEL(kcmp2, 6, 1, compare<2>({3, 5, 3}, 2)) SKEL(kcmp3, 6, 1, compare<3>({3, 4, 2}, 2))
#if BSX_TIER
BSX_ENTRY(eq44) { equality(4, 4, 0, 1); }
BSX_ENTRY(ext2c) { extraction<2>({3, 3, 1}, 2); }
BSX_ENTRY(ext3b) { extraction<3>({2, 2, 2}, 1); }
BSX_ENTRY(cmp2b) { compare<2>({2, 3, 1}, 1); }
BSX_ENTRY(cmp3b) { compare<3>({2, 2, 1}, 1); }
#endif
