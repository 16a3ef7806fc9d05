// C26: sorted-set, trie and container utilities agree with their set-theoretic meaning and keep memory intact
#include "common.hpp"
using namespace bats; using namespace bats::util;
typedef vector<size_t> ZV;
inline ZV symset(const char* nm, size_t n) { ZV r; for (size_t i = 0; i < n; i++) if (bsx::symb(nm)) r.push_back(i); return r; }
inline bool has(const ZV& v, size_t x) { for (size_t y : v) if (y == x) return true; return false; }
inline void sets(size_t n) {
  ZV a = symset("a", n), b = symset("b", n); ZV i1{7}; intersect_sorted(a, b, i1); ZV e; for (size_t x = 0; x < n; x++) if (has(a, x) && has(b, x)) e.push_back(x); REQUIRE(i1 == e); std::set<size_t> s{9}, sb(b.begin(), b.end()); intersect_sorted(a, b, s); REQUIRE(ZV(s.begin(), s.end()) == e); intersect_sorted(a, sb, i1); REQUIRE(i1 == e); REQUIRE(has_intersect_sorted(a, b) == !e.empty());
  size_t m = (size_t)bsx::pick("m", 0, (int)n); ZV l; for (size_t x : e) if (x < m) l.push_back(x); intersect_sorted_lt(a, b, m, i1); REQUIRE_MSG(i1 == l, "intersection below a bound"); REQUIRE_MSG(has_intersect_sorted_lt(a, b, m) == !l.empty(), "existence of intersection below a bound");
  ZV c = sorted_complement(a, n); for (size_t x = 0; x < n; x++) REQUIRE(has(c, x) == !has(a, x)); for (size_t i = 0; i + 1 < c.size(); i++) REQUIRE(c[i] < c[i + 1]); REQUIRE(c.size() + a.size() == n);
  auto u = set_union(a, sb), t = set_intersection(a, sb); for (size_t x = 0; x < n; x++) REQUIRE((u.count(x) == 1) == (has(a, x) || has(b, x)) && (t.count(x) == 1) == has(e, x)); REQUIRE(to_set(a) == std::set<size_t>(a.begin(), a.end()));
  ZV r(a.rbegin(), a.rend()), q{3, 3, 3, 3, 3, 3, 3}; sort_into(r, q); REQUIRE(q == a); size_t v = (size_t)bsx::pick("v", 0, (int)n); size_t f = find_sorted_lt(a.cbegin(), a.cend(), v), g = bats::NO_IND; for (size_t i = 0; i < a.size(); i++) if (a[i] < v) g = i; REQUIRE_MSG(f == g, "last index below a value"); for (size_t x : i1) bsx::obs(x); END();
}
inline void sumreduce(size_t off, size_t n, int I) {
  vector<size_t> ind; vector<int> val; for (size_t i = 0; i < off; i++) { ind.push_back(1); val.push_back(5); } vector<int> tot(I + 1, 0); for (size_t i = 0; i < n; i++) { size_t x = (size_t)bsx::pick("i", 0, I); int v = bsx::pick("v", -1, 1); ASSUME(v != 0); ind.push_back(x); val.push_back(v); tot[x] += v; } vector<size_t> perm, t1; vector<int> t2; sort_sum_reduce(ind, val, off, perm, t1, t2);
  size_t c = off; REQUIRE(ind.size() == val.size() && ind.size() >= off); for (size_t i = 0; i < off; i++) REQUIRE(ind[i] == 1 && val[i] == 5); for (int x = 0; x <= I; x++) if (tot[x]) { REQUIRE(c < ind.size() && ind[c] == (size_t)x && val[c] == tot[x]); c++; } REQUIRE(c == ind.size()); bsx::obs(c); END();
}
// trie: a map from index sequences, through copies, moves, assignments and re-use
typedef SparseTrie<size_t, size_t> Tr;
inline ZV key(int k) { static const ZV K[6] = {{0}, {1}, {0, 1}, {1, 0}, {0, 1, 2}, {0, 2}}; return K[k]; }
struct Model { size_t v[6]; Model() { for (auto& x : v) x = bats::NO_IND; } };
inline void agree(const Tr& t, const Model& m, const char* what) { for (int k = 0; k < 6; k++) { size_t g = t.get(key(k), bats::NO_IND); size_t e = m.v[k]; if (e == bats::NO_IND) REQUIRE_MSG(g == bats::NO_IND || g == 0, what); else REQUIRE_MSG(g == e, what); } }
inline void trie(int steps) {
  Tr a, b; Model ma, mb; bool da = false; for (int s = 0; s < steps; s++) { int op = bsx::pick("op", 0, 6), k = op < 2 ? bsx::pick("k", 0, 5) : 0; size_t val = (size_t)(s + 1);
    switch (op) { case 0: a.emplace(key(k), val); ma.v[k] = val; break; case 1: b.emplace(key(k), val); mb.v[k] = val; break; case 2: a = b; ma = mb; break; case 3: { Tr c(a); b = std::move(c); mb = ma; break; } case 4: { Tr c; a = c; ma = Model(); break; } case 5: a = Tr(); ma = Model(); break; case 6: { Tr c(b); Tr d(std::move(c)); agree(d, mb, "copy and move"); a = std::move(d); ma = mb; break; } }
    agree(a, ma, "first trie"); agree(b, mb, "second trie"); } REQUIRE(a.count(key(4)) == 1 || ma.v[4] == bats::NO_IND); for (int k = 0; k < 6; k++) if (ma.v[k] != bats::NO_IND) REQUIRE(a[key(k)] == ma.v[k]); for (size_t x : ma.v) bsx::obs(x); END();
}
// simplices of one dimension stored side by side; tries filled from temporaries
inline void containers() {
  size_t d = (size_t)bsx::pick("dim", 0, 2); SimplexContainer c(d); REQUIRE(c.dim() == d && c.size() == 0); size_t n = 0; for (int i = 0; i < 3; i++) { ZV s((size_t)bsx::pick("len", 1, 3), (size_t)i); bool threw = false; try { c.emplace_back(s); } catch (const char*) { threw = true; } REQUIRE_MSG(threw == (s.size() != d + 1), "simplices of the wrong size are refused"); if (!threw) n++; REQUIRE_MSG(c.size() == n, "number of simplices"); }
  Tr t; Model m; for (int i = 0; i < 2; i++) { int k = bsx::pick("k", 0, 5); t.emplace(ZV(key(k)), (size_t)(i + 1)); m.v[k] = (size_t)(i + 1); } agree(t, m, "trie filled from temporaries"); bsx::obs(n); END();
}
BSX_ENTRY(cont) { containers(); }
BSX_ENTRY(sets3) { sets(3); }
BSX_ENTRY(sets4) { sets(4); }
BSX_ENTRY(sum0) { sumreduce(0, 3, 2); }
BSX_ENTRY(sum1) { sumreduce(2, 2, 1); }
BSX_ENTRY(trie3) { trie(3); }
#if BSX_TIER
BSX_ENTRY(sets5) { sets(5); }
BSX_ENTRY(sum2) { sumreduce(1, 4, 2); }
BSX_ENTRY(trie4) { trie(4); }
#endif
