// C25: permutation utilities: sort permutations, application in both directions, inverses, inversions and Kendall tau distance
#include "common.hpp"
using namespace bats; using namespace bats::util;
typedef vector<size_t> ZV;
inline vector<int> symints(const char* nm, size_t n, int lo, int hi) { vector<int> v; for (size_t i = 0; i < n; i++) v.push_back(bsx::sym(nm, lo, hi)); return v; }
inline bool isperm(const ZV& p, size_t n) { if (p.size() != n) return false; vector<int> s(n, 0); for (size_t x : p) { if (x >= n) return false; s[x]++; } for (int x : s) if (x != 1) return false; return true; }
inline bool sortsby(const ZV& p, const vector<int>& v, bool stable) { for (size_t i = 0; i + 1 < p.size(); i++) { if (v[p[i]] > v[p[i + 1]]) return false; if (stable && v[p[i]] == v[p[i + 1]] && p[i] > p[i + 1]) return false; } return true; }
inline void sorting(size_t n, int V) {
  vector<int> v = symints("v", n, 0, V); ZV q; fill_sortperm(v, q); REQUIRE(isperm(q, n) && sortsby(q, v, false)); ZV a = sortperm(v), b = sortperm(v.begin(), v.end()), c = stable_sortperm(v), d = sort_indexes(v); REQUIRE(isperm(a, n) && sortsby(a, v, false) && isperm(b, n) && sortsby(b, v, false) && isperm(c, n) && sortsby(c, v, true) && isperm(d, n) && sortsby(d, v, true));
  ZV e = sortperm(v.begin(), v.end(), [](int x, int y) { return x > y; }); REQUIRE(isperm(e, n)); for (size_t i = 0; i + 1 < n; i++) REQUIRE(v[e[i]] >= v[e[i + 1]]);
  for (size_t k = 0; k <= n; k++) { ZV f = firstk(v.begin(), v.end(), k), t = top_k(v, k); REQUIRE(f.size() == k && t.size() == k); REQUIRE(sortsby(f, v, false)); for (auto* s : {&f, &t}) { vector<int> in(n, 0); for (size_t x : *s) { REQUIRE(x < n && !in[x]); in[x] = 1; } for (size_t x = 0; x < n; x++) for (size_t y = 0; y < n; y++) if (in[x] && !in[y]) REQUIRE(v[x] <= v[y]); } }
  ZV g = find_perm_from_vector(v); for (size_t i = 0; i < n; i++) { size_t r = 0; for (size_t j = 0; j < n; j++) r += v[j] < v[i] || (v[j] == v[i] && j < i); REQUIRE(g[i] == r); }
  for (int q = 0; q <= 4; q++) { ZV t = top_p(v, q / 4.0); size_t k = (n * q * 2 + 4) / 8; REQUIRE_MSG(t.size() == k, "top fraction"); vector<int> in(n, 0); for (size_t x : t) { REQUIRE(x < n && !in[x]); in[x] = 1; } for (size_t x = 0; x < n; x++) for (size_t y = 0; y < n; y++) if (in[x] && !in[y]) REQUIRE(v[x] <= v[y]); }
  size_t inv = 0; for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) inv += v[i] > v[j]; REQUIRE(perm_inversions(v) == inv && perm_sign(v) == (inv % 2 ? -1 : 1)); REQUIRE_MSG(Kendall_tau(v) == inv, "Kendall tau counts inversions"); vector<int> w = v; REQUIRE(Kendall_tau_inplace(w.data(), 0, (int)n - 1) == inv && sortsby(identity_perm(n), w, true)); for (size_t x : c) bsx::obs(x); bsx::obs(inv); END();
}
inline void applying(size_t n) {
  ZV p = symperm("p", n); vector<int> v = symints("v", n, -50, 50), a = v, b = v, c = v, r = v; apply_perm(a, p); apply_perm_swap(b, p); apply_iperm_swap(c, p); for (size_t i = 0; i < n; i++) REQUIRE(a[i] == v[p[i]] && b[p[i]] == v[i] && c[i] == v[p[i]]); ZV q = inv_perm(p); REQUIRE(isperm(q, n)); for (size_t i = 0; i < n; i++) REQUIRE(q[p[i]] == i && p[q[i]] == i); apply_perm(a, q); REQUIRE(a == v);
  ZV e = extension_perm(p, n + 2); for (size_t i = 0; i < n + 2; i++) REQUIRE(e[i] == (i < n ? p[i] : i)); REQUIRE(extension_perm(ZV(), n) == identity_perm(n)); size_t k = (size_t)bsx::pick("k", 0, (int)n - 1); ZV t = perm_to_the_end(k, n); REQUIRE(isperm(t, n) && t[n - 1] == k); for (size_t i = 0; i + 1 < n; i++) REQUIRE(t[i] == (i < k ? i : i + 1));
  ZV q2 = symperm("q", n); size_t inv = 0; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (p[i] < p[j] && q2[i] > q2[j]) inv++; ZV pi = inv_perm(p), qi = inv_perm(q2); REQUIRE_MSG(Kendall_tau(pi, qi) == inv, "Kendall tau between orders counts discordant pairs"); REQUIRE(Kendall_tau(qi, pi) == inv && Kendall_tau(p, p) == 0); vector<ZV> both{p, q2, pi}; ZV kd = Kendall_tau(both); REQUIRE_MSG(kd.size() == 3 && kd[0] == perm_inversions(p) && kd[1] == perm_inversions(q2) && kd[2] == kd[0], "Kendall tau of a list of permutations"); bsx::obs(inv); END();
}
inline void subsets(size_t n) {
  ZV p = symperm("p", n), ind, out; vector<int> in; for (size_t i = 0; i < n; i++) { bool b = bsx::symb("in"); in.push_back(b); (b ? ind : out).push_back(i); } ZV t = perm_to_the_end(ind, n); REQUIRE(isperm(t, n)); for (size_t i = 0; i < n; i++) REQUIRE(t[i] == (i < out.size() ? out[i] : ind[i - out.size()]));
  ZV pp; for (size_t x : p) if (in[x]) pp.push_back(x); ZV r = partial_perm(pp, n); REQUIRE(r.size() == n); for (size_t i = 0; i < n; i++) if (in[i]) REQUIRE(pp[r[i]] == i); else REQUIRE(r[i] == bats::NO_IND);
  ZV s = ind; sort_ind_by_perm(s, p); REQUIRE(s.size() == ind.size()); for (size_t i = 0; i + 1 < s.size(); i++) REQUIRE(p[s[i]] < p[s[i + 1]]); ZV f; fill_partial_sortperm(pp, p, f); REQUIRE(isperm(f, pp.size())); for (size_t i = 0; i + 1 < f.size(); i++) REQUIRE(p[pp[f[i]]] < p[pp[f[i + 1]]]); ZV a = pp, b; for (size_t x : pp) b.push_back(10 + x); sort_ind_pair_by_perm(a, b, p); for (size_t i = 0; i < a.size(); i++) { REQUIRE(b[i] == a[i] + 10 && in[a[i]]); if (i) REQUIRE(p[a[i - 1]] < p[a[i]]); } for (size_t x : a) bsx::obs(x); END();
}
BSX_ENTRY(sort0) { sorting(0, 1); }
BSX_ENTRY(sort3) { sorting(3, 5); }
BSX_ENTRY(sort4) { sorting(4, 5); }
BSX_ENTRY(apply3) { applying(3); }
BSX_ENTRY(apply4) { applying(4); }
BSX_ENTRY(sub4) { subsets(4); }
#if BSX_TIER
BSX_ENTRY(sort5) { sorting(5, 5); }
BSX_ENTRY(apply5) { applying(5); }
BSX_ENTRY(sub5) { subsets(5); }
#endif
