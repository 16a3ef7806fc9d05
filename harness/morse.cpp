// C27: Morse pre-pairings: every cell in at most one pair of incident cells, vertex-edge pairs by the elder rule
#include "simp.hpp"
#include <morse/pairing.hpp>
using namespace bats;
typedef MorsePairing<SimplicialComplex> MP;
// the recorded pairs are consistent with the flags; returns pairs[k] = list of (cell of dimension k, cell of dimension k + 1)
vector<vector<std::pair<size_t, size_t>>> pairsof(const MP& Q, const vector<size_t>& n) {
  vector<vector<std::pair<size_t, size_t>>> r; vector<vector<int>> seen; for (size_t k = 0; k < n.size(); k++) seen.push_back(vector<int>(n[k], 0));
  for (size_t k = 0; k + 1 < n.size() && k + 1 <= Q.maxdim(); k++) { r.push_back({}); auto& u = Q.up_paired(k); auto& d = Q.down_paired(k + 1); REQUIRE_MSG(u.size() == d.size(), "pairs"); for (size_t i = 0; i < u.size(); i++) { REQUIRE_MSG(u[i] < n[k] && d[i] < n[k + 1], "pairs of existing cells"); seen[k][u[i]]++; seen[k + 1][d[i]]++; r[k].push_back({u[i], d[i]}); } }
  for (size_t k = 0; k < n.size() && k <= Q.maxdim(); k++) { REQUIRE_MSG(Q.size(k) >= n[k] && Q.ncells(k) == Q.size(k), "room for all cells"); vector<size_t> un; for (size_t i = 0; i < n[k]; i++) { REQUIRE_MSG(seen[k][i] <= 1, "every cell in at most one pair"); REQUIRE_MSG(Q.is_paired(k, i) == (seen[k][i] == 1), "flags"); if (!seen[k][i]) un.push_back(i); } auto v = Q.unpaired(k); vector<size_t> w; for (size_t x : v) if (x < n[k]) w.push_back(x); REQUIRE_MSG(w == un, "unpaired cells"); }
  return r;
}
inline vector<size_t> comps(size_t n, const vector<std::pair<size_t, size_t>>& e) { vector<size_t> c(n); for (size_t i = 0; i < n; i++) c[i] = i; for (size_t t = 0; t < n; t++) for (auto& x : e) { size_t m = std::min(c[x.first], c[x.second]); c[x.first] = c[x.second] = m; } return c; }
inline size_t ncomp(const vector<size_t>& c) { size_t r = 0; for (size_t i = 0; i < c.size(); i++) r += c[i] == i; return r; }
// histories of additions with and without pairing, some refused (missing faces) or repeated
void hist(int nv, size_t maxd, size_t len, size_t start) {
  auto cand = cands(nv, maxd); for (int v = nv; v-- > 0;) cand.insert(cand.begin(), ZV{(size_t)v}); SimplicialComplex X; SM m; vector<size_t> pre; for (size_t i = 0; i < start && i < cand.size(); i++) { ZV s = cand[i]; X.add(s); m.put(s); }
  MP Q(X); vector<std::pair<size_t, size_t>> edges; for (size_t t = 0; t < len; t++) {
    ZV s = cand[(size_t)bsx::pick("s", (int)(start > (size_t)nv ? nv : 0), (int)cand.size() - 1)]; bool pr = bsx::symb("pair"); bool ok = m.hasfaces(s), had = m.find(s) != NO_IND; vector<size_t> n; for (size_t k = 0; k <= X.maxdim(); k++) n.push_back(X.ncells(k)); auto before = pairsof(Q, n); size_t dim = s.size() - 1; ZV a(s); cell_ind c = pr ? Q.add_pair(a) : Q.add(a); REQUIRE(c.dim == dim); if (!ok) { REQUIRE_MSG(c.ind == NO_IND, "refused cell"); } else { if (!had) m.put(s); REQUIRE_MSG(c.ind == m.find(s) && X.find_idx(s) == c.ind, "index of the cell"); }
    n.clear(); for (size_t k = 0; k <= X.maxdim(); k++) n.push_back(X.ncells(k)); auto after = pairsof(Q, n); size_t cb = 0, ca = 0; for (auto& l : before) cb += l.size(); for (auto& l : after) ca += l.size();
    if (!ok || !pr || dim == 0) REQUIRE_MSG(ca == cb, "nothing paired"); else {
      bool was = false; if (had) for (auto& l : before) for (auto& x : l) { size_t k = (size_t)(&l - &before[0]); if ((k + 1 == dim && x.second == c.ind) || (k == dim && x.first == c.ind)) was = true; }
      if (was) REQUIRE_MSG(ca == cb, "paired cells are not paired again"); else if (dim == 1) { auto cc = comps(X.ncells(0), edges); bool join = cc[s[0]] != cc[s[1]]; auto xv = [&](size_t v) { return m.find(ZV{v}); }; join = cc[xv(s[0])] != cc[xv(s[1])]; REQUIRE_MSG(ca == cb + (join ? 1 : 0), "an edge is paired when it joins components"); if (join) { size_t a0 = cc[xv(s[0])], b0 = cc[xv(s[1])]; REQUIRE_MSG(after[0].back().second == c.ind && after[0].back().first == std::max(a0, b0), "the younger component dies"); } edges.push_back({xv(s[0]), xv(s[1])}); }
      else { bool freef = false; for (auto& f : SM::faces(s)) { size_t i = m.find(f); bool p = false; if (dim - 1 < before.size()) for (auto& x : before[dim - 1]) p |= x.first == i; if (dim >= 2 && dim - 2 < before.size()) for (auto& x : before[dim - 2]) p |= x.second == i; if (!p) freef = true; } REQUIRE_MSG(ca == cb + (freef ? 1 : 0), "a cell with an unpaired face is paired"); if (ca > cb) REQUIRE_MSG(after[dim - 1].back().second == c.ind, "the new cell is paired"); } }
    for (size_t k = 0; k < after.size(); k++) for (auto& x : after[k]) { bool inc = false; for (auto& f : SM::faces(m.s[k + 1][x.second])) inc |= m.find(f) == x.first; if (k > 0) REQUIRE_MSG(inc, "pairs are incident"); } }
  vector<size_t> n; for (size_t k = 0; k <= X.maxdim(); k++) n.push_back(X.ncells(k)); if (bsx::symb("clear")) { Q.clear(); auto p = pairsof(Q, n); for (auto& l : p) REQUIRE_MSG(l.empty(), "cleared"); if (n.size() > 1) { vector<std::pair<size_t, size_t>> done; for (size_t e = 0; e < n[1]; e++) { auto v = X.get_simplex(1, e); size_t a = m.find(ZV{v[0]}), b = m.find(ZV{v[1]}); auto cc = comps(n[0], done); REQUIRE_MSG(Q.set_pair_edge(a, b, e) == (cc[a] != cc[b]), "pairing again after clear"); done.push_back({a, b}); } } } END();
}
// graphs given by edges with ranks: the component whose oldest vertex has the larger rank dies
void ranks(size_t nv, size_t ne, bool useranks) {
  vector<int> rank; for (size_t i = 0; i < nv; i++) rank.push_back(useranks ? bsx::sym("rank", 0, (int)nv - 1) : (int)i); MP Q(vector<size_t>{nv, ne}); vector<std::pair<size_t, size_t>> edges; size_t paired = 0; vector<size_t> dead(nv, 0);
  for (size_t e = 0; e < ne; e++) { size_t i = (size_t)bsx::pick("i", 0, (int)nv - 1), j = (size_t)bsx::pick("j", 0, (int)nv - 1); auto cc = comps(nv, edges); auto old = [&](size_t v) { size_t b = NO_IND; for (size_t u = 0; u < nv; u++) if (cc[u] == cc[v] && (b == NO_IND || rank[u] < rank[b])) b = u; return b; }; size_t a = old(i), b = old(j); bool r = useranks ? Q.set_pair_edge(i, j, e, rank) : Q.set_pair_edge(i, j, e); REQUIRE_MSG(r == (cc[i] != cc[j]), "an edge is paired when it joins components"); if (r) { size_t die = rank[a] < rank[b] || (rank[a] == rank[b] && a < b) ? b : a; REQUIRE_MSG(Q.up_paired(0).back() == die && Q.down_paired(1).back() == e, "elder rule"); REQUIRE(!dead[die]); dead[die] = 1; paired++; } edges.push_back({i, j}); }
  auto p = pairsof(Q, {nv, ne}); REQUIRE(p[0].size() == paired && Q.unpaired(0).size() == ncomp(comps(nv, edges))); END();
}
// explicit pairs: accepted exactly when both cells are unpaired
void setp(size_t len) { vector<size_t> n{2, 3, 2}; MP Q(n); vector<vector<int>> used; for (size_t k : n) used.push_back(vector<int>(k, 0)); for (size_t t = 0; t < len; t++) { size_t d = (size_t)bsx::pick("d", 0, 1), i = (size_t)bsx::pick("i", 0, (int)n[d] - 1), j = (size_t)bsx::pick("j", 0, (int)n[d + 1] - 1); bool w = !used[d][i] && !used[d + 1][j]; REQUIRE_MSG(Q.set_pair(d, i, j) == w, "accepted when both are unpaired"); if (w) used[d][i] = used[d + 1][j] = 1; pairsof(Q, n); } for (size_t k = 0; k < 3; k++) for (size_t i = 0; i < n[k]; i++) REQUIRE(Q.is_paired(k, i) == (used[k][i] == 1)); END(); }
BSX_ENTRY(h2) { hist(2, 1, 5, 0); }
BSX_ENTRY(h3) { hist(3, 2, 2, 6); }
BSX_ENTRY(h3b) { hist(3, 2, 3, 5); }
BSX_ENTRY(h4) { hist(4, 2, 2, 10); }
BSX_ENTRY(h4b) { hist(4, 3, 1, 13); }
BSX_ENTRY(r3) { ranks(3, 3, true); }
BSX_ENTRY(r4) { ranks(4, 2, true); }
BSX_ENTRY(n4) { ranks(4, 3, false); }
BSX_ENTRY(s3) { setp(3); }
#if BSX_TIER
BSX_ENTRY(th3) { hist(3, 2, 4, 3); }
BSX_ENTRY(th4) { hist(4, 2, 3, 8); }
BSX_ENTRY(tr4) { ranks(4, 3, true); }
BSX_ENTRY(tn4) { ranks(4, 4, false); }
BSX_ENTRY(ts4) { setp(4); }
#endif
