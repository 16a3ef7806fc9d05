// Symbolic filtrations of small simplicial complexes and of arbitrary complexes, and persistent Betti number oracles.
#pragma once
#include "hom.hpp"
// a complex given by its boundary matrices: everything Filtration / FilteredChainComplex ask of a complex type
struct AnyCpx {
  vector<DM> B;
  size_t maxdim() const { return B.size() - 1; }
  size_t ncells(size_t k) const { return B[k].n; }
  CSCMatrix<int, size_t> boundary_csc(size_t k) const {
    vector<size_t> cp{0}, ri; vector<int> v;
    for (size_t j = 0; j < B[k].n; j++) { for (size_t i = 0; i < B[k].m; i++) if (B[k](i, j)) { ri.push_back(i); v.push_back(B[k](i, j)); } cp.push_back(ri.size()); }
    return CSCMatrix<int, size_t>(B[k].m, B[k].n, cp, ri, v);
  }
};
typedef vector<vector<int>> IV;
inline vector<vector<double>> todouble(const IV& v) { vector<vector<double>> r; for (auto& x : v) { vector<double> y; for (int i : x) y.push_back((double)i); r.push_back(y); } return r; }
// symbolic monotone filtration values 0..V
inline IV symvals(const vector<DM>& B, int V, const char* nm = "t") {
  IV v; if (sk().seeds) { for (size_t k = 0; k < B.size(); k++) { vector<int> x; vector<int> o(B[k].n, 0); if (B[k].n) o[skr((int)B[k].n)] = 1; for (size_t j = 0; j < B[k].n; j++) { int lo = 0; if (k) for (size_t i = 0; i < B[k].m; i++) if (B[k](i, j) && v[k - 1][i] > lo) lo = v[k - 1][i]; int r = lo + skr(V - lo + 1); x.push_back(o[j] ? bsx::pick(nm, lo, V) : r); } v.push_back(x); } return v; }
  for (size_t k = 0; k < B.size(); k++) { vector<int> x; for (size_t j = 0; j < B[k].n; j++) { int t = bsx::sym(nm, 0, V); if (k) for (size_t i = 0; i < B[k].m; i++) if (B[k](i, j)) ASSUME(v[k - 1][i] <= t); x.push_back(t); } v.push_back(x); } return v;
}
// dim of the image H_k(K_s) -> H_k(K_t)
inline size_t pbetti(const vector<DM>& B, const IV& v, size_t k, int s, int t, int p) {
  DM bk = B[k]; vector<size_t> cs, ct; for (size_t j = 0; j < B[k].n; j++) if (v[k][j] <= s) cs.push_back(j);
  DM sub = dcols(bk, cs), z = dker(sub, p), Z(B[k].n, z.n); for (size_t c = 0; c < z.n; c++) for (size_t r = 0; r < cs.size(); r++) Z(cs[r], c) = z(r, c);
  DM bd(B[k].n, 0); if (k + 1 < B.size()) { for (size_t j = 0; j < B[k + 1].n; j++) if (v[k + 1][j] <= t) ct.push_back(j); bd = dcols(B[k + 1], ct); }
  return drank(dhcat(Z, bd), p) - drank(bd, p);
}
// pairs against persistent Betti numbers, critical cells and the partition of all cells into births and deaths
template <class T> void check_pairs(const vector<vector<bats::PersistencePair<T>>>& ps, const vector<DM>& B, const IV& v, int V, int p, const char* what) {
  vector<vector<int>> used; for (auto& b : B) used.push_back(vector<int>(b.n, 0));
  for (size_t k = 0; k < B.size(); k++) {
    for (auto& x : ps[k]) {
      REQUIRE_MSG(x.dim == k && x.birth_ind < B[k].n, what); REQUIRE_MSG(x.birth == (T)v[k][x.birth_ind], what); used[k][x.birth_ind]++;
      if (x.death_ind == bats::NO_IND) { REQUIRE_MSG(x.death > (T)V, what); }
      else { REQUIRE_MSG(k + 1 < B.size() && x.death_ind < B[k + 1].n, what); REQUIRE_MSG(x.death == (T)v[k + 1][x.death_ind], what); REQUIRE_MSG(x.birth <= x.death, what); used[k + 1][x.death_ind]++; }
    }
    for (int s = 0; s <= V; s++) for (int t = s; t <= V; t++) { size_t c = 0; for (auto& x : ps[k]) if (x.birth <= (T)s && x.death > (T)t) c++; REQUIRE_MSG(c == pbetti(B, v, k, s, t, p), what); }
  }
  for (auto& u : used) for (int x : u) REQUIRE_MSG(x == 1, what);
}
template <class T, class M> vector<vector<bats::PersistencePair<T>>> allpairs(const bats::ReducedFilteredChainComplex<T, M>& R) { vector<vector<bats::PersistencePair<T>>> r; for (size_t k = 0; k <= R.maxdim(); k++) r.push_back(R.persistence_pairs(k)); return r; }
// symbolic simplicial complex: any of the candidate simplices (faces listed first) whose faces are present
template <class Cpx> bool facesin(const Cpx& X, const vector<size_t>& c) { bool ok = true; for (size_t d = 0; d < c.size() && c.size() > 1; d++) { vector<size_t> f; for (size_t e = 0; e < c.size(); e++) if (e != d) f.push_back(c[e]); if (X.find_idx(f) == bats::NO_IND) ok = false; } return ok; }
inline bats::SimplicialComplex symsimp(size_t nv, const vector<vector<size_t>>& cand, const char* nm, size_t maxd, bool symv = false) {
  bats::SimplicialComplex X(nv, maxd); for (size_t i = 0; i < nv; i++) if (!symv || bsx::symb(nm)) { vector<size_t> s{i}; X.add(s); }
  if (sk().seeds) { auto o = skopen(cand.size()); for (size_t i = 0; i < cand.size(); i++) { auto c = cand[i]; if (!facesin(X, c)) continue; int r = skr(10); if (o[i] ? bsx::pick(nm, 0, 1) : r < 7) X.add(c); } return X; }
  for (auto c : cand) if (bsx::symb(nm)) { ASSUME(facesin(X, c)); X.add(c); }
  return X;
}
// dense boundary matrices of a simplicial complex computed from its simplices alone (sign convention irrelevant mod the overall sign of a dimension)
template <class Cpx> vector<DM> bdense(const Cpx& X, int p) {
  vector<DM> B; size_t D = X.maxdim(); for (size_t k = 0; k <= D; k++) { if (k == 0) { B.push_back(DM(1, X.ncells(0))); continue; } DM b(X.ncells(k - 1), X.ncells(k));
    for (size_t j = 0; j < X.ncells(k); j++) { auto s = X.get_simplex(k, j); for (size_t d = 0; d < s.size(); d++) { for (size_t i = 0; i < X.ncells(k - 1); i++) { auto f = X.get_simplex(k - 1, i); bool eq = true; size_t c = 0; for (size_t e = 0; e < s.size(); e++) if (e != d) { if (f[c] != s[e]) eq = false; c++; } if (eq) b(i, j) = md((d % 2) ? -1 : 1, p); } } }
    B.push_back(b); } return B;
}
