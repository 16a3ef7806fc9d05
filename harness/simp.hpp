// Reference model of a simplicial complex: the list of its simplices per dimension as sorted vertex lists, in insertion order.
#pragma once
#include "filt.hpp"
typedef vector<size_t> ZV;
struct SM {
  vector<vector<ZV>> s; // s[dim] = simplices in insertion order
  size_t find(const ZV& v) const { if (v.empty() || v.size() > s.size()) return bats::NO_IND; auto& l = s[v.size() - 1]; for (size_t i = 0; i < l.size(); i++) if (l[i] == v) return i; return bats::NO_IND; }
  size_t put(const ZV& v) { while (s.size() < v.size()) s.push_back({}); s[v.size() - 1].push_back(v); return s[v.size() - 1].size() - 1; }
  static vector<ZV> faces(const ZV& v) { vector<ZV> r; if (v.size() > 1) for (size_t d = 0; d < v.size(); d++) { ZV f; for (size_t e = 0; e < v.size(); e++) if (e != d) f.push_back(v[e]); r.push_back(f); } return r; }
  bool hasfaces(const ZV& v) const { for (auto& f : faces(v)) if (find(f) == bats::NO_IND) return false; return true; }
  // is the simplex set closed under faces
  bool closed() const { for (auto& l : s) for (auto& v : l) if (!hasfaces(v)) return false; return true; }
  size_t total() const { size_t c = 0; for (auto& l : s) c += l.size(); return c; }
};
inline ZV maskset(int m) { ZV r; for (size_t i = 0; i < 8; i++) if (m >> i & 1) r.push_back(i); return r; }
inline SM smof(const bats::SimplicialComplex& X) { SM m; for (size_t k = 0; k <= X.maxdim(); k++) { m.s.push_back({}); for (size_t i = 0; i < X.ncells(k); i++) m.s[k].push_back(X.get_simplex(k, i)); } return m; }
// complex and model have the same simplices with the same indices; boundaries are the alternating sums of the faces (one overall sign per dimension)
template <class Cpx> void agreesm(const Cpx& X, const SM& m, int nv, const char* what) {
  REQUIRE_MSG(X.ncells() == m.total(), what); for (size_t k = 0; k <= X.maxdim(); k++) REQUIRE_MSG(X.ncells(k) == (k < m.s.size() ? m.s[k].size() : 0), what);
  for (int t = 1; t < (1 << nv); t++) { ZV v = maskset(t); if (v.size() <= (size_t)X.maxdim() + 1) REQUIRE_MSG(X.find_idx(v) == m.find(v), what); }
  for (size_t k = 0; k < m.s.size(); k++) { if (m.s[k].empty()) continue; auto all = X.get_simplices(k); REQUIRE_MSG(all.size() == m.s[k].size(), what);
    for (size_t i = 0; i < m.s[k].size(); i++) { REQUIRE_MSG(X.get_simplex(k, i) == m.s[k][i], what); REQUIRE_MSG(all[i] == m.s[k][i], what); } }
  for (size_t k = 1; k < m.s.size() && k <= X.maxdim(); k++) { auto C = X.boundary_csc(k); REQUIRE_MSG(C.nrow() == m.s[k - 1].size() && C.ncol() == m.s[k].size(), what); int e = 0;
    for (size_t j = 0; j < m.s[k].size(); j++) { auto [ind, val] = X.boundary(k, j); REQUIRE_MSG(ind.size() == k + 1 && val.size() == k + 1, what); for (size_t c = 0; c + 1 < ind.size(); c++) REQUIRE_MSG(ind[c] < ind[c + 1], what);
      auto fs = SM::faces(m.s[k][j]); for (size_t d = 0; d <= k; d++) { size_t f = m.find(fs[d]); int v = 0; for (size_t c = 0; c < ind.size(); c++) if (ind[c] == f) v = val[c]; if (!e) e = (d % 2) ? -v : v; REQUIRE_MSG(v == ((d % 2) ? -e : e) && (e == 1 || e == -1), "alternating boundary coefficients"); REQUIRE_MSG(C.getval(f, j) == v, "boundary matrix"); } } }
}
// a copy of the complex with the simplices of each dimension in another (symbolic) order: one transposition and possibly a reversal
inline bats::SimplicialComplex reorder(const bats::SimplicialComplex& X, const char* nm) { bats::SimplicialComplex Y(X.maxdim()); int how = bsx::pick(nm, 0, 2); for (size_t k = 0; k <= X.maxdim(); k++) { auto l = X.get_simplices(k); if (how == 1) std::reverse(l.begin(), l.end()); if (how == 2 && l.size() > 1) std::rotate(l.begin(), l.begin() + 1, l.end()); for (auto s : l) Y.add(s); } return Y; }
// all candidate simplices of dimension 1..maxd on nv vertices
inline vector<ZV> cands(int nv, size_t maxd) { vector<ZV> r; for (size_t k = 2; k <= maxd + 1; k++) for (int t = 1; t < (1 << nv); t++) if (maskset(t).size() == k) r.push_back(maskset(t)); return r; }
