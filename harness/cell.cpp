// C18: cell complexes: cells attached along arbitrary integral chains, their chain complexes over every field
#include "filt.hpp"
using namespace bats;
typedef vector<size_t> ZV;
// integral complex with counts n: attaching chains given as (index, coefficient) lists in any order, coefficients -c..c
inline DM symint(const char* nm, size_t m, size_t n, int c) { DM D(m, n); for (auto& x : D.a) x = bsx::sym(nm, -c, c); return D; }
template <int P> void build(const vector<size_t>& n, int c) {
  typedef CM<P> M; CellComplex X; vector<DM> B; for (size_t k = 0; k < n.size(); k++) { DM b = k ? symint("b", n[k - 1], n[k], c) : DM(1, n[0]); if (k > 1) { for (size_t i = 0; i < n[k - 2]; i++) for (size_t j = 0; j < n[k]; j++) { int s = 0; for (size_t r = 0; r < n[k - 1]; r++) s += B[k - 1](i, r) * b(r, j); ASSUME(s == 0); } } B.push_back(b); }
  // the order in which faces are listed
  vector<ZV> ord; for (size_t k = 0; k + 1 < n.size(); k++) ord.push_back(symperm("order", n[k]));
  if (bsx::symb("one")) { for (size_t i = 0; i < n[0]; i++) REQUIRE(X.add_vertex() == i); } else { REQUIRE(X.add_vertices(n[0]) == n[0]); }
  for (size_t k = 1; k < n.size(); k++) for (size_t j = 0; j < n[k]; j++) { ZV ind; vector<int> val; for (size_t i = 0; i < n[k - 1]; i++) { size_t r = ord[k - 1][i]; if (B[k](r, j)) { ind.push_back(r); val.push_back(B[k](r, j)); } } REQUIRE_MSG(X.add(ind, val, k) == j, "index of the added cell"); }
  REQUIRE(X.maxdim() == n.size() - 1); size_t tot = 0; for (size_t k = 0; k < n.size(); k++) { REQUIRE(X.ncells(k) == n[k]); tot += n[k]; } REQUIRE(X.ncells() == tot && X.ncells(n.size()) == 0); vector<DM> E; for (auto& b : B) { DM e = b; for (auto& x : e.a) x = md(x, P); E.push_back(e); }
  for (size_t k = 1; k < n.size(); k++) { auto C = X.boundary_csc(k); for (size_t i = 0; i < n[k - 1]; i++) for (size_t j = 0; j < n[k]; j++) REQUIRE_MSG(C.getval(i, j) == B[k](i, j), "integral boundary"); auto I = X.boundary(k); for (size_t j = 0; j < n[k]; j++) REQUIRE(wf(I[j], n[k - 1])); REQUIRE(deq(dense(I), B[k])); }
  ChainComplex<M> C(X); for (size_t k = 0; k < n.size(); k++) REQUIRE_MSG(wfm(C[k]) && deq(dense(C[k]), E[k]), "chain complex with coefficients reduced mod p"); REQUIRE(C.is_valid_complex()); ReducedChainComplex<M> R(C); for (size_t k = 0; k < n.size(); k++) { REQUIRE_MSG(R.hdim(k) == dbetti(E, k, P), "homology of a cell complex"); bsx::obs(R.hdim(k)); } END();
}
// a cell attached twice along the same face (loops, Klein bottle style words): repeated faces add up
template <int P> void word(size_t edges, size_t len) {
  typedef CM<P> M; CellComplex X; X.add_vertex(); for (size_t e = 0; e < edges; e++) { if (bsx::symb("loop")) X.add({0, 0}, {1, -1}, 1); else X.add({}, {}, 1); } ZV ind; vector<int> val; DM b(edges, 1); for (size_t i = 0; i < len; i++) { size_t e = (size_t)bsx::pick("e", 0, (int)edges - 1); int s = bsx::symb("s") ? 1 : -1; ind.push_back(e); val.push_back(s); b(e, 0) += s; } X.add(ind, val, 2);
  for (auto& x : b.a) x = md(x, P); ChainComplex<M> C(X); REQUIRE_MSG(wfm(C[1]) && dzero(dense(C[1])), "loops have zero boundary"); REQUIRE_MSG(wfm(C[2]) && deq(dense(C[2]), b), "repeated faces add up"); ReducedChainComplex<M> R(C); size_t r = drank(b, P); REQUIRE(R.hdim(0) == 1 && R.hdim(1) == edges - r && R.hdim(2) == 1 - r); bsx::obs(r); END();
}
BSX_ENTRY(b3) { build<3>({2, 2, 1}, 1); }
BSX_ENTRY(b2) { build<2>({2, 2}, 2); }
BSX_ENTRY(b2b) { build<2>({1, 2, 2}, 2); }
BSX_ENTRY(b3f) { build<3>({3, 2}, 1); }
BSX_ENTRY(b4f) { build<2>({4, 1}, 1); }
BSX_ENTRY(b0) { build<2>({3}, 1); }
BSX_ENTRY(tb5) { build<5>({2, 2}, 3); }
BSX_ENTRY(w2) { word<2>(2, 4); }
BSX_ENTRY(w3) { word<3>(2, 3); }
BSX_ENTRY(w3b) { word<3>(3, 3); }
#if BSX_TIER
BSX_ENTRY(tb3) { build<3>({2, 3, 1}, 1); }
BSX_ENTRY(tb4) { build<3>({4, 2}, 1); }
BSX_ENTRY(tw3) { word<3>(3, 4); }
#endif
