// Shared pieces of the harnesses: symbolic inputs, dense reference arithmetic (plain ints, written independently of BATS),
// and well-formedness predicates.  Nothing here calls BATS algorithms; matrices are read element by element.
#pragma once
#include "bsx.hpp"
#include <bats.hpp>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#ifndef BSX_TIER
#define BSX_TIER 0
#endif
#define TIER(q, t) (BSX_TIER ? (t) : (q))
using std::vector;
typedef vector<int> DV;
struct DM { size_t m = 0, n = 0; vector<int> a; DM() {} DM(size_t m, size_t n) : m(m), n(n), a(m * n, 0) {} int& operator()(size_t i, size_t j) { return a[i * n + j]; } int operator()(size_t i, size_t j) const { return a[i * n + j]; } };
inline int md(int v, int p) { v %= p; return v < 0 ? v + p : v; }
inline int minv(int v, int p) { for (int k = 1; k < p; k++) if (md(v * k, p) == 1) return k; return 0; }
inline DM dmul(const DM& A, const DM& B, int p) { DM C(A.m, B.n); for (size_t i = 0; i < A.m; i++) for (size_t j = 0; j < B.n; j++) { int s = 0; for (size_t k = 0; k < A.n; k++) s += A(i, k) * B(k, j); C(i, j) = md(s, p); } return C; }
inline DM dT(const DM& A) { DM C(A.n, A.m); for (size_t i = 0; i < A.m; i++) for (size_t j = 0; j < A.n; j++) C(j, i) = A(i, j); return C; }
inline DM deye(size_t n) { DM C(n, n); for (size_t i = 0; i < n; i++) C(i, i) = 1; return C; }
inline bool deq(const DM& A, const DM& B) { if (A.m != B.m || A.n != B.n) return false; bool r = true; for (size_t i = 0; i < A.a.size(); i++) r &= (A.a[i] == B.a[i]); return r; }
inline size_t drank(DM A, int p) { size_t r = 0; for (size_t j = 0; j < A.n && r < A.m; j++) { size_t q = r; while (q < A.m && A(q, j) == 0) q++; if (q == A.m) continue; for (size_t k = 0; k < A.n; k++) std::swap(A(q, k), A(r, k)); int v = minv(A(r, j), p); for (size_t i = r + 1; i < A.m; i++) if (A(i, j)) { int c = md(A(i, j) * v, p); for (size_t k = j; k < A.n; k++) A(i, k) = md(A(i, k) - c * A(r, k), p); } r++; } return r; }
template <class F> struct FieldP {}; 
template <class I, unsigned P> struct FieldP<ModP<I, P>> { static constexpr int p = (int)P; };
template <class F> int toint(const F& x) { return (int)x.to_int(); }
inline int toint(int x) { return x; }
// sorted strictly increasing indices below the bound, no stored zeros
template <class V> bool wf(const V& v, size_t m) { bool ok = true, first = true; size_t last = 0; for (auto it = v.nzbegin(); it != v.nzend(); ++it) { if (!(it->ind < m)) ok = false; if (!first && !(last < it->ind)) ok = false; if (toint(it->val) == 0) ok = false; last = it->ind; first = false; } return ok; }
template <class V> DV dvec(const V& v, size_t m) { DV r(m, 0); for (auto it = v.nzbegin(); it != v.nzend(); ++it) if (it->ind < m) r[it->ind] = toint(it->val); return r; }
template <class M> bool wfm(const M& A) { bool ok = true; for (size_t j = 0; j < A.ncol(); j++) ok &= wf(A[j], A.nrow()); return ok; }
template <class M> DM dense(const M& A) { DM D(A.nrow(), A.ncol()); for (size_t j = 0; j < A.ncol(); j++) for (auto it = A[j].nzbegin(); it != A[j].nzend(); ++it) if (it->ind < D.m) D(it->ind, j) = toint(it->val); return D; }
// Skeletons: for larger inputs, one of several fixed pseudo-random patterns with a few undetermined entries (declare Skeleton k(patterns, undetermined entries per object) before the inputs)
struct SkelState { int seeds, per; uint32_t st; bool conc; };
inline SkelState& sk() { static SkelState s{0, 0, 0, false}; return s; }
inline int skr(int n) { sk().st = sk().st * 1664525u + 1013904223u; return (int)((sk().st >> 9) % (uint32_t)n); }
struct Skeleton { Skeleton(int seeds, int per) { sk().seeds = seeds; sk().per = per; sk().st = 12345u + 7919u * (uint32_t)bsx::pick("skeleton", 0, seeds - 1); skr(2); skr(2); } ~Skeleton() { sk().seeds = 0; } };
// which of n entries stay undetermined
inline vector<int> skopen(size_t n) { vector<int> o(n, 0); if (n) for (int k = 0; k < sk().per; k++) o[skr((int)n)] = 1; return o; }
inline DV skvals(const char* nm, size_t n, int p) { DV v(n, 0); int dens = skr(3); auto o = skopen(n); for (size_t i = 0; i < n; i++) { int z = skr(20), x = 1 + (p > 2 ? skr(p - 1) : 0); v[i] = o[i] ? (p == 2 && !sk().conc ? bsx::sym(nm, 0, 1) : bsx::pick(nm, 0, p - 1)) : z < 6 + 4 * dens ? 0 : x; } return v; }
inline void fillv(DV& v, const char* nm, int p) { if (sk().seeds) v = skvals(nm, v.size(), p); else for (int& x : v) x = bsx::sym(nm, 0, p - 1); }
inline bool kb(const char* nm) { return sk().seeds ? skr(2) != 0 : bsx::symb(nm) != 0; }
// symbolic sparse vector: every entry a symbolic field element
template <class V> V symvec(const char* nm, size_t m) { typedef typename V::val_type F; vector<size_t> ind; vector<F> val; if (sk().seeds) { DV d = skvals(nm, m, FieldP<F>::p); for (size_t i = 0; i < m; i++) if (d[i]) { ind.push_back(i); val.push_back(F(d[i])); } return V(ind, val); } for (size_t i = 0; i < m; i++) { int x = bsx::sym(nm, 0, FieldP<F>::p - 1); if (x != 0) { ind.push_back(i); val.push_back(F(x)); } } return V(ind, val); }
template <class V> V vecof(const DV& d) { typedef typename V::val_type F; vector<size_t> ind; vector<F> val; for (size_t i = 0; i < d.size(); i++) if (d[i] != 0) { ind.push_back(i); val.push_back(F(d[i])); } return V(ind, val); }
inline DM symdense(const char* nm, size_t m, size_t n, int p) { DM D(m, n); if (sk().seeds) { D.a = skvals(nm, m * n, p); return D; } for (auto& x : D.a) x = bsx::sym(nm, 0, p - 1); return D; }
template <class M> M matof(const DM& D) { typedef typename M::col_type V; vector<V> cols; for (size_t j = 0; j < D.n; j++) { DV c(D.m); for (size_t i = 0; i < D.m; i++) c[i] = D(i, j); cols.push_back(vecof<V>(c)); } return M(D.m, D.n, cols); }
template <class M> M symmat(const char* nm, size_t m, size_t n) { typedef typename M::col_type V; typedef typename V::val_type F; return matof<M>(symdense(nm, m, n, FieldP<F>::p)); }
// symbolic permutation of 0..n-1, one path per permutation
inline vector<size_t> symperm(const char* nm, size_t n) { vector<size_t> rest, r; if (sk().seeds) { for (size_t i = 0; i < n; i++) r.push_back(i); for (size_t i = n; i > 1; i--) std::swap(r[i - 1], r[skr((int)i)]); return r; } for (size_t i = 0; i < n; i++) rest.push_back(i); for (size_t i = 0; i < n; i++) { size_t k = (size_t)bsx::pick(nm, 0, (int)(n - 1 - i)); r.push_back(rest[k]); rest.erase(rest.begin() + k); } return r; }
inline void obsm(const DM& D) { for (int x : D.a) bsx::obs(x); }
#define END() bsx_reach("end")
// an entry over skeleton inputs
#define SKEL(name, seeds, per, ...) BSX_ENTRY(name) { Skeleton skel_(seeds, per); __VA_ARGS__; }
