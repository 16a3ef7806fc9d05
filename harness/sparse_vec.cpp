// C02: SparseVector / SetVector agree with dense vectors and stay sorted, zero-free
#include "common.hpp"
#define MM (sk().seeds ? 9 : TIER(4, 5))
template <class F> using SV = SparseVector<F, size_t>;
template <class F> void check(const SV<F>& v, const DV& d) { size_t m = d.size(); REQUIRE_MSG(wf(v, m), "sorted, in range, no stored zeros"); DV r = dvec(v, m); bool eq = true; for (size_t i = 0; i < m; i++) eq &= r[i] == d[i]; REQUIRE_MSG(eq, "equals the dense result"); bsx::obs(v.nnz()); for (int x : r) bsx::obs(x); }
template <int P> void axpy() { typedef ModP<int, P> F; const size_t m = MM;
  auto x = symvec<SV<F>>("x", m), y = symvec<SV<F>>("y", m); int a = bsx::sym("a", 0, P - 1); DV dx = dvec(x, m), dy = dvec(y, m), e(m);
  for (size_t i = 0; i < m; i++) e[i] = md(dy[i] + a * dx[i], P);
  { SV<F> z(y); z.axpy(F(a), x); check(z, e); }
  { SV<F> z(y); typename SV<F>::tmp_type tmp; tmp.push_back(nzpair<size_t, F>(1, F(1))); z.axpy(F(a), x, tmp); check(z, e); }
  END(); }
template <int P> void axpy_range() { typedef ModP<int, P> F; const size_t m = MM;
  auto x = symvec<SV<F>>("x", m), y = symvec<SV<F>>("y", m); int a = bsx::sym("a", 0, P - 1); size_t lo = bsx::pick("lo", 0, m), hi = bsx::pick("hi", 0, m); DV dx = dvec(x, m), dy = dvec(y, m), e(m);
  for (size_t i = 0; i < m; i++) e[i] = md(dy[i] + (i >= lo && i < hi ? a * dx[i] : 0), P);
  SV<F> z(y); typename SV<F>::tmp_type tmp; z.axpy(F(a), x, lo, hi, tmp); check(z, e); END(); }
template <int P> void axpy_inds() { typedef ModP<int, P> F; const size_t m = 4; // y += coeff[k] * x[inds[k]] e_k
  auto x = symvec<SV<F>>("x", m); vector<size_t> inds; for (size_t i = 0; i < m; i++) if (bsx::symb("sel")) inds.push_back(i); vector<F> c; DV cd; for (size_t k = 0; k < inds.size(); k++) { int v = bsx::sym("c", 1, P - 1); cd.push_back(v); c.push_back(F(v)); }
  size_t r = inds.size(); auto y = symvec<SV<F>>("y", r); DV dx = dvec(x, m), dy = dvec(y, r), e(r); for (size_t k = 0; k < r; k++) e[k] = md(dy[k] + cd[k] * dx[inds[k]], P);
  SV<F> z(y); typename SV<F>::tmp_type tmp; z.axpy(x, c, inds, tmp); check(z, e); END(); }
template <int P> void algebra() { typedef ModP<int, P> F; const size_t m = P == 5 && !sk().seeds ? TIER(2, 3) : MM;
  auto x = symvec<SV<F>>("x", m), y = symvec<SV<F>>("y", m); int a = bsx::sym("a", 0, P - 1); DV dx = dvec(x, m), dy = dvec(y, m), e(m);
  for (size_t i = 0; i < m; i++) e[i] = md(dx[i] + dy[i], P); check(x + y, e);
  int dot = 0; for (size_t i = 0; i < m; i++) dot += dx[i] * dy[i]; REQUIRE((x * y).to_int() == md(dot, P));
  bool eq = true; for (size_t i = 0; i < m; i++) eq &= dx[i] == dy[i]; REQUIRE((x == y) == eq); REQUIRE((x != y) == !eq);
  for (size_t i = 0; i < m; i++) e[i] = md(a * dx[i], P); check(x * F(a), e); if (a != 0) { check(x.scale(F(a)), e); SV<F> z(x); z.scale_inplace(F(a)); check(z, e); }
  size_t com = 0; for (size_t i = 0; i < m; i++) com += dx[i] != 0 && dy[i] != 0; REQUIRE(x.nnz_intersection(y) == com);
  std::map<F, size_t> ct; x.coeff_intersection(y, ct); for (int c = 1; c < P; c++) { size_t n = 0; for (size_t i = 0; i < m; i++) n += dx[i] != 0 && dy[i] != 0 && md(c * dy[i], P) == dx[i]; REQUIRE((ct.count(F(c)) ? ct[F(c)] : 0) == n); }
  END(); }
template <int P> void access() { typedef ModP<int, P> F; const size_t m = MM; auto x = symvec<SV<F>>("x", m); DV d = dvec(x, m);
  size_t n = 0; for (size_t i = 0; i < m; i++) { REQUIRE(x.getval(i).to_int() == d[i]); REQUIRE(x[i].to_int() == d[i]); n += d[i] != 0; } REQUIRE(x.nnz() == n);
  auto ni = x.nzinds(); auto nv = x.nzvals(); auto nn = x.nzs(); size_t k = 0; for (size_t i = 0; i < m; i++) if (d[i]) { REQUIRE(ni[k] == i && nv[k].to_int() == d[i] && std::get<0>(nn)[k] == i && std::get<1>(nn)[k] == F(d[i])); k++; } REQUIRE(ni.size() == k && nv.size() == k);
  if (k) { REQUIRE(x.firstnz().ind == ni[0]); REQUIRE(x.lastnz().ind == ni[k - 1]); }
  size_t i = bsx::pick("i", 0, m - 1); auto lb = x.lower_bound(i), ub = x.upper_bound(i); size_t l = 0, u = 0; for (size_t t = 0; t < m; t++) if (d[t]) { l += t < i; u += t <= i; } REQUIRE((size_t)(lb - x.nzbegin()) == l); REQUIRE((size_t)(ub - x.nzbegin()) == u); const auto& cx = x; REQUIRE((size_t)(cx.upper_bound(i) - cx.nzbegin()) == u && (size_t)(cx.lower_bound(i) - cx.nzbegin()) == l); auto fl = x.find_last_nz(i); REQUIRE_MSG(l ? (size_t)(fl - cx.nzbegin()) == l - 1 : fl == cx.nzend(), "last entry before an index");
  // index extraction by a sorted index set, and by partial renumbering
  vector<size_t> s; for (size_t t = 0; t < m; t++) if (kb("s")) s.push_back(t); DV e; for (size_t t : s) e.push_back(d[t]); check(x[s], e); END(); }
template <int P> void renumber() { typedef ModP<int, P> F; const size_t m = TIER(4, 4); auto x = symvec<SV<F>>("x", m); DV d = dvec(x, m), e(m); auto p = symperm("p", m);
  { SV<F> z(x); z.permute(p); for (size_t i = 0; i < m; i++) e[p[i]] = d[i]; check(z, e); SV<F> w(z); w.ipermute(p); check(w, d); }
  { SV<F> z(x); z.ipermute(p); for (size_t i = 0; i < m; i++) e[i] = d[p[i]]; check(z, e); }
  { SV<F> z(x); z.J(m); for (size_t i = 0; i < m; i++) e[m - 1 - i] = d[i]; check(z, e); }
  { SV<F> z(x); z.reverse_inds(m - 1); check(z, e); }
  { vector<size_t> r; for (size_t i = 0; i < m; i++) if (p[i] < m / 2) r.push_back(i); auto pp = bats::util::partial_perm(r, m); DV f(r.size()); for (size_t i = 0; i < r.size(); i++) f[i] = d[r[i]]; check(x.subvector(pp), f); }
  { size_t sh = bsx::pick("sh", 0, 2); DV f(m + sh); for (size_t i = 0; i < m; i++) f[i + sh] = d[i]; check(x.shift_inds(sh), f); } END(); }
template <int P> void blocks() { typedef ModP<int, P> F; const size_t m = MM; auto x = symvec<SV<F>>("x", m); DV d = dvec(x, m); size_t i0 = bsx::pick("i0", 0, m), i1 = bsx::pick("i1", 0, m); ASSUME(i0 <= i1);
  DV b(d.begin() + i0, d.begin() + i1); check(x.block(i0, i1), b);
  auto y = symvec<SV<F>>("y", i1 - i0); DV dy = dvec(y, i1 - i0), e(d); for (size_t i = i0; i < i1; i++) e[i] = dy[i - i0]; SV<F> z(x); z.set_block(i0, i1, y); check(z, e); END(); }
template <int P> void rowops() { typedef ModP<int, P> F; const size_t m = 4; auto x = symvec<SV<F>>("x", m); DV d = dvec(x, m); size_t i = bsx::pick("i", 0, m - 1), j = bsx::pick("j", 0, m - 1);
  { SV<F> z(x); z.swap_rows(i, j); DV e(d); std::swap(e[i], e[j]); check(z, e); }
  int c = bsx::sym("c", 0, P - 1); { SV<F> z(x); z.scale_inplace(i, F(c)); DV e(d); e[i] = md(c * d[i], P); check(z, e); }
  if (i != j) { int q[4]; for (int& t : q) t = bsx::sym("q", 0, P - 1); SV<F> z(x); z.mix_rows(i, j, F(q[0]), F(q[1]), F(q[2]), F(q[3])); DV e(d); e[i] = md(q[0] * d[i] + q[1] * d[j], P); e[j] = md(q[2] * d[i] + q[3] * d[j], P); check(z, e); } END(); }
template <int P> void erases() { typedef ModP<int, P> F; const size_t m = MM; auto x = symvec<SV<F>>("x", m); DV d = dvec(x, m); size_t k = bsx::pick("k", 0, m);
  if (k < m) { SV<F> z(x); z.erase_for_matrix(k); DV e(d); e.erase(e.begin() + k); check(z, e); }
  { SV<F> z(x); z.erase_last_row_of_matrix(m - 1); DV e(d); e.pop_back(); check(z, e); }
  { SV<F> z(x); z.erase_initial_rows(k); DV e(d.begin() + k, d.end()); check(z, e); }
  { SV<F> z(x); z.erase_last_rows_of_matrix(m - 1, k); DV e(d.begin(), d.end() - k); check(z, e); }
  if (k < m) { SV<F> z(x); z.erase_rows_after(k); DV e(d.begin(), d.begin() + k + 1); check(z, e); }
  { vector<bool> c; DV e(d); for (size_t i = 0; i < m; i++) { bool b = kb("c"); c.push_back(b); if (b) e[i] = 0; } SV<F> z(x); z.clear_inds(c); check(z, e); SV<F> w(x); typename SV<F>::tmp_type tmp; w.clear_inds(c, tmp); check(w, e); }
  { SV<F> z(x); z.clear(); REQUIRE(z.nnz() == 0); } END(); }
template <int P> void inserts() { typedef ModP<int, P> F; const size_t m = 3, M = TIER(5, 6); auto x = symvec<SV<F>>("x", m); DV d = dvec(x, m); size_t k = M - m;
  // k new rows at ascending final positions
  vector<size_t> r; vector<F> v; DV e(M); { size_t left = k, old = 0; for (size_t i = 0; i < M; i++) { bool ins = left && (M - i <= left || bsx::symb("ins")); if (ins) { r.push_back(i); int t = bsx::sym("v", 1, P - 1); v.push_back(F(t)); e[i] = t; left--; } else e[i] = d[old++]; } }
  { SV<F> z(x); z.insert_rows(r, v); check(z, e); }
  { SV<F> z(x); size_t n0 = 0; while (n0 < r.size() && r[n0] == n0) n0++; z.insert_rows(r, n0); for (size_t i : r) e[i] = 0; check(z, e); SV<F> w(x); w.insert_rows(r); check(w, e); }
  { SV<F> z(x); vector<size_t> no; z.insert_rows(no); check(z, d); } END(); }
template <int P> void products() { typedef ModP<int, P> F; const size_t m = 3, n = 2; auto x = symvec<SV<F>>("x", m), y = symvec<SV<F>>("y", n); DV dx = dvec(x, m), dy = dvec(y, n), e(m * n); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) e[i * n + j] = md(dx[i] * dy[j], P);
  check(x.kron(y, n), e); END(); }
template <int P> void ctors() { typedef ModP<int, P> F; const size_t m = 3; vector<std::tuple<size_t, int>> t; DV d(m); auto p = symperm("p", m); vector<size_t> ii; vector<int> vv;
  for (size_t i : p) { int v = bsx::sym("v", 1, P - 1); d[i] = v; t.push_back(std::make_tuple(i, v)); } check(SV<F>(t), d); for (size_t i = 0; i < m; i++) { ii.push_back(i); vv.push_back(d[i]); }
  check(SV<F>(ii.begin(), vv.begin(), m), d); SparseVector<int, size_t> zi(ii, vv); check(SV<F>(zi), d); { DV e(m); e[p[0]] = 1; check(SV<F>(p[0]), e); e[p[0]] = d[p[0]]; check(SV<F>(p[0], F(d[p[0]])), e); }
  { DV e(m, d[0]); check(SV<F>::dense(F(d[0]), m), e); }
  { int w[3]; vector<int> raw; for (int& x : w) x = bsx::sym("w", -6, 6); for (int& x : w) raw.push_back(x); SparseVector<int, size_t> z(ii, raw); DV e(m); for (size_t i = 0; i < m; i++) e[i] = md(raw[i], P); check(z.cast_values(F()), e); }
  { vector<F> f; for (size_t i = 0; i < m; i++) f.push_back(F(bsx::sym("z", 0, P - 1))); SV<F> z(ii, f); DV e(m); for (size_t i = 0; i < m; i++) e[i] = f[i].to_int(); z.clear_zeros(); check(z, e); } END(); }
#define ALL(P) BSX_ENTRY(axpy##P) { axpy<P>(); } BSX_ENTRY(range##P) { axpy_range<P>(); } BSX_ENTRY(inds##P) { axpy_inds<P>(); } BSX_ENTRY(algebra##P) { algebra<P>(); } BSX_ENTRY(access##P) { access<P>(); } BSX_ENTRY(renumber##P) { renumber<P>(); } \
  BSX_ENTRY(blocks##P) { blocks<P>(); } BSX_ENTRY(rowops##P) { rowops<P>(); } BSX_ENTRY(erases##P) { erases<P>(); } BSX_ENTRY(inserts##P) { inserts<P>(); } BSX_ENTRY(products##P) { products<P>(); } BSX_ENTRY(ctors##P) { ctors<P>(); }
ALL(3)
#if BSX_TIER
ALL(2) ALL(5)
#else
#define KV(P) SKEL(kaxpy##P, 12, 2, axpy<P>()) SKEL(krange##P, 6, 1, axpy_range<P>()) SKEL(kalgebra##P, 12, 2, algebra<P>()) SKEL(kaccess##P, 12, 3, access<P>()) SKEL(kblocks##P, 12, 2, blocks<P>()) SKEL(kerases##P, 12, 2, erases<P>())
KV(3) KV(5)
BSX_ENTRY(axpy2) { axpy<2>(); } BSX_ENTRY(rowops2) { rowops<2>(); } BSX_ENTRY(algebra2) { algebra<2>(); } BSX_ENTRY(algebra5) { algebra<5>(); }
#endif
template <class S, class F> S symset(const char* nm, size_t m) { auto v = symvec<SV<F>>(nm, m); return S(v.nzinds(), v.nzvals()); }
// SetVector: same operations on the set-backed vector
template <int P> void setvec() { typedef ModP<int, P> F; typedef SetVector<F, size_t> S; const size_t m = 4; auto x = symvec<SV<F>>("x", m); DV dx = dvec(x, m); S y = symset<S, F>("y", m); DV dy = dvec(y, m); int a = bsx::sym("a", 0, P - 1); DV e(m);
  auto chk = [&](const S& v, const DV& d) { REQUIRE(wf(v, m)); DV r = dvec(v, m); bool eq = true; for (size_t i = 0; i < m; i++) eq &= r[i] == d[i]; REQUIRE_MSG(eq, "set vector equals the dense result"); };
  for (size_t i = 0; i < m; i++) { e[i] = md(dy[i] + a * dx[i], P); REQUIRE(y.get(i).to_int() == dy[i]); } { S z(y); z.axpy(F(a), x); chk(z, e); }
  size_t lo = bsx::pick("lo", 0, m), hi = bsx::pick("hi", 0, m); ASSUME(lo <= hi); for (size_t i = 0; i < m; i++) e[i] = md(dy[i] + (i >= lo && i < hi ? a * dx[i] : 0), P); { S z(y); z.axpy(F(a), x, lo, hi); chk(z, e); } END(); }
template <int P> void setvec2() { typedef ModP<int, P> F; typedef SetVector<F, size_t> S; const size_t m = 4; S y = symset<S, F>("y", m); DV dy = dvec(y, m), e(m); auto p = symperm("p", m);
  auto chk = [&](const S& v, const DV& d) { REQUIRE(wf(v, m)); DV r = dvec(v, m); bool eq = true; for (size_t i = 0; i < m; i++) eq &= r[i] == d[i]; REQUIRE_MSG(eq, "set vector equals the dense result"); };
  S z(y); z.permute(p); for (size_t i = 0; i < m; i++) e[p[i]] = dy[i]; chk(z, e); S w(y); int v = bsx::sym("v", 1, P - 1); w.set(p[0], F(v)); e = dy; e[p[0]] = v; chk(w, e); REQUIRE(w.nnz() == y.nnz() + (dy[p[0]] == 0)); if (y.nnz()) { size_t l = 0; for (size_t i = 0; i < m; i++) if (dy[i]) l = i; REQUIRE(y.lastnz().ind == l); } END(); }
template <int P> void setvec4() { typedef ModP<int, P> F; typedef SetVector<F, size_t> S; const size_t m = 3; vector<size_t> ind; vector<F> val; DV e(m); for (int i = 0; i < 3; i++) { size_t x = (size_t)bsx::pick("i", 0, (int)m - 1); int v = bsx::sym("v", 0, P - 1); ind.push_back(x); val.push_back(F(v)); e[x] = md(e[x] + v, P); }
  auto chk = [&](const S& v, const DV& d) { REQUIRE(wf(v, m)); DV r = dvec(v, m); bool eq = true; for (size_t i = 0; i < m; i++) eq &= r[i] == d[i]; REQUIRE_MSG(eq, "set vector equals the dense result"); };
  S a(ind.begin(), val.begin(), ind.size()); chk(a, e); if (bsx::symb("eq")) { S y = symset<S, F>("y", m); DV dy = dvec(y, m); bool same = true; for (size_t i = 0; i < m; i++) same &= e[i] == dy[i]; REQUIRE_MSG((a == y) == same, "equality"); SV<F> sp = symvec<SV<F>>("s", m); DV ds = dvec(sp, m); same = true; for (size_t i = 0; i < m; i++) same &= ds[i] == e[i]; REQUIRE_MSG((a == sp) == same, "equality with a sparse vector"); return; }
  for (size_t i = 0; i < m; i++) { const S& c = a; auto lo = a.lower_bound(i), lc = c.lower_bound(i), up = a.upper_bound(i), uc = c.upper_bound(i); size_t el = bats::NO_IND, eu = bats::NO_IND; for (size_t k = m; k-- > 0;) if (e[k]) { if (k >= i) el = k; if (k > i) eu = k; } REQUIRE(lo == lc && up == uc); REQUIRE((lo == a.nzend()) == (el == bats::NO_IND)); if (lo != a.nzend()) REQUIRE(lo->ind == el && lo->val.to_int() == e[el]); REQUIRE((up == a.nzend()) == (eu == bats::NO_IND)); if (up != a.nzend()) REQUIRE(up->ind == eu); }
  if (a.nnz()) { S b(a); auto it = b.lower_bound(0); size_t at = it->ind; int v = bsx::sym("nv", 1, P - 1); b.replace(it, F(v)); DV r(e); r[at] = v; chk(b, r); REQUIRE(it->ind == at && it->val.to_int() == v); S c(a); auto jt = c.lower_bound(0); size_t to = (size_t)bsx::pick("to", 0, (int)m - 1); if (to == at || !e[to]) { c.replace(jt, to, F(v)); r = e; r[at] = 0; r[to] = v; chk(c, r); } } S one((size_t)1); DV u(m); u[1] = 1; chk(one, u); END(); }
BSX_ENTRY(setvecd2) { setvec4<2>(); } BSX_ENTRY(setvecd3) { setvec4<3>(); } BSX_ENTRY(setvec3) { setvec<3>(); } BSX_ENTRY(setvecb3) { setvec2<3>(); }
