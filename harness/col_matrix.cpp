// C03: ColumnMatrix algebra and structural edits agree with dense matrices
#include "common.hpp"
template <int P> using CM = ColumnMatrix<SparseVector<ModP<int, P>, size_t>>;
template <class M> void check(const M& A, const DM& D, const char* what) { REQUIRE_MSG(A.nrow() == D.m && A.ncol() == D.n && A.cols().size() == D.n, what); REQUIRE_MSG(wfm(A), what); REQUIRE_MSG(deq(dense(A), D), what); obsm(dense(A)); }
template <int P> void product(size_t m, size_t k, size_t n) { typedef CM<P> M; DM a = symdense("a", m, k, P), b = symdense("b", k, n, P); M A = matof<M>(a), B = matof<M>(b); check(A * B, dmul(a, b, P), "product");
  for (size_t j = 0; j < n; j++) { auto y = A * B[j]; DV dy = dvec(y, m); DM c = dmul(a, b, P); bool e = wf(y, m); for (size_t i = 0; i < m; i++) e &= dy[i] == c(i, j); REQUIRE_MSG(e, "matrix vector product"); typename M::tmp_type t; auto y2 = A.gemv(B[j], t); REQUIRE(y2 == y); }
  END(); }
template <int P> void linear(size_t m, size_t n) { typedef CM<P> M; DM a = symdense("a", m, n, P), b = symdense("b", m, n, P), s(m, n), d(m, n), c(m, n); int k = bsx::sym("k", 0, P - 1); M A = matof<M>(a), B = matof<M>(b);
  for (size_t t = 0; t < a.a.size(); t++) { s.a[t] = md(a.a[t] + b.a[t], P); d.a[t] = md(a.a[t] - b.a[t], P); c.a[t] = md(k * a.a[t], P); }
  check(A + B, s, "sum"); check(A - B, d, "difference"); check(A * ModP<int, P>(k), c, "scalar multiple"); M S(A); S += B; check(S, s, "sum in place"); REQUIRE((A == B) == deq(a, b)); check(A.transpose(), dT(a), "transpose"); check(A.T().T(), a, "transpose twice"); END(); }
template <int P> void reads(size_t m, size_t n) { typedef CM<P> M; DM a = symdense("a", m, n, P); M A = matof<M>(a); size_t nz = 0; bool upper = true, lower = true, uinv = m == n, zero = true;
  for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) { REQUIRE(A.getval(i, j).to_int() == a(i, j)); REQUIRE(A(i, j).to_int() == a(i, j)); if (a(i, j)) { nz++; zero = false; if (i > j) upper = false; if (i < j) lower = false; } }
  for (size_t j = 0; j < n && j < m; j++) if (!a(j, j)) uinv = false; 
  REQUIRE(A.nnz() == nz); REQUIRE(A.is_zero() == zero); REQUIRE(A.is_upper() == upper); REQUIRE(A.is_lower() == lower); if (m == n) REQUIRE(A.is_upper_invert() == (upper && uinv));
  bool red = true; for (size_t j = 0; j < n; j++) for (size_t k = 0; k < j; k++) { int pj = -1, pk = -1; for (size_t i = 0; i < m; i++) { if (a(i, j)) pj = i; if (a(i, k)) pk = i; } if (pj >= 0 && pj == pk) red = false; } REQUIRE(A.is_reduced() == red);
  bool piv = true; for (size_t j = 0; j < n; j++) { size_t c = 0; for (size_t i = 0; i < m; i++) c += a(i, j) != 0; if (c > 1) piv = false; } for (size_t i = 0; i < m; i++) { size_t c = 0; for (size_t j = 0; j < n; j++) c += a(i, j) != 0; if (c > 1) piv = false; } REQUIRE(A.is_pivot_matrix() == piv);
  auto el = [](const DM& d) { int last = -1; bool done = false; for (size_t j = 0; j < d.n; j++) { int c = 0, p = -1; for (size_t i = 0; i < d.m; i++) if (d(i, j)) { c++; p = i; } if (c > 1) return false; if (!c) { done = true; continue; } if (done || p <= last) return false; last = p; } return true; };
  auto J = [](const DM& d) { DM r(d.m, d.n); for (size_t i = 0; i < d.m; i++) for (size_t j = 0; j < d.n; j++) r(d.m - 1 - i, d.n - 1 - j) = d(i, j); return r; };
  REQUIRE(A.is_EL() == el(a)); REQUIRE(A.is_EU() == el(dT(a))); REQUIRE(A.is_ELhat() == el(dT(J(a)))); REQUIRE(A.is_EUhat() == el(J(a)));
  auto arr = A.to_row_array(); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) REQUIRE(arr[i][j].to_int() == a(i, j)); auto* dd = A.dump_dense(); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) REQUIRE(dd[i + j * m].to_int() == a(i, j)); delete[] dd;
  check(A.J_conjugation(), J(a), "J conjugation"); { DM r(m, n); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) r(m - 1 - i, j) = a(i, j); check(A.J_left(), r, "J left"); } { DM r(m, n); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) r(i, n - 1 - j) = a(i, j); check(A.J_right(), r, "J right"); } END(); }
template <int P> void perms(size_t m, size_t n) { typedef CM<P> M; DM a = symdense("a", m, n, P); M A = matof<M>(a); auto p = symperm("p", m), q = symperm("q", n); DM r(m, n), c(m, n), rc(m, n), ic(m, n);
  // permute_*: index i moves to p[i]; ipermute_*: the inverse
  for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) { r(p[i], j) = a(i, j); c(i, q[j]) = a(i, j); ic(i, j) = a(i, q[j]); } for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) rc(p[i], j) = c(i, j);
  { M B(A); B.permute_rows(p); check(B, r, "permute_rows"); B.ipermute_rows(p); check(B, a, "ipermute_rows undoes permute_rows"); } { M B(A); B.permute_cols(q); check(B, c, "permute_cols"); B.ipermute_cols(q); check(B, a, "ipermute_cols undoes permute_cols"); } { M B(A); B.ipermute_cols(q); check(B, ic, "ipermute_cols"); } { M B(A); B.permute(p, q); check(B, rc, "permute"); } END(); }
template <int P> void rowcol(size_t m, size_t n) { typedef CM<P> M; typedef ModP<int, P> F; DM a = symdense("a", m, n, P); M A = matof<M>(a); size_t i = bsx::pick("i", 0, m - 1), i2 = bsx::pick("i2", 0, m - 1), j = bsx::pick("j", 0, n - 1), j2 = bsx::pick("j2", 0, n - 1); int q[4]; for (int& t : q) t = sk().seeds ? 1 + skr(P - 1) : bsx::sym("q", 1, P - 1); if (kb("qz")) q[sk().seeds ? skr(4) : bsx::pick("qi", 0, 3)] = 0;
  { M B(A); B.swap_rows(i, i2); DM d(a); for (size_t k = 0; k < n; k++) std::swap(d(i, k), d(i2, k)); check(B, d, "swap_rows"); } { M B(A); B.swap_cols(j, j2); DM d(a); for (size_t k = 0; k < m; k++) std::swap(d(k, j), d(k, j2)); check(B, d, "swap_cols"); }
  if (i != i2) { M B(A); B.mix_rows(i, i2, F(q[0]), F(q[1]), F(q[2]), F(q[3])); DM d(a); for (size_t k = 0; k < n; k++) { d(i, k) = md(q[0] * a(i, k) + q[1] * a(i2, k), P); d(i2, k) = md(q[2] * a(i, k) + q[3] * a(i2, k), P); } check(B, d, "mix_rows"); }
  if (j != j2 && q[0] && q[3]) { M B(A); B.mix_cols(j, j2, F(q[0]), F(q[1]), F(q[2]), F(q[3])); DM d(a); for (size_t k = 0; k < m; k++) { d(k, j) = md(q[0] * a(k, j) + q[2] * a(k, j2), P); d(k, j2) = md(q[1] * a(k, j) + q[3] * a(k, j2), P); } check(B, d, "mix_cols"); }
  END(); }
template <int P> void appends(size_t m, size_t n) { typedef CM<P> M; typedef ModP<int, P> F; typedef typename M::col_type V; DM a = symdense("a", m, n, P); M A = matof<M>(a); DV nc(m), nr(n); fillv(nc, "c", P); fillv(nr, "r", P); V c = vecof<V>(nc), r = vecof<V>(nr); vector<F> rv; for (int x : nr) rv.push_back(F(x)); size_t ri = bsx::pick("ri", 0, m), ci = bsx::pick("ci", 0, n);
  auto inscol = [&](const DM& d, size_t at, const DV& v) { DM e(d.m, d.n + 1); for (size_t i = 0; i < d.m; i++) for (size_t j = 0; j <= d.n; j++) e(i, j) = j < at ? d(i, j) : j == at ? v[i] : d(i, j - 1); return e; };
  auto insrow = [&](const DM& d, size_t at, const DV& v) { return dT(inscol(dT(d), at, v)); }; DV zc(m, 0), zr(n, 0);
  { M B(A); B.append_column(c); check(B, inscol(a, n, nc), "append_column"); } { M B(A); B.append_column(); check(B, inscol(a, n, zc), "append zero column"); } { M B(A); B.append_row(); check(B, insrow(a, m, zr), "append zero row"); } { M B(A); B.append_row(rv); check(B, insrow(a, m, nr), "append_row"); } { M B(A); B.append_sparse_row(r); check(B, insrow(a, m, nr), "append_sparse_row"); }
  { M B(A); B.insert_column(ci, c); check(B, inscol(a, ci, nc), "insert_column"); } { M B(A); B.insert_column(ci); check(B, inscol(a, ci, zc), "insert zero column"); } { M B(A); B.insert_row(ri, rv); check(B, insrow(a, ri, nr), "insert_row"); } { M B(A); B.insert_row(ri); check(B, insrow(a, ri, zr), "insert zero row"); } END(); }
template <int P> void multi(size_t m, size_t n, size_t k) { // insertion of k rows / columns at ascending final positions
  typedef CM<P> M; typedef typename M::col_type V; DM a = symdense("a", m, n, P); M A = matof<M>(a); auto positions = [&](size_t total) { vector<size_t> r; size_t left = k; for (size_t i = 0; i < total; i++) if (left && (total - i <= left || bsx::symb("at"))) { r.push_back(i); left--; } return r; };
  { auto r = positions(m + k); DM e(m + k, n); vector<V> rows; size_t o = 0, q = 0; DM z(m + k, n); for (size_t i = 0; i < m + k; i++) { if (q < k && r[q] == i) { DV v(n); fillv(v, "v", P); for (size_t j = 0; j < n; j++) e(i, j) = v[j]; rows.push_back(vecof<V>(v)); q++; } else { for (size_t j = 0; j < n; j++) e(i, j) = z(i, j) = a(o, j); o++; } }
    { M B(A); B.insert_rows(r); check(B, z, "insert zero rows"); } { M B(A); B.insert_sparse_rows(r, rows); check(B, e, "insert_sparse_rows"); } { M B(A); B.insert_rows(r, rows); check(B, e, "insert_rows with values"); } }
  END(); }
template <int P> void multic(size_t m, size_t n, size_t k) { typedef CM<P> M; typedef typename M::col_type V; DM a = symdense("a", m, n, P); M A = matof<M>(a); vector<size_t> r; size_t left = k; for (size_t i = 0; i < n + k; i++) if (left && (n + k - i <= left || bsx::symb("at"))) { r.push_back(i); left--; }
  DM e(m, n + k); vector<V> cols; size_t o = 0, q = 0; for (size_t j = 0; j < n + k; j++) { if (q < k && r[q] == j) { DV v(m); fillv(v, "v", P); for (size_t i = 0; i < m; i++) e(i, j) = v[i]; cols.push_back(vecof<V>(v)); q++; } else { for (size_t i = 0; i < m; i++) e(i, j) = a(i, o); o++; } }
  M B(A); B.insert_columns(r, cols); check(B, e, "insert_columns"); END(); }
template <int P> void erasing(size_t m, size_t n) { typedef CM<P> M; DM a = symdense("a", m, n, P); M A = matof<M>(a); size_t k = bsx::pick("k", 0, (m > n ? m : n));
  auto sub = [&](size_t i0, size_t i1, size_t j0, size_t j1) { DM d(i1 - i0, j1 - j0); for (size_t i = i0; i < i1; i++) for (size_t j = j0; j < j1; j++) d(i - i0, j - j0) = a(i, j); return d; };
  if (k < n) { M B(A); B.erase_column(k); DM d(m, n - 1); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n - 1; j++) d(i, j) = a(i, j < k ? j : j + 1); check(B, d, "erase_column"); } if (k < m) { M B(A); B.erase_row(k); DM d(m - 1, n); for (size_t i = 0; i < m - 1; i++) for (size_t j = 0; j < n; j++) d(i, j) = a(i < k ? i : i + 1, j); check(B, d, "erase_row"); }
  { M B(A); B.erase_column(); check(B, sub(0, m, 0, n - 1), "erase last column"); } { M B(A); B.erase_row(); check(B, sub(0, m - 1, 0, n), "erase last row"); }
  if (k <= n) { M B(A); B.erase_final_columns(k); check(B, sub(0, m, 0, n - k), "erase_final_columns"); M C(A); C.erase_initial_cols(k); check(C, sub(0, m, k, n), "erase_initial_cols"); } if (k <= m) { M B(A); B.erase_rows(k); check(B, sub(0, m - k, 0, n), "erase_rows"); M C(A); C.erase_initial_rows(k); check(C, sub(k, m, 0, n), "erase_initial_rows"); }
  { vector<bool> c; for (size_t i = 0; i < m; i++) c.push_back(kb("c")); M B(A); B.clear_rows(c); DM d(a); for (size_t i = 0; i < m; i++) if (c[i]) for (size_t j = 0; j < n; j++) d(i, j) = 0; check(B, d, "clear_rows"); } { vector<bool> c; for (size_t i = 0; i < n; i++) c.push_back(kb("c")); M B(A); B.clear_cols(c); DM d(a); for (size_t j = 0; j < n; j++) if (c[j]) for (size_t i = 0; i < m; i++) d(i, j) = 0; check(B, d, "clear_cols"); } END(); }
template <int P> void blocks(size_t m, size_t n) { typedef CM<P> M; DM a = symdense("a", m, n, P); M A = matof<M>(a); size_t i0 = bsx::pick("i0", 0, m), i1 = bsx::pick("i1", 0, m), j0 = bsx::pick("j0", 0, n), j1 = bsx::pick("j1", 0, n); ASSUME(i0 <= i1 && j0 <= j1); DM d(i1 - i0, j1 - j0); for (size_t i = i0; i < i1; i++) for (size_t j = j0; j < j1; j++) d(i - i0, j - j0) = a(i, j); check(A.block(i0, i1, j0, j1), d, "block");
  DM b = symdense("b", i1 - i0, j1 - j0, P), e(a); for (size_t i = i0; i < i1; i++) for (size_t j = j0; j < j1; j++) e(i, j) = b(i - i0, j - j0); M B(A); B.set_block(i0, i1, j0, j1, matof<M>(b)); check(B, e, "set_block"); END(); }
template <int P> void subs(size_t m, size_t n) { typedef CM<P> M; DM a = symdense("a", m, n, P); M A = matof<M>(a); auto pr = symperm("pr", m), pc = symperm("pc", n); size_t k = bsx::pick("k", 0, m), l = bsx::pick("l", 0, n); vector<size_t> r(pr.begin(), pr.begin() + k), c(pc.begin(), pc.begin() + l); DM d(k, l); for (size_t i = 0; i < k; i++) for (size_t j = 0; j < l; j++) d(i, j) = a(r[i], c[j]); check(A.submatrix(r, c), d, "submatrix"); END(); }
template <int P> void misc() { typedef CM<P> M; typedef ModP<int, P> F; DM a = symdense("a", 2, 2, P), b = symdense("b", 2, 1, P); M A = matof<M>(a), B = matof<M>(b); DM s(4, 3); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) s(i, j) = a(i, j); for (int i = 0; i < 2; i++) s(2 + i, 2) = b(i, 0); check(direct_sum(A, B), s, "direct_sum"); check(M::identity(3), deye(3), "identity"); 
  { auto x = B[0] * A; DV dx = dvec(x, 2); DM r = dmul(dT(b), a, P); REQUIRE(wf(x, 2) && dx[0] == r(0, 0) && dx[1] == r(0, 1)); }
  vector<F> c; DV cd; for (int i = 0; i < 2; i++) { int v = bsx::sym("c", 1, P - 1); cd.push_back(v); c.push_back(F(v)); } { M S(A); S.row_scale(c); DM d(a); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) d(i, j) = md(a(i, j) * cd[i], P); check(S, d, "row_scale"); } { M S(A); S.col_inv_scale(c); S.T(); DM d = dense(S); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) REQUIRE(md(d(i, j) * cd[j], P) == a(i, j)); } END(); }
template <int P> void tensors(size_t m, size_t n, size_t k, size_t l) { typedef CM<P> M; typedef typename M::col_type V; DM a = symdense("a", m, n, P), b = symdense("b", k, l, P); M A = matof<M>(a), B = matof<M>(b); DM t(m * k, n * l); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) for (size_t x = 0; x < k; x++) for (size_t y = 0; y < l; y++) t(i * k + x, j * l + y) = md(a(i, j) * b(x, y), P); check(tensor_product(A, B), t, "Kronecker product");
  for (size_t j = 0; j < n; j++) for (size_t y = 0; y < l; y++) { V u = A[j].kron(B[y], k), w = A[j].tensor(B[y], k); REQUIRE(u == w && wf(u, m * k)); DV d = dvec(u, m * k); for (size_t i = 0; i < m * k; i++) REQUIRE_MSG(d[i] == t(i, j * l + y), "Kronecker product of vectors"); }
  if (n == k) { DM p = dmul(a, b, P); for (size_t j = 0; j < l; j++) { V y = gemv(A, B[j]); DV d = dvec(y, m); bool e = wf(y, m); for (size_t i = 0; i < m; i++) e &= d[i] == p(i, j); REQUIRE_MSG(e, "matrix vector product"); } } END(); }
template <int P> void elim(size_t m, size_t n) { typedef CM<P> M; DM a = symdense("a", m, n, P); M A = matof<M>(a); size_t i = (size_t)bsx::pick("i", 0, (int)m - 1), j = (size_t)bsx::pick("j", 0, (int)n - 1); ASSUME(a(i, j) != 0); A.schur_complement(i, j); int inv = 1; while (inv * a(i, j) % P != 1) inv++; DM e(a); for (size_t c = j + 1; c < n; c++) for (size_t r = i + 1; r < m; r++) e(r, c) = md(a(r, c) - a(i, c) * inv * a(r, j), P); check(A, e, "Schur complement of an entry"); END(); }
// equality of matrices of any two shapes
template <int P> void shapes(size_t mm, size_t nn) { typedef CM<P> M; auto one = [&](const char* nm) { size_t m = (size_t)bsx::pick("m", 0, (int)mm), n = (size_t)bsx::pick("n", 0, (int)nn); return symdense(nm, m, n, P); }; DM a = one("a"), b = one("b"); M A = matof<M>(a), B = matof<M>(b); bool e = a.m == b.m && a.n == b.n && deq(a, b); REQUIRE_MSG((A == B) == e && (B == A) == e, "equal exactly if shapes and entries agree"); REQUIRE(A == A && M(A) == A); bsx::obs(e); END(); }
BSX_ENTRY(shape2) { shapes<2>(3, 2); } BSX_ENTRY(shape3) { shapes<3>(2, 2); }
BSX_ENTRY(tens2) { tensors<2>(2, 2, 2, 2); } BSX_ENTRY(tens3) { tensors<3>(2, 1, 1, 2); } BSX_ENTRY(tens2b) { tensors<2>(1, 3, 3, 1); } BSX_ENTRY(elim2) { elim<2>(3, 3); } BSX_ENTRY(elim3) { elim<3>(2, 3); } BSX_ENTRY(elim5) { elim<5>(2, 2); }
BSX_ENTRY(product2) { product<2>(3, 3, TIER(2, 3)); } BSX_ENTRY(product3) { product<3>(2, 2, 2); } BSX_ENTRY(linear3) { linear<3>(2, 2); } BSX_ENTRY(linear2) { linear<2>(2, 3); } BSX_ENTRY(reads2) { reads<2>(3, 3); } BSX_ENTRY(reads2w) { reads<2>(2, 4); } BSX_ENTRY(reads3) { reads<3>(2, 2); } BSX_ENTRY(perms2) { perms<2>(3, 3); } BSX_ENTRY(perms3) { perms<3>(3, 2); }
BSX_ENTRY(rowcol3) { rowcol<3>(2, 2); } BSX_ENTRY(rowcol2) { rowcol<2>(3, 2); } BSX_ENTRY(appends3) { appends<3>(2, 2); } BSX_ENTRY(appends2) { appends<2>(2, 3); } BSX_ENTRY(multi2) { multi<2>(2, 2, 2); } BSX_ENTRY(multi3) { multi<3>(3, 1, 2); } BSX_ENTRY(multic2) { multic<2>(2, 2, 2); } BSX_ENTRY(multic3) { multic<3>(1, 3, 2); } BSX_ENTRY(erasing2) { erasing<2>(3, 2); } BSX_ENTRY(erasing3) { erasing<3>(2, 2); } BSX_ENTRY(blocks2) { blocks<2>(2, 2); } BSX_ENTRY(blocks3) { blocks<3>(2, 2); } BSX_ENTRY(subs2) { subs<2>(3, 2); } BSX_ENTRY(misc3) { misc<3>(); } BSX_ENTRY(misc2) { misc<2>(); } BSX_ENTRY(misc5) { misc<5>(); }
SKEL(kproduct2, 8, 3, product<2>(5, 7, 6)) SKEL(kproduct3, 8, 2, product<3>(4, 6, 5)) SKEL(klinear3, 8, 2, linear<3>(5, 4)) SKEL(kreads3, 12, 3, reads<3>(6, 5)) SKEL(kperms3, 12, 2, perms<3>(6, 5)) SKEL(krowcol3, 4, 1, rowcol<3>(5, 5)) SKEL(kappends3, 6, 1, appends<3>(5, 4)) SKEL(kerasing3, 6, 2, erasing<3>(6, 5)) SKEL(kblocks3, 2, 1, blocks<3>(5, 4)) SKEL(ksubs3, 8, 2, subs<3>(6, 5)) SKEL(ktens3, 6, 2, tensors<3>(3, 4, 4, 3)) SKEL(kelim3, 6, 2, elim<3>(5, 5)) SKEL(kmultic3, 4, 1, multic<3>(4, 4, 3)) SKEL(kmulti3, 4, 1, multi<3>(5, 4, 2))
#if BSX_TIER
BSX_ENTRY(product3b) { product<3>(3, 2, 2); } BSX_ENTRY(linear5) { linear<5>(2, 2); } BSX_ENTRY(reads3b) { reads<3>(3, 3); } BSX_ENTRY(reads2b) { reads<2>(4, 3); } BSX_ENTRY(perms3b) { perms<3>(3, 3); } BSX_ENTRY(multi3b) { multi<3>(3, 2, 2); } BSX_ENTRY(multi2b) { multi<2>(3, 2, 3); } BSX_ENTRY(erasing2b) { erasing<2>(3, 3); } BSX_ENTRY(blocks2b) { blocks<2>(3, 3); } BSX_ENTRY(rowcol5) { rowcol<5>(2, 2); }
#endif
