From 91857498bd15504c17eaaa7b5e60070b4ea27f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 01/47] fix: ModP conversion from and comparison with negative
 ints, F2 integer assignment and inequality

---
 include/linalg/field.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/linalg/field.hpp b/include/linalg/field.hpp
index 6179c45..15265f3 100755
--- a/include/linalg/field.hpp
+++ b/include/linalg/field.hpp
@@ -93,7 +93,10 @@ public:
 
 
   ModP() : val(0) {}
-  ModP(IntT val) : val((val + P) % P) {}
+  // representative in [0, P), also for val < -P
+  ModP(IntT val) : val(val % static_cast<IntT>(P)) {
+    if (this->val < 0) { this->val += static_cast<IntT>(P); }
+  }
 
   inline IntT to_int() const { return val; }
 
@@ -158,11 +161,11 @@ public:
   }
 
   inline bool operator==( const int b) const {
-    return ((b - val + P) % P) == 0;
+    return val == ModP(b).val;
   }
 
   inline bool operator!=( const int b) const {
-    return ((val - b + P) % P) != 0;
+    return val != ModP(b).val;
   }
 
   inline bool operator<( const ModP &b) const {
@@ -277,7 +280,7 @@ public:
     return *this;
   }
 
-  inline ModP& operator-() {
+  inline ModP operator-() const {
     return *this; // no-op
   }
 
@@ -331,11 +334,12 @@ public:
   }
 
   inline bool operator!=( const int b) const {
-    return (val & 0x1) != b;
+    return (val & 0x1) != (b & 0x1);
   }
 
-  ModP operator=(const int &a) {
-    return ModP(a);
+  ModP& operator=(const int &a) {
+    val = a;
+    return *this;
   }
 
   bool iszero() const {
-- 
2.43.0


From f1b22d13cfd21a49e954d575c3b4c2fb1c0a974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 02/47] fix: SetVector ranged axpy reads past the end and drops
 the tail

---
 include/linalg/set_vector.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/linalg/set_vector.hpp b/include/linalg/set_vector.hpp
index 3602098..aa7890b 100755
--- a/include/linalg/set_vector.hpp
+++ b/include/linalg/set_vector.hpp
@@ -178,8 +178,8 @@ public:
 
 		// set i2 to find first ind >= firstind
 		auto i2 = x.lower_bound(firstind);
-		if (!((*i2).ind < lastind) || i2 == x.nzend()) { return; } // nothing to do
-		while (i1 != indval.end() && i2 != x.nzend()) {
+		if (i2 == x.nzend() || !((*i2).ind < lastind)) { return; } // nothing to do
+		while (i1 != indval.end() && i2 != x.nzend() && (*i2).ind < lastind) {
 			if ((*i1).ind == (*i2).ind) {
 				TV val = (a * (*i2).val) + (*i1).val;
 				// delete the current key
@@ -190,7 +190,6 @@ public:
 					++i1;
 				}
 				++i2;
-				if (!((*i2).ind < lastind)) { break; }
 			} else if (*i1 < *i2) {
 				// need to catch up i1
 				++i1;
@@ -198,11 +197,10 @@ public:
 				// i2 has lower index
 				i1 = indval.emplace_hint(i1, key_type((*i2).ind, a * (*i2).val) );
 				++i2;
-				if (!((*i2).ind < lastind)) { break; }
 			}
 		}
 		// run through rest of entries in i2
-		while (i2 != x.nzend() && !((*i2).ind < lastind)) {
+		while (i2 != x.nzend() && (*i2).ind < lastind) {
 			i1 = indval.emplace_hint(i1, key_type((*i2).ind, a * (*i2).val) );
 			++i2;
 		}
-- 
2.43.0


From e35a7ff8f2667f73d1690211e442c9b97d5605fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 03/47] fix: SparseVector ipermute, set_block, mix_rows,
 insert_rows and indexed axpy

---
 include/chain/chain_complex.hpp  |  2 +-
 include/linalg/col_matrix.hpp    |  2 +-
 include/linalg/sparse_vector.hpp | 20 ++++++++++++++------
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index 1109584..0f515cf 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -236,7 +236,7 @@ template <typename Information_type>
 		if(!PI_row.empty() && PI_row != identity_perm(PI_row.size())){
 			// std::cout << "permute rows with permutation" << std::endl;
 			// print_1D_vectors(PI_row);
-			boundary[k+1].ipermute_rows(bats::util::inv_perm(PI_row));
+			boundary[k+1].ipermute_rows(PI_row);
 		}
 
 		// std::cout << "\nafter permutation of rows" << std::endl;
diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index ca20dde..1770fb2 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -311,7 +311,7 @@ public:
 			// or faster option by std::lower_bound
 			auto it_r_inds = std::lower_bound(r_inds.begin(), r_inds.end(), j);
 			j += std::distance(r_inds.begin(), it_r_inds);
-			while (*it_r_inds <= j && it_r_inds != r_inds.end()) {
+			while (it_r_inds != r_inds.end() && *it_r_inds <= j) {
 				++it_r_inds;
 				j++;
 			}
diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index c9737c5..bb71296 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -18,6 +18,7 @@ maintains indices in sorted order
 #include <map>
 #include "field.hpp"
 #include "abstract_vector.hpp"
+#include <util/permutation.hpp>
 
 
 // template over type of values
@@ -419,8 +420,9 @@ public:
 	// apply inverse permutation in-place
 	// O(nz log nz) where nz is #non-zeros
 	void ipermute(const std::vector<size_t>  &perm) {
+		auto iperm = bats::util::inv_perm(perm);
 		for (size_t i = 0; i < nnz(); i++) {
-			indval[i].ind = perm[indval[i].ind];
+			indval[i].ind = iperm[indval[i].ind];
 		}
 		sort();
 	}
@@ -468,7 +470,7 @@ public:
 	) {
 
 		// first delete all entries in the range
-		indval.erase(lower_bound(i0), upper_bound(i1));
+		indval.erase(lower_bound(i0), lower_bound(i1));
 
 		// now insert the elements in b
 		auto it = lower_bound(i0);
@@ -652,7 +654,8 @@ public:
 			} else {
 				indval.erase(pj);
 			}
-			if (b*vj != 0) indval.insert(pi, key_type(i, b*vj));
+			// lower_bound again: pi may not be valid after erase
+			if (b*vj != 0) indval.insert(lower_bound(i), key_type(i, b*vj));
 
 		}
 	}
@@ -686,7 +689,7 @@ public:
 			// iv's indices needs to add up the number of indices in r_inds before iv
 			iv->ind += std::distance(r_inds.begin(), it_r_inds);
 			// add up other indices
-			while (*it_r_inds <= iv->ind && it_r_inds != r_inds.end()) {++it_r_inds; iv->ind++;}
+			while (it_r_inds != r_inds.end() && *it_r_inds <= iv->ind) {++it_r_inds; iv->ind++;}
 			// go to the next element in indval
 			++iv;
 		}
@@ -724,7 +727,7 @@ public:
 			iv->ind += ninserted; // this is number inserted to this index
 
 			// insert additional rows as necessary
-			while (*ri <= iv->ind && ri != r_inds.end()) {++ri; iv->ind++; ++ninserted; }
+			while (ri != r_inds.end() && *ri <= iv->ind) {++ri; iv->ind++; ++ninserted; }
 
 			++iv;
 		}
@@ -1080,7 +1083,10 @@ public:
 		// std::vector<key_type> tmp;
 		tmp.clear();
 		while (i1 != indval.cend() && i2 != x.nzend() && ii < inds.size()) {
-			if (ii < i1->ind  && inds[ii] < i2->ind) {
+			if (i2->ind < inds[ii]) {
+				// entry of x that is not in inds
+				++i2;
+			} else if (ii < i1->ind  && inds[ii] < i2->ind) {
 				// need to increment ii until something happens
 				++ii;
 			} else if (i1->ind == ii && inds[ii] < i2->ind) {
@@ -1119,6 +1125,8 @@ public:
 		while (i2 != x.nzend() && ii < inds.size()) {
 			if (inds[ii] < i2->ind) {
 				++ii;
+			} else if (i2->ind < inds[ii]) {
+				++i2;
 			} else {
 				tmp.push_back(key_type(ii, coeff[ii] * (i2->val)));
 				++i2;
-- 
2.43.0


From 198c74fd80517d9e39ecbece21d2ab1254374f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 04/47] fix: ColumnMatrix difference, is_upper_invert, zero
 column insertion and sparse row insertion

---
 include/linalg/col_matrix.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 1770fb2..68c7aed 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -203,7 +203,7 @@ public:
 			if (i > index) j = i-1;
 			colperm.emplace_back(j);
 		}
-		permute_cols(colperm);
+		ipermute_cols(colperm);
 	}
 
 	/**
@@ -388,7 +388,7 @@ public:
 		size_t i = 0; // permutation index
 		while (i1 < r_inds.size() && i < m) {
 			// insert rows until we get to an insertion index
-			while (r_inds[i1] > i0) {
+			while (r_inds[i1] > i) {
 				rperm[i++] = i0++;
 			}
 			// insert index
@@ -759,9 +759,9 @@ public:
     }
 
     ColumnMatrix operator-(const ColumnMatrix &B) const {
-        ColumnMatrix C(B); // copy constructor
+        ColumnMatrix C(*this); // copy constructor
         for (size_t j = 0; j < n; j++) {
-            C.col[j].axpy(-1, col[j]);
+            C.col[j].axpy(-1, B.col[j]);
         }
         return C;
     }
@@ -919,11 +919,10 @@ public:
 	bool is_upper_invert() const {
 		for (size_t j = 0; j < n; ++j) {
 			auto iv = col[j].nzend();
-			if (iv != col[j].nzbegin()) {
-				--iv;
-				if (iv->ind != j) {
-					return false;
-				}
+			if (iv == col[j].nzbegin()) { return false; } // zero column
+			--iv;
+			if (iv->ind != j) {
+				return false;
 			}
 		}
 		return true;
-- 
2.43.0


From 0871e9edab91b150711084942461063a5f4767cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 05/47] fix: extra and sparsifying reductions never treated the
 first stored entry; sparsify_basis could destroy reducedness

---
 include/homology/parallel.hpp  |  2 +-
 include/homology/reduction.hpp | 17 +++++++++--------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/homology/parallel.hpp b/include/homology/parallel.hpp
index f14902e..c4c3b67 100644
--- a/include/homology/parallel.hpp
+++ b/include/homology/parallel.hpp
@@ -208,7 +208,7 @@ void reduce_column_extra(
 ) {
 	size_t end_offset = 1;
 	auto piv = M[j].nzend() - end_offset; // nonzero location
-	while(piv - M[j].nzbegin() > 0) {
+	while(piv - M[j].nzbegin() >= 0) {
 		// piv is index-value nzpair
 
 		if (p2c.count(piv->ind) > 0) {
diff --git a/include/homology/reduction.hpp b/include/homology/reduction.hpp
index 2505f7b..d39dcfe 100755
--- a/include/homology/reduction.hpp
+++ b/include/homology/reduction.hpp
@@ -96,7 +96,7 @@ p2c_type reduce_matrix_extra(ColumnMatrix<TVec> &M) {
 		bool found_pivot = false;
 		size_t end_offset = 1;
 		auto piv = M[j].nzend() - end_offset; // nonzero location
-		while(piv - M[j].nzbegin() > 0) {
+		while(piv - M[j].nzbegin() >= 0) {
 			// while the nonzero we are looking at is in the vector
 			// piv is index-value nzpair
 			// auto piv = M[j].lastnz();
@@ -194,7 +194,7 @@ p2c_type reduce_matrix_extra(ColumnMatrix<TVec> &M, ColumnMatrix<TVec> &U) {
 	for (size_t j = 0; j < M.ncol(); j++) {
 		size_t end_offset = 1;
 		auto piv = M[j].nzend() - end_offset; // nonzero location
-		while(piv - M[j].nzbegin() > 0) {
+		while(piv - M[j].nzbegin() >= 0) {
 			// while the nonzero we are looking at is in the vector
 			// piv is index-value nzpair
 			// auto piv = M[j].lastnz();
@@ -259,7 +259,7 @@ void reduce_column_sparsify(
 ) {
 	size_t end_offset = 1; // start looking at last nonzero
 	auto piv = M[j].nzend() - end_offset; // nonzero location
-	while (piv - M[j].nzbegin() > 0) {
+	while (piv - M[j].nzbegin() >= 0) {
 		if (pivot_to_col[piv->ind] == j) {
 			// do nothing, because this is already a pivot
 			++end_offset;
@@ -290,7 +290,7 @@ void reduce_column_sparsify(
 				M[j].axpy(-a, M[k], tmp);
 			}
 			piv = M[j].nzend() - end_offset; // next nonzero location
-			if (piv->ind == i) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
+			if (piv - M[j].nzbegin() >= 0 && piv->ind == i) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
 		} else if (end_offset == 1) {
 			// we can set a new pivot
 			pivot_to_col[piv->ind] = j;
@@ -329,10 +329,11 @@ void sparsify_basis(
 ) {
 	size_t end_offset = 2; // entry above diagonal in U[j]
 	auto piv = U[j].nzend() - end_offset; // nonzero location
-	while (piv - U[j].nzbegin() > 0) {
+	while (piv - U[j].nzbegin() >= 0) {
 		size_t k = piv->ind;
 		// std::cout << k << std::endl;
-		if (R[k].nnz() == 0 || R[k].lastnz().ind < j) {
+		// R[j] must keep its pivot (or stay zero) for R to remain reduced
+		if (R[k].nnz() == 0 || (R[j].nnz() > 0 && R[k].lastnz().ind < R[j].lastnz().ind)) {
 			// can potentially modify using this entry
 			coeff.clear();
 			U[j].coeff_intersection(U[k], coeff); // calculate intersections
@@ -351,7 +352,7 @@ void sparsify_basis(
 				R[j].axpy(-a, R[k], tmp);
 			}
 			piv = U[j].nzend() - end_offset; // next nonzero location
-			if (piv->ind == k) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
+			if (piv - U[j].nzbegin() >= 0 && piv->ind == k) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
 		} else {
 			++end_offset;
 			--piv;
@@ -546,7 +547,7 @@ void remove_extra_cycles(
 	for (size_t j = 0; j < n; ++j) {
 		size_t end_offset = 2; // entry above diagonal
 		auto piv = U[j].nzend() - end_offset; // nonzero location
-		while (piv - U[j].nzbegin() > 0) {
+		while (piv - U[j].nzbegin() >= 0) {
 			size_t k = piv->ind;
 			if (R[k].nnz() == 0) {
 				// we can eliminate entry
-- 
2.43.0


From e3d18179379f1124c92ab79d3bd9b6171167a1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 06/47] fix: compression with basis broke B U = R; apparent
 pair preprocessing marked pairs that are not apparent

---
 include/chain/chain_complex.hpp | 12 ++++++++++--
 include/homology/basis.hpp      |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index 0f515cf..b813bdf 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -344,12 +344,15 @@ template <typename Information_type>
 
 		std::vector<bool> comp_inds;
 		std::vector<bool> clear_inds;
+		std::vector<bool> seen_inds;
 		for (size_t dim = 1; dim < maxdim() + 1; ++dim) {
 			// prepare clearing and compression indices
 			clear_inds.resize(boundary[dim].nrow());
 			std::fill(clear_inds.begin(), clear_inds.end(), false);
 			comp_inds.resize(boundary[dim].ncol());
 			std::fill(comp_inds.begin(), comp_inds.end(), false);
+			seen_inds.resize(boundary[dim].nrow());
+			std::fill(seen_inds.begin(), seen_inds.end(), false);
 			// look at pivots to determine clearing/compression inds
 			for (size_t j = 0; j < boundary[dim].ncol(); ++j) {
 				auto it = boundary[dim][j].nzend();
@@ -357,14 +360,19 @@ template <typename Information_type>
 				if (it != boundary[dim][j].nzbegin()) {
 					--it; // point to last nonzero
 					size_t i = it->ind; // pivot index
-					if (!clear_inds[i]) {
-						// this is the first time we have seen this pivot
+					if (!seen_inds[i]) {
+						// no earlier column has a non-zero in this row,
+						// so (i, j) is an apparent pair
 						// mark j as a compression ind
 						comp_inds[j] = true;
 						// mark i as a clearing ind
 						clear_inds[i] = true;
 					}
 				}
+				// mark the rows which appear in this column
+				for (auto sit = boundary[dim][j].nzbegin(); sit != boundary[dim][j].nzend(); ++sit) {
+					seen_inds[sit->ind] = true;
+				}
 			}
 			// we can now clear indices one dimension lower
 			if (dim > 1) {
diff --git a/include/homology/basis.hpp b/include/homology/basis.hpp
index 649af14..ab570b8 100755
--- a/include/homology/basis.hpp
+++ b/include/homology/basis.hpp
@@ -242,6 +242,8 @@ public:
 			U[k] = MT::identity(C.dim(k));
 			p2c[k] = reduce_matrix_compression(R[k], U[k], comp_inds, algflag());
 			comp_inds = get_compression_inds(R[k]);
+			// compression dropped rows from R[k]: restore the invariant B[k] * U[k] = R[k]
+			R[k] = C.boundary[k] * U[k];
 		}
 
 		set_indices();
-- 
2.43.0


From e55ba3bffcd68b0f816c2017fea242439c389b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 07/47] fix: permuting the basis of a complex of dimension 0
 read boundary[1]

---
 include/chain/chain_complex.hpp | 4 ++--
 include/homology/basis.hpp      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index b813bdf..ec9c00b 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -124,7 +124,7 @@ struct ChainComplex {
 	void permute_basis(size_t k, const std::vector<size_t> &perm) {
 		if (k == 0) {
 			// only worry about boundary[1]
-			boundary[1].permute_rows(perm);
+			if (maxdim() > 0) { boundary[1].permute_rows(perm); }
 		} else if (k == maxdim()) {
 			boundary[k].permute_cols(perm);
 			// only worry about boundary[maxdim()]
@@ -146,7 +146,7 @@ struct ChainComplex {
 	void ipermute_basis(size_t k, const std::vector<size_t> &perm) {
 		if (k == 0) {
 			// only worry about boundary[1]
-			boundary[1].permute_rows(bats::util::inv_perm(perm));
+			if (maxdim() > 0) { boundary[1].permute_rows(bats::util::inv_perm(perm)); }
 		} else if (k == maxdim()) {
 			boundary[k].ipermute_cols(perm);
 			// only worry about boundary[maxdim()]
diff --git a/include/homology/basis.hpp b/include/homology/basis.hpp
index ab570b8..8e24bf1 100755
--- a/include/homology/basis.hpp
+++ b/include/homology/basis.hpp
@@ -295,7 +295,7 @@ public:
 		auto iperm = bats::util::inv_perm(perm);
 		if (k == 0) {
 			// only worry about boundary[1]
-			R[1].permute_rows(iperm);
+			if (maxdim() > 0) { R[1].permute_rows(iperm); }
 		} else if (k == maxdim()) {
 			// only need to worry about rows of U[k]
 			U[k].permute_rows(iperm); // inverse perm here
-- 
2.43.0


From 9e4991e8054e7ad1b91ba1c252eb3ff244875395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 08/47] fix: FilteredChainComplex updates permuted by the
 inverse; general updates appended wrong basis columns in dimension 0

---
 include/chain/chain_complex.hpp          | 31 +++++++++++++-----------
 include/chain/filtered_chain_complex.hpp |  5 ++--
 include/homology/basis.hpp               |  4 +--
 3 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index ec9c00b..a624d8e 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -169,32 +169,35 @@ template <typename Information_type>
 		using ValT = typename VectT::val_type;
 
 
-		std::vector<size_t> PI_row = UI.permutations[k]; // row permutation information
-		std::vector<size_t> PI_col = UI.permutations[k+1]; // column permutation information
-		std::vector<size_t> del_ind_row = UI.deletion_indices[k]; // row deletion indices
-		std::vector<size_t> del_ind_col = UI.deletion_indices[k+1]; // column addition indices
-		std::vector<size_t> add_ind_row = UI.addition_indices[k]; // row addition indices
-		std::vector<size_t> add_ind_col = UI.addition_indices[k+1]; // column addition indices
-
 		// if k == 0, boundary[0] are all zeros
 		if (k == 0) {
 			// step 1. delete columns
-			if (!del_ind_row.empty()){
+			if (!UI.deletion_indices[0].empty()){
 				// std::cout << "do deletion" << std::endl;
-				for (size_t i = 0; i < del_ind_row.size(); i++){
+				for (size_t i = 0; i < UI.deletion_indices[0].size(); i++){
 					boundary[0].erase_column();
 				}
 			}
 			// step 2. permute columns(no need here since are all zeros)
 
 			// step 3. addition
-			if (!add_ind_row.empty()){
+			if (!UI.addition_indices[0].empty()){
 				// std::cout << "do addition" << std::endl;
-				for (size_t i = 0; i < add_ind_row.size(); i++){
+				for (size_t i = 0; i < UI.addition_indices[0].size(); i++){
 					boundary[0].append_column();
 				}
 			}
 		}
+		// there is no boundary[k+1] in the top dimension
+		if (k == maxdim()) { return; }
+
+		std::vector<size_t> PI_row = UI.permutations[k]; // row permutation information
+		std::vector<size_t> PI_col = UI.permutations[k+1]; // column permutation information
+		std::vector<size_t> del_ind_row = UI.deletion_indices[k]; // row deletion indices
+		std::vector<size_t> del_ind_col = UI.deletion_indices[k+1]; // column addition indices
+		std::vector<size_t> add_ind_row = UI.addition_indices[k]; // row addition indices
+		std::vector<size_t> add_ind_col = UI.addition_indices[k+1]; // column addition indices
+
 		// std::cout << "\nafter modification of boundary[0]" << std::endl;
 		// boundary[0].print();
 
@@ -207,7 +210,7 @@ template <typename Information_type>
 			// find the permutation that will permute
 			// the column that is going to remove to the end
 			std::vector<size_t> perm = perm_to_the_end(del_ind_col, boundary[k+1].ncol());
-			boundary[k+1].permute_cols(perm); // permute
+			boundary[k+1].ipermute_cols(perm); // permute
 			for(size_t i = 0; i < del_ind_col.size(); i++){
 				// size_t current_index = ind - i;
 				boundary[k+1].erase_column(); // erase the last column
@@ -224,7 +227,7 @@ template <typename Information_type>
 			// print_1D_vectors(del_ind_row);
 
 			std::vector<size_t> perm = perm_to_the_end(del_ind_row, boundary[k+1].nrow());
-			boundary[k+1].permute_rows(perm); // permute
+			boundary[k+1].ipermute_rows(perm); // permute
 			for(size_t i = 0; i < del_ind_row.size(); i++){
 				boundary[k+1].erase_row(); // erase the last row
 			}
@@ -290,7 +293,7 @@ template <typename Information_type>
 
 	template <typename Information_type>
 	void update_basis_general(const Information_type &UI_fast) {
-		for (size_t k = 0; k < UI_fast.max_dim; k++) {
+		for (size_t k = 0; k < UI_fast.max_dim || k == 0; k++) {
 			update_basis_general(k, UI_fast);
 		}
 	}
diff --git a/include/chain/filtered_chain_complex.hpp b/include/chain/filtered_chain_complex.hpp
index f75cd83..85252bb 100755
--- a/include/chain/filtered_chain_complex.hpp
+++ b/include/chain/filtered_chain_complex.hpp
@@ -41,13 +41,14 @@ struct FilteredChainComplex {
 
 		// step 2: determine update to old permutation
 		// iperm[k] will hold the updated permutation temporarily
-		std::vector<FT> tmp; // temporary vector
+		std::vector<size_t> tmp; // temporary vector
 		for (size_t k = 0; k < iperm.size(); k++) {
 			bats::util::apply_perm(iperm[k].data(), tmp, perms[k]);
 		}
 
 		// step 3: apply permutation updates to ChainComplex C
-		C.permute_basis(iperm);
+		// cell iperm[k][i] of the current order becomes cell i
+		C.ipermute_basis(iperm);
 
 		// step 4: store new permutation
 		perm = perms;
diff --git a/include/homology/basis.hpp b/include/homology/basis.hpp
index 8e24bf1..4bf0cba 100755
--- a/include/homology/basis.hpp
+++ b/include/homology/basis.hpp
@@ -405,8 +405,8 @@ public:
 
 			// step 2.6 addition of columns
 			if(k==0){
-				// find the index of the rightmost column of U
-				size_t final_ind_of_U = U[k].ncol() - 1;
+				// index of the next column to append to U
+				size_t final_ind_of_U = U[k].ncol();
 
 				// find the # of addition
 				size_t count = UI.addition_indices[k].size();
-- 
2.43.0


From a699251ae0bd8cbba9b07636b10eb6440c6f0eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 09/47] fix: tensor product of chain complexes read index
 shifts out of bounds in dimension 0

---
 include/chain/chain_complex.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index a624d8e..42463d3 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -321,13 +321,16 @@ template <typename Information_type>
 				ind_shift[Adim][Bdim] = shift;
 				if (Adim > A.maxdim() || Bdim > B.maxdim()) {continue;}
 				shift += A.dim(Adim) * B.dim(Bdim); // how much we'll shift for next pair of dimensions
+				// shifts of the faces. boundary[0] is zero, so there is nothing to shift in dimension 0
+				size_t Ashift = Adim > 0 ? ind_shift[Adim-1][Bdim] : 0;
+				size_t Bshift = Bdim > 0 ? ind_shift[Adim][Bdim-1] : 0;
 				// add to tensor product
 				// determine shift from dimensions
 				for (size_t iA = 0; iA < A.dim(Adim); iA++) {
 					// loop over simplices of dimension dY
 					for (size_t iB = 0; iB < B.dim(Bdim); iB++) {
-						auto dxy = (A[Adim][iA].kron(VT(iB), B.dim(Bdim))).shift_inds(ind_shift[Adim-1][Bdim])\
-						 + VT(iA, T(Adim & 0x1 ? -1 : 1)).kron(B[Bdim][iB], B[Bdim].nrow()).shift_inds(ind_shift[Adim][Bdim-1]);
+						auto dxy = (A[Adim][iA].kron(VT(iB), B.dim(Bdim))).shift_inds(Ashift)\
+						 + VT(iA, T(Adim & 0x1 ? -1 : 1)).kron(B[Bdim][iB], B[Bdim].nrow()).shift_inds(Bshift);
 						C[n].append_column(dxy);
 					}
 				}
-- 
2.43.0


From 4a135397163621330d244f1a9610c5698f0be80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 10/47] fix: trie assignment kept dangling children; bounded
 sorted intersections ignored the bound on first elements; find_sorted_lt read
 before the range

---
 include/util/sorted.hpp |  3 +++
 include/util/trie.hpp   | 10 +++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/util/sorted.hpp b/include/util/sorted.hpp
index c8c8dcd..fdb8bd7 100755
--- a/include/util/sorted.hpp
+++ b/include/util/sorted.hpp
@@ -87,6 +87,7 @@ void intersect_sorted_lt(const C1 &a, const C2 &b, const T maxval, std::vector<T
     c.clear();
     auto ia = a.cbegin();
     auto ib = b.cbegin();
+    if (ia == a.cend() || ib == b.cend() || !(*ia < maxval) || !(*ib < maxval)) { return; }
     while (ia != a.cend() && ib != b.cend()) {
         if (*ia < *ib) {
             ++ia;
@@ -110,6 +111,7 @@ template <typename T, typename C1, typename C2>
 bool has_intersect_sorted_lt(const C1 &a, const C2 &b, const T maxval) {
     auto ia = a.cbegin();
     auto ib = b.cbegin();
+    if (ia == a.cend() || ib == b.cend() || !(*ia < maxval) || !(*ib < maxval)) { return false; }
     while (ia != a.cend() && ib != b.cend()) {
         if (*ia < *ib) {
             ++ia;
@@ -199,6 +201,7 @@ size_t find_sorted_lt(const TI &begin, const TI &end, const T &v) {
         end,
         v
     );
+    if (it == begin) { return bats::NO_IND; }
     it--;
     if (*it < v) {
         return it - begin;
diff --git a/include/util/trie.hpp b/include/util/trie.hpp
index 27701eb..5324aa2 100755
--- a/include/util/trie.hpp
+++ b/include/util/trie.hpp
@@ -44,16 +44,20 @@ public:
 
     SparseTrie() : val(T(0)), children(nullptr) {};
 
-    ~SparseTrie() {
+    // delete all children
+    void release_children() {
         if (children != nullptr) {
 			// delete each child
             for (auto kvpair : *children) {
                 delete kvpair.second;
             }
             delete children;
+            children = nullptr;
         }
     }
 
+    ~SparseTrie() { release_children(); }
+
 	// Copy assignment
 	// performs deep copy
 	SparseTrie& operator=(const SparseTrie& t) {
@@ -61,7 +65,7 @@ public:
 		if (&t == this) {return *this;}
 
 		// release children
-		if (children != nullptr) { delete children; }
+		release_children();
 
 		val = t.val;
         if (t.children != nullptr) {
@@ -83,7 +87,7 @@ public:
 			return *this;
 
 		// release children
-		if (children != nullptr) { delete children; }
+		release_children();
 
 		val = t.val;
 		// Transfer ownership of children
-- 
2.43.0


From 0f0fc9cf806ecfc43318bdc55cc9299911714fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:33 +0000
Subject: [PATCH 11/47] fix: light complex face iterator read offsets out of
 bounds and could not step back; cell counts above the top dimension;
 CellularMap growth; product of light complexes

---
 include/complex/cell_map.hpp                 |  2 +-
 include/complex/cubical_complex.hpp          |  2 +-
 include/complex/light_simplicial_complex.hpp | 26 +++++++++++---------
 include/complex/simplicial_complex.hpp       | 12 +++++----
 4 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/include/complex/cell_map.hpp b/include/complex/cell_map.hpp
index 1debfce..919a908 100755
--- a/include/complex/cell_map.hpp
+++ b/include/complex/cell_map.hpp
@@ -21,7 +21,7 @@ private:
 	// store image of k-cells as linear combination of k-cells
 	std::vector<map_type> cell_map;
 
-	inline void _resize(size_t dim) { cell_map.resize(dim); }
+	inline void _resize(size_t dim) { cell_map.resize(dim+1); }
 	inline void _safe_resize(size_t dim) { if (dim >= cell_map.size()) { _resize(dim); } }
 
 public:
diff --git a/include/complex/cubical_complex.hpp b/include/complex/cubical_complex.hpp
index 0f2ae8e..950ba51 100755
--- a/include/complex/cubical_complex.hpp
+++ b/include/complex/cubical_complex.hpp
@@ -286,7 +286,7 @@ public:
     // maximum dimension of cell
     inline size_t maxdim() const { return __maxdim; }
     // number of cells in dimension k
-    inline size_t ncells(const size_t k) const { return _ncells[k]; }
+    inline size_t ncells(const size_t k) const { return k < _ncells.size() ? _ncells[k] : 0; }
     // total number of cells
     size_t ncells() const {
       size_t ct = 0;
diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index 8be9b52..d8bb068 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -103,7 +103,7 @@ private:
 			index_type v = before / p->offset(i);
 			before = before % p->offset(i);
 			index_type face = before + after;
-			after += v * p->offset(i-1);
+			if (i > 0) { after += v * p->offset(i-1); }
 
 			// prepare for next iteration
 			c = -c;
@@ -117,9 +117,11 @@ private:
 
 		// prefix increment
 		simplex_boundary_iterator& operator++() {
-			index_type v = before / p->offset(i);
-			before = before % p->offset(i);
-			after += v * p->offset(i-1);
+			if (i > 0) {
+				index_type v = before / p->offset(i);
+				before = before % p->offset(i);
+				after += v * p->offset(i-1);
+			}
 
 			c = -c;
 			i--;
@@ -128,13 +130,15 @@ private:
 
 		// prefix decrement
 		simplex_boundary_iterator& operator--() {
-			// TODO: calculate before/after
-			index_type v = after / p->offset(i);
-			after = after % p->offset(i);
-			before += v * p->offset(i+1);
+			// put vertex i+1, the lowest one in after, back on before
+			i++;
+			if (i > 0) {
+				index_type v = (after / p->offset(i-1)) % p->_n;
+				after -= v * p->offset(i-1);
+				before += v * p->offset(i);
+			}
 
 			c = -c;
-			i++;
 			return *this;
 		}
 
@@ -153,7 +157,7 @@ private:
 	};
 
 public:
-    LightSimplicialComplex() : _n(0), _k(0) {}
+    LightSimplicialComplex() : LightSimplicialComplex(0, 0) {}
 
     LightSimplicialComplex(
         const index_type n,
@@ -183,7 +187,7 @@ public:
 
     inline index_type maxdim() const { return _k; }
     inline size_t ncells(size_t dim) const {
-        return index_to_key[dim].size();
+        return dim < index_to_key.size() ? index_to_key[dim].size() : 0;
     }
     size_t ncells() const {
       size_t ct = 0;
diff --git a/include/complex/simplicial_complex.hpp b/include/complex/simplicial_complex.hpp
index 51312ec..ad65930 100755
--- a/include/complex/simplicial_complex.hpp
+++ b/include/complex/simplicial_complex.hpp
@@ -345,7 +345,7 @@ public:
     // maximum dimension of cell
     inline size_t maxdim() const { return _ncells.size() - 1; }
     // number of cells in dimension k
-    inline size_t ncells(const size_t k) const { return _ncells[k]; }
+    inline size_t ncells(const size_t k) const { return k < _ncells.size() ? _ncells[k] : 0; }
     // total number of cells
     size_t ncells() const {
       size_t ct = 0;
@@ -731,14 +731,16 @@ CpxT TriangulatedProduct(
 
 			// loop over simplices of dimension dX
 			for (size_t iX = 0; iX < X.ncells(dX); iX++) {
+				auto sX = X.get_simplex(dX, iX);
 				// loop over simplices of dimension dY
 				for (size_t iY = 0; iY < Y.ncells(dY); iY++) {
+					auto sY = Y.get_simplex(dY, iY);
 					product_paths(
 						XY,
-						X.simplex_begin(dX, iX),
-						X.simplex_end(dX, iX),
-						Y.simplex_begin(dY, iY),
-						Y.simplex_end(dY, iY),
+						sX.begin(),
+						sX.end(),
+						sY.begin(),
+						sY.end(),
 						s,
 						n
 					);
-- 
2.43.0


From 9d985d7a7a4f0edeb10b0a83667be0712260c2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:03 +0000
Subject: [PATCH 12/47] fix: integer boundaries with coefficients divisible by
 p or repeated faces stored zeros or duplicate entries in columns

---
 include/linalg/set_vector.hpp    | 10 +++++++++-
 include/linalg/sparse_vector.hpp | 16 ++++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/linalg/set_vector.hpp b/include/linalg/set_vector.hpp
index aa7890b..3e920c9 100755
--- a/include/linalg/set_vector.hpp
+++ b/include/linalg/set_vector.hpp
@@ -38,9 +38,17 @@ public:
 	// constructor that loops over index and value iterators
 	// can be iterators over different type
 	template <typename IT1, typename IT2>
+	// repeated indices are summed
 	SetVector(IT1 indit, IT2 valit, size_t n) {
 		for (size_t i = 0; i < n; i++) {
-			indval.emplace_hint(indval.end(), key_type(TI(*indit++), TV(*valit++)));
+			TI ind(*indit++);
+			TV val(*valit++);
+			auto it = indval.find(key_type(ind, val));
+			if (it != indval.end()) {
+				val += it->val;
+				indval.erase(it);
+			}
+			if (val != TV(0)) { indval.emplace_hint(indval.end(), key_type(ind, val)); }
 		}
 	}
 
diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index bb71296..3cd3e88 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -111,7 +111,9 @@ public:
 	SparseVector(const SparseVector<int, TI2> &other) {
 		indval.reserve(other.nnz());
 		for (auto it = other.nzbegin(); it < other.nzend(); ++it) {
-			indval.emplace_back(key_type((*it).ind, (*it).val));
+			TV v((*it).val);
+			// values may be zero in the new type
+			if (v != TV(0)) { indval.emplace_back(key_type((*it).ind, v)); }
 		}
 		#ifdef BATS_DEBUG
 		check_sorted();
@@ -132,12 +134,22 @@ public:
 
 	// constructor that loops over index and value iterators
 	// can be iterators over different type
+	// indices are assumed to be sorted, repeated indices are summed
 	template <typename IT1, typename IT2>
 	SparseVector(IT1 indit, IT2 valit, size_t n) {
 		indval.reserve(n);
 		for (size_t i = 0; i < n; i++) {
-			indval.emplace_back(key_type(TI(*indit++), TV(*valit++)));
+			TI ind(*indit++);
+			TV val(*valit++);
+			if (!indval.empty() && indval.back().ind == ind) {
+				indval.back().val += val;
+			} else {
+				// values may be zero in this type
+				if (!indval.empty() && indval.back().val == TV(0)) { indval.pop_back(); }
+				indval.emplace_back(key_type(ind, val));
+			}
 		}
+		if (!indval.empty() && indval.back().val == TV(0)) { indval.pop_back(); }
 		#ifdef BATS_DEBUG
 		check_sorted();
 		#endif
-- 
2.43.0


From 88debb20f27d41c416b4c3797c06b5ed7b918d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:37 +0000
Subject: [PATCH 13/47] fix: flag complexes of dimension 0, unsorted edges and
 complete flag filtrations

---
 include/filtration/flag.hpp | 9 +++++++--
 include/topology/flag.hpp   | 2 ++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/filtration/flag.hpp b/include/filtration/flag.hpp
index d5b525d..1b01cef 100755
--- a/include/filtration/flag.hpp
+++ b/include/filtration/flag.hpp
@@ -304,6 +304,7 @@ Filtration<T, CpxT> FlagFiltration(
 
     std::vector<std::vector<size_t>> nbrs(n);
 
+    if (maxdim == 0) { return F; } // no edges in dimension 0
     spx_idxs.resize(2); // now time to add edges
     std::vector<size_t> iter_idxs;
     iter_idxs.reserve(n); // maximum size
@@ -369,6 +370,7 @@ auto FlagFiltration_extension(
 
     std::vector<std::vector<size_t>> nbrs(n);
 
+    if (maxdim == 0) { return std::make_tuple(F, inds); } // no edges in dimension 0
     spx_idxs.resize(2); // now time to add edges
     std::vector<size_t> iter_idxs; // intersection vertex indices
     iter_idxs.reserve(n); // maximum size
@@ -439,6 +441,7 @@ std::tuple<SimplicialComplex, Filtration<T, SimplicialComplex>> CompleteFlagFilt
 
     // X = SimplicialComplex(maxdim);
     // F = Filtration<T, SimplicialComplex>(X);
+    dims.resize(maxdim + 1);
     SimplicialComplex X(dims);
     Filtration<T, SimplicialComplex> F(X);
 
@@ -451,6 +454,7 @@ std::tuple<SimplicialComplex, Filtration<T, SimplicialComplex>> CompleteFlagFilt
 
     std::vector<std::vector<size_t>> nbrs(n);
 
+    if (maxdim == 0) { return std::make_tuple(F.complex(), F); } // no edges in dimension 0
     spx_idxs.resize(2); // now time to add edges
     std::vector<size_t> iter_idxs;
     iter_idxs.reserve(n); // maximum size
@@ -460,6 +464,7 @@ std::tuple<SimplicialComplex, Filtration<T, SimplicialComplex>> CompleteFlagFilt
         size_t j = edges[2*k + 1];
         spx_idxs[0] = i;
         spx_idxs[1] = j;
+        std::sort(spx_idxs.begin(), spx_idxs.end());
         F.add(t[k], spx_idxs);
 
         bats::util::intersect_sorted(nbrs[i], nbrs[j], iter_idxs);
@@ -471,10 +476,10 @@ std::tuple<SimplicialComplex, Filtration<T, SimplicialComplex>> CompleteFlagFilt
         nbrs[j].emplace_back(i);
         std::sort(nbrs[j].begin(), nbrs[j].end());
 
-        add_dimension_recursive_flag_unsafe(F, nbrs, 2, maxdim, iter_idxs, spx_idxs, t[k]);
+        if (maxdim > 1) add_dimension_recursive_flag_unsafe(F, nbrs, 2, maxdim, iter_idxs, spx_idxs, t[k]);
     }
 
-    return std::make_tuple(X, F);
+    return std::make_tuple(F.complex(), F);
 }
 
 } // namespace bats
diff --git a/include/topology/flag.hpp b/include/topology/flag.hpp
index 3411dee..a4f352d 100755
--- a/include/topology/flag.hpp
+++ b/include/topology/flag.hpp
@@ -83,6 +83,7 @@ CpxT FlagComplex(
 
     std::vector<std::vector<size_t>> nbrs(n);
 
+    if (maxdim == 0) { return X; } // no edges in dimension 0
     spx_idxs.resize(2); // now time to add edges
     std::vector<size_t> iter_idxs;
     iter_idxs.reserve(n); // maximum size
@@ -92,6 +93,7 @@ CpxT FlagComplex(
         size_t j = edges[2*k + 1];
         spx_idxs[0] = i;
         spx_idxs[1] = j;
+        std::sort(spx_idxs.begin(), spx_idxs.end());
         X.add(spx_idxs);
         // std::cout << ret.second << std::endl;
         bats::util::intersect_sorted(nbrs[i], nbrs[j], iter_idxs);
-- 
2.43.0


From f3cca43b785e597773d04f0837a060ad4c78b589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:54 +0000
Subject: [PATCH 14/47] fix: Filtration::add of a refused cell wrote out of
 bounds

---
 include/filtration/filtration.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/filtration/filtration.hpp b/include/filtration/filtration.hpp
index b62420c..aa9f9a4 100755
--- a/include/filtration/filtration.hpp
+++ b/include/filtration/filtration.hpp
@@ -139,6 +139,7 @@ public:
 	template <class ...Ts>
 	inline cell_ind add(TF t, Ts (&...args)) {
 		cell_ind ret = X.add(args...);
+		if (ret.ind == bats::NO_IND) { return ret; } // cell was not added
 		reserve(ret.dim, ret.ind+1);
 		val[ret.dim][ret.ind] = t;
 		return ret;
@@ -153,6 +154,7 @@ public:
 	template <class ...Ts>
 	inline cell_ind add_directed(TF t, Ts (&...args)) {
 		cell_ind ret = X.add_directed(args...);
+		if (ret.ind == bats::NO_IND) { return ret; } // cell was not added
 		reserve(ret.dim, ret.ind+1);
 		val[ret.dim][ret.ind] = t;
 		return ret;
-- 
2.43.0


From 4a01d8cc92ef36940855006c4e0db46880cc734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 15/47] fix: union_find_pairs ignored the filtration order of
 cells, compared births in single precision and needed dimension 1

---
 include/persistence/union_find.hpp | 36 +++++++++++++++---------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/persistence/union_find.hpp b/include/persistence/union_find.hpp
index 2920739..cabcf5a 100644
--- a/include/persistence/union_find.hpp
+++ b/include/persistence/union_find.hpp
@@ -1,8 +1,11 @@
+#pragma once
+
 #include <iostream>
 #include <vector>
 #include <utility>
 #include <limits>
 #include <algorithm>
+#include <numeric>
 #include <map>
 #include <cstddef>
 #include <math.h>
@@ -18,7 +21,7 @@ Implementation that avoids recursive function calls
 
 Modified from https://github.com/stat37411/tda/blob/main/include/union_find.hpp
 */
-size_t find_parent(
+inline size_t find_parent(
     std::vector<size_t> &parent,
     size_t i
 ) {
@@ -54,11 +57,12 @@ std::vector<PersistencePair<T>> union_find_pairs(
 
 	// first get boundary in dimension 1
 	// assumed to be sorted in filtration order
-	auto& B = F.complex()[1];
-	auto& vals = F.vals();
+	auto& C = F.complex();
+	auto& vals = F.vals(); // in original order
+	auto& perm = F.perm; // original index of cells in filtration order
 
-	size_t N = B.nrow();
-	size_t M = B.ncol();
+	size_t N = C.dim(0);
+	size_t M = C.maxdim() > 0 ? C.dim(1) : 0;
 
 	// initialize parent vector
 	std::vector<size_t> parent(N);
@@ -70,9 +74,9 @@ std::vector<PersistencePair<T>> union_find_pairs(
 	for (size_t k = 0; k < N; ++k) {
 		pairs.emplace_back(PersistencePair(
 			0,
-			k,
+			perm[0][k],
 			bats::NO_IND,
-			vals[0][k],
+			vals[0][perm[0][k]],
 			std::numeric_limits<T>::infinity()
 		));
 	}
@@ -83,7 +87,7 @@ std::vector<PersistencePair<T>> union_find_pairs(
 		// first, get simplices on boundary
 
 		// This is not safe if we do not know we're working with 1-dimensional boundary
-		auto nzit = B[k].nzbegin();
+		auto nzit = C[1][k].nzbegin();
 		size_t i = nzit->ind; ++nzit;
 		size_t j = nzit->ind;
 
@@ -93,24 +97,20 @@ std::vector<PersistencePair<T>> union_find_pairs(
 		// if parents are same, H1 created.  Nothing to do here.
 		if (pi == pj) { continue; }
 
-		// get birth times in filtration order
-		float bi = pairs[pi].birth;
-		float bj = pairs[pj].birth;
-		if (bi < bj) {
+		// cells are in filtration order: component with smaller root is older
+		if (pi < pj) {
 			// component with j merges into component with i
 			// kill bar at pj
-			pairs[pj].death_ind = k;
-			pairs[pj].death = vals[1][k];
-
+			pairs[pj].death_ind = perm[1][k];
+			pairs[pj].death = vals[1][perm[1][k]];
 			// merge components
 			parent[pj] = pi;
 			parent[j] = pi;
 		} else {
 			// component with i merges into component with j
 			// kill bar at pi
-			pairs[pi].death_ind = k;
-			pairs[pi].death = vals[1][k];
-
+			pairs[pi].death_ind = perm[1][k];
+			pairs[pi].death = vals[1][perm[1][k]];
 			// merge components
 			parent[pi] = pj;
 			parent[i] = pj;
-- 
2.43.0


From a4886f89d9a2a592d9cd56e05676bf4e2dbf29aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 16/47] fix: CSC sums and products of empty columns, block
 selection of the wrong columns, unsorted submatrix columns

---
 include/linalg/csc_matrix.hpp | 7 +++++--
 include/util/sorted.hpp       | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/linalg/csc_matrix.hpp b/include/linalg/csc_matrix.hpp
index 021ca48..0324607 100755
--- a/include/linalg/csc_matrix.hpp
+++ b/include/linalg/csc_matrix.hpp
@@ -84,7 +84,8 @@ public:
         const std::vector<TI> &colptr,
         const std::vector<TI> &rowind,
         const std::vector<TV> &val
-    ) : colptr(colptr), rowind(rowind), val(val), n(colptr.size()-1) {
+    ) : colptr(colptr), rowind(rowind), val(val), m(0), n(colptr.size()-1) {
+        for (auto i : rowind) { m = (i < m) ? m : i + 1; } // smallest possible number of rows
         sort();
     }
 
@@ -165,6 +166,7 @@ public:
             j++;
             A.colptr[j] = A.rowind.size();
         }
+        A.sort();
         return A;
 
     }
@@ -193,7 +195,7 @@ public:
         // loop in column permutation order
         for ( size_t Mj : cind) {
             // loop over nzs in the jth column of M
-            for (size_t Mp = M.colptr[j]; Mp < M.colptr[j+1]; Mp++) {
+            for (size_t Mp = M.colptr[Mj]; Mp < M.colptr[Mj+1]; Mp++) {
                 if (prow[M.rowind[Mp]] != bats::NO_IND) {
                     // this item makes it to the block
                     A.rowind.emplace_back(prow[M.rowind[Mp]]);
@@ -203,6 +205,7 @@ public:
             j++;
             A.colptr[j] = A.rowind.size();
         }
+        A.sort();
     }
 
     /*
diff --git a/include/util/sorted.hpp b/include/util/sorted.hpp
index fdb8bd7..8d1a99d 100755
--- a/include/util/sorted.hpp
+++ b/include/util/sorted.hpp
@@ -162,6 +162,7 @@ void sort_sum_reduce(
     apply_perm(ind.data() + offset, tmpind, perm);
     apply_perm(val.data() + offset, tmpval, perm);
 
+    if (ind.size() <= offset) { return; } // nothing to reduce
     size_t fill_ptr = offset;
     size_t look_ptr = offset + 1;
     while (ind.cbegin() + look_ptr < ind.cend()) {
-- 
2.43.0


From e3091709a84446e9e8e82ac4ff667e546289eb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:30 +0000
Subject: [PATCH 17/47] fix: DGVectorSpace permutations of cochain type,
 filtration updates by the inverse permutation, UpdateInfo2 boundary of
 inserted vertices

---
 include/dgvs/dgvs.hpp                     |  8 +++++++-
 include/dgvs/filtered_dgvs.hpp            | 12 +++++++++---
 include/filtration/update_information.hpp |  2 +-
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/dgvs/dgvs.hpp b/include/dgvs/dgvs.hpp
index 3518025..1c7f08d 100644
--- a/include/dgvs/dgvs.hpp
+++ b/include/dgvs/dgvs.hpp
@@ -97,7 +97,13 @@ struct DGVectorSpace {
 
 	// permute basis in dimension k
 	void permute_basis(ssize_t k, const std::vector<size_t> &perm) {
-		// TODO: this assumes that degree = -1
+		if (degree == +1) {
+			// differential[k]   : C^{k-1} -> C^k
+			// differential[k+1] : C^k -> C^{k+1}
+			if (k > 0) { differential[k].permute_rows(perm); }
+			if (k < maxdim()) { differential[k+1].permute_cols(perm); }
+			return;
+		}
 		if (k == 0) {
 			// only worry about boundary[1]
 			differential[1].permute_rows(perm);
diff --git a/include/dgvs/filtered_dgvs.hpp b/include/dgvs/filtered_dgvs.hpp
index e1ec533..bab80b4 100644
--- a/include/dgvs/filtered_dgvs.hpp
+++ b/include/dgvs/filtered_dgvs.hpp
@@ -53,20 +53,26 @@ struct FilteredDGVectorSpace {
 	void update_filtration(const std::vector<std::vector<FT>> newval) {
 		// step 1: determine permutation order for newval
 		auto perms = filtration_sortperm(newval);
-
+		if (C.degree == +1) {
+			// for cohomology reverse rows and columns
+			for (auto& pi : perms) {
+				std::reverse(pi.begin(), pi.end());
+			}
+		}
 
 		// get inverse permutation for current permutation
 		auto iperm = filtration_iperm(perm);
 
 		// step 2: determine update to old permutation
 		// iperm[k] will hold the updated permutation temporarily
-		std::vector<FT> tmp; // temporary vector
+		std::vector<size_t> tmp; // temporary vector
 		for (size_t k = 0; k < iperm.size(); k++) {
 			bats::util::apply_perm(iperm[k].data(), tmp, perms[k]);
 		}
 
 		// step 3: apply permutation updates to ChainComplex C
-		C.permute_basis(iperm);
+		// cell iperm[k][i] of the current order becomes cell i
+		C.ipermute_basis(iperm);
 
 		// step 4: store new permutation
 		perm = perms;
diff --git a/include/filtration/update_information.hpp b/include/filtration/update_information.hpp
index e4d5bf0..b3fb8d3 100755
--- a/include/filtration/update_information.hpp
+++ b/include/filtration/update_information.hpp
@@ -173,11 +173,11 @@ struct UpdateInfo2{
 				} else {
 					// this simplex is not in X1 - must be inserted
 					insertion_indices[dim].emplace_back(fj2); // this is insertion index
-					auto [ind, val] = X2.boundary(dim, j2);
 
 					// put indices  of boundary in permutation order
 					bdry.clear();
 					if (dim > 0) {
+						auto [ind, val] = X2.boundary(dim, j2);
 						for (size_t ii = 0; ii < ind.size(); ++ii) {
 							bdry.emplace_back(nzpair(
 								iperms2[dim-1][ind[ii]], // where index gets mapped in filtration order
-- 
2.43.0


From d77fe95a931ad3be85f4b48a6cca2d6774291055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:30 +0000
Subject: [PATCH 18/47] fix: ReducedDGVectorSpace representatives in
 cohomology, dimensions left out of updates, augmentation in updates

---
 include/homology/dgbasis.hpp | 117 ++++++++++++++++++++++-------------
 1 file changed, 73 insertions(+), 44 deletions(-)

diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index 94ab1b2..65d92d2 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -43,6 +43,11 @@ public:
 		return (degree == -1) ? R[k].ncol() : R[k+1].ncol();
 	}
 
+	// index of the differential defined on dimension k
+	inline size_t offset(size_t k) const {
+		return (degree == -1) ? k : k + 1;
+	}
+
 	MT& operator[](size_t k) {
 		if (k >= R.size()) {
 			// throw error
@@ -54,16 +59,17 @@ public:
 	initialize with chain complex C, but do not do reduction
 	*/
 	void initialize(const DGVectorSpace<MT>& C) {
-		size_t dmax = C.maxdim() + 1;
+		degree = C.degree;
+		size_t dmax = C.differential.size();
 		U.resize(dmax);
 		R.resize(dmax);
 		I.resize(dmax);
 		p2c.resize(dmax);
 
 		for (size_t k = 0; k < dmax; ++k) {
-			U[k] = MT::identity(C.dim(k));
-			R[k] = C[k];
-			p2c[k].resize(C[k].nrow(), bats::NO_IND);
+			U[k] = MT::identity(C.differential[k].ncol());
+			R[k] = C.differential[k];
+			p2c[k].resize(R[k].nrow(), bats::NO_IND);
 		}
 	}
 
@@ -278,7 +284,7 @@ public:
 	*/
 	template <typename TV>
 	inline TV to_hom_basis(const TV &v, size_t k) const {
-		return u_solve(U[k], v);
+		return u_solve(U[offset(k)], v);
 	}
 
 	/**
@@ -286,7 +292,7 @@ public:
 	*/
 	template <typename TV>
 	inline TV from_hom_basis(const TV &v, size_t k) const {
-		return U[k] * v;
+		return U[offset(k)] * v;
 	}
 
 
@@ -296,7 +302,7 @@ public:
 		const size_t j,
 		const size_t k
 	) const {
-		return U[k][I[k][j]];
+		return U[offset(k)][I[offset(k)][j]];
 	}
 
 	// modify y in-place to be preferred representative for homology class in dimension k
@@ -305,9 +311,10 @@ public:
 		vect_type &y,
 		size_t k
 	) const {
-		int dg_offset = (degree == -1) ? 0 : 1;
-		k += dg_offset;
-		if (k == R.size()-1) {
+		// index of the differential with image in dimension k
+		size_t kin = (degree == -1) ? k + 1 : k;
+		k = offset(k);
+		if (kin >= R.size()) {
 			// all cycles generate homology, so nothing to do
 			return;
 		}
@@ -315,18 +322,18 @@ public:
 		// else we need to find the preferred representative
 		// const ColumnMatrix<TVec> &bdry,
 		// const p2c_type &p2c
-		size_t j = R[k+1].nrow();
+		size_t j = R[kin].nrow();
 		auto yit = y.upper_bound(j); // find iterator past last nonzero
 		while (yit != y.nzbegin()) {
 			--yit;
 			j = yit->ind;
 			// find if j is a pivot of bdry
 			// if (p2c[k+1].count(j) > 0) {
-			if (p2c[k+1][j] != bats::NO_IND) {
-				auto i = p2c[k+1].at(j);
+			if (p2c[kin][j] != bats::NO_IND) {
+				auto i = p2c[kin].at(j);
 
 				// form column i of boundary in homology revealing basis
-				auto bdri = u_solve(U[k], R[k+1][i]);
+				auto bdri = u_solve(U[k], R[kin][i]);
 				auto ipiv = bdri.lastnz();
 				auto a = (yit->val) / ipiv.val;
 				y.axpy(-a, bdri);
@@ -486,9 +493,7 @@ public:
 		if (UI.ndeletions[k] == 0) { return; } // quick exit
 
 		if (degree == -1) {
-			if (k < UI.perm.size()-1) {
-				R[k+1].erase_final_rows_unsafe(UI.ndeletions[k]);
-			}
+			R[k+1].erase_final_rows_unsafe(UI.ndeletions[k]);
 			U[k].erase_final_columns(UI.ndeletions[k]);
 			U[k].erase_final_rows_unsafe(UI.ndeletions[k]);
 			R[k].erase_final_columns(UI.ndeletions[k]);
@@ -511,11 +516,11 @@ public:
 		using ValT = typename VectT::val_type; // field type
 		if (UI.insertion_indices[k].size() == 0) { return; } // quick exit
 		std::cout << "\t\t_insert_cells " << k << std::endl;
+		// the augmentation takes the value 1 on every 0-cell
+		const bool augmented = (k == 0) && (degree == -1 ? R[0].nrow() : R[0].ncol()) > 0;
 		if (degree == -1) {
-			if ( k < UI.perm.size() - 1 ) {
-				// insert rows one dimension up
-				R[k+1].insert_rows(UI.insertion_indices[k]);
-			}
+			// insert rows one dimension up
+			R[k+1].insert_rows(UI.insertion_indices[k]);
 
 			// create vectors of columns to insert
 			std::vector<VectT> Ucols;
@@ -524,7 +529,7 @@ public:
 			Rcols.reserve(UI.insertion_indices[k].size());
 			for (size_t i = 0; i < UI.insertion_indices[k].size(); ++i) {
 				Ucols.emplace_back(VectT(size_t(UI.insertion_indices[k][i])));
-				Rcols.emplace_back(UI.insertion_cols[k][i].cast_values(ValT()));
+				Rcols.emplace_back(augmented ? VectT(size_t(0)) : UI.insertion_cols[k][i].cast_values(ValT()));
 			}
 
 			R[k].insert_columns(UI.insertion_indices[k], Rcols);
@@ -585,7 +590,7 @@ public:
 			Rcols.reserve(UI.insertion_indices[k].size());
 			typename VectT::tmp_type tmp;
 			for (size_t i = 0; i < UI.insertion_indices[k].size(); ++i) {
-				auto Di = UI.insertion_cols[k][i].cast_values(ValT());
+				auto Di = augmented ? VectT(size_t(0)) : UI.insertion_cols[k][i].cast_values(ValT());
 				Rcols.emplace_back(Vt.gemv(Di, tmp));
 			}
 			t1 = std::chrono::steady_clock::now();
@@ -645,8 +650,8 @@ public:
 
 		// finalize reduction
 		if (degree == -1) {
-			for (ssize_t k = UI.perm.size()-1; k >= 0; --k) {
-				if (k < (ssize_t) UI.perm.size() - 1) {
+			for (ssize_t k = UI.perm.size(); k >= 0; --k) {
+				if (k < (ssize_t) UI.perm.size()) {
 					p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k+1], p2c[k+1], bats::standard_reduction_flag());
 				} else {
 					p2c[k] = reduce_matrix(R[k], U[k]);
@@ -663,6 +668,16 @@ public:
 		set_indices(); // update homology indices
 	}
 
+	/*
+	reset the zero differential between the top dimension, with n cells, and the one above
+	*/
+	void _reset_top_differential(size_t n) {
+		size_t k = R.size() - 1;
+		R[k] = (degree == -1) ? MT(n, 0) : MT(0, n);
+		U[k] = MT::identity(R[k].ncol());
+		p2c[k] = reduce_matrix(R[k], U[k]);
+	}
+
 	/*
 	General Update factorization DU = R by Updating Information
 	Note:
@@ -852,10 +867,15 @@ public:
 					size_t count = UI.addition_indices[k].size();
 					if (degree == -1){ // homology add columns
 						// find the index of the rightmost column of U
-						size_t final_ind_of_U = U[k].ncol() - 1;
+						size_t final_ind_of_U = U[k].ncol();
 						// append zero columns
 						for (size_t i = 0; i < count; i++){
-							R[k].append_column();
+							if (R[k].nrow() > 0) {
+								// augmentation
+								R[k].append_column(VectT(size_t(0)));
+							} else {
+								R[k].append_column();
+							}
 							U[k].append_row();
 							// create an indicator (one) column vector at a given index
 							U[k].append_column(VectT(size_t(final_ind_of_U)));
@@ -863,7 +883,12 @@ public:
 						}
 					}else{ // cohomology append zero rows
 						for (size_t i = 0; i < count; i++){
-							R[k].append_row();
+							if (R[k].ncol() > 0) {
+								// augmentation
+								R[k].append_sparse_row(U[k].T()[0]);
+							} else {
+								R[k].append_row();
+							}
 						}
 					}
 				}else{ // k >= 1
@@ -974,11 +999,9 @@ public:
 
 		//cohomology the highest dimension need add/remove zero columns(simplices at the highest dimension)
 		if(degree == +1){
-			// TODO: modify U[max_dim+1] as well, but not necessary because R[max_dim+1] is a zero matrix
-			for (size_t i = 0; i < UI.addition_indices[max_dim].size(); i++){
-				R[max_dim+1].append_column();
-			}
-			R[max_dim+1].erase_final_columns(UI.deletion_indices[max_dim].size());
+			_reset_top_differential(R[max_dim].nrow());
+		} else {
+			_reset_top_differential(R[max_dim].ncol());
 		}
 
 		t0 = std::chrono::steady_clock::now();
@@ -1221,10 +1244,15 @@ public:
 					size_t count = UI.addition_indices[k].size();
 					if (degree == -1){ // homology add columns
 						// find the index of the rightmost column of U
-						size_t final_ind_of_U = U[k].ncol() - 1;
+						size_t final_ind_of_U = U[k].ncol();
 						// append zero columns
 						for (size_t i = 0; i < count; i++){
-							R[k].append_column();
+							if (R[k].nrow() > 0) {
+								// augmentation
+								R[k].append_column(VectT(size_t(0)));
+							} else {
+								R[k].append_column();
+							}
 							U[k].append_row();
 							// create an indicator (one) column vector at a given index
 							U[k].append_column(VectT(size_t(final_ind_of_U)));
@@ -1232,7 +1260,12 @@ public:
 						}
 					}else{ // cohomology append zero rows
 						for (size_t i = 0; i < count; i++){
-							R[k].append_row();
+							if (R[k].ncol() > 0) {
+								// augmentation
+								R[k].append_sparse_row(U[k].T()[0]);
+							} else {
+								R[k].append_row();
+							}
 						}
 					}
 				}else{ // k >= 1
@@ -1335,14 +1368,14 @@ public:
 		t0 = std::chrono::steady_clock::now();
 		if (degree == -1) {
 			// do top dimension normally
-			p2c[max_dim-1] = reduce_matrix(R[max_dim-1], U[max_dim-1], bats::standard_reduction_flag());
-			for (ssize_t k = max_dim-2; k >= 0; --k) {
+			p2c[max_dim] = reduce_matrix(R[max_dim], U[max_dim], bats::standard_reduction_flag());
+			for (ssize_t k = (ssize_t)max_dim-1; k >= 0; --k) {
 				p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k+1], p2c[k+1], bats::standard_reduction_flag());
 			}
 		} else { // degree == +1
 			// do bottom dimension normally
 			p2c[0] = reduce_matrix(R[0], U[0], bats::standard_reduction_flag());
-			for (ssize_t k = 1; k < max_dim; ++k) {
+			for (size_t k = 1; k <= max_dim; ++k) {
 				p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k-1], p2c[k-1], bats::standard_reduction_flag());
 			}
 		}
@@ -1356,11 +1389,7 @@ public:
 		// R[1].print();
 
 		//cohomology the highest dimension need add zero columns
-		if(degree == +1){
-			for (size_t i = 0; i < UI.addition_indices[max_dim].size(); i++){
-				R[max_dim+1].append_column();
-			}
-		}
+		_reset_top_differential(degree == +1 ? R[max_dim].nrow() : R[max_dim].ncol());
 
 		t0 = std::chrono::steady_clock::now();
 		set_indices(); // update homology indices
-- 
2.43.0


From 46a9af35b4f822edfe6fa539b6cf3f9f16deb890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 19/47] fix: zigzag filtrations: boundary copies of repeated
 cells, refused cells, level sets meeting a window

---
 include/zigzag/zigzag_filtration.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/zigzag/zigzag_filtration.hpp b/include/zigzag/zigzag_filtration.hpp
index 8dbfa53..d0274ef 100755
--- a/include/zigzag/zigzag_filtration.hpp
+++ b/include/zigzag/zigzag_filtration.hpp
@@ -105,12 +105,14 @@ public:
 	template <class ...Ts>
 	inline cell_ind add(const T entry, const T exit, Ts (&...args)) {
 		cell_ind ret = X.add(args...);
+		if (ret.ind == bats::NO_IND) { return ret; } // cell was not added
 		reserve(ret.dim, ret.ind+1);
 		val[ret.dim][ret.ind].emplace_back(std::make_pair(entry, exit));
 		return ret;
 	}
 	inline cell_ind add(const T entry, const T exit, std::vector<size_t>&& s) {
 		cell_ind ret = X.add(s);
+		if (ret.ind == bats::NO_IND) { return ret; } // cell was not added
 		reserve(ret.dim, ret.ind+1);
 		val[ret.dim][ret.ind].emplace_back(std::make_pair(entry, exit));
 		return ret;
@@ -155,9 +157,12 @@ public:
 		// loop over dimension
 		for (size_t k = 0; k < X.maxdim() + 1; ++k) {
 			for (size_t i = 0; i < X.ncells(k); ++i) {
-				// assume only one interval
-				if ((s0 < val[k][i][0].first && val[k][i][0].first < s1) || (s0 < val[k][i][0].second && val[k][i][0].second < s1)) {
-					Y.add(X.get_cell(k, i));
+				// closed intervals [b,d] and [s0,s1] intersect
+				for (auto& bd : val[k][i]) {
+					if (bd.first <= s1 && s0 <= bd.second) {
+						Y.add(X.get_cell(k, i));
+						break;
+					}
 				}
 			}
 		}
@@ -196,11 +201,11 @@ struct ZigzagChainComplex
 		auto it = C[k][j].nzbegin();
 		while (it != C[k][j].nzend()) {
 			auto i = it->ind;
-			// if this column enters after the original boundary exits, we need
-			// to search for copy of boundary
-			if (val[k][j].first > val[k-1][i].second) {
+			// if this column does not enter while the original boundary is present,
+			// we need to search for copy of boundary
+			if (val[k][j].first < val[k-1][i].first || val[k][j].first > val[k-1][i].second) {
 				for (size_t i2 = extra_cells[k-1][i]; i2 < extra_cells[k-1][i+1]; ++i2) {
-					if (val[k][j].first < val[k-1][i2].second) {
+					if (val[k-1][i2].first <= val[k][j].first && val[k][j].first <= val[k-1][i2].second) {
 						// we have found the correct copy
 						it->ind = i2; // set new index
 						break; // we're done with this index
@@ -259,6 +264,8 @@ struct ZigzagChainComplex
 						_correct_indices(k, C[k].ncol()-1, extra_cells);
 					}
 				}
+				// the first copy can also have a boundary that is not a first copy
+				if (k > 0) { _correct_indices(k, i, extra_cells); }
 			}
 			extra_cells[k][X.ncells(k)] = val[k].size(); // total number of cells
 		}
-- 
2.43.0


From 883ba37f279504eb0cd4c51af20497876d8aefa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 20/47] fix: zigzag extra reduction skipped the last remaining
 entry of a column

---
 include/zigzag/reduction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zigzag/reduction.hpp b/include/zigzag/reduction.hpp
index f578ac2..89ba3e2 100755
--- a/include/zigzag/reduction.hpp
+++ b/include/zigzag/reduction.hpp
@@ -111,7 +111,7 @@ void extra_col_reduction(
 
 	size_t end_offset = 1; // difference from end
 	auto piv = M[j].nzend() - end_offset; // nonzero location
-	while(piv - M[j].nzbegin() > 0) {
+	while(piv - M[j].nzbegin() >= 0) {
 		// while the nonzero we are looking at is in the vector
 		// piv is index-value nzpair
 		size_t k = p2c[piv->ind];
-- 
2.43.0


From 670d5790a3886d15a0faf852460e3f27e3800595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 21/47] fix: zigzag extension of negative functions, return
 type of extend_levelset

---
 include/zigzag/extension.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/zigzag/extension.hpp b/include/zigzag/extension.hpp
index 2099436..108cd62 100755
--- a/include/zigzag/extension.hpp
+++ b/include/zigzag/extension.hpp
@@ -19,7 +19,7 @@ std::pair<T,T> simplex_extrema(
     const Iterator& end,
     const std::vector<T>& f0
 ) {
-    T cmax = std::numeric_limits<T>::min();
+    T cmax = std::numeric_limits<T>::lowest();
     T cmin = std::numeric_limits<T>::max();
     while (it != end) {
         cmin = std::min(cmin, f0[*it]);
@@ -102,7 +102,7 @@ std::pair<T,T> cube_extrema(
     const std::vector<size_t>& cube,
     const size_t n
 ) {
-    T cmax = std::numeric_limits<T>::min();
+    T cmax = std::numeric_limits<T>::lowest();
     T cmin = std::numeric_limits<T>::max();
     for (auto i : {0,1}) {
         for (auto j : {2,3}) {
@@ -127,10 +127,10 @@ complex.  The filtration progresses from low to high values.
 @param eps  thickened levelset radius
 @param n    length of cube
 
-@return val vector of vector of pairs holding zigzag filtration values for each cube.
+@return val vector of vector of vector of pairs holding zigzag filtration values for each cube.
 */
 template <typename T>
-std::vector<std::vector<std::pair<T,T>>> extend_levelset(
+std::vector<std::vector<std::vector<std::pair<T,T>>>> extend_levelset(
     const std::vector<T>& f0, // function on vertices
     const CubicalComplex& X,
     const T eps,
-- 
2.43.0


From b69afae12e140a23edc380a5b373d01abd01c9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 22/47] fix: 1-cube removal values of image zigzags, targets of
 cover intersection diagrams, unsorted Mayer-Vietoris columns

---
 include/topology/inclusion.hpp      |  2 +-
 include/topology/levelset.hpp       | 24 ++++++++++++------------
 include/topology/mayer_vietoris.hpp |  1 +
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/topology/inclusion.hpp b/include/topology/inclusion.hpp
index 3d5fd5e..d4d5ccd 100755
--- a/include/topology/inclusion.hpp
+++ b/include/topology/inclusion.hpp
@@ -51,7 +51,7 @@ Diagram<std::set<size_t>, std::vector<size_t>> linear_cover_intersection_diagram
 	    auto i1 = SetDgm.add_node(cover[i]);
 	    if (i > 0) {
 	        // add arrow from inclusion
-	        SetDgm.add_edge(i1-1, i, vertex_inclusion_map(SetDgm.node[i1-1], SetDgm.node[i1]));
+	        SetDgm.add_edge(i1-1, i1, vertex_inclusion_map(SetDgm.node[i1-1], SetDgm.node[i1]));
 	    }
 	    if (i == (cover.size() - 1)) { break; }
 	    auto i2 = SetDgm.add_node(bats::util::set_intersection(cover[i], cover[i+1]));
diff --git a/include/topology/levelset.hpp b/include/topology/levelset.hpp
index 5191f94..aed4039 100644
--- a/include/topology/levelset.hpp
+++ b/include/topology/levelset.hpp
@@ -85,19 +85,19 @@ zigzag::ZigzagFiltration<CubicalComplex, T> zigzag_toplex(
                 d = std::numeric_limits<T>::lowest();
                 if (j > 0 && k > 0) {
                     b = std::min(b, img[i][j-1][k-1]);
-                    d = std::max(b, img[i][j-1][k-1]);
+                    d = std::max(d, img[i][j-1][k-1]);
                 }
                 if (j < n2-1 && k < n3-1) {
                     b = std::min(b, img[i][j][k]);
-                    d = std::max(b, img[i][j][k]);
+                    d = std::max(d, img[i][j][k]);
                 }
                 if (j > 0 && k < n3-1) {
                     b = std::min(b, img[i][j-1][k]);
-                    d = std::max(b, img[i][j-1][k]);
+                    d = std::max(d, img[i][j-1][k]);
                 }
                 if (j < n2-1 && k > 0) {
                     b = std::min(b, img[i][j][k-1]);
-                    d = std::max(b, img[i][j][k-1]);
+                    d = std::max(d, img[i][j][k-1]);
                 }
                 X.add(b, d, {i, i+1, j, j, k, k});
             }
@@ -111,19 +111,19 @@ zigzag::ZigzagFiltration<CubicalComplex, T> zigzag_toplex(
                 d = std::numeric_limits<T>::lowest();
                 if (i > 0 && k > 0) {
                     b = std::min(b, img[i-1][j][k-1]);
-                    d = std::max(b, img[i-1][j][k-1]);
+                    d = std::max(d, img[i-1][j][k-1]);
                 }
                 if (i < n1-1 && k < n3-1) {
                     b = std::min(b, img[i][j][k]);
-                    d = std::max(b, img[i][j][k]);
+                    d = std::max(d, img[i][j][k]);
                 }
                 if (i > 0 && k < n3-1) {
                     b = std::min(b, img[i-1][j][k]);
-                    d = std::max(b, img[i-1][j][k]);
+                    d = std::max(d, img[i-1][j][k]);
                 }
                 if (i < n1-1 && k > 0) {
                     b = std::min(b, img[i][j][k-1]);
-                    d = std::max(b, img[i][j][k-1]);
+                    d = std::max(d, img[i][j][k-1]);
                 }
                 X.add(b, d, {i, i, j, j+1, k, k});
             }
@@ -137,19 +137,19 @@ zigzag::ZigzagFiltration<CubicalComplex, T> zigzag_toplex(
                 d = std::numeric_limits<T>::lowest();
                 if (i > 0 && j > 0) {
                     b = std::min(b, img[i-1][j-1][k]);
-                    d = std::max(b, img[i-1][j-1][k]);
+                    d = std::max(d, img[i-1][j-1][k]);
                 }
                 if (i < n1-1 && j < n2-1) {
                     b = std::min(b, img[i][j][k]);
-                    d = std::max(b, img[i][j][k]);
+                    d = std::max(d, img[i][j][k]);
                 }
                 if (i > 0 && j < n2-1) {
                     b = std::min(b, img[i-1][j][k]);
-                    d = std::max(b, img[i-1][j][k]);
+                    d = std::max(d, img[i-1][j][k]);
                 }
                 if (i < n1-1 && j > 0) {
                     b = std::min(b, img[i][j-1][k]);
-                    d = std::max(b, img[i][j-1][k]);
+                    d = std::max(d, img[i][j-1][k]);
                 }
                 X.add(b, d, {i, i, j, j, k, k+1});
             }
diff --git a/include/topology/mayer_vietoris.hpp b/include/topology/mayer_vietoris.hpp
index 084e8e1..8c2d19f 100755
--- a/include/topology/mayer_vietoris.hpp
+++ b/include/topology/mayer_vietoris.hpp
@@ -61,6 +61,7 @@ auto mayer_vietoris_boundary(
                 c = -c;
             }
             col.emplace_back(TC(inds, vals));
+            col.back().sort(); // faces may appear in any order in Y
 
         } else {
             // boundary is 0
-- 
2.43.0


From b416b0fe814a35e2fc47603fdf0811da5054b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:56 +0000
Subject: [PATCH 23/47] fix: Nerve of dimension 0 contained edges

---
 include/topology/nerve.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/topology/nerve.hpp b/include/topology/nerve.hpp
index 56fa422..93891e6 100755
--- a/include/topology/nerve.hpp
+++ b/include/topology/nerve.hpp
@@ -60,6 +60,7 @@ SimplicialComplex Nerve(
 	for (size_t i = 0; i < cover.size(); i++) {
 		// add 0-simplex i
 		N.add({i});
+		if (dmax == 0) { continue; } // no edges in dimension 0
 
 		for (size_t j = 0; j < i; j++) {
 			// check to add edge between i and j
-- 
2.43.0


From 5e7dc007732705c8bffa900fd00789765059efd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:56 +0000
Subject: [PATCH 24/47] fix: firstk of more elements than there are wrote out
 of bounds (k nearest neighbours, landmark covers)

---
 include/util/permutation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/util/permutation.hpp b/include/util/permutation.hpp
index 35fccd6..72e001b 100755
--- a/include/util/permutation.hpp
+++ b/include/util/permutation.hpp
@@ -139,9 +139,10 @@ template <typename TI>
 std::vector<size_t> firstk(
     const TI& begin,
     const TI& end,
-    const size_t k
+    const size_t n
 ) {
     std::vector<size_t> perm(end - begin);
+    const size_t k = std::min(n, perm.size()); // there may be fewer than n elements
     std::iota(perm.begin(), perm.end(), 0);
     std::partial_sort(
         perm.begin(),
-- 
2.43.0


From 43d3ce31fd15dc5139cbc0dac7413868f4927753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:56 +0000
Subject: [PATCH 25/47] fix: witness complexes: parameters of rectangular
 distance matrices, nu-th nearest landmark with ties, lazy complex did not
 compile, dimension above the number of landmarks

---
 include/topology/dowker.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index 91e07a2..2972723 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -41,12 +41,18 @@ std::vector<T> get_m(
     size_t nu
 ) {
     size_t N = pdist.ncol();
+    size_t n = pdist.nrow();
     std::vector<T> m(N, T(0));
 
-    while (nu > 0) {
-        // update m with next largest entry
-        increment_m(pdist, m);
-        nu--;
+    nu = std::min(nu, n);
+    if (nu == 0) { return m; }
+
+    std::vector<T> col(n);
+    for (size_t j = 0; j < N; j++) {
+        for (size_t i = 0; i < n; i++) { col[i] = pdist(i,j); }
+        // count entries with multiplicity
+        std::nth_element(col.begin(), col.begin() + (nu - 1), col.end());
+        m[j] = col[nu - 1];
     }
 
     return m;
@@ -108,7 +114,7 @@ Matrix<T> witness_edge_param(
 
     // loop over pdist, subtract m[j] from each column, take max with 0
     for (size_t j = 0; j < nX; j++) {
-        for (size_t i = 0; i < nX; i++) {
+        for (size_t i = 0; i < pdist.nrow(); i++) {
             pdist(i,j) -= m[j];
             pdist(i,j) = (pdist(i,j) > T(0)) ? pdist(i,j) : T(0);
         }
@@ -200,7 +206,7 @@ SimplicialComplex WitnessComplex(
     // container for holding simplex
     std::vector<size_t> spx;
     // now we loop over each point in x, and try adding the simplex it witnesses
-    for (size_t dim = 1; dim < k; dim++) {
+    for (size_t dim = 1; dim < std::min(k, L.size()); dim++) {
         spx.resize(dim+1);
         // add simplex that X[i] witnesses in dimension dim
         for (size_t i = 0; i < X.size(); i++) {
@@ -226,7 +232,7 @@ SimplicialComplex WitnessComplex(
     const size_t dmax
 ) {
     auto pdist = witness_edge_param(X, L, dist, nu);
-    return RipsComplex(pdist, rmax, dmax);
+    return RipsComplex<SimplicialComplex>(pdist, rmax, dmax);
 }
 
 template <typename T, typename M>
-- 
2.43.0


From bf18078ee4a91fcf15b3e10512ae8e153e79c157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:08 +0000
Subject: [PATCH 26/47] fix: greedy landmarks repeated duplicate points, or
 never ended

---
 include/topology/landmark.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/topology/landmark.hpp b/include/topology/landmark.hpp
index 1f31d14..757fee8 100755
--- a/include/topology/landmark.hpp
+++ b/include/topology/landmark.hpp
@@ -46,6 +46,7 @@ DataSet<T> greedy_landmarks(
 	inds.insert(i0);
 
 	std::vector<T> d = dist(D[i0], D);
+	d[i0] = T(-1); // landmarks are marked by -1, so that duplicate points do not select them again
 
 	while (inds.size() < k) {
 		// get furthest point from landmark set
@@ -54,6 +55,7 @@ DataSet<T> greedy_landmarks(
 
 		// insert point
 		inds.insert(i);
+		d[i] = T(-1);
 
 		// get all distances
 		std::vector<T> di = dist(D[i], D);
@@ -129,6 +131,7 @@ std::tuple<std::vector<size_t>, std::vector<T>> greedy_landmarks_hausdorff(
 	inds.emplace_back(i0);
 
 	std::vector<T> d = dist(D[i0], D);
+	d[i0] = T(-1); // mark landmarks
 
 	while (inds.size() < D.size()) {
 		// get furthest point from landmark set
@@ -138,6 +141,7 @@ std::tuple<std::vector<size_t>, std::vector<T>> greedy_landmarks_hausdorff(
 
 		// insert new point
 		inds.emplace_back(i);
+		d[i] = T(-1);
 
 		// get all distances
 		std::vector<T> di = dist(D[i], D);
@@ -175,6 +179,7 @@ std::tuple<std::vector<size_t>, std::vector<T>> greedy_landmarks_hausdorff(
 	inds.emplace_back(i0);
 
 	std::vector<T> d = dist(D[i0], D);
+	d[i0] = T(-1); // mark landmarks
 
 	while (inds.size() < k) {
 		// get furthest point from landmark set
@@ -184,6 +189,7 @@ std::tuple<std::vector<size_t>, std::vector<T>> greedy_landmarks_hausdorff(
 
 		// insert new point
 		inds.emplace_back(i);
+		d[i] = T(-1);
 
 		// get all distances
 		std::vector<T> di = dist(D[i], D);
@@ -194,7 +200,7 @@ std::tuple<std::vector<size_t>, std::vector<T>> greedy_landmarks_hausdorff(
 	}
 
 	auto it = std::max_element(d.cbegin(), d.cend());
-	hds.emplace_back(*it); // Hausdorff distance of set up to that point.
+	hds.emplace_back(std::max(*it, T(0))); // Hausdorff distance of set up to that point.
 
 	return std::make_tuple(inds, hds);
 }
@@ -220,6 +226,7 @@ std::tuple<std::vector<size_t>, std::vector<T>> greedy_landmarks_hausdorff(
 	for (size_t i = 0; i < pdist.ncol(); i++) {
 		*dit++ = pdist(i0,i);
 	}
+	d[i0] = T(-1); // mark landmarks
 
 	while (inds.size() < pdist.ncol()) {
 		// get furthest point from landmark set
@@ -229,6 +236,7 @@ std::tuple<std::vector<size_t>, std::vector<T>> greedy_landmarks_hausdorff(
 
 		// insert new point
 		inds.emplace_back(i);
+		d[i] = T(-1);
 
 		// get all distances
 		auto di = pdist[i]; // distance from point i
-- 
2.43.0


From c68dade739a429dc3bd9838321e84e5125ac6024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:08 +0000
Subject: [PATCH 27/47] fix: RPCosineDist computed the cosine distance, angles
 of (anti)parallel vectors were NaN

---
 include/topology/metric.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/topology/metric.hpp b/include/topology/metric.hpp
index d83e38c..e7d103a 100755
--- a/include/topology/metric.hpp
+++ b/include/topology/metric.hpp
@@ -128,7 +128,7 @@ struct CosineDist : AbstractMetric<CosineDist> {
 };
 
 // Cosine metric 1 - cos(x,y) = 1 - x^T y / ||x||*||y||
-struct RPCosineDist : AbstractMetric<CosineDist> {
+struct RPCosineDist : AbstractMetric<RPCosineDist> {
 
     template <typename T>
     T dist (const VectorView<T> &x, const VectorView<T> &y) const {
@@ -159,7 +159,7 @@ struct AngleDist : AbstractMetric<AngleDist> {
             ny += (y(i) * y(i));
         }
         T cxy = ip / (std::sqrt(nx) * std::sqrt(ny)); // cosine of angle
-        return std::acos(cxy > T(1) ? T(1) : cxy);
+        return std::acos(cxy > T(1) ? T(1) : (cxy < T(-1) ? T(-1) : cxy));
     }
 };
 
@@ -178,7 +178,7 @@ struct RPAngleDist : AbstractMetric<RPAngleDist> {
         }
         ip = std::abs(ip); // positive inner produce minimizes distance between RP representatives
         T cxy = ip / (std::sqrt(nx) * std::sqrt(ny)); // cosine of angle
-        return std::acos(cxy);
+        return std::acos(cxy > T(1) ? T(1) : cxy);
     }
 
 };
-- 
2.43.0


From 0dcf50252b16f2c152685cbf581ffbc277bf9358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:08 +0000
Subject: [PATCH 28/47] fix: neighborhoods within a radius appended
 concurrently and in the wrong places

---
 include/topology/neighborhood.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/neighborhood.hpp b/include/topology/neighborhood.hpp
index b99e4a4..0564ba3 100755
--- a/include/topology/neighborhood.hpp
+++ b/include/topology/neighborhood.hpp
@@ -59,7 +59,7 @@ std::vector<std::vector<size_t>> neighborhoods(
 
 	#pragma omp parallel for
 	for (size_t i = 0; i < X.size(); i++) {
-		nbrs.emplace_back(neighborhood(X[i], Y, dist, r));
+		nbrs[i] = neighborhood(X[i], Y, dist, r);
 	}
 
 	return nbrs;
-- 
2.43.0


From 2a22bd4e3957add8902dff5ddda2e53e307c8ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:02 +0000
Subject: [PATCH 29/47] fix: diagram functors: exceptions left parallel
 regions, RipsHom dimension of nodes without edges

---
 include/multigraph/functors.hpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/multigraph/functors.hpp b/include/multigraph/functors.hpp
index 242175d..23ab457 100755
--- a/include/multigraph/functors.hpp
+++ b/include/multigraph/functors.hpp
@@ -101,6 +101,13 @@ Diagram<SimplicialComplex, CellularMap> Rips(
 
 	size_t n = D.nnode();
 	size_t m = D.nedge();
+	// check parameters first: an exception must not leave a parallel region
+	for (size_t i = 0; i < m; i++) {
+		if (rmax[D.elist[i].targ] < rmax[D.elist[i].src]) {
+			throw std::range_error("Rips parameter must be non-decreasing from source to target.");
+		}
+	}
+
 	// Diagram of simplicial complexes and maps
 	Diagram<SimplicialComplex, CellularMap> TD(n, m);
 
@@ -116,9 +123,6 @@ Diagram<SimplicialComplex, CellularMap> Rips(
 	for (size_t i = 0; i < m; i++) {
 	    auto s = D.elist[i].src;
 	    auto t = D.elist[i].targ;
-		if (rmax[t] < rmax[s]) {
-			throw std::range_error("Rips parameter must be non-decreasing from source to target.");
-		}
 	    TD.set_edge(i, s, t,
 	                    SimplicialMap(TD.node[s] , TD.node[t], D.edata[i])
 	                   );
@@ -277,6 +281,13 @@ auto RipsHom(
 
 	size_t n = D.nnode();
 	size_t m = D.nedge();
+	// check parameters first: an exception must not leave a parallel region
+	for (size_t i = 0; i < m; i++) {
+		if (rmax[D.elist[i].targ] < rmax[D.elist[i].src]) {
+			throw std::range_error("Rips parameter must be non-decreasing from source to target.");
+		}
+	}
+
 	// Diagram of dimensions and induced maps
 	Diagram<size_t, MT> TD(n, m);
 
@@ -287,9 +298,6 @@ auto RipsHom(
 	for (size_t i = 0; i < m; i++) {
 	    auto s = D.elist[i].src;
 	    auto t = D.elist[i].targ;
-		if (rmax[t] < rmax[s]) {
-			throw std::range_error("Rips parameter must be non-decreasing from source to target.");
-		}
 		// handle nodes
 		auto Is = get_subset(X, D.node[s]);
 		auto It = get_subset(X, D.node[t]);
@@ -310,6 +318,7 @@ auto RipsHom(
 	// extract dimensions for nodes
 	// we do this by iterating over edges
 	// do this sequentially to avoid race conditions
+	std::vector<bool> has_dim(n, false);
 	for (size_t i = 0; i < m; i++) {
 		auto s = D.elist[i].src;
 	    auto t = D.elist[i].targ;
@@ -317,6 +326,14 @@ auto RipsHom(
 		auto dt = TD.edata[i].nrow();
 		TD.set_node(s, ds);
 		TD.set_node(t, dt);
+		has_dim[s] = true;
+		has_dim[t] = true;
+	}
+	// nodes without edges
+	for (size_t i = 0; i < n; i++) {
+		if (has_dim[i]) { continue; }
+		auto XI = RipsComplex<CpxT>(get_subset(X, D.node[i]), dist, rmax[i], hdim+1);
+		TD.set_node(i, Reduce(XI, FT()).hdim(hdim));
 	}
 
 	return TD;
-- 
2.43.0


From 788c232b6e61317a191dcb92c225c7e76559ab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:25 +0000
Subject: [PATCH 30/47] fix: dense matrices: reads past the end in pivot search
 and commutation, in-place products

---
 include/linalg/naive_dense.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/linalg/naive_dense.hpp b/include/linalg/naive_dense.hpp
index 1e4019e..29f5562 100755
--- a/include/linalg/naive_dense.hpp
+++ b/include/linalg/naive_dense.hpp
@@ -505,8 +505,8 @@ auto matmul(A<Dense<F,Acc1>> m1, A<Dense<F,Acc2>> m2){
 //inplace
 template< typename F,typename Acc1>
 void matmul(A<Dense<F,Acc1>> m1, VectorView<F> y){
-    F temp[m1.m];
-    A<Dense<F,Acc1>> prod(m1.m,1,temp);
+    std::vector<F> temp(m1.m, F(0));
+    A<Dense<F,Acc1>> prod(m1.m,1,temp.data());
     for(size_t i=0;i<m1.m;i++)
             for(size_t k=0;k<m1.n;k++){
                 prod(i,0) += m1(i,k)*y[k];
@@ -516,8 +516,8 @@ void matmul(A<Dense<F,Acc1>> m1, VectorView<F> y){
 
 template< typename F,typename Acc1>
 void matmul(VectorView<F> y, A<Dense<F,Acc1>> m1 ){
-    F temp[m1.n];
-    A<Dense<F,Acc1>> prod(1,m1.n,temp);
+    std::vector<F> temp(m1.n, F(0));
+    A<Dense<F,Acc1>> prod(1,m1.n,temp.data());
     for(size_t j=0;j<m1.n;j++)
             for(size_t k=0;k<m1.n;k++){
                 prod(0,j) += y[k]*m1(k,j);
@@ -535,12 +535,12 @@ A<Dense<F,Acc2>> apply_matmul_on_left(A<Dense<F,Acc1>> Amat1, A<Dense<F,Acc2>> A
 }
 
 template <typename F,typename Acc1,typename Acc2>
-A<Dense<F,Acc2>> apply_matmul_on_right(A<Dense<F,Acc1>> Amat1, A<Dense<F,Acc2>> Amat2) {
+A<Dense<F,Acc1>> apply_matmul_on_right(A<Dense<F,Acc1>> Amat1, A<Dense<F,Acc2>> Amat2) {
     size_t m = Amat1.nrow();
     for (size_t i = 0; i < m; i++) {
         matmul(Amat1.r(i), Amat2);
     }
-    return Amat2;
+    return Amat1;
 }
 
 
@@ -562,7 +562,7 @@ L<Dense<F,Acc2>> commute(EL<Dense<F,Acc1>> ELmat, L<Dense<F,Acc2>> Lmat) {
     // loop over columns of ELmat
     for (j = 0; j < n && i < m; j++) {
         // increment i until we find a non-zero, or run out of column
-        while (ELmat(i,j) == F(0) && i < m) {
+        while (i < m && ELmat(i,j) == F(0)) {
             i++;
         }
         // column is all zero
@@ -732,7 +732,7 @@ auto find_pivot(M mat,size_t pr, size_t pc){
         prow ++; // try new row
         pcol = pc;
         //search col, give up if u reach last col
-        while( (mat(prow,pcol)==F(0)) & (pcol < mat.n)){
+        while( (pcol < mat.n) && (mat(prow,pcol)==F(0)) ){
             pcol++;
         }
     }while((pcol == mat.n) && !(prow == mat.m-1));
-- 
2.43.0


From 133557daa38615b49fa15e67d8ac2efab361cbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 31/47] fix: Smith forms: stale iterators, multiples of the
 pivot; rational canonical basis has too many vectors

---
 include/linalg/pid.hpp | 10 ++++++++++
 include/linalg/rcf.hpp |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/linalg/pid.hpp b/include/linalg/pid.hpp
index d3b0d57..225ca39 100755
--- a/include/linalg/pid.hpp
+++ b/include/linalg/pid.hpp
@@ -25,6 +25,13 @@ std::tuple<PID, PID, PID, PID, PID> extended_euclidean(const PID& a, const PID&
     //
     // }
 
+    // if a divides b, then a is already the gcd
+    // row and column operations in Smith forms rely on x = 1, y = 0 in this case
+    if (a != 0) {
+        PID q = b / a;
+        if (b - q * a == 0) { return std::make_tuple(PID(1), PID(0), a, PID(1), q); }
+    }
+
     PID s(0), old_s(1);
     PID t(1), old_t(0);
     PID r(b), old_r(a);
@@ -99,6 +106,7 @@ void smith_normal_form(ColumnMatrix<TC> &A) {
                 if (A[j2].nnz() > 0 && A[j2].firstnz().ind == j) {
                     auto [x, y, g, w, z] = extended_euclidean(p->val, A[j2].firstnz().val);
                     A.mix_cols(j, j2, x, -z, y, w);
+                    p = A[j].nzbegin(); // mix_cols invalidates iterators
                 }
             }
 
@@ -221,6 +229,7 @@ SmithFact<TC> smith_factorization(const ColumnMatrix<TC> &A) {
                     auto [x, y, g, w, z] = extended_euclidean(p->val, S[j2].firstnz().val);
                     S.mix_cols(j, j2, x, -z, y, w);
                     C.mix_rows(j, j2, w, z, -y, x);
+                    p = S[j].nzbegin(); // mix_cols invalidates iterators
                 }
             }
 
@@ -327,6 +336,7 @@ std::tuple<ColumnMatrix<TC>, ColumnMatrix<TC>> smith_rows(const ColumnMatrix<TC>
                 if (S[j2].nnz() > 0 && S[j2].firstnz().ind == j) {
                     auto [x, y, g, w, z] = extended_euclidean(p->val, S[j2].firstnz().val);
                     S.mix_cols(j, j2, x, -z, y, w);
+                    p = S[j].nzbegin(); // mix_cols invalidates iterators
                 }
             }
 
diff --git a/include/linalg/rcf.hpp b/include/linalg/rcf.hpp
index 2c864c0..e512dc7 100755
--- a/include/linalg/rcf.hpp
+++ b/include/linalg/rcf.hpp
@@ -52,7 +52,7 @@ ColumnMatrix<SparseVector<T>> RCF_basis(
         if (S(j,j).degree() > 0) {
             auto v = B[j];
             col.emplace_back(v);
-            for (size_t k = 0; k < S(j,j).degree(); k++) {
+            for (size_t k = 0; k + 1 < S(j,j).degree(); k++) {
                 v = A * v;
                 col.emplace_back(v);
             }
-- 
2.43.0


From 268756067c5a3ea19a5d08a0c2e0e6d1840d2f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 32/47] fix: Eilenberg-Zilber map: shuffle signs, vertices of
 the product, reads before the index shifts

---
 include/topology/eilenberg_zilber.hpp | 55 +++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/include/topology/eilenberg_zilber.hpp b/include/topology/eilenberg_zilber.hpp
index edde59c..c4971a8 100755
--- a/include/topology/eilenberg_zilber.hpp
+++ b/include/topology/eilenberg_zilber.hpp
@@ -12,6 +12,29 @@ Input is 2 simplicial complexes, X, Y
 
 namespace bats {
 
+/*
+Signs of the Eilenberg-Zilber map depend on the orientation convention of CpxT:
+returns the coefficients of the first face (omit first vertex) of k-simplices for k <= maxdim
+*/
+template <typename T, typename CpxT>
+std::vector<T> first_face_coeff(const size_t maxdim) {
+	using MT = ColumnMatrix<SparseVector<T, size_t>>;
+
+	CpxT S(maxdim + 1, maxdim);
+	std::vector<size_t> s(maxdim + 1);
+	for (size_t i = 0; i <= maxdim; i++) { s[i] = i; }
+	S.add_recursive(s);
+	ChainComplex<MT> CS(S);
+
+	std::vector<T> coeff(maxdim + 1, T(1));
+	for (size_t k = 1; k <= maxdim; k++) {
+		std::vector<size_t> sk(s.begin(), s.begin() + k + 1);
+		std::vector<size_t> face(sk.begin() + 1, sk.end());
+		coeff[k] = CS[k](S.find_idx(face), S.find_idx(sk));
+	}
+	return coeff;
+}
+
 /*
 Eilenberg-Zilberg map
 returns:
@@ -31,7 +54,7 @@ auto EilenbergZilber(
 	using MT = ColumnMatrix<VT>;
 
 	const size_t n = X.ncells(0); // number of 0-cells in X
-	CpxT XY( n*n, maxdim); // product simplicial complex
+	CpxT XY( n * Y.ncells(0), maxdim); // product simplicial complex
 
 	ChainComplex<MT> CX(X); // chain complex of X
 	ChainComplex<MT> CY(Y); // chain complex of Y
@@ -39,6 +62,8 @@ auto EilenbergZilber(
 
 	ChainMap<MT> F(maxdim); // chain map
 
+	const auto face_coeff = first_face_coeff<T, CpxT>(maxdim);
+
 
 	std::vector<size_t> s; // placeholder simplex
 	std::vector<cell_ind> ci; // list of added simplices
@@ -52,6 +77,14 @@ auto EilenbergZilber(
 			ind_shift[0][0] = 0;
 			CXCY[0] = MT(1, X.ncells(0) * Y.ncells(0));
 			F[0] = MT::identity(X.ncells(0) * Y.ncells(0));
+			// add vertices in order of the tensor product
+			for (size_t iX = 0; iX < X.ncells(0); iX++) {
+				for (size_t iY = 0; iY < Y.ncells(0); iY++) {
+					s = { prod_ind(X.get_simplex(0, iX)[0], Y.get_simplex(0, iY)[0], n) };
+					XY.add(s);
+				}
+			}
+			s.clear();
 			continue;
 		}
 		CXCY[dim] = MT(CXCY[dim-1].ncol(), 0);
@@ -62,6 +95,12 @@ auto EilenbergZilber(
 			ind_shift[dX][dY] = shift;
 			if (dX > X.maxdim() || dY > Y.maxdim()) {continue;}
 			shift += X.ncells(dX) * Y.ncells(dY); // how much we'll shift for next pair of dimensions
+			// shifts of the faces.  There are no faces in dimension 0
+			const size_t shiftX = dX > 0 ? ind_shift[dX-1][dY] : 0;
+			const size_t shiftY = dY > 0 ? ind_shift[dX][dY-1] : 0;
+			// sign of the path which does all steps in X first
+			T sign0(1);
+			for (size_t k = 1; k <= dX; k++) { sign0 = sign0 * face_coeff[k] * face_coeff[k + dY]; }
 
 			// loop over simplices of dimension dX
 			for (size_t iX = 0; iX < X.ncells(dX); iX++) {
@@ -83,8 +122,8 @@ auto EilenbergZilber(
 					);
 					// create column in tensor product
 					// d(x \otimes y) = (dx \otimes y) + (-1)^deg(x) (x \otimes dy)
-					auto dxy = (CX[dX][iX].kron(VT(iY), Y.ncells(dY))).shift_inds(ind_shift[dX-1][dY])\
-					 + VT(iX, T(dX & 0x1 ? -1 : 1)).kron(CY[dY][iY], CY[dY].nrow()).shift_inds(ind_shift[dX][dY-1]);
+					auto dxy = (CX[dX][iX].kron(VT(iY), Y.ncells(dY))).shift_inds(shiftX)\
+					 + VT(iX, T(dX & 0x1 ? -1 : 1)).kron(CY[dY][iY], CY[dY].nrow()).shift_inds(shiftY);
 					CXCY[dim].append_column(dxy);
 
 					// create column in map
@@ -96,7 +135,15 @@ auto EilenbergZilber(
 
 					for (auto& c: ci) {
 						ind.emplace_back(c.ind);
-						val.emplace_back(T(1));
+						// sign of the shuffle: count steps in X after steps in Y
+						auto path = XY.get_simplex(c.dim, c.ind);
+						T sign(sign0);
+						size_t ysteps = 0;
+						for (size_t k = 1; k < path.size(); k++) {
+							if (path[k] / n != path[k-1] / n) { ysteps++; }
+							else if (ysteps & 0x1) { sign = -sign; }
+						}
+						val.emplace_back(sign);
 					}
 					F[dim].append_column(ind, val);
 				}
-- 
2.43.0


From c8fce3aae290e16c23fa0c5cda1ce9d5b9076f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:05 +0000
Subject: [PATCH 33/47] fix: Morse pairings: refused and repeated cells,
 existing complexes, clear

---
 include/morse/pairing.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/morse/pairing.hpp b/include/morse/pairing.hpp
index 6744e66..ba86864 100755
--- a/include/morse/pairing.hpp
+++ b/include/morse/pairing.hpp
@@ -100,11 +100,11 @@ private:
 			reserve(dim + 1);
 		}
 		// check that ispaired has enough entries
-		if ( size(dim) < i ) {
-			reserve(dim, i);
+		if ( size(dim) < i + 1 ) {
+			reserve(dim, i + 1);
 		}
-		if ( size(dim + 1) < j ) {
-			reserve(dim + 1, j);
+		if ( size(dim + 1) < j + 1 ) {
+			reserve(dim + 1, j + 1);
 		}
 		// check if already paired
 		if (ispaired[dim][i] || ispaired[dim+1][j]) {
@@ -123,7 +123,7 @@ private:
 	bool _set_edge(const size_t i, const size_t j, const size_t ei) {
 		size_t pi = find_parent(i);
 		size_t pj = find_parent(j);
-		if (pi == pj) { return false; } // no pair set
+		if (pi == pj || ispaired[1][ei]) { return false; } // no pair set
 
 		// merge components with i and j
 		// TODO: should be able to call a rank vector
@@ -147,7 +147,7 @@ private:
 	bool _set_edge(const size_t i, const size_t j, const size_t ei, const std::vector<TR> &rank) {
 		size_t pi = find_parent(i);
 		size_t pj = find_parent(j);
-		if (pi == pj) { return false; } // no pair set
+		if (pi == pj || ispaired[1][ei]) { return false; } // no pair set
 
 		// merge components with i and j
 		if ( (rank[pi] < rank[pj]) || ((rank[pi] == rank[pj]) && (pi < pj)) ) {
@@ -206,8 +206,7 @@ public:
 
 	MorsePairing(CpxT &C) : cpx(&C), _maxdim(0) {
 		for (size_t dim = 0; dim < C.maxdim() + 1; dim++){
-			reserve(dim, C._reserved[dim]);
-			// reserve(dim, C.ncells(dim));
+			reserve(dim, std::max(C._reserved[dim], C.ncells(dim)));
 		}
 	};
 
@@ -232,6 +231,10 @@ public:
 		for (size_t i = 0; i < down.size(); i++) {
 			down[i].clear();
 		}
+		// every vertex is its own component again
+		for (size_t i = 0; i < parent.size(); i++) {
+			parent[i] = i;
+		}
 	}
 
 	inline size_t maxdim() const { return _maxdim; }
@@ -267,7 +270,7 @@ public:
 	template <class ...Ts>
 	inline cell_ind add(Ts (&...args)) {
 		cell_ind ret = cpx->add(args...);
-		reserve(ret.dim, ret.ind+1);
+		if (ret.ind != bats::NO_IND) { reserve(ret.dim, ret.ind+1); }
 		return ret;
 	}
 
@@ -276,6 +279,8 @@ public:
 	cell_ind add_pair(Ts (&...args)) {
 		// first add to complex
 		cell_ind ret = add(args...);
+		// nothing to pair if cell was not added, or has been paired already
+		if (ret.ind == bats::NO_IND || ispaired[ret.dim][ret.ind]) { return ret; }
 		// now iterate over boundary
 		if (ret.dim > 1) {
 			for (auto k = cpx->faces_begin(ret.dim, ret.ind); k < cpx->faces_end(ret.dim, ret.ind); k++) {
-- 
2.43.0


From d3217152f4ea4313f22a5c508a7ee543a599f3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:17 +0000
Subject: [PATCH 34/47] fix: reading saved objects: cellular maps, rational and
 floating point entries, point clouds, simplices

---
 include/complex/cell_map.hpp       |  2 +-
 include/linalg/abstract_vector.hpp | 18 +++++++++++++++++-
 include/topology/data.hpp          |  3 ++-
 include/util/simplex.hpp           |  2 +-
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/complex/cell_map.hpp b/include/complex/cell_map.hpp
index 919a908..a8aee2a 100755
--- a/include/complex/cell_map.hpp
+++ b/include/complex/cell_map.hpp
@@ -39,7 +39,7 @@ public:
 			std::string line;
 			getline(file, line); // TODO: should be CellularMap
 			// keep putting cell_maps on back
-			while (!file.eof()) {
+			while (file.peek() != std::ifstream::traits_type::eof()) {
 				cell_map.emplace_back(map_type(file));
 			}
             file.close();
diff --git a/include/linalg/abstract_vector.hpp b/include/linalg/abstract_vector.hpp
index 5d8345a..fd8d8fb 100755
--- a/include/linalg/abstract_vector.hpp
+++ b/include/linalg/abstract_vector.hpp
@@ -3,6 +3,7 @@
 #include <iostream>
 #include <string>
 #include <sstream>
+#include <type_traits>
 
 /*
 struct that holds index value pairs
@@ -22,7 +23,22 @@ struct nzpair {
   		getline(iss, token, ':');
   		ind = TI(std::stoi(token));
   		getline(iss, token);
-  		val = TV(std::stoi(token));
+  		val = read_value(token);
+    }
+
+    // value written by operator<<, which may be a floating point number or a fraction n/d
+    static TV read_value(const std::string &token) {
+      if constexpr (std::is_floating_point<TV>::value) {
+        return TV(std::stod(token));
+      } else {
+        if constexpr (std::is_constructible<TV, int, int>::value) { // e.g. Rational
+          size_t slash = token.find('/');
+          if (slash != std::string::npos) {
+            return TV(std::stoi(token), std::stoi(token.substr(slash + 1)));
+          }
+        }
+        return TV(std::stoi(token));
+      }
     }
 
     inline bool operator==(const nzpair &other) const { return (ind == other.ind) && (val == other.val); }
diff --git a/include/topology/data.hpp b/include/topology/data.hpp
index 79d9926..7dbb5c9 100755
--- a/include/topology/data.hpp
+++ b/include/topology/data.hpp
@@ -45,6 +45,7 @@ Matrix<T> read_point_cloud(std::string &fname, bool header=false) {
 				std::cerr << "inconsistent number of columns at line " << m << std::endl;
 				std::cerr << "saw " << ncol << " entries, expected " << n << std::endl;
 			}
+			data.resize(m*n); // a point keeps its row also if a line has missing or extra entries
 		}
 		file.close();
 	} else {
@@ -55,7 +56,7 @@ Matrix<T> read_point_cloud(std::string &fname, bool header=false) {
 	for (auto x : data) {
 		*it++ = x;
 	}
-	return Matrix<T>(n, m, newmat); // swap rows and columns for col major format
+	return Matrix<T>(m, n, newmat); // one point per row
 }
 
 
diff --git a/include/util/simplex.hpp b/include/util/simplex.hpp
index 15d5733..ca60646 100755
--- a/include/util/simplex.hpp
+++ b/include/util/simplex.hpp
@@ -86,7 +86,7 @@ int simplex_sign(std::vector<T> &s) {
 template <typename IO, typename T>
 void write_simplex(IO &io, std::vector<T> &s) {
     for (auto x : s) {
-        io << x << ", ";
+        io << x << ",";
     }
     io << '\n';
 }
-- 
2.43.0


From ce9432f3d5d21480be7adb8acaf47a442e90db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:33 +0000
Subject: [PATCH 35/47] fix: cohomology of cochain complexes: degrees, top
 dimension, permutations

---
 include/chain/cochain_complex.hpp | 40 ++++++++++++---------------
 include/homology/cohom_basis.hpp  | 46 +++++++++++++++----------------
 2 files changed, 39 insertions(+), 47 deletions(-)

diff --git a/include/chain/cochain_complex.hpp b/include/chain/cochain_complex.hpp
index 43e645c..c827d15 100755
--- a/include/chain/cochain_complex.hpp
+++ b/include/chain/cochain_complex.hpp
@@ -12,11 +12,14 @@ namespace bats {
 template <typename MT>
 struct CochainComplex {
 	std::vector<size_t> dim;
+	// coboundary[k] maps C^{k-1} to C^k.  The first and last ones are zero maps
 	std::vector<MT> coboundary;
 
 	CochainComplex() {}
 
-	CochainComplex(const std::vector<size_t> &dim, const std::vector<MT> &coboundary) : dim(dim), coboundary(coboundary) {}
+	CochainComplex(const std::vector<size_t> &dim, const std::vector<MT> &coboundary) : dim(dim), coboundary(coboundary) {
+		set_last_coboundary();
+	}
 
 	// produce a cochain complex from a simplicial or cell complex
 	template <typename CpxT>
@@ -31,6 +34,14 @@ struct CochainComplex {
 				coboundary[k] = MT(X.boundary_csc(k)).transpose();
 			}
 		}
+		set_last_coboundary();
+	}
+
+	// zero coboundary out of the top dimension
+	void set_last_coboundary() {
+		if (dim.size() > 0 && coboundary.size() == dim.size()) {
+			coboundary.emplace_back(MT(1, dim.back()));
+		}
 	}
 
 	// ChainComplex(const ChainComplex &C) : dim(C.dim), boundary(C.boundary) {}
@@ -48,17 +59,9 @@ struct CochainComplex {
 
 	// permute basis in dimension k
 	void permute_basis(size_t k, const std::vector<size_t> &perm) {
-		if (k == 0) {
-			// only worry about boundary[1]
-			coboundary[1].permute_rows(perm);
-		} else if (k == maxdim()) {
-			coboundary[maxdim()].permute_cols(perm);
-			// only worry about boundary[maxdim()]
-		} else {
-			// need to handle boundary[k] and boundary[k+1]
-			coboundary[k].permute_cols(perm);
-			coboundary[k+1].permute_rows(bats::util::inv_perm(perm));
-		}
+		// cells of dimension k are rows of coboundary[k] and columns of coboundary[k+1]
+		coboundary[k].permute_rows(perm);
+		coboundary[k+1].permute_cols(perm);
 	}
 
 	// permute basis in all dimensions
@@ -69,17 +72,8 @@ struct CochainComplex {
 	}
 
 	void ipermute_basis(size_t k, const std::vector<size_t> &perm) {
-		if (k == 0) {
-			// only worry about boundary[1]
-			coboundary[1].permute_rows(bats::util::inv_perm(perm));
-		} else if (k == maxdim()) {
-			coboundary[k].ipermute_cols(perm);
-			// only worry about boundary[maxdim()]
-		} else {
-			// need to handle boundary[k] and boundary[k+1]
-			coboundary[k].ipermute_cols(perm);
-			coboundary[k+1].permute_rows(bats::util::inv_perm(perm));
-		}
+		coboundary[k].permute_rows(bats::util::inv_perm(perm));
+		coboundary[k+1].ipermute_cols(perm);
 	}
 
 };
diff --git a/include/homology/cohom_basis.hpp b/include/homology/cohom_basis.hpp
index fb5ec28..a7c8f22 100755
--- a/include/homology/cohom_basis.hpp
+++ b/include/homology/cohom_basis.hpp
@@ -17,6 +17,8 @@ public:
 
 	using cochain_type = typename MT::col_type;
 
+	// R[k] is the reduced coboundary C^{k-1} -> C^k, U[k] is the basis of C^{k-1}.
+	// The last one is the (zero) coboundary out of the top dimension
 	std::vector<size_t> dim;
 	std::vector<MT> U; // basis matrices
 	std::vector<MT> R; // reduced matrix
@@ -25,7 +27,7 @@ public:
 
 	// size of homology vector space in dimension k
 	inline size_t hdim(size_t k) const { return I[k].size(); }
-	inline size_t maxdim() const { return R.size() - 1; }
+	inline size_t maxdim() const { return dim.size() - 1; }
 
 	MT& operator[](size_t k) {
 		if (k >= dim.size()) {
@@ -38,10 +40,11 @@ private:
 	// set cohomology indices after reduction is completed
 	void set_indices() {
 		// TODO: can parallelize this
-		for (size_t k = 0; k < maxdim(); k++) {
-			I[k] = extract_basis_indices(R[k], p2c[k+1]);
+		// cocycles of degree k are the zero columns of R[k+1], coboundaries have pivots in R[k]
+		I.resize(dim.size());
+		for (size_t k = 0; k < dim.size(); k++) {
+			I[k] = extract_basis_indices(R[k+1], p2c[k]);
 		}
-		I[maxdim()] = extract_basis_indices(R[maxdim()]);
 	}
 
 public:
@@ -50,11 +53,10 @@ public:
 
 	// compute reduced chain complex from chain complex
 	ReducedCochainComplex(const CochainComplex<MT> &C) {
-		size_t dmax = C.maxdim() + 1;
+		size_t dmax = C.maxdim() + 2;
 		dim = C.dim;
 		U.resize(dmax);
 		R.resize(dmax);
-		I.resize(dmax);
 		p2c.resize(dmax);
 
 		// TODO: can parallelize this
@@ -71,11 +73,10 @@ public:
 	// compute reduced boundary matrices only with flags
 	template <typename algflag>
 	ReducedCochainComplex(const CochainComplex<MT> &C, algflag) {
-		size_t dmax = C.maxdim() + 1;
+		size_t dmax = C.maxdim() + 2;
 		dim = C.dim;
 		R.resize(dmax);
 		p2c.resize(dmax);
-		I.resize(dmax);
 
 		// TODO: can parallelize this
 		for (size_t k = 0; k < dmax; k++) {
@@ -93,12 +94,11 @@ public:
 		algflag,
 		bats::compute_basis_flag
 	) {
-		size_t dmax = C.maxdim() + 1;
+		size_t dmax = C.maxdim() + 2;
 		dim = C.dim;
 		R.resize(dmax);
 		U.resize(dmax);
 		p2c.resize(dmax);
-		I.resize(dmax);
 
 		// TODO: can parallelize this
 		for (size_t k = 0; k < dmax; k++) {
@@ -116,17 +116,16 @@ public:
 		algflag,
 		bats::clearing_flag
 	) {
-		size_t dmax = C.maxdim() + 1;
+		size_t dmax = C.maxdim() + 2;
 		dim = C.dim;
 		R.resize(dmax);
 		p2c.resize(dmax);
-		I.resize(dmax);
 
 		// do bottom dimension normally
 		R[0] = C.coboundary[0];
 		p2c[0] = reduce_matrix(R[0], algflag());
 		std::vector<size_t> clear_inds = get_clearing_inds(p2c[0]);
-		for (ssize_t k = 0; k < dmax; k++) {
+		for (size_t k = 1; k < dmax; k++) {
 			R[k] = C.coboundary[k];
 			p2c[k] = reduce_matrix_clearing(R[k], clear_inds, algflag());
 			clear_inds = get_clearing_inds(p2c[k]);
@@ -141,11 +140,10 @@ public:
 		algflag,
 		bats::compression_flag
 	) {
-		size_t dmax = C.maxdim() + 1;
+		size_t dmax = C.maxdim() + 2;
 		dim = C.dim;
 		R.resize(dmax);
 		p2c.resize(dmax);
-		I.resize(dmax);
 
 		// do top dimension normally
 		R[dmax-1] = C.coboundary[dmax-1];
@@ -195,12 +193,12 @@ public:
 	// put vector/matrix in homology-revealing basis in dimension k
 	template <typename TV>
 	inline TV to_hom_basis(const TV &v, size_t k) const {
-		return u_solve(U[k], v);
+		return u_solve(U[k+1], v);
 	}
 
 	template <typename TV>
 	inline TV from_hom_basis(const TV &v, size_t k) const {
-		return U[k] * v;
+		return U[k+1] * v;
 	}
 
 
@@ -215,7 +213,7 @@ public:
 			Iptr++;
 			i--;
 		}
-		return U[k][*Iptr];
+		return U[k+1][*Iptr];
 	}
 
 	// modify y in-place to be preferred representative for homology class in dimension k
@@ -224,25 +222,25 @@ public:
 		typename MT::col_type &y,
 		const size_t k
 	) const {
-		if (k == maxdim()) {
-			// all cycles generate homology, so nothing to do
+		if (k == 0) {
+			// there are no coboundaries, so nothing to do
 			return;
 		}
 		// else we need to find the preferred representative
 		// const ColumnMatrix<TVec> &bdry,
 		// const p2c_type &p2c
-		size_t j = R[k+1].nrow();
+		size_t j = R[k].nrow();
 		auto yit = y.upper_bound(j); // find iterator past last nonzero
 		while (yit != y.nzbegin()) {
 			--yit;
 			j = yit->ind;
 			// find if j is a pivot of bdry
 			// if (p2c[k+1].count(j) > 0) {
-			if (p2c[k+1][j] != bats::NO_IND) {
-				auto i = p2c[k+1].at(j);
+			if (p2c[k][j] != bats::NO_IND) {
+				auto i = p2c[k].at(j);
 
 				// form column i of boundary in homology revealing basis
-				auto bdri = u_solve(U[k], R[k+1][i]);
+				auto bdri = u_solve(U[k+1], R[k][i]);
 				auto ipiv = bdri.lastnz();
 				auto a = (yit->val) / ipiv.val;
 				y.axpy(-a, bdri);
-- 
2.43.0


From 918414403c55d0fcd9a44386c1362e162355c825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:20 +0000
Subject: [PATCH 36/47] fix: subdivision map of the Sierpinski diagram sends
 the third edge to its two halves

---
 include/topology/extras.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/extras.hpp b/include/topology/extras.hpp
index c9f52bf..7140205 100755
--- a/include/topology/extras.hpp
+++ b/include/topology/extras.hpp
@@ -101,7 +101,7 @@ Diagram<CellComplex, CellularMap> serpinski_diagram(
 
             col1[tri.ab] = Vint({t1.ab, t2.ab}, {1, 1});
             col1[tri.bc] = Vint({t2.bc, t3.bc}, {1, 1});
-            col1[tri.ca] = Vint({t2.ca, t1.ca}, {1, 1});
+            col1[tri.ca] = Vint({t1.ca, t3.ca}, {1, 1});
 
             tri_bdry.emplace_back(Vint({t1.bc, t2.ca, t3.ab}, {-1, -1, -1}));
         }
-- 
2.43.0


From 53b033308c7c72ef699b496d6686248c52c3406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:54 +0000
Subject: [PATCH 37/47] fix: tensor products of sparse vectors recursed without
 end, of matrices did not compile

---
 include/linalg/col_matrix.hpp    | 2 +-
 include/linalg/sparse_vector.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 68c7aed..75d2c4c 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -1078,7 +1078,7 @@ public:
 		std::vector<TC> newcol;
 		for (size_t i = 0; i < An; i++) {
 			for (size_t j = 0; j < Bn; j++) {
-				newcol.emplace_back(A[j].tensor(B[j]));
+				newcol.emplace_back(A[i].tensor(B[j], Bm));
 			}
 		}
 		return ColumnMatrix(Am * Bm, An * Bn, newcol);
diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 3cd3e88..3d215ff 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -1258,5 +1258,5 @@ public:
 		}
 		return SparseVector(nzs);
 	}
-	inline SparseVector tensor(const SparseVector& other, size_t m) const {return tensor(other, m);}
+	inline SparseVector tensor(const SparseVector& other, size_t m) const {return kron(other, m);}
 };
-- 
2.43.0


From 6f3d32d77c4891729d55d95e8f25b6382bef5be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:54 +0000
Subject: [PATCH 38/47] fix: SimplexContainer compared the number of stored
 vertices with the simplex size

---
 include/util/simplex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/util/simplex.hpp b/include/util/simplex.hpp
index ca60646..6de0c93 100755
--- a/include/util/simplex.hpp
+++ b/include/util/simplex.hpp
@@ -44,7 +44,7 @@ public:
 
     // emplace_back with vector
     void emplace_back(std::vector<size_t> &s) {
-        if (data.size() != k) {throw "unexpected simplex size!";}
+        if (s.size() != k) {throw "unexpected simplex size!";}
         for (auto i : s) {
             data.emplace_back(i);
         }
-- 
2.43.0


From ef2aa2b142fe44bb50b77b6273dd624509b2501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:14 +0000
Subject: [PATCH 39/47] fix: SetVector axpy with coefficient zero stored
 explicit zeros

---
 include/linalg/set_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/linalg/set_vector.hpp b/include/linalg/set_vector.hpp
index 3e920c9..dedac09 100755
--- a/include/linalg/set_vector.hpp
+++ b/include/linalg/set_vector.hpp
@@ -139,6 +139,7 @@ public:
         const TV &a,
         const SVT &x
     ) {
+        if (a == TV(0)) { return; } // zeros are not stored
 
         auto i1 = indval.begin();
         auto i2 = x.nzbegin();
@@ -180,6 +181,7 @@ public:
 		const TI &firstind,
 		const TI &lastind
 	) {
+		if (a == TV(0)) { return; } // zeros are not stored
 
 		// set i1 to find first ind >= firstind
 		auto i1 = indval.lower_bound(key_type(firstind, TV(0)));
-- 
2.43.0


From 7bd48d566a6ce576d55691786284e9a7e7f88eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:14 +0000
Subject: [PATCH 40/47] fix: infinite bars of integral filtrations died at 0

---
 include/persistence/barcode.hpp          | 7 +++++++
 include/persistence/extract.hpp          | 2 +-
 include/persistence/filtered_basis.hpp   | 4 ++--
 include/persistence/filtered_dgbasis.hpp | 4 ++--
 include/persistence/union_find.hpp       | 4 ++--
 5 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/persistence/barcode.hpp b/include/persistence/barcode.hpp
index 65309e7..81d31cf 100755
--- a/include/persistence/barcode.hpp
+++ b/include/persistence/barcode.hpp
@@ -3,9 +3,16 @@
 #include <string>
 #include <iostream>
 #include <vector>
+#include <limits>
 
 namespace bats {
 
+// death of bars that never die: infinity, or the largest value of types without infinity
+template <typename T>
+inline T infinite_death() {
+	return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max();
+}
+
 // store dimension, birth, death, and critical indices of pair
 template <typename T>
 struct PersistencePair {
diff --git a/include/persistence/extract.hpp b/include/persistence/extract.hpp
index 208f173..d6359ce 100755
--- a/include/persistence/extract.hpp
+++ b/include/persistence/extract.hpp
@@ -36,7 +36,7 @@ std::vector<PersistencePair<T>> extract_pairs(
         // infinite bar
         pairs.emplace_back(
           k, i, bats::NO_IND,
-          valsk[i], std::numeric_limits<T>::infinity()
+          valsk[i], infinite_death<T>()
         );
       } else {
         size_t j = p2c[i];
diff --git a/include/persistence/filtered_basis.hpp b/include/persistence/filtered_basis.hpp
index dd98c00..5b4b6f3 100755
--- a/include/persistence/filtered_basis.hpp
+++ b/include/persistence/filtered_basis.hpp
@@ -51,7 +51,7 @@ struct ReducedFilteredChainComplex {
 						// infinite bar
 						pairs.emplace_back(
 							PersistencePair<T>(k, i, bats::NO_IND,
-								val[k][perm[k][i]], std::numeric_limits<T>::infinity()
+								val[k][perm[k][i]], infinite_death<T>()
 							)
 						);
 					} else {
@@ -73,7 +73,7 @@ struct ReducedFilteredChainComplex {
 						// infinite bar
 						pairs.emplace_back(
 							PersistencePair<T>(k, perm[k][i], bats::NO_IND,
-								val[k][perm[k][i]], std::numeric_limits<T>::infinity()
+								val[k][perm[k][i]], infinite_death<T>()
 							)
 						);
 					} else {
diff --git a/include/persistence/filtered_dgbasis.hpp b/include/persistence/filtered_dgbasis.hpp
index c821ad9..7c3fc1c 100644
--- a/include/persistence/filtered_dgbasis.hpp
+++ b/include/persistence/filtered_dgbasis.hpp
@@ -48,7 +48,7 @@ struct ReducedFilteredDGVectorSpace {
 						// infinite bar.
 						pairs.emplace_back(
 							PersistencePair<T>(k, perm[k][i], bats::NO_IND,
-								val[k][perm[k][i]], std::numeric_limits<T>::infinity()
+								val[k][perm[k][i]], infinite_death<T>()
 							)
 						);
 					} else {
@@ -93,7 +93,7 @@ struct ReducedFilteredDGVectorSpace {
 								perm[k][i],
 								bats::NO_IND,
 								val[k][perm[k][i]],
-								std::numeric_limits<T>::infinity()
+								infinite_death<T>()
 							)
 						);
 					}
diff --git a/include/persistence/union_find.hpp b/include/persistence/union_find.hpp
index cabcf5a..a16b337 100644
--- a/include/persistence/union_find.hpp
+++ b/include/persistence/union_find.hpp
@@ -77,7 +77,7 @@ std::vector<PersistencePair<T>> union_find_pairs(
 			perm[0][k],
 			bats::NO_IND,
 			vals[0][perm[0][k]],
-			std::numeric_limits<T>::infinity()
+			infinite_death<T>()
 		));
 	}
 
@@ -200,7 +200,7 @@ std::vector<PersistencePair<T>> rips_union_find_pairs(
 			k,
 			bats::NO_IND,
 			0.0, // standard birth at 0.0
-			std::numeric_limits<T>::infinity()
+			infinite_death<T>()
 		));
 	}
 
-- 
2.43.0


From 8bbba1ab4717b72cc19a6d162ed72a80b15670d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:57 +0000
Subject: [PATCH 41/47] fix: Schur complement of an entry did not compile

---
 include/linalg/col_matrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 75d2c4c..e5dc4cb 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -858,10 +858,11 @@ public:
 	// schur complement of i,j entry
 	inline void schur_complement(size_t i, size_t j) {
 		auto a11 = col[j][i];
+		tmp_type tmp; // for use with axpy
 		for (size_t j1 = j+1; j1 < n; j1++) {
 			auto c = col[j1][i];
 			if (c != 0) {
-				col[j1].axpy(-c / a11, col[j], i+1, m);
+				col[j1].axpy(-c / a11, col[j], i+1, m, tmp);
 			}
 		}
 	}
-- 
2.43.0


From 46f9cd124eeec1f32aaf82a8a4d7efd2f2f22f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:10 +0000
Subject: [PATCH 42/47] fix: find_last_nz missed the last entries and stepped
 before the first

---
 include/linalg/sparse_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 3d215ff..4f7abf3 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -403,7 +403,7 @@ public:
 			key_type(i, TV(0))
 		);
 		// if there is no element with index < i, return pointer to end
-		return it == indval.cend() ? it : --it;
+		return it == indval.cbegin() ? indval.cend() : --it;
 		//return it--;
 	}
 
-- 
2.43.0


From 070499514dab514b0080a736cf3035cf7cdf70f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:53 +0000
Subject: [PATCH 43/47] fix: permuting the row basis of a chain map moved rows
 by the inverse permutation

---
 include/chain/chain_map.hpp | 2 +-
 include/dgvs/dgmap.hpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/chain/chain_map.hpp b/include/chain/chain_map.hpp
index e7ced88..23e969c 100755
--- a/include/chain/chain_map.hpp
+++ b/include/chain/chain_map.hpp
@@ -78,7 +78,7 @@ struct ChainMap {
     inline const TM& operator[](size_t k) const { return map[k]; }
 
     inline void permute_row_basis(size_t k, const std::vector<size_t> &p) {
-        map[k].permute_rows(bats::util::inv_perm(p));
+        map[k].permute_rows(p);
     }
 
     inline void permute_column_basis(size_t k, const std::vector<size_t> &p) {
diff --git a/include/dgvs/dgmap.hpp b/include/dgvs/dgmap.hpp
index d03082d..21b4567 100644
--- a/include/dgvs/dgmap.hpp
+++ b/include/dgvs/dgmap.hpp
@@ -53,7 +53,7 @@ struct DGLinearMap {
     inline const TM& operator[](ssize_t k) const { return map[k]; }
 
     inline void permute_row_basis(ssize_t k, const std::vector<size_t> &p) {
-        map[k].permute_rows(bats::util::inv_perm(p));
+        map[k].permute_rows(p);
     }
 
     inline void permute_column_basis(ssize_t k, const std::vector<size_t> &p) {
-- 
2.43.0


From c2d39dbf33e4df129633acc8a71b9f657673c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:24 +0000
Subject: [PATCH 44/47] fix: witness_edges within a radius did not compile

---
 include/topology/dowker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index 2972723..f722c99 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -170,7 +170,7 @@ std::vector<size_t> witness_edges(
     for (size_t i = 0; i < n; i++) {
         for (size_t j = 0; j < i; j++) {
 
-            intersect_sorted(nbrs[i], nbrs[j], intersection);
+            bats::util::intersect_sorted(nbrs[i], nbrs[j], intersection);
             if (intersection.size() > 0) {
                 edges.push_back(j);
                 edges.push_back(i);
-- 
2.43.0


From 9db4e5eda0b4142b3a4fa2211cc9fdfa8ad8b2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:10 +0000
Subject: [PATCH 45/47] fix: Span::contains wrote past its buffer and always
 answered true

---
 include/future/span.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/future/span.hpp b/include/future/span.hpp
index 5f1599b..cef3188 100755
--- a/include/future/span.hpp
+++ b/include/future/span.hpp
@@ -80,14 +80,14 @@ public:
 	// returns false if vector is not in span
 	template <typename TV>
 	bool contains(const TV &v) const {
-		std::vector<T> v_copy(dim());
+		std::vector<T> v_copy(vdim());
 
 		// put P^T*v in v_copy
 		gemv(Pt, v, v_copy);
 
 		l_residual(L, v_copy);
 
-		auto piv = find_pivot_high(v, vdim(), dim());
+		auto piv = find_pivot_high(v_copy, dim(), vdim());
 
 		// if v_copy has been zeroed out, then in span.
 		return piv == -1 ? true : false;
-- 
2.43.0


From 487b0b6ceb864b5ec23fe8321f95cf37af449ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:10 +0000
Subject: [PATCH 46/47] fix: LU of future::Matrix returned transposed
 permutations and left out the last column of tall matrices; l_solve ignored
 the residual

---
 include/future/lu.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/future/lu.hpp b/include/future/lu.hpp
index ee3f84c..44f52a9 100755
--- a/include/future/lu.hpp
+++ b/include/future/lu.hpp
@@ -35,6 +35,10 @@ bool l_solve(const MT &L, I1& y, I2& x) {
 		}
 	}
 
+	// consistent if nothing is left below the last column
+	for (size_t i = L.ncol(); i < L.nrow(); i++) {
+		if (y[i] != 0) {return false;}
+	}
 	return true;
 }
 
@@ -137,7 +141,7 @@ MT unit_lower(const MT &A) {
 	MT L = MT::identity(m);
 	// loop in row major order
 	for (size_t i = 1; i < m; i++) {
-		for (size_t j = 0; j < i; j++ ) {
+		for (size_t j = 0; j < i && j < n; j++ ) {
 			L(i,j) = A(i,j);
 		}
 	}
@@ -174,7 +178,7 @@ LUFact<MT> LU(const MT &A0) {
 	MT Q = MT::identity(n);
 	// maintain invariant P^T A Q^T
 
-	for (size_t k = 0; k < n-1; k++) {
+	for (size_t k = 0; k < n && k < m; k++) {
 		auto [mu, lam] = find_pivot_complete(A, k);
 		// do pivoting
 		A.swap_rows(k, mu);
@@ -195,7 +199,7 @@ LUFact<MT> LU(const MT &A0) {
 		}
 	}
 
-	return LUFact(P.transpose(), unit_lower(A), upper(A), Q.transpose());
+	return LUFact(std::move(P), unit_lower(A), upper(A), std::move(Q));
 }
 
 }
-- 
2.43.0


From 4af9a3286e2715713843e7c178676d7ca34f0c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:10 +0000
Subject: [PATCH 47/47] fix: postfix increments of strided and range iterators
 returned the advanced iterator; descending ranges were reversed

---
 include/future/dense.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/future/dense.hpp b/include/future/dense.hpp
index c0b4a45..cd4b447 100755
--- a/include/future/dense.hpp
+++ b/include/future/dense.hpp
@@ -47,9 +47,9 @@ public:
 	strided_iterator(T* v, ssize_t s) : pos_(v), stride_(s) {}
 	~strided_iterator() {}
 
-	iterator operator++(int) { return iterator(pos_+=stride_, stride_); } // postfix
+	iterator operator++(int) { iterator old(*this); pos_+=stride_; return old; } // postfix
 	iterator& operator++() {pos_+=stride_; return *this; } // prefix
-	iterator operator--(int) {return iterator(pos_-=stride_, stride_); } // postfix
+	iterator operator--(int) { iterator old(*this); pos_-=stride_; return old; } // postfix
 	iterator& operator--() {pos_-=stride_; return *this; } // prefix
 	reference operator*() const { return *pos_; }
 	pointer operator->() const { return pos_; }
@@ -79,9 +79,9 @@ public:
 	const_strided_iterator(const T* v, ssize_t s) : pos_(v), stride_(s) {}
 	~const_strided_iterator() {}
 
-	iterator operator++(int) { return iterator(pos_+=stride_, stride_); } // postfix
+	iterator operator++(int) { iterator old(*this); pos_+=stride_; return old; } // postfix
 	iterator& operator++() {pos_+=stride_; return *this; } // prefix
-	iterator operator--(int) {return iterator(pos_-=stride_, stride_); } // postfix
+	iterator operator--(int) { iterator old(*this); pos_-=stride_; return old; } // postfix
 	iterator& operator--() {pos_-=stride_; return *this; } // prefix
 	reference operator*() const { return *pos_; }
 	pointer operator->() const { return pos_; }
@@ -105,8 +105,6 @@ public:
 	range() : begin_(0), end_(0), stride_(0) {}
 	range(T b, T e) : begin_(b), end_(e), stride_(1) {
 		if (e < b) {
-			begin_ = e;
-			end_ = b;
 			stride_ = T(-1);
 		}
 	}
@@ -140,9 +138,9 @@ public:
 		const_iterator(const T v, const T s) : val_(v), stride_(s) {}
 		~const_iterator() {}
 
-		iterator operator++(int) { return iterator(val_+=stride_, stride_); } // postfix
+		iterator operator++(int) { iterator old(*this); val_+=stride_; return old; } // postfix
 		iterator& operator++() {val_+=stride_; return *this; } // prefix
-		iterator operator--(int) {return iterator(val_-=stride_, stride_); } // postfix
+		iterator operator--(int) { iterator old(*this); val_-=stride_; return old; } // postfix
 		iterator& operator--() {val_-=stride_; return *this; } // prefix
 		reference operator*() const { return val_; }
 		pointer operator->() const { return &val_; }
-- 
2.43.0

