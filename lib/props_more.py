p("C08", "Parallel and divide-and-conquer reduction is race free and matches sequential", "Reducing the blocks of a matrix in parallel tasks, in any schedule and with any block size or recursion depth, yields a reduced matrix with the same pivots as the sequential reduction, and no two unordered tasks touch the same memory with one of them writing.",
  ["inputs", "interleavings"], "all matrices within the bounds, all task orders (conflict detection over unordered tasks), several block sizes and depths", "tests run one schedule on matrices smaller than one block, so the parallel path never splits", [I + "homology/parallel.hpp", I + "homology/reduction.hpp"], "OpenMP tasks over column blocks followed by a finishing sequential pass")
p("C09", "Homology representatives and preferred representatives are consistent", "Under every algorithm keeping a basis, the generators returned are cycles spanning homology, finding the preferred representative of a cycle changes it only by a boundary and leaves support on generator indices in the reported basis, is zero exactly for boundaries, and is idempotent and linear in the class.",
  ["inputs", "configurations"], "all complexes and chains within the bounds", "tests compute representatives of single fixed cycles", [I + "homology/basis.hpp"], "back substitution with U and clearing of pivots by reduced boundary columns")
p("C12", "Induced maps on homology are well defined and functorial", "For chain maps between complexes, the induced map on homology has one column per generator of the source and one row per generator of the target, its rank equals the rank of the map on homology, it represents F of each source generator modulo boundaries, the identity induces the identity, and composition is preserved under every algorithm flag that keeps a basis.",
  ["inputs", "configurations"], "all chain maps within the bounds", "tests compute a few induced maps of sub-complex inclusions", [I + "homology/induced_map.hpp", I + "homology/basis.hpp", I + "chain/chain_map.hpp"], "map of representatives followed by preferred representative lookup")

how("C01", "Symbolic operands in each modulus; every operator is compared with int arithmetic reduced mod p, inverses and quotients by cross-multiplication, zero division by expecting the exception. Rationals are compared by cross products in 64 bit.")
how("C02", "Symbolic supports and values make every interleaving of the merge loops a path; the result is compared entry by entry with the dense vector and checked for sortedness and absence of zeros.")
how("C03", "All entries symbolic; each operation's dense counterpart is computed in plain ints. Shape (declared rows and columns, well-formed columns) is asserted after every operation.")
how("C05", "The product of the returned factors is multiplied densely and compared with the input; factor shapes and pivot counts against dense rank; solves are substituted back.")
how("C06", "The pivot pairing is unique for left-to-right reductions, so it is compared with ranks of lower-left blocks of the dense matrix; R = B U by dense multiplication. Clearing and compression run on composable symbolic pairs (the second factor ranges over kernel coordinates).")
how("C07", "Complexes are parametrised by kernel coordinates, so every complex with the given cell counts is a model. Betti numbers against dense ranks, generator sets against the pairing, generators as cycles independent modulo boundaries.")
how("C08", "The OpenMP outlined functions are executed; tasks are strands with happens-before tracking, so a conflict between unordered tasks is found in one schedule and holds for all; the result is compared with the sequential pairing.")
how("C09", "Symbolic complex and symbolic chain; the class condition is a dense rank statement.")
how("C12", "Chain maps enter as symbolic matrices constrained by the commutation equation (assumption decided by the solver); the induced map is checked on classes by rank modulo boundaries, composition by matrix equality.")

p("C11", "Chain complex operations preserve the complex and its maps", "Permuting bases by any permutations and back restores a chain complex, permuted complexes are conjugates by the permutation matrices, sub-complexes and relative complexes have the promised cells and boundary and the long exact sequence's Euler characteristic, chain maps permuted along with the bases of both complexes are still chain maps, and tensor products satisfy the Leibniz rule with boundary of boundary zero and the Kunneth Betti numbers.",
  ["inputs"], "all complexes, permutations, sub-complexes and factor pairs within the bounds", "tests build a few fixed complexes; dimension-zero complexes and permutations per dimension are untested", [I + "chain/chain_complex.hpp", I + "chain/chain_map.hpp", I + "linalg/col_matrix.hpp"], "vector of boundary matrices permuted, sliced and combined")
p("C13", "Persistence pairs are the barcode of the filtration under every flag", "For every filtered complex, the persistence pairs under every algorithm, optimization and basis flag combination reproduce every persistent Betti number, pair births with critical cells at their own filtration values, never die before birth, and use every cell exactly once as a birth or a death; bars that never die have infinite death (the largest value of types without infinity).",
  ["inputs", "configurations"], "all filtered complexes (all boundary matrices and all monotone value assignments, ties included) within the bounds", "tests compare flag variants with each other on random Rips filtrations and so share any common error; ties and non-simplicial boundaries are not sampled", [I + "persistence/filtered_basis.hpp", I + "persistence/barcode.hpp", I + "filtration/filtration.hpp", I + "chain/filtered_chain_complex.hpp", I + "homology/reduction.hpp"], "sorting cells by value, conjugating boundary matrices, then reduction")
p("C14", "Updating a persistence computation equals recomputing it from scratch", "After changing the filtration values of a reduced filtered complex, or moving to another filtration with cells inserted and deleted, the updated reduction has the persistence pairs of the new filtration and still satisfies boundary times basis = reduced matrix, also after several successive updates.",
  ["inputs", "histories"], "all pairs of monotone values on all bounded complexes and all pairs of bounded simplicial filtrations, sequences of two updates", "tests update a few random filtrations with complexes of dimension at least one; the identity permutation hides inverse mistakes", [I + "persistence/filtered_basis.hpp", I + "chain/filtered_chain_complex.hpp", I + "chain/chain_complex.hpp", I + "filtration/update_information.hpp", I + "homology/basis.hpp"], "permutations and insertions applied to R and U followed by re-reduction")
p("C25", "Sorting, permutation and index utilities are exact", "Stable sort permutations sort their data and keep ties in order, applying a permutation and its inverse in every provided form restores the data, partial permutations extend index sets bijectively, and permutation composition and inversion agree with function composition.",
  ["inputs"], "all data orders, permutations and index subsets of the bounded length", "tests try single permutations, most of them involutions for which direction mistakes cancel", [I + "util/permutation.hpp", I + "util/common.hpp"], "in-place cycle following and index vectors")
p("C26", "Set, sorted-list and trie utilities agree with their mathematical meaning", "Intersections (bounded and unbounded), unions and sum reductions of sorted lists are exactly the set operations with sorted output, searches return the first qualifying element or none, and tries behave as maps under every sequence of insertions, lookups, copies and assignments without sharing nodes.",
  ["inputs", "histories"], "all pairs of subsets with every bound, all sequences of bounded length of trie operations", "tests check fixed lists; copy-assignment aliasing and bounds hitting the first element are untested", [I + "util/sorted.hpp", I + "util/set.hpp", I + "util/trie.hpp"], "merge loops and pointer trees")
how("C11", "Complexes are parametrised by kernel coordinates and permutations are symbolic; conjugation, cell counts and Leibniz rule are checked on dense matrices, Betti numbers by dense rank.")
how("C13", "Boundary matrices and monotone values are symbolic (ties included); the pairs are compared with the ranks of all inclusion-induced maps computed densely for every pair of levels.")
how("C14", "Both filtrations are symbolic; after each update the pairs are compared with persistent Betti numbers of the new filtration and R = D U is multiplied out densely.")
how("C25", "Symbolic data and permutations; the defining equation of each utility is asserted position by position.")
how("C26", "Symbolic subsets and symbolic operation sequences against a bit-set and an array model; memory errors are detected by the engine's object table.")

p("C15", "Simplicial complexes hold exactly the simplices inserted, closed under faces", "Under every sequence of insertions (any vertex order, plain or recursive) a simplicial complex contains exactly the inserted simplices whose faces are present, indices returned are stable and looked up correctly, a refused insertion changes nothing, and boundaries are alternating sums of faces; vertex order counts for directed simplices, and simplices with repeated vertices keep their own faces. Unions, intersections, relative chain complexes and triangulated products are the ones their definitions say.",
  ["inputs", "histories"], "all insertion sequences, pairs of complexes and vertex orders within the bounds", "tests insert fixed complexes in sorted order, never after a refused insertion and never with permuted sub-complexes", [I + "complex/simplicial_complex.hpp", I + "chain/chain_complex.hpp", I + "util/trie.hpp"], "trie from vertex lists to indices with flat face arrays")
p("C16", "Light simplicial complexes agree with the trie based ones", "Integer keys identify simplices uniquely and are decoded exactly, faces are enumerated forwards and backwards in order without reading outside the tables, and a light complex holding the same simplices has the same indices, boundaries up to an overall sign per dimension, homology and products as the trie based complex.",
  ["inputs", "histories"], "all sorted vertex lists below the vertex bound (solver), all insertion sequences and complexes within the bounds", "tests build a few Rips style light complexes; keys of arbitrary simplices are not exercised", [I + "complex/light_simplicial_complex.hpp"], "positional number system for vertex lists and hash tables per dimension")
p("C17", "Cubical complexes hold exactly the cubes inserted with the right boundary", "Under every sequence of insertions a cubical complex contains exactly the valid cubes whose faces are present, refuses vectors that are not cubes, leaves no trace of refused cubes, and its boundary has the two opposite faces in each non-degenerate direction with opposite signs so that boundary of boundary is zero. Skeletons and inclusions are exact and components and Betti numbers are right.",
  ["inputs", "histories"], "all insertion sequences on small grids and all short input vectors", "tests add two or three cubes", [I + "complex/cubical_complex.hpp", I + "complex/cubical_map.hpp"], "interval vectors in a trie with flat face arrays")
p("C18", "Cell complexes over the integers reduce correctly to every coefficient field", "A cell complex built from arbitrary attaching chains, listed in any order and with repeated faces, reports the cells added, and its chain complex over any prime field is the attaching matrix reduced mod p with well-formed columns, so that Betti numbers are those of the integral complex tensored with the field.",
  ["inputs"], "all integral complexes within the coefficient and size bounds, in all face orders", "tests use cells with coefficients plus or minus one in sorted order, so coefficients divisible by the characteristic never occur", [I + "complex/cell_complex.hpp", I + "linalg/csc_matrix.hpp", I + "linalg/sparse_vector.hpp"], "compressed attaching chains converted to sparse columns")
p("C19", "Simplicial, cubical and inclusion maps induce chain maps functorially", "For every vertex map whose images are simplices of the target, the cellular map sends each simplex to its image with the sign of the sorting permutation, or to zero if degenerate, commutes with boundaries and composes like the vertex maps. Maps with images outside the target are refused, and absolute and relative inclusions in any cell order are chain maps of the right shape.",
  ["inputs"], "all vertex maps between all small complexes in both representations, all nested pairs", "tests use a few inclusions with identical cell order", [I + "complex/simplicial_map.hpp", I + "complex/cell_map.hpp", I + "complex/cubical_map.hpp", I + "chain/chain_map.hpp", I + "util/simplex.hpp"], "lookup of mapped vertex lists and permutation signs")
how("C15", "Operation sequences are symbolic; a list-of-simplices model gives the expected contents, indices and boundaries after each operation. Homology and relative complexes are checked on dense boundary matrices.")
how("C16", "Keys are decided by the solver over all vertex lists; operation sequences and complexes against the same list model as C15.")
how("C17", "Symbolic cube sequences against an explicit list of cubes; validity over fully symbolic vectors; components by merging.")
how("C18", "Attaching matrices are symbolic integers constrained to compose to zero over Z; the chain complex is compared entrywise with the residues and homology with dense ranks.")
how("C19", "Vertex maps are symbolic; the expected integral matrix is computed from the vertex lists, the chain map equation by dense multiplication.")

p("C20", "Flag and Rips complexes hold exactly the cliques, valued by their longest edge", "For every graph given by edges in any order and orientation and every maximal dimension, the flag complex has exactly the cliques up to that dimension, each once and after its faces. Flag and Rips filtrations give each simplex the largest value of its edges and vertices the start value, store cells in filtration order, and the extension names an edge of the simplex attaining its value. Rips complexes of a distance matrix or of points hold exactly the simplices of diameter at most the radius.",
  ["inputs"], "all graphs, edge orders, weights with ties and integer distance matrices within the bounds, in both simplicial representations", "tests build a few Rips complexes of random points and count cells", [I + "topology/flag.hpp", I + "filtration/flag.hpp", I + "topology/rips.hpp", I + "topology/metric.hpp"], "incremental clique enumeration by sorted neighbour intersections")
p("C24", "Union-find computes the 0-dimensional barcode", "For every filtration of a complex, whatever order its cells are stored in, union-find returns one bar per vertex born at its value, the finite bars ending at edges at their values, and the same pairs as the matrix reduction. The Rips version agrees with the connected components of every threshold graph, and condensed distance indices decode to the right pair of points.",
  ["inputs"], "all filtered graphs and all orders of distances within the bounds", "no test runs union-find; precision, unsorted storage and ties are not exercised anywhere", [I + "persistence/union_find.hpp", I + "chain/filtered_chain_complex.hpp"], "parent vector with path compression and the elder rule")
p("C35", "Filtrations record added cells and values; sublevel sets, extensions exact", "Under every sequence of additions a filtration contains exactly the cells its complex accepted with the values given, a refused cell changes nothing, copies are independent, the union of two filtrations holds the cells of both, sublevel sets contain exactly the cells with value at most the threshold, and lower-star extensions give each simplex or cube the largest vertex value and name a vertex attaining it.",
  ["inputs", "histories"], "all addition sequences, thresholds and vertex functions within the bounds for simplicial, light and cubical complexes", "tests add cells in face order with increasing values only", [I + "filtration/filtration.hpp", I + "filtration/extension.hpp"], "values stored by cell index next to a complex")
how("C20", "Graphs, edge orders, weights, distance matrices and integer points are symbolic; the cliques and their values are enumerated from the adjacency matrix.")
how("C24", "Values are symbolic with ties; bars are compared with dense persistent Betti numbers and with the reduction; Rips bars with components merged by hand.")
how("C35", "Operation sequences with symbolic values against a list-of-simplices model with values.")

p("C04", "Compressed sparse column matrices select, multiply and add exactly", "Building a compressed sparse column matrix from columns in any row order gives sorted columns and exactly the given entries; element access, sub-matrices for any ordered row and column selections, block selections into one or several row blocks, products, sums and scaled sums equal their dense counterparts, keep row indices sorted and store no zeros in products and sums, and conversion to a column matrix over a field keeps every entry modulo the characteristic.",
  ["inputs"], "all entries, row orders of the input and ordered selections of the bounded sizes", "tests multiply two fixed matrices; empty columns, unsorted selections and several row blocks are not exercised", [I + "linalg/csc_matrix.hpp", I + "linalg/col_matrix.hpp"], "column pointers built incrementally, row indices kept sorted")
how("C04", "Entries, input row order and selections are symbolic; every result is read back column by column and compared with the dense operation, including column pointers, sortedness and stored zeros.")

p("C10", "Cohomology and graded vector spaces: same barcode, valid bases, exact updates", "For homology and cohomology type, plain or augmented, the differentials of a graded vector space compose to zero and are permuted consistently; under every flag combination the reduction gives the (reduced) Betti numbers, factors exactly, and its representatives are cocycles spanning cohomology with a canonical preferred representative per class; persistence pairs equal the barcode of the filtration; and after new filtration values or an update to another complex (insertions, deletions, permutations) the state equals a recomputation.",
  ["inputs", "configurations", "histories"], "all complexes, filtrations, permutations and pairs of filtered complexes within the bounds, both degrees, with and without augmentation", "tests compare Betti numbers and barcodes of random Rips filtrations; representatives in cohomology, augmentation and insertion of vertices are not exercised", [I + "dgvs/dgvs.hpp", I + "dgvs/filtered_dgvs.hpp", I + "homology/dgbasis.hpp", I + "persistence/filtered_dgbasis.hpp", I + "filtration/update_information.hpp"], "index shift by degree, reversal of cell orders for cohomology, factorization updates")
how("C10", "Complexes (augmented ones with edges in the kernel of the augmentation), values, permutations and pairs of simplicial filtrations are symbolic; differentials are compared with dense transposes in the stored cell order, B U = R by dense multiplication, pairs with dense persistent Betti numbers.")

p("C22", "Zigzag barcodes are those of the homology of the changing complex", "For every complex whose cells enter and leave (also repeatedly) at any values with ties, each face being present while its cofaces are, the zigzag barcode has exactly the bars of the zigzag of homology groups of the complexes present at and between the critical values, with entry endpoints closed on the left and removal endpoints closed on the right, critical cells entering or leaving at the endpoints, for every maximal dimension and reduction flag. Recorded intervals, level sets and the extension of vertex functions are exact, and refused cells change nothing.",
  ["inputs", "histories", "configurations"], "all interval assignments with ties on the bounded complexes; both preparation orders (simplicial and general); both reductions", "tests run one zigzag of a circle; repeated cells, ties, single-face columns and level sets at endpoints are not exercised", [I + "zigzag/zigzag_filtration.hpp", I + "zigzag/reduction.hpp", I + "zigzag/extension.hpp"], "columns ordered by removal time, incremental factorization of induced maps")
how("C22", "Entry and removal values are symbolic (enough levels for every weak order), presence patterns follow from the path; the number of bars containing each span of positions is compared with the rank of limit to colimit of the homology zigzag computed with bit masks from cycles and boundaries.")
p("C23", "Quiver barcodes decompose every sequence of linear maps exactly", "For every sequence of vector spaces joined by linear maps in any directions, the barcode computed by the rightward sweep, the leftward sweep and (in any thread schedule, without data races) by divide and conquer contains each interval as often as the decomposition of the representation does; every barcode form has at most one nonzero entry per row and column; stacked diagrams give the bars of each dimension.",
  ["inputs", "schedules", "configurations"], "all matrices and arrow directions of the bounded dimensions over F2 and F3, zero spaces included", "tests compare two sweeps on identity-like chains; mixed directions, singular maps and the parallel algorithm are not exercised", [I + "quiver/sparse.hpp", I + "linalg/sparse_fact.hpp"], "LEUP/PUEL/PLEU/UELP factorizations passed along the quiver, commutation of triangular factors")
how("C23", "Matrices and directions are symbolic; the multiplicity of every interval comes from the rank of limit to colimit computed densely; OpenMP tasks are executed with happens-before tracking.")
p("C34", "Image zigzags, window diagrams, Mayer-Vietoris maps and grids are exact", "Every cube of an image zigzag is present from the smallest to the largest value of the pixels around it; window diagrams hold the level sets with inclusion maps in zigzag order; diagrams of unions and intersections of sets hold the sets with inclusion maps between neighbours; the Mayer-Vietoris matrix is the boundary of the part in A restricted to the intersection in any storage order; grid triangulations, sub-ranges and triangulated cubical complexes have exactly the simplices of monotone vertex chains in their cubes.",
  ["inputs"], "all images, windows, subsets, pairs of complexes, grid sizes and ranges within the bounds", "no test covers these constructions", [I + "topology/levelset.hpp", I + "topology/inclusion.hpp", I + "topology/mayer_vietoris.hpp", I + "topology/grid.hpp"], "explicit case lists over cube directions and index arithmetic")
how("C34", "Pixel values, subsets, complexes, ranges and cubes are symbolic; intervals are compared with the pixels around each cube, simplices with the monotone chains of grid points, matrices with boundaries restricted by name.")

p("C21", "Covers, nerves, Dowker and witness complexes hold exactly the right simplices", "The nerve of a cover up to a dimension holds exactly the sets of cover elements with a common point; bivariate covers list exactly the nonempty intersections with their projections; Dowker filtrations enter an edge at the least largest distance to a common witness; witness complexes subtract the nu-th nearest landmark (with multiplicity) and strong witness complexes hold the simplices of nearest landmarks whose faces they hold; landmark, eps and interval covers assign exactly the right points; Rips filtrations in a cover hold the cliques of edges (or the simplices) inside cover sets, valued by their longest edge.",
  ["inputs"], "all covers, distance tables with ties, radii, nu and dimensions within the bounds", "no test builds a witness complex from more than one point per landmark, and ties never occur in random data", [I + "topology/nerve.hpp", I + "topology/cover.hpp", I + "topology/dowker.hpp", I + "topology/dowker_cover.hpp", I + "topology/rips_cover.hpp", I + "topology/neighborhood.hpp", I + "util/sorted.hpp"], "recursive intersections of sorted sets, flag filtrations of derived distances")
how("C21", "Covers and distance tables are symbolic (a metric reading a symbolic table between numbered points); simplices are compared with the defining condition on every vertex subset.")
p("C33", "Metrics, neighbourhoods and landmarks agree with their definitions", "Every metric gives the same, defined value through all its interfaces (two points, point to set, set to set), angles being numbers for parallel and opposite vectors; neighbourhoods within a radius and k nearest neighbours are exact for every point under any thread schedule; greedy landmarks start at the seed, are distinct, each farthest from those before, with the Hausdorff distance of every prefix, and end for duplicated points; Hausdorff landmarks cover within the radius.",
  ["inputs", "schedules"], "all integer points and distance tables (with ties and duplicates) within the bounds and all schedules of the parallel loops", "tests use random points in general position, where ties, duplicates and parallel vectors have probability zero", [I + "topology/metric.hpp", I + "topology/neighborhood.hpp", I + "topology/landmark.hpp", I + "topology/density.hpp", I + "topology/data.hpp"], "CRTP metrics over views of rows, max-min selection")
how("C33", "Coordinates and distance tables are symbolic integers in doubles; metrics with square roots are evaluated on solver-enumerated grid points; parallel loops run with happens-before race detection.")
p("C32", "Functors on diagrams act on every node and edge and preserve composition", "Applying the nerve, Rips, chain, homology or (contravariant) cohomology functor to a diagram preserves its graph (reversing it for cohomology), gives every node its complex or homology and every edge the induced map, in one or all dimensions, so that edges of a commuting triangle compose; radii decreasing along an edge are refused with an exception, and nodes without edges are handled; the parallel loops are free of data races.",
  ["inputs", "schedules"], "all commuting triangles of simplicial maps, refinements of covers and nested subsets with radii within the bounds, all schedules", "tests run diagrams of random subsets and look at barcodes only; non-injective maps and edges listed out of order do not occur", [I + "multigraph/functors.hpp", I + "multigraph/diagram.hpp", I + "homology/induced_map.hpp", I + "dgvs/dgmap.hpp"], "OpenMP loops over nodes and edges calling the object-level functor")
how("C32", "Complexes, vertex maps, covers, distances and radii are symbolic; ranks of edges are compared with dense ranks of the induced maps and the composite edge with the product.")

p("C29", "Dense matrices factor, solve, commute and multiply exactly in all layouts", "In row-major, column-major and both reversed layouts every accessor, row and column view, transposed or rotated view and copy of a dense matrix shows the same entries; products (also in place) equal the mathematical ones; each of the four factorizations returns factors of the promised shapes (unit or non-unit triangular, echelon of the right rank, permutation) whose product is the matrix, leaving the argument unchanged; triangular solves solve; commuting a triangular past an echelon matrix keeps the product; nothing outside a matrix is read.",
  ["inputs", "configurations"], "all matrices over F2, F3 and F5 of the bounded shapes in all four layouts, rank-deficient and zero ones included", "tests factor random square matrices, which have full rank and never reach the end of a zero block", [I + "linalg/naive_dense.hpp", I + "linalg/matrix_interface.hpp"], "layout types transformed at compile time, one factorization reused through views")
how("C29", "Entries are symbolic field elements; views and results are read back and compared with dense integer arithmetic modulo p; bounds of every access are checked by the engine.")

p("C27", "Morse pairings pair each cell at most once, with an incident cell", "Under every sequence of additions (with or without pairing, refused or repeated cells included), explicit pairs and merges, a Morse pairing keeps every cell in at most one pair, pairs only existing incident cells, pairs a new cell exactly when it has an unpaired face, pairs an edge exactly when it joins two components, the component with the younger (higher ranked) oldest vertex dying, and keeps flags, pair lists and lists of unpaired cells consistent; clearing restores the initial state.",
  ["inputs", "histories"], "all histories, graphs and ranks with ties within the bounds", "no test uses Morse pairings", [I + "morse/pairing.hpp", I + "complex/simplicial_complex.hpp"], "flags next to pair lists, union-find for edges")
how("C27", "Operations, edges and ranks are symbolic; pairs are compared with a list model and components merged by hand.")
p("C28", "Eilenberg-Zilber maps are chain maps onto the triangulated product", "For all simplicial complexes X and Y (in both representations, whatever the storage order), over every field the Eilenberg-Zilber construction gives the tensor product of the chain complexes, the complex of all products of simplices up to the dimension, and a map sending a product of simplices to the signed sum of its shuffles that commutes with boundaries; relative versions quotient by the right cells and induce isomorphisms on homology; Kronecker products of cycles are cycles whose classes form a basis (Kunneth).",
  ["inputs", "configurations"], "all pairs of complexes (and subcomplexes) within the bounds over F2 and F3", "no test builds an Eilenberg-Zilber map; over F2 wrong signs are invisible", [I + "topology/eilenberg_zilber.hpp", I + "complex/simplicial_complex.hpp", I + "chain/chain_complex.hpp", I + "chain/chain_map.hpp"], "recursive shuffles, index shifts of direct sums")
how("C28", "Simplices, subcomplexes and storage order are symbolic; tensor boundaries, shuffles and ranks are computed densely and compared entrywise.")
p("C30", "Smith forms, polynomials and rational canonical bases are exact", "Over the integers and over polynomial rings of prime fields, extended Euclid returns a unimodular transformation with the gcd and cofactors; Smith factorizations multiply back to the matrix with unimodular factors and a diagonal in which every entry divides the next, and all three Smith routines agree up to units; polynomials form a ring with division with remainder, gcd and evaluation at scalars and matrices; companion and characteristic matrices are right; in the rational canonical basis a matrix is the block sum of the companion matrices of its invariant factors.",
  ["inputs"], "all integer and polynomial matrices within the bounds, zero and singular ones and repeated entries included", "no test covers these routines; multiples of the pivot and freed iterators need particular entries", [I + "linalg/pid.hpp", I + "linalg/polynomial.hpp", I + "linalg/rcf.hpp", I + "linalg/col_matrix.hpp", I + "linalg/sparse_vector.hpp"], "two-sided elimination with extended Euclid")
how("C30", "Entries and coefficients are symbolic (integer matrices split by value); results are compared with reference integer and polynomial arithmetic: products, determinants, adjugates, divisibility.")
p("C31", "Saved objects read back unchanged", "A simplicial complex, sparse matrix or vector (over integers, prime fields, rationals or floating point numbers), cellular map, simplex or diagram written to a file or stream is read back as the same object with the same indices, whatever its shape (empty columns, no rows, no cells) and also after another object in the same stream; lists of cubes and point clouds are read line by line with the right shape, points keeping their rows when lines are ragged; missing files give empty objects; command line values come from the first matching argument or the default.",
  ["inputs"], "all objects and file contents within the bounds", "no test reads a file back", [I + "complex/simplicial_complex.hpp", I + "complex/cell_map.hpp", I + "complex/cubical_complex.hpp", I + "linalg/col_matrix.hpp", I + "linalg/sparse_vector.hpp", I + "linalg/abstract_vector.hpp", I + "multigraph/diagram.hpp", I + "topology/data.hpp", I + "util/simplex.hpp", I + "util/io.hpp"], "hand written comma separated formats parsed line by line")
how("C31", "Objects and file contents are symbolic (enumerated by the solver before they become text); files live in an in-memory model of streams, replays use real files in a scratch directory of their own.")

p("C36", "Cochain complexes compute cohomology with representatives and induced maps", "The cochain complex of a complex has the transposed boundary matrices as coboundaries; for every cochain complex and reduction flag the dimension of cohomology in every degree is the number of cochains minus the ranks of the two adjacent coboundaries; the preferred representatives are cocycles forming a basis modulo coboundaries, every cocycle's preferred representative is cohomologous to it and a fixed point; changing to the cohomology basis and back is the identity; induced maps carry classes to the classes of the pulled back cocycles; permutations of bases move rows and columns alike and are undone by their inverses.",
  ["inputs", "configurations"], "all cochain complexes, chain maps, cochains and permutations of the bounded sizes over F2 and F3, six groups of flags", "no test builds a cochain complex", [I + "chain/cochain_complex.hpp", I + "homology/cohom_basis.hpp", I + "homology/induced_map.hpp", I + "homology/reduction.hpp"], "degree shifts between coboundary, basis and pivot arrays")
how("C36", "Coboundary entries, chain maps, cochains and permutations are symbolic; dimensions, cocycles and classes are compared with dense ranks modulo p.")

p("C37", "Zigzags of samples, products and subdivisions are built as defined", "The oscillating and discrete Morozov zigzags of a point set start at an approximate center, grow by farthest points to the whole set, alternate a set with the next one by inclusion maps, and carry radii that are the multiples of the covering radius of the smaller set (the Morozov zigzag keeping exactly the prefixes at which the covering radius has dropped by the factor); their Rips complexes are the cliques at those radii with inclusions between them; a smaller second multiplier is required. Product spaces hold every pair once; intervals are equally spaced; each Sierpinski subdivision has one loop per small triangle and maps to the next by a chain map that keeps loops independent.",
  ["inputs", "configurations"], "all distance tables with ties and duplicates, multipliers, coordinates and levels within the bounds", "no test builds these constructions", [I + "topology/zigzag_zoo.hpp", I + "topology/landmark.hpp", I + "topology/extras.hpp", I + "topology/data_gen.hpp"], "index sequences of nested sets, hand written subdivision matrices")
how("C37", "Distances and multipliers are enumerated by the solver (they are multiplied by non-integers), coordinates symbolic; covering radii, cliques and inclusions are recomputed from the tables; chain map equations hold over the integers.")

p("C38", "Barcodes compare as multisets and are read off reductions exactly", "Two barcodes compare equal exactly if they hold the same bars (dimension, birth, death) with the same multiplicities in any order; lengths, midpoints and accessors of ordinary and zigzag bars are right; the bars extracted from reduced boundary matrices pair every positive cell once with the cell that kills its class or with infinity, with their filtration values; two persistence reductions are reported equal exactly if ordered boundaries and barcodes agree, whatever algorithm computed them; numbers of nonzeros are those of the factors.",
  ["inputs", "configurations"], "all pairs of barcodes with ties, repeated and infinite bars, all filtered complexes of the bounded sizes", "tests compare barcodes that are equal, never ones that differ in one multiplicity", [I + "persistence/barcode.hpp", I + "persistence/extract.hpp", I + "persistence/filtered_basis.hpp", I + "zigzag/reduction.hpp"], "sorting bars by several keys, comparing as lists")
how("C38", "Bars are symbolic; multiplicities are counted by hand; pairs of reductions are compared with persistent Betti numbers of dense ranks and the standard pairing.")
p("C39", "Experimental dense matrices, LU, spans and similarities are exact", "The dense matrices of bats::future show the same entries through elements, strided row and column views, index views and copies in both storage orders, and swaps, additions, scalings, growth and products equal the mathematical ones; complete-pivoting LU of a matrix of any shape returns permutations and unit-lower and upper triangular factors whose product is the matrix, with as many pivots as its rank; triangular solves leave the residual and report consistency; a span accepts a vector exactly if it is new, and membership and dimension are exact after every addition; similarity transforms keep A0 = S A S^-1; swaps compose in order and ranges list their values.",
  ["inputs", "histories"], "all matrices, vectors and histories of operations within the bounds in both storage orders", "no test includes these headers; the demo prints one square example", [I + "future/dense.hpp", I + "future/lu.hpp", I + "future/span.hpp", I + "future/similarity.hpp", I + "future/permutation.hpp", I + "future/util.hpp"], "strided views over one vector, in-place elimination with recorded pivots")
how("C39", "Entries, vectors, operations and storage order are symbolic; results are read back entry by entry and compared with dense integer arithmetic modulo p (products, ranks).")
