"""Registry of the checks: property id -> harness files, bounds and budgets."""
COMMON_ASSUMPTIONS = [
    "clang 18 -O1 bitcode of the headers has the semantics of the build under test; sampled paths are replayed on a g++ build and compared",
    "heap allocation does not fail; the standard library is linked as bitcode or modelled (red-black tree and list hooks, iostreams, strtol/strtod)",
    "z3 4.8.12 and the engine's expression simplifier are trusted; every reported violation is reproduced on a native build before it counts",
]
CHECKS = {
    "C01": dict(harness=["field"], bounds=["P in {2,3,5,7}; ints in [-200,200]; rationals with |n|<=4, |d|<=3", "P in {2,3,5,7,11,13,31,101}; ints in [-200,200]; rationals with |n|<=7,|d|<=5"],
                outside="primes above 46340 (int overflow in products), rationals whose cross products overflow int"),
    "C02": dict(harness=["sparse_vec"], bounds=["vector length <= 4 over F3 (all ops) and F2 (axpy, algebra, row ops); all supports, values, permutations, index ranges; algebra of length 2 over F5; set vectors with 3 entries, repeated indices included, of length 3 over F2 and F3; larger, with fixed pseudo-random patterns and a few undetermined entries each: length 9 over F3 and F5 (6-12 patterns)", "length <= 5 over F2, F3, F5"]),
    "C03": dict(harness=["col_matrix"], bounds=["matrices up to 3x3 over F2, 2x3/3x2 over F3; all entries, permutations, positions; row and column scaling of 2x2 over F5; equality of all pairs of shapes up to 3x2 over F2, 2x2 over F3; Kronecker products 2x2 by 2x2 and 1x3 by 3x1 over F2; Schur complements of 3x3 (F2), 2x3 (F3), 2x2 (F5); larger, with fixed pseudo-random patterns and a few undetermined entries each: up to 6x5 over F3, products 5x7x6 over F2, 4x6x5 over F3 (2-12 patterns)", "up to 4x3 over F2, 3x3 over F3, 2x2 over F5"]),
    "C05": dict(harness=["factor"], bounds=["matrices up to 3x3, 4x2, 2x4 over F2, 2x3, 3x2 over F3, 2x2 over F5, all entries; triangular systems of size 4 (F2), 3 (F3); larger, with fixed pseudo-random patterns and a few undetermined entries each: 5x6, 7x4 over F2, 5x5, 4x6 over F3, triangular systems of size 6, commutations 5x6 over F3, 6x4 over F5 (8-20 patterns)", "up to 3x4, 4x3 (4x4 inverse) over F2, 3x3 over F3"]),
    "C06": dict(harness=["reduction"], bounds=["matrices 3x4 and 4x3 over F2, 2x3, 3x2 over F3, 2x2 over F5, all entries; composable pairs with cell counts (3,3,2), (2,3,3) over F2, (2,2,2) over F3; larger, with fixed pseudo-random patterns and a few undetermined entries each: 6x8 over F2, 5x6 over F3, 4x5 over F5, pairs (5,7,6) over F2, (4,6,5) over F3 (4-8 patterns)", "4x4, 3x5 over F2, 3x3 over F3, 2x3 over F5; pairs (3,3,3), (2,4,2) over F2, (2,3,2) over F3"]),
    "C07": dict(harness=["homology"], bounds=["all chain complexes with cell counts (3,3,2), (2,3,3), (2,2,2,2), (3) over F2 and (2,2,2) over F3; nine flag groups; additionally (1,2,2), (2,2) over F5; larger, with fixed pseudo-random patterns and a few undetermined entries each: (5,8,5) over F2, (4,6,5,3) over F3 (6 patterns)", "additionally (3,4,2), (3,3,3), (2,3,3,2) over F2 and (2,3,2) over F3"]),
    "C08": dict(harness=["parallel"], omp=True, bounds=["3x4, 2x5 over F2, 2x3 over F3, all entries; block sizes 1-3, recursion depth 0-2, 1-3 threads; conflicting accesses of unordered tasks are races; 2x2 over F5; larger, with fixed pseudo-random patterns and a few undetermined entries each: 6x11 over F2, 5x9 over F3 (4-6 patterns)", "additionally 3x5 over F2, 2x4 over F3, 2x2 over F5"], outside="block sizes of 256 and 1024 columns used by the public flag (their recursion is exercised with small blocks)"),
    "C09": dict(harness=["reps"], bounds=["complexes (2,3,2), (3,3), (2,2,2) over F2 and (2,2,2) over F3 with every chain of the dimension, six basis flags; (1,2,1), (2,2) over F5; larger, with fixed pseudo-random patterns and a few undetermined entries each: (5,8,4) over F2, (4,6,4), (6,5) over F3 (6 patterns)", "additionally (3,3,3), (2,4,2) over F2, (2,3,2), (3,3) over F3, (1,2,2) over F5"]),
    "C12": dict(harness=["induced"], bounds=["all chain maps between complexes (2,2,1)->(2,2,1), (1,2,2)->(1,2,1) over F2, (1,2)->(2,1) over F3; compositions on (2,2); five basis flags; (1,2)->(1,2), (2,1)->(2,1) over F5; maps from (1), (1,1) into (3,1), (3,2), (4,1), (4,2) over F2, (3,1) over F3; larger, with fixed pseudo-random patterns and a few undetermined entries each: (4,5,3)->(3,5,2) over F2, (3,4,2)->(4,4,2) over F3, compositions on (4,5,2), (3,4) (4-6 patterns, maps drawn from the whole space of chain maps)", "additionally (2,3,1)->(2,2,1), (2,2,1)->(2,3,2) over F2, (1,2,1) over F3"]),
    "C13": dict(harness=["persist"], bounds=["filtered complexes with cell counts (2,2,1) with 3 filtration levels, (2,3), (1,2,2) with 2 levels over F2 and (2,2,1) over F3 with 2 levels, all boundary matrices and all monotone values; simplicial filtrations on 3 vertices; five flag groups; (2,2), (1,2,1) over F5; integral values on (2,2,1) over F2 and (2,2) over F3; larger, with fixed pseudo-random patterns and a few undetermined entries each: (5,7,4) over F2, (4,5,4) over F3 with 4 levels, 2-complexes on 5 vertices (4-6 patterns)", "additionally (2,3,2), (3,3,1), (2,2,2,1) over F2 and (2,2,2) over F3, 4 vertices"]),
    "C14": dict(harness=["filtupdate"], bounds=["complexes with cell counts (2,2,1), (2,3), (3) over F2, (2,2) over F3, every pair of monotone value assignments with 2 levels, four basis flags, two successive updates; general updates between every pair of complexes on 3 vertices (F2); (1,2) over F5; larger, with fixed pseudo-random patterns and a few undetermined entries each: (5,6,3) over F2, (4,4,3) over F3 with 3 levels, general updates between 2-complexes on 5 vertices (3-8 patterns)", "additionally (2,2,2), (2,2,1) over F3, 3 levels, missing vertices with triangles, 4 vertices"], outside="general updates over fields other than F2 (the update information carries no signs), larger complexes"),
    "C11": dict(harness=["chaincpx"], bounds=["all complexes with cell counts (2,3,1), (3,2), (3) over F2 and (2,2,1) over F3 with all permutations per dimension; all closed sub-complexes of (3,2,1) over F2 and (2,2,1) over F3; tensor products (2,2)x(2,1) over F2, (2,1)x(1,2), (1,2,1)x(1,1) over F3; permuted bases of all chain maps (2,1)->(3,1), (3)->(3) over F2, (1,2)->(1,2), (1)->(3) over F3; larger, with fixed pseudo-random patterns and a few undetermined entries each: (4,6,4) over F2, (4,5,3) over F3, products (2,3,2)x(3,3,1) and (3,3,2)x(2,3,2) (6-8 patterns)", "additionally (2,2,2,2), (3,3,1) over F2, (2,2,2) over F3; products up to (2,2,1)x(2,2,1)"]),
    "C25": dict(harness=["perm"], bounds=["vectors of length 0, 3, 4 with values 0..5 and any order pattern; all permutations and index subsets of 4", "length 5"]),
    "C26": dict(harness=["utils"], bounds=["all pairs of subsets of 4 elements with all bounds; sum-reduction of 3 pairs; all sequences of 3 trie operations over 6 keys and two tries; 3 additions to a container of simplices, 2 temporaries in a trie", "5 elements; 4 pairs; 4 operations"]),
    "C15": dict(harness=["simplicial"], bounds=["all sequences of 3 insertions on 3 vertices and 2 on 4 vertices (any vertex order, plain and recursive); all pairs of complexes on 3 vertices; chain complexes of all graphs on 4 vertices with every sub-complex, all complexes on 3 vertices (F3); products of all graphs / 2-complexes on 3 vertices with graphs on 2; 2 insertions of directed or degenerate simplices (repeated vertices) of dimension up to 2 on 2-3 vertices", "3 insertions on 4 vertices, pairs on 4 vertices, all complexes on 4 vertices, larger products"]),
    "C16": dict(harness=["light"], bounds=["keys of all edges on 7 and triangles on 5 vertices; faces of all simplices of dimension up to 3 on 5 vertices; 3 insertions on 3 vertices, 2 on 4; complexes on 4 vertices (graphs over F3, with two triangles over F2) and on 3 vertices", "keys of tetrahedra on 6, triangles on 30 vertices, 3 insertions on 4 vertices, all complexes on 4 vertices"], outside="vertex counts whose powers overflow the index type"),
    "C19": dict(harness=["maps"], bounds=["all vertex maps between all complexes on 3 vertices (both representations), 2-complexes to graphs on 2 vertices; all compositions of maps on 3 vertices; inclusions and relative inclusions of all complexes on 3 vertices (F3) and sub-graphs of the 4-cycle (F2), in several orders", "maps from 2-complexes on 4 vertices, compositions on 4 vertices, inclusions of all graphs on 4 vertices"]),
    "C17": dict(harness=["cubical"], bounds=["all sequences of 3 insertions of cubes of the 2x2 grid and of the line on 3 vertices, 2 insertions in the 2x2x2 grid; every input vector with entries 0..3 in 1 and 2 directions; all unions of cells of the 3x3 grid (squares and border edges) and of faces of a cube", "4 insertions on 2x2, 2 on 3x3, 3 directions of inputs, 4x4 grid, generated cube of size 3"]),
    "C18": dict(harness=["cell"], bounds=["all integral cell complexes with counts (2,2,1) and coefficients -1..1 over F3, (2,2), (1,2,2) and coefficients -2..2 over F2; 2-cells attached along all words of length 4 in 2 loops (F2), 3 (F3); (2,2) with coefficients up to 3 over F5", "counts (2,3,1), coefficients up to 3 over F5, 3 loops"]),
    "C20": dict(harness=["flag"], bounds=["all graphs on 3 and 4 vertices (both complex types), all edge orders and orientations on 3 vertices and on a 5-edge graph on 4; weighted graphs with ties; all symmetric 3x3 and 4x4 distance matrices with small integer entries and every radius; all point sets of 3 points on a line, 2 in a plane grid", "all graphs on 5 vertices, all edge orders on 4, 4 points on a line, 3 in a plane grid"], outside="non-integral coordinates and square roots that are not exact (Euclidean distances in the plane)"),
    "C35": dict(harness=["filtration"], bounds=["all sequences of 2 additions (plain or recursive) on 3 vertices and 3 on 2 vertices with any values; all filtrations of all complexes on 3 vertices with 2 levels and every threshold, all vertex functions with 3 values; unions of all pairs of complexes on 3 vertices; cubical grids of two squares with any vertex function", "3 additions on 3 vertices, 2 on 4 vertices, filtrations on 4 vertices"]),
    "C24": dict(harness=["unionfind"], bounds=["all graphs on up to 3 vertices with 3 filtration levels (and ties), a 4-cycle's sub-graphs with 2 levels, 2-complexes on 3 vertices; squareform indices of up to 20 points; all distances on 3 points with 4 values and 4 points with 2 values, in every compatible order; all sequences of 4 edges on 5 vertices", "5-edge graphs on 4 vertices with 3 levels, index pairs of up to 60 points, 4 points with 4 values"]),
    "C04": dict(harness=["csc"], bounds=["matrices up to 3x2 over F2, 2x3 over F3, 2x2 over the integers with entries -3..3, columns listed in any of three row orders, all ordered row and column selections; products 2x2x2 (integers, F3), 2x3x2 (F2); larger, with fixed pseudo-random patterns and a few undetermined entries each: 6x5 over F3, 5x6 over the integers, products 5x6x4, 4x5x5 (8-12 patterns)", "3x3 selections, products up to 3x3x2 over F2, 2x3x2 over the integers"], outside="the triangular solve trilu, which does not compile when used"),
    "C10": dict(harness=["dgvs"], bounds=["complexes (2,2,2), (3,2,1), (3) over F2, (2,2,1), (2,2) over F3, degrees -1 and +1, augmented or not, seven flag groups, all permutations, all chains of one dimension; filtrations with 2 levels of (2,2,1), (1,2,2) over F2 and (2,2) over F3; every pair of value assignments on (2,2,1), (3), (3,1) over F2, (2,2) over F3; updates between all pairs of filtered complexes on 3 vertices (over F3, general ones over F2); (2,2), (1,2,1), (1,2) over F5; larger, with fixed pseudo-random patterns and a few undetermined entries each: (4,6,3), (4,5,3) over F2, (3,5,3), (3,4,2) over F3 with 3 levels (4 patterns)", "additionally (3,3,1), (2,3,2), (2,3,1) over F2, (2,3,1), (2,2,1) over F3, augmented updates with missing vertices and triangles"], outside="general updates (Update_info) over fields other than F2, larger complexes"),
    "C22": dict(harness=["zigzag"], bounds=["every interval assignment (all weak orders of entry and removal values) on graphs with 2 vertices and one edge; fixed vertices with 3-5 levels on all complexes on 3 vertices (F2) and all paths (F3, all vertex intervals, 3 levels); up to two intervals per cell; chain complexes (2,2), (1,1,2) with any boundary matrix over F2; a square; two additions; all level sets and vertex functions within these sizes; larger, with fixed pseudo-random patterns and a few undetermined entries each: chain complexes (4,6,3), (3,4,3,2) over F2 with 3-4 levels and up to two intervals per cell (8 patterns)", "up to 5 levels on triangles, 4-cycles, triangles with two intervals per edge, (2,2), (1,2,2) chain complexes, three additions"], outside="intervals of one cell that touch or overlap; order of bars with equal endpoints"),
    "C34": dict(harness=["levelset"], bounds=["all images of 2x2x1, 1x2x2, 2x1x2 and 2x2x2 pixels with values -2..2 (no path split); window diagrams of 2x1x1 images; all triples of subsets of 3 elements; all pairs of complexes on 3 vertices in any storage order; all grids of side 2-3, all sub-ranges of 3x2x2 with at most one flat direction, all unions of 1-2 cubes", "window diagrams of 2x2x1 images, subsets of 4 elements, pairs on 4 vertices, ranges of 3x3x2"]),
    "C23": dict(harness=["quiver"], omp=True, bounds=["all arrow directions and all matrices for dimensions (2,2), (2,1,2), (2,2,2), (1,2,2,1) over F2, (2,2), (1,2,1), (1,1,1,1,1) over F3, with zero spaces; divide and conquer on 6 spaces of dimension 1 (all directions), (1,1,2,2,1,1) and 7 spaces (fixed directions) on 4 threads, unordered conflicting accesses being races; two stacked dimensions; (1,2), (1,1,1), (2,2) over F5; nested divide and conquer on 12 spaces of dimension 2 and spaces of dimension 3 (permutations, in all directions)", "(2,2,2,1), (3,2,3), (1,2,1,1) over F3, all directions of (1,1,2,2,1,1), 12 spaces (two levels of recursion) on 4 and 8 threads"], outside="diagrams without arrows"),
    "C21": dict(harness=["covers"], omp=True, bounds=["nerves of all covers by 3 sets of 3 points and 4 sets of 2 points, dimensions 0-3; all pairs of covers by 2 sets; all integer distance tables of 3 landmarks and 2-3 witnesses with values 0..2, every radius, nu in 0..2, every cover by 2 sets; intervals covers of 3 points with 1-4 sets; all covers of 3 points by 2 sets with every integer metric table; witnessed edges of 3 landmarks and 2 witnesses, 2 and 3","covers by 5 sets, 4 landmarks, 3 witnesses with values 0..3, 4 points"], outside="StrictWitnessComplex (its neighbourhoods are of landmarks, the intended cover is not documented), non-integral distances"),
    "C33": dict(harness=["metric"], omp=True, bounds=["L1 and L-infinity of all integer points with coordinates up to 20 (solver) in dimension 1-2, Euclidean, cosine and angle metrics of all integer points of a small grid in dimension 2-3; neighbourhoods and k nearest neighbours of 2-3 points with every distance table, 1-3 threads; landmarks of 3-4 points with every distance table including duplicates","coordinates up to 30, 4 points with distances up to 4, grids of side 9"], outside="rounding of non-integral coordinates"),
    "C32": dict(harness=["functors"], omp=True, bounds=["all triangles f, g, gf of simplicial maps between graphs on 2-3 vertices (F2) and between circles in three storage orders (F3), homology and cohomology; refinements of all covers by 2-3 sets of 2 points; Rips diagrams of all pairs of subsets of 3 points with every distance table and pair of radii; 1-2 threads, conflicting accesses being races","all self maps of 2-complexes on 3 vertices with all storage orders, 4 points, 3 threads"]),
    "C29": dict(harness=["dense"], bounds=["layouts: all 2x3 matrices over F3; factorizations: all 3x3, 2x3 and 3x2 matrices over F2 and 2x2 over F3; products 2x2x2, 1x2x2 over F3, 2x2x3 over F2; triangular solves of order 3 with 1 and 2 with 2 right hand sides over F3, order 2 over F5; commutations with all echelon forms of shapes 2x3, 3x2 over F2, 2x2 over F3; all four layouts; views of 2x2 matrices with integral entries up to 3", "factorizations of 3x4 and 3x3 over F2, 2x3 and 3x2 over F3 in all layouts; commutations of shape 3x3 over F3"]),
    "C30": dict(harness=["pid"], bounds=["integers -7..7 (extended Euclid); integer matrices 2x2, 1x3, 3x1 with entries -2..2 and 2x3 with entries -1..1; polynomials over F2 of degree up to 2 and over F3 of degree up to 1-2; 2x2 polynomial matrices over F2 of degree 1; rational canonical bases of all 2x2 matrices over F2 and F3 and all 3x3 matrices over F2; companion matrices over F3 of degree up to 3", "integers -25..25; 2x2 with entries -4..4, 3x2 and 3x3 with entries -1..1; polynomials of degree 3 over F2 and 2 over F3; 2x2 polynomial matrices over F3; rational canonical bases of 2x2 over F5"]),
    "C28": dict(harness=["ez"], bounds=["pairs of complexes on 2-3 vertices of dimension 1-2 (vertices and simplices stored in any of three orders), maximal dimension 1-3, over F2 and F3, both simplicial representations; Kronecker products of 3-vertex graphs and of a triangle complex with an interval; relative pairs of intervals over F3 and of a graph and an interval over F2 with all subcomplexes", "two 2-dimensional complexes on 3 vertices up to dimension 4, graphs on 4 vertices over F5, relative pairs of 3-vertex complexes"]),
    "C27": dict(harness=["morse"], bounds=["histories of 5 additions to an empty complex on 2 vertices, of 1-3 additions to partly built complexes on 3-4 vertices up to dimension 3; all graphs with 3-4 vertices and 2-3 edges with ranks (ties); 3 explicit pairs", "4 additions on 3 vertices, 3 on 4 vertices; 3-4 edges on 4 vertices"]),
    "C31": dict(harness=["io"], bounds=["complexes on 3-4 vertices in three storage orders; matrices 2x2, 3x1, 1x3 over the integers, F2, F3, rationals and doubles with halves, empty shapes; inclusion maps of graphs on 2-3 vertices; diagrams with up to 3 nodes and 2 edges; files of 1-2 cubes, 2-3 points in all listed formats; three command line arguments","all complexes on 4 vertices, entries -2..2, 2-dimensional maps, 2 squares, 3 points in the plane"], outside="numbers of more than 6 significant digits (text output precision), malformed numbers, unreadable files other than missing ones"),
    "C36": dict(harness=["cochain"], bounds=["cochain complexes with cell counts (2,3,2), (3,3), (2,2,2) over F2 and (2,2,2), (2), (2,2) over F3, seven flag groups, all cochains of the smaller ones; all chain maps (2,2,1)->(2,2,1), (1,2,2)->(1,2,1) over F2, (1,2)->(2,1) over F3; all complexes on 3 vertices with all permutations per dimension; (1,2,1), (1,2) over F5; larger, with fixed pseudo-random patterns and a few undetermined entries each: (4,6,4) over F2, (3,5,4,2) over F3, maps (4,5,3)->(3,5,2) over F2, (3,4,2)->(4,4,2) over F3 (6 patterns)", "additionally (3,3,2), (2,2,2,2) over F2, (2,3,2) over F3; maps (2,3,1)->(2,2,1) over F2, (2,2)->(2,1) over F3"], outside="compression with basis (not offered for cochain complexes)"),
    "C37": dict(harness=["zoo"], bounds=["all distance tables on up to 3 points with values 0..4 and 4 points with values 1..2 (oscillating) or 1..3 (Morozov), multipliers 1-3 and 1, 10; products of up to 3 points; three levels of subdivision", "4 points with values 0..4, 5 points with values 1..2, four levels of subdivision"], outside="multipliers that are not integers; randomly generated samples"),
    "C38": dict(harness=["barcode"], bounds=["all pairs of barcodes with up to 3 bars, 2 dimensions, values 0..1 (2 bars: 0..2) and infinite deaths; extraction from all reduced matrices of complexes (2,3,1), (2,2,2) over F2, (2,2,1) over F3 with 2 levels; comparison of all pairs of filtrations of (2,2,1) over F2 and (2,2) over F3; larger, with fixed pseudo-random patterns and a few undetermined entries each: (4,6,4), (3,5,3) over F2, (4,5,3), (3,4,2) over F3 (6-8 patterns)", "4 bars; (3,3,1) with 3 levels, (2,2,2) over F3; comparisons on (2,3,1), (2,2,1) over F3"]),
    "C39": dict(harness=["future"], bounds=["matrices in both storage orders: access and views 2x2 over F3, 3x2 over F2, 2x3 over F3; histories of 1-2 elementary operations on 2x2, 2x1; products up to 2x2x2; LU of all shapes up to 2x3, 3x2 over F3, 3x3, 3x4 over F2 and empty ones; triangular systems up to 3x3 over F3; spans of 2 vectors in F3^2, 3 in F2^3 with membership; similarity histories of 2 operations (2x2, F3), 1 (3x3, F2); composites of 3 swaps of 3 elements; ranges between -2 and 3; larger, with fixed pseudo-random patterns and undetermined entries: LU 5x5 over F3 and 6x4 over F2, 4 vectors in F3^4, operations on 4x3", "LU 3x3 over F3, 4x4 over F2; 3 operations (2x2, F2), 2 (2x2, F3); spans in F3^3, F2^4; similarity 3x3 over F3, two operations over F2; 4 elements"]),
}
