#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: python3 tools/props.py > properties.jsonl"""
import json

P = []


def p(id, title, statement, over, quant, tests, files, mech, observe, hook=None, state=None):
    a = {"files": files,
         "mechanism": [{"name": m.split(" @ ")[0], "where": m.split(" @ ")[1]} for m in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant},
              "why_tests_cant": tests, "anchors": a})


LA = "src/arithmetic/linear_algebra.rs"
MA = "src/arithmetic/matrices.rs"
GE = "src/arithmetic/geometry.rs"
MO = "src/arithmetic/modular_solver.rs"
LT = "src/spacegroups/lattices.rs"
BA = "src/spacegroups/basics.rs"
PO = "src/spacegroups/parse_operator.rs"
PT = "src/spacegroups/parse_table.rs"
FI = "src/spacegroups/finder.rs"
TY = "src/spacegroups/types.rs"
DA = "src/data/sgtable.data"
PA = "src/partitions.rs"
PG = "src/pgraphs.rs"
SY = "src/symmetries.rs"
CL = "src/io/parse_cgd_line.rs"
CB = "src/io/parse_cgd_blocks.rs"

# ---------------------------------------------------------------- arithmetic
p("C01", "Determinant and rank are exact",
  "For every square matrix over exact rationals or machine integers (results and intermediate values in range), the determinant equals its algebraic definition, for every size including 0x0 and sizes above 3. For every rectangular matrix the rank is the true rank, so a square matrix has determinant zero exactly when its rank is deficient.",
  ["inputs"], "all matrices up to 6x6 (determinant) and 6x7 (rank), including rank-deficient, zero-row, permuted and negative ones, over BigRational, i64, i32 (and f64 for well-conditioned input up to rounding)",
  "the tests evaluate a dozen fixed matrices of size at most 4; the branch for size >= 4, row insertion with sign changes and rank-deficient shapes are hit by one identity matrix",
  [LA], ["LinearAlgebra::determinant / rank @ " + LA, "extend_basis (sign bookkeeping on insertion) @ " + LA],
  ["LinearAlgebra::determinant", "LinearAlgebra::rank"])
p("C02", "Linear systems are solved exactly, or reported unsolvable",
  "For matrices A and B with equally many rows, solving A X = B returns some X with A X = B exactly whenever a solution exists in the scalar type (rationals, or integers for integer matrices), and reports none otherwise. A square matrix has an inverse exactly when it is invertible over that scalar type, and then the result is a two-sided inverse.",
  ["inputs"], "all A (up to 5x5, any shape and rank) and B (several right-hand sides), solvable and unsolvable, over BigRational and i64/i32",
  "the tests solve four 2x2 systems; under-/over-determined, rank-deficient, integer-unsolvable and multi-column systems are not covered",
  [LA], ["LinearAlgebra::solve / inverse, Scalar::solve_row @ " + LA],
  ["LinearAlgebra::solve", "LinearAlgebra::inverse"])
p("C03", "The null space is complete and independent",
  "For every matrix A the null space result N satisfies A N = 0, its columns are linearly independent and there are exactly (columns of A minus rank of A) of them; none is returned exactly when A has full column rank. For integer matrices the columns of N generate every integer solution of A x = 0.",
  ["inputs"], "all matrices up to 5x6 of every rank, over BigRational and i64",
  "the tests look at two 2x2 matrices and one 1x3 row",
  [LA], ["LinearAlgebra::null_space @ " + LA], ["LinearAlgebra::null_space"])
p("C04", "Row bases span exactly the given rows and reduce canonically",
  "Feeding vectors one at a time, in any order, into an incremental basis always leaves an echelon basis of exactly the row space (over the rationals) or row lattice (over the integers) of the vectors fed so far. The reduced basis of a matrix depends only on that row space or lattice: two matrices whose rows generate the same space or lattice have identical reduced bases.",
  ["histories", "inputs"], "all sequences of up to 8 vectors of dimension up to 5, repeated, dependent and permuted, over BigRational and i64/i32; pairs of matrices related by invertible (unimodular) row operations",
  "the tests follow one sequence of three vectors and three fixed reduced bases; canonicity under a change of generators is never tested",
  [LA], ["extend_basis, Scalar::clear_column @ " + LA, "LinearAlgebra::reduced_basis, Scalar::normalize_column / reduce_column @ " + LA],
  ["extend_basis", "LinearAlgebra::reduced_basis"])
p("C05", "Matrix operations agree with their entrywise definitions",
  "Building, indexing, stacking, slicing, reshaping and transposing matrices, and adding, subtracting, negating, scaling, dividing and multiplying them in any of the owned, borrowed and in-place operator forms, give exactly the entries of the textbook definition and the right shape; exactly the square identity matrices are recognised as identities. Operands of incompatible shape are refused with a panic rather than producing a result.",
  ["inputs"], "all shapes up to 5x6 and all entries in range, integers and rationals, including mismatched shapes and out-of-range indices and every operator form",
  "the tests use 2x2 and 2x3 examples; mismatched shapes and out-of-range indices are not tested",
  [MA], ["Matrix operators and constructors @ " + MA], ["Matrix public API"])
p("C06", "Row reduction and inversion modulo a prime are correct",
  "For every integer matrix, including negative entries and entries larger than the modulus, reduction modulo a prime yields the reduced row echelon form of that matrix over the prime field, with all entries in the canonical range. A modular inverse of a number or matrix is returned exactly when one exists, and multiplies back to one or the identity modulo the prime. Products of reduced matrices modulo a prime are exact.",
  ["inputs"], "all integer matrices up to 5x6, of any rank, with entries of either sign and of any size relative to the modulus, and primes from 2 to 2^31 - 1",
  "there are no unit tests of this file at all; it is only exercised indirectly through a few barycentric placements",
  [MO], ["modular_row_echelon_form, modular_matrix_inverse, modular_inverse, modular_matrix_product @ " + MO],
  ["modular_solver public functions"])
p("C07", "The p-adic solver returns the exact rational solution",
  "For every invertible integer matrix A and integer right-hand sides B, the solver returns the unique rational X with A X = B, exactly, however large its numerators and denominators are and whatever primes divide the determinant of A. It reports no solution exactly when A is singular.",
  ["inputs"], "all integer systems up to 8x8 with entries up to about 10^6 (small, graph Laplacian-like, and adversarial: determinant divisible by the working prime, zero and very large right-hand sides)",
  "no direct tests; barycentric placements in other tests only need denominators below 10 and a single p-adic step",
  [MO], ["solve: p-adic lifting, number_of_p_adic_steps_needed, rational_reconstruction @ " + MO], ["modular_solver::solve"])
p("C08", "Affine maps form a group acting on points and vectors",
  "Composition of affine maps is associative, has the identity as neutral element, and applying a composite equals applying its factors in turn; an inverse exists exactly when the linear part is invertible and undoes the map on both sides. Points are transformed with the shift, vectors without it, so the image of a difference of points is the difference of their images.",
  ["inputs"], "all affine maps in dimensions 1 to 4 with rational coefficients, singular ones included, and all points and vectors",
  "the tests compose two fixed plane maps with floating point coefficients",
  [GE], ["AffineMap Mul / inverse / identity, Point and Vector arithmetic @ " + GE], ["geometry::AffineMap, Point, Vector"])
p("C09", "Coordinate changes are consistent for every kind of object",
  "Transforming to other coordinates and back restores every point, vector, scalar product and affine map, and transforming with a composite coordinate map equals transforming in two steps. The transformation commutes with geometry: scalar products of transformed vectors are unchanged, and the transform of the image of a point or vector under an affine map is the image of its transform under the transformed map; maps built to or from a basis send basis vectors to unit vectors and back.",
  ["inputs"], "all invertible rational coordinate maps in dimensions 1 to 4, all points, vectors, positive definite scalar products and affine maps",
  "the tests use two fixed 2d coordinate maps, mostly rotations by 90 degrees, for which transposes and inverses coincide",
  [GE], ["CoordinateMap Mul impls, inverse, from_basis, to_basis @ " + GE], ["geometry::CoordinateMap, ScalarProduct"])
p("C10", "Exactly the symmetric positive definite matrices are scalar products",
  "A matrix is accepted as a scalar product exactly when it is square, symmetric and positive definite, and is refused with a panic otherwise. The resulting product is the bilinear form of the matrix: bilinear, symmetric, and positive on non-zero vectors.",
  ["inputs"], "all rational matrices in dimensions 1 to 5: positive definite, semidefinite, indefinite with any leading minors, almost symmetric",
  "the tests try one good and two bad 2x2/3x3 matrices",
  [GE], ["From<Matrix> for ScalarProduct, ScalarProduct::apply @ " + GE], ["geometry::ScalarProduct"])
p("C11", "Reduction modulo the integer lattice is canonical",
  "Reducing a vector or the shift of an affine map modulo integer translations yields coordinates in the half-open interval from 0 to 1, differs from the input by an integer vector, and leaves linear parts alone. Two vectors or maps that differ by integer translations therefore always reduce to equal results, whatever their signs.",
  ["inputs"], "all rational vectors and affine maps in dimensions 1 to 4, positive, negative and integral coordinates alike",
  "no test reduces a negative coordinate",
  [GE], ["ModZ for Vector and AffineMap @ " + GE], ["ModZ::mod_z"])
# ---------------------------------------------------------------- lattices
p("C12", "Lattice reduction returns a shortest basis of the same lattice",
  "For every basis of a 2- or 3-dimensional lattice and every positive definite inner product, the reduced basis generates exactly the same lattice and its vectors, in order, have the smallest possible lengths (the successive minima). Every later vector makes a non-acute angle with the first.",
  ["inputs"], "all bases (integer and rational, arbitrarily skewed) in dimensions 1 to 3 and all positive definite inner products",
  "the tests reduce one basis per dimension with the standard inner product and check pairwise signs only",
  [LT], ["reduced_lattice_basis, lagrange_reduced, selling_reduced @ " + LT], ["lattices::reduced_lattice_basis"])
p("C13", "Shifting into the Dirichlet domain lands nearest the origin",
  "For every point and every lattice given through its Dirichlet vectors, the computed shift is a lattice vector, and the shifted point is at least as close to the origin as any other lattice translate of the point. The computation terminates for every exact input.",
  ["inputs"], "all rational points (near, far away and on cell boundaries), lattices in dimensions 1 to 3 and positive definite inner products",
  "the tests shift one point per dimension in the unit square/cube lattice",
  [LT], ["shift_for_dirichlet_domain @ " + LT], ["lattices::shift_for_dirichlet_domain"])
p("C14", "Rational lattice basis generates exactly the extended lattice",
  "Given any non-empty set of rational vectors, the returned vectors form a basis of exactly the lattice generated by the integer lattice together with the given vectors: as many as the dimension, linearly independent, generating every given and every unit vector and nothing more.",
  ["inputs"], "all non-empty lists of up to 6 rational vectors in dimensions 1 to 4 with common denominator up to a few thousand, any sign, dependent or repeated",
  "not tested directly; used through minimal images of two graphs",
  [LT], ["rational_lattice_basis @ " + LT, "extend_basis over integers @ " + LA], ["lattices::rational_lattice_basis"])
p("C15", "Dirichlet vectors bound the Voronoi cell",
  "For every basis of a 2- or 3-dimensional lattice and every positive definite inner product, the Dirichlet vectors are lattice vectors, exactly one (up to sign) for each non-trivial class of the lattice modulo its doubles, each of minimal length in its class. Hence a point is at least as close to the origin as to every other lattice point exactly when it passes the half-plane test of these vectors alone.",
  ["inputs"], "all bases and inner products in dimensions 2 and 3, including degenerate ones with right angles and equal lengths",
  "no test looks at the set of Dirichlet vectors",
  [LT], ["dirichlet_vectors, lagrange_reduced, selling_reduced @ " + LT], ["lattices::dirichlet_vectors"])
p("C16", "A partition tracks exactly the equivalences it was told",
  "After any sequence of unite and find operations, two elements have the same representative exactly when they are linked by a chain of unite operations, and a representative is always a member of its own class. Class listing splits any list of elements into exactly these classes, keeping first-occurrence order, and looking things up never changes any answer.",
  ["histories"], "all interleavings of up to 60 unite/find/classes operations over up to 40 elements, long chains and balanced trees alike",
  "one test runs a single fixed sequence of six unite operations",
  [PA], ["Partition::find/unite/classes with path compression and union by rank @ " + PA], ["partitions::Partition"],
  state=[("rank, parent, index", "union-find forest behind an UnsafeCell, mutated by find(&self)", PA)])
# ---------------------------------------------------------------- graphs
p("C17", "A periodic graph does not depend on how its edges are listed",
  "Listing the same edges in any order, in either direction, or more than once produces the same graph: identical printed form, vertices, directed edges and incidences. Each vertex's incidences list every incident edge exactly once per end, starting at that vertex, with its reverse listed at the other end.",
  ["inputs"], "all 2- and 3-periodic edge lists (loops with non-zero shift, parallel edges, arbitrary vertex numbers, disconnected graphs) under all reorderings, reversals and duplications",
  "the graph tests read a few hand-written edge lists in one order only",
  [PG], ["Graph::new, Edge::canonical, vertices, incidences, directed_edges @ " + PG], ["Graph public queries"])
p("C18", "Barycentric placement puts every vertex at its neighbours' centre",
  "For every periodic graph with connected quotient, each vertex position is the exact average of the positions of its neighbours (counting every incident edge), with edge vectors derived consistently from positions and shifts. This holds exactly, whatever the number of spanning trees of the quotient graph or size of the shifts.",
  ["inputs"], "all connected 2- and 3-periodic quotient graphs up to 12 vertices, any shifts up to 10^5, multigraphs and graphs whose spanning-tree number is divisible by the solver's prime included",
  "tests place about ten small textbook nets",
  [PG, MO], ["barycentric_placement, position, edge_vector @ " + PG, "modular_solver::solve @ " + MO], ["Graph::position", "Graph::position_normalized", "Graph::edge_vector"])
p("C19", "Coordination sequences count the true topological shells",
  "For every vertex of every periodic graph the k-th term of the coordination sequence is the number of vertices of the infinite graph at distance exactly k from it. The sequence does not depend on vertex numbering, lattice basis or choice of vertex representatives.",
  ["inputs"], "all 2- and 3-periodic graphs up to 7 vertices and 14 edges (connected or not), all vertices, first 8 shells or more",
  "tests compare the first ten terms for a handful of nets",
  [PG], ["CoordinationSequence iterator @ " + PG], ["Graph::coordination_sequence"])
p("C20", "Connectivity and component measures are exact",
  "For every periodic graph and start vertex, the reported component size, rank and multiplicity equal the number of vertices in the quotient component, the dimension of the component's periodicity, and, for full rank, the number of disjoint translates needed to cover all its copies. A graph is called connected exactly when the infinite graph is connected.",
  ["inputs"], "all 2- and 3-periodic graphs with up to 8 vertices: connected, interpenetrated (multiplicity above 1), of deficient rank, and disconnected",
  "tests check one interpenetrated and one disconnected example",
  [PG], ["graph_component_measures, is_connected, traverse_with_shift_adjustments @ " + PG], ["graph_component_measures", "Graph::is_connected"])
p("C21", "Shift normalisation only re-chooses vertex representatives",
  "The shift-normalised form of any periodic graph has the same vertices and describes the same infinite graph: its edges arise from the original ones by re-choosing one lattice representative per vertex. In it, every connected component has a spanning tree of edges with zero shift.",
  ["inputs"], "all 2- and 3-periodic graphs with up to 8 vertices and 14 edges, connected or not, any shifts",
  "one hand-written example is normalised in the tests",
  [PG], ["shift_normalized, traverse_with_shift_adjustments @ " + PG], ["Graph::shift_normalized"])
p("C22", "Stability predicates match their definitions",
  "A connected periodic graph is reported stable exactly when no two vertices share a barycentric position modulo the lattice, locally stable exactly when no two edges at a vertex share an edge vector, and as having second-order collisions exactly when two vertices share both position and neighbour arrangement. None of these verdicts depends on the numbering of vertices, the lattice basis or the choice of representatives.",
  ["inputs"], "all connected 2- and 3-periodic graphs up to 8 vertices, including ladders, graphs with colliding neighbours and twins",
  "tests check these predicates on about six nets",
  [PG], ["is_stable, is_locally_stable, has_second_order_collisions @ " + PG], ["Graph::is_stable, is_locally_stable, has_second_order_collisions"])
p("C23", "Edges are found by their vector exactly when it is unambiguous",
  "Looking up an edge at a vertex by its edge vector returns that edge when exactly one edge at the vertex has this vector, and nothing when there is none or more than one. This holds for every vertex and for vectors that belong to other vertices only.",
  ["inputs"], "all connected 2- and 3-periodic graphs up to 8 vertices (multiplicities 1, 2, 3 and more of the same vector) and all queried vectors",
  "tests query a few vertices; no test has three or more coinciding vectors",
  [PG], ["edge_by_unique_delta, edges_by_unique_deltas @ " + PG], ["Graph::edge_by_unique_delta"])
p("C24", "Graph queries do not depend on query history",
  "For every periodic graph and every sequence of queries, each answer is the same as on a freshly built copy of the graph: results that are computed lazily and remembered never influence each other, and repeating a query repeats the answer.",
  ["histories"], "all sequences of up to 25 queries of 12 kinds on graphs up to 6 vertices",
  "tests make a few queries in a fixed order on each graph",
  [PG], ["caches in Graph (vertices, incidences, positions, edge_lookup, symmetries) @ " + PG], ["every public Graph query"],
  state=[("UnsafeCell caches", "lazily filled, shared by all queries", PG)])
# ---------------------------------------------------------------- symmetries
p("C25", "Symmetry detection finds exactly the automorphism group",
  "For every connected, locally stable periodic graph, the symmetries returned are exactly its periodic automorphisms modulo lattice translations, each once: every vertex permutation with a matching bijection of directed edges induced by a lattice-preserving linear map. In particular none is missed because of the lattice basis the graph is written in.",
  ["inputs"], "all connected locally stable 2- and 3-periodic graphs up to 8 vertices: textbook nets, supercells, ladders and random graphs in random bases",
  "tests compare group orders of six textbook nets in their standard basis",
  [SY, PG], ["symmetries, automorphism, characteristic_edge_lists, multiplicative_group @ " + SY, "Automorphism @ " + PG], ["Graph::symmetries", "symmetries::symmetries"])
p("C26", "Vertex and edge orbits are the true symmetry orbits",
  "For every connected, locally stable periodic graph the vertex orbits and edge orbits each partition all vertices and all edges, and two vertices (or edges) lie in the same orbit exactly when some symmetry of the graph maps one to the other, edges being taken without direction.",
  ["inputs"], "all connected locally stable 2- and 3-periodic graphs up to 8 vertices",
  "tests count the orbits of six nets",
  [PG, SY], ["vertex_orbits, edge_orbits @ " + PG, "Partition @ " + PA], ["Graph::vertex_orbits", "Graph::edge_orbits"])
p("C27", "Symmetries form a group independent of presentation",
  "The symmetries of a graph are closed under composition, contain the identity and with each element its inverse. Their number, and the sizes of vertex and edge orbits, do not change when vertices are renumbered, representatives are shifted or the lattice basis is replaced by another.",
  ["inputs"], "all connected locally stable 2- and 3-periodic graphs up to 16 vertices under random re-presentations",
  "tests use one presentation per net and never compose symmetries",
  [SY, PG], ["multiplicative_group @ " + SY, "Automorphism Mul/identity @ " + PG], ["Graph::symmetries", "Automorphism Mul and Eq"])
p("C28", "Translational equivalence and ladders are recognised exactly",
  "For every connected, locally stable periodic graph, it is called a ladder exactly when a non-trivial symmetry leaves all barycentric positions fixed modulo the lattice, and the ladder symmetries returned are exactly these. For graphs that are not ladders, translational orbits are the orbits of all symmetries acting as pure translations, and the graph is called minimal exactly when these are all trivial.",
  ["inputs"], "all connected locally stable 2- and 3-periodic graphs up to 12 vertices: random graphs, supercells, ladders and twisted ladders",
  "tests look at eight small 2-periodic examples, all with axis-parallel half translations",
  [SY], ["raw_translational_equivalences, translational_equivalences, ladder_symmetries, is_ladder, is_minimal @ " + SY], ["symmetries::{translational_orbits, ladder_symmetries, is_ladder, is_minimal}"])
p("C29", "The minimal image is the same net on its full translation lattice",
  "For every connected, locally stable, non-ladder periodic graph the minimal image is absent exactly when the graph is already minimal; otherwise it is a minimal graph describing the same infinite graph with respect to its full translation lattice. In particular the minimal image of any supercell of a minimal graph is that graph again up to numbering, representatives and lattice basis.",
  ["inputs"], "all minimal 2- and 3-periodic graphs up to 5 vertices and all supercells of index up to 6, centred ones included, in random bases",
  "tests use index-2 and index-4 supercells along the axes of one square net",
  [SY, LT], ["minimal_image, extended_translation_basis @ " + SY, "rational_lattice_basis @ " + LT], ["symmetries::minimal_image"])
# ---------------------------------------------------------------- space groups
p("C30", "Generated groups are complete and free of duplicates",
  "For any generators of a space group, generation returns exactly the group of operators modulo integer translations: it contains the identity and all generators, is closed under composition, contains nothing else, and no two returned operators differ by an integer translation. The result does not depend on the order of generators or on signs of shifts.",
  ["inputs"], "all generator lists of plane and space groups (all built-in groups, re-based and with shifted origin, redundant generators, negative and large shifts)",
  "generation is only used to set up one test of another function, with non-negative shifts",
  [BA, GE], ["generate @ " + BA, "ModZ @ " + GE], ["basics::generate"])
p("C31", "The primitive setting removes exactly the centring translations",
  "For every space group given with all its operators, the primitive cell generates exactly the lattice of all its translations (also when there are no centring translations), and the transformed operators are the group's operators in that lattice basis, one per class modulo lattice translations, with integer linear parts. Changing to the primitive setting maps primitive cell vectors to unit vectors.",
  ["inputs"], "all built-in 2- and 3-dimensional groups, primitive and centred, in random bases and origins",
  "one centred 2d group is tested; primitive groups are not",
  [BA], ["PrimitiveSetting::new @ " + BA, "rational_lattice_basis @ " + LT], ["PrimitiveSetting"],
  hook="PrimitiveSetting and its constructor are private: guarded accessor in src/spacegroups/basics.rs")
p("C32", "The Gram matrix space is exactly the set of invariant forms",
  "For every list of operators, the returned space of Gram matrices is exactly the space of symmetric matrices for which every operator is an isometry (no more and no fewer), given as independent columns; none is returned only when that space is trivial. In particular, for every space group it contains a positive definite form.",
  ["inputs"], "all point groups of built-in space groups in random lattice bases, and arbitrary integer matrices, dimensions 1 to 3",
  "tests use four single 2d matrices for which an operator and its transpose impose the same conditions",
  [BA], ["gram_matrix_configuration_space @ " + BA], ["basics::gram_matrix_configuration_space"])
p("C33", "The shift space is exactly the set of freely movable directions",
  "For every list of operators, the returned shift space is exactly the space of vectors fixed by the linear parts of all operators, given as independent columns; none is returned exactly when only the zero vector is fixed. For a group without any non-translational operator it is the full space.",
  ["inputs"], "all point groups of built-in groups (including the trivial group) in random lattice bases, and arbitrary integer matrices, dimensions 1 to 3",
  "tests use four small 2d operator lists; the trivial group is not tested",
  [BA], ["shift_space @ " + BA], ["basics::shift_space"])
p("C34", "Symmetry operators are read with their exact meaning",
  "Every operator written as one to three comma-separated sums of signed, possibly fractional multiples of x, y, z and constants, in any term order, with repeated terms and with any admissible spacing, is read as exactly the linear map and shift it denotes. Coefficients with and without multiplication sign mean the same, and text following a complete operator is handed back untouched.",
  ["inputs"], "all operator texts of the grammar in dimensions 1 to 3, up to 6 terms per coordinate, and arbitrary trailing text",
  "tests parse two operators and a few dozen fragments",
  [PO, PT], ["parse_operator @ " + PO, "AffineMap::from_string @ " + PT], ["parse_operator", "AffineMap::from_string", "CoordinateMap::from_string"])
p("C35", "Malformed operators are rejected, never misread and never crash",
  "For every text whatsoever, reading an operator or coordinate transform either returns exactly the map the complete text denotes or reports failure; it never panics and never silently ignores part of the text. Zero denominators, numbers out of range, more coordinates than dimensions, axes beyond the dimension, incomplete operators and (for coordinate transforms) singular maps are failures.",
  ["inputs"], "all strings: well-formed operators with random edits, and random strings over the operator alphabet and over unicode",
  "tests only reject seven fragments by their first character",
  [PO, PT], ["unsigned_fraction, collect_terms, convert_operator @ " + PO, "from_string @ " + PT], ["AffineMap::from_string", "CoordinateMap::from_string", "parse_operator"])
p("C36", "Space group tables are read faithfully",
  "Every well-formed table is read with nothing lost, added or attached to the wrong entry: each setting keeps its name, transform and operators in order, and carries as group name the most recent setting whose transform is the identity; each alias maps to its target; each lookup line is found under exactly its crystal system and centering with its transform. Comments, blank lines and spacing have no influence.",
  ["inputs"], "all tables of up to 12 settings, aliases and lookups in any order, with random operators, comments, blank lines and spacing",
  "only an example program reads the built-in table; no test checks what was read",
  [PT], ["parse_space_group_table, make_lookup_entry, Tables::lookup_settings @ " + PT], ["parse_space_group_table", "Tables"])
p("C37", "Broken space group tables are reported, never crash",
  "For every byte stream, reading a space group table either returns tables or reports failure; it never panics, and a stream that fails midway is reported as a failure. A table line that is incomplete or whose operator, transform, crystal system or centering is malformed makes the reading fail as a whole instead of being dropped.",
  ["inputs"], "all byte strings: well-formed tables with random line edits, truncations and insertions, random text, invalid UTF-8",
  "no test feeds a malformed table",
  [PT], ["parse_space_group_table, make_lookup_entry @ " + PT], ["parse_space_group_table"])
p("C38", "Printed table entries denote what was read",
  "Printing a setting or lookup entry shows its names and, for its transform and each of its operators, an operator text that reads back as exactly the same map. This includes unit, fractional, negative and zero coefficients and shifts in every position.",
  ["inputs"], "all settings and lookups with random rational operators in dimensions 1 to 3",
  "printing is only exercised by an example program",
  [PT], ["Display for TableEntry and Lookup, write_op_row @ " + PT], ["Display of TableEntry, Lookup"])
p("C39", "The built-in space group table is mathematically consistent",
  "Every setting in the built-in table lists a complete group of operators modulo integer translations without duplicates, and its transform (from coordinates of the setting to those of the group's canonical setting) carries its lattice and operators exactly onto those of the canonical setting. Every lookup entry names an existing setting of that crystal system and carries its lattice onto the lattice of the named centering, and every alias leads to an existing setting or to the common name of settings that differ in origin or cell.",
  ["inputs"], "all 500+ settings, all lookups and aliases of the built-in table, all pairs of operators of each setting",
  "no test inspects the built-in data",
  [DA, PT, PO], ["the table @ " + DA, "parse_space_group_table @ " + PT], ["parse_space_group_table on the built-in data", "basics::generate"])
p("C40", "Crystallographic operators are classified correctly",
  "For every crystallographic operator in dimensions 1 to 3, in any lattice basis, the reported order is the smallest power giving the identity (0 if none up to 6), orientation preservation matches the sign of the determinant, and the axis is reported exactly when the direction fixed by its rotation part (2d: by the operator) is unique, as a positively directed vector spanning it. For proper operators of order above 2 exactly one of an operator and its inverse is clockwise, and the sense depends on nothing but the handedness of the basis and the direction of the axis.",
  ["inputs"], "all operators of built-in point groups conjugated by random unimodular matrices, and random integer matrices, dimensions 1 to 3",
  "tests classify eleven matrices in standard settings",
  [FI], ["OperatorDetails::from, matrix_order, operator_axis @ " + FI], ["OperatorDetails (private)"],
  hook="OperatorDetails is private and the public identification function is unfinished: guarded accessor in src/spacegroups/finder.rs")
p("C41", "Plane point groups get the right crystal system in any basis",
  "For every plane point group in every lattice basis, the crystal system reported is the one of its class: hexagonal with rotations of order 3 or 6, square with order 4, otherwise rectangular with mirrors and oblique without. The reported basis is right-handed, and its axes are adapted to the group (mirror axes where there are mirrors; otherwise, with a rotation of order 3, 4 or 6, vectors related by it up to sign).",
  ["inputs"], "all ten plane crystal classes conjugated by random unimodular matrices, operators in any order",
  "tests try one group per crystal system in its standard basis",
  [FI], ["crystal_system_and_basis_2d @ " + FI], ["crystal_system_and_basis_2d (private)"],
  hook="private function; guarded accessor in src/spacegroups/finder.rs")
# ---------------------------------------------------------------- io
p("C42", "Input lines are read back as the fields that were written",
  "Every line made of an optional keyword, any number of fields (integers, decimal numbers, fractions, bare names, quoted strings) and an optional comment, with any spacing, is read as exactly these fields in order with exact values: integral numbers as integers, other numbers as decimals, quoted text verbatim, names unchanged, whatever letters they start with.",
  ["inputs"], "all field lists up to 8 fields with unicode names, names that begin like special numbers, extreme numbers, tabs and spaces, comments",
  "tests read five lines",
  [CL], ["parse_cgd_line @ " + CL], ["parse_cgd_line"])
p("C43", "No input line crashes the reader or loses text silently",
  "For every text line whatsoever, reading either reports an error or returns fields plus an unread remainder that is a suffix of the line; it never panics. Everything before the remainder is accounted for by the returned fields, spacing and a comment, so nothing but comments is dropped without being reported.",
  ["inputs"], "all strings: valid lines with random edits, random strings over the format's special characters, digits and unicode",
  "tests contain one line with a remainder",
  [CL], ["parse_cgd_line, fraction, name @ " + CL], ["parse_cgd_line"])
p("C44", "Blocks reproduce the structure of the input file",
  "For every input text, the blocks returned are exactly those delimited by a block type line and an end line (in any letter case), with the right type and line numbers, and every non-blank non-comment line appears exactly once, in order, in the block it belongs to, with its original content and fields. A data line without a keyword carries the keyword most recently given in the same block, or none.",
  ["inputs"], "all sequences of up to 30 lines mixing block starts, ends, keyworded data, continuation data, comments and blank lines, well-formed or not",
  "one test reads one 16-line file",
  [CB], ["parse_blocks, parse_lines @ " + CB], ["parse_blocks, parse_lines"],
  hook="fields of Block and Entry are private: guarded accessor in src/io/parse_cgd_blocks.rs")
p("C45", "Every irregularity in an input file is reported",
  "Notes are attached exactly where something is wrong: errors for unreadable lines, unread line endings, data before a block start, an end without a block and a missing final end; warnings for text after a block type or after an end. Regular input gets no notes, and no irregular line disappears together with its note.",
  ["inputs"], "all sequences of up to 30 lines with every combination of irregularities, at every position including the end of the file",
  "the one test covers three of the seven kinds of notes",
  [CB], ["parse_blocks, parse_lines note handling @ " + CB], ["parse_blocks, parse_lines"],
  hook="as C44")
p("C46", "Reading survives faulty and fragmented input streams",
  "The result of reading lines or blocks depends only on the bytes delivered, not on how the stream fragments them. Lines that are not valid text are reported as errors without affecting other lines, and a stream that fails for good yields an error entry and ends the reading instead of going on forever.",
  ["fault_sequences", "inputs"], "all byte streams up to about 400 bytes, all fragmentations, interruptions and permanent failures at any read",
  "tests read from an in-memory valid text only",
  [CB], ["parse_lines over BufRead::lines @ " + CB], ["parse_lines, parse_blocks"],
  hook="as C44")

# ---------------------------------------------------------------- further parts
p("C47", "Shift labels form an ordered group",
  "Shift labels of both dimensions add, subtract and negate coordinatewise, and convert to and from coordinate lists without loss. Every label is exactly one of zero, positive and negative, consistently with their order: a label is smaller than another exactly when their difference is negative. An edge and its reversal have the same canonical form, which is one of the two.",
  ["inputs"], "all pairs of labels in two and three dimensions, with zero, equal and opposite coordinates, as far as sums stay in range",
  "the tests use a handful of labels with small coordinates; signs of labels with leading zeros are hardly touched",
  [PG], ["LabelVector2d, LabelVector3d, Edge::canonical, Neg for Edge @ " + PG], ["LabelVector methods and operators", "Edge::canonical"])
p("C48", "Printed vectors, matrices and maps show exactly their entries",
  "Printing a matrix, vector, point, scalar product, affine map or coordinate map yields one line per row that lists exactly the entries of that row in order, for an affine map followed by the shift coordinate of that row.",
  ["inputs"], "all shapes up to 5x5 and dimensions up to 4, integers and rationals of either sign",
  "no test prints anything",
  [MA, GE], ["Display for Matrix @ " + MA, "Display for AffineMap, CoordinateMap, Vector, Point, ScalarProduct @ " + GE], ["Display implementations"])
p("C49", "Printed nets read back as the same net",
  "The printed form of an edge shows its head, shift and tail, and the printed form of a periodic graph has one line for each of its edges: reading these lines back gives the same periodic graph.",
  ["inputs"], "all 2- and 3-periodic graphs with up to 7 vertices, 12 edges, any vertex numbers and shifts of either sign",
  "no test prints a graph",
  [PG], ["Display for LabelVector2d, LabelVector3d, Edge, Graph @ " + PG], ["Display implementations"])
p("C50", "The reduced basis does not depend on the basis given",
  "Any two bases of the same lattice have the same reduced basis up to the directions of the vectors, for every positive definite inner product, even if several vectors have the same length.",
  ["inputs"], "all lattices in dimensions 1 to 3, all pairs of bases, all positive definite inner products, highly symmetric ones included",
  "tests reduce one basis each of a few lattices",
  [LT], ["reduced_lattice_basis (order among equally long vectors) @ " + LT], ["lattices::reduced_lattice_basis"])
p("C51", "The extended gcd gives a unimodular combination",
  "For all integers a and b in range, the extended gcd returns their greatest common divisor up to sign, coefficients that combine a and b to it, and coefficients that combine them to zero, so that the four coefficients form a matrix of determinant 1 or -1.",
  ["inputs"], "all pairs of 32 and 64 bit integers up to a quarter of the range, zeros, negatives and multiples included",
  "no test calls it directly",
  [LA], ["gcdx @ " + LA], ["linear_algebra::gcdx"])

p("C52", "No use of the safe interface touches memory wrongly",
  "No sequence of calls of the safe interface of graphs and of partitions reads or writes memory that is not theirs, is freed, is lent out elsewhere, or is written by another thread at the same time: not while iterators and returned values are alive, not if an operation of a label or element type panics midway (such operations not calling back into the graph or partition), and not from several threads, as far as the types can be sent or shared at all. After such a panic, the same questions have the same answers as on a fresh graph.",
  ["histories", "fault_sequences", "schedules"], "all operation sequences up to about 30 steps with live iterators and results, a panic at any label or element operation, and all thread interleavings that the types admit",
  "tests never keep an iterator alive across other calls, never let a label operation fail and never use threads; memory errors in unsafe code need not show",
  [PG, PA], ["the lazily filled caches of Graph behind UnsafeCell @ " + PG, "Partition::find and unite @ " + PA], ["Graph methods", "Partition methods"])
p("C53", "Quantities of different coordinate systems cannot be mixed",
  "A program that adds, subtracts, compares, assigns, multiplies, composes or converts vectors, points, scalar products, affine maps, coordinate maps, shift labels or edges of different coordinate systems, or in a way that makes no geometric sense (such as adding two points), is rejected at compile time, while every sensible combination is accepted, with the coordinate system that belongs to its result.",
  ["programs"], "all pairs of operand types over three coordinate systems, owned and borrowed, with every operator, and all expressions over them",
  "a few compile-fail examples cannot show that every other mixture is rejected as well; a bound that became too lax changes no test result",
  [GE, PG], ["the coordinate system parameters of Vector, Point, ScalarProduct, AffineMap, CoordinateMap @ " + GE, "LabelVector2d, LabelVector3d, Edge, Graph @ " + PG], ["operator implementations", "CoordinateMap::new, inverse, to_basis, from_basis, forward", "AffineMap::new, shift, inverse"])
p("C54", "Double precision results agree with exact ones up to rounding",
  "For matrices of double precision numbers that are diagonally dominant, or that have a single power of two in each row, rank, determinant, inverse, solutions, null space and reduced basis agree with those of exact arithmetic up to rounding; diagonally dominant systems with additional unknowns and entries of similar size are solved. Affine maps, coordinate changes, scalar products and reduction modulo one of double precision coordinates agree with exact results likewise.",
  ["inputs"], "all well-conditioned systems up to 6x9 and geometry in dimensions up to 4",
  "tests use a handful of integral matrices in double precision; rounding residue shows only if a pivot cancels",
  [LA, GE], ["impl Scalar for f64 @ " + LA, "LinearAlgebra @ " + LA, "AffineMap, CoordinateMap, ScalarProduct, ModZ @ " + GE], ["LinearAlgebra for Matrix<f64>", "geometry over f64"])

p("C55", "Operations refuse operands that do not fit, and no others",
  "Operands that cannot be combined are refused with a panic instead of giving a result: vectors, points, affine maps, coordinate changes and scalar products of different dimensions in every operator form, coordinates and unit vectors out of range, affine maps from a matrix and a shift that do not match, determinant and inverse of a matrix that is not square, linear systems whose sides have different numbers of rows, basis extension by a vector of another length, rows of different lengths or unmatched factors in the modular solver, lattice bases that are not square or of more than three dimensions, shift labels of the wrong length, and symmetry functions on graphs that are not locally stable. Operands of the same kinds that do fit are never refused.",
  ["inputs"], "all dimensions of both operands up to 20, all operator forms",
  "tests only ever combine operands that fit",
  [GE, LA, MO, LT, SY, PG], ["assertions of Vector, Point, AffineMap, ScalarProduct @ " + GE, "determinant, inverse, solve, extend_basis @ " + LA, "modular_row_echelon_form, products @ " + MO, "dirichlet_vectors @ " + LT, "local stability assertions @ " + SY], ["geometry operators", "LinearAlgebra", "modular solver", "symmetry functions"])

for x in P:
    assert len(x["title"]) <= 80, x["id"]
    print(json.dumps(x, ensure_ascii=False))
