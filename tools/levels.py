"""(technique, level_note) per property."""
L = {
"C01": ("random structured matrices against an exact BigRational elimination oracle", "Bounded search, most up to 6x7, some up to 12x14 and numbers of 100 digits, all but singular matrices among them; machine-integer cases that overflow are skipped and counted."),
"C02": ("random solvable/unsolvable systems against exact rank and Hermite-form oracles", "Bounded search, most up to 5x5, some up to 10x10; solvability over Z decided by an independent Hermite form."),
"C03": ("random matrices of prescribed rank against an exact null-space oracle", "Bounded search, most up to 5x6, some up to 10x12; integer completeness decided by an independent Hermite form."),
"C04": ("stateful insertion histories with a lattice/space model; metamorphic change of generators", "Bounded histories of up to 24 vectors in dimension up to 9."),
"C05": ("differential entrywise evaluation of every operator form and shape", "Bounded search, most up to 5x6, some up to 20x20."),
"C06": ("differential against an independent modular elimination in i128", "Bounded search up to 12x14, primes up to 2^31 and beyond the working prime; only canonical results of canonical input are claimed for products."),
"C07": ("random systems with residual check in exact rationals", "Bounded search, most up to 8x8, some up to 16x16, systems tight for the step count among them, bounded entry sizes (stated in the evidence)."),
"C08": ("random affine maps against a homogeneous-matrix model and algebraic laws", "Bounded search in dimensions 1-4, some higher, over rationals."),
"C09": ("random basis changes, commuting-diagram and round-trip relations", "Bounded search in dimensions 1-4, some higher; invertible changes only."),
"C10": ("random forms against positive-definiteness by an independent Sylvester test", "Bounded search in dimensions 1-5, some higher."),
"C11": ("random rationals with independent floor arithmetic", "Bounded search."),
"C12": ("random bases and forms; lattice equality by Hermite form, reducedness by brute-force enumeration of short vectors", "Dimensions 1 to 3, forms with entries up to 10^18; deterministic step budget bounds termination."),
"C13": ("random bases and points; brute-force nearest lattice points", "Dimensions 1-3 with reduced bases; points down to 10^-12 from faces."),
"C14": ("random rational generators; lattice equality by an independent Hermite form", "Common denominators up to 2520."),
"C15": ("random reduced bases; brute-force Voronoi-relevant vectors", "Dimensions 1-3."),
"C16": ("stateful operation sequences against a naive class table", "Histories of up to 600 operations over 1000 elements, classes united pairwise up to 512; integer elements, elements with colliding hashes, and vectors of strings."),
"C17": ("random edge lists against a set-based model of the canonical presentation", "Two- and three-periodic, most up to 12 edges, some up to 60 vertices and about 200 edges; shifts up to about 2^24."),
"C18": ("random periodic graphs; exact harmonic equations plus independent Laplacian solution", "Connected quotients up to 60 vertices, plus chains built to defeat the modular solver's prime."),
"C19": ("random periodic graphs against breadth-first shells of the unfolded infinite graph", "First shells only; up to 60 vertices."),
"C20": ("random periodic graphs against Hermite forms of cycle lattices and unfolded connectivity", "Up to 60 vertices, two- and three-periodic."),
"C21": ("random graphs; gauge equivalence and canonicity checks", "Up to 60 vertices."),
"C22": ("random graphs against predicates recomputed from an independent placement", "Connected quotients with up to 60 vertices, nearly coinciding ones among them."),
"C23": ("random graphs against a scan of all edges with independent placement", "Connected quotients with up to 60 vertices, nearly coinciding ones among them."),
"C24": ("random query histories on a shared graph against fresh instances", "Histories of up to 25 queries of 22 kinds."),
"C25": ("named nets and random graphs against brute-force automorphism enumeration", "Locally stable graphs, most with up to 8 (covers: 12) vertices, some with 24-40; nearly coinciding vertices in two dimensions."),
"C26": ("orbits compared with those of brute-force automorphisms", "As C25."),
"C27": ("group laws on returned symmetries and metamorphic re-presentation", "As C25."),
"C28": ("random graphs, supercells and ladders against brute-force translational automorphisms", "As C25; orbit and minimality claims for non-ladders only."),
"C29": ("random supercells of minimal graphs; isomorphism to the minimal graph by brute force", "Index up to 12, two- and three-periodic."),
"C30": ("random finite affine generator sets against a breadth-first closure modulo 1", "At most 1000 operators, dimensions 1-3."),
"C31": ("conjugated table groups and random groups; lattice and conjugation oracles", "Dimensions 1-3, at most 400 operators, through a guarded hook."),
"C32": ("random finite matrix groups; invariance and dimension against an exact linear solve", "Dimensions 1-4, up to 40 operators."),
"C33": ("random operators; shift space against an exact linear solve", "Dimensions 1-4, up to 40 operators."),
"C34": ("grammar-based rendering of operators; round trip", "Dimensions 1-3, at most 9 digits per number."),
"C35": ("mutated and random text against an independent recursive-descent reader", "Bounded length."),
"C36": ("rendered random tables against the structured document", "Tables of up to 400 entries."),
"C37": ("mutated, truncated and random tables; totality and accounting", "Bounded length."),
"C38": ("round trip of random operators and settings through text", "Bounded operators."),
"C39": ("exhaustive enumeration of the built-in table with group-theoretic oracles", "Exhaustive over the finite built-in table; group closure computed independently."),
"C40": ("random finite-order and infinite-order matrices against an independent classification", "Dimensions 1-3 through a guarded hook; exhaustive over small integer matrices."),
"C41": ("plane point groups of all 13 arithmetic classes in random bases against their class", "Through a guarded hook; exhaustive over bases with entries up to 2."),
"C42": ("grammar-based rendering of lines; round trip and differential reader", "Up to 360 fields, names of up to 640 characters."),
"C43": ("byte-level random and mutated lines; totality and accounting of every character", "Bounded length."),
"C44": ("rendered random documents against the structured model", "Documents of up to 1200 lines through a guarded read-only hook."),
"C45": ("documents with injected defects; expected notes computed from the model", "Documents of up to 1200 lines through a guarded read-only hook."),
"C46": ("chunked readers, injected I/O faults at every position, invalid UTF-8", "Every fault position of each generated document."),
"C47": ("random pairs of labels against a coordinate list model and order laws", "Coordinates up to 10^9."),
"C48": ("random matrices and maps; the printed text is read back token by token", "Shapes up to 15x15, dimensions up to 4."),
"C49": ("round trip through the printed form with an independent reader", "Up to about 200 edges."),
"C50": ("metamorphic: two random bases of the same lattice", "Dimensions up to 3, integer forms; deterministic step budget."),
"C51": ("random pairs against Bezout identities in 128 bits", "Magnitudes up to a quarter of the type's range."),
"C52": ("random operation histories with live iterators, injected panics and threads, under the address sanitizer and the Miri interpreter", "Histories up to about 30 steps; labels do not call back into the graph; the dynamic checkers decide, aliasing and races by Miri on fewer and smaller histories."),
"C53": ("generated programs, accepted or rejected by the compiler, against a typing model", "All single operations over three coordinate systems; random expressions up to depth 4."),
"C54": ("differential: double precision against exact rational arithmetic", "Diagonally dominant or exactly eliminable matrices up to 6x9, tolerance 1e-9."),
"C55": ("random operands of every kind, fitting or not, against the rule when they fit", "Dimensions up to 20; right hand sides of the modular solver not zero."),
}
