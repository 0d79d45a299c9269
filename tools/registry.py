"""Which check decides which property, and what it assumes."""
TAPE = ("Choices are drawn by a recorded random tape that is a pure function of VERIF_SEED and the case number, failures are shrunk by editing "
        "the tape and replayed three times. ")
ALGOIM = ("algoim, the quadrature backend, is not installed: a stand-in written for this framework (algoim_stub, validated against the "
          "repository's own C++ tests) provides it, so errors inside the real algoim are out of reach")
CPP_NOTE = "Random exploration with an independent oracle; no proof. Compiled with assertions, libstdc++ assertions and UBSan; " + ALGOIM + "."
NANOBIND = "the bindings are compiled against a stand-in of nanobind (nanobind_stub/), which is not installed: overloads, conversions and ownership follow nanobind's documentation"
FENICSX = ("DOLFINx, UFL, FFCx, MPI, PETSc and the compiled extension are not installed: stand-ins written from their documented behaviour (py/env.py) provide what "
           "the modules under test use, with every choice left to the library (numberings, orders, ownership) drawn at random; basix and numpy are the real ones")
PY_NOTE = "Random exploration with an independent oracle; no proof. " + FENICSX + "."
KERNEL = "FFCx and UFL are not installed: kernels and their intermediate representation are generated in the layout of FFCx 0.10; functions that vanish or coincide at the standard points are merged by the form compiler before QUGaR sees them and are left out"
CHECKS = {
    "B01": dict(kind="cpp", group="poly", technique="property-based testing: random polynomials against a long double reference evaluation",
                rule="random dimension 1-3, range 1-3, orders per direction (1..9/6/4), coefficients and points inside and around the unit box; non-trivial: more than one coefficient; distinct by the case description"),
    "B02": dict(kind="cpp", group="poly", technique="property-based testing: algebraic identities checked pointwise on random polynomials",
                rule="random operand pairs (orders, coefficients), compositions over every (dimension, inner, range) combination, facets, boxes; non-trivial: both operands have more than one coefficient"),
    "B03": dict(kind="cpp", group="poly", technique="property-based testing: sign and interval bounds against sampled values",
                rule="random Bezier polynomials with random offset and random sub-boxes; non-trivial: the polynomial is reported to have a sign"),
    "Q06": dict(kind="cpp", group="grid", technique="property-based testing: exactness, symmetry and mapping of random rules against exact moments",
                rule="random rule (Gauss or tanh-sinh, 1-100 points) and moment, or random tensor-product rule on a random box of dimension 1-3; non-trivial: more than one point"),
    "G01": dict(kind="cpp", group="grid", technique="property-based testing: index arithmetic against an independent 64-bit model",
                rule="random sizes (1/8 of them huge), pairs of indices sharing components, sub-ranges (some empty) iterated and split repeatedly; non-trivial: the sub-range holds more than one index"),
    "G02": dict(kind="cpp", group="grid", technique="property-based testing: grid queries against a break-point model",
                rule="random uniform and irregular grids, points inside cells, on breaks and within tolerance of them, random sub-grids split down to cells; non-trivial: more than one cell"),
    "G03": dict(kind="cpp", group="grid", technique="property-based testing: clustered point sets, boxes and tolerances against their definitions",
                rule="random clusters of points around lattice nodes (also chains and pairs just beyond the tolerance), boxes, values near the tolerance; non-trivial: some but not all points merge, or any box/tolerance case"),
    "G04": dict(kind="cpp", group="grid", technique="stateful model-based testing: histories of branchings and status settings against a status per cell",
                rule="random uniform and irregular grids (or sub-grids of them) in 2D and 3D, up to 24 branchings and status settings of random leaves, queries in between; non-trivial: some branching and some status set"),
    "L01": dict(kind="cpp", group="grid", technique="property-based testing: nodal values and polynomial reproduction",
                rule="random orders 2..10/6/4, node family, node, random polynomial of full order and point; non-trivial: more than two basis functions"),
    "F01": dict(kind="cpp", group="funcs", technique="property-based testing: reported derivatives against extrapolated differences of the reported values",
                rule="random primitive (also as Bezier), periodic surface, square or multilinear function with random axes, centres and radii, transformed and combined up to depth two, at four points away from kinks; non-trivial: some derivative is not zero"),
    "F02": dict(kind="cpp", group="funcs", technique="differential property-based testing: values against independent long double formulas of the documented shapes",
                rule="random primitive and parameters (also every default constructor) at twelve points; non-trivial: points on both sides of the surface"),
    "F03": dict(kind="cpp", group="funcs", technique="property-based testing: interval enclosures of value and gradient against corners and random points of random boxes",
                rule="random function (as in F01) and box of random size; 16 points per box; non-trivial: the enclosure is finite and not a single value"),
    "F04": dict(kind="cpp", group="funcs", technique="property-based testing: affine maps, reference systems and combined functions against long double matrix algebra",
                rule="random affine maps (translations, rotations, scalings, general matrices, products), axes (also almost parallel ones), combinations of functions; non-trivial: any map or system, or a combination that changes sign"),
    "Q01": dict(kind="cpp", group="quad", technique="property-based testing: measures and moments against slicing with sign changes located on the real function, known half-spaces and convergence",
                rule="random function (primitives, periodic surfaces, multilinear, transformed, combined; polynomial or general) on a random non-uniform grid of a random box, random cell list, 1-6 points; polynomials also multiplied by random powers of two; non-trivial: some requested cell is cut (or the half-space is bounded by or parallel to grid lines)"),
    "Q02": dict(kind="cpp", group="quad", technique="property-based testing: pointwise level-set and normal conditions, divergence theorem with random polynomial fields",
                rule="as Q01 with a random linear-quadratic vector field; non-trivial: some requested cell has unfitted-boundary points"),
    "Q03": dict(kind="cpp", group="quad", technique="property-based testing: facet measures and moments against slicing, comparison of both sides, known half-spaces",
                rule="as Q01 with random lists of (cell, local facet); non-trivial: some facet is partly inside, or a half-space bounded by grid lines"),
    "Q04": dict(kind="cpp", group="quad", technique="property-based testing: classification against sampled signs, set algebra of lists, predicates and targets, known half-spaces",
                rule="as Q01 with random target lists and domains restricted to random cells; non-trivial: some cell has samples of both signs, or targets are given"),
    "Q05": dict(kind="cpp", group="quad", technique="metamorphic property-based testing: complements add up to the whole, the polynomial and the general backend agree, multiples of a polynomial give the same domain",
                rule="as Q01 with random monomial integrands, or polynomials against their multiples by random powers of two of either sign; non-trivial: some cell is cut"),
    "R01": dict(kind="cpp", group="reparam", technique="property-based testing: every node, cell, wire and per-cell measure and moment of generated reparameterizations against the level set, an independent slicing oracle and the boundary quadrature",
                rule="random smooth level sets (both backends) and half-spaces, quadrics tangent to grid lines, multiples of polynomials, grids, shuffled partial cell lists or a single box, orders 2-8, volume, level-set and facet meshes, merged or not; non-trivial: some requested cell (or the facet) is cut"),
    "R02": dict(kind="cpp", group="reparam", technique="stateful model-based testing: random histories of mesh operations against a model that keeps every cell's and wire's own points; written VTK files are parsed back",
                rule="random sequences of up to 12 operations on meshes of curves, surfaces and volumes in 2D and 3D of order 2-8; non-trivial: merging joins points"),
    "P01": dict(kind="py", group="h_mesh", technique="property-based testing: index arithmetic and index sets against brute-force enumeration",
                rule="random sizes in dimensions 1-3 (one quarter huge in some direction), index types, indices, corners, faces and edges; non-trivial: more than one index in dimension 2-3"),
    "P02": dict(kind="py", group="h_mesh", technique="property-based testing: renumberings against node and entity positions from basix and VTK's definition",
                rule="random dimension, degree (up to 14/10/7), pair of orderings, and values carried along; non-trivial: degree above one or an edge/face renumbering"),
    "P03": dict(kind="py", group="h_mesh", technique="property-based testing: facet collections against Python sets, mesh facets against an adversarially numbered model mesh",
                rule="random pairs of facet collections with repetitions and overlaps, or random (partial, distributed) Cartesian meshes; non-trivial: operands overlap without inclusion, or the mesh has several cells", assumptions=[FENICSX]),
    "P04": dict(kind="py", group="h_mesh", technique="property-based testing: numberings and geometry against a grid model under adversarial renumberings",
                rule="random Cartesian, merged or disconnected meshes, active cells, degrees, coordinate types, processes and renumberings; non-trivial: more than one cell, or nodes that merge", assumptions=[FENICSX]),
    "P05": dict(kind="py", group="h_mesh", technique="model-based testing: random sequences of cached queries against sets computed from the classification",
                rule="random cell and facet statuses, exclusion of empty cells, meshes, processes and query sequences; non-trivial: more than one cell status", assumptions=[FENICSX]),
    "P06": dict(kind="py", group="h_custom", technique="property-based testing: positions against the element library's geometry and the symmetry each permutation stands for",
                rule="random cell type, permutations, lists of (cell, facet, point) including empty ones; non-trivial: more than one facet", assumptions=[FENICSX]),
    "P07": dict(kind="py", group="h_custom", technique="property-based and model-based testing: packed arrays read back as a kernel does, over sequences of packs and updates",
                rule="random mesh kind, integrals of the three types, subsets and orders of entities, statuses, rules (also without points), scalar types, columns, updates; non-trivial: some entity is custom", assumptions=[FENICSX]),
    "P08": dict(kind="py", group="h_forms", technique="stateful property-based testing: compiled forms and integration entities against a model, and immutability of the inputs over repeated calls",
                rule="random integrals (types, identifiers, shared metadata and data), forms sharing integrals, lists, repeated calls; non-trivial: more than one integral", assumptions=[FENICSX]),
    "P09": dict(kind="py", group="h_forms", technique="property-based testing: numerical evaluation of the measure against the cofactor formula, over random sequences of restrictions",
                rule="random square and rectangular Jacobians, normals, metadata and sequences of restrictions; all the accepted cases are non-trivial", assumptions=[FENICSX]),
    "P10": dict(kind="py", group="h_forms", technique="model-based testing: histories of solves and evaluations against dense linear algebra",
                rule="random sizes, boundary conditions, forms and lists of forms, histories of evaluations with changing coefficients; all the cases are non-trivial", assumptions=[FENICSX]),
    "K01": dict(kind="py", group="h_kernel", technique="property-based testing over generated kernels: parse/render identity and differential execution against the original kernel",
                rule="random kernels in the form compiler's layout (cells, integral types, rules, elements, coefficients, tables merged and classified as FFCx does), custom data at the standard points; non-trivial: at least one table of the kernel is replaced; discarded: the generated integrand lost all its tables or would be changed by the form compiler itself", assumptions=[KERNEL]),
    "K02": dict(kind="py", group="h_kernel", technique="property-based testing over generated kernels: compiled custom kernels run with random quadratures against direct sums",
                rule="random kernels, each run with sequences of custom (0-6 points per rule), full and empty entities in shuffled order, poisoned scratch memory with canaries; non-trivial: at least one custom entity ran", assumptions=[KERNEL]),
    "K03": dict(kind="py", group="h_kernel", technique="property-based testing over generated kernels: extracted table, quadrature and integral data against the generator's own records",
                rule="random kernels and their intermediate data, and the same with other numbers of the elements; non-trivial: at least one table depends on the custom points", assumptions=[KERNEL]),
    "W01": dict(kind="py", group="h_bind", technique="property-based testing of the compiled bindings: what Python reads back against what it gave and against closed forms, under random memory layouts and after its owners are gone (AddressSanitizer)",
                rule="random grids, boxes, functions, unfitted domains, queries, rules and meshes with arrays of random layout (strided, reversed, Fortran, read-only, other types); compiled with AddressSanitizer; non-trivial: more than one entity in a list", assumptions=[NANOBIND, ALGOIM]),
    "W02": dict(kind="py", group="h_bind", technique="differential property-based testing: functions built from Python against formulas of the documented shapes, plus documented refusals",
                rule="random constructor, arguments by position or name, defaults, types and combination, at twelve points; non-trivial: values of both signs", assumptions=[NANOBIND, ALGOIM]),
    "W03": dict(kind="py", group="h_e2e", technique="property-based testing of the whole Python path: divergence theorem, closed boundary and known measures on generated unfitted Cartesian meshes",
                rule="random half-spaces and balls (both backends, negated), boxes, cells, coordinate types, 1-2 processes, adversarial renumbering of the mesh, random linear-quadratic fields; non-trivial: some cell is cut; discarded: an empty domain whose cells are excluded", assumptions=[NANOBIND, ALGOIM, FENICSX]),
    "W04": dict(kind="py", group="h_e2e", technique="property-based testing: node order of generated reparameterization meshes against the element library's reference points",
                rule="random domain, degree, kind of mesh, process; non-trivial: the mesh has cells", assumptions=[NANOBIND, ALGOIM, FENICSX]),
    "U01": dict(kind="py", group="h_e2e", technique="property-based testing: version ranges against tuple order, availability under random found versions",
                rule="random triples of versions (half of them near each other), sets of found packages and versions, imports without FEniCSx; non-trivial: the version is in the range", assumptions=[FENICSX]),
    "J01": dict(kind="py", group="h_jit", technique="stateful property-based testing with injected faults: histories of compilations against a model of the cache",
                rule="random histories of up to 14 compilations over two caches, most of them repeating an earlier request with at most one change, with failures in every stage and modules of FFCx in the cache; non-trivial: the cache served a form and holds another one", assumptions=[FENICSX]),
    "A01": dict(kind="py", group="h_jit", technique="model-based testing: recorded arguments of the assembly through random versions, repairs and calls",
                rule="random version, number and way of repairs, calls with and without constants and coefficients; non-trivial: coefficients are given", assumptions=[FENICSX]),
    "V01": dict(kind="py", group="h_plot", technique="property-based testing: data sets against positions, statuses and numbers computed from the grid and the quadratures",
                rule="random domain, grid, mesh numbering, kind of data set and flags; non-trivial: the domain has cut cells",
                assumptions=[NANOBIND, ALGOIM, FENICSX, "PyVista is not installed: a stand-in of its data sets (h_plot.py) provides extraction, thresholds and sides of cells, in the face order the repository documents for VTK"]),
    "S01": dict(kind="py", group="h_shim", technique="differential property-based testing of the compiled shim against the element library's own interface, with canaries around the buffers",
                rule="random family, cell, degree, variants, continuity, precision, derivative order and points (also none), plus invalid handles, dimensions and capacities; non-trivial: the library accepts the element", assumptions=["basix's own Python interface is the reference of the tabulation"]),
    "S02": dict(kind="py", group="h_shim", technique="model-based testing: random sequences of registry operations against a dictionary",
                rule="random sequences of up to 40 operations over up to 8 elements that differ in one parameter; non-trivial: more than one element is registered", assumptions=["basix's own Python interface is the reference of the tabulation"]),
    "S03": dict(kind="py", group="h_shim", technique="stateful property-based testing with injected faults: histories of concurrent builds with a scripted compiler that is slow, fails or is killed",
                rule="random histories of calls, concurrent processes and threads, edits, deletions, failures and kills, or a random set of compilers; non-trivial: concurrency, a fault or a compiler selection", assumptions=["the compiler is replaced by a script (except in one case of 120), the builder runs as a copy in a scratch directory"]),
    "S04": dict(kind="py", group="h_shim", technique="randomized concurrency testing: generated thread programs under ThreadSanitizer with values checked against a sequential reference",
                rule="random programs of 2-6 threads over up to 6 elements; all are non-trivial", assumptions=["the element library itself is not instrumented"]),
}
