#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list is reviewable in one place)."""
import json, pathlib
OUT = []
def P(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    OUT.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None)))
C = "cpp/qugar/"
I = "cpp/include/qugar/"
D = "python/qugar/dolfinx/"
M = "python/qugar/mesh/"
W = "python/nanobind_wrappers/"

# ------------------------------------------------------------------------------------------------ quadratures
P("Q01", "Volume quadratures measure exactly the negative part of every cell",
  "For every implicit domain on every Cartesian grid, the volume quadrature of a list of cells has, cell by cell and in the requested order, points inside the reference cell and inside the domain, and positive weights. Its weights sum to the fraction of the cell occupied by the domain and it integrates polynomials over that part within quadrature accuracy. Cells entirely inside get the standard tensor-product Gauss rule and cells entirely outside get no points.",
  ["inputs", "configurations"], "every implicit function (polynomial or general), grid (any box, any breakpoints), dimension 2-3, cell list and number of points",
  "The tests compare a handful of fixed geometries on the unit box with stored numbers; measure, containment, ordering and box mapping over arbitrary domains are never related to an independent value.",
  [C+"impl_quadrature.cpp", C+"cut_quadrature.cpp", C+"quadrature.cpp", C+"impl_utils.cpp"],
  [("create_quadrature", C+"cut_quadrature.cpp"), ("create_cell_quadrature", C+"impl_quadrature.cpp")])
P("Q02", "Unfitted-boundary quadratures lie on the level set with correct normals",
  "For every implicit domain and grid, the points of the unfitted-boundary quadrature lie in their cell and on the zero level set, their normals are unit vectors along the gradient of the function pointing out of the domain, and their weights are positive surface measures. For every polynomial vector field, the flux through the unfitted boundary plus the flux through the parts of the cell's facets inside the domain equals the volume integral of its divergence within quadrature accuracy.",
  ["inputs", "configurations"], "every implicit function, grid, cell list, point count and polynomial vector field",
  "The tests check stored totals for a few geometries; pointwise conditions and the divergence identity over arbitrary inputs are not sampled.",
  [C+"impl_quadrature.cpp", C+"cut_quadrature.cpp"],
  [("create_unfitted_bound_quadrature", C+"cut_quadrature.cpp"), ("create_cell_unfitted_boundary_quadrature", C+"impl_quadrature.cpp")])
P("Q03", "Facet quadratures measure the part of each facet inside the domain",
  "For every implicit domain and grid, the quadrature of a facet has points inside the reference facet and in the domain, positive weights summing to the fraction of the facet inside the domain, and integrates polynomials on it. Facets wholly inside get the standard rule, facets wholly outside get none; the rule of a facet shared by two cells is the same from both sides. Interior-integral rules are empty on facets of the grid's boundary and leave out parts on the unfitted boundary; exterior-integral rules on interior facets hold only the parts of the facet that lie on the unfitted boundary.",
  ["inputs", "configurations"], "every implicit function, grid, list of (cell, local facet) pairs, dimension and point count, including facets lying on the level set",
  "Facet rules are only tested on fixed examples with stored sums; both-sided agreement and the interior/exterior split are not compared.",
  [C+"impl_quadrature.cpp", C+"cut_quadrature.cpp", C+"unfitted_domain.cpp"],
  [("create_facets_quadrature_interior_integral / exterior", C+"cut_quadrature.cpp")])
P("Q04", "Cells and facets are classified soundly, completely and consistently",
  "For every implicit domain and grid, each cell is in exactly one of the full, empty and cut sets and each facet has exactly one status per query; a full (empty) cell or facet contains no point outside (inside) the domain and a cell holding points of both signs is cut (a cell touching the level set without being crossed may also be reported as cut). Queries restricted to a target list return exactly the members of that list with the given status, and the predicates agree with the lists.",
  ["inputs", "configurations"], "every implicit function, grid (any box), subset of cells and target list",
  "Fixed domains on the unit box; the recursive subdivision and both classification paths (interval arithmetic, polynomial coefficients) must be sound for every function and grid.",
  [C+"impl_unfitted_domain.cpp", C+"unfitted_domain.cpp", C+"unfitted_domain_binary_part.cpp", C+"impl_utils.cpp"],
  [("classify_cell_Bezier / classify_cell_general", C+"impl_unfitted_domain.cpp"), ("UnfittedDomain queries", C+"unfitted_domain.cpp")])
P("Q05", "The domain and its complement, and both backends, tile every cell",
  "For every implicit function, the quadrature of the domain and that of the complement (negated function) add up in every cell to the whole cell, for volumes, facets and any polynomial integrand. A polynomial treated as a polynomial and the same function treated as a general function give the same classification up to degenerate contacts and the same integrals within quadrature accuracy. Multiplying a polynomial by a positive (negative) constant gives the same domain (its complement) within quadrature accuracy.",
  ["inputs"], "every implicit polynomial or general function, grid and integrand",
  "Metamorphic relations between runs are not expressed by any test.",
  [C+"impl_quadrature.cpp", C+"impl_unfitted_domain.cpp", C+"bezier_tp.cpp"],
  [("Bezier and general paths", C+"impl_quadrature.cpp")])
P("Q06", "Quadrature rules are exact, positive and correctly mapped to boxes",
  "For every number of points, the one-dimensional Gauss rule has increasing points symmetric in (0,1), positive weights, and integrates every polynomial of degree 2n-1 exactly; tanh-sinh rules are symmetric, positive and converge. Tensor-product rules on any box hold the tensor points (first direction fastest) mapped to the box and weights that integrate per-direction polynomials exactly.",
  ["inputs"], "every point count per direction, box and polynomial, dimensions 1-3",
  "Tests compare a few stored rules; exactness is a statement about every polynomial and count.",
  [C+"quadrature.cpp", C+"quadrature_lib.cpp", I+"quadrature.hpp"], [("Quadrature::create_Gauss", C+"quadrature.cpp")])
# ------------------------------------------------------------------------------------------------ functions
P("F01", "Gradients and Hessians of implicit functions are their true derivatives",
  "For every implicit function of the library and every composition of them, the gradient and the Hessian reported at a point are the first and second derivatives of the reported value there, the Hessian being given as the upper triangle in row order.",
  ["inputs"], "every function family (primitives, periodic minimal surfaces, transformed and combined functions), parameters and smooth point",
  "Tests sample few functions; an error in one component of one derivative survives.",
  [C+"primitive_funcs_lib.cpp", C+"tpms_lib.cpp", C+"impl_funcs_lib.cpp", I+"domain_function.hpp"], [("eval/grad/hessian", C+"primitive_funcs_lib.cpp")])
P("F02", "Implicit functions describe the geometry they are named and documented for",
  "For every parameter set, each geometric primitive (sphere, ellipsoid, cylinder, annulus, torus, plane, square) is negative exactly inside the shape it documents and has the documented value, and each periodic minimal surface has its published formula and period.",
  ["inputs"], "every primitive, parameter set (centre, axes, radii, periods) and point",
  "A sign or parameter error visible only for non-default parameters escapes fixed samples.",
  [C+"primitive_funcs_lib.cpp", C+"tpms_lib.cpp"], [("eval_", C+"primitive_funcs_lib.cpp")])
P("F03", "Interval evaluation of implicit functions encloses their values",
  "For every implicit function and every box, evaluating value and gradient on the box gives enclosures of the values and gradients at all points of the box.",
  ["inputs"], "every function and every box in its region of smoothness",
  "Soundness over all points of a box cannot be sampled by fixed examples.",
  [C+"primitive_funcs_lib.cpp", C+"tpms_lib.cpp", C+"impl_funcs_lib.cpp"], [("eval/grad on algoim intervals", C+"impl_funcs_lib.cpp")])
P("F04", "Affine transformations and reference systems form a consistent group",
  "For every affine map, inverse, composition and application to points, vectors and Hessians agree with matrix algebra (inverse undoes, composition applies right then left); every reference system built from axes is orthonormal, right-handed and keeps the requested axis. A function transformed by a map takes at the mapped point the value of the original at the point, and sums, differences and negations of functions act pointwise.",
  ["inputs"], "every invertible map, point, axis set and pair of functions",
  "A few maps are tested; group laws are universally quantified.",
  [C+"affine_transf.cpp", C+"ref_system.cpp", C+"impl_funcs_lib.cpp"], [("AffineTransf", C+"affine_transf.cpp"), ("combinators", C+"impl_funcs_lib.cpp")])
# ------------------------------------------------------------------------------------------------ polynomials
P("B01", "Bezier and monomial polynomials evaluate their definition and convert losslessly",
  "For every polynomial given by coefficients, its value, gradient and Hessian at any point equal those of its mathematical definition (first direction fastest), for scalar and vector-valued polynomials of any orders including constants. Converting between monomial and Bernstein forms preserves the function.",
  ["inputs"], "every order per direction, coefficient vector, range dimension and point",
  "Tests cover a few orders; the recurrences have separate paths for small orders.",
  [C+"bezier_tp.cpp", C+"monomials_tp.cpp", C+"bezier_tp_utils.cpp", C+"polynomial_tp.cpp"], [("casteljau / horner", C+"bezier_tp.cpp")])
P("B02", "Polynomial algebra produces the polynomial of the algebraic operation",
  "For every pair of polynomials, sum, product, composition, negation, order raising, derivative, restriction to a facet and restriction or rescaling to a sub-box yield polynomials whose values are those of the operation applied to the operands' values, with enough order to be exact.",
  ["inputs"], "every operand pair, orders, dimension, facet and sub-box",
  "Algebraic identities over arbitrary operands are only spot checked.",
  [C+"bezier_tp.cpp", C+"bezier_tp_utils.cpp", C+"bezier_tp_utils_composition.cpp", C+"monomials_tp.cpp"], [("Bezier_product, Bezier_composition", C+"bezier_tp_utils_composition.cpp")])
P("B03", "Polynomial sign bounds never misreport a polynomial's sign",
  "Whenever a polynomial is reported to be uniformly positive or negative, it has that sign at every point of its box; interval evaluation encloses point values.",
  ["inputs"], "every Bezier polynomial and point",
  "Soundness is a statement over all points.",
  [C+"bezier_tp.cpp", C+"impl_utils.cpp"], [("BezierTP::sign", C+"bezier_tp.cpp")])
# ------------------------------------------------------------------------------------------------ grids
P("G01", "Tensor indexing is a bijection with a strict total order",
  "For every tensor size, flat and tensor indices convert to each other without loss with the first direction fastest, iterating a range visits each of its indices once in flat order, comparisons are a strict total order agreeing with flat order, and splitting a range gives two disjoint ranges covering it, cut along a direction with the largest number of indices.",
  ["inputs", "histories"], "every size (up to 10^9 per direction), sub-range and pair of indices in dimensions 1-3",
  "A few sizes are tested; order axioms are never checked.",
  [C+"tensor_index_tp.cpp", I+"tensor_index_tp.hpp"], [("TensorSizeTP / TensorIndexTP / TensorIndexRangeTP", C+"tensor_index_tp.cpp")])
P("G02", "Cartesian grids locate every point and tile their domain",
  "For every grid, the boxes of its cells tile the domain without overlap, cell location returns a cell containing the point, boundary queries report exactly the facets (cells) on the domain boundary, and restricting to or splitting a subgrid (along a direction with the largest number of cells) keeps exactly the cells of the index range.",
  ["inputs"], "every strictly increasing breakpoint set, dimension, point and subgrid",
  "Fixed uniform grids only.",
  [C+"cart_grid_tp.cpp"], [("CartGridTP / SubCartGridTP", C+"cart_grid_tp.cpp")])
P("G03", "Tolerance-based comparison, point merging and box maps are consistent",
  "For every point set, merging coincident points maps each input point to a representative within tolerance, merges points that are exactly equal and never merges points farther apart than the tolerance allows. Box mapping to and from the unit box are mutually inverse, and expansion, slicing, length, volume and midpoint of boxes agree with interval arithmetic on their bounds.",
  ["inputs"], "every point set, tolerance, box and point",
  "Clusters near the tolerance and large sets are not sampled.",
  [C+"tolerance.cpp", C+"bbox.cpp", C+"point.cpp"], [("make_points_unique", C+"tolerance.cpp"), ("BoundBox", C+"bbox.cpp")])
P("G04", "The spatial partition of a domain assigns exactly one status to every cell",
  "For every history of branchings and status settings, the leaves of the binary partition of a grid split its cells without overlap, every cell is found in the leaf that holds it, and the status of each leaf, the cells (also among given ones) and leaves of each status, their numbers and the membership of a cell all agree with the statuses that were set.",
  ["inputs", "histories"], "every grid or sub-grid, and every sequence of branchings and status settings",
  "Only exercised through the decomposition of a few domains, which never reads back the status of a leaf.",
  [C+"unfitted_domain_binary_part.cpp"], [("UnfittedBinarySpacePart", C+"unfitted_domain_binary_part.cpp")])
P("L01", "Lagrange bases are nodal and reproduce polynomials",
  "For every order and node family, each Lagrange basis function is one at its node and zero at the others, the basis sums to one and interpolating a polynomial of at most that order reproduces it with its derivatives.",
  ["inputs"], "every order per direction, dimension, node family and point",
  "Few orders are tested.",
  [C+"lagrange_tp_utils.cpp"], [("evaluate_Lagrange_basis", C+"lagrange_tp_utils.cpp")])
# ------------------------------------------------------------------------------------------------ reparameterization
P("R01", "Reparameterizations cover the domain with positively oriented cells",
  "For every smooth implicit domain resolved by its grid, the reparameterization of any requested cells has, in each of them and nowhere else, cells with all their nodes inside the domain, positively oriented, whose measure and first moments are those of the domain's part of that grid cell within the accuracy of the chosen order (exactly for half-spaces, full cells whole, empty cells nothing). The reparameterized level set has its nodes on the zero level set, normals along the gradient and the area of that surface; a reparameterized facet has its nodes on the facet, outward normals and the measure of its part in the domain. Wires lie on the boundary of the domain or of the grid's cells and include every edge of the reparameterized cells on the edges (2D: facets) of those cells; merging points only merges coincident ones.",
  ["inputs", "configurations"], "every implicit function, grid, order and merge option",
  "Tests store checksums of fixed examples, which do not say that the parameterization covers the domain.",
  [C+"impl_reparam.cpp", C+"impl_reparam_general.cpp", C+"impl_reparam_bezier.cpp", C+"impl_reparam_mesh.cpp"], [("create_reparameterization", C+"impl_reparam.cpp")])
P("R02", "Reparameterization meshes keep valid connectivity through every operation",
  "For every sequence of mesh operations (insert, merge meshes, merge coincident points, permute, scale, orient, reserve), connectivity refers only to existing points, every cell and wire keeps the coordinates of its nodes up to the stated permutation or scaling, coincident points become one, orienting only flips cells that need it, and full-cell parameterizations interpolate the identity on their box. Written VTK files hold the same points, cells and wires in VTK's node order.",
  ["histories", "inputs"], "every sequence of mesh operations and mesh content",
  "Only whole pipelines are tested, against stored sums.",
  [C+"reparam_mesh.cpp", C+"impl_reparam_mesh.cpp"], [("ReparamMesh", C+"reparam_mesh.cpp")])
# ------------------------------------------------------------------------------------------------ python mesh
P("P01", "Tensor-product indexing of cells, facets and sub-entities is a bijection",
  "For every grid shape, flat and multi-dimensional indices convert to each other without loss (lexicographic, first direction fastest), also beyond 32 bits; the listed corners, edges, faces and internal indices are exactly the index sets with the corresponding coordinates at (away from) the extremes, each index once, in the lexicographic or the element library's ordering as requested.",
  ["inputs"], "every per-direction size (including one) in dimensions 1-3, every index, corner, edge and face",
  "No installed test imports this module.",
  [M+"tp_index.py"], [("TensorProdIndex", M+"tp_index.py")])
P("P02", "Node, edge and face renumberings match the element library and VTK",
  "For every dimension and degree, the renumberings between lexicographic, finite-element and VTK ordering of Lagrange nodes are mutually inverse permutations that send each node to the one at the same geometric position, and so do the renumberings of edges and faces between lexicographic and finite-element ordering.",
  ["inputs", "configurations"], "every dimension 1-3, every degree, every entity type",
  "The permutations are hard coded or computed; a test needs the element library's topology for every degree.",
  [M+"utils.py"], [("DOLFINx_to_lexicg_*, lexicg_to_DOLFINx_*", M+"utils.py")])
P("P03", "Facet sets behave as mathematical sets of (cell, facet) pairs",
  "For every pair of facet collections, intersection, difference, lookup, uniqueness and concatenation agree with the operation on (cell, local facet) pairs and leave the operands unchanged, and arrays round-trip. The facet collections made from facet ids, or from the exterior, interior or all facets of a mesh, hold exactly those facets of the process (with one or all the cells around each), and converting a collection to the original (lexicographic) numbering of cells and facets and back is the identity and keeps the geometric facet.",
  ["inputs", "histories"], "every pair of facet collections (repeated entries, 32 and 64-bit cells), mesh, numbering and process",
  "Set algebra is universally quantified; no installed test covers it.",
  [M+"mesh_facets.py"], [("MeshFacets", M+"mesh_facets.py")])
P("P04", "Original and finite-element numberings of cells and nodes are inverse maps",
  "For every mesh and every renumbering applied by the finite-element library, mapping entity ids from original to internal numbering and back is the identity for owned entities, arrays keep their order and multiplicity, and merging coincident nodes yields connectivity with the same coordinates per cell and one node per distinct location. For Cartesian meshes the cell's tensor index, bounding box and boundary facets agree with the geometry.",
  ["inputs", "configurations"], "every mesh size, degree, active-cell subset, coordinate type, process and internal permutation",
  "Needs adversarial permutations that the library may choose; installed tests build no mesh.",
  [M+"mesh.py", M+"tp_mesh.py", M+"utils.py"], [("get_DOLFINx_cell_ids / get_original_cell_ids", M+"mesh.py")])
P("P05", "Cells and facets of an unfitted mesh are partitioned consistently",
  "For every unfitted domain, the cut, full and empty cells and, for interior and exterior integrals, facets are disjoint and cover all cells (facets) of the mesh, each query returns its set in the finite-element numbering irrespective of the order of earlier (cached) queries, the tags created for cells and facets give every entity the tag of its own set, and the quadratures created for cells, unfitted boundaries and facets are those of the requested entities, in the requested order, with the number of points that integrates the requested degree exactly.",
  ["inputs", "histories"], "every classification of cells and facets (also on the unfitted boundary), mesh numbering, process, and order of (cached) queries",
  "Caching makes the answer depend on query history, which fixed tests do not permute.",
  [M+"unfitted_domain.py", M+"unfitted_domain_abc.py", M+"unfitted_cart_mesh.py"], [("UnfittedDomain", M+"unfitted_domain.py")])
# ------------------------------------------------------------------------------------------------ on the fly
P("P06", "Facet points are permuted and mapped to their true positions in the cell",
  "For every cell type, list of facets (in any order, with repetitions, also empty) and facet points, mapping facet points to the cell puts each one, in order, on its own facet at the position of its facet coordinates (first facet vertex plus the facet directions), and permuting them applies to each point the rotations and reflection that the mesh assigns to that facet of that cell, so that both cells of an interior facet see the same physical points. The inputs are not modified.",
  ["inputs", "configurations"], "every cell type (simplices, quadrilaterals, hexahedra), facet, permutation and list of points with any mix of cells and facets, including none",
  "No installed test calls these functions; end-to-end tests meet only the permutations of structured meshes.",
  [D+"custom_quad_utils.py"], [("map_facets_points", D+"custom_quad_utils.py"), ("permute_facet_points", D+"custom_quad_utils.py")])
P("P07", "Packed coefficients deliver each entity its own custom data",
  "For every form with cell, exterior-facet and interior-facet integrals and any split of their entities into custom, full and empty, the packed coefficients of every entity start with its original coefficients (for interior facets those of both sides, contiguously), followed by an offset that is zero for empty, negative for full and, for custom entities, leads the kernel to exactly that entity's data: per quadrature rule the number of points, the points (of both sides for interior facets, also in the facet's own frame for mixed-dimensional integrals), the weights and, for unfitted boundaries, the normals. Updating coefficients changes the original values only and equals packing afresh.",
  ["inputs", "configurations", "histories"], "every entity list (any order, any numbering of integrals), split into custom/full/empty, scalar type, number of coefficients, integral type, quadrature rules and number of points including zero",
  "The one installed test reimplements the layout instead of calling the packer.",
  [D+"custom_coefficients.py"], [("CustomCoeffsPacker", D+"custom_coefficients.py")])
P("P08", "Custom forms integrate every term over its own entities and leave forms intact",
  "For every form or list of forms, creating the custom forms gives one custom form per non-empty form, in order (None for empty ones). Every integral keeps its integrand, metadata and the entities of its subdomain; exterior-facet integrals defined everywhere are computed over all the facets of the unfitted domain for exterior integrals, with an identifier that no other subdomain uses. The function spaces, coefficients, constants and entity maps handed over are those of the form, and the given forms, their (possibly shared) integrals, metadata and subdomain data are not modified, so creating custom forms again gives the same result.",
  ["inputs", "configurations", "histories"], "every combination of integrals, subdomain identifiers (integers, tuples, everywhere), subdomain data, shared integrals and repeated calls",
  "Tests build a few forms, one at a time, and never reuse them.",
  [D+"forms.py"], [("form_custom", D+"forms.py")])
P("P09", "The unfitted-boundary measure follows Nanson's formula and survives restriction",
  "For every (square or rectangular) Jacobian and reference normal, the mapped normal is orthogonal to the mapped tangents, points to the same side and has unit length or the length of Nanson's formula; multiplying an integrand by the measure multiplies it by that length exactly once. Restricting or reconstructing the measure (subdomain, metadata, degree, data, any sequence of them) keeps its type, domain, custom metadata and all the attributes that were not changed, without modifying the user's metadata.",
  ["inputs", "histories"], "every Jacobian, normal, metadata and sequence of restrictions",
  "Tests restrict the measure once and evaluate it on affine axis-aligned cells.",
  [D+"boundary.py"], [("ds_bdry_unf", D+"boundary.py"), ("mapped_normal", D+"boundary.py")])
P("P10", "Linear and nonlinear problems assemble with up-to-date custom coefficients",
  "For every history of solves, residual and Jacobian evaluations with changing coefficients, solutions and boundary conditions, the system solved (assembled) is that of the forms with their current coefficients: nothing is left over from earlier evaluations, each form of a list gets its own coefficients, the boundary values are lifted with the same matrix, constrained rows hold the boundary values, and ghost contributions are added before the system is used.",
  ["inputs", "histories"], "every sequence of evaluations, form or list of forms, boundary conditions and coefficient updates",
  "Tests solve one problem once; stale coefficients only show over a history.",
  [D+"petsc.py"], [("LinearProblem, NonlinearProblem", D+"petsc.py")])
P("K01", "Kernel rewriting preserves the computation of the original kernel",
  "For every generated kernel body, splitting it into its parts (tables, geometry, quadrature loops) and reassembling loses nothing, and each rewritten access means the same as the original one when the number of points and tables are unchanged.",
  ["programs"], "every kernel text the form compiler's grammar can produce: any number of quadrature rules, tables and loops",
  "Kernel texts of arbitrary forms cannot be enumerated by fixed examples; the installed tests do not call the rewriter.",
  [D+"_kernel_body.py", D+"parsing_utils.py", D+"codegeneration.py"], [("kernel body parser", D+"_kernel_body.py")])
P("K02", "Generated custom kernels compute the integral over the given points",
  "For every supported integrand, running the generated kernel with a custom quadrature gives the element tensor obtained by summing the integrand at those points with those weights (and normals); with a full entity it gives what the unmodified kernel gives, and with an empty entity it leaves the tensor unchanged.",
  ["programs", "inputs"], "every mix of elements, coefficients, quadrature rules, facets, derivatives and scalar types in an integral, and every quadrature including zero points",
  "End-to-end tests need the whole finite-element stack, which is not run here; they sample few forms.",
  [D+"codegeneration.py", D+"_kernel_body.py", D+"fe_table.py", D+"_shim/qugar_basix_shim.cpp"], [("generate_code", D+"codegeneration.py")])
P("K03", "Element tables are classified, grouped and looked up without confusion",
  "For every set of tables in an integral, each table is associated with the element, component, derivative and restriction its name states, tables are grouped so that a group shares one tabulation, no table is lost or duplicated, their order does not depend on the numbers the form compiler gives to the elements in a session, and the recomputed table holds the values of that component and derivative at the custom points.",
  ["programs", "configurations"], "every combination of elements (blocked, mixed, vector valued), derivative orders, facets and quadrature rules",
  "Table naming and layout interact in ways that a few forms do not reach.",
  [D+"fe_table.py", D+"integral_data.py", D+"quadrature_data.py"], [("FETable", D+"fe_table.py")])
# ------------------------------------------------------------------------------------------------ bindings, end to end
P("W01", "Arrays and objects cross the Python bindings unchanged",
  "For every array given from Python, whatever its layout in memory, the library sees its values in order, and every array or object read back (grid breaks, boxes, centres, cells, facets, rules, meshes) has the documented shape, type and values. What was read keeps its values after every object it came from is gone. Queries for given cells or facets return exactly the given ones with that status.",
  ["inputs", "layouts", "object lifetimes"], "every array layout and type, every order of destruction, every query",
  "The bindings are not compiled by the installed tests.",
  [W+"common.cpp", W+"cut_quad.cpp", W+"unf_domain.cpp", W+"reparam.cpp", W+"quad.cpp"], [("declare_cartesian_grid_tp", W+"common.cpp"), ("create_quadrature", W+"cut_quad.cpp")])
P("W02", "Implicit functions built from Python are the documented shapes",
  "For every documented argument of the Python constructors (by position or name, with defaults, Bezier or not, either precision), the function is negative inside and positive outside the described shape and its gradient is that of its values; negative, sum, difference and affinely transformed functions are what they say; arguments documented as invalid are refused.",
  ["inputs"], "every constructor, argument, default and combination",
  "The Python constructors are not importable in the installed tests.",
  ["python/qugar/impl/impl_function.py", W+"impl_functions.cpp"], [("create_disk", "python/qugar/impl/impl_function.py")])
P("W03", "The divergence theorem holds on every unfitted Cartesian mesh built from Python",
  "For every function, box, number of cells, number type and number of processes, the full and cut cells, the facets for exterior integrals and the unfitted boundaries of the created mesh, with their custom rules, enclose the domain: the integral of the divergence of a field in the domain is its flux through the boundary, the boundary normals integrate to zero, and the measure is that of the domain.",
  ["inputs", "configurations"], "every implicit domain, box, grid, coordinate type, distribution and numbering of the mesh",
  "The tests of this guarantee need packages that are not installed, and use two shapes on one grid.",
  ["python/qugar/mesh/unfitted_cart_mesh.py", "python/qugar/mesh/unfitted_domain.py", "python/qugar/mesh/unfitted_domain_abc.py", W+"cut_quad.cpp"], [("create_unfitted_impl_Cartesian_mesh", "python/qugar/mesh/unfitted_cart_mesh.py")])
P("W04", "Reparameterizations become finite-element meshes with the same nodes",
  "For every domain, degree and dimension, the created reparameterization is that of the requested degree and kind (volume or level set), and the mesh made of its cells or of its wires has an element of that degree and dimension, the same points, every node at the lattice position the element library gives it, and keeps its cells on their process.",
  ["inputs", "configurations"], "every implicit domain, degree, kind of mesh and process",
  "No installed test imports this module.",
  ["python/qugar/reparam/reparam.py"], [("create_reparam_mesh", "python/qugar/reparam/reparam.py")])
P("U01", "Dependencies are accepted exactly in their documented version ranges",
  "A version X.Y.Z is in a range exactly if it is not smaller than the minimum and smaller than the maximum, compared number by number; FEniCSx is available exactly if DOLFINx, Basix, FFCx and UFL are found with versions in their documented ranges, and without it the package can still be imported while the modules that need it refuse.",
  ["inputs", "environments"], "every version triple and set of installed packages",
  "Only the installed versions are ever seen.",
  ["python/qugar/utils.py", "python/qugar/__init__.py"], [("check_version_in_range", "python/qugar/utils.py")])
P("J01", "Just-in-time compiled forms are cached per form, options and compiler arguments",
  "Through every history of compilations on shared cache directories, failed ones included, a form is compiled once per form, option values, compiler arguments and debug mode, and later taken from the cache; what is returned is always the compiled code of exactly that form with those options together with the integral data of the form that was passed, never what FFCx cached for the same form without custom quadratures. A failed compilation raises its error and does not block the next one. The compiled module is linked against the tabulation shim and gets the given libraries and arguments; options, log handlers and environment of the caller are left as they were, whether the compilation succeeds or fails. Anything but a form is refused.",
  ["inputs", "histories", "faults"], "every sequence of compilations of any forms with any options, arguments, cache directories, environment and failures",
  "The tests of this guarantee need packages that are not installed; they compile on a warm cache and never fail.",
  ["python/qugar/dolfinx/jit.py", "python/qugar/dolfinx/compiler.py"], [("compile_forms", "python/qugar/dolfinx/jit.py"), ("ffcx_jit", "python/qugar/dolfinx/jit.py"), ("compile_ufl_objects", "python/qugar/dolfinx/compiler.py")])
P("A01", "Scalars are assembled with the coefficients and constants that are given",
  "On every DOLFINx 0.10 version, assembling a scalar uses the given coefficients and constants, and packs from the form exactly those that are not given, whichever way the function is reached and however often the repair is applied; on other versions DOLFINx is left untouched.",
  ["inputs", "environments", "histories"], "every version of DOLFINx, set of constants and coefficients, and number of times the repair is applied",
  "The tests of this guarantee need packages that are not installed.",
  ["python/qugar/dolfinx/_dolfinx_patches.py"], [("apply_patches", "python/qugar/dolfinx/_dolfinx_patches.py")])
P("V01", "Visualization data sets show every cell, facet and point where it is",
  "For every grid, unfitted domain (with or without a mesh) and choice of what to include, the data sets contain exactly the requested cells, facets, quadrature points and reparameterization cells, at their physical position, with their status, weights, normals and numbers (lexicographical and DOLFINx local, global and facet ones), and the nodes of reparameterization cells in VTK's order for their cell type.",
  ["inputs", "configurations"], "every implicit domain, grid, numbering of the mesh, number of points, degree and choice of cut, full and empty entities",
  "The tests of this guarantee need packages that are not installed and compare hashes of three shapes.",
  ["python/qugar/plot/pyvista_tools.py"], [("quadrature_to_PyVista", "python/qugar/plot/pyvista_tools.py"), ("unfitted_domain_to_PyVista", "python/qugar/plot/pyvista_tools.py"), ("unfitted_domain_facets_to_PyVista", "python/qugar/plot/pyvista_tools.py"), ("reparam_mesh_to_PyVista", "python/qugar/plot/pyvista_tools.py")])
P("S01", "On-the-fly tabulation equals the element library's own tabulation",
  "For every element the library can create, derivative order and point set, the table computed at run time equals the element library's tabulation, in the documented layout (derivative, point, degree of freedom, component) and in both precisions. Elements the library rejects, invalid handles, points of another dimension than the cell and too small buffers are reported as negative codes without writing outside the caller's buffer.",
  ["inputs", "configurations"], "every element family, cell, degree, variant, continuity, derivative order, number of points (including zero) and buffer capacity",
  "The installed test samples some elements with one point set.",
  [D+"_shim/qugar_basix_shim.cpp"], [("qugar_tabulate_*", D+"_shim/qugar_basix_shim.cpp")])
P("S02", "The element registry keeps one handle per element through any history",
  "For every sequence of registrations, tabulations, scratch requests and resets, equal element parameters get the same handle, different ones get different handles that keep their meaning until a reset, each precision has its own registry whose size is the number of elements registered in it, rejected elements do not enter it, handles of no registered element are refused, and scratch memory is at least as large as requested and distinct for each precision.",
  ["histories"], "every sequence of registry operations, including reset, over families of elements that differ in a single parameter",
  "The installed tests register a few elements in a fixed order.",
  [D+"_shim/qugar_basix_shim.cpp"], [("registry", D+"_shim/qugar_basix_shim.cpp")])
P("S03", "The run-time library is built once and is always usable",
  "For every history of calls from one or more processes and threads, the build step returns a directory holding a complete library built from the current source; a current library is reused without compiling, concurrent callers compile once, a source or builder modified after the library was built leads to a new one, a failed or interrupted build is reported and never leaves a partial library behind for anybody, and the next call builds again. The compiler is the one of $CXX, else one of the active environment, else one on PATH, else an error is raised.",
  ["schedules", "crash_points", "histories"], "every number of concurrent callers, source change, compiler selection, failure and crash point of the compiler",
  "The installed test starts a fixed set of processes and no faults.",
  [D+"_shim/__init__.py"], [("ensure_built", D+"_shim/__init__.py")])
P("S04", "Kernels of several threads can share the tabulation shim",
  "For every interleaving of registrations, tabulations, queries and scratch requests from several threads there is no data race, every thread gets the right values, all threads agree on the handle of an element, every element is registered once, and the scratch memory of a thread is private to it.",
  ["schedules"], "every program of registry operations of several threads and every interleaving of them",
  "The installed tests are sequential.",
  [D+"_shim/qugar_basix_shim.cpp"], [("registry and mutex", D+"_shim/qugar_basix_shim.cpp")])
path = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
path.write_text("".join(json.dumps(o) + "\n" for o in OUT))
print(len(OUT), "properties")
