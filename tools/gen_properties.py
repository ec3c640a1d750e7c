#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "Parallel iteration over disjoint subsets delivers each subset exactly once",
 "Iterating in parallel over the disjoint subsets of a collection visits every subset exactly once, with its own label and with mutable access to exactly the records that its indices name, in order, whatever way the iteration is split into tasks and whatever standard parallel-iterator adaptor drives it. No record is ever reachable from two subsets that can run at the same time. A collection of subsets that is not pairwise disjoint is refused when it is built with the checked constructor.",
 ["schedules", "inputs"],
 "for all families of pairwise disjoint index sets (empty sets and the empty family included), all split trees and consumption orders a parallel runtime may choose, and all worker interleavings",
 "Tests run a few fixed subsets on the real thread pool, which realises one arbitrary split tree per run; splits at the ends, mixed front/back consumption and rare interleavings are not produced.",
 ["fenris-paradis/src/lib.rs", "fenris-paradis/src/slice.rs", "fenris-paradis/src/adapter.rs"],
 [("split points and label slicing", "fenris-paradis/src/lib.rs: DisjointSubsetsProducer::split_at"), ("checked construction", "fenris-paradis/src/lib.rs: DisjointSubsets::try_from_disjoint_subsets"), ("unsafe raw record access", "fenris-paradis/src/lib.rs: UnsafeParAccess impls, SubsetAccess")],
 [("subsets / labels / max_index", "the families of indices handed out and the bound they were checked against", "fenris-paradis/src/lib.rs: DisjointSubsets")],
 ["the records and labels seen by the closure passed to the parallel iterator"])

prop("C02", "Greedy colouring partitions the elements into conflict-free colours",
 "Colouring the elements of a connectivity puts every element in exactly one colour, and no two elements of one colour share an index. Every subset of a colour lists exactly the indices of the element its label names, colours are numbered without gaps, no element could have been placed in an earlier colour without conflicting with an earlier element, and the result depends on nothing but the input.",
 ["inputs"],
 "for all lists of element node sets, including empty elements, isolated nodes and elements that touch arbitrarily",
 "Tests check disjointness on a handful of families; the number of conflict graphs is exponential and a missed conflict is a data race that corrupts a sum only under unlucky timing.",
 ["fenris-paradis/src/coloring.rs", "src/assembly/global.rs"],
 [("greedy colouring", "fenris-paradis/src/coloring.rs: sequential_greedy_coloring"), ("node colouring of a mesh", "src/assembly/global.rs: color_nodes")])

prop("C03", "Parallel matrix assembly equals the serial element sum on every schedule",
 "The matrix assembled in parallel equals the matrix assembled serially and the direct sum of all element matrices scattered to their nodes, on every schedule of the worker threads. Assembling into an existing matrix adds to what it holds, an assembler that is reused for problems of other sizes gives the same results as a fresh one, and a matrix entry that no element touches is left alone.",
 ["schedules", "inputs", "histories"],
 "for all element connectivities (with distinct nodes in an element), solution dimensions, element matrices, colourings, sequences of assembler reuse, and worker schedules",
 "The tests compare a few meshes on whatever interleaving the pool happens to give; a lost update or a stale buffer needs a specific interleaving or reuse order.",
 ["src/assembly/global.rs", "fenris-sparse/src/sparse.rs", "src/assembly/local.rs", "fenris-paradis/src/lib.rs"],
 [("serial scatter", "src/assembly/global.rs: CsrAssembler::assemble_into_csr, add_element_row_to_csr_row"), ("coloured parallel scatter", "src/assembly/global.rs: CsrParAssembler::assemble_into_csr"), ("raw CSR rows", "fenris-sparse/src/sparse.rs: ParallelCsrRowCollection")],
 [("workspace", "per-thread element buffers reused between assemblies", "src/assembly/global.rs: CsrParAssembler")],
 ["the returned matrix"])

prop("C04", "Assembled sparsity pattern is exactly the set of coupled degrees of freedom",
 "The sparsity pattern assembled for a set of elements contains the entry (i, j) if and only if some element contains both the node of i and the node of j, in valid compressed-row form (sorted, no duplicates, one row per degree of freedom). The serial and the parallel construction give the same pattern on every schedule of the worker threads and after every history of earlier uses.",
 ["schedules", "inputs", "histories"],
 "for all element connectivities (empty elements, isolated nodes and repeated nodes included), solution dimensions, and worker schedules",
 "Tests use a few small connectivities on an uncontrolled thread pool; they cannot enumerate connectivities or the orders in which threads insert into the shared row sets.",
 ["src/assembly/global.rs"],
 [("serial pattern", "src/assembly/global.rs: CsrAssembler::assemble_pattern"), ("parallel pattern with per-node locks", "src/assembly/global.rs: CsrParAssembler::assemble_pattern")])

prop("C05", "Vector and scalar assembly equal the element sum on every schedule",
 "The vector (respectively scalar) assembled from a set of elements is the sum of all element contributions scattered to their nodes, whether it is computed serially or in parallel and on every schedule of the worker threads. Assembling into an existing vector adds to its contents, gathering reads exactly the degrees of freedom of the listed nodes, and reuse of an assembler leaves no trace.",
 ["schedules", "inputs", "histories"],
 "for all element connectivities, solution dimensions, element vectors and scalars, and worker schedules",
 "Tests compare a handful of meshes on an arbitrary interleaving; lost or duplicated contributions depend on how the runtime splits and interleaves the work.",
 ["src/assembly/global.rs"],
 [("serial vector assembly", "src/assembly/global.rs: VectorAssembler::assemble_vector_into"), ("parallel vector assembly", "src/assembly/global.rs: VectorParAssembler::assemble_vector_into"), ("scalar assembly", "src/assembly/global.rs: assemble_scalar, par_assemble_scalar"), ("gather / scatter", "src/assembly/global.rs: gather_global_to_local, add_local_to_global")])

prop("C06", "An element failure surfaces as an error and leaves the assembler reusable",
 "If the computation of any element's contribution fails, assembly reports an error that was produced by one of the failing elements: it never reports success, panics or hangs, on every schedule and for every set of failing elements. The same assembler afterwards assembles a correct problem correctly.",
 ["fault_sequences", "schedules", "histories"],
 "for all sets of failing elements, all assembly entry points (matrix, vector, scalar; serial and parallel; fresh and into existing storage), and all worker schedules",
 "No existing test injects a failure into an element assembler at all.",
 ["src/assembly/global.rs"],
 [("error short-circuit", "src/assembly/global.rs: try_for_each in CsrParAssembler / VectorParAssembler, try_reduce in par_assemble_scalar")])

prop("C07", "Composed element assemblers behave like the elements they were composed from",
 "Aggregating several element assemblers presents exactly the elements of the first, then of the second, and so on, with their own nodes and contributions; renumbering the nodes of an assembler changes only the node numbers; and transforming an assembler applies the transformation exactly once to each element contribution. This holds for empty parts and for any nesting of these combinators.",
 ["inputs", "programs"],
 "for all expressions built from the combinators up to a nesting depth, over parts with any number of elements (zero included)",
 "The tests aggregate non-empty assemblers in one or two fixed arrangements; empty parts and nested compositions are not exercised.",
 ["src/assembly/local.rs"],
 [("element to part lookup", "src/assembly/local.rs: AggregateElementAssembler"), ("node renumbering", "src/assembly/local.rs: MapElementNodes or equivalent"), ("transformations", "src/assembly/local.rs: transformed element matrix / vector assemblers")])

prop("C08", "Dirichlet conditions rewrite exactly the constrained rows and columns",
 "Applying homogeneous Dirichlet conditions to a system zeroes every off-diagonal entry in the rows and columns of the constrained degrees of freedom, gives those rows a nonzero diagonal, and leaves every other entry of the matrix bit-for-bit unchanged; the right-hand side is zeroed at exactly the constrained degrees of freedom. The result is the same for the sparse and the dense form up to the choice of the diagonal value and does not depend on the order of the node list, and the free unknowns of the constrained system solve the system restricted to the free degrees of freedom.",
 ["inputs"],
 "for all small symmetric-pattern matrices with a full diagonal, solution dimensions, and sets of constrained nodes in every order (the empty and the full set included)",
 "Existing tests check one or two matrices with one node list.",
 ["src/assembly/global.rs"],
 [("sparse", "src/assembly/global.rs: apply_homogeneous_dirichlet_bc_csr"), ("dense", "src/assembly/global.rs: apply_homogeneous_dirichlet_bc_matrix"), ("right-hand side", "src/assembly/global.rs: apply_homogeneous_dirichlet_bc_rhs")])

prop("C09", "Conjugate gradients keeps its contract under every failure and reuse history",
 "A conjugate gradient solve that reports success returns an iterate that the stopping criterion accepted, after no more than the permitted number of iterations, and on a symmetric positive definite system it reaches the solution within as many iterations as there are unknowns; an operator, preconditioner or stopping criterion failing at any call makes the solve return that failure, and an indefinite operator or preconditioner is reported as such. For a zero right-hand side the zero solution is returned, and the stopping criterion is reset once at the start of every solve. The reported iteration count is the number of iterations made, and the outcome of a solve does not depend on what the workspace was used for before.",
 ["fault_sequences", "inputs", "histories"],
 "for all small systems over a lattice of entries (definite, semidefinite, indefinite), initial guesses, iteration limits, call positions at which the operator, preconditioner or criterion fails, and workspace histories",
 "Tests solve a few definite systems; none makes an operator or preconditioner fail in the middle, and none reuses a workspace across sizes.",
 ["fenris-sparse/src/cg.rs"],
 [("iteration and error returns", "fenris-sparse/src/cg.rs: ConjugateGradient::solve_with_guess"), ("workspace", "fenris-sparse/src/cg.rs: CgWorkspace")])

prop("C10", "Newton never claims convergence it has not reached",
 "Newton's method reports success only if the residual norm at the returned point, as evaluated by the user's function, is within the tolerance, and reports a failure otherwise: when the iteration limit is exceeded, when the Jacobian solve fails, and when the line search fails. The number of iterations reported is the number of steps taken and never exceeds the limit, and a backtracking line search that succeeds leaves the point, the residual and the step length mutually consistent and satisfies the sufficient decrease condition. Finite difference Jacobians and gradients leave the point unchanged and are exact for quadratics up to rounding.",
 ["inputs", "fault_sequences", "histories"],
 "for all scripted functions over a small alphabet of residual values (non-finite values included), iteration limits, tolerances, and positions at which the Jacobian solve or the line search fails",
 "The tests solve one or two smooth problems that converge; no test drives the iteration through failure, limit or non-finite residuals.",
 ["fenris-optimize/src/newton.rs", "fenris-optimize/src/calculus.rs"],
 [("iteration", "fenris-optimize/src/newton.rs: newton_line_search"), ("Armijo backtracking", "fenris-optimize/src/newton.rs: BacktrackingLineSearch")])

prop("C11", "Mesh boundaries and cell subsets are exactly what the face incidence says",
 "A face is reported as a boundary face if and only if it belongs to exactly one cell, with the right cell and local face number; boundary cells and boundary vertices are exactly those of the boundary faces. The extracted surface mesh consists of exactly the boundary faces on the same geometry, and keeping a selection of cells yields a mesh with exactly those cells, in order, on exactly the vertices they use.",
 ["inputs"],
 "for all small meshes: every subset of the cells of reference grids, under relabelling of vertices and rotation of the local cell numbering, for all cell types with faces",
 "Tests look at one or two meshes per operation; incidence bugs depend on the particular combination of shared faces and numbering.",
 ["src/mesh.rs", "src/connectivity.rs"],
 [("boundary faces", "src/mesh.rs: find_boundary_faces, find_boundary_cells, find_boundary_vertices"), ("surface and sub-meshes", "src/mesh.rs: extract_surface_mesh, keep_cells"), ("faces of a cell", "src/connectivity.rs: get_face_connectivity")])

prop("C12", "Reordering a mesh is a bijection that preserves the mesh",
 "A permutation is accepted if and only if it is a bijection, its inverse undoes it, and applying it moves every entry to its place. Reordering a mesh renames vertices and cells by bijections and changes nothing else, and the (reverse) Cuthill-McKee ordering of any symmetric sparsity pattern, connected or not, is a permutation in which every connected component is numbered breadth-first from a vertex of least degree with new neighbours taken in order of degree.",
 ["inputs", "schedules"],
 "for all index vectors up to a length (valid or not), all graphs up to a number of nodes, all small meshes, and all worker schedules of the parallel reordering",
 "A single snapshot mesh is reordered in the tests; disconnected, empty and degenerate graphs are not.",
 ["src/mesh/reorder.rs"],
 [("permutation", "src/mesh/reorder.rs: Permutation"), ("ordering", "src/mesh/reorder.rs: cuthill_mckee, reverse_cuthill_mckee"), ("mesh reordering", "src/mesh/reorder.rs: reorder_mesh_par, MeshPermutation::apply")])

prop("C13", "Uniform refinement produces a conforming subdivision of the same domain",
 "Uniform refinement of a triangle mesh splits every triangle into four children, similar to it, that exactly tile it and keep its orientation; every new vertex is the midpoint of the edge it subdivides and is created exactly once however many cells share that edge, and the original vertices keep their positions. With a user-defined refinement scheme the generic driver likewise creates every vertex the scheme asks for exactly once, at the average of the vertices it subdivides. Refining a conforming mesh gives a conforming mesh with no hanging or duplicate vertices, and refining repeatedly is the same as refining step by step.",
 ["inputs"],
 "for all small conforming triangle meshes (every subset of grid cells, every local numbering), every vertex position on a lattice, and repeat counts up to a bound",
 "Tests refine one or two meshes and check snapshots; sharing of midpoints depends on the relative numbering of neighbouring cells.",
 ["src/mesh/refinement.rs", "src/mesh/refinement/detail.rs"],
 [("refinement", "src/mesh/refinement.rs: refine_mesh"), ("child tables", "src/mesh/refinement/detail.rs")])

prop("C14", "Converting a mesh between element types preserves geometry and conformity",
 "Converting a mesh to a higher-order element type keeps the original vertices in place, places every new node at the position the element's geometry map assigns to it, and creates each edge, face and interior node exactly once however many cells share it; converting to simplices or to polyhedra keeps the domain, its volume and the orientation of the cells and stays conforming. Converting to a higher order and back gives the original cells.",
 ["inputs"],
 "for all small meshes of every convertible cell type: every subset of grid cells, every admissible local numbering of the cells, lattice vertex positions",
 "Tests convert single cells or one grid; mistakes in shared edge and face numbering only show for particular relative orientations of neighbouring cells.",
 ["src/mesh_convert.rs"],
 [("conversions", "src/mesh_convert.rs: From impls between mesh types")])

prop("C15", "Procedural mesh generators produce valid meshes of the requested domain",
 "For every valid choice of parameters the procedural generators produce a conforming mesh of positively oriented cells without unused or duplicate vertices that exactly fills the requested rectangle or box at the requested resolution, and for zero cells they produce the empty mesh. Voxelising a shape keeps exactly the grid cells that the distance function of the shape selects, and approximating it moves exactly the vertices outside of the shape onto its boundary.",
 ["inputs", "configurations"],
 "for all resolutions, unit counts, cell counts and offsets up to a bound, and all small voxel configurations",
 "Tests snapshot a few parameter choices.",
 ["src/mesh/procedural.rs"],
 [("generators", "src/mesh/procedural.rs: create_rectangular_uniform_quad_mesh_2d, create_rectangular_uniform_hex_mesh, create_rectangular_uniform_tet_mesh, create_unit_*"), ("voxelisation", "src/mesh/procedural.rs: voxelize_sdf_2d, voxelize_bounding_box_2d")])

prop("C16", "Every element's basis is a nodal, consistent finite element basis",
 "For every element type the basis functions are one at their own node and zero at the others, sum to one everywhere with gradients summing to zero, reproduce every polynomial of the element's order, and have gradients equal to the derivatives of the values. The geometry map is the (multi)linear map determined by the corners: it takes reference nodes to the element's vertices and its Jacobian is its derivative, for every element shape. Mapping a point of an element back to reference coordinates recovers them, and projecting a point onto an element always ends, with the closest point of its plane or an error.",
 ["inputs"],
 "for all element types, all basis functions, all points of a reference lattice dense enough to determine the polynomials, and all lattice perturbations of the element's vertices",
 "Tests sample random points for some of the elements and do not check all of these identities for all of them.",
 ["src/element.rs", "src/element/segment.rs", "src/element/triangle.rs", "src/element/quadrilateral.rs", "src/element/tetrahedron.rs", "src/element/hexahedron.rs"],
 [("bases and geometry maps", "src/element/*.rs: evaluate_basis, gradients, map_reference_coords, reference_jacobian")])

prop("C17", "Quadrature rules integrate every polynomial up to their strength exactly",
 "Every quadrature rule offered for a reference domain integrates every polynomial up to its stated strength exactly, has all points in the closed reference domain and as many weights as points, and asking for a strength beyond what is available is refused rather than answered with a weaker rule. The canonical mass, stiffness and source rules of every element integrate exactly what their documentation promises, and subdividing a rule preserves its strength.",
 ["inputs", "configurations"],
 "for all reference domains, all strengths and sizes that can be requested, and all monomials up to the strength",
 "Tests check most rules at their nominal strength; beyond-range requests, the choice among rules and the univariate tables are sampled only.",
 ["fenris-quadrature/src/lib.rs", "fenris-quadrature/src/univariate.rs", "fenris-quadrature/src/tensor.rs", "fenris-quadrature/src/polyquad.rs", "src/quadrature.rs", "src/quadrature/canonical.rs", "src/quadrature/subdivide.rs", "src/quadrature/total_order.rs", "src/quadrature/tensor.rs"],
 [("rule selection", "fenris-quadrature/src/polyquad.rs, src/quadrature/total_order.rs"), ("univariate rules", "fenris-quadrature/src/univariate.rs"), ("canonical rules", "src/quadrature/canonical.rs"), ("subdivision", "src/quadrature/subdivide.rs")])

prop("C18", "Closest-element queries and interpolation agree with brute force",
 "Looking up the element closest to a point finds an element whose distance to the point is the least over all elements, together with reference coordinates of the closest point in it; a point inside the mesh is found in an element that contains it. Interpolating a field at points gives, in the order of the points, exactly the value and gradient of the field's finite element function there, a precomputed interpolator agrees with direct evaluation, and its parallel construction agrees with the sequential one on every schedule.",
 ["inputs", "schedules"],
 "for all small meshes (distorted, disconnected and empty included), all query points on a lattice inside, on and outside of the mesh, and all worker schedules of the parallel construction",
 "Tests query some points of a few meshes; the search structure prunes candidates, so a wrong bound shows only for particular point and mesh positions.",
 ["src/space/spatially_indexed.rs", "src/space/fixed_interpolator.rs", "src/space/interpolate.rs", "src/space/space_impl.rs", "src/element.rs"],
 [("search with pruning", "src/space/spatially_indexed.rs: SpatiallyIndexed::find_closest_element_and_reference_coords"), ("precomputed interpolation", "src/space/fixed_interpolator.rs: FixedInterpolator"), ("interpolation", "src/space/interpolate.rs")])

prop("C19", "Element assembly evaluates its weak form exactly, whatever ran before",
 "The element matrices, vectors and scalars that the elliptic, mass and source assemblers produce equal the quadrature sum of the weak form they stand for, written out directly, for every element type, solution dimension, operator, state and quadrature table. The previous content of the output is overwritten and nothing outside of it is touched; an elliptic form on an element whose map is singular at a quadrature point is refused. The result for an element never depends on which elements, element types or operators were assembled before on the same thread.",
 ["inputs", "histories"],
 "for all element types, solution dimensions, operators, lattice states and quadrature tables, and all sequences of assemblies on one thread up to a bound",
 "Tests compare a few element types with reference values in a fresh context; reuse of thread-local scratch space between different problems is not exercised.",
 ["src/assembly/local/elliptic.rs", "src/assembly/local/mass.rs", "src/assembly/local/source.rs", "src/assembly/local/quadrature_table.rs", "src/assembly/buffers.rs", "src/assembly/operators.rs", "src/assembly/operators/laplace.rs"],
 [("elliptic forms", "src/assembly/local/elliptic.rs"), ("mass", "src/assembly/local/mass.rs"), ("source", "src/assembly/local/source.rs"), ("scratch space", "src/assembly/buffers.rs")])

prop("C20", "Quadrature tables hand each element its own rule and data",
 "A quadrature table returns for every element exactly the points, weights and data that were supplied for it, whichever of the table representations holds them, and mapping the data or converting between representations changes nothing else. Asking for more or fewer data than the element has is refused instead of being answered with other elements' data.",
 ["inputs", "histories"],
 "for all tables of up to a few elements with rules of any length (empty rules included), in every representation, and all ways of building them",
 "Tests read back one or two tables.",
 ["src/assembly/local/quadrature_table.rs"],
 [("representations", "src/assembly/local/quadrature_table.rs: GeneralQuadratureTable, UniformQuadratureTable, CompactQuadratureTable")])

prop("C21", "Integrals and error norms equal their quadrature sums",
 "Integrals of functions over elements and meshes, in the volume and the gradient-dependent form, equal the weighted sum of integrand values at the mapped quadrature points times the volume change, and the L2 and H1-seminorm errors are the corresponding norms of the difference between the exact field and the finite element field. They are exact for polynomials the rules can integrate and zero for fields the space represents. Reusing a workspace or an interpolation buffer for other elements, spaces or reference points leaves nothing of the earlier use behind.",
 ["inputs", "histories"],
 "for all element types, small meshes, monomial integrands and lattice-valued finite element fields, in any order of evaluation on one thread",
 "Tests check convergence rates and a few integrals.",
 ["src/integrate.rs", "src/error.rs", "src/assembly/buffers.rs"],
 [("integration", "src/integrate.rs"), ("error estimators", "src/error.rs"), ("buffers", "src/assembly/buffers.rs: InterpolationBuffer")])

prop("C22", "Nested vectors behave like a vector of vectors under every operation sequence",
 "A nested vector holds, after every sequence of operations, exactly the arrays that a plain vector of vectors would hold, and every way of reading it (by index, by iteration, first and last, counts) gives the same content; indexing out of range fails without giving out other data. Building an inner array incrementally appends to the last array only.",
 ["histories"],
 "for all sequences of its operations up to a bounded length over a small alphabet of arrays (empty ones included)",
 "Tests build one or two nested vectors.",
 ["fenris-nested-vec/src/lib.rs"],
 [("offsets", "fenris-nested-vec/src/lib.rs: NestedVec::push, begin_array, get, iter")])

prop("C23", "Matrix decompositions and vector helpers compute what they promise",
 "The rotation SVD returns two rotations and a diagonal that multiply to the matrix, whatever its rank and orientation; the analytic polar decomposition converges in few iterations to the rotation factor of every orientation-preserving matrix from a nearby guess; extreme eigenvalues and condition numbers are those of the matrix, orthonormal frames are orthonormal, and gathering, interpolating and writing vectors and matrices to files loses and reorders nothing.",
 ["inputs"],
 "for all small lattice matrices (singular, reflected and badly scaled ones included), all rotations of the cube and guesses around the solution, all node lists up to a length, and all small matrix shapes (empty ones included)",
 "Tests use a few generic matrices; most of these helpers have no test at all.",
 ["src/util.rs", "fenris-geometry/src/util.rs", "src/assembly/global.rs"],
 [("decompositions", "src/util.rs: rotation_svd, apd, condition_number_symmetric, min_max_symmetric_eigenvalues"), ("frames", "fenris-geometry/src/util.rs: compute_orthonormal_vectors_3d"), ("gathering", "src/util.rs: extract_by_node_index, compute_interpolation, compute_interpolation_gradient; src/assembly/global.rs: gather_global_to_local"), ("matrix files", "src/util.rs: dump_matrix_to_file, dump_csr_matrix_to_mm_file, dump_mesh_connectivity_matrices")])

prop("C24", "Clipping and splitting polygons and polyhedra is exact set geometry",
 "Clipping a convex polygon, a polygon in space or a polyhedral mesh of convex cells by a half-space, by a sequence of half-spaces, or by another convex polygon or polyhedron gives exactly the points that lie in both, whichever way the sets touch (apart, nested, sharing vertices, edges or faces): polygons stay convex and keep their winding, cells stay closed polyhedra with plane faces and keep the face they share, unused vertices go, and areas and volumes add up. Splitting a convex polygon into triangles, or a mesh of strictly convex cells into tetrahedra, tiles the original, matching across shared faces for every order of vertices. Merging equal faces, finding boundary faces, keeping some cells, joining meshes and splitting edges do that and nothing else.",
 ["inputs"],
 "for all pairs of small lattice polygons, triangles, tetrahedra, boxes and half-spaces, degenerate contacts included",
 "Tests use random shapes, which are almost never in the degenerate relative positions that lattice shapes are in.",
 ["fenris-geometry/src/polygon.rs", "fenris-geometry/src/polytope.rs", "fenris-geometry/src/polymesh.rs", "fenris-geometry/src/primitives/quad.rs", "fenris-geometry/src/primitives/triangle.rs", "fenris-geometry/src/primitives/half_space.rs"],
 [("convex polygon clipping", "fenris-geometry/src/polytope.rs, polygon.rs"), ("poly mesh clipping", "fenris-geometry/src/polymesh.rs: intersect_half_space, intersect_convex_polyhedron"), ("triangulation", "fenris-geometry/src/polymesh.rs: triangulate, primitives/quad.rs: split_into_triangles")])

prop("C25", "Distances, closest points and intersections agree with exact geometry",
 "For every primitive (segment, line, plane, half-space, triangle, quadrilateral, simple polygon, tetrahedron, hexahedron) the closest point to a query point belongs to the primitive and no other point of it is closer; the (signed) distance is the distance to that point, negative exactly inside; containment is true inside and false outside. Segments, lines, planes, half-planes, disks and polygons intersect exactly where they meet, and a segment meets a polygon whenever it enters it, wherever its ends are. Areas, volumes, normals and orientations are those of the figure. A triangle's solid angle is the area of its image on the unit sphere, so winding numbers are one inside and zero outside of a closed outward-oriented surface.",
 ["inputs"],
 "for all small lattice instances of each primitive (every orientation) and all query points of a finer lattice around it, including points on vertices, edges and faces, where either side is accepted",
 "Tests sample random points or check a few hand-made cases; sign errors and missed regions live on low-dimensional sets and in rare orientations.",
 ["fenris-geometry/src/lib.rs", "fenris-geometry/src/primitives/line.rs", "fenris-geometry/src/primitives/plane.rs", "fenris-geometry/src/primitives/triangle.rs", "fenris-geometry/src/primitives/quad.rs", "fenris-geometry/src/primitives/tetrahedron.rs", "fenris-geometry/src/primitives/hexahedron.rs", "fenris-geometry/src/primitives/half_space.rs", "fenris-geometry/src/polygon.rs", "fenris-geometry/src/polytope.rs", "fenris-geometry/src/predicates.rs", "fenris-geometry/src/util.rs"],
 [("closest points and signed distances", "fenris-geometry/src/lib.rs: Distance, SignedDistance, ConvexPolyhedron, ConvexPolygon3d"), ("segments", "fenris-geometry/src/primitives/line.rs"), ("polygons", "fenris-geometry/src/polygon.rs: Polygon2d"), ("winding number", "fenris-geometry/src/primitives/triangle.rs: compute_solid_angle")])

prop("C26", "Bounding boxes and distance fields bound exactly what they describe",
 "An axis-aligned bounding box built from points is the smallest box that contains them, and union, growth, containment, intersection, closest and furthest point queries agree with point-wise geometry. The box of a triangle, quadrilateral, polygon, tetrahedron, hexahedron or mesh is that of its vertices. The signed distance function of a disk or box is the exact distance to its boundary, negative inside, a union is the smaller of its parts; the gradient, where one is returned, is a unit vector and the direction in which the distance grows fastest; and every point where it is not positive lies in the declared bounding box.",
 ["inputs", "programs"],
 "for all small lattice point sets, pairs of boxes and query points in one, two and three dimensions, and all distance-function expressions up to a nesting depth",
 "Tests check a few boxes and random points.",
 ["fenris-geometry/src/lib.rs", "fenris-geometry/src/sdf.rs"],
 [("boxes", "fenris-geometry/src/lib.rs: AxisAlignedBoundingBox"), ("distance functions", "fenris-geometry/src/sdf.rs: SignedDistanceFunction, SdfUnion")])

prop("C27", "Hyperelastic materials are consistent derivatives of their documented energy",
 "For every material and spatial dimension the energy density has its documented value, with zero energy and zero stress at rest; the stress is the derivative of the energy and the stress contraction the derivative of the stress, hence symmetric. Energy and stress of the Neo-Hookean and Saint Venant-Kirchhoff materials follow rotations of the world and of the material. Working from the displacement gradient gives the same as working from the deformation gradient, and stays accurate for tiny displacements in the logarithm of the determinant. Computing many contractions at once adds, scaled, the same blocks as computing them one at a time, on and above the block diagonal. An inverted or collapsed state of the Neo-Hookean material has infinite energy, and stresses and contractions that are not a number, never a panic.",
 ["inputs"],
 "for all materials, dimensions one to three, Lame parameters on a grid and deformation gradients on a lattice (rotations, stretches, shears, near-singular and compressed states), and all pairs of direction vectors",
 "Tests check derivatives at a few random deformations in some dimensions.",
 ["fenris-solid/src/materials.rs", "fenris-solid/src/lib.rs", "fenris-solid/src/logdet.rs", "fenris-solid/src/gravity_source.rs"],
 [("materials", "fenris-solid/src/materials.rs"), ("accurate log det", "fenris-solid/src/logdet.rs"), ("operator adaptors", "fenris-solid/src/lib.rs")])

prop("C28", "Loading a mesh file yields the described mesh or an error, never a crash",
 "Loading a mesh file returns exactly the vertices and the cells of the requested type that the file describes, in the order and node numbering of the format, whether it is text or binary, however nodes and elements are split into blocks, and whatever other cells or sections it contains. If the file is truncated, inconsistent, refers to nodes that do not exist, has sparse tags, or does not contain what was asked for, the result is an error; any other damage gives an error or what the file still says. Loading never panics and never returns a mesh whose cells refer to vertices that do not exist.",
 ["fault_sequences", "inputs"],
 "for all truncations and all single-token or single-line replacements, deletions, duplications and exchanges in valid files, and all valid files of up to a few nodes and elements in any entity blocks",
 "Tests load a few well-formed files; no test damages a file.",
 ["src/io/msh.rs"],
 [("loading", "src/io/msh.rs: load_msh_from_bytes, mesh_from_parsed_data")])

prop("C29", "Exported meshes describe the same mesh as the one in memory",
 "Exporting a mesh or a finite element field to the VTK format writes every vertex, every cell with a cell type of its shape and the node order that the format prescribes for that type (the 27-node hexahedron and the 20-node tetrahedron as their 20-node and 4-node sub-cells, every other cell with all its nodes), and every attribute with its values, scalar type, name and number of components; attributes of the wrong length are refused; reading an exported .vtk or .vtu file back gives the same mesh and fields. Exporting never alters or reorders the data in memory.",
 ["inputs", "configurations"],
 "for all element types, all small meshes and all combinations of point and cell attributes",
 "There is no test of the exported content for most element types.",
 ["src/io/vtk.rs"],
 [("cell types and ordering", "src/io/vtk.rs: VtkCellConnectivity"), ("data sets", "src/io/vtk.rs: FiniteElementMeshDataSetBuilder")])

prop("C30", "Saved objects read back unchanged, and damaged data break no type's promise",
 "Every object that can be serialised (meshes of every serialisable element type, nested vectors, disjoint subsets, quadrature tables with their data, fixed interpolators, polygons, polyhedral meshes and the other geometric primitives, densities and material parameters) is equal to the original when it is read back, in formats with and without field names and whatever the order of the fields; a cell of one type is never read as a cell with another number of nodes, and data that end early are refused. Data in which subsets share an index, lack a label or understate their largest index, and nested vectors whose offsets do not fit their data, are refused when they are read, never turned into an object that breaks what its type promises to the code that uses it.",
 ["inputs", "fault_sequences"],
 "for all serialisable values within the bounds, all formats of the serde data model that keep its values, and all damages of saved data (numbers replaced, entries lost, repeated or swapped, fields lost)",
 "Only two table types have a serialisation test, with one value each; the combinations of damaged fields that pass for an object are many, and a bad one is memory unsafety in safe code.",
 ["fenris-nested-vec/src/lib.rs", "fenris-paradis/src/lib.rs", "src/mesh.rs", "src/connectivity.rs", "src/assembly/local/quadrature_table.rs", "src/space/fixed_interpolator.rs", "fenris-geometry/src/polymesh.rs", "fenris-geometry/src/lib.rs", "fenris-solid/src/materials.rs"],
 [("offsets of arrays", "fenris-nested-vec/src/lib.rs: NestedVec"), ("disjointness relied upon by unchecked access", "fenris-paradis/src/lib.rs: DisjointSubsets"), ("serialised forms", "src/mesh.rs, src/connectivity.rs, src/assembly/local/quadrature_table.rs, src/space/fixed_interpolator.rs")],
 None,
 ["the object that deserialisation gives, or its error"])

prop("C31", "Quadrature rule files are read exactly or refused, and offered as shipped",
 "Reading a quadrature rule file gives one point with its weight for each line that is not blank, in the order of the lines and with exactly the numbers that the text names; a file in which a line has another number of entries, or an entry that is not a number, is refused with an error and never read in part. The rule that the library offers for a domain and a strength is the shipped rule file of the smallest sufficient strength, point by point, and an error when no shipped rule is strong enough.",
 ["inputs", "fault_sequences"],
 "for all texts, all damages of the shipped files, and all strengths of all six domains",
 "The parser has two example tests; partial or wrong lines combine in exponentially many ways, and an entry that is silently dropped or shifted gives a rule that still integrates constants.",
 ["polyquad-parse/src/lib.rs", "fenris-quadrature/src/polyquad.rs", "fenris-quadrature/rules/polyquad/expanded"],
 [("line and entry parsing", "polyquad-parse/src/lib.rs: parse_helper, parse2d, parse3d"), ("rule selection", "fenris-quadrature/src/polyquad.rs: triangle, quadrilateral, tetrahedron, hexahedron, prism, pyramid")])

prop("C32", "Reused assembly buffers hold exactly what was last put into them",
 "A basis function buffer that was sized for an element and then filled holds that element's nodes, basis values and gradients, in the element's own order and shape, however large or small the elements (of whatever space and dimension) that it held before; filling or writing one part changes no other part. A quadrature buffer that was filled from a table holds exactly that rule's weights and points, and its data where they were asked for; visiting the points gives each with its own weight and data, in order, and stops at the first failure with that failure's error.",
 ["inputs", "histories"],
 "for all sequences of fills of a buffer, in all orders of element sizes and dimensions",
 "Buffers live in thread-local workspaces and see every element of every mesh that the thread works on; a remainder of an earlier element shows only when a larger element comes before a smaller one or the parts are refreshed in an unusual order.",
 ["src/assembly/buffers.rs"],
 [("element nodes, values and gradients", "src/assembly/buffers.rs: BasisFunctionBuffer"), ("rule, points and data of an element", "src/assembly/buffers.rs: QuadratureBuffer, for_each_quadrature_point")])

prop("C33", "Cells, elements and moved meshes consist of the vertices they name",
 "For every connectivity type, the cell and the finite element made from a list of vertices consist of exactly the vertices that the connectivity names, in its order, and there is none when it names a vertex that does not exist; all ways of looking at the cells of a mesh agree. Translating or transforming a mesh changes each vertex exactly once and leaves the connectivity alone. Gathering the unknowns of an element takes that element's own unknowns. Elements of higher order made from elements of lower order are the same geometry with their nodes where they belong, and segments and triangles are kept when they are converted to elements and back.",
 ["inputs", "histories"],
 "for all vertex lists, all connectivities (existing and missing vertices, repeated or not), and all sequences of changes of the coordinates",
 "Twelve connectivity types each map node numbers to vertices by hand; a test with vertices in ascending order does not see two that are swapped, and the degenerate and missing vertices combine in exponentially many ways.",
 ["src/connectivity.rs", "src/mesh.rs", "src/element", "src/assembly/global.rs"],
 [("cells and elements of a connectivity", "src/connectivity.rs: CellConnectivity::cell, ElementConnectivity::element, populate_element_variables"), ("coordinates of a mesh", "src/mesh.rs: translate, transform_vertices, transform_all_vertices, get_cell, cell_iter"), ("elements from lower order", "src/element/*.rs: From impls")])

prop("C34", "Single precision gives what double precision gives, up to rounding",
 "The library is generic over the number type. Whatever it computes from numbers that both types represent exactly - reference maps and their inverses, closest points, indexed point location, assembled matrices, vectors and scalars, constrained systems, error norms, geometric queries and intersections, material responses, matrix decompositions, quadrature rules, solutions of linear and nonlinear systems, meshes - it computes in single precision with the same decisions (does it succeed, do these intersect, how many points) and with the same numbers up to rounding, at every scale: it does not fail, stall or lose digits because of a constant that is only meant for double precision.",
 ["inputs", "configurations"],
 "for all inputs, in every unit of length and place in space, for which double precision gives a well-conditioned answer",
 "Nearly all tests are in double precision; a tolerance, expansion or formula that is only good enough for double precision shows in single precision, for inputs of particular sizes.",
 ["src/element.rs", "src/element", "src/space/spatially_indexed.rs", "src/util.rs", "fenris-geometry/src", "fenris-solid/src", "fenris-sparse/src/cg.rs", "fenris-optimize/src/newton.rs", "fenris-quadrature/src"],
 [("inverse maps", "src/element.rs: map_physical_coordinates, project_physical_coordinates"), ("logarithm of the determinant", "fenris-solid/src/logdet.rs: log_det_F"), ("default criteria", "fenris-sparse/src/cg.rs: RelativeResidualCriterion"), ("decompositions", "src/util.rs: rotation_svd, apd")])

prop("C35", "A question has one answer, however it is asked",
 "Many quantities can be asked for in several ways: an element, the cell of a space, and an element in a space; a space and the same space behind a spatial index or a reference; quadrature rules as pairs, references, slices, parts, and tables with and without data; assemblers built in any order of their arguments and over any view of the space; single and batched integrals; parametric and non-parametric intersections, segments and their reverses, planes, half spaces and their complements; polygons, triangles and quadrilaterals as polygons; functions, the iterators over their results and parallel iterators. All these ways agree, for every input: they succeed and fail together, have the same number of items, and the same numbers up to a few roundings. Solvers give the same iterates for an operator or function and a reference to it, and for new and for used workspaces.",
 ["inputs", "configurations"],
 "for all inputs and all combinations of wrappers and forms of the question",
 "A test asks in one way; the other forms are delegations that nobody exercises, and a slip in one of them (a wrong index, a missing factor, an empty input that panics) shows only to the user who asks in that way.",
 ["src/space", "src/element.rs", "src/mesh.rs", "src/quadrature.rs", "src/assembly", "src/integrate.rs", "fenris-geometry/src", "fenris-sparse/src/cg.rs", "fenris-optimize/src", "fenris-paradis/src"],
 [("element in space", "src/space/mod.rs: ElementInSpace"), ("indexed space", "src/space/spatially_indexed.rs: SpatiallyIndexed"), ("rules", "fenris-traits/src and src/quadrature.rs: Quadrature"), ("polygons", "fenris-geometry/src/polygon.rs: Polygon2d, SimplePolygon2d::edge_iter"), ("segments and lines", "fenris-geometry/src/primitives/line.rs"), ("subsets", "fenris-paradis/src/lib.rs: DisjointSubsets")])

prop("C36", "Random generators keep their promises, also while shrinking",
 "The strategies for property-based testing that the library offers produce, for every stream of random words and in every state that any sequence of simplifications and complications reaches, only values as promised: boxes with minimum at most maximum and inside their range, vectors and points inside their range, half planes with unit normals, triangles of the requested orientation unless they have no area, segments with two different ends, nondegenerate triangles and quadrilaterals that are counterclockwise with positive area and no straight corner, convex quadrilaterals that are convex, parallelograms with equal opposite sides, tetrahedra that are not inverted, rectangular meshes of squares with at most the given number of cells and a whole number of them in each unit length, matrices of the requested shapes and entries, square shapes. The same stream gives the same value.",
 ["inputs", "histories"],
 "for all streams of random words and all shrinking histories",
 "The tests draw some values and never shrink, because they pass; a promise that is broken only after shrinking shows as a nonsensical minimal counterexample of somebody else's test.",
 ["fenris-geometry/src/proptest.rs", "src/proptest.rs", "src/util.rs"],
 [("segments that do not degenerate", "fenris-geometry/src/proptest.rs: nondegenerate_line_segment2d_strategy_f64"), ("triangles and quadrilaterals", "fenris-geometry/src/proptest.rs: nondegenerate_triangle2d_strategy_f64, convex_quad2d_strategy_f64"), ("elements and meshes", "src/proptest.rs: Arbitrary for Tet4Element, rectangular_uniform_mesh_strategy"), ("matrices", "src/util.rs: proptest::DMatrixStrategy")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
